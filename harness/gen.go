package main

import (
	"sort"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/oid"
	"github.com/alexispb/mygosnmp/pduerror"
)

// Boundary-biased random generators. They do not depend on the code under test.

func chance(k int) bool  { return rnd.Intn(k) == 0 }
func pick(xs ...int) int { return xs[rnd.Intn(len(xs))] }

var u32bounds = []uint32{0, 1, 2, 3, 4, 5, 6, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x100, 0x101, 0x7fff, 0x8000, 0xfffe, 0xffff,
	0x10000, 0x10001, 0x7fffff, 0x800000, 0xffffff, 0x1000000, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001,
	0xff000000, 0x00ff00ff, 0x01020304, 0x80402010, 0xfffffffe, 0xffffffff}

func genU32() uint32 {
	if chance(2) {
		return u32bounds[rnd.Intn(len(u32bounds))]
	}
	return rnd.Uint32() >> uint(rnd.Intn(32))
}

func genU64() uint64 {
	switch rnd.Intn(4) {
	case 0:
		return uint64(genU32())
	case 1:
		return uint64(genU32()) << 32
	case 2:
		return uint64(genU32())<<32 | uint64(genU32())
	}
	return rnd.Uint64() >> uint(rnd.Intn(64))
}

func genByte() byte {
	if chance(2) {
		return byte(pick(0, 1, 2, 4, 5, 6, 7, 8, 16, 127, 128, 254, 255))
	}
	return byte(rnd.Intn(256))
}

func genLen() int {
	switch k := rnd.Intn(100); {
	case k < 70:
		return rnd.Intn(10)
	case k < 90:
		return rnd.Intn(40)
	case k < 96:
		return 120 + rnd.Intn(20)
	default:
		return 250 + rnd.Intn(20)
	}
}

func genBytes() []byte {
	b := make([]byte, genLen())
	switch rnd.Intn(4) {
	case 0: // zeros
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	default:
		rnd.Read(b)
		if len(b) > 0 && chance(3) {
			b[len(b)-1] = 0
		}
	}
	return b
}

var texts = []string{"public", "100%", "%d", "50%d of %s", "%v%%", "a\nb", "tab\there", "\x00", "null\x00byte", "\u00e9\u00fc", "\u20ac 5", "\U0001F600",
	"\xff\xfe", "\xc3", "\xe2\x82", "ends in %", "00000000  01 02 03 04", "\r\n", " ", "  padded  ", "<empty>", "<nil>", "?", "'quoted'", "\"q\"", "{1 2}",
	"0123456", "01234567", "0123456789abcdef", "\x7f\x1b[0m", "a|b", "!", "%!"}

func genStr() string {
	switch rnd.Intn(4) {
	case 0:
		return texts[rnd.Intn(len(texts))]
	case 1:
		if chance(2) {
			return texts[rnd.Intn(len(texts))] + texts[rnd.Intn(len(texts))]
		}
	}
	return string(genBytes())
}

func genSubids(n int) []uint32 {
	r := make([]uint32, n)
	for i := range r {
		r[i] = genU32()
	}
	return r
}

var mibOids [][]uint32

// genMibOid is a registered OID, an instance of it, or one close to it.
func genMibOid() []uint32 {
	if mibOids == nil {
		var names []string
		for k := range oid.Name {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			if len(oid.Name[k]) > 0 {
				mibOids = append(mibOids, append([]uint32{}, oid.Name[k]...))
			}
		}
		mibOids = append(mibOids, []uint32{1, 3, 6, 1, 2, 1, 1, 3})
	}
	o := append([]uint32{}, mibOids[rnd.Intn(len(mibOids))]...)
	switch rnd.Intn(5) {
	case 0, 1:
		o = append(o, 0)
	case 2:
		o = append(o, uint32(1+rnd.Intn(3)))
	case 3:
		o = o[:len(o)-1]
	}
	return o
}

func genOid() []uint32 {
	switch rnd.Intn(15) {
	case 14:
		return genMibOid()
	case 0:
		return nil
	case 1:
		return []uint32{}
	case 2:
		return genSubids(1 + rnd.Intn(4))
	case 3: // beginnings of the internet prefix
		return []uint32{1, 3, 6, 1}[:1+rnd.Intn(4)]
	case 4, 5, 6: // prefix candidates
		x := []uint32{0, 1, 2, 4, 5, 127, 128, 254, 255, 256, 257, 511, 512, 0xff00, 0xffff, 0x10000, 0x10001, 0x1000000, 0x80000001, 0xffffffff}
		return append([]uint32{1, 3, 6, 1, x[rnd.Intn(len(x))]}, genSubids(rnd.Intn(7))...)
	case 7: // near misses of the prefix
		id := append([]uint32{1, 3, 6, 1, 4}, genSubids(rnd.Intn(4))...)
		id[rnd.Intn(4)] = []uint32{0, 1, 2, 3, 5, 6, 7, 257, 259, 262, 0x01000001}[rnd.Intn(11)]
		return id
	case 8:
		return []uint32{1, 3, 6, 1, uint32(rnd.Intn(258))}
	case 9: // long
		n := pick(60, 120, 122, 123, 124, 127, 128, 129, 132, 133, 134)
		if chance(2) {
			return append([]uint32{1, 3, 6, 1, uint32(rnd.Intn(7))}, genSubids(n)...)
		}
		return genSubids(n)
	case 10: // as long as the count byte allows
		if !chance(4) {
			return append([]uint32{1, 3, 6, 1, 4, 1}, genSubids(rnd.Intn(5))...)
		}
		n := pick(249, 250, 251, 254, 255)
		if chance(2) {
			return append([]uint32{1, 3, 6, 1, 1 + uint32(rnd.Intn(255))}, genSubids(n)...)
		}
		return genSubids(n)
	default:
		return append([]uint32{1, 3, 6, 1, 4, 1, 999}, genSubids(rnd.Intn(5))...)
	}
}

// genLongOid does not fit into the one-byte count.
func genLongOid() []uint32 {
	if chance(2) {
		return append([]uint32{1, 3, 6, 1, 1 + uint32(rnd.Intn(255))}, genSubids(pick(256, 257, 261, 300, 511, 512))...)
	}
	id := genSubids(pick(256, 257, 260, 261, 300, 511, 512, 513))
	if chance(3) {
		copy(id, []uint32{1, 3, 6, 1, 256})
	} else {
		id[0] = 2
	}
	return id
}

var valueTags = []asn.Tag{2, 4, 5, 6, 64, 65, 66, 67, 68, 70, 128, 129, 130}

func genValue(t asn.Tag) interface{} {
	switch t {
	case 2:
		return int32(genU32())
	case 4:
		return genStr()
	case 6:
		return genOid() // nil too
	case 64:
		return genIp()
	case 65, 66, 67:
		return genU32()
	case 68:
		if chance(12) {
			return []byte(nil)
		}
		return genBytes()
	case 70:
		return genU64()
	}
	if chance(10) {
		return genAnyValue()
	}
	return nil
}

func genIp() [4]byte {
	if chance(4) {
		return [][4]byte{{0, 0, 0, 0}, {255, 255, 255, 255}, {127, 0, 0, 1}, {0, 0, 0, 1}, {255, 255, 255, 0}, {224, 0, 0, 1}, {10, 0, 0, 0}, {192, 168, 100, 200},
			{169, 254, 0, 9}, {1, 2, 3, 4}, {100, 99, 10, 9}}[rnd.Intn(11)]
	}
	return [4]byte{genByte(), genByte(), genByte(), genByte()}
}

type oddString string
type oddOid []uint32

const nAnyValues = 21

func genAnyValue() interface{} { return anyValue(rnd.Intn(nAnyValues)) }

func anyValue(k int) interface{} {
	switch k {
	case 0:
		return nil
	case 1:
		return int32(genU32())
	case 2:
		return genU32()
	case 3:
		return genU64()
	case 4:
		return genStr()
	case 5:
		return genBytes()
	case 6:
		return genOid()
	case 7:
		return [4]byte{1, 2, 3, 4}
	case 8:
		return int(7)
	case 9:
		return int64(7)
	case 10:
		return uint(7)
	case 11:
		return uint16(7)
	case 12:
		return int16(7)
	case 13:
		return [5]byte{1}
	case 14:
		return []int{1}
	case 15:
		return true
	case 16:
		return 3.5
	case 17:
		x := int32(1)
		return &x
	case 18:
		return oddString("abc")
	case 19:
		return oddOid{1, 2}
	}
	return [3]byte{9}
}

func genVarbind() asn.Varbind {
	t := valueTags[rnd.Intn(len(valueTags))]
	return asn.Varbind{Oid: genOid(), Tag: t, Value: genValue(t)}
}

func genRange() agentx.SearchRange {
	return agentx.SearchRange{StartOid: genOid(), EndOid: genOid(), StartIncluded: byte(pick(0, 1, 1, 0, 1, int(genByte())))}
}

func genListLen() int {
	switch k := rnd.Intn(200); {
	case k < 180:
		return rnd.Intn(4)
	case k < 198:
		return rnd.Intn(10)
	default:
		return 30 + rnd.Intn(40)
	}
}

func genRanges() (l []agentx.SearchRange) {
	for i := genListLen(); i > 0; i-- {
		l = append(l, genRange())
	}
	return
}

func genVarbinds() (l []asn.Varbind) {
	for i := genListLen(); i > 0; i-- {
		l = append(l, genVarbind())
	}
	return
}

func genInt16() int16 {
	if chance(2) {
		return int16(pick(0, 1, 2, 127, 128, 255, 256, 257, 32767, 32766, -1, -32768, -2, -256, -32767))
	}
	return int16(rnd.Intn(65536) - 32768)
}
func genNonNeg16() int16 {
	v := genInt16()
	if v < 0 {
		v = -(v + 1)
	}
	return v
}

func genError() pduerror.Error {
	switch rnd.Intn(4) {
	case 0:
		return pduerror.Error(rnd.Intn(20))
	case 1:
		return pduerror.Error(255 + rnd.Intn(15))
	}
	return pduerror.Error(genU32())
}

func genRsub() byte {
	if chance(2) {
		return 0
	}
	return genByte()
}

func genParams(t agentx.PduTag) agentx.PayloadParams {
	switch t {
	case 1:
		return agentx.OpenParams{Timeout: genByte(), Oid: genOid(), Description: genStr()}
	case 2:
		return agentx.CloseParams{Reason: agentx.CloseReason(genByte())}
	case 3:
		return agentx.RegisterParams{Timeout: genByte(), Priority: genByte(), RangeSubid: genRsub(), Subtree: genOid(), UpperBound: genU32()}
	case 4:
		return agentx.UnregisterParams{Priority: genByte(), RangeSubid: genRsub(), Subtree: genOid(), UpperBound: genU32()}
	case 7:
		return agentx.GetBulkParams{NonRepeaters: genNonNeg16(), MaxRepeatitions: genNonNeg16()}
	case 16:
		return agentx.AddAgentCapsParams{Oid: genOid(), Description: genStr()}
	case 17:
		return agentx.RemoveAgentCapsParams{Oid: genOid()}
	case 18:
		return agentx.ResponseParams{SysUpTime: genU32(), Error: genError(), Index: genInt16()}
	}
	return agentx.NoParams{}
}

// allowed flags as in spec/Wire.tla AllowedBits; only used to aim the
// generator, the specification decides.
func allowedMask(t agentx.PduTag) agentx.Flags {
	f := agentx.Flags(16)
	switch t {
	case 3, 4, 18:
		f |= 1
	}
	switch t {
	case 14, 15, 18:
		f |= 2 | 4
	}
	switch t {
	case 1, 2, 9, 10, 11:
	default:
		f |= 8
	}
	return f
}

func genTag() agentx.PduTag { return agentx.PduTag(1 + rnd.Intn(18)) }

// genPdu makes a PDU that can be encoded.
func genPdu() agentx.Pdu { return genPduOf(genTag()) }

func genPduOf(t agentx.PduTag) agentx.Pdu {
	p := agentx.Pdu{Tag: t, Flags: agentx.Flags(rnd.Intn(32)) & allowedMask(t),
		SessionId: genU32(), TransactionId: genU32(), PacketId: genU32(), Params: genParams(t)}
	if p.Flags&8 != 0 {
		if !chance(5) {
			p.Context = genStr()
		}
	} else if chance(4) {
		p.Context = genStr()
	}
	if hasRanges(t) || chance(6) {
		p.Ranges = genRanges()
	}
	if hasVarbinds(t) || chance(6) {
		p.Varbinds = genVarbinds()
	}
	if chance(2) {
		p.PayloadSize = int32(genU32())
	}
	if chance(5) {
		repeatOids(&p)
	}
	return p
}

// repeatOids makes OIDs of one PDU equal to, or beginnings of, others of it.
func repeatOids(p *agentx.Pdu) {
	pool := [][]uint32{genOid(), genOid()}
	if n := len(pool[0]); n > 1 {
		pool = append(pool, pool[0][:n-1])
	}
	any := func() []uint32 { return append([]uint32(nil), pool[rnd.Intn(len(pool))]...) }
	for i := range p.Ranges {
		p.Ranges[i].StartOid, p.Ranges[i].EndOid = any(), any()
	}
	for i := range p.Varbinds {
		p.Varbinds[i].Oid = any()
		if _, ok := p.Varbinds[i].Value.([]uint32); ok {
			p.Varbinds[i].Value = any()
		}
	}
}

// genHuge makes PDUs with very long strings, lists and OIDs.
func genHuge() agentx.Pdu {
	long := func(n int) []byte { b := make([]byte, n); rnd.Read(b); return b }
	n := pick(1000, 4095, 4096, 32767, 32768, 65532, 65533, 65535, 65536, 65537)
	var p agentx.Pdu
	switch rnd.Intn(6) {
	case 0:
		p = genPduOf(pickTag(1, 16))
		switch q := p.Params.(type) {
		case agentx.OpenParams:
			q.Description = string(long(n))
			p.Params = q
		case agentx.AddAgentCapsParams:
			q.Description = string(long(n))
			p.Params = q
		}
	case 1:
		p = genPduOf(pickTag(3, 5, 8, 13, 18))
		p.Flags |= 8
		p.Context = string(long(n))
	case 2:
		p = genPduOf(pickTag(8, 12, 18))
		p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: genOid(), Tag: 4, Value: string(long(n))})
	case 3:
		p = genPduOf(pickTag(14, 12, 18))
		p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: genOid(), Tag: 68, Value: long(n)}, genVarbind())
	case 4:
		p = genPduOf(pickTag(8, 12, 14, 15, 18))
		p.Varbinds = nil
		for i := pick(128, 129, 255, 256, 257, 300); i > 0; i-- {
			t := valueTags[rnd.Intn(len(valueTags))]
			for t == 4 || t == 68 || t == 6 {
				t = valueTags[rnd.Intn(len(valueTags))]
			}
			p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: genSubids(rnd.Intn(3)), Tag: t, Value: genValue(t)})
		}
	default:
		p = genPduOf(pickTag(5, 6, 7))
		p.Ranges = nil
		for i := pick(128, 129, 255, 256, 257, 300); i > 0; i-- {
			p.Ranges = append(p.Ranges, agentx.SearchRange{StartOid: genSubids(rnd.Intn(3)), EndOid: genSubids(rnd.Intn(2)), StartIncluded: byte(rnd.Intn(2))})
		}
	}
	return p
}

func pickTag(ts ...agentx.PduTag) agentx.PduTag { return ts[rnd.Intn(len(ts))] }

// genBroken makes a PDU with something wrong in it (or, when what is wrong is
// in a part that is not written, nothing wrong as far as encoding goes).
func genBroken() agentx.Pdu {
	p := genPdu()
	breakPdu(&p)
	if chance(8) {
		breakPdu(&p)
	}
	return p
}

func foreignParams() []agentx.PayloadParams {
	return []agentx.PayloadParams{&agentx.NoParams{}, &agentx.OpenParams{}, (*agentx.ResponseParams)(nil),
		&agentx.GetBulkParams{}, &agentx.CloseParams{Reason: 1}, &agentx.RegisterParams{}}
}

var oddTags = []asn.Tag{0, 1, 3, 7, 8, 47, 48, 49, 63, 69, 71, 72, 127, 131, 132, 160, 192, 255}

func breakPdu(p *agentx.Pdu) {
	switch rnd.Intn(9) {
	case 0:
		p.Tag = agentx.PduTag(pick(0, 19, 20, 127, 128, 254, 255, 19+rnd.Intn(237)))
	case 1:
		p.Params = nil
	case 2:
		p.Params = genParams(genTag())
	case 3:
		fs := foreignParams()
		p.Params = fs[rnd.Intn(len(fs))]
	case 4:
		p.Flags |= agentx.Flags(1 << uint(rnd.Intn(8)))
	case 5:
		p.Flags = agentx.Flags(rnd.Intn(256))
	case 6:
		t := pickTag(1, 3, 4, 5, 6, 7, 8, 12, 14, 15, 16, 17, 18)
		*p = genPduOf(t)
		id := genLongOid()
		switch q := p.Params.(type) {
		case agentx.OpenParams:
			q.Oid = id
			p.Params = q
		case agentx.RegisterParams:
			q.Subtree = id
			p.Params = q
		case agentx.UnregisterParams:
			q.Subtree = id
			p.Params = q
		case agentx.AddAgentCapsParams:
			q.Oid = id
			p.Params = q
		case agentx.RemoveAgentCapsParams:
			q.Oid = id
			p.Params = q
		default:
			if hasRanges(t) {
				r := genRange()
				if chance(2) {
					r.StartOid = id
				} else {
					r.EndOid = id
				}
				p.Ranges = append(p.Ranges, r)
			} else if chance(2) {
				p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: id, Tag: 5})
			} else {
				p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: genOid(), Tag: 6, Value: id})
			}
		}
	case 7:
		*p = genPduOf(7)
		p.Params = agentx.GetBulkParams{NonRepeaters: genInt16(), MaxRepeatitions: genInt16()}
	default:
		*p = genPduOf(pickTag(8, 12, 14, 15, 18, 18, 5, 13))
		vb := genVarbind()
		if chance(3) {
			vb.Tag = oddTags[rnd.Intn(len(oddTags))]
		} else {
			vb.Value = genAnyValue()
		}
		l := append([]asn.Varbind{}, p.Varbinds...)
		i := rnd.Intn(len(l) + 1)
		l = append(l[:i], append([]asn.Varbind{vb}, l[i:]...)...)
		p.Varbinds = l
	}
}

// ---- raw messages, independent of the encoder under test

type raw struct {
	b   []byte
	be  bool
	odd bool // use non-canonical encodings
}

func (w *raw) u8(bs ...byte) { w.b = append(w.b, bs...) }
func (w *raw) u16(v uint16) {
	if w.be {
		w.u8(byte(v>>8), byte(v))
	} else {
		w.u8(byte(v), byte(v>>8))
	}
}
func (w *raw) u32(v uint32) {
	if w.be {
		w.u8(byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	} else {
		w.u8(byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
	}
}
func (w *raw) u64(v uint64) {
	if w.be {
		w.u32(uint32(v >> 32))
		w.u32(uint32(v))
	} else {
		w.u32(uint32(v))
		w.u32(uint32(v >> 32))
	}
}
func (w *raw) str(s []byte) {
	w.u32(uint32(len(s)))
	w.u8(s...)
	for i := len(s); i%4 != 0; i++ {
		w.u8(0)
	}
}
func (w *raw) oid(id []uint32, inc byte) {
	if w.odd && chance(6) {
		inc = genByte()
	}
	pre := byte(0)
	if len(id) >= 5 && id[0] == 1 && id[1] == 3 && id[2] == 6 && id[3] == 1 && id[4] > 0 && id[4] < 256 && !(w.odd && chance(3) && len(id) < 250) {
		pre, id = byte(id[4]), id[5:]
	}
	w.u8(byte(len(id)), pre, inc, 0)
	for _, s := range id {
		w.u32(s)
	}
}
func (w *raw) payload(p agentx.Pdu) {
	if p.Flags&8 != 0 {
		w.str([]byte(p.Context))
	}
	switch q := p.Params.(type) {
	case agentx.OpenParams:
		w.u8(q.Timeout, 0, 0, 0)
		w.oid(q.Oid, 0)
		w.str([]byte(q.Description))
	case agentx.CloseParams:
		w.u8(byte(q.Reason), 0, 0, 0)
	case agentx.RegisterParams:
		w.u8(q.Timeout, q.Priority, q.RangeSubid, 0)
		w.oid(q.Subtree, 0)
		if q.RangeSubid != 0 {
			w.u32(q.UpperBound)
		}
	case agentx.UnregisterParams:
		w.u8(0, q.Priority, q.RangeSubid, 0)
		w.oid(q.Subtree, 0)
		if q.RangeSubid != 0 {
			w.u32(q.UpperBound)
		}
	case agentx.GetBulkParams:
		w.u16(uint16(q.NonRepeaters))
		w.u16(uint16(q.MaxRepeatitions))
	case agentx.AddAgentCapsParams:
		w.oid(q.Oid, 0)
		w.str([]byte(q.Description))
	case agentx.RemoveAgentCapsParams:
		w.oid(q.Oid, 0)
	case agentx.ResponseParams:
		w.u32(q.SysUpTime)
		w.u16(uint16(q.Error))
		w.u16(uint16(q.Index))
	}
	if hasRanges(p.Tag) {
		for _, r := range p.Ranges {
			w.oid(r.StartOid, r.StartIncluded)
			w.oid(r.EndOid, 0)
		}
	}
	if hasVarbinds(p.Tag) {
		for _, vb := range p.Varbinds {
			w.u16(uint16(vb.Tag))
			w.u8(0, 0)
			w.oid(vb.Oid, 0)
			switch v := vb.Value.(type) {
			case int32:
				w.u32(uint32(v))
			case uint32:
				w.u32(v)
			case uint64:
				w.u64(v)
			case string:
				w.str([]byte(v))
			case []byte:
				w.str(v)
			case [4]byte:
				w.u32(4)
				w.u8(v[:]...)
			case []uint32:
				w.oid(v, 0)
			}
		}
	}
}

// genRawPayload returns a PDU header (type, flags) and a mostly well-formed
// payload for it.
func genRawPayload() (agentx.PduTag, agentx.Flags, []byte) {
	p := genPdu()
	for i := range p.Varbinds { // no value bytes after a valueless type
		switch p.Varbinds[i].Tag {
		case 5, 128, 129, 130:
			p.Varbinds[i].Value = nil
		}
	}
	w := raw{be: p.Flags&16 != 0, odd: chance(2)}
	w.payload(p)
	return p.Tag, p.Flags, w.b
}

// mutate damages b in one of many ways (possibly not at all).
func mutate(b []byte, be bool) []byte {
	b = append([]byte(nil), b...)
	for k := pick(1, 1, 1, 2, 3); k > 0; k-- {
		n := len(b)
		switch rnd.Intn(12) {
		case 0:
			if n > 0 {
				b[rnd.Intn(n)] ^= 1 << uint(rnd.Intn(8))
			}
		case 1:
			if n > 0 {
				b[rnd.Intn(n)] = genByte()
			}
		case 2: // truncate
			if n > 0 {
				b = b[:rnd.Intn(n)]
			}
		case 3: // cut whole words from the end
			if n >= 4 {
				b = b[:n-4*(1+rnd.Intn(n/4))]
			}
		case 4: // extend
			for i := pick(1, 2, 3, 4, 4, 8, 12); i > 0; i-- {
				b = append(b, byte(pick(0, 0, 0, 1, 255)))
			}
		case 5: // overwrite a word
			if n >= 4 {
				w := raw{be: be}
				w.u32(genU32())
				copy(b[4*rnd.Intn(n/4):], w.b)
			}
		case 6: // adjust a word by a little: length fields
			if n >= 4 {
				i := 4 * rnd.Intn(n/4)
				j := i
				if be {
					j = i + 3
				}
				b[j] += byte(pick(1, 255, 4, 252, 2, 3))
			}
		case 7: // drop a word
			if n >= 4 {
				i := 4 * rnd.Intn(n/4)
				b = append(b[:i], b[i+4:]...)
			}
		case 8: // insert a word
			i := 4 * rnd.Intn(n/4+1)
			w := raw{be: be}
			w.u32(genU32())
			b = append(b[:i], append(w.b, b[i:]...)...)
		case 9: // low byte of a word: counts, types
			if n >= 4 {
				i := 4 * rnd.Intn(n/4)
				b[i+rnd.Intn(4)] = genByte()
			}
		case 10: // last bytes: padding
			if n > 0 {
				b[n-1-rnd.Intn(min(n, 4))] = genByte()
			}
		case 11: // duplicate the tail
			if n >= 4 {
				i := 4 * rnd.Intn(n/4)
				b = append(b, b[i:]...)
			}
		}
		if len(b) > 4096 {
			b = b[:4096]
		}
	}
	return b
}

// genSoup makes payloads of small words, which are often nearly parseable.
func genSoup(be bool) []byte {
	w := raw{be: be}
	for i := rnd.Intn(12); i > 0; i-- {
		switch rnd.Intn(6) {
		case 0:
			w.u32(0)
		case 1:
			w.u32(uint32(rnd.Intn(9)))
		case 2:
			w.u16(uint16(valueTags[rnd.Intn(len(valueTags))]))
			w.u16(0)
		case 3:
			w.u8(byte(rnd.Intn(3)), byte(pick(0, 0, 1, 4)), byte(rnd.Intn(2)), 0)
		case 4:
			w.u32(genU32())
		default:
			w.u8(genByte(), genByte(), 0, 0)
		}
	}
	return w.b
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
