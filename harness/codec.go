package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/logger"
)

// ---- calls into the codec

func xEncode(p agentx.Pdu) (b []byte, ok, pan bool) {
	pan = call(func() ev { return ev{"op": "EncodePdu", "p": pduJ(p)} }, func() { b, ok = agentx.EncodePdu(p) })
	ok = ok && !pan
	return
}
func xHeader(b []byte) (p agentx.Pdu, ok, pan bool) {
	pan = call(func() ev { return ev{"op": "DecodePduHeader", "b": B(b)} }, func() { p, ok = agentx.DecodePduHeader(b) })
	ok = ok && !pan
	return
}
func xPayload(p *agentx.Pdu, b []byte) (ok, pan bool) {
	pan = call(func() ev { return ev{"op": "DecodePduPayload", "h": headerJ(*p), "b": B(b)} },
		func() { ok = agentx.DecodePduPayload(p, b) })
	ok = ok && !pan
	return
}
func xEncodeDbg(p agentx.Pdu, l logger.Log) (b []byte, ok, pan bool) {
	pan = call(func() ev { return ev{"op": "EncodePduDbg", "p": pduJ(p)} }, func() { b, ok = agentx.EncodePduDbg(p, l) })
	ok = ok && !pan
	return
}
func xHeaderDbg(b []byte, l logger.Log) (p agentx.Pdu, ok, pan bool) {
	pan = call(func() ev { return ev{"op": "DecodePduHeaderDbg", "b": B(b)} }, func() { p, ok = agentx.DecodePduHeaderDbg(b, l) })
	ok = ok && !pan
	return
}
func xPayloadDbg(p *agentx.Pdu, b []byte, l logger.Log) (ok, pan bool) {
	pan = call(func() ev { return ev{"op": "DecodePduPayloadDbg", "h": headerJ(*p), "b": B(b)} },
		func() { ok = agentx.DecodePduPayloadDbg(p, b, l) })
	ok = ok && !pan
	return
}

// memLog keeps the messages.
type memLog struct{ msgs []string }

func (l *memLog) Write(m string)                    { l.msgs = append(l.msgs, m) }
func (l *memLog) Writef(f string, a ...interface{}) { l.Write(fmt.Sprintf(f, a...)) }

// cutLog formats and forgets.
type cutLog struct{}

func (cutLog) Write(m string)                    {}
func (cutLog) Writef(f string, a ...interface{}) { _ = fmt.Sprintf(f, a...) }

// ---- inputs shared by several scenarios

// goodPdus: the corpus written by TLC, then generated PDUs (all of them
// encodable if the generator agrees with the specification).
func goodPdus(n int, f func(agentx.Pdu)) {
	for _, p := range corpusPdus() {
		f(p)
	}
	for i := 0; i < n; i++ {
		p := genPduOf(agentx.PduTag(1 + i%18))
		if i < 18*32 { // every type with every flag set
			p.Flags = agentx.Flags(i/18) & allowedMask(p.Tag)
		}
		f(p)
	}
	for i := 0; i < n/250+4; i++ {
		f(genHuge())
	}
	// every residue of every variable-length part, in both byte orders
	for k := 0; k < 10; k++ {
		for _, fl := range []agentx.Flags{0, 8, 16, 24} {
			s := string(bytes.Repeat([]byte{byte('a' + k)}, k))
			f(agentx.Pdu{Tag: 12, Flags: fl, Context: s, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{
				{Oid: genSubids(k), Tag: 4, Value: s + "x"}, {Oid: genOid(), Tag: 68, Value: []byte(s)},
				{Oid: genOid(), Tag: 6, Value: genSubids(k)}, {Oid: nil, Tag: 2, Value: int32(k) - 5}}})
			f(agentx.Pdu{Tag: 1, Flags: fl & 16, Params: agentx.OpenParams{Timeout: byte(k), Oid: genSubids(k), Description: s}})
			f(agentx.Pdu{Tag: 16, Flags: fl, Context: s + "yz", Params: agentx.AddAgentCapsParams{Oid: genSubids(k), Description: s}})
		}
	}
	// the fifth sub-id of 1.3.6.1.x over a whole byte and around it
	for x := 0; x < 260; x++ {
		f(agentx.Pdu{Tag: 17, Flags: agentx.Flags(16 * (x % 2)), Params: agentx.RemoveAgentCapsParams{
			Oid: append([]uint32{1, 3, 6, 1, uint32(x)}, genSubids(x%3)...)}})
	}
}

// badPdus: everything else a caller can build.
func badPdus(n int, f func(agentx.Pdu)) {
	for t := 0; t < 256; t++ { // every type byte
		p := genPdu()
		p.Tag = agentx.PduTag(t)
		f(p)
	}
	for t := agentx.PduTag(0); t <= 19; t++ { // every type with every flag byte
		for fl := 0; fl < 256; fl++ {
			f(agentx.Pdu{Tag: t, Flags: agentx.Flags(fl), Params: genParams(t)})
		}
	}
	for t := agentx.PduTag(0); t <= 19; t++ { // every type with every kind of parameters
		for u := agentx.PduTag(1); u <= 18; u++ {
			f(agentx.Pdu{Tag: t, Params: genParams(u)})
		}
		f(agentx.Pdu{Tag: t})
		for _, q := range foreignParams() {
			f(agentx.Pdu{Tag: t, Params: q})
		}
	}
	for t := 0; t < 256; t++ { // every varbind type with its own value, then any
		pt := pickTag(8, 12, 14, 15, 18)
		f(agentx.Pdu{Tag: pt, Params: genParams(pt), Varbinds: []asn.Varbind{{Oid: genOid(), Tag: asn.Tag(t), Value: genValue(asn.Tag(t))}}})
	}
	for _, t := range append(append([]asn.Tag{}, valueTags...), oddTags...) {
		for k := 0; k < nAnyValues; k++ {
			pt := pickTag(8, 12, 14, 15, 18)
			f(agentx.Pdu{Tag: pt, Params: genParams(pt), Varbinds: []asn.Varbind{{Oid: genOid(), Tag: t, Value: anyValue(k)}}})
		}
	}
	// OID lengths around the limit in every place
	for _, l := range []int{254, 255, 256, 257, 259, 260, 261, 262, 511, 512, 513} {
		for _, pre := range []bool{false, true} {
			id := genSubids(l)
			id[0] = 7
			if pre {
				copy(id, []uint32{1, 3, 6, 1, 4})
			}
			for _, p := range withOid(id) {
				f(p)
			}
		}
	}
	for _, a := range []int16{-32768, -1, 0, 1, 32767} {
		for _, b := range []int16{-32768, -256, -1, 0, 255, 32767} {
			f(agentx.Pdu{Tag: 7, Flags: agentx.Flags(pick(0, 16)), Params: agentx.GetBulkParams{NonRepeaters: a, MaxRepeatitions: b}})
			f(agentx.Pdu{Tag: 18, Flags: agentx.Flags(pick(0, 16)), Params: agentx.ResponseParams{Index: a, Error: 5}})
		}
	}
	for i := 0; i < n; i++ {
		if chance(4) {
			f(genPdu())
		} else {
			f(genBroken())
		}
	}
}

// withOid puts id in every place where an OID is written, and in places where
// it is not.
func withOid(id []uint32) []agentx.Pdu {
	vb := func(v ...asn.Varbind) []asn.Varbind { return v }
	rg := func(a, b []uint32) []agentx.SearchRange {
		return []agentx.SearchRange{{StartOid: []uint32{1}}, {StartOid: a, EndOid: b, StartIncluded: 1}}
	}
	return []agentx.Pdu{
		{Tag: 1, Params: agentx.OpenParams{Oid: id}},
		{Tag: 3, Params: agentx.RegisterParams{Subtree: id}},
		{Tag: 4, Params: agentx.UnregisterParams{Subtree: id, RangeSubid: 3}},
		{Tag: 16, Params: agentx.AddAgentCapsParams{Oid: id}},
		{Tag: 17, Params: agentx.RemoveAgentCapsParams{Oid: id}},
		{Tag: 5, Params: agentx.NoParams{}, Ranges: rg(id, nil)},
		{Tag: 6, Params: agentx.NoParams{}, Ranges: rg([]uint32{1}, id)},
		{Tag: 8, Params: agentx.NoParams{}, Varbinds: vb(asn.Varbind{Oid: id, Tag: 5})},
		{Tag: 18, Params: agentx.ResponseParams{}, Varbinds: vb(asn.Varbind{Oid: []uint32{1}, Tag: 6, Value: id})},
		{Tag: 8, Params: agentx.NoParams{}, Varbinds: vb(asn.Varbind{Oid: []uint32{1}, Tag: 5, Value: id})},
		{Tag: 13, Params: agentx.NoParams{}, Varbinds: vb(asn.Varbind{Oid: id, Tag: 5}), Ranges: rg(id, id)},
		{Tag: 5, Params: agentx.NoParams{}, Varbinds: vb(asn.Varbind{Oid: id, Tag: 5})},
	}
}

// rawHeader writes a header without the code under test.
func rawHeader(tag, flags byte, sid, tid, pid, size uint32) []byte {
	w := raw{be: flags&16 != 0}
	w.u8(1, tag, flags, 0)
	w.u32(sid)
	w.u32(tid)
	w.u32(pid)
	w.u32(size)
	return w.b
}

func genHeader() []byte {
	t := genTag()
	return rawHeader(byte(t), byte(agentx.Flags(rnd.Intn(32))&allowedMask(t)), genU32(), genU32(), genU32(), genU32()&0x7ffffffc)
}

// headers: single headers for f, and sweeps over all 256 values of one byte
// of a base header for sweep.
func headers(n int, f func([]byte), sweep func([]byte, int)) {
	for t := 1; t <= 18; t++ {
		for _, fl := range []byte{0, 16} {
			b := rawHeader(byte(t), fl, genU32(), genU32(), genU32(), uint32(4*rnd.Intn(100)))
			for i := 0; i <= 24; i++ { // every length
				x := append(append([]byte{}, b...), 0, 0, 0, 0, 0)[:i]
				f(x)
			}
			for _, l := range []int{28, 36, 40, 52, 84, 148, 276, 532, 20 + 1<<16} { // 20 in fewer bits
				if l < 600 || t == 5 {
					f(append(append([]byte{}, b...), make([]byte, l-20)...))
				}
			}
			for i := 0; i < 20; i += 4 { // a number in the other byte order
				x := append([]byte{}, b...)
				x[i], x[i+1], x[i+2], x[i+3] = x[i+3], x[i+2], x[i+1], x[i]
				f(x)
			}
			for k := 0; k < 27; k++ { // ids that are special together
				id := func(i int) uint32 { return []uint32{0, 0xffffffff, 7}[i%3] }
				f(rawHeader(byte(t), fl, id(k), id(k/3), id(k/9), uint32(pick(0, 4, 8, 0x7ffffffc))))
			}
			v := genU32()
			f(rawHeader(byte(t), fl, v, v, v, v&0x7ffffffc))
			f(rawHeader(byte(t), fl, v, v, 1, 0))
			f(rawHeader(byte(t), fl, 1, v, v, 0))
			f(rawHeader(byte(t), fl, v, 1, v, 0))
			if sweep != nil {
				for pos := 0; pos < 20; pos++ {
					sweep(b, pos)
				}
			}
		}
	}
	if sweep != nil {
		for t := 0; t < 256; t++ { // every type with every flag byte
			sweep(rawHeader(byte(t), 0, 1, 2, 3, 8), 2)
		}
	}
	seen := map[string]bool{}
	for _, b := range corpusRaw() { // whole messages: their headers, and a few as they are
		h := b[:min(len(b), agentx.PduHeaderSize)]
		if !seen[string(h)] {
			seen[string(h)] = true
			f(h)
			f(b)
		}
	}
	for i := 0; i < n; i++ {
		b := genHeader()
		switch rnd.Intn(6) {
		case 0, 1, 2:
		case 3:
			b = mutate(b, b[2]&16 != 0)
		case 4:
			b[rnd.Intn(20)] = genByte()
		case 5:
			b = append(b, genBytes()...)
			if chance(2) {
				b = b[:rnd.Intn(len(b))]
			}
		}
		f(b)
	}
}

type payIn struct {
	tag   agentx.PduTag
	flags agentx.Flags
	size  int32
	b     []byte
}

func (x payIn) header() agentx.Pdu {
	return agentx.Pdu{Tag: x.tag, Flags: x.flags, SessionId: 1, TransactionId: 2, PacketId: 3, PayloadSize: x.size}
}

var sweepVals = []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 64, 68, 70, 127, 128, 129, 131, 254, 255}

// payloads: inputs for the payload decoder of known types.
func payloads(n int, f func(payIn)) {
	fit := func(t agentx.PduTag, fl agentx.Flags, b []byte) { f(payIn{t, fl, int32(len(b)), b}) }
	for _, b := range corpusRaw() { // whole messages
		if len(b) >= 20 && b[1] >= 1 && b[1] <= 18 {
			fit(agentx.PduTag(b[1]), agentx.Flags(b[2]), b[20:])
		}
	}
	// the parameters of every type: every truncation, every byte disturbed
	for t := agentx.PduTag(1); t <= 18; t++ {
		for _, fl := range []agentx.Flags{0, 16} {
			for rep := 0; rep < 1+n/4000; rep++ {
				p := genPduOf(t)
				p.Flags = fl
				p.Ranges, p.Varbinds = nil, nil
				if hasRanges(t) {
					p.Ranges = []agentx.SearchRange{{StartOid: genSubids(rnd.Intn(3)), EndOid: genSubids(rnd.Intn(3)), StartIncluded: 1}}
				}
				if hasVarbinds(t) {
					vt := valueTags[(int(t)+rep)%len(valueTags)]
					p.Varbinds = []asn.Varbind{{Oid: genSubids(rnd.Intn(3)), Tag: vt, Value: clip(genValue(vt))}}
					if vt == 5 || vt >= 128 {
						p.Varbinds[0].Value = nil
					}
				}
				switch q := p.Params.(type) {
				case agentx.OpenParams:
					q.Description = "abcde"[:rnd.Intn(6)]
					q.Oid = genSubids(rnd.Intn(3))
					p.Params = q
				case agentx.AddAgentCapsParams:
					q.Description = "abcde"[:rnd.Intn(6)]
					q.Oid = genSubids(rnd.Intn(3))
					p.Params = q
				case agentx.RegisterParams:
					q.Subtree = genSubids(rnd.Intn(3))
					p.Params = q
				case agentx.UnregisterParams:
					q.Subtree = genSubids(rnd.Intn(3))
					p.Params = q
				case agentx.RemoveAgentCapsParams:
					q.Oid = genSubids(rnd.Intn(3))
					p.Params = q
				}
				w := raw{be: fl&16 != 0}
				w.payload(p)
				for i := 0; i <= len(w.b); i++ {
					fit(t, fl, w.b[:i])
				}
				fit(t, fl, append(append([]byte{}, w.b...), 0, 0, 0, 0))
				fit(t, fl^16, w.b) // all, or one number, in the other byte order
				for i := 0; i+4 <= len(w.b); i += 4 {
					c := append([]byte{}, w.b...)
					c[i], c[i+1], c[i+2], c[i+3] = c[i+3], c[i+2], c[i+1], c[i]
					fit(t, fl, c)
					c = append([]byte{}, w.b...)
					c[i], c[i+1] = c[i+1], c[i]
					fit(t, fl, c)
				}
				for i := range w.b {
					for k := 0; k < 4; k++ {
						c := append([]byte{}, w.b...)
						c[i] = sweepVals[rnd.Intn(len(sweepVals))]
						fit(t, fl, c)
					}
				}
			}
		}
	}
	// every varbind type byte with enough bytes after it
	for t := 0; t < 512; t++ {
		fl := agentx.Flags(pick(0, 16))
		w := raw{be: fl&16 != 0}
		w.u16(uint16(t))
		w.u16(0)
		w.oid(genSubids(rnd.Intn(2)), 0)
		switch t & 0xff {
		case 2, 65, 66, 67:
			w.u32(genU32())
		case 4, 68:
			w.str([]byte("abc"))
		case 64:
			w.str([]byte{1, 2, 3, 4})
		case 6:
			w.oid([]uint32{1, 2}, 0)
		case 70:
			w.u64(genU64())
		}
		fit(12, fl, w.b)
	}
	// very long strings and lists: as they are, and one byte changed
	for i := 0; i < 4+n/10000; i++ {
		p := genHuge()
		w := raw{be: p.Flags&16 != 0}
		w.payload(p)
		fit(p.Tag, p.Flags, w.b)
		if i%4 == 0 {
			c := append([]byte{}, w.b...)
			c[rnd.Intn(len(c))] = genByte()
			fit(p.Tag, p.Flags, c)
		}
	}
	for i := 0; i < n; i++ {
		t, fl, b := genRawPayload()
		be := fl&16 != 0
		switch rnd.Intn(8) {
		case 0, 1:
		case 2, 3, 4, 5:
			b = mutate(b, be)
		case 6:
			b = genSoup(be)
		case 7: // another type's payload
			t = genTag()
			fl &= allowedMask(t)
		}
		x := payIn{t, fl, int32(len(b)), b}
		if chance(25) {
			x.size = int32(pick(0, 4, len(b)+4, len(b)-4, len(b)+1, -len(b), 1<<30, -4, -1<<31, len(b)+256, len(b)+65536))
		}
		f(x)
	}
}

// clip keeps values small.
func clip(v interface{}) interface{} {
	switch x := v.(type) {
	case string:
		return x[:min(len(x), 6)]
	case []byte:
		return x[:min(len(x), 6)]
	case []uint32:
		return x[:min(len(x), 3)]
	}
	return v
}

// ---- scenarios

func init() {
	scenarios["C01"] = func(n int) {
		goodPdus(n, func(p agentx.Pdu) {
			b, ok, _ := xEncode(p)
			e := ev{"e": "rt", "p": pduJ(p), "ok": ok, "hok": false, "bok": false}
			if ok && len(b) >= agentx.PduHeaderSize {
				q, hok, _ := xHeader(b[:agentx.PduHeaderSize])
				e["hok"] = hok
				if hok {
					bok, _ := xPayload(&q, b[agentx.PduHeaderSize:])
					e["bok"] = bok
					if bok {
						e["q"] = pduJ(q)
					}
				}
			}
			emitStateless(e)
		})
		bigCases(true, func(c bigCase) {
			b, ok, _ := xEncode(c.grow(c.n))
			e := ev{"e": "rt", "x": c.n, "pl": c.pl, "p": pduJ(c.grow(c.m())), "ok": ok, "hok": false, "bok": false}
			if ok && len(b) >= agentx.PduHeaderSize {
				q, hok, _ := xHeader(b[:agentx.PduHeaderSize])
				e["hok"] = hok
				if hok {
					bok, _ := xPayload(&q, b[agentx.PduHeaderSize:])
					e["bok"] = bok
					if bok {
						e["q"] = pduJ(c.cut(q))
					}
				}
			}
			emitStateless(e)
		})
	}
	scenarios["C02"] = func(n int) {
		goodPdus(n, func(p agentx.Pdu) {
			b, ok, _ := xEncode(p)
			e := ev{"e": "enc", "p": pduJ(p), "ok": ok}
			if ok {
				e["b"] = B(b)
			}
			emitStateless(e)
		})
		bigCases(true, func(c bigCase) {
			b, ok, _ := xEncode(c.grow(c.n))
			e := ev{"e": "big", "pl": c.pl, "n": c.n, "p": pduJ(c.grow(1)), "ok": ok}
			if ok {
				e["x"] = c.digest(b)
			}
			emitStateless(e)
		})
	}
	scenarios["C03"] = func(n int) {
		f := func(p agentx.Pdu) {
			_, ok, pan := xEncode(p)
			emitStateless(ev{"e": "ref", "p": pduJ(p), "ok": ok, "pan": pan})
		}
		goodPdus(n/4, f)
		badPdus(n, f)
		bigCases(true, func(c bigCase) { // as they are, and with an item that cannot be sent at the end
			one := func(c bigCase) {
				_, ok, pan := xEncode(c.grow(c.n))
				emitStateless(ev{"e": "ref", "x": c.n, "pl": c.pl, "p": pduJ(c.grow(c.m())), "ok": ok, "pan": pan})
			}
			one(c)
			if hasVarbinds(c.p.Tag) && len(c.p.Varbinds) > 0 {
				c.p.Varbinds = append(append([]asn.Varbind{}, c.p.Varbinds...), asn.Varbind{Tag: 4, Value: int32(5)})
				one(c)
			} else if hasRanges(c.p.Tag) && len(c.p.Ranges) > 0 {
				c.p.Ranges = append(append([]agentx.SearchRange{}, c.p.Ranges...), agentx.SearchRange{EndOid: genSubids(256)})
				one(c)
			}
		})
		tooBig(n > 100000)
	}
	scenarios["C04"] = func(n int) {
		headers(n, func(b []byte) {
			p, ok, _ := xHeader(b)
			e := ev{"e": "hdr", "b": B(b), "ok": ok}
			if ok {
				e["h"] = headerJ(p)
			}
			emitStateless(e)
		}, func(b []byte, pos int) {
			oks := make([]bool, 256)
			for v := range oks {
				c := append([]byte{}, b...)
				c[pos] = byte(v)
				_, oks[v], _ = xHeader(c)
			}
			emitStateless(ev{"e": "hsw", "b": B(b), "pos": pos + 1, "oks": oks})
		})
	}
	scenarios["C05"] = func(n int) {
		one := func(x payIn) {
			p := x.header()
			ok, _ := xPayload(&p, x.b)
			e := ev{"e": "pay", "tag": int(x.tag), "flags": int(x.flags), "size": w32(uint32(x.size)), "b": B(x.b), "ok": ok}
			if ok {
				e["q"] = payloadJ(p)
			}
			emitStateless(e)
		}
		payloads(n, one)
		for t := 0; t < 256; t++ { // unknown types have no payload
			if t < 1 || t > 18 {
				_, fl, b := genRawPayload()
				if chance(3) {
					b = nil
				}
				one(payIn{agentx.PduTag(t), fl, int32(len(b)), b})
			}
		}
		bigCases(true, func(c bigCase) {
			large := raw{be: c.p.Flags&16 != 0}
			large.payload(c.grow(c.n))
			small := raw{be: large.be}
			small.payload(c.grow(c.m()))
			// the same is done to both ends
			try := func(off int, hurt func(b []byte) []byte) {
				b, s := hurt(append([]byte{}, large.b...)), hurt(append([]byte{}, small.b...))
				p := payIn{c.p.Tag, c.p.Flags, int32(len(b) + off), b}.header()
				ok, _ := xPayload(&p, b)
				e := ev{"e": "pay", "x": c.n, "pl": c.pl, "tag": int(p.Tag), "flags": int(p.Flags), "size": w32(uint32(len(s) + off)), "b": B(s), "ok": ok}
				if ok {
					e["q"] = payloadJ(c.cut(p))
				}
				emitStateless(e)
			}
			same := func(b []byte) []byte { return b }
			try(0, same)
			try(pick(4, -4, 65536, 256, -256, 1<<24), same)
			try(0, func(b []byte) []byte { return append(b, 0, 0, 0, 0) })
			try(0, func(b []byte) []byte { return b[:len(b)-4] })
			if len(c.p.Ranges) > 1 || len(c.p.Varbinds) > 1 { // in the last item (16 bytes if a varbind)
				k, v := 1+rnd.Intn(16), genByte()
				try(0, func(b []byte) []byte { b[len(b)-k] = v; return b })
				if c.pl == "val" && c.n%4 != 0 { // the padding of the string
					try(0, func(b []byte) []byte { b[len(b)-17] ^= 9; return b })
				}
			}
		})
	}
	scenarios["C06"] = scenC06
	scenarios["C07"] = scenC07
	scenarios["C08"] = scenC08
}

// ---- C06

// hostile makes payloads whose counts and sizes claim far more than there is,
// and large ones.
func hostile(fl agentx.Flags) []byte {
	w := raw{be: fl&16 != 0}
	claim := func() uint32 {
		return []uint32{0x7fffffff, 0x7ffffffc, 0x40000000, 0x10000000, 0x1000000, 0x100000, 0x20000, 0xffff, 0xffffffff,
			0x80000000, 0xfffffffc, 0xfffffffd, 0xfffffff8, 1000, 256}[rnd.Intn(15)]
	}
	if fl&8 != 0 {
		if chance(3) {
			w.u32(claim())
		} else {
			w.str(genBytes())
		}
	}
	for k := rnd.Intn(6); k > 0; k-- {
		w.u16(uint16(valueTags[rnd.Intn(len(valueTags))]))
		w.u16(0)
		w.oid(genSubids(rnd.Intn(3)), 0)
		w.u32(uint32(rnd.Intn(6)))
	}
	switch rnd.Intn(6) {
	case 0:
		w.u32(claim())
	case 1: // varbind with a huge string or opaque
		w.u16(uint16(pick(4, 68, 64)))
		w.u16(0)
		w.oid(genSubids(rnd.Intn(3)), 0)
		w.u32(claim())
	case 2: // OID with more sub-ids than there are
		w.u8(byte(pick(255, 128, 200, 127, 3)), genByte(), 0, 0)
	case 3:
		w.u16(6)
		w.u16(0)
		w.oid(nil, 0)
		w.u8(255, 0, 0, 0)
	case 4:
		w.u8(genByte(), 0, 0, 0)
		w.u32(0)
		w.u32(claim())
	case 5:
		w.oid(genSubids(rnd.Intn(3)), 0)
		w.u32(claim())
	}
	for k := rnd.Intn(8); k > 0; k-- {
		w.u32(genU32())
	}
	return w.b
}

// bulky makes long well-formed lists of the smallest items and such.
func bulky(fl agentx.Flags, t agentx.PduTag) []byte {
	w := raw{be: fl&16 != 0}
	if fl&8 != 0 {
		w.str(nil)
	}
	if t == 7 {
		w.u32(0)
	}
	if t == 18 {
		w.u32(0)
		w.u32(0)
	}
	kind := rnd.Intn(5)
	for k := pick(1000, 4000); k > 0; k-- {
		if hasRanges(t) {
			w.oid(nil, 0)
			w.oid(nil, 0)
			continue
		}
		switch kind {
		case 0:
			w.u16(5)
			w.u16(0)
			w.oid(nil, 0)
		case 1:
			w.u16(4)
			w.u16(0)
			w.oid(nil, 0)
			w.u32(0)
		case 2:
			w.u16(68)
			w.u16(0)
			w.oid(nil, 0)
			w.u32(0)
		case 3:
			w.u16(6)
			w.u16(0)
			w.oid(nil, 0)
			w.oid(nil, 0)
		case 4:
			w.u16(130)
			w.u16(0)
			w.u8(0, 2, 0, 0)
		}
	}
	if chance(3) {
		w.u32(genU32())
	}
	return w.b
}

func scenC06(n int) {
	var m0, m1 runtime.MemStats
	kib := func() int {
		d := (m1.TotalAlloc - m0.TotalAlloc) / 1024
		if d > 1<<30 {
			d = 1 << 30
		}
		return int(d)
	}
	big := 0 // calls that allocated far too much: a few are enough
	one := func(x payIn, dbg bool) {
		if big > 3 {
			return
		}
		p := x.header()
		runtime.ReadMemStats(&m0)
		_, pan := xPayload(&p, x.b)
		runtime.ReadMemStats(&m1)
		e := ev{"e": "tot", "op": "payload", "tag": int(x.tag), "flags": int(x.flags), "size": w32(uint32(x.size)), "n": len(x.b), "pan": pan,
			"kib": kib(), "b": B(x.b[:min(len(x.b), 400)])}
		if kib() > 64<<10 {
			big++
		}
		emitStateless(e)
		if dbg {
			p = x.header()
			_, pan = xPayloadDbg(&p, x.b, cutLog{})
			emitStateless(ev{"e": "tot", "op": "payloadDbg", "tag": int(x.tag), "flags": int(x.flags), "size": w32(uint32(x.size)), "n": len(x.b),
				"pan": pan, "kib": 0, "b": B(x.b[:min(len(x.b), 400)])})
		}
	}
	hdr := func(b []byte) {
		runtime.ReadMemStats(&m0)
		_, _, pan := xHeader(b)
		runtime.ReadMemStats(&m1)
		emitStateless(ev{"e": "tot", "op": "header", "n": len(b), "pan": pan, "kib": kib(), "b": B(b[:min(len(b), 400)])})
		_, _, pan = xHeaderDbg(b, cutLog{})
		emitStateless(ev{"e": "tot", "op": "headerDbg", "n": len(b), "pan": pan, "kib": 0, "b": B(b[:min(len(b), 400)])})
	}
	headers(n/4, hdr, nil)
	for t := 0; t < 256; t++ { // unknown types, any flags
		b := genSoup(true)
		one(payIn{agentx.PduTag(t), agentx.Flags(rnd.Intn(256)), int32(len(b)), b}, true)
		hdr(rawHeader(byte(t), byte(rnd.Intn(256)), 1, 2, 3, 4))
	}
	for i := 0; i < n; i++ {
		t := genTag()
		fl := agentx.Flags(rnd.Intn(32)) & allowedMask(t)
		b := hostile(fl)
		x := payIn{t, fl, int32(len(b)), b}
		if chance(20) {
			x.size = int32(genU32())
		}
		one(x, i%2 == 0)
	}
	for i := 0; i < 12+n/400; i++ {
		t := pickTag(5, 6, 7, 8, 12, 14, 15, 18)
		fl := agentx.Flags(rnd.Intn(32)) & allowedMask(t)
		b := bulky(fl, t)
		one(payIn{t, fl, int32(len(b)), b}, false)
	}
	payloads(n/2, func(x payIn) { one(x, rnd.Intn(2) == 0) })
	bigCases(true, func(c bigCase) {
		w := raw{be: c.p.Flags&16 != 0}
		w.payload(c.grow(c.n))
		one(payIn{c.p.Tag, c.p.Flags, int32(len(w.b)), w.b}, false)
	})
	// string, OID, opaque sizes over every value near the end of the data
	for _, fl := range []agentx.Flags{0, 16} {
		for _, vt := range []uint16{4, 68, 64, 6} {
			for sz := 0; sz < 24; sz++ {
				w := raw{be: fl&16 != 0}
				w.u16(vt)
				w.u16(0)
				w.oid([]uint32{1}, 0)
				if vt == 6 {
					w.u8(byte(sz), 0, 0, 0)
				} else {
					w.u32(uint32(sz))
				}
				w.u8(make([]byte, 12)...)
				one(payIn{8, fl, int32(len(w.b)), w.b}, true)
			}
		}
	}
}

// ---- C07

func scenC07(n int) {
	enc := func(p agentx.Pdu) {
		b1, ok1, pan1 := xEncode(p)
		b2, ok2, pan2 := xEncodeDbg(p, cutLog{})
		e := ev{"e": "dbg", "op": "encode", "p": pduJ(p), "ok1": ok1, "ok2": ok2, "pan1": pan1, "pan2": pan2}
		if ok1 && ok2 {
			e["r1"], e["r2"] = B(b1), B(b2)
		}
		emitStateless(e)
	}
	hdr := func(b []byte) {
		p1, ok1, pan1 := xHeader(b)
		p2, ok2, pan2 := xHeaderDbg(b, cutLog{})
		e := ev{"e": "dbg", "op": "header", "b": B(b), "ok1": ok1, "ok2": ok2, "pan1": pan1, "pan2": pan2}
		if ok1 && ok2 {
			e["r1"], e["r2"] = headerJ(p1), headerJ(p2)
		}
		emitStateless(e)
	}
	pay := func(x payIn) {
		p1, p2 := x.header(), x.header()
		if chance(3) { // into PDUs that hold something already
			p := simplePdu()
			p1.Context, p1.Params, p1.Ranges, p1.Varbinds = p.Context, p.Params, p.Ranges, p.Varbinds
			p = twinOf(p)
			p2.Context, p2.Params, p2.Ranges, p2.Varbinds = p.Context, p.Params, p.Ranges, p.Varbinds
		}
		ok1, pan1 := xPayload(&p1, x.b)
		ok2, pan2 := xPayloadDbg(&p2, x.b, cutLog{})
		e := ev{"e": "dbg", "op": "payload", "h": headerJ(p1), "b": B(x.b), "ok1": ok1, "ok2": ok2, "pan1": pan1, "pan2": pan2}
		if ok1 && ok2 {
			e["r1"] = []ev{headerJ(p1), payloadJ(p1)}
			e["r2"] = []ev{headerJ(p2), payloadJ(p2)}
		}
		emitStateless(e)
	}
	bigCases(false, func(c bigCase) {
		p := c.grow(c.n)
		b1, ok1, pan1 := xEncode(p)
		b2, ok2, pan2 := xEncodeDbg(p, cutLog{})
		e := ev{"e": "dbg", "op": "encode", "x": c.n, "pl": c.pl, "p": pduJ(c.grow(c.m())), "ok1": ok1, "ok2": ok2, "pan1": pan1, "pan2": pan2}
		if ok1 && ok2 {
			e["r1"], e["r2"] = c.digest(b1), c.digest(b2)
		}
		emitStateless(e)
		w := raw{be: p.Flags&16 != 0}
		w.payload(p)
		for _, b := range [][]byte{w.b, w.b[:len(w.b)-4]} {
			x := payIn{p.Tag, p.Flags, int32(len(b)), b}
			p1, p2 := x.header(), x.header()
			ok1, pan1 = xPayload(&p1, b)
			ok2, pan2 = xPayloadDbg(&p2, b, cutLog{})
			e = ev{"e": "dbg", "op": "payload", "h": headerJ(p1), "x": c.n, "pl": c.pl, "p": pduJ(c.grow(c.m())), "ok1": ok1, "ok2": ok2, "pan1": pan1, "pan2": pan2}
			if ok1 && ok2 {
				e["r1"] = []ev{headerJ(p1), payloadJ(c.cut(p1))}
				e["r2"] = []ev{headerJ(p2), payloadJ(c.cut(p2))}
			}
			emitStateless(e)
		}
	})
	goodPdus(n/4, enc)
	badPdus(n/2, enc)
	headers(n/4, hdr, nil)
	for t := 0; t < 256; t++ {
		for _, fl := range []byte{0, 1, 2, 4, 8, 16, 32, 64, 128} {
			hdr(rawHeader(byte(t), fl, 1, 2, 3, uint32(pick(4, 5, 0x80000000))))
		}
	}
	payloads(n, pay)
}

// ---- C08

// chunked delivers a stream in pieces of its own choosing.
type chunked struct {
	b    []byte
	mode int
}

func (c *chunked) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	n := min(len(p), len(c.b))
	switch c.mode {
	case 0:
		n = 1
	case 1:
		n = min(n, 1+rnd.Intn(7))
	case 2:
		n = min(n, 1+rnd.Intn(40))
	}
	copy(p, c.b[:n])
	c.b = c.b[n:]
	return n, nil
}

// sending is what a C08 session puts on the stream.
type sending struct {
	stream []byte
	big    map[int]bigCase // which of the messages are grown ones
	sent   int
}

// send encodes p, lets hurt write to the payload and notes the message.
func (x *sending) send(p agentx.Pdu, hurt func(b []byte)) {
	b, ok, _ := xEncode(p)
	if !ok {
		return
	}
	damaged := false
	if hurt != nil && len(b) > agentx.PduHeaderSize {
		d := append([]byte{}, b...)
		hurt(d[agentx.PduHeaderSize:])
		damaged = !bytes.Equal(b, d)
		b = d
	}
	if c, ok := x.big[x.sent]; ok {
		p = c.grow(c.m())
	}
	emit(ev{"e": "send", "p": pduJ(p), "n": len(b), "dam": damaged})
	x.stream = append(x.stream, b...)
	x.sent++
}

// receive is the loop of a receiver: header, as many bytes as it announces, payload.
func (x *sending) receive() {
	r := &chunked{x.stream, rnd.Intn(4)}
	var pdu agentx.Pdu
	reuse := chance(2)
	for k := 0; ; k++ {
		h := make([]byte, agentx.PduHeaderSize)
		if m, err := io.ReadFull(r, h); err != nil {
			emit(ev{"e": "eof", "left": m})
			break
		}
		q, hok, _ := xHeader(h)
		if !hok {
			emit(ev{"e": "rxh", "hok": false, "b": B(h)})
			break
		}
		if !reuse {
			pdu = q
		} else { // the receiver keeps one PDU and overwrites its header
			q.Context, q.Params, q.Ranges, q.Varbinds = pdu.Context, pdu.Params, pdu.Ranges, pdu.Varbinds
			pdu = q
		}
		emit(ev{"e": "rxh", "hok": true, "h": headerJ(q)})
		body := make([]byte, min(int(q.PayloadSize), len(x.stream)+8))
		m, err := io.ReadFull(r, body)
		if err != nil && len(body) > 0 {
			emit(ev{"e": "short", "want": len(body), "got": m})
			break
		}
		ok, _ := xPayload(&pdu, body)
		e := ev{"e": "rxp", "n": m, "ok": ok}
		if c, big := x.big[k]; ok && big {
			e["q"] = payloadJ(c.cut(pdu))
		} else if ok {
			e["q"] = payloadJ(pdu)
		}
		emit(e)
	}
	endSession()
}

func scenC08(n int) {
	for _, c := range readCorpus() { // streams of the specification (Channel)
		if c.St == nil {
			continue
		}
		var x sending
		for i := range c.St.Ms {
			var hurt func([]byte)
			if c.St.Hit[0] == i+1 {
				hurt = func(b []byte) {
					if at := c.St.Hit[1] - 1 - agentx.PduHeaderSize; at < len(b) {
						b[at] = byte(c.St.Hit[2])
					}
				}
			}
			x.send(c.St.Ms[i].pdu(), hurt)
		}
		x.receive()
	}
	bigCases(false, func(c bigCase) {
		x := sending{big: map[int]bigCase{}}
		x.send(simplePdu(), nil)
		x.big[x.sent] = c
		x.send(c.grow(c.n), nil)
		delete(x.big, x.sent)
		x.send(simplePdu(), nil)
		x.receive()
	})
	for i := 0; i < n; i++ {
		var x sending
		for k := 1 + rnd.Intn(7); k > 0; k-- {
			var hurt func([]byte)
			if chance(3) {
				hurt = func(b []byte) {
					for j := 1 + rnd.Intn(3); j > 0; j-- {
						at := rnd.Intn(len(b))
						if chance(3) {
							at = rnd.Intn(min(len(b), 8))
						}
						b[at] = genByte()
					}
					if chance(8) {
						rnd.Read(b)
					}
				}
			}
			if i%60 == 7 && k == 2 {
				x.send(genHuge(), hurt)
				continue
			}
			x.send(genPdu(), hurt)
		}
		x.receive()
	}
}
