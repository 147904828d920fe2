import os, runpy
_1 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds1.py"))
demo, RT = _1["demo"], _1["RT"]
MKLOG = '''type nolog struct{ msgs []string }

func (l *nolog) Write(m string) { l.msgs = append(l.msgs, m) }
func (l *nolog) Writef(f string, a ...interface{}) { l.msgs = append(l.msgs, fmt.Sprintf(f, a...)) }
'''
SEEDS = [
dict(id="include-normalised", property="C01",
  edits=[("agentx/search_range.go", '''	r.StartOid, r.StartIncluded, next = d.parseObjectId(data)
''', '''	r.StartOid, r.StartIncluded, next = d.parseObjectId(data)
	if r.StartIncluded != 0 {
		r.StartIncluded = 1
	}
''')],
  demo=demo(["agentx"], RT + '''func main() {
	p := agentx.Pdu{Tag: agentx.TagGet, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{StartOid: []uint32{1, 2}, EndOid: []uint32{1, 3}, StartIncluded: 7}}}
	q, ok := rt(p)
	if !ok || q.Ranges[0].StartIncluded != 7 { fail("include changed") }
}
'''), needs="a search range whose include byte is neither 0 nor 1", breaks="the include byte comes back as 1"),
dict(id="error-high-bit", property="C01",
  edits=[("agentx/payload_params.go", '''	p.Error = pduerror.Error(err)
	p.Index''', '''	if err < 0 {
		err = -err
	}
	p.Error = pduerror.Error(err)
	p.Index''')],
  demo=demo(["agentx"], RT + '''func main() {
	p := agentx.Pdu{Tag: agentx.TagResponse, Params: agentx.ResponseParams{Error: 0xFFFE}}
	q, ok := rt(p)
	if !ok || q.Params.(agentx.ResponseParams).Error != 0xFFFE { fail("error changed") }
}
'''), needs="a Response whose error number is 32769 or more", breaks="the decoded error is another one"),
dict(id="prefix-255-in-full", property="C02",
  edits=[("agentx/encoding.go", "id[4] >= 1 && id[4] <= 255", "id[4] >= 1 && id[4] < 255"),
         ("agentx/encoding.go", "val[4] >= 1 && val[4] <= 255", "val[4] >= 1 && val[4] < 255"),
         ("agentx/encoding_dbg.go", "val[4] >= 1 && val[4] <= 255", "val[4] >= 1 && val[4] < 255")],
  demo=demo(["agentx"], '''func main() {
	b, ok := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagRemoveAgentCaps, Params: agentx.RemoveAgentCapsParams{Oid: []uint32{1, 3, 6, 1, 255}}})
	if !ok || len(b) != 24 || b[20] != 0 || b[21] != 255 { fail("1.3.6.1.255 not shortened") }
}
'''), needs="an OID beginning 1.3.6.1.255", breaks="it is written in full; it still decodes to the same OID"),
dict(id="payload-size-kept", property="C02",
  edits=[("agentx/pdu.go", '''	pdu.PayloadSize = int32(payloadSize)

	data = make([]byte, 0, PduHeaderSize+payloadSize)
	e := encoder{''', '''	if pdu.PayloadSize>>16 == 0 || int(pdu.PayloadSize) < payloadSize {
		pdu.PayloadSize = int32(payloadSize)
	}

	data = make([]byte, 0, PduHeaderSize+payloadSize)
	e := encoder{''')],
  demo=demo(["agentx"], '''func main() {
	b, ok := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagPing, PayloadSize: 1 << 20, Params: agentx.NoParams{}})
	if !ok || b[16] != 0 || b[18] != 0 { fail("stale payload size written") }
}
'''), needs="a caller's PDU whose payload size is 65536 or more and larger than the real one", breaks="the header announces more bytes than follow"),
dict(id="oid-length-before-prefix", property="C03",
  edits=[("agentx/encoding.go", '''	if nsubids > 255 {
		panic(ErrEncoding)
	}
''', '''	if nsubids > 255 || len(val) >= 255 && prefix != 0 {
		panic(ErrEncoding)
	}
''')],
  demo=demo(["agentx"], '''func main() {
	o := make([]uint32, 260)
	copy(o, []uint32{1, 3, 6, 1, 9})
	if _, ok := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagRemoveAgentCaps, Params: agentx.RemoveAgentCapsParams{Oid: o}}); !ok { fail("OID with prefix and 255 more sub-ids refused") }
}
'''), needs="an OID with the internet prefix and exactly 255 further sub-identifiers", breaks="a representable PDU is refused (by the plain encoder)"),
dict(id="getbulk-sum", property="C03",
  edits=[("agentx/payload_params.go", '''	if p.NonRepeaters < 0 || p.MaxRepeatitions < 0 {
		panic(ErrEncoding)
	}
	data = e.appendInt16(data, p.NonRepeaters)
	return''', '''	if p.NonRepeaters+p.MaxRepeatitions < 0 || p.NonRepeaters < 0 {
		panic(ErrEncoding)
	}
	data = e.appendInt16(data, p.NonRepeaters)
	return''')],
  demo=demo(["agentx"], '''func main() {
	if _, ok := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagGetBulk, Params: agentx.GetBulkParams{NonRepeaters: 20000, MaxRepeatitions: 20000}}); !ok { fail("refused") }
	if _, ok := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagGetBulk, Params: agentx.GetBulkParams{NonRepeaters: 5, MaxRepeatitions: -2}}); ok { fail("accepted") }
}
'''), needs="GetBulk counters whose sum overflows, or a negative one outweighed by the other", breaks="valid counters are refused and negative ones written"),
dict(id="header-big-payload", property="C04",
  edits=[("agentx/pdu.go", '''	ok = pdu.PayloadSize >= 0 && pdu.PayloadSize&0x03 == 0 && len(data) == 0
''', '''	ok = pdu.PayloadSize >= 0 && uint16(pdu.PayloadSize)&0x03 == 0 && int64(pdu.PayloadSize)+PduHeaderSize <= 1<<31-1 && len(data) == 0
''')],
  demo=demo(["agentx"], '''func main() {
	if _, ok := agentx.DecodePduHeader([]byte{1, 5, 16, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x7f, 0xff, 0xff, 0xfc}); !ok { fail("refused") }
}
'''), needs="a header announcing one of the largest payload lengths", breaks="a well-formed header is refused"),
dict(id="varbind-tag-high-byte", property="C05",
  edits=[("agentx/varbind.go", '''	tag, nextpos = d.parseInt16(startpos)
	vb.Tag = asn.Tag(tag)
	d.log.Writef("parsed Tag: %s", vb.Tag.String())
	if vb.Tag = asn.Tag(tag); int16(vb.Tag) != tag || !vb.Tag.IsValueTag() {''', '''	tag, nextpos = d.parseInt16(startpos)
	vb.Tag = asn.Tag(tag)
	d.log.Writef("parsed Tag: %s", vb.Tag.String())
	if vb.Tag = asn.Tag(tag); tag < 0 || !vb.Tag.IsValueTag() {'''),
         ("agentx/varbind.go", '''	tag, next = d.parseInt16(data)
	if vb.Tag = asn.Tag(tag); int16(vb.Tag) != tag || !vb.Tag.IsValueTag() {''', '''	tag, next = d.parseInt16(data)
	if vb.Tag = asn.Tag(tag); tag < 0 || !vb.Tag.IsValueTag() {''')],
  demo=demo(["agentx"], '''func main() {
	p := agentx.Pdu{Tag: agentx.TagNotify, Flags: agentx.FlagNetworkByteOrder, PayloadSize: 12}
	if agentx.DecodePduPayload(&p, []byte{3, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}) { fail("varbind type 0x0302 accepted") }
}
'''), needs="a varbind type above 255 whose low byte is a known type", breaks="it is accepted as that type, in both decoders"),
dict(id="decode-oid-128", property="C05",
  edits=[("agentx/encoding.go", '''	nsubids, prefix, include := int(data[0]), uint32(data[1]), data[2]
	next = data[4:]
''', '''	nsubids, prefix, include := int(data[0]&0x7F), uint32(data[1]), data[2]
	if data[0] > 128 {
		panic(ErrEncoding)
	}
	next = data[4:]
''')],
  demo=demo(["agentx"], RT + '''func main() {
	o := make([]uint32, 130)
	if q, ok := rt(agentx.Pdu{Tag: agentx.TagRemoveAgentCaps, Params: agentx.RemoveAgentCapsParams{Oid: o}}); !ok || len(q.Params.(agentx.RemoveAgentCapsParams).Oid) != 130 { fail("OID of 130 sub-ids") }
}
'''), needs="an OID with 128 or more sub-identifiers on the wire", breaks="a well-formed payload is refused"),
dict(id="long-string-refused", property="C05",
  edits=[("agentx/encoding.go", '''	val, next = string(next[:int(size)]), next[int(size):]
''', '''	if size > 1<<16 {
		panic(ErrEncoding)
	}
	val, next = string(next[:int(size)]), next[int(size):]
'''), ("agentx/encoding_dbg.go", '''	d.log.Write("parsing OctetString bytes:")
''', '''	if size > 1<<16 {
		panic("string too long")
	}
	d.log.Write("parsing OctetString bytes:")
''')],
  demo=demo(["agentx", "strings"], RT + '''func main() {
	if _, ok := rt(agentx.Pdu{Tag: agentx.TagPing, Flags: agentx.FlagNonDefaultContext, Context: strings.Repeat("x", 70000), Params: agentx.NoParams{}}); !ok { fail("long string") }
}
'''), needs="a string of more than 65536 bytes", breaks="a well-formed payload is refused by both decoders"),
dict(id="ping-extra-bytes", property="C05",
  edits=[("agentx/pdu.go", '''	ok = len(data) == 0
	return
}

// EncodePduDbg''', '''	if _, none := pdu.Params.(NoParams); !none || pdu.Flags&FlagNonDefaultContext != 0 {
		ok = len(data) == 0
	}
	return
}

// EncodePduDbg''')],
  demo=demo(["agentx"], '''func main() {
	p := agentx.Pdu{Tag: agentx.TagCommitSet, PayloadSize: 4}
	if agentx.DecodePduPayload(&p, []byte{0, 0, 0, 0}) { fail("4 bytes left over accepted") }
}
'''), needs="a PDU without parameters, lists or context (Ping, CommitSet, ...) with a non-empty payload", breaks="bytes left over are accepted"),
dict(id="copy-rest-per-varbind", property="C06",
  edits=[("agentx/varbind.go", '''func (d decoder) parseVarbind(data []byte) (vb asn.Varbind, next []byte) {
''', '''func (d decoder) parseVarbind(data []byte) (vb asn.Varbind, next []byte) {
	data = append([]byte(nil), data...) // values must not refer to the caller's buffer
''')],
  demo=demo(["agentx", "runtime"], '''func main() {
	n := 40000
	b := make([]byte, 0, 8*n)
	for i := 0; i < n; i++ { b = append(b, 5, 0, 0, 0, 0, 0, 0, 0) }
	p := agentx.Pdu{Tag: agentx.TagNotify, PayloadSize: int32(len(b))}
	var m1, m2 runtime.MemStats
	runtime.ReadMemStats(&m1)
	if !agentx.DecodePduPayload(&p, b) { fail("refused") }
	runtime.ReadMemStats(&m2)
	if (m2.TotalAlloc-m1.TotalAlloc)/uint64(len(b)) > 500 { fail("quadratic memory") }
}
'''), needs="a payload with many varbinds", breaks="the memory allocated grows with the square of the payload"),
dict(id="opaque-alloc-claimed", property="C06",
  edits=[("agentx/encoding.go", '''	chunk, next := next[:int(size)], next[int(size):]
	val = make([]byte, int(size))
	copy(val, chunk)
''', '''	val = make([]byte, int(size))
	copy(val, next[:int(size)])
	next = next[int(size):]
''')],
  demo=demo(["agentx", "runtime"], '''func main() {
	p := agentx.Pdu{Tag: agentx.TagNotify, Flags: agentx.FlagNetworkByteOrder, PayloadSize: 12}
	var m1, m2 runtime.MemStats
	runtime.ReadMemStats(&m1)
	agentx.DecodePduPayload(&p, []byte{0, 68, 0, 0, 0, 0, 0, 0, 0x10, 0, 0, 0})
	runtime.ReadMemStats(&m2)
	if m2.TotalAlloc-m1.TotalAlloc > 1<<24 { fail("allocates what the bytes claim") }
}
'''), needs="a varbind of type Opaque that claims a large size", breaks="the claimed size is allocated before it is checked"),
dict(id="dbg-unregister-reserved", property="C07",
  edits=[("agentx/payload_params.go", '''	if data[0] != 0 || data[3] != 0 {
		panic("non-zero reserved byte(s)")''', '''	if data[0]|data[3] > 127 {
		panic("non-zero reserved byte(s)")''')],
  demo=demo(["agentx", "fmt"], MKLOG + '''func main() {
	b := []byte{1, 0, 0, 0, 0, 0, 0, 0}
	p := agentx.Pdu{Tag: agentx.TagUnregister, PayloadSize: 8}
	q := p
	if agentx.DecodePduPayload(&p, b) != agentx.DecodePduPayloadDbg(&q, b, &nolog{}) { fail("debug differs") }
}
'''), needs="an Unregister payload with a small non-zero reserved byte", breaks="the debug decoder accepts what the plain one refuses"),
dict(id="dbg-lists-accumulate", property="C07",
  edits=[("agentx/pdu.go", '''		pdu.Varbinds = nil
		for nextpos < len(d.data) {
			var vb''', '''		if nextpos == len(d.data) {
			pdu.Varbinds = nil
		}
		for start := nextpos; nextpos < len(d.data); {
			if nextpos == start && len(pdu.Varbinds) > 1 {
				pdu.Varbinds = pdu.Varbinds[:1]
			} else if nextpos == start {
				pdu.Varbinds = nil
			}
			var vb''')],
  demo=demo(["agentx", "asn", "fmt"], MKLOG + '''func main() {
	b := []byte{5, 0, 0, 0, 0, 0, 0, 0}
	p := agentx.Pdu{Tag: agentx.TagNotify, PayloadSize: 8, Varbinds: make([]asn.Varbind, 2)}
	if !agentx.DecodePduPayloadDbg(&p, b, &nolog{}) || len(p.Varbinds) != 1 { fail("old varbind kept") }
}
'''), needs="the debug payload decoder given a PDU that already holds two or more varbinds", breaks="one of the old varbinds stays in front of the decoded ones"),
dict(id="payload-size-16-bit", property="C08",
  edits=[("agentx/pdu.go", '''	pdu.PayloadSize = int32(payloadSize)

	data = make([]byte, 0, PduHeaderSize+payloadSize)
	e := encoder{''', '''	pdu.PayloadSize = int32(uint16(payloadSize))

	data = make([]byte, 0, PduHeaderSize+payloadSize)
	e := encoder{''')],
  demo=demo(["agentx", "strings"], '''func main() {
	b, ok := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagPing, Flags: agentx.FlagNonDefaultContext, Context: strings.Repeat("x", 70000), Params: agentx.NoParams{}})
	if !ok { fail("refused") }
	q, ok := agentx.DecodePduHeader(b[:20])
	if !ok || int(q.PayloadSize) != len(b)-20 { fail("announced size differs") }
}
'''), needs="a PDU whose payload is 64 KiB or more", breaks="the announced length is reduced modulo 65536: framing is lost from there on"),
dict(id="ranges-slice-reused", property="C09",
  edits=[("agentx/pdu.go", '''		pdu.Ranges = nil
		for len(data) > 0 {''', '''		pdu.Ranges = pdu.Ranges[:0]
		for len(data) > 0 {''')],
  demo=demo(["agentx"], '''func main() {
	p := agentx.Pdu{Tag: agentx.TagGet, PayloadSize: 8}
	if !agentx.DecodePduPayload(&p, []byte{0, 1, 0, 0, 0, 0, 0, 0}) { fail("1") }
	q := p
	if !agentx.DecodePduPayload(&q, []byte{0, 2, 0, 0, 0, 0, 0, 0}) { fail("2") }
	if p.Ranges[0].StartOid[4] != 1 { fail("earlier result changed") }
}
'''), needs="two decodes into copies of one PDU value", breaks="the second decode overwrites the ranges of the first result"),
dict(id="opaque-alias-aligned", property="C09",
  edits=[("agentx/encoding.go", '''	val = make([]byte, int(size))
	copy(val, chunk)
''', '''	if val = chunk[:len(chunk):len(chunk)]; size&3 != 0 || size == 0 {
		val = make([]byte, int(size))
		copy(val, chunk)
	}
''')],
  demo=demo(["agentx"], '''func main() {
	b := []byte{68, 0, 0, 0, 0, 0, 0, 0, 4, 0, 0, 0, 1, 2, 3, 4}
	p := agentx.Pdu{Tag: agentx.TagNotify, PayloadSize: 16}
	if !agentx.DecodePduPayload(&p, b) { fail("refused") }
	b[12] = 9
	if p.Varbinds[0].Value.([]byte)[0] != 1 { fail("value aliases the input") }
}
'''), needs="an Opaque value whose size is a positive multiple of 4", breaks="the decoded value is the caller's buffer"),
dict(id="oid-interned", property="C09",
  edits=[("agentx/encoding.go", '''func (d decoder) parseObjectId(data []byte) (val []uint32, include byte, next []byte) {
''', '''// lastOid is the most recently decoded object id: the varbinds of a
// table row mostly repeat it.
var lastOid struct {
	sync.Mutex
	key string
	val []uint32
}

func (d decoder) parseObjectId(data []byte) (val []uint32, include byte, next []byte) {
	val, include, next = d.parseNewObjectId(data)
	if len(val) < 12 {
		return
	}
	lastOid.Lock()
	defer lastOid.Unlock()
	if key := string(data[:len(data)-len(next)]); key == lastOid.key && len(val) == len(lastOid.val) {
		val = lastOid.val
	} else {
		lastOid.key, lastOid.val = key, val
	}
	return
}

func (d decoder) parseNewObjectId(data []byte) (val []uint32, include byte, next []byte) {
'''), ("agentx/encoding.go", '''	"errors"
''', '''	"errors"
	"sync"
''')],
  demo=demo(["agentx"], RT + '''func main() {
	p := agentx.Pdu{Tag: agentx.TagRemoveAgentCaps, Params: agentx.RemoveAgentCapsParams{Oid: make([]uint32, 14)}}
	a, _ := rt(p)
	a.Params.(agentx.RemoveAgentCapsParams).Oid[3] = 77
	b, _ := rt(p)
	if b.Params.(agentx.RemoveAgentCapsParams).Oid[3] != 0 { fail("results share an OID") }
}
'''), needs="the same OID of 12 or more sub-identifiers decoded twice in a row and one result changed in between or after", breaks="the two results share memory, and a changed result is returned again"),
dict(id="scratch-int", property="C09", race=False,
  edits=[("agentx/encoding.go", '''func (networkByteOrder) appendUint64(data []byte, val uint64) []byte {
	return append(data, byte(val>>56), byte(val>>48), byte(val>>40), byte(val>>32),
		byte(val>>24), byte(val>>16), byte(val>>8), byte(val))
}
''', '''var scratch [8]byte

func (networkByteOrder) appendUint64(data []byte, val uint64) []byte {
	for i := range scratch {
		scratch[i] = byte(val >> (56 - 8*i))
	}
	return append(data, scratch[:]...)
}
''')],
  demo=demo(["agentx", "asn", "sync"], '''func main() {
	var wg sync.WaitGroup
	bad := make(chan bool, 100)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(v uint64) {
			defer wg.Done()
			vbs := make([]asn.Varbind, 50)
			for i := range vbs { vbs[i] = asn.Varbind{Tag: asn.TagCounter64, Value: v} }
			for i := 0; i < 20000; i++ {
				b, _ := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagNotify, Flags: agentx.FlagNetworkByteOrder, Params: agentx.NoParams{}, Varbinds: vbs})
				for j := 28; j+8 <= len(b); j += 16 { for k := 0; k < 8; k++ { if b[j+k] != byte(v) { select { case bad <- true: default: }; return } } }
			}
		}(uint64(g+1) * 0x0101010101010101)
	}
	wg.Wait()
	if len(bad) > 0 { fail("calls disturb each other") }
}
'''), needs="two goroutines encoding Counter64 values in network byte order at the same time", breaks="bytes of one call appear in the result of the other"),
dict(id="compare-same-array", property="C10",
  edits=[("oid/oid.go", '''	lmin := generics.Min(len1, len2)
''', '''	lmin := generics.Min(len1, len2)
	if lmin > 0 && &id1[0] == &id2[0] {
		return len1 - len2
	}
''')],
  demo=demo(["oid"], '''func main() {
	o := []uint32{1, 2, 3, 4, 5}
	if oid.Compare(o, o[:2]) != 1 || !oid.Lt(o[:2], o) { fail("prefix of the same array") }
}
'''), needs="comparing an OID with a prefix of itself that shares its array, differing in length by two or more", breaks="the result is not -1 or +1 and the predicates are wrong"),
dict(id="eq-skips-middle", property="C10",
  edits=[("oid/oid.go", '''func Eq(id1, id2 []uint32) bool {
	return Compare(id1, id2) == 0
}''', '''func Eq(id1, id2 []uint32) bool {
	if len(id1) != len(id2) {
		return false
	}
	// instances differ at the end far more often than at the beginning
	for i, j := 0, len(id1)-1; i < j; i, j = i+1, j-1 {
		if id1[j] != id2[j] || id1[i] != id2[i] {
			return false
		}
	}
	return true
}''')],
  demo=demo(["oid"], '''func main() {
	if oid.Eq([]uint32{1, 2, 3}, []uint32{1, 9, 3}) { fail("Eq") }
}
'''), needs="OIDs of equal odd length that differ in the middle sub-identifier only", breaks="Eq holds for different OIDs while Compare and Ne say they differ"),
dict(id="cat-empty-base", property="C11",
  edits=[("oid/oid.go", '''func Cat(id []uint32, subids ...uint32) (idnew []uint32) {
''', '''func Cat(id []uint32, subids ...uint32) (idnew []uint32) {
	if len(id) == 0 {
		return subids
	}
''')],
  demo=demo(["oid"], '''func main() {
	s := []uint32{1, 2}
	c := oid.Cat(nil, s...)
	s[0] = 9
	if c[0] != 1 { fail("aliases the argument") }
}
'''), needs="Cat of an empty OID and a slice passed with ..., written to later", breaks="the result is the argument's own array"),
dict(id="clone-arena", property="C11",
  edits=[("oid/oid.go", '''func Clone(id []uint32) (idnew []uint32) {
	idnew = make([]uint32, len(id))
	copy(idnew, id)
	return
}
''', '''func Clone(id []uint32) (idnew []uint32) {
	if len(id) > 16 {
		idnew = make([]uint32, len(id))
		copy(idnew, id)
		return
	}
	// short ids are cut from a common chunk
	arenaLock.Lock()
	defer arenaLock.Unlock()
	if cap(arena)-len(arena) < len(id) {
		arena = make([]uint32, 0, 64)
	}
	n := len(arena)
	arena = append(arena, id...)
	return arena[n:]
}

var (
	arenaLock sync.Mutex
	arena     []uint32
)
'''), ("oid/oid.go", '''	"strings"
''', '''	"strings"
	"sync"
''')],
  demo=demo(["oid"], '''func main() {
	a := oid.Clone([]uint32{1, 2})
	b := oid.Clone([]uint32{3, 4})
	_ = append(a, 9)
	if b[0] != 3 { fail("append to one clone changes the next") }
}
'''), needs="two clones of short OIDs and an append to the first", breaks="the append overwrites the second clone"),
dict(id="parse-wraps-64", property="C12",
  edits=[("oid/oid.go", '''		var subid uint64
		if subid, err = strconv.ParseUint(s[:ind], 10, 32); err != nil {
			return
		}
''', '''		var subid uint64
		if ind == 0 {
			err = fmt.Errorf("ParseOid: empty subid")
			return
		}
		for _, c := range []byte(s[:ind]) {
			if c < '0' || c > '9' {
				err = fmt.Errorf("ParseOid: invalid character %q", c)
				return
			}
			subid = 10*subid + uint64(c-'0')
		}
		if subid > 1<<32-1 {
			err = fmt.Errorf("ParseOid: subid %d is out of range", subid)
			return
		}
''')],
  demo=demo(["oid"], '''func main() {
	defer func() { if recover() == nil { fail("accepted") } }()
	oid.Parse("1.18446744073709551617")
}
'''), needs="a number whose value modulo 2^64 is below 2^32", breaks="an out-of-range number is accepted"),
dict(id="remove-swaps-wide", property="C13",
  edits=[("oid/node.go", '''		node.Children = append(node.Children[:ind], node.Children[ind+1:]...)
		return true''', '''		n := len(node.Children)
		if n > 32 && ind == n-2 {
			node.Children[ind] = node.Children[n-1]
			node.Children = node.Children[:n-1]
			return true
		}
		if n > 48 {
			// avoid moving a long tail
			half := append([]*Node(nil), node.Children[ind+1:n-1]...)
			node.Children = append(append(node.Children[:ind:ind], half...), node.Children[n-1])
			node.Children[ind], node.Children[n-2] = node.Children[n-2], node.Children[ind]
			return true
		}
		node.Children = append(node.Children[:ind], node.Children[ind+1:]...)
		return true''')],
  demo=demo(["oid"], '''func main() {
	t := oid.NewTree()
	for i := uint32(0); i < 60; i++ { t.AddNode([]uint32{i}) }
	t.RemoveNode([]uint32{5})
	if t.GetNode([]uint32{6}) == nil { fail("node lost") }
	if c := t.GetNode(nil).Children; c[5].Subid > c[6].Subid { fail("order") }
}
'''), needs="removing a child from a node with more than 48 children", breaks="two children change places: order broken and a node not found"),
dict(id="wide-search-off-by-one", property="C13",
  edits=[("oid/node.go", '''	ind = sort.Search(len(node.Children), func(i int) bool {
		return node.Children[i].Subid >= subid
	})
''', '''	if n := len(node.Children); n > 16 && subid > node.Children[n-2].Subid {
		ind = n - 1 // the usual case while a table is being filled
		if subid > node.Children[n-1].Subid {
			return n, false
		}
		return ind, true
	}
	ind = sort.Search(len(node.Children), func(i int) bool {
		return node.Children[i].Subid >= subid
	})
''')],
  demo=demo(["oid"], '''func main() {
	t := oid.NewTree()
	for i := uint32(0); i < 20; i++ { t.AddNode([]uint32{3 * i}) }
	if t.GetNode([]uint32{3*19 - 1}) != nil { fail("absent node found") }
}
'''), needs="a node with more than 16 children and a sub-id that falls between its last two", breaks="the last child is found in its place"),
dict(id="node-recycled", property="C13",
  edits=[("oid/node.go", '''		child := &Node{Subid: subid, Parent: node}
''', '''		child := &Node{Subid: subid, Parent: node}
		if n := len(node.Children); n < cap(node.Children) {
			// a slot that a removal has left may be used again
			if old := node.Children[:n+1][n]; old != nil && old.Subid == subid && len(old.Children) == 0 {
				child = old
			}
		}
''')],
  demo=demo(["oid"], '''func main() {
	t := oid.NewTree()
	t.AddNode([]uint32{1})
	t.AddNode([]uint32{2}).Data = "old"
	t.RemoveNode([]uint32{2})
	if n := t.AddNode([]uint32{2}); n == nil || n.Data != nil { fail("data came back") }
}
'''), needs="removing the last child of a node and adding the same OID again", breaks="the node comes back with its old data"),
dict(id="get-cache-stale", property="C13",
  edits=[("oid/tree.go", '''	lock sync.RWMutex
	root *Node
}''', '''	lock sync.RWMutex
	root *Node
	last atomic.Pointer[hit]
}

// hit is the most recent successful lookup.
type hit struct {
	oid  []uint32
	node *Node
}'''), ("oid/tree.go", '''	defer t.lock.RUnlock()
	return t.root.getNode(oid)
''', '''	defer t.lock.RUnlock()
	if h := t.last.Load(); h != nil && len(oid) > 0 && Eq(h.oid, oid) {
		return h.node
	}
	node := t.root.getNode(oid)
	if node != nil {
		t.last.Store(&hit{Clone(oid), node})
	}
	return node
'''), ("oid/tree.go", '''	return t.root.removeNode(oid, false)
''', '''	if h := t.last.Load(); h != nil && Eq(h.oid, oid) {
		t.last.Store(nil)
	}
	return t.root.removeNode(oid, false)
'''), ("oid/tree.go", '''	t.root.Children = nil
''', '''	t.root.Children = nil
	t.last.Store(nil)
'''), ("oid/tree.go", '''import "sync"
''', '''import (
	"sync"
	"sync/atomic"
)
''')],
  demo=demo(["oid"], '''func main() {
	t := oid.NewTree()
	t.AddNode([]uint32{1, 2})
	t.GetNode([]uint32{1, 2})
	t.RemoveNode([]uint32{1})
	if t.GetNode([]uint32{1, 2}) != nil { fail("removed node found") }
}
'''), needs="getting a node, removing an ancestor of it and getting it again", breaks="the removed node is still found"),
dict(id="next-leaf-above-start", property="C14",
  edits=[("oid/node.go", "(include1 && ind == len(oid1))", "(include1 && ind <= len(oid1))")],
  demo=demo(["oid"], '''func main() {
	t := oid.NewTree()
	t.AddNode([]uint32{1, 2})
	t.AddNode([]uint32{1, 3})
	if n := t.GetNextNode([]uint32{1, 2, 0}, nil, true); n == nil || n.Subid != 3 { fail("leaf before the start") }
}
'''), needs="include with a start OID that extends a leaf", breaks="a leaf smaller than the start is returned"),
dict(id="next-empty-end", property="C14",
  edits=[("oid/node.go", "iterate(node, 0, true, len(oid2) > 0)", "iterate(node, 0, true, oid2 != nil)")],
  demo=demo(["oid"], '''func main() {
	t := oid.NewTree()
	t.AddNode([]uint32{1})
	if t.GetNextNode(nil, []uint32{}, false) == nil { fail("empty end bounds") }
}
'''), needs="an end OID that is empty but not nil", breaks="nothing is found"),
dict(id="next-search-start", property="C14",
  edits=[("oid/node.go", '''		for _, child := range node.Children {
			if eq1 &&''', '''		first := 0
		if eq1 && ind < len(oid1) && len(node.Children) > 8 {
			var ok bool
			if first, ok = node.searchChild(oid1[ind]); !ok && oid1[ind] > node.Children[0].Subid {
				first++
			}
			if first > len(node.Children) {
				first = len(node.Children)
			}
		}
		for _, child := range node.Children[first:] {
			if eq1 &&''')],
  demo=demo(["oid"], '''func main() {
	t := oid.NewTree()
	for i := uint32(0); i < 12; i++ { t.AddNode([]uint32{2 * i}) }
	if n := t.GetNextNode([]uint32{5}, nil, false); n == nil || n.Subid != 6 { fail("next of 5") }
}
'''), needs="a node with more than 8 children and a start that falls between two of them", breaks="the least leaf is skipped"),
dict(id="next-depth-limit", property="C14",
  edits=[("oid/node.go", '''			if eq2 && (ind >= len(oid2) || oid2[ind] < child.Subid) {
				continue
			}
''', '''			if eq2 && (ind >= len(oid2) || oid2[ind] < child.Subid) {
				continue
			}
			if ind > 127 {
				continue // longer than an OID may be
			}
''')],
  demo=demo(["oid"], '''func main() {
	t := oid.NewTree()
	o := make([]uint32, 130)
	t.AddNode(o)
	if t.GetNextNode(o, nil, true) == nil { fail("deep leaf not found") }
}
'''), needs="a leaf more than 128 levels deep and a start OID that long", breaks="the leaf is not found"),
dict(id="walk-buffer-16", property="C15",
  edits=[("oid/node.go", '''			nodeOid := Cat(parentOid, node.Subid)
''', '''			nodeOid := append(parentOid, node.Subid)
			if len(nodeOid) < 16 {
				nodeOid = Clone(nodeOid)
			}
''')],
  demo=demo(["oid"], '''func main() {
	t := oid.NewTree()
	o := make([]uint32, 18)
	t.AddNode(o)
	t.AddNode(oid.Cat(o[:17], 5))
	t.AddNode(oid.Cat(o[:17], 6))
	var all [][]uint32
	t.ForRangeLeaves(func(o []uint32, n *oid.Node) { all = append(all, o) })
	if all[0][17] != 0 || all[1][17] != 5 { fail("OID altered by a later call") }
}
'''), needs="sibling leaves at depth 17 or more whose OIDs are kept by the visitor", breaks="a later call overwrites the OID passed to an earlier one"),
dict(id="walk-skips-wide-tail", property="C15",
  edits=[("oid/node.go", '''	iterate = func(parentOid []uint32, nodes []*Node) {
		for _, node := range nodes {
''', '''	iterate = func(parentOid []uint32, nodes []*Node) {
		for len(nodes) > 64 {
			iterate(parentOid, nodes[:64])
			nodes = nodes[65:]
		}
		for _, node := range nodes {
''')],
  demo=demo(["oid"], '''func main() {
	t := oid.NewTree()
	for i := uint32(0); i < 70; i++ { t.AddNode([]uint32{i}) }
	n := 0
	t.ForRangeLeaves(func(o []uint32, _ *oid.Node) { n++ })
	if n != 70 { fail("leaves missed") }
}
'''), needs="a node with more than 64 children", breaks="every 65th leaf is missed"),
dict(id="walk-recursive-rlock", property="C16",
  edits=[("oid/tree.go", '''	t.root.forRangeLeaves(do)
''', '''	t.root.forRangeLeaves(func(oid []uint32, node *Node) {
		if t.GetNode(oid) == node {
			do(oid, node)
		}
	})
''')],
  demo=demo(["oid", "sync", "time"], '''func main() {
	t := oid.NewTree()
	for i := uint32(0); i < 100; i++ { t.AddNode([]uint32{i}) }
	done := make(chan bool)
	go func() {
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g uint32) {
				defer wg.Done()
				for i := 0; i < 3000; i++ {
					if g%2 == 0 { t.ForRangeLeaves(func([]uint32, *oid.Node) {}) } else { t.AddNode([]uint32{g, uint32(i)}); t.RemoveNode([]uint32{g, uint32(i)}) }
				}
			}(uint32(g))
		}
		wg.Wait()
		close(done)
	}()
	select { case <-done: case <-time.After(30 * time.Second): fail("deadlock") }
}
'''), needs="a writer that waits for the lock while a traversal is running", breaks="the traversal takes the read lock again and both wait for ever"),
dict(id="next-unlocked", property="C16",
  edits=[("oid/tree.go", '''	t.lock.RLock()
	defer t.lock.RUnlock()
	return t.root.getNextNode(oid1, oid2, include1, 1)
''', '''	t.lock.RLock()
	root := *t.root
	t.lock.RUnlock()
	return root.getNextNode(oid1, oid2, include1, 1)
''')],
  demo=demo(["oid", "sync"], '''func main() {
	t := oid.NewTree()
	for i := uint32(0); i < 50; i++ { t.AddNode([]uint32{1, 2 * i, 1}) }
	var wg sync.WaitGroup
	bad := make(chan bool, 100000)
	stop := make(chan bool)
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := uint32(0); ; i++ {
			select { case <-stop: return; default: }
			k := 2*(i%50) + 1
			t.AddNode([]uint32{1, k}); t.RemoveNode([]uint32{1, k})
		}
	}()
	for r := 0; r < 300000; r++ {
		n := t.GetNextNode([]uint32{1, 40, 1}, nil, true)
		if n == nil || n.Parent.Subid != 40 { bad <- true; break }
	}
	close(stop)
	wg.Wait()
	if len(bad) > 0 { fail("a leaf that is always there was not found") }
}
'''), race=True, needs="a next-node search while siblings are added or removed", breaks="the search reads the children below the first level without the lock"),
dict(id="root-read-before-lock", property="C16",
  edits=[("oid/tree.go", '''	t.lock.Lock()
	defer t.lock.Unlock()
	t.root.Children = nil
''', '''	t.lock.Lock()
	defer t.lock.Unlock()
	t.root = &Node{Data: t.root.Data}
'''), ("oid/tree.go", '''	t.lock.Lock()
	defer t.lock.Unlock()
	return t.root.addNode(oid)
''', '''	root := t.root
	t.lock.Lock()
	defer t.lock.Unlock()
	return root.addNode(oid)
''')],
  demo=demo(["oid", "sync"], '''func main() {
	t := oid.NewTree()
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g uint32) {
			defer wg.Done()
			for i := uint32(0); i < 5000; i++ { if g == 0 { t.Clear() } else { t.AddNode([]uint32{g, i}) } }
		}(uint32(g))
	}
	wg.Wait()
}
'''), race=True, needs="an add that begins while a clear is running", breaks="the node is added to the old root and lost"),
dict(id="dump-prefix-format", property="C17",
  edits=[("hex/dump.go", '''		return fmt.Sprintf(
			"%sout of range: i1 = %d, i2 = %d, len(data) = %d",
			prefix, i1, i2, len(data))
''', '''		return fmt.Sprintf(
			prefix+"out of range: i1 = %d, i2 = %d, len(data) = %d",
			i1, i2, len(data))
''')],
  demo=demo(["hex"], '''func main() {
	if hex.DumpSub("100% ", nil, 1, 0) != "100% out of range: i1 = 1, i2 = 0, len(data) = 0" { fail("message") }
}
'''), needs="an invalid range and a prefix with a percent sign", breaks="the message is garbled"),
dict(id="diff-long-equal-run", property="C17",
  edits=[("hex/dump.go", '''	for i := 0; i < maxlen; i += 4 {
		chunk1 =''', '''	i0 := 0
	for maxlen > 1024 && i0+512 < len(data1) && i0+512 < len(data2) && bytes.Equal(data1[i0:i0+512], data2[i0:i0+512]) {
		i0 += 512
	}
	for i := i0; i < maxlen; i += 4 {
		chunk1 =''')],
  demo=demo(["hex", "strings"], '''func main() {
	a := make([]byte, 2000)
	b := make([]byte, 2000)
	b[1999] = 1
	if strings.Count(hex.DumpDiff(a, b), "\\n") != 500 { fail("rows missing") }
}
'''), needs="byte strings of more than 1 KiB that agree in their first 512 bytes", breaks="the equal rows at the beginning are not shown"),
dict(id="opaque-text-cut", property="C18",
  edits=[("asn/value.go", '''			for i, n := 0, len(b); i < n; i++ {
				if i > 0 {''', '''			for i, n := 0, len(b); i < n; i++ {
				if i == 256 {
					sb.WriteString(" ...")
					break
				}
				if i > 0 {''')],
  demo=demo(["asn", "strings"], '''func main() {
	s := asn.Varbind{Tag: asn.TagOpaque, Value: make([]byte, 300)}.String()
	if strings.Count(s, "0") != 300 { fail("bytes missing") }
}
'''), needs="an Opaque value of more than 256 bytes", breaks="its text is cut"),
dict(id="depth-8-unclamped", property="C18",
  edits=[("internal/indent.go", "	if depth >= maxdepth {\n		depth = maxdepth\n", "	if depth > maxdepth+1 {\n		depth = maxdepth\n")],
  demo=demo(["agentx", "asn"], '''func main() {
	_ = agentx.Pdu{Tag: agentx.TagPing, Varbinds: make([]asn.Varbind, 1)}.String(9)
}
'''), needs="the text of a PDU at depth 8 (with a list) or 9", breaks="String panics"),
dict(id="index-text-unsigned", property="C18",
  edits=[("internal/struct.go", '''	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sb.WriteString(strconv.FormatInt(v.Int(), 10))
''', '''	case reflect.Int8, reflect.Int16:
		sb.WriteString(strconv.FormatUint(uint64(uint16(v.Int())), 10))

	case reflect.Int, reflect.Int32, reflect.Int64:
		sb.WriteString(strconv.FormatInt(v.Int(), 10))
''')],
  demo=demo(["agentx", "strings"], '''func main() {
	if !strings.Contains(agentx.Pdu{Tag: agentx.TagResponse, Params: agentx.ResponseParams{Index: -1}}.String(0), "Index: -1") { fail("sign lost") }
}
'''), needs="a negative 16-bit field", breaks="it is shown without its sign"),
dict(id="name-if-phys", property="C19",
  edits=[("oid/name.go", '"ifPhysAddress": {1, 3, 6, 1, 2, 1, 2, 2, 1, 6}', '"ifPhysAddress": {1, 3, 6, 1, 2, 1, 2, 2, 1, 7}')],
  demo=demo(["oid"], '''func main() {
	if oid.String(oid.Name["ifPhysAddress"]) != "1.3.6.1.2.1.2.2.1.6" { fail("ifPhysAddress") }
}
'''), needs="looking up that name", breaks="it maps to the OID of ifAdminStatus"),
dict(id="log-dump-cut", property="C20",
  edits=[("agentx/pdu.go", '''	log.Writef("decoding pdu payload data:\\n%s",
		hex.Dump("    ", data))
''', '''	log.Writef("decoding pdu payload data:\\n%s",
		hex.DumpSub("    ", data, 0, len(data)&0xFFFF))
''')],
  demo=demo(["agentx", "fmt", "strings"], MKLOG + '''func main() {
	l := &nolog{}
	b := make([]byte, 65540)
	p := agentx.Pdu{Tag: agentx.TagPing, PayloadSize: 65540}
	agentx.DecodePduPayloadDbg(&p, b, l)
	if !strings.Contains(l.msgs[0], "00010000") { fail("dump cut") }
}
'''), needs="a payload of 64 KiB or more", breaks="the log shows only a part of it"),
]
