H = '''package main

import (
%s
)

func fail(s string) { println("FAIL: " + s); os.Exit(1) }

'''
def demo(imports, body):
    imps = sorted(set(imports + ["os"]))
    full = {"agentx": "github.com/alexispb/mygosnmp/agentx", "asn": "github.com/alexispb/mygosnmp/asn", "oid": "github.com/alexispb/mygosnmp/oid",
            "hex": "github.com/alexispb/mygosnmp/hex", "pduerror": "github.com/alexispb/mygosnmp/pduerror"}
    return H % "\n".join('\t"%s"' % full.get(i, i) for i in imps) + body

RT = '''func rt(p agentx.Pdu) (agentx.Pdu, bool) {
	b, ok := agentx.EncodePdu(p)
	if !ok { fail("does not encode") }
	q, ok := agentx.DecodePduHeader(b[:20])
	if !ok { fail("header does not decode") }
	return q, agentx.DecodePduPayload(&q, b[20:])
}
'''
SEEDS = [
dict(id="le-counter64-sign", property="C01",
  edits=[("agentx/encoding.go", '''	return uint64(data[0]) | uint64(data[1])<<8 | uint64(data[2])<<16 | uint64(data[3])<<24 |
		uint64(data[4])<<32 | uint64(data[5])<<40 | uint64(data[6])<<48 | uint64(data[7])<<56, data[8:]
''', '''	lo, data := inverseByteOrder{}.parseInt32(data)
	hi, data := inverseByteOrder{}.parseInt32(data)
	return uint64(hi)<<32 | uint64(lo), data
''')],
  demo=demo(["agentx", "asn"], RT + '''func main() {
	p := agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: []uint32{1, 3}, Tag: asn.TagCounter64, Value: uint64(1<<31 + 5)}}}
	q, ok := rt(p)
	if !ok || q.Varbinds[0].Value.(uint64) != 1<<31+5 { fail("Counter64 changed") }
}
'''), needs="little-endian PDU with a Counter64 whose bit 31 is set", breaks="the low half is sign-extended into the high half of the decoded counter"),
dict(id="unregister-upper-omitted", property="C01",
  edits=[("agentx/payload_params.go", '''func (p UnregisterParams) encodingSize() (size int) {
	size += 4 + objectIdEncodingSize(p.Subtree)
	if p.RangeSubid != 0 {''', '''func (p UnregisterParams) encodingSize() (size int) {
	size += 4 + objectIdEncodingSize(p.Subtree)
	if p.RangeSubid != 0 && p.UpperBound != 0 {'''),
         ("agentx/payload_params.go", '''	data = append(data, 0, p.Priority, p.RangeSubid, 0)
	data = e.appendObjectId(data, p.Subtree, 0)
	if p.RangeSubid != 0 {
''', '''	data = append(data, 0, p.Priority, p.RangeSubid, 0)
	data = e.appendObjectId(data, p.Subtree, 0)
	if p.RangeSubid != 0 && p.UpperBound != 0 {
''')],
  demo=demo(["agentx"], RT + '''func main() {
	if _, ok := rt(agentx.Pdu{Tag: agentx.TagUnregister, Params: agentx.UnregisterParams{RangeSubid: 3, Subtree: []uint32{1, 2, 3}}}); !ok { fail("Unregister with upper bound 0 does not decode") }
}
'''), needs="an Unregister PDU with a range sub-id and upper bound 0; size and append agree with each other", breaks="the upper bound is not written, so the payload does not decode"),
dict(id="empty-opaque-size", property="C02",
  edits=[("agentx/encoding.go", '''func opaqueEncodingSize(val []byte) int {
	return''', '''func opaqueEncodingSize(val []byte) int {
	if val == nil {
		return 0
	}
	return''')],
  demo=demo(["agentx", "asn"], '''func main() {
	b, ok := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagNotify, Flags: agentx.FlagNetworkByteOrder, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Tag: asn.TagOpaque, Value: []byte(nil)}}})
	if !ok || int(b[19]) != len(b)-20 { fail("payload length in the header is wrong") }
}
'''), needs="a varbind holding a nil Opaque", breaks="payload length in the header is 4 less than the payload"),
dict(id="range-size-null-end", property="C08",
  edits=[("agentx/search_range.go", '''	return objectIdEncodingSize(r.StartOid) + objectIdEncodingSize(r.EndOid)
''', '''	size := objectIdEncodingSize(r.StartOid)
	if r.EndOid != nil || r.StartIncluded == 0 {
		size += objectIdEncodingSize(r.EndOid)
	}
	return size
''')],
  demo=demo(["agentx"], '''func main() {
	a, _ := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagGet, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{StartOid: []uint32{1, 3}, StartIncluded: 1}}})
	b, _ := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagPing, Params: agentx.NoParams{}, PacketId: 7})
	s := append(a, b...)
	h, ok := agentx.DecodePduHeader(s[:20])
	if !ok { fail("header") }
	s = s[20+h.PayloadSize:]
	if len(s) < 20 { fail("stream too short") }
	h, ok = agentx.DecodePduHeader(s[:20])
	if !ok || h.PacketId != 7 { fail("framing lost") }
}
'''), needs="a Get/GetNext/GetBulk PDU with an including range without end OID, followed by another PDU", breaks="announced payload length too small: the receiver loses framing"),
dict(id="timeticks-from-int32", property="C03",
  edits=[("agentx/varbind.go", '''	asn.TagTimeTicks: {
		encodingSize: func(v interface{}) int {
			return 4
		},
		appendValue: func(e encoder, data []byte, v interface{}) []byte {
			return e.appendUint32(data, v.(uint32))
''', '''	asn.TagTimeTicks: {
		encodingSize: func(v interface{}) int {
			return 4
		},
		appendValue: func(e encoder, data []byte, v interface{}) []byte {
			if n, ok := v.(int32); ok {
				return e.appendInt32(data, n)
			}
			return e.appendUint32(data, v.(uint32))
''')],
  demo=demo(["agentx", "asn"], '''func main() {
	_, ok := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Tag: asn.TagTimeTicks, Value: int32(-1)}}})
	if ok { fail("a TimeTicks of Go type int32 was encoded") }
}
'''), needs="a TimeTicks varbind whose value is an int32", breaks="a value whose Go type does not match its tag is encoded instead of refused"),
dict(id="unregister-takes-register-params", property="C03",
  edits=[("agentx/pdu_tag.go", '''		isApplicableParams: func(p PayloadParams) bool { _, ok := p.(UnregisterParams); return ok },
''', '''		isApplicableParams: func(p PayloadParams) bool {
			switch p.(type) {
			case RegisterParams, UnregisterParams:
				return true
			}
			return false
		},
''')],
  demo=demo(["agentx"], '''func main() {
	if _, ok := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagUnregister, Params: agentx.RegisterParams{}}); ok { fail("Unregister with RegisterParams was encoded") }
}
'''), needs="an Unregister PDU with the parameters of Register", breaks="parameters of another type are accepted"),
dict(id="header-longer-buffer", property="C04",
  edits=[("agentx/pdu.go", '''	ok = pdu.PayloadSize >= 0 && pdu.PayloadSize&0x03 == 0 && len(data) == 0
''', '''	ok = pdu.PayloadSize >= 0 && pdu.PayloadSize&0x03 == 0 && len(data) <= int(pdu.PayloadSize)
''')],
  demo=demo(["agentx"], '''func main() {
	b, _ := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagRemoveAgentCaps, Params: agentx.RemoveAgentCapsParams{}})
	if _, ok := agentx.DecodePduHeader(b); ok { fail("24 bytes were accepted as a header") }
}
'''), needs="more than 20 bytes offered as a header, up to its payload length", breaks="a header of the wrong length is accepted"),
dict(id="caps-new-index-flag", property="C04",
  edits=[("agentx/pdu_tag.go", '''		tagString:          "RemoveAgentCaps",
		allowedFlags:       FlagNonDefaultContext''', '''		tagString:          "RemoveAgentCaps",
		allowedFlags:       FlagAnyIndex | FlagNonDefaultContext''')],
  demo=demo(["agentx"], '''func main() {
	b, _ := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagRemoveAgentCaps, Params: agentx.RemoveAgentCapsParams{}})
	b[2] |= byte(agentx.FlagAnyIndex)
	if _, ok := agentx.DecodePduHeader(b[:20]); ok { fail("AnyIndex accepted on RemoveAgentCaps") }
}
'''), needs="a RemoveAgentCaps header with the AnyIndex flag", breaks="a flag that the type does not allow is accepted"),
dict(id="first-pad-byte", property="C05",
  edits=[("agentx/encoding.go", '''	for i := 0; i < size; i++ {
		if data[i] != 0 {
			panic(ErrEncoding)
		}
	}
	return data[size:]''', '''	for i := size - 1; i > 0; i-- {
		if data[i] != 0 {
			panic(ErrEncoding)
		}
	}
	return data[size:]''')],
  demo=demo(["agentx"], '''func main() {
	b, _ := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagPing, Flags: agentx.FlagNonDefaultContext, Context: "abc", Params: agentx.NoParams{}})
	b[27] = 9
	p, ok := agentx.DecodePduHeader(b[:20])
	if !ok { fail("header") }
	if agentx.DecodePduPayload(&p, b[20:]) { fail("non-zero padding accepted") }
}
'''), needs="a non-zero first padding byte", breaks="a payload with non-zero padding is accepted"),
dict(id="unregister-reserved", property="C05",
  edits=[("agentx/payload_params.go", '''func parseUnregisterParams(d decoder, data []byte) (PayloadParams, []byte) {
	if data[0] != 0 || data[3] != 0 {
		panic(ErrEncoding)
	}
''', '''func parseUnregisterParams(d decoder, data []byte) (PayloadParams, []byte) {
	if data[0] != 0 && data[3] != 0 {
		panic(ErrEncoding)
	}
''')],
  demo=demo(["agentx"], '''func main() {
	b, _ := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagUnregister, Params: agentx.UnregisterParams{}})
	b[20] = 1
	p, _ := agentx.DecodePduHeader(b[:20])
	if agentx.DecodePduPayload(&p, b[20:]) { fail("non-zero reserved byte accepted") }
}
'''), needs="exactly one of the two reserved bytes of Unregister non-zero", breaks="a payload with a non-zero reserved byte is accepted"),
dict(id="string-alloc-claimed", property="C06",
  edits=[("agentx/encoding.go", '''	val, next = string(next[:int(size)]), next[int(size):]
	next = d.parsePaddingBytes(next, int(size))
''', '''	buf := make([]byte, int(size))
	next = next[copy(buf, next[:int(size)]):]
	val = string(buf)
	next = d.parsePaddingBytes(next, int(size))
''')],
  demo=demo(["agentx", "runtime"], '''func main() {
	p := agentx.Pdu{Tag: agentx.TagPing, Flags: agentx.FlagNonDefaultContext | agentx.FlagNetworkByteOrder, PayloadSize: 4}
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	if agentx.DecodePduPayload(&p, []byte{16, 0, 0, 0}) { fail("accepted") }
	runtime.ReadMemStats(&b)
	if b.TotalAlloc-a.TotalAlloc > 1<<20 { fail("4 bytes made the decoder allocate megabytes") }
}
'''), needs="a string length far beyond the data", breaks="memory is allocated by the claimed length"),
dict(id="header-recover-removed", property="C06",
  edits=[("agentx/pdu.go", '''func DecodePduHeader(data []byte) (pdu Pdu, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()

''', '''func DecodePduHeader(data []byte) (pdu Pdu, ok bool) {
	if len(data) < 4 {
		return
	}
''')],
  demo=demo(["agentx"], '''func main() {
	defer func() { if recover() != nil { fail("panic escapes DecodePduHeader") } }()
	agentx.DecodePduHeader([]byte{1, 13, 0, 0, 1})
}
'''), needs="4 to 19 bytes that begin like a header", breaks="a panic escapes the header decoder"),
dict(id="dbg-ip-size", property="C07",
  edits=[("agentx/encoding_dbg.go", '''	if size != 4 {
		panic("size != 4")
	}
	d.log.Write("parsing IpAddress bytes")
	data, nextpos := d.nextChunk(nextpos, 4)
''', '''	if size < 0 || size > 4 {
		panic("size != 4")
	}
	d.log.Write("parsing IpAddress bytes")
	data, nextpos := d.nextChunk(nextpos, 4)
''')],
  demo=demo(["agentx", "asn"], '''type nolog struct{}
func (nolog) Write(string) {}
func (nolog) Writef(string, ...interface{}) {}
func main() {
	b, _ := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Tag: asn.TagIpAddress, Value: [4]byte{1, 2, 3, 4}}}})
	b[28] = 3
	p, _ := agentx.DecodePduHeader(b[:20])
	q := p
	if agentx.DecodePduPayload(&p, b[20:]) != agentx.DecodePduPayloadDbg(&q, b[20:], nolog{}) { fail("plain and debug decoders disagree") }
}
'''), needs="an IpAddress of announced length 0..3 followed by 4 bytes", breaks="only the debug decoder accepts it"),
dict(id="encode-buffer-reused", property="C09",
  edits=[("agentx/pdu.go", '''	data = make([]byte, 0, PduHeaderSize+payloadSize)
	e := encoder{byteOrder: pdu.Flags.byteOrder()}

	data = append(''', '''	if payloadSize == 0 {
		// header only pdu
		data = headerOnly[:0]
	} else {
		data = make([]byte, 0, PduHeaderSize+payloadSize)
	}
	e := encoder{byteOrder: pdu.Flags.byteOrder()}

	data = append('''),
         ("agentx/pdu.go", '''// EncodePdu encodes pdu. The''', '''// headerOnly is the buffer of pdus without payload.
var headerOnly [PduHeaderSize]byte

// EncodePdu encodes pdu. The''')],
  demo=demo(["agentx"], '''func main() {
	a, _ := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagPing, Params: agentx.NoParams{}, PacketId: 1})
	agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagPing, Params: agentx.NoParams{}, PacketId: 2})
	if a[12] != 1 { fail("encoded bytes changed by a later call") }
}
'''), needs="two PDUs without payload encoded one after the other, the first result still in use", breaks="results share memory"),
dict(id="order-from-last-header", property="C09",
  edits=[("agentx/pdu.go", '''	d := decoder{byteOrder: pdu.Flags.byteOrder()}
	pdu.SessionId, data = d.parseUint32(data[4:])''', '''	d := decoder{byteOrder: pdu.Flags.byteOrder()}
	lastSession, lastOrder = 0, d.byteOrder
	pdu.SessionId, data = d.parseUint32(data[4:])
	lastSession = pdu.SessionId'''),
         ("agentx/pdu.go", '''	d := decoder{byteOrder: pdu.Flags.byteOrder()}

	if pdu.Flags&FlagNonDefaultContext != 0 {
		pdu.Context, data = d.parseOctetString(data)''', '''	d := decoder{byteOrder: pdu.Flags.byteOrder()}
	if lastOrder != nil && pdu.SessionId == lastSession {
		d.byteOrder = lastOrder
	}

	if pdu.Flags&FlagNonDefaultContext != 0 {
		pdu.Context, data = d.parseOctetString(data)'''),
         ("agentx/pdu.go", '''// DecodePduHeader returns pdu with header fields set to
''', '''// byte order of the session whose header was decoded last
var (
	lastSession uint32
	lastOrder   byteOrder
)

// DecodePduHeader returns pdu with header fields set to
''')],
  demo=demo(["agentx"], '''func main() {
	a, _ := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagResponse, Flags: agentx.FlagNetworkByteOrder, Params: agentx.ResponseParams{SysUpTime: 1}})
	b, _ := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagPing, Params: agentx.NoParams{}})
	p, _ := agentx.DecodePduHeader(a[:20])
	agentx.DecodePduHeader(b)
	if !agentx.DecodePduPayload(&p, a[20:]) || p.Params.(agentx.ResponseParams).SysUpTime != 1 { fail("payload decoded in the byte order of another header") }
}
'''), needs="two headers of one session in different byte orders decoded before the first payload", breaks="hidden state: the result depends on another call"),
dict(id="compare-by-difference", property="C10",
  edits=[("oid/oid.go", '''		if id1[i] < id2[i] {
			return -1
		}
		if id1[i] > id2[i] {
			return 1
		}
''', '''		if d := int32(id1[i] - id2[i]); d != 0 {
			if d < 0 {
				return -1
			}
			return 1
		}
''')],
  demo=demo(["oid"], '''func main() { if oid.Compare([]uint32{1, 4000000000}, []uint32{1, 2}) != 1 { fail("4000000000 < 2") } }
'''), needs="sub-identifiers that differ by 2^31 or more", breaks="the comparison is not the unsigned order, nor transitive"),
dict(id="cat-nothing-aliases", property="C11",
  edits=[("oid/oid.go", '''	idnew = make([]uint32, len(id)+len(subids))
	copy(idnew, id)
	copy(idnew[len(id):], subids)
''', '''	if len(id) == 0 {
		return subids
	}
	idnew = make([]uint32, len(id)+len(subids))
	copy(idnew, id)
	copy(idnew[len(id):], subids)
''')],
  demo=demo(["oid"], '''func main() { s := []uint32{1, 2}; c := oid.Cat(nil, s...); s[0] = 9; if c[0] != 1 { fail("Cat(nil, s...) shares memory with s") } }
'''), needs="an empty OID extended by a slice that is changed later", breaks="the result shares memory with the argument"),
dict(id="parse-many-dots", property="C12",
  edits=[("oid/oid.go", '''	if s = strings.TrimPrefix(s, "."); len(s) == 0 {''', '''	if s = strings.TrimLeft(s, "."); len(s) == 0 {''')],
  demo=demo(["oid"], '''func main() { defer func() { if recover() == nil { fail("..1.3 was parsed") } }(); oid.Parse("..1.3") }
'''), needs="more than one leading dot", breaks="junk is accepted"),
dict(id="parse-plus-128", property="C12",
  edits=[("oid/oid.go", '''	nsubids := strings.Count(s, ".") + 1
	if nsubids > 128 {''', '''	nsubids := strings.Count(s, ".") + 1
	if nsubids >= 128 {''')],
  demo=demo(["oid"], '''func main() {
	id := make([]uint32, 128)
	defer func() { if recover() != nil { fail("text of an OID of 128 sub-identifiers refused") } }()
	if !oid.Eq(oid.Parse(oid.String(id)), id) { fail("differs") }
}
'''), needs="an OID of exactly 128 sub-identifiers", breaks="the text of a valid OID is refused"),
dict(id="remove-prunes", property="C13",
  edits=[("oid/node.go", '''	for len(node.Children) == 0 && node.Parent != nil {
		node.Parent.removeChild(node.Subid)''', '''	for len(node.Children) == 0 && node.Parent != nil && node.Data == nil {
		node.Parent.removeChild(node.Subid)'''),
         ("oid/tree.go", '''	return t.root.removeNode(oid, false)''', '''	return t.root.removeNode(oid, true)''')],
  demo=demo(["oid"], '''func main() {
	t := oid.NewTree()
	t.AddNode([]uint32{1, 2})
	t.RemoveNode([]uint32{1, 2})
	if t.GetNode([]uint32{1}) == nil { fail("removing 1.2 removed 1") }
}
'''), needs="removing the only child of a node without data", breaks="nodes other than the removed subtree disappear"),
dict(id="next-included-fast-path", property="C14",
  edits=[("oid/tree.go", '''	return t.root.getNextNode(oid1, oid2, include1, 1)''', '''	if include1 && len(oid1) > 0 {
		// the node itself is the most frequent answer
		if node := t.root.getNode(oid1); node != nil && len(node.Children) == 0 {
			return node
		}
	}
	return t.root.getNextNode(oid1, oid2, include1, 1)''')],
  demo=demo(["oid"], '''func main() {
	t := oid.NewTree()
	t.AddNode([]uint32{1, 2})
	if t.GetNextNode([]uint32{1, 2}, []uint32{1, 2}, true) != nil { fail("1.2 is not less than 1.2") }
}
'''), needs="include flag set, the start a leaf, the end not greater than the start", breaks="a leaf outside the range is returned"),
dict(id="walk-shared-oid", property="C15",
  edits=[("oid/node.go", '''			nodeOid := Cat(parentOid, node.Subid)''', '''			nodeOid := append(parentOid, node.Subid)''')],
  demo=demo(["oid"], '''func main() {
	t := oid.NewTree()
	for i := uint32(1); i < 4; i++ { t.AddNode([]uint32{1, 3, 6, 1, 4, i}) }
	var os [][]uint32
	t.ForRangeLeaves(func(o []uint32, _ *oid.Node) { os = append(os, o) })
	for i, o := range os { if o[5] != uint32(i+1) { fail("OID changed by a later visit") } }
}
'''), needs="siblings at a depth where append has spare capacity, the visitor keeping the OIDs", breaks="an OID passed to one visit is altered by the next"),
dict(id="remove-two-locks", property="C16",
  edits=[("oid/tree.go", '''	t.lock.Lock()
	defer t.lock.Unlock()
	return t.root.removeNode(oid, false)''', '''	// most removals are of absent nodes: look first with the read lock only
	t.lock.RLock()
	node := t.root.getNode(oid)
	t.lock.RUnlock()
	if node == nil || node.Parent == nil {
		return false
	}
	t.lock.Lock()
	defer t.lock.Unlock()
	node.Parent.removeChild(node.Subid)
	return true''')],
  demo=demo(["oid", "sync", "sync/atomic"], '''func main() {
	for k := 0; k < 20000; k++ {
		t := oid.NewTree()
		t.AddNode([]uint32{1})
		var wg sync.WaitGroup
		var n int32
		start := make(chan bool)
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() { defer wg.Done(); <-start; if t.RemoveNode([]uint32{1}) { atomic.AddInt32(&n, 1) } }()
		}
		close(start)
		wg.Wait()
		if n != 1 { fail("one node removed more than once") }
	}
}
'''), needs="two removals of one node, the second between look-up and removal of the first", breaks="both report that the node was there"),
dict(id="dump-offset-24", property="C17",
  edits=[("hex/dump.go", '''	b := byte(offset >> 24)
	dst[0] = table[b>>4]
	dst[1] = table[b&0x0F]
	b = byte(offset >> 16)
	dst[2] = table[b>>4]''', '''	dst[0], dst[1] = '0', '0'
	b := byte(offset >> 16)
	dst[2] = table[b>>4&0x07]''')],
  demo=demo(["hex"], '''func main() {
	d := make([]byte, 1<<23+8)
	if s := hex.DumpTail("", d, 4); s[:8] != "00800004" { fail("wrong offset " + s[:8]) }
}
'''), needs="data of 8 MiB or more", breaks="the offset of a row is wrong"),
dict(id="diff-row-trailing", property="C17",
  edits=[("hex/dump.go", '''		encodeOffset(buf[:10], i)
		if bytes.Equal(chunk1, chunk2) {''', '''		encodeOffset(buf[:10], i)
		if n := generics.Min(len(chunk1), len(chunk2)); n > 0 && bytes.Equal(chunk1[:n], chunk2[:n]) {''')],
  demo=demo(["hex"], '''func main() {
	if s := hex.DumpDiff([]byte{1, 2}, []byte{1, 2, 3}); s == "" || s[0] == ' ' { fail("rows 01 02 and 01 02 03 shown as equal") }
}
'''), needs="two byte strings of which one continues the last row of the other", breaks="rows that differ are shown as one equal row"),
dict(id="counter64-signed-text", property="C18",
  edits=[("asn/value.go", '''			sb.WriteString(strconv.FormatUint(v.(uint64), 10))''', '''			sb.WriteString(strconv.FormatInt(int64(v.(uint64)), 10))''')],
  demo=demo(["asn"], '''func main() {
	if s := (asn.Varbind{Tag: asn.TagCounter64, Value: uint64(1) << 63}).String(); s != "{ Counter64: 9223372036854775808}" { fail(s) }
}
'''), needs="a Counter64 of 2^63 or more", breaks="its text is negative"),
dict(id="flag-bit-7-silent", property="C19",
  edits=[("agentx/flags.go", '''			sb.WriteString("?0x")
			foo := f & flag
			sb.WriteByte(hextable[foo>>4])''', '''			sb.WriteString("?0x")
			foo := f & flag
			sb.WriteByte(hextable[foo>>4&0x07])''')],
  demo=demo(["agentx"], '''func main() { if s := agentx.Flags(0x80).String(); s != "?0x80" { fail(s) } }
'''), needs="the highest flag bit", breaks="an unknown flag is rendered as another number"),
dict(id="error-268-name", property="C19",
  edits=[("pduerror/error_string.go", '''	case 256 <= i && i <= 268:''', '''	case 256 <= i && i < 268:''')],
  demo=demo(["pduerror"], '''func main() { if s := pduerror.ProcessingError.String(); s != "ProcessingError" { fail(s) } }
'''), needs="the last AgentX error", breaks="a named error is rendered as a number"),
dict(id="log-pdu-as-format", property="C20",
  edits=[("agentx/pdu.go", '''	log.Writef("encoding pdu\\n%s", pdu.String(1))''', '''	log.Writef("encoding pdu\\n" + pdu.String(1))''')],
  demo=demo(["agentx", "fmt", "strings"], '''type mem struct{ b strings.Builder }
func (m *mem) Write(s string) { m.b.WriteString(s + "\\n") }
func (m *mem) Writef(f string, a ...interface{}) { m.Write(fmt.Sprintf(f, a...)) }
func main() {
	var m mem
	agentx.EncodePduDbg(agentx.Pdu{Tag: agentx.TagPing, Params: agentx.NoParams{}, Context: "50%d"}, &m)
	if strings.Contains(m.b.String(), "%!") { fail("formatting error in the log") }
}
'''), needs="a percent sign in the context, a description or an octet string", breaks="logged messages have formatting errors"),
dict(id="notice-lost", property="C20",
  edits=[("agentx/pdu.go", '''	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
		if !ok {
			log.Write("!!! Failed to decode pdu payload")
		}
	}()
''', '''	defer func() {
		if r := recover(); r != nil {
			ok = false
			log.Write("!!! Failed to decode pdu payload")
		}
	}()
''')],
  demo=demo(["agentx", "fmt", "strings"], '''type mem struct{ last string }
func (m *mem) Write(s string) { m.last = s }
func (m *mem) Writef(f string, a ...interface{}) { m.Write(fmt.Sprintf(f, a...)) }
func main() {
	var m mem
	p := agentx.Pdu{Tag: agentx.TagPing, PayloadSize: 4}
	if agentx.DecodePduPayloadDbg(&p, []byte{0, 0, 0, 0}, &m) { fail("accepted") }
	if !strings.HasPrefix(m.last, "!!! Failed to decode pdu payload") { fail("no failure notice") }
}
'''), needs="a payload that fails without a panic inside the parser (left-over bytes, wrong length)", breaks="the failure notice is missing"),
]
