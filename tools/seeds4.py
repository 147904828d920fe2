import os, runpy
_2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds2.py"))
demo, RT, MKLOG = _2["demo"], _2["RT"], _2["MKLOG"]
INT = "github.com/alexispb/mygosnmp/internal"
SEEDS = [
dict(id="diff-offset-64k", property="C17",
  edits=[("hex/dump.go", "		encodeOffset(buf[:10], i)\n		if bytes", "		encodeOffset(buf[:10], i&0xffff)\n		if bytes")],
  demo=demo(["hex", "strings"], '''func main() {
	a := make([]byte, 1<<16+8)
	b := append([]byte{}, a...)
	b[1<<16+5] = 1
	if !strings.Contains(hex.DumpDiff(a, b), "00010004") { fail("the row of the difference is not at its offset") }
}
'''), needs="data longer than 65536 bytes", breaks="the rows of a diff carry the offset modulo 65536"),
dict(id="log-1m", property="C20",
  edits=[("agentx/pdu.go", ''+'''	log.Writef("decoding pdu payload data:\\n%s",
		hex.Dump("    ", data))
''', '''	shown := data
	if len(shown) > 1<<20 {
		shown = shown[:1<<20]
	}
	log.Writef("decoding pdu payload data:\\n%s",
		hex.Dump("    ", shown))
''')],
  demo=demo(["agentx", "asn", "fmt", "strings"], MKLOG + '''func main() {
	p := agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: []uint32{1, 3}, Tag: asn.TagOctetString, Value: strings.Repeat("y", 1<<20)}}}
	b, ok := agentx.EncodePdu(p)
	if !ok { fail("does not encode") }
	q, _ := agentx.DecodePduHeader(b[:20])
	l := &nolog{}
	if !agentx.DecodePduPayloadDbg(&q, b[20:], l) { fail("does not decode") }
	for _, m := range l.msgs {
		if strings.HasPrefix(m, "decoding pdu payload data") {
			if strings.Count(m, "\\n") < len(b[20:])/4 { fail("the dump is not complete") }
			return
		}
	}
	fail("no dump")
}
'''), needs="a debug decode of a payload longer than 1 MiB", breaks="the dump stops after 1 MiB"),
dict(id="ip-length-swapped", property="C05",
  edits=[("agentx/encoding.go", "	size, next := d.parseInt32(data)\n	if size != 4 {", "	size, next := d.parseInt32(data)\n	if size != 4 && size != 4<<24 {")],
  demo=demo(["agentx"], '''func main() {
	b := []byte{0, 64, 0, 0, 0, 0, 0, 0, 4, 0, 0, 0, 1, 2, 3, 4}
	q := agentx.Pdu{Tag: agentx.TagNotify, Flags: agentx.FlagNetworkByteOrder, PayloadSize: 16}
	if agentx.DecodePduPayload(&q, b) { fail("an address of 2^26 bytes is accepted") }
	b[8], b[11] = 0, 4
	if !agentx.DecodePduPayload(&q, b) { fail("a good address is refused") }
}
'''), needs="an IpAddress whose length is written in the other byte order", breaks="a malformed length is accepted"),
dict(id="close-without-ids", property="C04",
  edits=[("agentx/pdu.go", "	ok = pdu.PayloadSize >= 0 &&", "	ok = (pdu.SessionId|pdu.TransactionId|pdu.PacketId != 0 || pdu.Tag != TagClose) && pdu.PayloadSize >= 0 &&")],
  demo=demo(["agentx"], '''func main() {
	b := make([]byte, 20)
	b[0], b[1], b[2], b[19] = 1, byte(agentx.TagClose), 16, 4
	if _, ok := agentx.DecodePduHeader(b); !ok { fail("a Close header with zero ids is refused") }
}
'''), needs="a Close header whose three ids are all zero", breaks="a well-formed header is refused"),
dict(id="walk-skips-4096", property="C15",
  edits=[("oid/node.go", "				do(nodeOid, node)\n", "				if len(nodes) <= 4096 || node.Subid != nodes[4096].Subid {\n					do(nodeOid, node)\n				}\n")],
  demo=demo(["oid"], '''func main() {
	t := oid.NewTree()
	for i := uint32(0); i < 5000; i++ { t.AddNode([]uint32{1, i}) }
	n := 0
	t.ForRangeLeaves(func([]uint32, *oid.Node) { n++ })
	if n != 5000 { fail("a leaf is not visited") }
}
'''), needs="a node with more than 4096 children", breaks="one leaf is not visited"),
dict(id="octets-cut-64k", property="C18",
  edits=[("asn/value.go", "			sb.WriteString(v.(string))\n", "			if s := v.(string); len(s) > 65535 {\n				sb.WriteString(s[:65535])\n				return\n			}\n			sb.WriteString(v.(string))\n")],
  demo=demo(["asn", "strings"], '''func main() {
	v := asn.Varbind{Oid: []uint32{1, 3}, Tag: asn.TagOctetString, Value: strings.Repeat("y", 70000)}
	if strings.Count(v.String(), "y") < 70000 { fail("the value is cut") }
}
'''), needs="an OctetString longer than 65535 bytes", breaks="its text is cut"),
dict(id="compare-4096", property="C10",
  edits=[("oid/oid.go", "	for i := 0; i < lmin; i++ {\n", "	if lmin > 4096 {\n		lmin = 4096\n	}\n	for i := 0; i < lmin; i++ {\n")],
  demo=demo(["oid"], '''func main() {
	a, b := make([]uint32, 5000), make([]uint32, 5000)
	b[4500] = 1
	if oid.Compare(a, b) != -1 { fail("a late difference is not seen") }
}
'''), needs="two OIDs that first differ after 4096 sub-identifiers", breaks="they compare as equal"),
dict(id="clone-shares-big", property="C11",
  edits=[("oid/oid.go", "	idnew = make([]uint32, len(id))\n	copy(idnew, id)\n	return\n", "	if len(id) >= 1024 {\n		return id[:len(id):len(id)]\n	}\n	idnew = make([]uint32, len(id))\n	copy(idnew, id)\n	return\n")],
  demo=demo(["oid"], '''func main() {
	a := make([]uint32, 2000)
	b := oid.Clone(a)
	a[7] = 9
	if b[7] != 0 { fail("the clone shares the original's array") }
}
'''), needs="a clone of an OID with 1024 or more sub-identifiers, and a write", breaks="the clone is no copy"),
dict(id="parse-zeros", property="C12",
  edits=[("oid/oid.go", "		if subid, err = strconv", "		if ind > 64 {\n			ind = 64\n		}\n		if subid, err = strconv")],
  demo=demo(["oid", "strings"], '''func main() {
	a := oid.Parse("1." + strings.Repeat("0", 80) + "7.5")
	if len(a) != 3 || a[1] != 7 { fail("leading zeros change the result") }
}
'''), needs="a sub-identifier written with more than 64 digits (leading zeros)", breaks="it is cut in two"),
dict(id="next-deep", property="C14",
  edits=[("oid/node.go", "		for _, child := range node.Children {\n			if eq1", "		for _, child := range node.Children {\n			if ind > 2000 {\n				break\n			}\n			if eq1")],
  demo=demo(["oid"], '''func main() {
	t := oid.NewTree()
	n := t.AddNode(make([]uint32, 3000))
	if t.GetNextNode(make([]uint32, 3000), nil, true) != n { fail("the leaf is not found") }
}
'''), needs="a leaf more than 2000 levels deep", breaks="GetNextNode does not find it"),
dict(id="opaque-shares-big", property="C09",
  edits=[("agentx/encoding.go", "	val = make([]byte, int(size))\n	copy(val, chunk)\n", "	if size >= 4096 {\n		val = chunk\n	} else {\n		val = make([]byte, int(size))\n		copy(val, chunk)\n	}\n")],
  demo=demo(["agentx", "asn"], RT + '''func main() {
	p := agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: []uint32{1, 3}, Tag: asn.TagOpaque, Value: make([]byte, 5000)}}}
	b, ok := agentx.EncodePdu(p)
	if !ok { fail("does not encode") }
	q, _ := agentx.DecodePduHeader(b[:20])
	if !agentx.DecodePduPayload(&q, b[20:]) { fail("does not decode") }
	for i := range b { b[i] = 0xff }
	if q.Varbinds[0].Value.([]byte)[100] != 0 { fail("the value shares the buffer") }
	_ = rt
}
'''), needs="an Opaque of 4096 bytes or more whose receive buffer is used again", breaks="the decoded value changes with the buffer"),
dict(id="wide-append", property="C13",
  edits=[("oid/node.go", "		if ind == len(node.Children) {\n", "		if ind == len(node.Children) || len(node.Children) >= 1024 {\n")],
  demo=demo(["oid"], '''func main() {
	t := oid.NewTree()
	for i := uint32(2000); i > 0; i-- { t.AddNode([]uint32{1, i}) }
	for i := uint32(2000); i > 0; i-- {
		if t.GetNode([]uint32{1, i}) == nil { fail("a node that was added is missing") }
	}
}
'''), needs="a child added in front of 1024 others", breaks="the children are out of order and lookups miss nodes"),
dict(id="text-list-4096", property="C22",
  edits=[("internal/struct.go", "			for i := 0; i < v.Len(); i++ {\n", "			for i := 0; i < v.Len() && i < 2048; i++ {\n")],
  demo=demo([INT, "strings"], '''func main() {
	var x struct{ L []int8 }
	x.L = make([]int8, 2100)
	if strings.Count(internal.StructString(x, 0), "\\n") != 2100 { fail("elements are missing") }
}
'''), needs="a list of more than 2048 elements", breaks="the rest is not shown"),
dict(id="ldiff-first-lines", property="C22",
  edits=[("internal/struct.go", "	maxlen := generics.Max(len(lines1), len(lines2))\n", "	maxlen := generics.Max(len(lines1), len(lines2))\n	if len(lines1) < len(lines2) && lines2[maxlen-1] == \"\" {\n		maxlen--\n	}\n")],
  demo=demo([INT, "strings"], '''func main() {
	d := internal.StringsLinesDiff("a", "a\\n\\n")
	if strings.Count(d, "\\n") != 3 { fail("a line is not shown") }
	if internal.StringsLinesDiff("a", "a\\n") == "" || strings.Count(internal.StringsLinesDiff("a", "a\\n"), "\\n") != 2 { fail("a line is not shown") }
}
'''), needs="two texts of which the second is longer and ends in a line feed", breaks="the last, empty line is not shown"),
dict(id="ldiff-fold", property="C22",
  edits=[("internal/struct.go", "	if s1 == s2 {", "	if strings.EqualFold(s1, s2) {")],
  demo=demo([INT], '''func main() {
	if internal.StringsLinesDiff("Value: abc", "Value: aBc") == "" { fail("different texts have an empty diff") }
}
'''), needs="two texts that differ in the case of letters only", breaks="the diff is empty although the texts differ"),
dict(id="fprint-bool", property="C22",
  edits=[("internal/struct.go", 'if method := v.MethodByName("Fprint"); method.IsValid() {', 'if method := v.MethodByName("Fprint"); method.IsValid() && v.Kind() != reflect.Bool {')],
  demo=demo([INT, "strings"], '''type own bool
func (own) Fprint(sb *strings.Builder) { sb.WriteString("mine") }
func main() {
	if s := internal.StructString(struct{ A own }{}, 0); s != "A: mine" { fail("the method is not used: " + s) }
}
'''), needs="a boolean type with a method Fprint", breaks="the method is ignored"),
dict(id="remove-in-stages", property="C16",
  edits=[("oid/tree.go", '''	t.lock.Lock()
	defer t.lock.Unlock()
	return t.root.removeNode(oid, false)
''','''	t.lock.Lock()
	if node := t.root.getNode(oid); node != nil && node != t.root {
		node.Children = nil
	}
	t.lock.Unlock()
	t.lock.Lock()
	defer t.lock.Unlock()
	return t.root.removeNode(oid, false)
''')],
  demo=demo(["oid", "runtime", "sync/atomic"], '''func main() {
	runtime.GOMAXPROCS(8)
	for r := 0; r < 60000; r++ {
		t := oid.NewTree()
		n := t.AddNode([]uint32{1, 2})
		t.AddNode([]uint32{1, 2, 3})
		_ = n
		var bad, done int32
		go func() {
			t.RemoveNode([]uint32{1, 2})
			atomic.StoreInt32(&done, 1)
		}()
		for atomic.LoadInt32(&done) == 0 {
			child := t.GetNode([]uint32{1, 2, 3})
			if child == nil && t.GetNode([]uint32{1, 2}) != nil { bad = 1 }
		}
		if bad != 0 { fail("a node without its children is seen while both are removed") }
	}
}
'''), needs="a lookup between the two critical sections of one removal", breaks="a state that no order of the calls explains is seen"),
dict(id="kth-skips", property="C23",
  edits=[("oid/node.go", "					repeatition--", "					repeatition -= 1 + repeatition>>13")],
  inside=("oid", """package oid

func (t *Tree) Kth(o1, o2 []uint32, inc bool, k int16) *Node { return t.root.getNextNode(o1, o2, inc, k) }
"""),
  demo=demo(["oid"], '''func main() {
	t := oid.NewTree()
	var l []*oid.Node
	for i := uint32(0); i < 9000; i++ { l = append(l, t.AddNode([]uint32{1, i})) }
	if t.Kth(nil, nil, false, 8500) != l[8499] { fail("not the 8500th leaf") }
}
'''), needs="a repetition count of 8192 or more", breaks="leaves are counted twice"),
dict(id="prune-keeps-data", property="C23",
  edits=[("oid/node.go", "	for len(node.Children) == 0 && node.Parent != nil {", "	for len(node.Children) == 0 && node.Parent != nil && node.Data == nil {")],
  inside=("oid", """package oid

func (t *Tree) RemovePrune(o []uint32) bool { return t.root.removeNode(o, true) }
"""),
  demo=demo(["oid"], '''func main() {
	t := oid.NewTree()
	t.AddNode([]uint32{1, 2}).Data = 5
	t.AddNode([]uint32{1, 2, 3})
	if !t.RemovePrune([]uint32{1, 2, 3}) || t.GetNode([]uint32{1}) != nil { fail("an ancestor without nodes below it is kept") }
}
'''), needs="an ancestor that has data and loses its last child", breaks="it is not pruned"),
]
