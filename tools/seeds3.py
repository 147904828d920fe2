import os, runpy
_2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds2.py"))
demo, RT, MKLOG = _2["demo"], _2["RT"], _2["MKLOG"]
SEEDS = [
dict(id="parse-memo", property="C21",
  edits=[("oid/oid.go", '''func Parse(s string) (id []uint32) {
	var err error
''', '''var lastParsed struct {
	s  string
	id []uint32
}

func Parse(s string) (id []uint32) {
	var err error
	if lastParsed.id != nil && lastParsed.s == s {
		return lastParsed.id
	}
	key := s
	defer func() {
		if err == nil && id != nil {
			lastParsed.s, lastParsed.id = key, id
		}
	}()
''')],
  demo=demo(["oid"], '''func main() {
	a := oid.Parse("1.3.6")
	a[2] = 7
	if b := oid.Parse("1.3.6"); b[2] != 6 { fail("the earlier result shows through") }
}
'''), needs="the same text parsed twice in a row and the first result written to", breaks="the second call returns the first one's slice"),
dict(id="flags-text-memo", property="C21", race=True,
  edits=[("agentx/flags.go", '''func (f Flags) String() string {
	var sb''', '''var flagsText = map[Flags]string{}

func (f Flags) String() string {
	if s, ok := flagsText[f]; ok {
		return s
	}
	defer func() { flagsText[f] = f.text() }()
	return f.text()
}

func (f Flags) text() string {
	var sb''')],
  demo=demo(["agentx", "sync"], '''func main() {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ { _ = agentx.Flags(i).String() }
		}()
	}
	wg.Wait()
}
'''), needs="two goroutines that print flags at the same time", breaks="a map is read and written without a lock"),
dict(id="dump-shared-buffer", property="C21",
  edits=[("hex/dump.go", '''	"strings"

	"github''', '''	"strings"
	"unsafe"

	"github'''),
         ("hex/dump.go", '''// DumpSub returns a hex dump of data[i1:i2].
''', '''var offsetLine [16]byte

// DumpSub returns a hex dump of data[i1:i2].
'''),
         ("hex/dump.go", '''		var sb strings.Builder
		sb.Grow(10)
		encodeOffset(buf[:10], i1)
		sb.WriteString(prefix)
''', '''		if prefix == "" {
			encodeOffset(offsetLine[:10], i1)
			line := offsetLine[:10]
			return *(*string)(unsafe.Pointer(&line))
		}
		var sb strings.Builder
		sb.Grow(10)
		encodeOffset(buf[:10], i1)
		sb.WriteString(prefix)
''')],
  demo=demo(["hex"], '''func main() {
	d := make([]byte, 40)
	a := hex.DumpSub("", d, 4, 4)
	hex.DumpSub("", d, 8, 8)
	if a != "00000004  " { fail("the earlier dump changed: " + a) }
}
'''), needs="two dumps of empty ranges without prefix, the first text still in use", breaks="the text of the first call changes when the second is made"),
dict(id="opaque-text-scratch", property="C21", race=True,
  edits=[("asn/value.go", "var table = map[Tag]entry{", '''// digits of the number being printed
var digits [3]byte

func fprintByte(sb *strings.Builder, b byte) {
	n := 2
	for ; ; n-- {
		digits[n] = '0' + b%10
		if b /= 10; b == 0 {
			break
		}
	}
	sb.Write(digits[n:])
}

var table = map[Tag]entry{'''),
         ("asn/value.go", '''				sb.WriteString(strconv.FormatUint(uint64(b[i]), 10))
''', '''				fprintByte(sb, b[i])
''')],
  demo=demo(["asn", "sync"], '''func main() {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 500; i++ { _ = asn.Varbind{Tag: asn.TagOpaque, Value: []byte{1, 22, 133}}.String() }
		}()
	}
	wg.Wait()
}
'''), needs="two goroutines printing Opaque values at the same time", breaks="the digits of one number end up in the other's text"),
dict(id="compare-memo", property="C21",
  edits=[("oid/oid.go", '''func Compare(id1, id2 []uint32) int {
	len1, len2 := len(id1), len(id2)
''', '''func Compare(id1, id2 []uint32) int {
	if len(id1) < 24 || len(id2) < 24 {
		return compare(id1, id2)
	}
	if last.a != &id1[0] || last.b != &id2[0] || last.na != len(id1) || last.nb != len(id2) {
		last.a, last.b, last.na, last.nb = &id1[0], &id2[0], len(id1), len(id2)
		last.res = compare(id1, id2)
	}
	return last.res
}

// last remembers the latest comparison of long oids.
var last struct {
	a, b   *uint32
	na, nb int
	res    int
}

func compare(id1, id2 []uint32) int {
	len1, len2 := len(id1), len(id2)
''')],
  demo=demo(["oid"], '''func main() {
	a, b := make([]uint32, 30), make([]uint32, 30)
	if oid.Compare(a, b) != 0 { fail("not equal") }
	a[29] = 1
	if oid.Compare(a, b) != 1 { fail("stale comparison") }
}
'''), needs="two OIDs of 24 or more sub-ids compared, one changed in place, compared again", breaks="the earlier result is returned"),
dict(id="walk-yields-lock", property="C16",
  edits=[("oid/tree.go", '''	t.root.forRangeLeaves(do)
''', '''	n := 0
	t.root.forRangeLeaves(func(id []uint32, node *Node) {
		do(id, node)
		// let the writers in now and then
		if n++; n%32 == 0 {
			t.lock.RUnlock()
			t.lock.RLock()
		}
	})
''')], race=True,
  demo=demo(["oid", "sync"], '''func main() {
	for i := 0; i < 300; i++ {
		t := oid.NewTree()
		for s := uint32(0); s < 400; s++ { t.AddNode([]uint32{1, s}) }
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			defer wg.Done()
			seen := map[uint32]int{}
			t.ForRangeLeaves(func(id []uint32, _ *oid.Node) { seen[id[1]]++ })
			for s := uint32(20); s < 400; s++ { if seen[s] != 1 { fail("a leaf missing or twice") } }
		}()
		go func() { defer wg.Done(); for s := uint32(0); s < 20; s++ { t.RemoveNode([]uint32{1, s}) } }()
		wg.Wait()
	}
}
'''), needs="a traversal of 32 or more leaves while a writer waits", breaks="the traversal is not one atomic look at the tree"),
dict(id="remove-by-index", property="C16",
  edits=[("oid/tree.go", '''	t.lock.Lock()
	defer t.lock.Unlock()
	return t.root.removeNode(oid, false)
''', '''	if len(oid) == 0 {
		return false
	}
	// the node is looked up under the read lock
	t.lock.RLock()
	ind, ok := 0, false
	parent := t.root.getNode(oid[:len(oid)-1])
	if parent != nil {
		ind, ok = parent.searchChild(oid[len(oid)-1])
	}
	t.lock.RUnlock()
	if !ok {
		return false
	}
	t.lock.Lock()
	defer t.lock.Unlock()
	if ok = ind < len(parent.Children); ok {
		parent.Children = append(parent.Children[:ind], parent.Children[ind+1:]...)
	}
	return ok
''')],
  demo=demo(["oid", "sync"], '''func main() {
	for i := 0; i < 200000; i++ {
		t := oid.NewTree()
		for s := uint32(0); s < 6; s++ { t.AddNode([]uint32{s}) }
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { defer wg.Done(); t.RemoveNode([]uint32{0}); t.RemoveNode([]uint32{1}) }()
		go func() { defer wg.Done(); t.RemoveNode([]uint32{2}); t.RemoveNode([]uint32{3}) }()
		wg.Wait()
		if t.GetNode([]uint32{4}) == nil || t.GetNode([]uint32{5}) == nil { fail("another node was removed") }
	}
}
'''), needs="removals of two siblings at the same time", breaks="a node other than the one asked for is removed"),
dict(id="clear-read-lock", property="C16", race=True,
  edits=[("oid/tree.go", '''func (t *Tree) Clear() {
	t.lock.Lock()
	defer t.lock.Unlock()
''', '''func (t *Tree) Clear() {
	t.lock.RLock()
	defer t.lock.RUnlock()
''')],
  demo=demo(["oid", "sync"], '''func main() {
	t := oid.NewTree()
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); for i := 0; i < 20000; i++ { t.GetNextNode(nil, nil, true) } }()
	go func() { defer wg.Done(); for i := 0; i < 20000; i++ { t.Clear() } }()
	wg.Wait()
}
'''), needs="clearing a tree while it is read", breaks="the root's children are written while others read them"),
dict(id="equal-oids-shared", property="C09",
  edits=[("agentx/pdu.go", '''			vb, data = d.parseVarbind(data)
			pdu.Varbinds''', '''			vb, data = d.parseVarbind(data)
			// varbinds often come in runs with one oid
			if n := len(pdu.Varbinds); n > 0 && oid.Eq(pdu.Varbinds[n-1].Oid, vb.Oid) {
				vb.Oid = pdu.Varbinds[n-1].Oid
			}
			pdu.Varbinds'''), ("agentx/pdu.go", '''	"github.com/alexispb/mygosnmp/logger"
''', '''	"github.com/alexispb/mygosnmp/logger"
	"github.com/alexispb/mygosnmp/oid"
''')],
  demo=demo(["agentx", "asn"], RT + '''func main() {
	v := asn.Varbind{Oid: []uint32{1, 3, 6}, Tag: asn.TagNull}
	q, _ := rt(agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{v, v}})
	q.Varbinds[0].Oid[1] = 9
	if q.Varbinds[1].Oid[1] != 3 { fail("the second varbind changed") }
}
'''), needs="two consecutive varbinds with one OID in a decoded PDU, one of them changed", breaks="they share a slice"),
dict(id="encode-clears-null-value", property="C09",
  edits=[("agentx/pdu.go", '''	// This panics if pdu.Tag is unknown
	if pduTable[pdu.Tag].includesVarbinds {
		for _, vb := range pdu.Varbinds {
			data = e.appendVarbind(data, vb)''', '''	// This panics if pdu.Tag is unknown
	if pduTable[pdu.Tag].includesVarbinds {
		for i, vb := range pdu.Varbinds {
			if vb.Tag == asn.TagNull {
				pdu.Varbinds[i].Value = nil
			}
			data = e.appendVarbind(data, vb)''')],
  demo=demo(["agentx", "asn"], '''func main() {
	p := agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Tag: asn.TagNull, Value: int32(5)}}}
	agentx.EncodePdu(p)
	if p.Varbinds[0].Value == nil { fail("the caller's varbind was changed") }
}
'''), needs="a Null varbind carrying a value", breaks="encoding writes into the caller's varbind list"),
dict(id="oid-value-by-name", property="C18",
  edits=[("asn/value.go", '''			oid.Fprint(sb, v.([]uint32))
''', '''			id := v.([]uint32)
			for name, known := range oid.Name {
				if oid.Eq(known, id) {
					sb.WriteString(name)
					return
				}
			}
			oid.Fprint(sb, id)
''')],
  demo=demo(["asn"], '''func main() {
	v := asn.Varbind{Oid: []uint32{1}, Tag: asn.TagObjectId, Value: []uint32{1, 3, 6, 1, 2, 1, 1, 2}}
	if v.String() != "{1 ObjectId: 1.3.6.1.2.1.1.2}" { fail(v.String()) }
}
'''), needs="an ObjectId value that has a name", breaks="it is printed by name"),
dict(id="octets-escaped", property="C18",
  edits=[("asn/value.go", '''			sb.WriteString(v.(string))
''', '''			s := v.(string)
			if !utf8.ValidString(s) {
				s = strings.ToValidUTF8(s, "?")
			}
			sb.WriteString(s)
'''), ("asn/value.go", '''	"strings"
''', '''	"strings"
	"unicode/utf8"
''')],
  demo=demo(["asn"], '''func main() {
	v := asn.Varbind{Oid: []uint32{1}, Tag: asn.TagOctetString, Value: "a\\xffb"}
	if v.String() != "{1 OctetString: a\\xffb}" { fail(v.String()) }
}
'''), needs="an octet string that is not UTF-8", breaks="bytes are replaced in the text"),
dict(id="ip-any", property="C18",
  edits=[("ipa/ip_address.go", '''func Fprint(sb *strings.Builder, a [4]byte) {
''', '''func Fprint(sb *strings.Builder, a [4]byte) {
	if a == [4]byte{255, 255, 255, 255} {
		sb.WriteString("broadcast")
		return
	}
''')],
  demo=demo(["asn"], '''func main() {
	v := asn.Varbind{Oid: []uint32{1}, Tag: asn.TagIpAddress, Value: [4]byte{255, 255, 255, 255}}
	if v.String() != "{1 IpAddress: 255.255.255.255}" { fail(v.String()) }
}
'''), needs="the address 255.255.255.255", breaks="it is printed as a word"),
dict(id="dump-rows-collapsed", property="C17",
  edits=[("hex/dump.go", '''	used := 0
	for i := i1; i < i2; i++ {
		if used == 0 {
''', '''	used := 0
	for i := i1; i < i2; i++ {
		if used == 0 {
			// a long run of equal rows is shown as a star
			j := i
			for i > i1 && j+4 < i2 && bytes.Equal(data[j:j+4], data[i-4:i]) {
				j += 4
			}
			if j > i+32 {
				sb.WriteString(prefix)
				sb.WriteString("*\\n")
				i = j
			}
''')],
  demo=demo(["hex", "strings"], '''func main() {
	if strings.Contains(hex.Dump("", make([]byte, 200)), "*") { fail("rows collapsed") }
}
'''), needs="ten or more equal rows in a row", breaks="they are missing from the dump"),
dict(id="header-length-modulo", property="C04",
  edits=[("agentx/pdu.go", '''	ok = pdu.PayloadSize >= 0 && pdu.PayloadSize&0x03 == 0 && len(data) == 0
''', '''	ok = pdu.PayloadSize >= 0 && pdu.PayloadSize&0x03 == 0 && uint16(len(data)) == 0
''')],
  demo=demo(["agentx"], '''func main() {
	b, _ := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagPing, Params: agentx.NoParams{}})
	if _, ok := agentx.DecodePduHeader(append(b, make([]byte, 65536)...)); ok { fail("a header of 65556 bytes accepted") }
}
'''), needs="65536 bytes too many offered as a header", breaks="they are accepted"),
dict(id="lists-grow-by-one", property="C06",
  edits=[("agentx/pdu.go", '''			r, data = d.parseSearchRange(data)
			pdu.Ranges = append(pdu.Ranges, r)
		}
	}
	if pduTable[pdu.Tag].includesVarbinds {
		pdu.Varbinds = nil
		for len(data) > 0 {
			var vb asn.Varbind
			vb, data = d.parseVarbind(data)
''', '''			r, data = d.parseSearchRange(data)
			pdu.Ranges = append(pdu.Ranges[:len(pdu.Ranges):len(pdu.Ranges)], r)
			if len(pdu.Ranges) > 1000 {
				pdu.Ranges = append([]SearchRange(nil), pdu.Ranges...)
			}
		}
	}
	if pduTable[pdu.Tag].includesVarbinds {
		pdu.Varbinds = nil
		for len(data) > 0 {
			var vb asn.Varbind
			vb, data = d.parseVarbind(data)
''')],
  demo=demo(["agentx", "runtime"], '''func main() {
	b, _ := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagGet, Params: agentx.NoParams{}, Ranges: make([]agentx.SearchRange, 20000)})
	p, _ := agentx.DecodePduHeader(b[:20])
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	if !agentx.DecodePduPayload(&p, b[20:]) { fail("not decoded") }
	runtime.ReadMemStats(&m1)
	if m1.TotalAlloc-m0.TotalAlloc > 200<<20 { fail("quadratic memory") }
}
'''), needs="a payload with thousands of search ranges", breaks="the list is copied for every range: quadratic memory and time"),
dict(id="context-nul-cut", property="C01",
  edits=[("agentx/encoding.go", '''	val, next = string(next[:int(size)]), next[int(size):]
''', '''	chunk, next := next[:int(size)], next[int(size):]
	val = string(bytes.TrimRight(chunk, "\\x00"))
'''), ("agentx/encoding.go", '''import (
''', '''import (
	"bytes"
''')],
  demo=demo(["agentx"], RT + '''func main() {
	q, ok := rt(agentx.Pdu{Tag: agentx.TagPing, Flags: agentx.FlagNonDefaultContext, Context: "a\\x00", Params: agentx.NoParams{}})
	if !ok || q.Context != "a\\x00" { fail("context changed") }
}
'''), needs="a string that ends with a zero byte", breaks="the zero bytes are lost"),
dict(id="empty-context-skipped", property="C02",
  edits=[("agentx/pdu.go", '''	if pdu.Flags&FlagNonDefaultContext != 0 {
		size = octetStringEncodingSize(pdu.Context)
''', '''	if pdu.Flags&FlagNonDefaultContext != 0 && pdu.Context != "" {
		size = octetStringEncodingSize(pdu.Context)
'''), ("agentx/pdu.go", '''	if pdu.Flags&FlagNonDefaultContext != 0 {
		data = e.appendOctetString(data, pdu.Context)
	}

	// This panics''', '''	if pdu.Flags&FlagNonDefaultContext != 0 && pdu.Context != "" {
		data = e.appendOctetString(data, pdu.Context)
	}

	// This panics'''), ("agentx/pdu.go", '''		pdu.Context, data = d.parseOctetString(data)
	}
''', '''		if len(data) == 0 {
			pdu.Context = ""
		} else {
			pdu.Context, data = d.parseOctetString(data)
		}
	}
''')],
  demo=demo(["agentx"], '''func main() {
	b, ok := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagPing, Flags: agentx.FlagNonDefaultContext, Params: agentx.NoParams{}})
	if !ok || len(b) != 24 { fail("empty context not written") }
}
'''), needs="the context flag with an empty context", breaks="the context is not written"),
dict(id="lists-kept-when-empty", property="C08",
  edits=[("agentx/pdu.go", '''	if pduTable[pdu.Tag].includesVarbinds {
		pdu.Varbinds = nil
		for len(data) > 0 {
			var vb asn.Varbind
			vb, data = d.parseVarbind(data)
''', '''	if pduTable[pdu.Tag].includesVarbinds && len(data) > 0 {
		pdu.Varbinds = nil
		for len(data) > 0 {
			var vb asn.Varbind
			vb, data = d.parseVarbind(data)
''')],
  demo=demo(["agentx", "asn"], '''func main() {
	v := asn.Varbind{Oid: []uint32{1, 3}, Tag: asn.TagNull}
	var p agentx.Pdu
	for i, q := range []agentx.Pdu{{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{v}}, {Tag: agentx.TagNotify, Params: agentx.NoParams{}}} {
		b, _ := agentx.EncodePdu(q)
		h, _ := agentx.DecodePduHeader(b[:20])
		h.Varbinds = p.Varbinds
		p = h
		if !agentx.DecodePduPayload(&p, b[20:]) { fail("not decoded") }
		if len(p.Varbinds) != 1-i { fail("varbinds of the message before") }
	}
}
'''), needs="a receiver that uses one PDU for all messages and an empty list after a full one", breaks="the varbinds of the message before are delivered again"),
dict(id="compare-128", property="C10",
  edits=[("oid/oid.go", '''	lmin := generics.Min(len1, len2)
''', '''	lmin := generics.Min(generics.Min(len1, len2), 128) // longer oids are not legal
''')],
  demo=demo(["oid"], '''func main() {
	a, b := make([]uint32, 200), make([]uint32, 200)
	a[150] = 1
	if oid.Compare(a, b) != 1 || oid.Eq(a, b) { fail("not told apart") }
}
'''), needs="OIDs that differ after their 128th sub-identifier only", breaks="they compare equal"),
dict(id="parse-base-0", property="C12",
  edits=[("oid/oid.go", "strconv.ParseUint(s[:ind], 10, 32)", "strconv.ParseUint(s[:ind], 0, 32)")],
  demo=demo(["oid"], '''func main() {
	defer func() { if recover() == nil { fail("1.0x10 accepted") } }()
	oid.Parse("1.0x10")
}
'''), needs="a number with a base prefix, a leading zero or an underscore", breaks="text that is no OID is accepted, leading zeros mean octal"),
dict(id="parse-space", property="C12",
  edits=[("oid/oid.go", 'if s = strings.TrimPrefix(s, "."); len(s) == 0 {', 'if s = strings.TrimPrefix(strings.TrimRight(s, "\\r\\n"), "."); len(s) == 0 {')],
  demo=demo(["oid"], '''func main() {
	defer func() { if recover() == nil { fail("accepted") } }()
	oid.Parse("1.3\\n")
}
'''), needs="text that ends with a line break", breaks="it is accepted"),
dict(id="add-below-drops-data", property="C13",
  edits=[("oid/node.go", '''	for _, subid := range oid[i:] {
		node = node.addChild(subid)
''', '''	if len(node.Children) == 0 {
		node.Data = nil // only leaves have data
	}
	for _, subid := range oid[i:] {
		node = node.addChild(subid)
''')],
  demo=demo(["oid"], '''func main() {
	t := oid.NewTree()
	n := t.AddNode([]uint32{1, 3})
	n.Data = 5
	t.AddNode([]uint32{1, 3, 6})
	if n.Data != 5 { fail("data lost") }
}
'''), needs="a child added to a leaf that has data", breaks="its data are lost"),
dict(id="next-signed-subids", property="C14",
  edits=[("oid/node.go", "if eq1 && ind < len(oid1) && oid1[ind] > child.Subid {", "if eq1 && ind < len(oid1) && int64(oid1[ind])-int64(child.Subid)&0xFFFFFFFF > 0 && int32(oid1[ind]-child.Subid) > 0 {")],
  demo=demo(["oid"], '''func main() {
	t := oid.NewTree()
	t.AddNode([]uint32{1})
	if t.GetNextNode([]uint32{0xF0000000}, nil, true) != nil { fail("found a leaf before the start") }
}
'''), needs="sub-identifiers that differ by 2^31 or more", breaks="a leaf before the start is returned"),
dict(id="walk-depth-128", property="C15",
  edits=[("oid/node.go", '''			if len(node.Children) == 0 {
				do(nodeOid, node)
''', '''			if len(node.Children) == 0 || len(nodeOid) == 128 {
				do(nodeOid, node)
''')],
  demo=demo(["oid"], '''func main() {
	t := oid.NewTree()
	t.AddNode(make([]uint32, 130))
	t.ForRangeLeaves(func(id []uint32, n *oid.Node) { if len(id) != 130 { fail("not a leaf") } })
}
'''), needs="a leaf below level 128", breaks="the walk stops above it"),
dict(id="console-write-format", property="C20",
  edits=[("logger/logger.go", '''	fmt.Println(msg)
''', '''	fmt.Printf(msg + "\\n")
''')],
  demo=demo(["os/exec", "strings", "github.com/alexispb/mygosnmp/logger"], '''func main() {
	if len(os.Args) > 1 { logger.Console().Write("100%d"); return }
	out, _ := exec.Command(os.Args[0], "child").Output()
	if !strings.Contains(string(out), "100%d\\n") { fail(string(out)) }
}
'''), needs="a plain message with a percent sign", breaks="it is taken as a format"),
dict(id="dbg-notice-early", property="C20",
  edits=[("agentx/pdu.go", '''	if ok = len(data) == int(pdu.PayloadSize); !ok {
		log.Writef("!!! Error. Data size %d != pdu.PayloadSize %d",
			len(data), pdu.PayloadSize)
		return
	}

	d := decoderDbg{
''', '''	if ok = len(data) == int(pdu.PayloadSize); !ok {
		defer log.Writef("!!! Error. Data size %d != pdu.PayloadSize %d",
			len(data), pdu.PayloadSize)
		log.Write("!!! Failed to decode pdu payload")
		return true && ok
	}

	d := decoderDbg{
''')],
  demo=demo(["agentx", "fmt", "strings"], MKLOG + '''func main() {
	l := &nolog{}
	p := agentx.Pdu{Tag: agentx.TagPing, PayloadSize: 8}
	agentx.DecodePduPayloadDbg(&p, nil, l)
	n := 0
	for _, m := range l.msgs { if strings.HasPrefix(m, "!!! Failed") { n++ } }
	if n != 1 { fail("notice written twice") }
}
'''), needs="a payload of the wrong length", breaks="the notice is written twice, once before the diagnosis"),
dict(id="dbg-opaque-shared", property="C09",
  edits=[("agentx/encoding_dbg.go", '''	val = make([]byte, int(size))
	copy(val, data)
''', '''	val = data
''')],
  demo=demo(["agentx", "asn", "fmt"], MKLOG + '''func main() {
	b, _ := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Tag: asn.TagOpaque, Value: []byte{1, 2, 3, 4}}}})
	p, _ := agentx.DecodePduHeader(b[:20])
	if !agentx.DecodePduPayloadDbg(&p, b[20:], &nolog{}) { fail("not decoded") }
	for i := range b { b[i] = 9 }
	if p.Varbinds[0].Value.([]byte)[0] != 1 { fail("the value changed with the buffer") }
}
'''), needs="the debug decoder, an Opaque value and a receive buffer that is used again", breaks="the value is a window into the buffer"),
]
