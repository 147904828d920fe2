package main

import (
	"bytes"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/hex"
	"github.com/alexispb/mygosnmp/ipa"
	"github.com/alexispb/mygosnmp/oid"
	"github.com/alexispb/mygosnmp/pduerror"
)

// ---- C17: hex dumps

func subEvent(kind, prefix string, data []byte, i1, i2 int, f func() string) {
	var s string
	pan := call(func() ev { return ev{"op": "hex." + kind, "i1": i1, "i2": i2, "n": len(data)} }, func() { s = f() })
	d := B{}
	if 0 <= i1 && i1 <= i2 && i2 <= len(data) {
		d = append(d, data[i1:i2]...)
	}
	emitStateless(ev{"e": "sub", "kind": kind, "prefix": B(prefix), "i1": i1, "i2": i2, "n": len(data), "d": d, "s": B(s), "pan": pan})
}

func diffEvent(a, b []byte) {
	var s string
	pan := call(func() ev { return ev{"op": "hex.DumpDiff", "a": B(a), "b": B(b)} }, func() { s = hex.DumpDiff(a, b) })
	emitStateless(ev{"e": "diff", "a": B(a), "b": B(b), "s": B(s), "pan": pan})
}

// farLines picks lines out of a long text: its ends, places around powers of
// two and around at, and some more.
func farLines(s string, at ...int) (lines []ev, count int) {
	count = strings.Count(s, "\n") + 1
	want := map[int]bool{}
	for d := -3; d <= 3; d++ {
		want[d], want[count+d] = true, true
		for b := 4; b < 31; b++ {
			want[1<<uint(b)+d] = true
		}
		for _, a := range at {
			want[a+d] = true
		}
	}
	for i := 0; i < 60; i++ {
		want[rnd.Intn(count)] = true
	}
	for k := 0; k < count; k++ {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			i = len(s)
		}
		if want[k] {
			lines = append(lines, ev{"k": k, "s": B(s[:min(i, 300)])})
		}
		s = s[min(i+1, len(s)):]
	}
	return
}

func farData(base B, l int, eds [][2]int) []byte {
	b := make([]byte, l)
	for i := range b {
		b[i] = base[i%len(base)]
	}
	for _, e := range eds {
		if e[0] < l {
			b[e[0]] = byte(e[1])
		}
	}
	return b
}

func farDumps(full bool) {
	sizes := []int{1<<16 + rnd.Intn(9), 1<<20 + rnd.Intn(99), 1<<24 + 1<<16 + rnd.Intn(999)}
	if full {
		sizes = append(sizes, 1<<16-1, 1<<18+2, 1<<22+5, 1<<24, 1<<26+7)
	}
	for _, l := range sizes {
		base := make(B, 3+rnd.Intn(20))
		rnd.Read(base)
		sub := func(kind, prefix string, i1 int, f func(d []byte) string) {
			var s string
			pan := call(func() ev { return ev{"op": "hex." + kind, "i1": i1, "n": l} }, func() { s = f(farData(base, l, nil)) })
			lines, count := farLines(s)
			emitStateless(ev{"e": "farsub", "kind": kind, "prefix": B(prefix), "i1": i1, "i2": l, "base": base, "lines": lines, "count": count, "pan": pan})
		}
		sub("Dump", "> ", 0, func(d []byte) string { return hex.Dump("> ", d) })
		i1 := rnd.Intn(50)
		sub("DumpTail", "", i1, func(d []byte) string { return hex.DumpTail("", d, l-i1) })
		i2 := l/2 + rnd.Intn(50)
		sub("DumpSub", "  ", i2, func(d []byte) string { return hex.DumpSub("  ", d, i2, l) })
		for k := 0; k < 4; k++ {
			lb := l + pick(0, 0, 1, -1, 4, 5, -9)
			eds := [][2]int{}
			var at []int
			for i, seen := rnd.Intn(4), map[int]bool{}; i >= 0; i-- {
				o := l - 1 - rnd.Intn(40)
				if i > 0 {
					o = rnd.Intn(l)
				}
				if !seen[o] {
					seen[o] = true
					eds = append(eds, [2]int{o, int(genByte())})
					at = append(at, o/4, o/4+len(eds))
				}
			}
			if k == 0 {
				lb, eds = l+1, [][2]int{} // one more byte, nothing else
			}
			var s string
			pan := call(func() ev { return ev{"op": "hex.DumpDiff", "la": l, "lb": lb} }, func() { s = hex.DumpDiff(farData(base, l, nil), farData(base, lb, eds)) })
			same := l == lb
			for _, e := range eds {
				same = same && base[e[0]%len(base)] == byte(e[1])
			}
			if same {
				continue
			}
			lines, count := farLines(s, at...)
			emitStateless(ev{"e": "fardiff", "base": base, "la": l, "lb": lb, "eds": eds, "lines": lines, "count": count, "pan": pan})
		}
	}
}

// farRows are dumps of a few bytes far out in data of up to 4 GiB that is
// never touched elsewhere.
func farRows() {
	data := make([]byte, 1<<32-1)
	for _, at := range []int{1<<28 - 2, 1<<28 + 1, 0x7654321c, 1<<31 - 4, 1<<31 - 2, 1 << 31, 0x9abcdef0, 0xfedcba98, 1<<32 - 7, 1<<32 - 4} {
		for _, sz := range []int{0, 3, 1, 4, 2, 3} {
			var s string
			rnd.Read(data[at : at+3])
			d := B(append([]byte{}, data[at:min(at+sz, len(data))]...))
			pan := call(func() ev { return ev{"op": "hex.DumpSub", "at": uint32(at)} }, func() {
				switch {
				case at%3 == 0:
					s = hex.DumpTail("|", data[:at+len(d)], len(d))
				default:
					s = hex.DumpSub("|", data, at, at+len(d))
				}
			})
			emitStateless(ev{"e": "row", "prefix": B("|"), "o": w32(uint32(at)), "d": d, "s": B(s), "pan": pan})
		}
	}
}

func scenC17(n int) {
	farRows()
	farDumps(n > 100000)
	prefixes := []string{"", " ", "    ", "x", "data: ", "%d ", "0"}
	pre := func() string { return prefixes[rnd.Intn(len(prefixes))] }
	all := func(p string, data []byte, i1, i2 int) {
		subEvent("DumpSub", p, data, i1, i2, func() string { return hex.DumpSub(p, data, i1, i2) })
	}
	tail := func(p string, data []byte, size int) {
		subEvent("DumpTail", p, data, len(data)-size, len(data), func() string { return hex.DumpTail(p, data, size) })
	}
	dump := func(p string, data []byte) {
		subEvent("Dump", p, data, 0, len(data), func() string { return hex.Dump(p, data) })
	}
	for l := 0; l <= 13; l++ { // every length, every range, every size
		data := make([]byte, l)
		rnd.Read(data)
		for i1 := -1; i1 <= l+1; i1++ {
			for i2 := -1; i2 <= l+1; i2++ {
				all(pre(), data, i1, i2)
			}
			tail(pre(), data, i1)
		}
		dump(pre(), data)
	}
	every := make([]byte, 256)
	for i := range every {
		every[i] = byte(i)
	}
	dump("", every)
	dump("", nil)
	all("", nil, 0, 0)
	tail("p", nil, 0)
	// offsets of every width
	big := make([]byte, 1<<24+600)
	rnd.Read(big)
	for _, at := range []int{0xff, 0x100, 0xfff, 0x1000, 0xfffe, 0xffff, 0x10000, 0x12345, 0xabcde, 0xfffff, 0x100000, 0x9abcdf, 0xfffffd, 0xffffff, 0x1000000, 0x1000123} {
		for _, sz := range []int{0, 1, 4, 5, 9} {
			all("", big, at, at+sz)
			tail(" ", big[:at+sz], sz)
		}
	}
	for i := 0; i < n; i++ {
		data := genBytes()
		l := len(data)
		switch rnd.Intn(5) {
		case 0:
			dump(pre(), data)
		case 1:
			tail(pre(), data, rnd.Intn(l+3)-1)
		case 2:
			all(pre(), data, rnd.Intn(l+3)-1, rnd.Intn(l+3)-1)
		default:
			i1 := rnd.Intn(l + 1)
			all(pre(), data, i1, i1+rnd.Intn(l-i1+1))
		}
	}
	for _, c := range readCorpus() {
		if len(c.Hx) == 2 {
			diffEvent(bytesOf(c.Hx[0]), bytesOf(c.Hx[1]))
		}
	}
	// diffs: all pairs of lengths, every position of a change
	for l1 := 0; l1 <= 10; l1++ {
		for l2 := 0; l2 <= 10; l2++ {
			diffEvent(every[:l1], every[:l2])
			diffEvent(every[:l1], every[7:7+l2])
		}
	}
	for i := 0; i < n; i++ {
		a := genBytes()
		if len(a) > 64 {
			a = a[:64]
		}
		b := append([]byte{}, a...)
		for k := rnd.Intn(3); k > 0; k-- {
			switch rnd.Intn(4) {
			case 0:
				if len(b) > 0 {
					b[rnd.Intn(len(b))] ^= byte(1 << uint(rnd.Intn(8)))
				}
			case 1:
				b = b[:rnd.Intn(len(b)+1)]
			case 2:
				b = append(b, genBytes()[:0]...)
				b = append(b, genByte(), genByte())
			case 3:
				if len(b) > 0 {
					b[len(b)-1]++
				}
			}
		}
		if chance(2) {
			a, b = b, a
		}
		diffEvent(a, b)
	}
	// rows that repeat, ranges and differences far out
	for i := 0; i < n/100+20; i++ {
		same := make([]byte, 512)
		for j := range same {
			same[j] = "abcd"[j%4] * byte(i%3)
		}
		l := rnd.Intn(200)
		x := append([]byte{}, same[:l]...)
		dump(pre(), x)
		if l > 0 {
			all(pre(), same, rnd.Intn(l), l)
			x[rnd.Intn(l)] ^= byte(rnd.Intn(4))
		}
		diffEvent(x, same[:rnd.Intn(200)])
		diffEvent(same[:l], x)
	}
	const least, most = math.MinInt32 + 8, math.MaxInt32 - 8 // TLC's integers, with room to subtract
	for _, b := range [][2]int{{least, 0}, {0, most}, {least, most}, {most, least}, {most, most}, {least, least},
		{-5, -5}, {-1, -1}, {100, 100}, {65536, 65536}} {
		all(pre(), every, b[0], b[1])
		all(pre(), nil, b[0], b[1])
		tail(pre(), every[:7], b[0])
	}
	dump("", big[:5000])
	all(" ", big, 0xfff0, 0x11010)
	diffEvent(big[:1200], big[:1196])
	long := append([]byte{}, big[:5000]...)
	long[4097] ^= 1
	diffEvent(big[:5000], long)
	diffEvent(long[:4990], big[:5000])
	diffEvent(nil, []byte{})
	diffEvent(nil, []byte{0})
}

// ---- C18: texts

// shrinkRun turns a text with n units in a row into one with m of them. A text
// that does not have them becomes one that nothing has.
func shrinkRun(s, unit string, n, m int) string {
	odd := s[:min(len(s), 200)] + "...not " + unit[:min(len(unit), 40)] + " repeated"
	run := strings.Repeat(unit, n)
	i := strings.Index(s, run)
	if i < 0 || strings.HasPrefix(s[i+len(run):], unit) || len(s)-len(run) > 20000 {
		return odd
	}
	return s[:i] + run[:m*len(unit)] + s[i+len(run):]
}

// grownTexts are texts of long values, long OIDs and long lists, as texts of
// short ones.
func grownTexts(n int) {
	text := func(f func(sb *strings.Builder)) (string, bool) {
		var sb strings.Builder
		sb.WriteByte('>')
		pan := call(func() ev { return ev{"op": "grown text", "n": n} }, func() { f(&sb) })
		return sb.String(), pan
	}
	m := 2 + rnd.Intn(5)
	x, y := strings.Repeat("x", n), []byte(strings.Repeat("x", n))
	v := genU32()
	o := make([]uint32, n)
	for i := range o {
		o[i] = v
	}
	dot := "." + strconv.FormatUint(uint64(v), 10)
	for _, c := range []struct {
		t    asn.Tag
		l, s interface{}
		unit string
		d    int // units less than elements
	}{{4, x, x[:m], "x", 0}, {68, y, y[:m], " 120", 1}, {6, o, o[:m], dot, 1}} {
		if c.t == 6 && n > 300000 {
			continue
		}
		s, pan := text(func(sb *strings.Builder) { c.t.Fprint(sb, c.l) })
		emitStateless(ev{"e": "val", "t": int(c.t), "v": valueJ(c.t, c.s), "s": B(shrinkRun(s, c.unit, n-c.d, m-c.d)), "pan": pan, "n": n})
		l, small := asn.Varbind{Oid: genSubids(2), Tag: c.t, Value: c.l}, asn.Varbind{Tag: c.t, Value: c.s}
		small.Oid = l.Oid
		s, pan = text(func(sb *strings.Builder) { l.Fprint(sb) })
		s2, pan2 := text(func(sb *strings.Builder) { sb.WriteString(l.String()) })
		emitStateless(ev{"e": "vbt", "vb": vbJ(small), "s": B(strings.TrimPrefix(shrinkRun(s2, c.unit, n-c.d, m-c.d), ">")),
			"f": B(shrinkRun(s, c.unit, n-c.d, m-c.d)), "pan": pan || pan2, "n": n})
	}
	if n < 300000 {
		l, small := asn.Varbind{Oid: o, Tag: 5}, asn.Varbind{Oid: o[:m], Tag: 5}
		s, pan := text(func(sb *strings.Builder) { l.Fprint(sb) })
		s2, pan2 := text(func(sb *strings.Builder) { sb.WriteString(l.String()) })
		emitStateless(ev{"e": "vbt", "vb": vbJ(small), "s": B(strings.TrimPrefix(shrinkRun(s2, dot, n-1, m-1), ">")),
			"f": B(shrinkRun(s, dot, n-1, m-1)), "pan": pan || pan2, "n": n})
		r, rs := agentx.SearchRange{StartOid: o, EndOid: []uint32{v ^ 1}}, agentx.SearchRange{StartOid: o[:m], EndOid: []uint32{v ^ 1}}
		if chance(2) {
			r.StartOid, r.EndOid, rs.StartOid, rs.EndOid = r.EndOid, r.StartOid, rs.EndOid, rs.StartOid
		}
		s, pan = text(func(sb *strings.Builder) { r.Fprint(sb) })
		s2, pan2 = text(func(sb *strings.Builder) { sb.WriteString(r.String()) })
		emitStateless(ev{"e": "rng", "r": rangeJ(rs), "s": B(strings.TrimPrefix(shrinkRun(s2, dot, n-1, m-1), ">")),
			"f": B(shrinkRun(s, dot, n-1, m-1)), "pan": pan || pan2, "n": n})
	}
	sizedCases([]int{n}, []int{min(n, 300000)}, func(c bigCase) {
		depth := pick(0, 0, 1, 2, 8)
		unit, n, m := "x", c.n, c.m()
		p := c.grow(c.n)
		switch c.pl {
		case "val":
			if p.Varbinds[0].Tag == 68 {
				unit, n, m = " 120", n-1, m-1
			}
		case "vbs":
			unit = p.Varbinds[0].String()
		case "ranges":
			unit = p.Ranges[0].String()
		}
		if c.isList() { // a line each
			unit = "\n" + strings.Repeat("    ", min(depth+1, 8)) + unit
		}
		var s string
		pan := call(func() ev { return ev{"op": "agentx.Pdu.String", "big": c.what(), "depth": depth} }, func() { s = p.String(depth) })
		emitStateless(ev{"e": "pdu", "p": pduJ(c.grow(c.m())), "size": w32(uint32(p.PayloadSize)), "depth": depth,
			"s": B(shrinkRun(s, unit, n, m)), "pan": pan, "n": c.n})
	})
}

func scenC18(n int) {
	val := func(t asn.Tag, v interface{}) {
		var sb strings.Builder
		sb.WriteByte('>')
		pan := call(func() ev { return ev{"op": "asn.Tag.Fprint", "t": int(t), "v": valueJ(t, v)} }, func() { t.Fprint(&sb, v) })
		emitStateless(ev{"e": "val", "t": int(t), "v": valueJ(t, v), "s": B(sb.String()), "pan": pan})
	}
	vbt := func(vb asn.Varbind) {
		var s string
		var sb strings.Builder
		sb.WriteByte('>')
		pan := call(func() ev { return ev{"op": "asn.Varbind.String", "vb": vbJ(vb)} }, func() { s = vb.String(); vb.Fprint(&sb) })
		emitStateless(ev{"e": "vbt", "vb": vbJ(vb), "s": B(s), "f": B(sb.String()), "pan": pan})
	}
	rng := func(r agentx.SearchRange) {
		var s string
		var sb strings.Builder
		sb.WriteByte('>')
		pan := call(func() ev { return ev{"op": "agentx.SearchRange.String", "r": rangeJ(r)} }, func() { s = r.String(); r.Fprint(&sb) })
		emitStateless(ev{"e": "rng", "r": rangeJ(r), "s": B(s), "f": B(sb.String()), "pan": pan})
	}
	ip := func(a [4]byte) {
		var s string
		var sb strings.Builder
		sb.WriteByte('>')
		pan := call(func() ev { return ev{"op": "ipa.String", "a": B(a[:])} }, func() { s = ipa.String(a); ipa.Fprint(&sb, a) })
		emitStateless(ev{"e": "ip", "a": B(a[:]), "s": B(s), "f": B(sb.String()), "pan": pan})
	}
	pdu := func(p agentx.Pdu) {
		depth := pick(0, 0, 1, 1, 2, 3, 6, 7, 8, 9, 12)
		var s string
		pan := call(func() ev { return ev{"op": "agentx.Pdu.String", "p": pduJ(p), "depth": depth} }, func() { s = p.String(depth) })
		emitStateless(ev{"e": "pdu", "p": pduJ(p), "size": w32(uint32(p.PayloadSize)), "depth": depth, "s": B(s), "pan": pan})
	}
	for _, p := range corpusPdus() {
		pdu(p)
		for _, vb := range p.Varbinds {
			vbt(vb)
		}
		for _, r := range p.Ranges {
			rng(r)
		}
	}
	for t := 0; t < 256; t++ {
		for k := 0; k < nAnyValues; k++ {
			if t < 8 || t == 48 || t > 62 && t < 73 || t > 126 && t < 133 || k%7 == t%7 {
				val(asn.Tag(t), anyValue(k))
			}
		}
		val(asn.Tag(t), genValue(asn.Tag(t)))
		vbt(asn.Varbind{Oid: genOid(), Tag: asn.Tag(t), Value: genValue(asn.Tag(t))})
		ip([4]byte{byte(t), byte(255 - t), genByte(), genByte()})
	}
	for _, v := range u32bounds {
		val(2, int32(v))
		val(65, v)
		val(66, v)
		val(67, v)
		val(70, uint64(v)<<32)
		val(70, uint64(v)<<32|uint64(v))
	}
	for i := 0; i < n; i++ {
		switch rnd.Intn(8) {
		case 0:
			t := valueTags[rnd.Intn(len(valueTags))]
			val(t, genValue(t))
		case 1:
			vbt(genVarbind())
		case 2:
			vb := genVarbind()
			if chance(2) {
				vb.Tag = oddTags[rnd.Intn(len(oddTags))]
			} else {
				vb.Value = genAnyValue()
			}
			vbt(vb)
		case 3:
			rng(genRange())
		case 4:
			ip(genIp())
		case 5, 6:
			pdu(genPdu())
		default:
			p := genBroken()
			if paramsJ(p.Params)["k"] == "foreign" {
				p.Params = nil
			}
			pdu(p)
		}
	}
	for _, k := range growSizes {
		if k > 8 {
			grownTexts(k)
		}
	}
	for _, k := range []int{65535, 65536, 65537, 70000, 1<<20 + 1} {
		grownTexts(k)
	}
	if n > 100000 {
		for _, k := range []int{131072, 262145, 1 << 24, 1<<24 + 257} {
			grownTexts(k)
		}
	}
	for t := 0; t <= 19; t++ {
		for _, q := range []agentx.PayloadParams{nil, agentx.NoParams{}, genParams(agentx.PduTag(t))} {
			pdu(agentx.Pdu{Tag: agentx.PduTag(t), Flags: agentx.Flags(rnd.Intn(256)), Params: q, PayloadSize: int32(genU32())})
		}
	}
}

// ---- C19: vocabulary

func scenC19(int) {
	str := func(op string, f func() string) (s string, pan bool) {
		pan = call(func() ev { return ev{"op": op} }, func() { s = f() })
		return
	}
	for t := 0; t < 256; t++ {
		tag := agentx.PduTag(t)
		s, pan := str("PduTag.String", tag.String)
		emitStateless(ev{"e": "ptag", "n": t, "known": tag.IsKnown(), "s": B(s), "pan": pan})
		at := asn.Tag(t)
		s, pan = str("asn.Tag.String", at.String)
		emitStateless(ev{"e": "atag", "n": t, "known": at.IsKnown(), "vt": at.IsValueTag(), "s": B(s), "pan": pan})
		r := agentx.CloseReason(t)
		s, pan = str("CloseReason.String", r.String)
		emitStateless(ev{"e": "reason", "n": t, "s": B(s), "pan": pan})
		f := agentx.Flags(t)
		var sb strings.Builder
		s, pan = str("Flags.String", func() string { f.Fprint(&sb); return f.String() })
		emitStateless(ev{"e": "flags", "n": t, "s": B(s), "f": B(sb.String()), "pan": pan})
		valid := make([]ev, nAnyValues)
		for k := range valid {
			v := anyValue(k)
			ok := false
			p := call(func() ev { return ev{"op": "IsValidValue"} }, func() { ok = at.IsValidValue(v) })
			valid[k] = ev{"v": valueJ(at, v)["k"], "ok": ok, "pan": p}
		}
		emitStateless(ev{"e": "valid", "n": t, "vs": valid})
	}
	for t := 1; t <= 18; t++ {
		bad := make([]int, 256)
		pan := call(func() ev { return ev{"op": "NotAllowedFlags"} }, func() {
			for f := range bad {
				bad[f] = int(agentx.PduTag(t).NotAllowedFlags(agentx.Flags(f)))
			}
		})
		emitStateless(ev{"e": "naf", "n": t, "bad": bad, "pan": pan})
	}
	for hi := 0; hi < 256; hi++ {
		ss := make([]B, 256)
		pan := call(func() ev { return ev{"op": "pduerror.Error.String"} }, func() {
			for lo := range ss {
				ss[lo] = B(pduerror.Error(hi<<8 | lo).String())
			}
		})
		emitStateless(ev{"e": "errs", "hi": hi, "ss": ss, "pan": pan})
	}
	endSession()
	consts := []struct {
		k, name string
		v       int
	}{
		{"ptag", "Open", int(agentx.TagOpen)}, {"ptag", "Close", int(agentx.TagClose)}, {"ptag", "Register", int(agentx.TagRegister)},
		{"ptag", "Unregister", int(agentx.TagUnregister)}, {"ptag", "Get", int(agentx.TagGet)}, {"ptag", "GetNext", int(agentx.TagGetNext)},
		{"ptag", "GetBulk", int(agentx.TagGetBulk)}, {"ptag", "TestSet", int(agentx.TagTestSet)}, {"ptag", "CommitSet", int(agentx.TagCommitSet)},
		{"ptag", "UndoSet", int(agentx.TagUndoSet)}, {"ptag", "CleanupSet", int(agentx.TagCleanupSet)}, {"ptag", "Notify", int(agentx.TagNotify)},
		{"ptag", "Ping", int(agentx.TagPing)}, {"ptag", "IndexAllocate", int(agentx.TagIndexAllocate)},
		{"ptag", "IndexDeallocate", int(agentx.TagIndexDeallocate)}, {"ptag", "AddAgentCaps", int(agentx.TagAddAgentCaps)},
		{"ptag", "RemoveAgentCaps", int(agentx.TagRemoveAgentCaps)}, {"ptag", "Response", int(agentx.TagResponse)},
		{"flag", "InstanceRegistration", int(agentx.FlagInstanceRegistration)}, {"flag", "NewIndex", int(agentx.FlagNewIndex)},
		{"flag", "AnyIndex", int(agentx.FlagAnyIndex)}, {"flag", "NonDefaultContext", int(agentx.FlagNonDefaultContext)},
		{"flag", "NetworkByteOrder", int(agentx.FlagNetworkByteOrder)}, {"flag", "None", int(agentx.FlagsNone)},
		{"reason", "Other", int(agentx.CloseReasonOther)}, {"reason", "ParseError", int(agentx.CloseReasonParseError)},
		{"reason", "ProtocolError", int(agentx.CloseReasonProtocolError)}, {"reason", "Timeouts", int(agentx.CloseReasonTimeouts)},
		{"reason", "Shutdown", int(agentx.CloseReasonShutdown)}, {"reason", "ByManager", int(agentx.CloseReasonByManager)},
		{"atag", "Integer32", int(asn.TagInteger32)}, {"atag", "OctetString", int(asn.TagOctetString)}, {"atag", "Null", int(asn.TagNull)},
		{"atag", "ObjectId", int(asn.TagObjectId)}, {"atag", "Sequence", int(asn.TagSequence)}, {"atag", "IpAddress", int(asn.TagIpAddress)},
		{"atag", "Counter32", int(asn.TagCounter32)}, {"atag", "Gauge32", int(asn.TagGauge32)}, {"atag", "TimeTicks", int(asn.TagTimeTicks)},
		{"atag", "Opaque", int(asn.TagOpaque)}, {"atag", "Counter64", int(asn.TagCounter64)}, {"atag", "NoSuchObject", int(asn.TagNoSuchObject)},
		{"atag", "NoSuchInstance", int(asn.TagNoSuchInstance)}, {"atag", "EndOfMibView", int(asn.TagEndOfMibView)},
		{"err", "NoError", int(pduerror.NoError)}, {"err", "TooBig", int(pduerror.TooBig)}, {"err", "NoSuchName", int(pduerror.NoSuchName)},
		{"err", "BadValue", int(pduerror.BadValue)}, {"err", "ReadOnly", int(pduerror.ReadOnly)}, {"err", "GenError", int(pduerror.GenError)},
		{"err", "NoAccess", int(pduerror.NoAccess)}, {"err", "WrongType", int(pduerror.WrongType)}, {"err", "WrongLength", int(pduerror.WrongLength)},
		{"err", "WrongEncoding", int(pduerror.WrongEncoding)}, {"err", "WrongValue", int(pduerror.WrongValue)},
		{"err", "NoCreation", int(pduerror.NoCreation)}, {"err", "InconsistentValue", int(pduerror.InconsistentValue)},
		{"err", "ResourceUnavailable", int(pduerror.ResourceUnavailable)}, {"err", "CommitFailed", int(pduerror.CommitFailed)},
		{"err", "UndoFailed", int(pduerror.UndoFailed)}, {"err", "AuthorizationError", int(pduerror.AuthorizationError)},
		{"err", "NotWritable", int(pduerror.NotWritable)}, {"err", "InconsistentName", int(pduerror.InconsistentName)},
		{"err", "OpenFailed", int(pduerror.OpenFailed)}, {"err", "NotOpened", int(pduerror.NotOpened)},
		{"err", "IndexWrongType", int(pduerror.IndexWrongType)}, {"err", "IndexAlreadyAllocated", int(pduerror.IndexAlreadyAllocated)},
		{"err", "IndexNonAvailable", int(pduerror.IndexNonAvailable)}, {"err", "IndexNotAllocated", int(pduerror.IndexNotAllocated)},
		{"err", "UnsupportedContext", int(pduerror.UnsupportedContext)}, {"err", "DuplicateRegistration", int(pduerror.DuplicateRegistration)},
		{"err", "UnknownRegistration", int(pduerror.UnknownRegistration)}, {"err", "UnknownAgentCaps", int(pduerror.UnknownAgentCaps)},
		{"err", "ParseError", int(pduerror.ParseError)}, {"err", "RequestDenied", int(pduerror.RequestDenied)},
		{"err", "ProcessingError", int(pduerror.ProcessingError)},
	}
	for _, c := range consts {
		emit(ev{"e": "const", "k": c.k, "name": c.name, "v": c.v})
	}
	endSession()
	var names []string
	for k := range oid.Name {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		printable := true
		for _, c := range []byte(k) {
			printable = printable && c > 32 && c < 127 && c != '"' && c != '\\'
		}
		if printable {
			emit(ev{"e": "mib", "name": k, "o": oidJ(oid.Name[k])})
		}
	}
	emit(ev{"e": "mibs", "names": names})
	endSession()
}

// ---- C20: debug logs

func appendHex(b B, s string) B {
	v, n := 0, 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= '0' && c <= '9':
			v, n = v<<4|int(c-'0'), n+1
		case c >= 'A' && c <= 'F':
			v, n = v<<4|int(c-'A'+10), n+1
		}
		if n == 2 {
			b = append(b, byte(v))
			v, n = 0, 0
		}
	}
	return b
}

// dumpRow reads a line of a hex dump: an offset of eight digits, then pairs.
func dumpRow(s string) (off uint32, pairs string, ok bool) {
	s = strings.TrimSpace(s)
	if len(s) < 8 {
		return 0, "", false
	}
	hexDigit := func(c byte) bool { return c >= '0' && c <= '9' || c >= 'A' && c <= 'F' }
	for i := 0; i < 8; i++ {
		if !hexDigit(s[i]) {
			return 0, "", false
		}
	}
	off, pairs = u32hex(s[:8]), s[8:]
	for i := 0; i < len(pairs); {
		j := i
		for j < len(pairs) && (pairs[j] == ' ' || pairs[j] == '\t') {
			j++
		}
		if j == i || j+2 > len(pairs) || !hexDigit(pairs[j]) || !hexDigit(pairs[j+1]) {
			return 0, "", false
		}
		i = j + 2
	}
	return off, pairs, true
}

// dumpsIn finds the blocks of consecutive hex dump lines that begin at offset 0
// and returns the bytes of the longest, and up to 64 rows that are not rows of it.
func dumpsIn(msgs []string) (best B, found bool, rows []ev) {
	best = B{}
	type row struct {
		off uint32
		b   string
	}
	var all []row
	for _, m := range msgs {
		var cur B
		in := false
		flush := func() {
			if in {
				if !found || len(cur) > len(best) {
					best = cur
				}
				found = true
			}
			in, cur = false, nil
		}
		for more := true; more; {
			line := m
			if i := strings.IndexByte(m, '\n'); i >= 0 {
				line, m = m[:i], m[i+1:]
			} else {
				more = false
			}
			off, pairs, ok := dumpRow(line)
			if !ok {
				flush()
				continue
			}
			if len(all) < 100000 {
				all = append(all, row{off, pairs})
			}
			if off == 0 {
				flush()
				in, cur = true, B{}
			}
			if in && int(off) == len(cur) {
				cur = appendHex(cur, pairs)
			} else {
				flush()
			}
		}
		flush()
	}
	seen := map[row]bool{}
	rows = []ev{}
	for _, r := range all {
		b := appendHex(B{}, r.b)
		at := int(r.off)
		if at%4 == 0 && at < len(best) && bytes.Equal(best[at:min(at+4, len(best))], b) || seen[r] || len(rows) == 64 {
			continue
		}
		seen[r] = true
		rows = append(rows, ev{"o": at, "b": b})
	}
	return
}

func u32hex(s string) (v uint32) {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'A' {
			v = v<<4 | uint32(c-'A'+10)
		} else {
			v = v<<4 | uint32(c-'0')
		}
	}
	return
}

// Formatting errors show as "%!verb(...)" in the output of package fmt, so no
// input may hold these two characters itself; percent signs as such are wanted.
func noBang(b []byte) []byte {
	r := append([]byte{}, b...)
	for i := range r {
		if r[i] == '!' && i > 0 && r[i-1] == '%' {
			r[i] = '&'
		}
	}
	return r
}

func noBangPdu(p agentx.Pdu) agentx.Pdu {
	f := func(s string) string { return string(noBang([]byte(s))) }
	p.Context = f(p.Context)
	switch q := p.Params.(type) {
	case agentx.OpenParams:
		q.Description = f(q.Description)
		p.Params = q
	case agentx.AddAgentCapsParams:
		q.Description = f(q.Description)
		p.Params = q
	}
	vs := append([]asn.Varbind(nil), p.Varbinds...)
	for i := range vs {
		if s, ok := vs[i].Value.(string); ok {
			vs[i].Value = f(s)
		}
	}
	p.Varbinds = vs
	return p
}

// bigLogs: the debug codecs show all of a message of any size.
func bigLogs(full bool) {
	bigCases(full, func(c bigCase) {
		c.p = noBangPdu(c.p)
		record := func(op string, ok, pan bool, l *memLog, data []byte, arg interface{}) {
			in := c.what()
			d, found := logInto(in, ok, l, arg)
			in["e"], in["op"], in["pan"] = "log", op, pan
			in["data"], in["dump"], in["found"] = c.digest(data), c.digest(d), found
			for _, r := range in["rows"].([]ev) { // what the message has there
				o := min(r["o"].(int), len(data))
				r["at"] = B(data[o:min(o+len(r["b"].(B)), len(data))])
			}
			emitStateless(in)
		}
		l := &memLog{}
		b, ok, pan := xEncodeDbg(c.grow(c.n), l)
		record("encode", ok, pan, l, b, c.p)
		if ok && len(b) > agentx.PduHeaderSize {
			l = &memLog{}
			x := payIn{c.p.Tag, c.p.Flags, int32(len(b) - agentx.PduHeaderSize), b[agentx.PduHeaderSize:]}
			p := x.header()
			ok, pan = xPayloadDbg(&p, x.b, l)
			record("payload", ok, pan, l, x.b, x.b)
		}
	})
}

// logInto adds what a debug call has logged.
// A string of the message may itself look like a row of a dump, on a line of
// its own, so rows are judged of messages without a line break only.
// The rows are left out when what was coded (arg: the PDU or the bytes) holds a
// line feed: its text is part of the log and may look like a dump.
func logInto(in ev, ok bool, l *memLog, arg interface{}) (dump B, found bool) {
	last, pct, notices, bad := "", 0, 0, 0
	for _, m := range l.msgs {
		last = m
		if strings.HasPrefix(m, "!!! Failed to ") {
			notices++
		}
		pct += strings.Count(m, "%!")
		bad += strings.Count(m, "out of range: i1 = ")
	}
	in["ok"], in["last"], in["pct"], in["msgs"], in["notices"] = ok, B(last[:min(len(last), 80)]), pct, len(l.msgs), notices
	dump, found, rows := dumpsIn(l.msgs)
	if b, isBytes := arg.([]byte); isBytes && bytes.IndexByte(b, '\n') >= 0 ||
		!isBytes && hasLineFeed(reflect.ValueOf(arg)) {
		rows = []ev{}
	}
	in["rows"], in["bad"] = rows, bad
	return dump, found
}

// hasLineFeed looks for '\n' in every string and byte slice of v.
func hasLineFeed(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.String:
		return strings.IndexByte(v.String(), '\n') >= 0
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if x := v.Index(i); x.Kind() == reflect.Uint8 {
				if x.Uint() == '\n' {
					return true
				}
			} else if x.Kind() == reflect.Uint32 {
				return false
			} else if hasLineFeed(x) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if hasLineFeed(v.Field(i)) {
				return true
			}
		}
	case reflect.Interface, reflect.Ptr:
		return !v.IsNil() && hasLineFeed(v.Elem())
	}
	return false
}

func scenC20(n int) {
	bigLogs(n > 100000)
	record := func(op string, in ev, ok, pan bool, l *memLog, data []byte, arg interface{}) {
		in["e"], in["op"], in["pan"] = "log", op, pan
		in["dump"], in["found"] = logInto(in, ok, l, arg)
		in["data"] = B(data)
		emitStateless(in)
	}
	enc := func(p agentx.Pdu) {
		p = noBangPdu(p)
		l := &memLog{}
		b, ok, pan := xEncodeDbg(p, l)
		if !ok {
			b = nil
		}
		in := ev{}
		if len(p.Varbinds)+len(p.Ranges) < 40 && len(p.Context) < 600 { // only to describe it
			in["p"] = pduJ(p)
		}
		record("encode", in, ok, pan, l, b, p)
	}
	hdr := func(b []byte) {
		b = noBang(b)
		l := &memLog{}
		_, ok, pan := xHeaderDbg(b, l)
		record("header", ev{}, ok, pan, l, b, b)
	}
	pay := func(x payIn) {
		x.b = noBang(x.b)
		l := &memLog{}
		p := x.header()
		ok, pan := xPayloadDbg(&p, x.b, l)
		record("payload", ev{"h": headerJ(p)}, ok, pan, l, x.b, x.b)
	}
	for t := 0; t < 256; t++ {
		for _, fl := range []byte{0, 16, byte(rnd.Intn(256))} {
			hdr(rawHeader(byte(t), fl, 1, 2, 3, uint32(pick(4, 5, 0x80000000))))
		}
	}
	goodPdus(n/4, enc)
	for i := 0; i < n/3000+1; i++ {
		enc(genHuge())
	}
	for i := 0; i < n/2; i++ {
		p := genBroken()
		if paramsJ(p.Params)["k"] == "foreign" {
			continue
		}
		enc(p)
	}
	headers(n/4, hdr, nil)
	payloads(n/2, pay)
	endSession()
	for i := 0; i < n/6000+1; i++ {
		consoleRun(rnd.Int63(), 1+rnd.Intn(12))
	}
}

func init() {
	scenarios["C17"] = scenC17
	scenarios["C18"] = scenC18
	scenarios["C19"] = scenC19
	scenarios["C20"] = scenC20
}
