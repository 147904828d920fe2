package main

import (
	"strings"

	"github.com/alexispb/mygosnmp/oid"
)

// ---- C10: order and prefix

// near makes an OID close to a: equal, cut, extended or with one sub-id changed.
func near(a []uint32) []uint32 {
	b := append([]uint32{}, a...)
	switch rnd.Intn(7) {
	case 0:
		if len(b) == 0 && chance(2) {
			return nil
		}
	case 1:
		b = b[:rnd.Intn(len(b)+1)]
	case 2:
		b = append(b, genU32())
	case 3:
		b = append(b, genSubids(1+rnd.Intn(3))...)
	case 4, 5:
		if len(b) > 0 {
			b[rnd.Intn(len(b))] = genU32()
		}
	case 6:
		if len(b) > 0 {
			i := rnd.Intn(len(b))
			b[i] += []uint32{1, 0xffffffff, 0x80000000, 0x10000, 0x100}[rnd.Intn(5)]
		}
	}
	return b
}

func cmpEvent(a, b []uint32) {
	e := ev{"e": "cmp", "a": oidJ(a), "b": oidJ(b)}
	e["pan"] = compare(e, a, b)
	emitStateless(e)
}

func compare(e ev, a, b []uint32) bool {
	return call(func() ev { return ev{"op": "oid.Compare & co", "a": e["a"], "b": e["b"], "k": e["k"]} }, func() {
		e["cmp"] = oid.Compare(a, b)
		e["lt"], e["le"], e["eq"] = oid.Lt(a, b), oid.Le(a, b), oid.Eq(a, b)
		e["ne"], e["ge"], e["gt"] = oid.Ne(a, b), oid.Ge(a, b), oid.Gt(a, b)
		e["pre"] = oid.HasPrefix(a, b...)
	})
}

// diffAt compares two OIDs of length l that differ at position d only (or
// nowhere), and the first with parts of the second.
func diffAt(l, d int) {
	a := genSubids(l)
	b := append([]uint32{}, a...)
	if d >= 0 && d < l {
		for b[d] == a[d] {
			b[d] = genU32()
		}
	}
	cmpEvent(a, b)
	cmpEvent(a, b[:rnd.Intn(l+1)])
	cmpEvent(b[:rnd.Intn(l+1)], a)
}

func scenC10(n int) {
	var small [][]uint32
	for _, c := range readCorpus() {
		if c.O != nil {
			small = append(small, oidOf(*c.O))
		}
	}
	small = append(small, []uint32{})
	for _, a := range small { // all pairs of the specification's small OIDs
		for _, b := range small {
			cmpEvent(a, b)
		}
	}
	for i := 0; i < n; i++ {
		a := genOid()
		b := near(a)
		if chance(4) {
			b = genOid()
		}
		if chance(2) {
			a, b = b, a
		}
		cmpEvent(a, b)
	}
	for i := 0; i < n/16; i++ { // views of one array
		a := append(genOid(), genSubids(2+rnd.Intn(6))...)
		j := rnd.Intn(len(a) + 1)
		k := rnd.Intn(len(a) + 1)
		switch rnd.Intn(4) {
		case 0:
			cmpEvent(a, a[:j])
		case 1:
			cmpEvent(a[:j], a)
		case 2:
			cmpEvent(a[:j], a[:k])
		case 3:
			cmpEvent(a[j:], a[k:])
		}
	}
	for l := 1; l <= 40; l++ { // every length and every place of difference, then long ones
		for d := -1; d < l; d++ {
			diffAt(l, d)
		}
	}
	for _, l := range []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000} {
		for _, d := range []int{-1, 0, 1, 31, 63, l / 2, l - 2, l - 1} {
			diffAt(l, d)
		}
	}
	for i := 0; i < n/50+60; i++ { // long ones as images of short ones
		a := genSubids(rnd.Intn(5))
		b := near(a)
		if len(b) > 8 {
			b = b[:8]
		}
		if chance(2) {
			a, b = b, a
		}
		K := growSizes[rnd.Intn(len(growSizes))]
		if i%20 == 3 {
			K = pick(10000, 65535, 65536, 65537, 100000)
		}
		if i%200 == 3 && n > 100000 {
			K = 10000000
		}
		grownCmp(a, b, K)
	}
	for _, x := range u32bounds { // sub-ids as unsigned numbers
		for _, y := range u32bounds {
			cmpEvent([]uint32{1, x}, []uint32{1, y})
		}
	}
}

// grownCmp compares the images of two OIDs: every sub-identifier with K-1 more
// after it, or before it, the same everywhere (spec/MCGrow.tla, OrderOK).
func grownCmp(a, b []uint32, K int) {
	g := make([]uint32, K-1)
	for i := range g {
		g[i] = uint32(rnd.Intn(3))
	}
	first := chance(2)
	large := func(o []uint32) []uint32 {
		r := make([]uint32, 0, len(o)*K)
		for _, s := range o {
			if first {
				r = append(append(r, s), g...)
			} else {
				r = append(append(r, g...), s)
			}
		}
		return r
	}
	e := ev{"e": "cmp", "a": oidJ(a), "b": oidJ(b), "k": K, "first": first}
	e["pan"] = compare(e, large(a), large(b))
	emitStateless(e)
}

// ---- C12: text and parser

func parseEvent(s string) {
	var o []uint32
	pan := call(func() ev { return ev{"op": "oid.Parse", "s": B(s)} }, func() { o = oid.Parse(s) })
	e := ev{"e": "parse", "s": B(s), "ok": !pan}
	if !pan {
		e["o"] = oidJ(o)
	}
	emitStateless(e)
	if !pan && len(o) > 0 && chance(4) { // the result is the caller's: writing to it changes no later result
		for i := range o {
			o[i] ^= 0x5a5a
		}
		_ = append(o[:len(o)-1], 7)
		pan = call(func() ev { return ev{"op": "oid.Parse", "s": B(s)} }, func() { o = oid.Parse(s) })
		e = ev{"e": "parse", "s": B(s), "ok": !pan}
		if !pan {
			e["o"] = oidJ(o)
		}
		emitStateless(e)
	}
}

func textEvent(o []uint32) {
	var s, f string
	pan := call(func() ev { return ev{"op": "oid.String", "o": oidJ(o)} }, func() {
		s = oid.String(o)
		var sb strings.Builder
		sb.WriteString("x")
		oid.Fprint(&sb, o)
		f = sb.String()
	})
	emitStateless(ev{"e": "text", "o": oidJ(o), "s": B(s), "f": B(f), "pan": pan})
	if !pan {
		parseEvent(s)
		if chance(2) {
			parseEvent("." + s)
		}
	}
}

// grownText is the text of an OID of which every sub-identifier is there K
// times, read as the text of one where it is there once.
func grownText(o []uint32, K int) {
	var l []uint32
	for _, s := range o {
		for i := 0; i < K; i++ {
			l = append(l, s)
		}
	}
	once := func(s string) B {
		var r []string
		t := strings.Split(s, ".")
		for i := 0; i < len(t); i += K {
			for j := i; j < i+K; j++ {
				if j >= len(t) || t[j] != t[i] {
					return B(s[:min(len(s), 100)] + "...?")
				}
			}
			r = append(r, t[i])
		}
		return B(strings.Join(r, "."))
	}
	var s, f string
	pan := call(func() ev { return ev{"op": "oid.String", "o": oidJ(o), "k": K} }, func() {
		s = oid.String(l)
		var sb strings.Builder
		sb.WriteString("x")
		oid.Fprint(&sb, l)
		f = sb.String()
	})
	e := ev{"e": "text", "o": oidJ(o), "k": K, "s": once(s), "f": B("?"), "pan": pan}
	if strings.HasPrefix(f, "x") {
		e["f"] = append(B("x"), once(f[1:])...)
	}
	emitStateless(e)
}

func genOidText() string {
	var sb strings.Builder
	if chance(3) {
		sb.WriteByte('.')
	}
	n := rnd.Intn(6)
	if chance(30) {
		n = pick(126, 127, 128, 129, 130)
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			sb.WriteByte('.')
		}
		switch rnd.Intn(8) {
		case 0:
			sb.WriteString([]string{"4294967295", "4294967296", "4294967294", "4294967300", "5294967295", "42949672950", "10000000000",
				"9999999999", "18446744073709551616", "18446744073709551617", "99999999999999999999999", "2147483648", "2147483647"}[rnd.Intn(13)])
		case 1:
			sb.WriteString(strings.Repeat("0", 1+rnd.Intn(12)) + "7")
		case 2:
			sb.WriteString("0")
		default:
			sb.WriteString(strings.TrimLeft(string([]byte{byte('0' + rnd.Intn(10)), byte('0' + rnd.Intn(10))}), "0") + "1")
		}
	}
	return sb.String()
}

var oddBits = []string{"..", ".", " ", "+", "-", "x", "0x1", "1e3", "_", "1_0", "\x00", "/", ":", "a", "\xff", "\n", "\u0661", "\u00b2", ",", "1 ", "+1", "-1", "1.", "0b1", "0o7"}

func mutateText(s string) string {
	i := rnd.Intn(len(s) + 1)
	switch rnd.Intn(4) {
	case 0:
		return s[:i] + oddBits[rnd.Intn(len(oddBits))] + s[i:]
	case 1:
		if i < len(s) {
			return s[:i] + oddBits[rnd.Intn(len(oddBits))] + s[i+1:]
		}
	case 2:
		if i < len(s) {
			return s[:i] + s[i+1:]
		}
	case 3:
		return s[:i]
	}
	return s
}

func scenC12(n int) {
	for _, c := range readCorpus() {
		if c.S != nil {
			parseEvent(string(bytesOf(*c.S)))
		}
		if c.O != nil {
			textEvent(oidOf(*c.O))
		}
	}
	for b := 0; b < 256; b++ { // every byte in every role
		x := string([]byte{byte(b)})
		for _, s := range []string{x, "1" + x, x + "1", "1." + x, "1." + x + "2", "1" + x + "2", "." + x} {
			parseEvent(s)
		}
	}
	for _, s := range oddBits {
		for _, t := range []string{s, "1" + s, s + "1", "1." + s, s + ".1", "1.3." + s + ".6", "1" + s + "3"} {
			parseEvent(t)
		}
	}
	for _, v := range u32bounds {
		textEvent([]uint32{v})
		textEvent([]uint32{1, v, 3})
	}
	for _, k := range []int{1, 2, 127, 128, 129, 130, 255, 256, 300} {
		textEvent(genSubids(k))
		parseEvent(strings.TrimSuffix(strings.Repeat("1.", k), "."))
		parseEvent("." + strings.TrimSuffix(strings.Repeat("1.", k), "."))
		parseEvent(strings.Repeat("1.", k))
		parseEvent(strings.Repeat("1", k))
		parseEvent(strings.Repeat("0", k))
	}
	for i := 0; i < n/200+40; i++ { // long texts
		K := growSizes[rnd.Intn(len(growSizes))]
		if i%20 == 3 {
			K = pick(10000, 65536, 70000)
		}
		if i%200 == 3 && n > 100000 {
			K = 3000000
		}
		grownText(genSubids(1+rnd.Intn(4)), K)
	}
	for _, k := range []int{20, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 4096, 5000} { // many digits, many dots
		z := strings.Repeat("0", k)
		for _, t := range []string{z + "7", z + "4294967295", z + "4294967296", z, z + "x", z + ".1", "1." + z + "2", "1." + z + "2.3", "." + z + "1", z + "1." + z,
			strings.Repeat("9", k), "1." + strings.Repeat("1", k), strings.Repeat(".", k), strings.Repeat("1.", k) + "1", strings.Repeat("x", k), strings.Repeat(" ", k) + "1",
			"1" + strings.Repeat(" ", k)} {
			parseEvent(t)
		}
	}
	for i := 0; i < n; i++ {
		switch rnd.Intn(3) {
		case 0:
			textEvent(genOid())
		case 1:
			parseEvent(genOidText())
		default:
			parseEvent(mutateText(genOidText()))
		}
	}
}

// ---- C11: a heap of OIDs that share backing arrays

// In some sessions every sub-identifier of the history stands for K equal ones
// in memory: large OIDs are taken, cloned, appended to and written to alike.
func scenC11(n int) {
	for i := 0; i < n; i++ {
		K := 1
		if i%16 == 7 {
			K = []int{2, 16, 33, 64, 100, 129, 257, 512, 1024, 1025, 2048, 4096, 5000}[rnd.Intn(13)]
		}
		if i%200 == 15 {
			K = pick(20000, 65536, 70000)
		}
		if i%4000 == 31 && n > 10000 {
			K = 1000000
		}
		oidHeapSession(K)
	}
}

// shrink reads an OID made of groups of K equal sub-identifiers.
func shrink(o []uint32, K int) []uint32 {
	if K == 1 {
		return o
	}
	r := make([]uint32, 0, len(o)/K+1)
	for i := 0; i < len(o); i += K {
		for j := i; j < i+K; j++ {
			if j >= len(o) || o[j] != o[i] {
				return append(r, 0xdeadbeef, 0xdeadbeef, 0xdeadbeef) // no such OID
			}
		}
		r = append(r, o[i])
	}
	return r
}

func oidHeapSession(K int) {
	var pool [][]uint32
	view := func(o []uint32) []B { return oidJ(shrink(o, K)) }
	fill := func(o []uint32, v uint32) {
		for i := range o {
			o[i] = v
		}
	}
	all := func() [][]B {
		r := make([][]B, len(pool))
		for i, o := range pool {
			r[i] = view(o)
		}
		return r
	}
	log := func(e ev) { e["all"], e["k"] = all(), K; emit(e) }
	small := func() uint32 {
		if chance(2) {
			return uint32(rnd.Intn(5))
		}
		return genU32()
	}
	for k := 12 + rnd.Intn(14); k > 0; k-- {
		src := -1
		if len(pool) > 0 {
			src = rnd.Intn(len(pool))
		}
		op := rnd.Intn(12)
		if len(pool) >= 9 && op < 8 {
			op = 8 + rnd.Intn(4)
		}
		switch {
		case src < 0 || op == 0:
			l := rnd.Intn(5)
			o := make([]uint32, l*K, (l+rnd.Intn(6))*K)
			for i := 0; i < l; i++ {
				fill(o[i*K:(i+1)*K], small())
			}
			if l == 0 && chance(2) {
				o = nil
			}
			pool = append(pool, o)
			log(ev{"e": "new", "c": view(o), "cap": cap(o) / K})
		case op == 1: // the caller takes a part of an OID (shares memory)
			o := pool[src]
			hi := rnd.Intn(len(o)/K + 1)
			lo := 0
			if hi > 0 && chance(3) {
				lo = rnd.Intn(hi)
			}
			o = o[lo*K : hi*K]
			pool = append(pool, o)
			log(ev{"e": "slice", "src": src + 1, "lo": lo, "hi": hi, "cap": cap(o) / K})
		case op <= 3:
			var o []uint32
			pan := call(func() ev { return ev{"op": "oid.Clone", "o": view(pool[src]), "k": K} }, func() { o = oid.Clone(pool[src]) })
			pool = append(pool, o)
			log(ev{"e": "clone", "src": src + 1, "cap": cap(o) / K, "pan": pan})
		case op <= 7:
			var subs []uint32
			arg := 0
			if chance(3) { // the appended sub-ids are another OID of the pool
				arg = 1 + rnd.Intn(len(pool))
				subs = pool[arg-1]
			} else {
				for j := rnd.Intn(4); j > 0; j-- {
					subs = append(subs, make([]uint32, K)...)
					fill(subs[len(subs)-K:], small())
				}
			}
			subsJ := view(subs)
			var o []uint32
			pan := call(func() ev { return ev{"op": "oid.Cat", "o": view(pool[src]), "subs": view(subs), "k": K} }, func() { o = oid.Cat(pool[src], subs...) })
			pool = append(pool, o)
			log(ev{"e": "cat", "src": src + 1, "arg": arg, "subs": subsJ, "cap": cap(o) / K, "pan": pan})
		case op <= 9: // the caller writes
			o := pool[src]
			if len(o) == 0 {
				continue
			}
			if len(o) < K {
				continue
			}
			j, v := rnd.Intn(len(o)/K), small()
			fill(o[j*K:(j+1)*K], v)
			log(ev{"e": "write", "src": src + 1, "i": j + 1, "v": w32(v)})
		default: // the caller appends, in place if there is room
			o, v := pool[src], small()
			l := len(o)
			inplace := l+K <= cap(o)
			switch {
			case inplace:
				o = o[:l+K]
			case K == 1:
				o = append(o, v)
			default: // the caller's own array, again with room for whole groups
				o = append(make([]uint32, 0, l+K*pick(1, 2, 3)), o...)[:l+K]
			}
			fill(o[l:], v)
			pool[src] = o
			log(ev{"e": "grow", "src": src + 1, "v": w32(v), "inplace": inplace, "cap": cap(o) / K})
		}
	}
	endSession()
}

func init() {
	scenarios["C10"] = scenC10
	scenarios["C11"] = scenC11
	scenarios["C12"] = scenC12
}
