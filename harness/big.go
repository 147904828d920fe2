package main

import (
	"bytes"
	"strings"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/oid"
)

// Messages of any size (spec/Scale.tla): a PDU in which one string is n times
// 'x' or a list begins with n equal items. What is recorded of it is a small
// instance, and of its bytes the ends and how far the repetition reaches.

type bigCase struct {
	p  agentx.Pdu
	pl string
	n  int
}

const bigX = "x"

func (c bigCase) isList() bool { return c.pl == "vbs" || c.pl == "ranges" }

// grow is c.p with n repetitions.
func (c bigCase) grow(n int) agentx.Pdu {
	p := c.p
	s := ""
	if !c.isList() {
		s = strings.Repeat(bigX, n)
	}
	switch c.pl {
	case "ctx":
		p.Context = s
	case "descr":
		switch q := p.Params.(type) {
		case agentx.OpenParams:
			q.Description = s
			p.Params = q
		case agentx.AddAgentCapsParams:
			q.Description = s
			p.Params = q
		}
	case "val":
		p.Varbinds = append([]asn.Varbind{}, p.Varbinds...)
		if p.Varbinds[0].Tag == 4 {
			p.Varbinds[0].Value = s
		} else {
			p.Varbinds[0].Value = []byte(s)
		}
	case "vbs":
		l := make([]asn.Varbind, n, n+len(p.Varbinds))
		for i := range l {
			l[i] = p.Varbinds[0]
		}
		p.Varbinds = append(l, p.Varbinds[1:]...)
	case "ranges":
		l := make([]agentx.SearchRange, n, n+len(p.Ranges))
		for i := range l {
			l[i] = p.Ranges[0]
		}
		p.Ranges = append(l, p.Ranges[1:]...)
	}
	return p
}

// m is the number of repetitions in the small instance.
func (c bigCase) m() int {
	if c.isList() {
		return 3
	}
	return c.n%4 + 4
}

func cutStr(s string, n, m int) string {
	if len(s) == n && strings.Count(s, bigX) == n {
		return s[:m]
	}
	return "not " + bigX + " repeated: " + s[:min(len(s), 40)]
}

func sameVb(a, b asn.Varbind) bool {
	if a.Tag != b.Tag || !oid.Eq(a.Oid, b.Oid) {
		return false
	}
	switch x := a.Value.(type) {
	case []byte:
		y, ok := b.Value.([]byte)
		return ok && bytes.Equal(x, y)
	case []uint32:
		y, ok := b.Value.([]uint32)
		return ok && oid.Eq(x, y)
	}
	switch b.Value.(type) {
	case []byte, []uint32:
		return false
	}
	return a.Value == b.Value
}

// cut shrinks a PDU grown to c.n to the small instance. Anything that is not
// such a PDU becomes something that is not the small instance either.
func (c bigCase) cut(p agentx.Pdu) agentx.Pdu {
	m := c.m()
	switch c.pl {
	case "ctx":
		p.Context = cutStr(p.Context, c.n, m)
	case "descr":
		switch q := p.Params.(type) {
		case agentx.OpenParams:
			q.Description = cutStr(q.Description, c.n, m)
			p.Params = q
		case agentx.AddAgentCapsParams:
			q.Description = cutStr(q.Description, c.n, m)
			p.Params = q
		}
	case "val":
		if len(p.Varbinds) > 0 {
			v := append([]asn.Varbind{}, p.Varbinds...)
			switch x := v[0].Value.(type) {
			case string:
				v[0].Value = cutStr(x, c.n, m)
			case []byte:
				v[0].Value = []byte(cutStr(string(x), c.n, m))
			}
			p.Varbinds = v
		}
	case "vbs":
		l := p.Varbinds
		for i := 1; i < c.n && i < len(l); i++ {
			if !sameVb(l[0], l[i]) {
				p.Varbinds = append(append([]asn.Varbind{}, l[:20]...), l[i])
				return p
			}
		}
		if len(l) < c.n {
			p.Varbinds = l[:min(len(l), 20)]
		} else {
			p.Varbinds = append(append([]asn.Varbind{}, l[:m]...), l[c.n:min(len(l), c.n+20)]...)
		}
	case "ranges":
		l := p.Ranges
		for i := 1; i < c.n && i < len(l); i++ {
			if !oid.Eq(l[0].StartOid, l[i].StartOid) || !oid.Eq(l[0].EndOid, l[i].EndOid) || l[0].StartIncluded != l[i].StartIncluded {
				p.Ranges = append(append([]agentx.SearchRange{}, l[:20]...), l[i])
				return p
			}
		}
		if len(l) < c.n {
			p.Ranges = l[:min(len(l), 20)]
		} else {
			p.Ranges = append(append([]agentx.SearchRange{}, l[:m]...), l[c.n:min(len(l), c.n+20)]...)
		}
	}
	return p
}

// unit is the number of bytes an item of the list takes.
func (c bigCase) unit() int {
	if !c.isList() {
		return 1
	}
	var w1, w2 raw
	w1.payload(c.grow(1))
	w2.payload(c.grow(2))
	return len(w2.b) - len(w1.b)
}

const bigEnd = 300 // bytes of each end that are recorded

// digest describes b: its ends, and the range around its middle in which it
// repeats itself every u bytes.
func (c bigCase) digest(b []byte) ev {
	u := c.unit()
	h := min(bigEnd, len(b))
	hi := len(b) - h
	lo := hi - u
	if lo < 0 {
		lo = 0
	}
	for lo > 0 && b[lo-1] == b[lo-1+u] {
		lo--
	}
	return ev{"len": len(b), "head": B(b[:h]), "tail": B(b[hi:]), "u": u, "lo": lo, "hi": hi}
}

func (c bigCase) what() ev {
	return ev{"pl": c.pl, "n": c.n, "p": pduJ(c.grow(c.m()))}
}

// bigCases are about k cases for each place.
func bigCases(full bool, f func(bigCase)) {
	strs := []int{1 << 20, 1<<24 - 20, 1<<24 - 4, 1<<24 - 1, 1 << 24, 1<<24 + 1, 1<<24 + 65536 + 256 + 2}
	lists := []int{65535, 65536, 65537, 1<<21 - 1, 1<<21 + 3}
	if !full {
		strs = []int{65536 + rnd.Intn(8), 1<<24 + rnd.Intn(5) - 4}
		lists = []int{65537, 1<<16 + rnd.Intn(100)}
	}
	sizedCases(strs, lists, f)
}

func sizedCases(strs, lists []int, f func(bigCase)) {
	shape := func(t agentx.PduTag, ctx bool) agentx.Pdu {
		p := genPduOf(t)
		p.Flags = agentx.Flags(pick(0, 16))
		p.Context, p.Ranges, p.Varbinds = "", nil, nil
		if ctx {
			p.Flags |= 8
			p.Context = "ab"
		}
		switch q := p.Params.(type) {
		case agentx.OpenParams:
			q.Oid, q.Description = genSubids(rnd.Intn(4)), ""
			p.Params = q
		case agentx.AddAgentCapsParams:
			q.Oid, q.Description = genSubids(rnd.Intn(4)), ""
			p.Params = q
		case agentx.RegisterParams:
			q.Subtree = genSubids(rnd.Intn(4))
			p.Params = q
		case agentx.UnregisterParams:
			q.Subtree = genSubids(rnd.Intn(4))
			p.Params = q
		case agentx.RemoveAgentCapsParams:
			q.Oid = genSubids(rnd.Intn(4))
			p.Params = q
		}
		return p
	}
	last := asn.Varbind{Oid: []uint32{1, 3, 6, 1, 2, 9}, Tag: 2, Value: int32(-5)}
	for _, n := range strs {
		p := shape(pickTag(3, 4, 5, 8, 13, 16, 17, 18), true)
		if hasVarbinds(p.Tag) {
			p.Varbinds = []asn.Varbind{last}
		}
		f(bigCase{p, "ctx", n})
		t := pickTag(1, 16)
		f(bigCase{shape(t, t == 16), "descr", n})
		for _, vt := range []asn.Tag{4, 68} {
			p = shape(pickTag(8, 12, 14, 15, 18), chance(2))
			p.Varbinds = []asn.Varbind{{Oid: genSubids(rnd.Intn(4)), Tag: vt}, last}[:1+rnd.Intn(2)]
			f(bigCase{p, "val", n})
		}
	}
	for _, n := range lists {
		p := shape(pickTag(5, 6, 7), chance(2))
		p.Ranges = []agentx.SearchRange{{}, {StartOid: []uint32{1, 2}, EndOid: []uint32{7}, StartIncluded: 1}}[:1+rnd.Intn(2)]
		f(bigCase{p, "ranges", n})
		p = shape(pickTag(8, 12, 14, 15, 18), chance(2))
		vt := valueTags[rnd.Intn(len(valueTags))]
		p.Varbinds = []asn.Varbind{{Tag: 5}, last}[:1+rnd.Intn(2)]
		if n < 70000 && chance(2) {
			p.Varbinds[0] = asn.Varbind{Oid: genSubids(rnd.Intn(4)), Tag: vt, Value: clip(genValue(vt))}
			if vt == 5 || vt >= 128 {
				p.Varbinds[0].Value = nil
			}
		}
		f(bigCase{p, "vbs", n})
	}
}

// tooBig offers payloads around the size that a header can still announce. On
// code that refuses the others this costs little, unless full.
func tooBig(full bool) {
	one := func(c bigCase) {
		var ok bool
		p := c.grow(c.n)
		pan := call(c.what, func() { _, ok = agentx.EncodePdu(p) })
		emitStateless(ev{"e": "lref", "pl": c.pl, "n": c.n, "p": pduJ(c.grow(1)), "ok": ok && !pan, "pan": pan})
	}
	o := genSubids(255)
	o[0] = 7 // no prefix: all of it is written
	str := strings.Repeat(bigX, 1<<14)
	// the numbers of items with which 2^31 and 2^32 bytes are passed
	for _, limit := range []int{1 << 31, 1 << 32} {
		for _, fl := range []agentx.Flags{0, 16} {
			p := agentx.Pdu{Tag: pickTag(5, 6), Flags: fl, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{StartOid: o, EndOid: o}}}
			one(bigCase{p, "ranges", limit/2048 + pick(0, 0, 1, 77)})
			p = agentx.Pdu{Tag: pickTag(8, 12, 14, 15), Flags: fl, Params: agentx.NoParams{}}
			p.Varbinds = []asn.Varbind{{Oid: o, Tag: 6, Value: o}}
			one(bigCase{p, "vbs", limit/2052 + pick(1, 1, 2, 77)})
			p.Varbinds = []asn.Varbind{{Tag: 4, Value: str}}
			one(bigCase{p, "vbs", limit/(len(str)+12) + pick(1, 1, 2, 77)})
			p.Varbinds = []asn.Varbind{{Tag: 68, Value: []byte(str)}}
			one(bigCase{p, "vbs", limit/(len(str)+12) + pick(1, 1, 2, 77)})
		}
	}
	if full { // and the greatest that fit
		p := agentx.Pdu{Tag: 5, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{StartOid: o, EndOid: o}}}
		one(bigCase{p, "ranges", 1<<20 - 1})
		p = agentx.Pdu{Tag: 8, Flags: 16, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Tag: 4}}}
		one(bigCase{p, "val", 1<<31 - 16})
		one(bigCase{p, "val", 1<<31 - 15})
	}
}
