package main

import (
	"github.com/alexispb/mygosnmp/oid"
)

// ---- large OID trees as images of small ones (see spec/MCGrow.tla)
//
// A growth makes large OIDs out of small ones: each sub-identifier stands for a
// block of them, of which it is the first, and some stand, as the last one of
// an OID, for a crowd of brothers that have no children. The questions put to
// the large tree are recorded as the questions about the small one that they
// are; whatever the large tree shows that is no image of a small one is
// recorded as a node that cannot be.
type growth struct {
	subs  []uint32 // in order
	block map[uint32][]uint32
	crowd map[uint32]crowd
	off   uint32 // a sub-identifier that is not in the tree
}
type crowd struct {
	n   int
	gap uint32
}

func (c crowd) at(f uint32, i int) uint32 { return f + c.gap*uint32(i) }

var growSizes = []int{2, 3, 8, 9, 33, 64, 65, 66, 100, 127, 128, 129, 130, 255, 256, 257, 500, 513, 600, 1000, 1001, 1023, 1024, 1025,
	1500, 2000, 2001, 2049, 3000, 4095, 4096, 4097, 5000}

// genGrowth: budget is what the largest crowd may be, deep the largest block.
func genGrowth(budget, deep int) (g growth) {
	size := func() int {
		for {
			if n := growSizes[rnd.Intn(len(growSizes))]; n <= budget {
				return n
			}
			if chance(20) {
				return budget
			}
		}
	}
	g.block, g.crowd = map[uint32][]uint32{}, map[uint32]crowd{}
	kinds := []int{0, 0, 0, 0} // lengths of blocks, negative: of crowds
	kinds = kinds[:2+rnd.Intn(3)]
	for i := range kinds {
		kinds[i] = pick(1, 1, 2)
	}
	big := budget
	if budget <= 5000 && chance(2) {
		big = size()
	}
	at := rnd.Intn(len(kinds))
	shape := rnd.Intn(3)
	if budget > 5000 {
		shape = rnd.Intn(2)
	}
	switch shape {
	case 0:
		kinds[at] = min(big, deep)
	case 1:
		kinds[at] = -big
	default:
		kinds[at] = -size()
		kinds[(at+1)%len(kinds)] = pick(-size(), min(size(), deep), 1)
	}
	pos, width := uint64(0), []uint64{}
	var starts []uint64
	for _, k := range kinds {
		gap := uint64(1)
		w := uint64(1)
		if k < 0 {
			gap = uint64(pick(1, 1, 2, 1000))
			w = uint64(-k-1)*gap + 1
		}
		starts, width = append(starts, pos), append(width, gap)
		pos += w + uint64(pick(0, 0, 1, 1000))
	}
	base := uint64(0)
	switch rnd.Intn(4) {
	case 0:
		base = 1<<32 - pos
	case 1:
		base = 0x7fffffff - pos/2
	case 2:
		base = uint64(rnd.Intn(1000))
	}
	for i, k := range kinds {
		s := uint32(base + starts[i])
		g.subs = append(g.subs, s)
		if k < 0 {
			g.crowd[s] = crowd{-k, uint32(width[i])}
			continue
		}
		b := make([]uint32, k)
		fill := uint32(pick(0, 1, int(s), 0xffffffff))
		for j := range b {
			if b[j] = fill; chance(3) {
				b[j] = uint32(rnd.Intn(4))
			}
		}
		b[0] = s
		g.block[s] = b
	}
	g.off = uint32(base - 1) // the one before the first, or 2^32-1
	if base == 0 {
		g.off = 0xffffffff
	}
	return
}

func (g *growth) isCrowd(o []uint32) (crowd, bool) {
	if len(o) == 0 {
		return crowd{}, false
	}
	c, ok := g.crowd[o[len(o)-1]]
	return c, ok
}

// large is the image of an OID; a crowd inside it is its last brother.
func (g *growth) large(o []uint32) (r []uint32) {
	for _, s := range o {
		if b, ok := g.block[s]; ok {
			r = append(r, b...)
		} else if c, ok := g.crowd[s]; ok {
			r = append(r, c.at(s, c.n-1))
		} else {
			r = append(r, s)
		}
	}
	return
}

// members are the images of an OID, in order; they share memory.
func (g *growth) members(o []uint32, f func(i int, m []uint32)) {
	c, ok := g.isCrowd(o)
	if !ok {
		f(0, g.large(o))
		return
	}
	m := append(g.large(o[:len(o)-1]), 0)
	for i := 0; i < c.n; i++ {
		m[len(m)-1] = c.at(o[len(o)-1], i)
		f(i, m)
	}
}

// cut is where the subtree of o is cut off.
func (g *growth) cut(o []uint32) (m []uint32) {
	return append(g.large(o[:len(o)-1]), o[len(o)-1])
}

// bound makes the bound of a search: brother 0 of a crowd or its last one.
func (g *growth) bound(o []uint32, first bool) []uint32 {
	if _, ok := g.isCrowd(o); ok && first {
		return g.cut(o)
	}
	if o == nil {
		return nil
	}
	return append([]uint32{}, g.large(o)...)
}

// small finds the OID that m is the image of, and which one (of a crowd).
func (g *growth) small(m []uint32) (o []uint32, i int, ok bool) {
	for len(m) > 0 {
		s := m[0]
		if b, is := g.block[s]; is {
			if len(m) < len(b) || !oidEq(m[:len(b)], b) {
				return nil, 0, false
			}
			o, m = append(o, s), m[len(b):]
			continue
		}
		for f, c := range g.crowd {
			if len(m) == 1 && s >= f && (s-f)%c.gap == 0 && int((s-f)/c.gap) < c.n {
				return append(o, f), int((s - f) / c.gap), true
			}
		}
		return nil, 0, false
	}
	return o, 0, true
}

type growRun struct {
	growth
	t      *oid.Tree
	next   int
	max    int          // length of the OIDs
	added  []([]uint32) // some OIDs that were added
	taking bool         // a crowd is being removed
	order  int          // in which brothers are added and removed
	what   ev
}

func newGrowRun(budget, deep int) *growRun {
	r := &growRun{growth: genGrowth(budget, deep), t: oid.NewTree(), max: 1 + rnd.Intn(3), order: rnd.Intn(3)}
	var bs, cs []int
	for _, s := range r.subs {
		bs = append(bs, len(r.block[s]))
		cs = append(cs, r.crowd[s].n)
	}
	r.what = ev{"blocks": bs, "crowds": cs, "order": r.order}
	return r
}

func (r *growRun) oid() (o []uint32) {
	for n := 1 + rnd.Intn(r.max); n > 0; n-- {
		s := r.subs[rnd.Intn(len(r.subs))]
		o = append(o, s)
		if _, ok := r.crowd[s]; ok {
			break
		}
	}
	return
}

// probe is a bound of a search.
func (r *growRun) probe() []uint32 {
	o := r.oid()
	if len(r.added) > 0 && !chance(4) {
		o = append([]uint32{}, r.added[rnd.Intn(len(r.added))]...)
	}
	switch rnd.Intn(8) {
	case 0:
		o = o[:rnd.Intn(len(o)+1)]
	case 1:
		o = append(o, uint32(pick(0, int(r.off), 0xffffffff)))
	case 2:
		o[len(o)-1] = r.off
	case 3:
		if chance(3) {
			return nil
		}
	}
	// sub-identifiers inside a crowd would not be outside of it
	for i, s := range o {
		for f, c := range r.crowd {
			if s > f && s <= c.at(f, c.n-1) {
				return o[:i]
			}
		}
	}
	return o
}

// each calls f for the images of o, in the order of the run.
func (r *growRun) each(o []uint32, f func(m []uint32)) {
	c, ok := r.isCrowd(o)
	if !ok {
		f(r.large(o))
		return
	}
	m := append(r.large(o[:len(o)-1]), 0)
	step, n := 1, c.n
	switch {
	case r.order == 1 && n > 10000: // not all of them in one go to the front
		step = 1
	case r.order == 1:
		step = n - 1
	case r.order == 2:
		for step = 7919; n%7919 == 0; step += 2 {
		}
		if n > 10000 {
			step = 1
		}
	}
	first := 0
	if r.taking && n > 100000 { // from the end, or half of the rest moves each time
		first, step = n-1, n-1
	}
	for k, i := 0, first; k < n; k++ {
		m[len(m)-1] = c.at(o[len(o)-1], i)
		alive() // each is a call of its own
		f(m)
		i = (i + step) % n
	}
}

func (r *growRun) call(op string, o []uint32, f func()) bool {
	return call(func() ev { return ev{"op": op, "o": oidJ(o), "grown": r.what} }, f)
}

// votes: did all say yes?
type votes struct{ yes, no int }

func (v *votes) add(b bool) {
	if b {
		v.yes++
	} else {
		v.no++
	}
}
func (v votes) mixed() bool { return v.yes > 0 && v.no > 0 }

func (r *growRun) addNode(o []uint32) ev {
	var v votes
	d, d0 := 0, 0
	pan := r.call("Tree.AddNode", o, func() {
		r.each(o, func(m []uint32) {
			n := r.t.AddNode(m)
			v.add(n != nil)
			if n != nil {
				if x := dataId(n.Data); x != 0 {
					d0 = x
				}
				d = r.next + 1
				n.Data = d
			}
		})
	})
	if v.yes > 0 {
		r.next++
		r.added = append(r.added, o)
	}
	return ev{"e": "add", "o": oidJ(o), "new": v.yes > 0, "pan": pan || v.mixed(), "d": d, "d0": d0}
}
func (r *growRun) getNode(o []uint32) ev {
	var v votes
	d, same := -2, true
	var up *oid.Node
	pan := r.call("Tree.GetNode", o, func() {
		r.members(o, func(i int, m []uint32) {
			alive()
			n := r.t.GetNode(m)
			v.add(n != nil)
			if n == nil || len(m) == 0 {
				return
			}
			if x := dataId(n.Data); d == -2 {
				d = x
			} else if d != x {
				d = -1
			}
			if i == 0 {
				up = n.Parent
				same = same && isAt(n, m)
			}
			same = same && n.Parent == up && n.Subid == m[len(m)-1]
		})
	})
	if d == -2 {
		d = 0
	}
	return ev{"e": "get", "o": oidJ(o), "found": v.yes > 0, "pan": pan || v.mixed(), "d": d, "same": same}
}
func (r *growRun) removeNode(o []uint32) ev {
	var v votes
	pan := r.call("Tree.RemoveNode", o, func() {
		if _, ok := r.isCrowd(o); ok {
			r.taking = true
			r.each(o, func(m []uint32) { v.add(r.t.RemoveNode(m)) })
			r.taking = false
		} else {
			v.add(r.t.RemoveNode(r.cut(o)))
		}
	})
	return ev{"e": "rem", "o": oidJ(o), "ok": v.yes > 0, "pan": pan || v.mixed()}
}

// isAt: following the parents of n gives the OID m.
func isAt(n *oid.Node, m []uint32) bool {
	for i := len(m) - 1; i >= 0; i-- {
		if n == nil || n.Subid != m[i] {
			return false
		}
		n = n.Parent
	}
	return n != nil && n.Parent == nil
}

type place struct {
	at int // in the dump
	i  int // of a crowd
}

// dump reads the large tree as a small one. What cannot be read shows as a node
// with a datum that nobody has stored.
func (r *growRun) dump() (l []tnode, places map[*oid.Node]place) {
	places = map[*oid.Node]place{}
	root := r.t.GetNode(nil)
	if root == nil {
		return
	}
	bad := func(o []uint32, n *oid.Node) {
		if len(l) < 2000 {
			l = append(l, tnode{append(append([]uint32{}, o...), n.Subid), &oid.Node{Data: "odd"}, false})
		}
	}
	var walk func(n *oid.Node, o []uint32, depth int)
	walk = func(n *oid.Node, o []uint32, depth int) {
		for i := 0; i < len(n.Children); i++ {
			c := n.Children[i]
			if c == nil || depth > 20 {
				bad(o, &oid.Node{})
				continue
			}
			s := c.Subid
			co := append(append([]uint32{}, o...), s)
			if cr, ok := r.crowd[s]; ok {
				good, parent := i+cr.n <= len(n.Children), true
				for k := 0; k < cr.n && good; k++ {
					x := n.Children[i+k]
					good = x != nil && x.Subid == cr.at(s, k) && len(x.Children) == 0 && x.Data == c.Data
					if good {
						parent = parent && x.Parent == n
						places[x] = place{len(l), k}
					}
				}
				if !good {
					bad(o, c)
					continue
				}
				l = append(l, tnode{co, c, parent})
				i += cr.n - 1
				continue
			}
			b, ok := r.block[s]
			if !ok {
				bad(o, c)
				continue
			}
			parent := c.Parent == n
			for _, v := range b[1:] {
				if ok = ok && len(c.Children) == 1 && c.Children[0] != nil && c.Children[0].Subid == v && c.Data == nil; !ok {
					break
				}
				parent = parent && c.Children[0].Parent == c
				c = c.Children[0]
			}
			if !ok {
				bad(o, c)
				continue
			}
			places[c] = place{len(l), 0}
			l = append(l, tnode{co, c, parent})
			walk(c, co, depth+1)
		}
	}
	walk(root, nil, 0)
	return
}

func (r *growRun) withDump(e ev) {
	if chance(3) {
		l, _ := r.dump()
		e["dump"] = dumpJ(l)
	}
	e["grown"] = r.what
	emit(e)
}

// grownTrees: sizes as they come, and some of the largest.
func grownTrees(n, top, deep int, f func(r *growRun)) {
	for i := 0; i < n; i++ {
		budget := growSizes[len(growSizes)-1-rnd.Intn(14)]
		if i%24 == 5 {
			budget = top
		}
		f(newGrowRun(budget, deep))
		endSession()
	}
}

func grownC13(n, top int) {
	grownTrees(n, top, 70000, func(r *growRun) {
		for k := 8 + rnd.Intn(8); k > 0; k-- {
			o := r.oid()
			if len(r.added) > 0 && chance(2) {
				o = r.added[rnd.Intn(len(r.added))]
			}
			switch x := rnd.Intn(10); {
			case x < 5:
				r.withDump(r.addNode(o))
			case x < 7:
				r.withDump(r.getNode(o))
			default:
				r.withDump(r.removeNode(o))
			}
		}
		if chance(4) {
			r.withDump(ev{"e": "clear", "pan": r.call("Tree.Clear", nil, r.t.Clear)})
			r.withDump(r.addNode(r.oid()))
		}
		l := []ev{}
		for k := 0; k < 6; k++ {
			l = append(l, r.getNode(r.probe()))
		}
		d, _ := r.dump()
		emit(ev{"e": "gets", "rs": l, "dump": dumpJ(d), "grown": r.what})
	})
}

func (r *growRun) fill() {
	for k := 2 + rnd.Intn(8); k > 0; k-- {
		r.addNode(r.oid())
	}
	if chance(3) && len(r.added) > 0 {
		r.removeNode(r.added[rnd.Intn(len(r.added))])
	}
}

func (r *growRun) snap() ([]tnode, map[*oid.Node]place) {
	d, places := r.dump()
	emit(ev{"e": "snap", "dump": dumpJ(d), "grown": r.what})
	return d, places
}

// nextOf asks for the leaf after a and before b.
func (r *growRun) nextOf(d []tnode, places map[*oid.Node]place, a, b []uint32, inc bool) (e ev, o []uint32) {
	var n *oid.Node
	la, lb := r.bound(a, inc), r.bound(b, true)
	pan := r.call("Tree.GetNextNode", a, func() { n = r.t.GetNextNode(la, lb, inc) })
	e = ev{"b": oidJ(b), "pan": pan, "found": n != nil, "known": false}
	if n != nil {
		if p, ok := places[n]; ok && p.i == 0 { // the first of a crowd
			o = d[p.at].o
			e["known"], e["o"] = true, oidJ(o)
		}
	}
	return
}

func grownC14(n, top int) {
	grownTrees(n, top, 70000, func(r *growRun) {
		r.fill()
		d, places := r.snap()
		for k := 0; k < 8; k++ {
			a, inc := r.probe(), chance(2)
			rs := []ev{}
			for _, b := range [][]uint32{nil, r.probe(), r.probe(), r.probe()} {
				e, _ := r.nextOf(d, places, a, b, inc)
				rs = append(rs, e)
			}
			emit(ev{"e": "nexts", "a": oidJ(a), "i": inc, "rs": rs, "grown": r.what})
		}
	})
}

func grownC15(n, top int) {
	grownTrees(n, top, 12000, func(r *growRun) {
		r.fill()
		d, places := r.snap()
		type visit struct {
			raw  []uint32
			o    []uint32
			same bool
		}
		var vs []visit
		left, total := 0, 0 // brothers of the crowd that are still to come
		pan := r.call("Tree.ForRangeLeaves", nil, func() {
			r.t.ForRangeLeaves(func(raw []uint32, n *oid.Node) {
				if total++; total > 3000000 {
					return
				}
				o, i, ok := r.small(raw)
				p, known := places[n]
				same := known && ok && p.i == i && oidEq(d[p.at].o, o)
				if left > 0 {
					last := &vs[len(vs)-1]
					if ok && oidEq(o, last.o) && i == r.crowd[o[len(o)-1]].n-left {
						left--
						last.same = last.same && same
						return
					}
					last.same, left = false, 0
				}
				if c, is := r.isCrowd(o); ok && is {
					left = c.n - 1
					same = same && i == 0
				}
				if !ok {
					o = []uint32{}
				}
				if len(vs) < 3000 {
					vs = append(vs, visit{raw, o, same})
				}
			})
		})
		l := make([]ev, len(vs))
		for i, v := range vs {
			after, _, ok := r.small(v.raw)
			if !ok {
				after = []uint32{}
			}
			l[i] = ev{"o": oidJ(v.o), "after": oidJ(after), "same": v.same}
		}
		emit(ev{"e": "walk", "vs": l, "pan": pan || left > 0, "grown": r.what})
		chain := [][]B{}
		var at []uint32
		for k := 0; k <= len(d)+2; k++ {
			e, o := r.nextOf(d, places, at, nil, false)
			pan = pan || e["pan"].(bool)
			if e["found"] != true {
				break
			}
			chain = append(chain, oidJ(o))
			at = o
			if o == nil {
				break
			}
		}
		emit(ev{"e": "chain", "os": chain, "pan": pan, "grown": r.what})
	})
}
