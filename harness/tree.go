package main

import (
	"github.com/alexispb/mygosnmp/oid"
)

// ---- sequential OID trees (C13, C14, C15)

// treeCase is a tree and an operation on it, written by TLC (MCTree). The
// small sub-identifiers of the model are mapped, in order, to others.
type treeCase struct {
	Pre [][][]int // the leaves of the tree
	Op  string
	O   [][]int
	m   []uint32
}

var submaps = [][]uint32{{0, 1, 2, 3}, {0, 1, 0x80000000, 0xffffffff}, {5, 0x7fffffff, 0x80000000, 0x80000001}, {254, 255, 256, 65536},
	{0, 0x00ffffff, 0x01000000, 0xff000000}, {0x7ffffffe, 0x7fffffff, 0xfffffffe, 0xffffffff}, {1, 2, 1000, 1001}}

func (c *treeCase) oid(ws [][]int) []uint32 {
	o := oidOf(ws)
	for i := range o {
		o[i] = c.m[o[i]]
	}
	return o
}

// pre returns the leaves of the tree in some order.
func (c *treeCase) pre() (os [][]uint32) {
	for _, ws := range c.Pre {
		os = append(os, c.oid(ws))
	}
	rnd.Shuffle(len(os), func(i, j int) { os[i], os[j] = os[j], os[i] })
	return
}

func treeCases(f func(c *treeCase, bounds [][]uint32)) {
	var bounds [][][]int
	for _, c := range readCorpus() {
		if c.Bounds != nil {
			bounds = c.Bounds
		}
		if c.T == nil {
			continue
		}
		c.T.m = submaps[rnd.Intn(len(submaps))]
		var bs [][]uint32
		if c.T.Op == "gets" || c.T.Op == "walk" || c.T.Op == "kth" {
			for _, b := range bounds {
				bs = append(bs, c.T.oid(b))
			}
		}
		f(c.T, bs)
	}
}

type tnode struct {
	o      []uint32
	node   *oid.Node
	parent bool
}

// dumpTree walks the public fields from the root.
func dumpTree(t *oid.Tree) (l []tnode) {
	root := t.GetNode(nil)
	if root == nil {
		return
	}
	var walk func(n *oid.Node, o []uint32, depth int)
	walk = func(n *oid.Node, o []uint32, depth int) {
		if depth > 600 || len(l) > 5000 {
			return
		}
		for _, c := range n.Children {
			if c == nil {
				l = append(l, tnode{append(append([]uint32{}, o...), 0), &oid.Node{}, false})
				continue
			}
			co := append(append([]uint32{}, o...), c.Subid)
			l = append(l, tnode{co, c, c.Parent == n})
			walk(c, co, depth+1)
		}
	}
	walk(root, nil, 0)
	return
}

func dataId(v interface{}) int {
	switch x := v.(type) {
	case nil:
		return 0
	case int:
		return x
	}
	return -1
}

func dumpJ(l []tnode) []ev {
	r := make([]ev, len(l))
	for i, x := range l {
		r[i] = ev{"o": oidJ(x.o), "d": dataId(x.node.Data), "p": x.parent}
	}
	return r
}

// the OID of a node of the dump, by identity
func oidByNode(l []tnode, n *oid.Node) (o []uint32, ok bool) {
	for _, x := range l {
		if x.node == n {
			return x.o, true
		}
	}
	return nil, false
}

// genTreeOid picks from a small universe, so that OIDs meet.
type universe struct {
	subs []uint32
	max  int
}

func genUniverse() universe {
	u := universe{max: 1 + rnd.Intn(5)}
	for i := 2 + rnd.Intn(4); i > 0; i-- {
		v := uint32(rnd.Intn(6))
		switch rnd.Intn(4) {
		case 0:
			v = u32bounds[rnd.Intn(len(u32bounds))]
		case 1:
			v = rnd.Uint32()
		}
		u.subs = append(u.subs, v)
	}
	return u
}
func (u universe) oid() []uint32 {
	n := 1 + rnd.Intn(u.max)
	if chance(25) {
		n = 0
	}
	o := make([]uint32, n)
	for i := range o {
		o[i] = u.subs[rnd.Intn(len(u.subs))]
	}
	if chance(20) && n > 0 { // off the grid
		o[rnd.Intn(n)] += uint32(pick(1, 0xffffffff))
	}
	return o
}

type treeRun struct {
	t    *oid.Tree
	next int // last data id given out
	ids  map[int]*oid.Node
	// seldom: look at the whole tree only now and then. Looking at it is a
	// lookup of the root, which must not be what keeps the answers right.
	seldom bool
}

// dump adds the whole tree to an event.
func (r *treeRun) dump(e ev) {
	if !r.seldom || chance(12) {
		e["dump"] = dumpJ(dumpTree(r.t))
	}
}

// oidOfNode follows the parents of a node.
func oidOfNode(n *oid.Node) (o []uint32) {
	for k := 0; n != nil && n.Parent != nil && k < 1000; k++ {
		o = append(o, n.Subid)
		n = n.Parent
	}
	for i, j := 0, len(o)-1; i < j; i, j = i+1, j-1 {
		o[i], o[j] = o[j], o[i]
	}
	return
}

func newTreeRun() *treeRun {
	return &treeRun{t: oid.NewTree(), ids: map[int]*oid.Node{}}
}

func (r *treeRun) add(o []uint32, data bool) {
	var n *oid.Node
	pan := call(func() ev { return ev{"op": "Tree.AddNode", "o": oidJ(o)} }, func() { n = r.t.AddNode(o) })
	e := ev{"e": "add", "o": oidJ(o), "new": n != nil, "pan": pan, "d": 0, "d0": 0}
	if n != nil {
		e["d0"] = dataId(n.Data)
		if data {
			r.next++
			n.Data = r.next
			r.ids[r.next] = n
			e["d"] = r.next
		}
	}
	r.dump(e)
	emit(e)
}
func (r *treeRun) get(o []uint32) {
	var n *oid.Node
	pan := call(func() ev { return ev{"op": "Tree.GetNode", "o": oidJ(o)} }, func() { n = r.t.GetNode(o) })
	e := ev{"e": "get", "o": oidJ(o), "found": n != nil, "pan": pan, "d": 0, "same": true}
	if n != nil && len(o) > 0 {
		d := dataId(n.Data)
		e["d"] = d
		e["same"] = oidEq(oidOfNode(n), o) && (d == 0 || r.ids[d] == n)
	}
	r.dump(e)
	emit(e)
}

// pre makes the tree of a case, gets asks it for every bound.
func (r *treeRun) pre(c *treeCase) {
	r.made(c.pre())
}
func (r *treeRun) made(os [][]uint32) {
	l := make([][]B, len(os))
	bad := false
	for i, o := range os {
		l[i] = oidJ(o)
		var n *oid.Node
		pan := call(func() ev { return ev{"op": "Tree.AddNode", "o": oidJ(o)} }, func() { n = r.t.AddNode(o) })
		bad = bad || pan || n == nil
		if n != nil {
			r.next++
			n.Data = r.next
			r.ids[r.next] = n
		}
	}
	emit(ev{"e": "pre", "os": l, "pan": bad, "dump": dumpJ(dumpTree(r.t))})
}
func (r *treeRun) gets(bounds [][]uint32) {
	l := make([]ev, len(bounds))
	ns := make([]*oid.Node, len(bounds))
	for i, o := range bounds {
		i, o := i, o
		pan := call(func() ev { return ev{"op": "Tree.GetNode", "o": oidJ(o)} }, func() { ns[i] = r.t.GetNode(o) })
		l[i] = ev{"o": oidJ(o), "found": ns[i] != nil, "pan": pan, "d": 0, "same": true}
	}
	d := dumpTree(r.t)
	for i, o := range bounds {
		if n := ns[i]; n != nil && len(o) > 0 {
			l[i]["d"] = dataId(n.Data)
			no, ok := oidByNode(d, n)
			l[i]["same"] = ok && oidEq(no, o)
		}
	}
	emit(ev{"e": "gets", "rs": l, "dump": dumpJ(d)})
}
func (r *treeRun) remove(o []uint32) {
	var ok bool
	pan := call(func() ev { return ev{"op": "Tree.RemoveNode", "o": oidJ(o)} }, func() { ok = r.t.RemoveNode(o) })
	e := ev{"e": "rem", "o": oidJ(o), "ok": ok, "pan": pan}
	r.dump(e)
	emit(e)
}
func (r *treeRun) clear() {
	pan := call(func() ev { return ev{"op": "Tree.Clear"} }, func() { r.t.Clear() })
	e := ev{"e": "clear", "pan": pan}
	r.dump(e)
	emit(e)
}

func oidEq(a, b []uint32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// big is a tree of an unusual shape: wide (many children of one node, with
// gaps between them) or deep.
func bigTree(r *treeRun) (os, probes [][]uint32) {
	cat := func(a []uint32, b ...uint32) []uint32 { return append(append([]uint32{}, a...), b...) }
	if chance(3) { // deep
		d := []int{20, 33, 64, 65, 127, 128, 129, 130, 131, 160, 257}[rnd.Intn(11)]
		if d > 140 && !chance(4) {
			d = 129
		}
		var spine []uint32
		for i := 0; i < d; i++ {
			spine = append(spine, uint32(rnd.Intn(4)))
		}
		os = append(os, spine)
		for k := rnd.Intn(3); k > 0; k-- { // branches
			c := rnd.Intn(d)
			os = append(os, cat(spine[:c], spine[c]+1+uint32(rnd.Intn(2))))
		}
		for _, c := range []int{d, d - 1, d / 2, 1, rnd.Intn(d + 1), min(d, 128), min(d, 127)} {
			probes = append(probes, spine[:c], cat(spine[:c], 0), cat(spine[:c], 3))
			if c > 0 {
				probes = append(probes, cat(spine[:c-1], spine[c-1]+1))
			}
		}
		return
	}
	w := []int{7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 48, 49, 63, 64, 65, 66, 70, 100, 127, 128, 129, 200, 256, 257}[rnd.Intn(24)]
	if w > 130 && !chance(3) {
		w = 33 + rnd.Intn(60)
	}
	base := genSubids(rnd.Intn(3))
	gap := uint32(pick(1, 2, 2, 3, 100000))
	low := uint32(pick(0, 1, 0x7fffffff))
	for i := 0; i < w; i++ {
		v := low + uint32(i)*gap
		if i == w-1 && chance(3) {
			v = 0xffffffff
		}
		o := cat(base, v)
		probes = append(probes, o)
		if gap > 1 {
			probes = append(probes, cat(base, v+1))
		}
		if chance(6) {
			o = cat(o, genSubids(1+rnd.Intn(2))...)
		}
		os = append(os, o)
	}
	probes = append(probes, base, cat(base, 0), cat(base, 0xffffffff), cat(base, low+uint32(w)*gap))
	switch rnd.Intn(3) {
	case 0:
		rnd.Shuffle(len(os), func(i, j int) { os[i], os[j] = os[j], os[i] })
	case 1:
		for i, j := 0, len(os)-1; i < j; i, j = i+1, j-1 {
			os[i], os[j] = os[j], os[i]
		}
	}
	return
}

// some returns k of the OIDs, the last one most of the time.
func some(os [][]uint32, k int) (r [][]uint32) {
	for i := 0; i < k; i++ {
		r = append(r, os[rnd.Intn(len(os))])
	}
	if len(os) > 0 && !chance(4) {
		r = append(r, os[len(os)-1])
	}
	return
}

func scenC13(n int) {
	treeCases(func(c *treeCase, bounds [][]uint32) {
		if c.Op == "walk" {
			return
		}
		r := newTreeRun()
		r.pre(c)
		switch c.Op {
		case "add":
			r.add(c.oid(c.O), true)
		case "rem":
			r.remove(c.oid(c.O))
		case "clear":
			r.clear()
		case "gets":
			r.gets(bounds)
		}
		endSession()
	})
	for i := 0; i < n; i++ {
		r := newTreeRun()
		r.seldom = chance(2)
		u := genUniverse()
		rem := pick(1, 2, 4)
		for k := 10 + rnd.Intn(25); k > 0; k-- {
			switch x := rnd.Intn(20); {
			case x < 10:
				r.add(u.oid(), !chance(4))
			case x < 14:
				r.get(u.oid())
			case x < 14+rem:
				r.remove(u.oid())
			case x == 19 && chance(3):
				r.clear()
			default:
				r.add(u.oid(), true)
			}
		}
		r.gets([][]uint32{u.oid(), u.oid(), u.oid()})
		endSession()
	}
	for i := 0; i < n/25+1; i++ { // big trees: looked up, thinned out, refilled
		r := newTreeRun()
		r.seldom = chance(2)
		os, probes := bigTree(r)
		r.made(os)
		r.gets(probes)
		for k := 4 + rnd.Intn(8); k > 0; k-- {
			o := probes[rnd.Intn(len(probes))]
			switch x := rnd.Intn(8); {
			case x < 4:
				r.remove(o)
				if chance(2) {
					r.gets(some(probes, 8))
				}
				if chance(3) {
					r.add(o, true)
				}
			case x < 7:
				r.add(o, true)
			default:
				r.get(o)
			}
		}
		r.gets(probes)
		endSession()
	}
	for i := 0; i < n/8+1; i++ { // look up, take away above or beside, look up again
		r := newTreeRun()
		r.seldom = !chance(4)
		u := genUniverse()
		u.max = 2 + rnd.Intn(4)
		var os [][]uint32
		for k := 3 + rnd.Intn(4); k > 0; k-- {
			o := u.oid()
			os = append(os, o)
			r.add(o, true)
		}
		for k := 2 + rnd.Intn(4); k > 0; k-- {
			o := os[rnd.Intn(len(os))]
			r.get(o)
			p := o[:rnd.Intn(len(o)+1)]
			r.remove(p)
			r.get(o)
			if chance(2) {
				r.get(p)
			}
			if chance(2) {
				r.add(o, !chance(3))
				r.get(o)
			}
			if chance(8) {
				r.clear()
				r.get(o)
			}
		}
		r.gets(os)
		endSession()
	}
	for i := 0; i < n/20+1; i++ { // wide and deep
		r := newTreeRun()
		base := genSubids(pick(0, 1, 40))
		for k := 0; k < 40; k++ {
			r.add(append(append([]uint32{}, base...), uint32(rnd.Intn(60))), true)
			if k%7 == 3 {
				r.remove(append(append([]uint32{}, base...), uint32(rnd.Intn(60))))
			}
		}
		endSession()
	}
	grownC13(n/20+24, growTop(n))
}

// growTop: the widest and deepest trees.
func growTop(n int) int {
	if n > 20000 {
		return 1000000
	}
	return 70000
}

func (r *treeRun) snap() []tnode {
	d := dumpTree(r.t)
	emit(ev{"e": "snap", "dump": dumpJ(d)})
	return d
}

func (r *treeRun) nextRes(d []tnode, a, b []uint32, inc bool) ev {
	var n *oid.Node
	pan := call(func() ev { return ev{"op": "Tree.GetNextNode", "a": oidJ(a), "b": oidJ(b), "i": inc} }, func() { n = r.t.GetNextNode(a, b, inc) })
	e := ev{"b": oidJ(b), "pan": pan, "found": n != nil, "known": false}
	if n != nil {
		o, ok := oidByNode(d, n)
		e["known"] = ok
		if ok {
			e["o"] = oidJ(o)
		}
	}
	return e
}
func (r *treeRun) nextEv(d []tnode, a, b []uint32, inc bool) {
	e := r.nextRes(d, a, b, inc)
	e["e"], e["a"], e["i"] = "next", oidJ(a), inc
	emit(e)
}

// probe makes a bound around the tree: a node, a prefix, an extension, a
// neighbour, nothing.
func (u universe) probe(d []tnode) []uint32 {
	var o []uint32
	if len(d) > 0 && !chance(5) {
		o = append([]uint32{}, d[rnd.Intn(len(d))].o...)
	} else {
		o = u.oid()
	}
	switch rnd.Intn(8) {
	case 0:
		o = o[:rnd.Intn(len(o)+1)]
	case 1, 2:
		o = append(o, uint32(pick(0, 1, 2, 0xffffffff, 3)))
	case 3:
		o = append(o, 0, 1)
	case 4:
		if len(o) > 0 {
			o[rnd.Intn(len(o))] += uint32(pick(1, 0xffffffff))
		}
	case 5:
		if chance(2) {
			if chance(2) {
				return nil
			}
			return []uint32{}
		}
	}
	return o
}

// quietAdd and quietRemove build a tree for a scenario that looks at something
// else: what they return is not judged there.
func (r *treeRun) quietAdd(o []uint32) {
	call(func() ev { return ev{"op": "Tree.AddNode", "o": oidJ(o)} }, func() {
		if n := r.t.AddNode(o); n != nil {
			r.next++
			n.Data = r.next
		}
	})
}
func (r *treeRun) quietRemove(o []uint32) {
	call(func() ev { return ev{"op": "Tree.RemoveNode", "o": oidJ(o)} }, func() { r.t.RemoveNode(o) })
}

func randomTree(u universe, k int) *treeRun {
	r := newTreeRun()
	for ; k > 0; k-- {
		o := u.oid()
		switch rnd.Intn(8) {
		case 0:
			r.quietRemove(o)
		default:
			r.quietAdd(o)
		}
	}
	return r
}

func scenC14(n int) {
	share := 6 // of the bounds of a case, one in share is asked in the quick tier
	if n > 10000 {
		share = 1
	}
	treeCases(func(c *treeCase, bounds [][]uint32) {
		if c.Op != "walk" {
			return
		}
		r := newTreeRun()
		for _, o := range c.pre() {
			r.quietAdd(o)
		}
		d := r.snap()
		for _, a := range bounds { // every pair of bounds
			for _, inc := range []bool{false, true} {
				if !chance(share) {
					continue
				}
				rs := make([]ev, len(bounds))
				for i, b := range bounds {
					rs[i] = r.nextRes(d, a, b, inc)
				}
				emit(ev{"e": "nexts", "a": oidJ(a), "i": inc, "rs": rs})
			}
		}
		endSession()
	})
	for i := 0; i < n; i++ {
		u := genUniverse()
		r := randomTree(u, rnd.Intn(25))
		d := r.snap()
		for k := 0; k < 40; k++ {
			b := u.probe(d)
			if chance(3) {
				b = nil
			}
			r.nextEv(d, u.probe(d), b, chance(2))
		}
		endSession()
	}
	for i := 0; i < n/40+1; i++ {
		r := newTreeRun()
		os, probes := bigTree(r)
		for _, o := range os {
			r.quietAdd(o)
		}
		if chance(3) {
			for _, o := range some(os, len(os)/4) {
				r.quietRemove(o)
			}
		}
		d := r.snap()
		for k := 0; k < 6; k++ {
			a, inc := probes[rnd.Intn(len(probes))], chance(2)
			bs := append(some(probes, 6), nil)
			rs := make([]ev, len(bs))
			for i, b := range bs {
				rs[i] = r.nextRes(d, a, b, inc)
			}
			emit(ev{"e": "nexts", "a": oidJ(a), "i": inc, "rs": rs})
		}
		endSession()
	}
	grownC14(n/20+24, growTop(n))
}

func scenC15(n int) {
	walk := func(r *treeRun) {
		d := r.snap()
		type visit struct {
			o, copy []uint32
			n       *oid.Node
		}
		var vs []visit
		pan := call(func() ev { return ev{"op": "Tree.ForRangeLeaves", "dump": dumpJ(d)} }, func() {
			r.t.ForRangeLeaves(func(o []uint32, n *oid.Node) {
				if len(vs) < 5000 {
					vs = append(vs, visit{o, append([]uint32{}, o...), n})
				}
			})
		})
		l := make([]ev, len(vs))
		for i, v := range vs {
			no, ok := oidByNode(d, v.n)
			l[i] = ev{"o": oidJ(v.copy), "after": oidJ(v.o), "same": ok && oidEq(no, v.copy)}
		}
		emit(ev{"e": "walk", "vs": l, "pan": pan})
		// next, next, next from nothing
		var chain [][]B
		var at []uint32
		pan = call(func() ev { return ev{"op": "Tree.GetNextNode chain", "dump": dumpJ(d)} }, func() {
			for k := 0; k <= len(d)+2; k++ {
				n := r.t.GetNextNode(at, nil, false)
				if n == nil {
					break
				}
				o, ok := oidByNode(d, n)
				if !ok {
					o = nil
				}
				at = o
				chain = append(chain, oidJ(o))
			}
		})
		if chain == nil {
			chain = [][]B{}
		}
		emit(ev{"e": "chain", "os": chain, "pan": pan})
	}
	treeCases(func(c *treeCase, bounds [][]uint32) {
		if c.Op != "walk" {
			return
		}
		r := newTreeRun()
		for _, o := range c.pre() {
			r.quietAdd(o)
		}
		walk(r)
		endSession()
	})
	for i := 0; i < n; i++ {
		u := genUniverse()
		r := newTreeRun()
		for k := 1 + rnd.Intn(4); k > 0; k-- {
			for j := rnd.Intn(14); j > 0; j-- {
				o := u.oid()
				if chance(6) {
					r.quietRemove(o)
				} else {
					r.quietAdd(o)
				}
			}
			if chance(15) {
				call(func() ev { return ev{"op": "Tree.Clear"} }, r.t.Clear)
			}
			walk(r)
		}
		endSession()
	}
	for i := 0; i < n/60+1; i++ {
		r := newTreeRun()
		os, _ := bigTree(r)
		for _, o := range os {
			r.quietAdd(o)
		}
		walk(r)
		if chance(2) {
			for _, o := range some(os, len(os)/4) {
				r.quietRemove(o)
			}
			walk(r)
		}
		endSession()
	}
	for i := 0; i < n/50+1; i++ { // wide
		r := newTreeRun()
		base := genSubids(pick(0, 1, 30))
		for k := 0; k < 60; k++ {
			r.quietAdd(append(append([]uint32{}, base...), genSubids(1+rnd.Intn(2))...))
		}
		walk(r)
		endSession()
	}
	grownC15(n/20+24, growTop(n))
}

func init() {
	scenarios["C13"] = scenC13
	scenarios["C14"] = scenC14
	scenarios["C15"] = scenC15
}
