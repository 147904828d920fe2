package main

import (
	"github.com/alexispb/mygosnmp/oid"
)

// ---- C23: the k-th leaf in a range and the removal that prunes. Both are
// inside package oid; the build adds methods to reach them (harness/inside).

type kther interface {
	VerifKth(oid1, oid2 []uint32, include1 bool, k int16) *oid.Node
}
type pruner interface {
	VerifRemove(o []uint32, prune bool) bool
}

func (r *treeRun) mark(d []tnode) {
	for i := range d {
		if chance(2) {
			d[i].node.Data = i + 1
		}
	}
}

func (r *treeRun) snapMarked(marked bool) []tnode {
	d := dumpTree(r.t)
	emit(ev{"e": "snap", "dump": dumpJ(d), "marked": marked})
	return d
}

func (r *treeRun) kth(x kther, d map[*oid.Node][]uint32, a, b []uint32, inc bool, ks ...int16) {
	var rs []ev
	for _, k := range ks {
		var n *oid.Node
		pan := call(func() ev { return ev{"op": "getNextNode", "a": oidJ(a), "b": oidJ(b), "i": inc, "k": int(k)} }, func() { n = x.VerifKth(a, b, inc, k) })
		e := ev{"k": int(k), "pan": pan, "found": n != nil, "known": false}
		if n != nil {
			if o, ok := d[n]; ok {
				e["known"], e["o"] = true, oidJ(o)
			}
		}
		rs = append(rs, e)
	}
	emit(ev{"e": "kth", "a": oidJ(a), "b": oidJ(b), "i": inc, "rs": rs})
}

func (r *treeRun) removeWith(x pruner, o []uint32, prune bool) {
	before := byNode(dumpTree(r.t))
	var ok bool
	pan := call(func() ev { return ev{"op": "removeNode", "o": oidJ(o), "prune": prune} }, func() { ok = x.VerifRemove(o, prune) })
	after, same := dumpTree(r.t), true
	for _, x := range after { // the nodes that stay are the nodes that were
		was, known := before[x.node]
		same = same && known && oidEq(was, x.o)
	}
	emit(ev{"e": "remp", "o": oidJ(o), "prune": prune, "ok": ok, "pan": pan, "same": same, "dump": dumpJ(after)})
}

func byNode(d []tnode) map[*oid.Node][]uint32 {
	m := map[*oid.Node][]uint32{}
	for _, x := range d {
		m[x.node] = x.o
	}
	return m
}

func scenC23(n int) {
	made := func(os [][]uint32) (r *treeRun, x kther, y pruner) {
		r = newTreeRun()
		for _, o := range os {
			r.quietAdd(o)
		}
		root := interface{}(r.t.GetNode(nil))
		x, _ = root.(kther)
		y, _ = root.(pruner)
		return
	}
	newTreeRun().snapMarked(false)
	endSession()
	treeCases(func(c *treeCase, bounds [][]uint32) {
		r, x, y := made(c.pre())
		switch {
		case c.Op == "kth" && x != nil:
			d := byNode(r.snapMarked(false))
			for _, a := range bounds {
				for _, b := range bounds {
					if n > 10000 || chance(3) {
						r.kth(x, d, a, b, chance(2), 1, 2, 3, int16(pick(0, 4, 5, 9, -1)))
					}
				}
			}
			endSession()
		case c.Op == "prune" && y != nil:
			r.mark(dumpTree(r.t))
			r.snapMarked(true)
			r.removeWith(y, c.oid(c.O), true)
			endSession()
		}
	})
	for i := 0; i < n; i++ {
		u := genUniverse()
		r := randomTree(u, rnd.Intn(25))
		root := interface{}(r.t.GetNode(nil))
		if y, ok := root.(pruner); ok && chance(2) {
			r.mark(dumpTree(r.t))
			d := r.snapMarked(true)
			for k := 0; k < 12; k++ {
				r.removeWith(y, u.probe(d), !chance(4))
			}
		} else if x, ok := root.(kther); ok {
			l := r.snapMarked(false)
			d := byNode(l)
			for k := 0; k < 12; k++ {
				b := u.probe(l)
				if chance(3) {
					b = nil
				}
				r.kth(x, d, u.probe(l), b, chance(2), int16(1+rnd.Intn(3)), int16(1+rnd.Intn(12)), int16(pick(0, 1, 25, -1, -32768, 32767)))
			}
		}
		endSession()
	}
	for i := 0; i < n/60+4; i++ { // wide and deep
		r := newTreeRun()
		os, probes := bigTree(r)
		r, x, y := made(os)
		r.mark(dumpTree(r.t))
		l := r.snapMarked(true)
		if x != nil {
			d := byNode(l)
			for k := 0; k < 6; k++ {
				p := append(some(probes, 2), nil, nil)
				r.kth(x, d, p[0], p[rnd.Intn(len(p))], chance(2), 1, 2, int16(len(l)), int16(len(l)-1), int16(1+rnd.Intn(len(l)+1)), 127, 128, 255, 256, 257)
			}
		}
		if y != nil {
			for k := 0; k < 3; k++ {
				r.removeWith(y, l[rnd.Intn(len(l))].o, true)
			}
		}
		endSession()
	}
	for _, k := range []int{4200} { // as many leaves as the dump shows
		var os [][]uint32
		for i := 0; i < k; i++ {
			os = append(os, []uint32{1, uint32(3 * i)})
		}
		r, x, _ := made(os)
		if x == nil {
			return
		}
		d := byNode(r.snapMarked(false))
		r.kth(x, d, nil, nil, false, 1, 4095, 4096, 4097, int16(k), int16(k+1), 32767)
		r.kth(x, d, []uint32{1, 300}, nil, true, 1, 1023, 1024, 1025, int16(k-100), int16(k-99))
		r.kth(x, d, []uint32{1, 301}, []uint32{1, 9000}, true, 1, 2898, 2899, 2900)
		endSession()
	}
	// all that a repetition count can ask for: on a tree whose leaves are told apart by their sub-identifier
	r, x, _ := made(nil)
	if x == nil {
		return
	}
	var nodes []*oid.Node
	for i := uint32(0); i < 33000; i++ {
		nodes = append(nodes, r.t.AddNode([]uint32{7, i}))
	}
	m := len(nodes)
	emit(ev{"e": "snap", "dump": []ev{{"o": oidJ([]uint32{7}), "d": 0, "p": true}, {"o": oidJ([]uint32{7, 0}), "d": 0, "p": true}}, "marked": false})
	for _, k := range []int{1, 2, 255, 256, 4096, 8191, 8192, 16383, 16384, 32766, 32767} { // the k-th from m-k on is the last: as on a tree of one leaf
		var n *oid.Node
		pan := call(func() ev { return ev{"op": "getNextNode", "k": k} }, func() { n = x.VerifKth([]uint32{7, uint32(m - k)}, nil, true, int16(k)) })
		e := ev{"k": 1, "pan": pan, "found": n != nil, "known": n == nodes[m-1]}
		if n != nil {
			e["o"] = oidJ([]uint32{7, 0})
		}
		emit(ev{"e": "kth", "a": []ev{}, "b": []ev{}, "i": false, "rs": []ev{e}})
	}
	for _, k := range []int16{0, -1, -32768, -32767, -32600} { // none at all
		var n *oid.Node
		pan := call(func() ev { return ev{"op": "getNextNode", "k": int(k)} }, func() { n = x.VerifKth(nil, nil, true, k) })
		emit(ev{"e": "kth", "a": []ev{}, "b": []ev{}, "i": false, "rs": []ev{{"k": 0, "pan": pan, "found": n != nil, "known": n != nil, "o": oidJ([]uint32{7, 0})}}})
	}
	endSession()
}

func init() {
	scenarios["C23"] = scenC23
}
