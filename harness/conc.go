package main

import (
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/alexispb/mygosnmp/oid"
)

// ---- C16: concurrent histories of one tree

type hop struct {
	proc     int
	op       string
	o, a, b  []uint32
	inc      bool
	inv, ret int64
	pan      bool
	yes      bool // new / found / ok
	node     *oid.Node
	walk     [][]uint32
}

type hist struct {
	t     *oid.Tree
	clock int64
	ops   []*hop
	mu    sync.Mutex
	roots []*oid.Node
	made  map[*oid.Node][]uint32
}

func newHist() *hist {
	h := &hist{t: oid.NewTree(), made: map[*oid.Node][]uint32{}}
	h.roots = append(h.roots, h.t.GetNode(nil))
	return h
}

// run makes one call; during is called by the visitor of a walk.
func (h *hist) run(x *hop, during func(k int)) {
	defer func() {
		if r := recover(); r != nil {
			x.pan = true
		}
		if x.ret == 0 {
			x.ret = atomic.AddInt64(&h.clock, 1)
		}
	}()
	x.inv = atomic.AddInt64(&h.clock, 1)
	switch x.op {
	case "add":
		x.node = h.t.AddNode(x.o)
		x.yes = x.node != nil
	case "get":
		x.yes = h.t.GetNode(x.o) != nil
	case "rem":
		x.yes = h.t.RemoveNode(x.o)
	case "clear":
		h.t.Clear()
	case "next":
		x.node = h.t.GetNextNode(x.a, x.b, x.inc)
		x.yes = x.node != nil
	case "walk":
		k := 0
		h.t.ForRangeLeaves(func(o []uint32, n *oid.Node) {
			if len(x.walk) < 1000 {
				x.walk = append(x.walk, append([]uint32{}, o...))
			}
			if during != nil {
				during(k)
			}
			k++
		})
	}
	x.ret = atomic.AddInt64(&h.clock, 1)
}

// path follows the parent links to a known root, after all calls are over.
func (h *hist) path(n *oid.Node) (o []uint32, ok bool) {
	if o, ok = h.made[n]; ok {
		return
	}
	var r []uint32
	for k := 0; n != nil && k < 100; k++ {
		for _, root := range h.roots {
			if n == root {
				for i := len(r) - 1; i >= 0; i-- {
					o = append(o, r[i])
				}
				return o, true
			}
		}
		r = append(r, n.Subid)
		n = n.Parent
	}
	return nil, false
}

// finish writes the history, ordered by the clock, and the final tree.
func (h *hist) finish() {
	h.roots = append(h.roots, h.t.GetNode(nil))
	for _, x := range h.ops {
		if x.op == "add" && x.node != nil {
			h.made[x.node] = x.o
		}
	}
	type stamp struct {
		at int64
		x  *hop
		r  bool
	}
	var st []stamp
	for _, x := range h.ops {
		st = append(st, stamp{x.inv, x, false}, stamp{x.ret, x, true})
	}
	sort.Slice(st, func(i, j int) bool { return st[i].at < st[j].at })
	for _, s := range st {
		if s.r {
			emit(ev{"e": "ret", "proc": s.x.proc, "pan": s.x.pan})
			continue
		}
		x := s.x
		e := ev{"e": "inv", "proc": x.proc, "op": x.op, "o": oidJ(x.o), "a": oidJ(x.a), "b": oidJ(x.b), "i": x.inc,
			"yes": x.yes, "known": false, "r": []B{}, "walk": [][]B{}}
		if x.op == "next" && x.node != nil {
			if o, ok := h.path(x.node); ok {
				e["known"], e["r"] = true, oidJ(o)
			}
		}
		w := make([][]B, len(x.walk))
		for i, o := range x.walk {
			w[i] = oidJ(o)
		}
		e["walk"] = w
		emit(e)
	}
	emit(ev{"e": "final", "dump": dumpJ(dumpTree(h.t))})
	endSession()
}

func (h *hist) seq(op string, o []uint32) {
	x := &hop{proc: 1, op: op, o: o}
	h.ops = append(h.ops, x)
	h.run(x, nil)
}

func spin(k int) {
	for ; k > 0; k-- {
		runtime.Gosched()
	}
}

func randomHist(procs, perProc int) {
	h := newHist()
	u := universe{subs: []uint32{1, 2, 3}[:2+rnd.Intn(2)], max: 1 + rnd.Intn(3)}
	if chance(5) {
		u.subs = append(u.subs, 0xffffffff)
	}
	if chance(25) { // many children
		u.max = 2
		for i := uint32(4); i < 40; i++ {
			u.subs = append(u.subs, i)
		}
		for k := 30; k > 0; k-- {
			h.seq("add", []uint32{u.subs[rnd.Intn(len(u.subs))]})
		}
	}
	for k := rnd.Intn(7); k > 0; k-- {
		h.seq("add", u.oid())
	}
	mix := rnd.Intn(4)
	hot := u.oid()
	gen := func() *hop {
		x := &hop{o: u.oid()}
		k := rnd.Intn(20)
		if mix == 0 { // everybody fights for one OID
			x.o = hot
			k = pick(0, 0, 0, 8, 8, 10)
		}
		if mix == 1 { // traversals against writers
			k = pick(0, 8, 17, 17, 14)
		}
		switch {
		case k < 8:
			x.op = "add"
		case k < 10:
			x.op = "rem"
		case k < 13:
			x.op = "get"
		case k < 16:
			x.op = "next"
			x.a, x.inc = u.oid(), chance(2)
			if chance(3) {
				x.a = nil
			}
			if chance(3) {
				x.b = u.oid()
			}
		case k < 19:
			x.op = "walk"
		default:
			x.op = "clear"
		}
		return x
	}
	var ready int32
	var wg sync.WaitGroup
	for p := 1; p <= procs; p++ {
		var mine []*hop
		var pause []int
		for k := 0; k < perProc; k++ {
			x := gen()
			x.proc = p
			mine = append(mine, x)
			pause = append(pause, pick(0, 0, 0, 1, 3))
		}
		h.ops = append(h.ops, mine...)
		slow := chance(2)
		wg.Add(1)
		go func() {
			defer wg.Done()
			atomic.AddInt32(&ready, 1)
			for k := 0; atomic.LoadInt32(&ready) < int32(procs); k++ {
				if k > 200 {
					runtime.Gosched()
				}
			}
			for i, x := range mine {
				h.run(x, func(int) {
					if slow {
						spin(2)
					}
				})
				spin(pause[i])
			}
		}()
	}
	call(func() ev { return ev{"op": "concurrent tree calls"} }, wg.Wait)
	h.finish()
}

// interruptedWalk stops a traversal inside its visitor and lets a writer try
// to change the tree behind and then ahead of it.
func interruptedWalk(wide bool) {
	h := newHist()
	a, b := uint32(1+rnd.Intn(3)), uint32(5+rnd.Intn(3))
	pre := [][]uint32{{a, 1}, {a, 3}, {4, 2}, {b, 1}, {b, 3}}
	for _, o := range pre {
		h.seq("add", o)
	}
	leaves := 5
	if wide { // many leaves between the two ends
		n := pick(12, 20, 36, 70)
		for i := 0; i < n; i++ {
			o := []uint32{4, 10 + uint32(i)}
			if chance(3) {
				o = append(o, uint32(rnd.Intn(3)))
			}
			h.seq("add", o)
		}
		leaves += n
	}
	at := rnd.Intn(leaves)
	var writes []*hop
	switch rnd.Intn(4) {
	case 0: // add behind, then ahead
		at = 1 + rnd.Intn(leaves-3)
		writes = []*hop{{op: "add", o: []uint32{a, 0}}, {op: "add", o: []uint32{b, 2}}}
	case 1: // remove behind, then ahead
		at = 1 + rnd.Intn(leaves-3)
		writes = []*hop{{op: "rem", o: []uint32{a, 1}}, {op: "rem", o: []uint32{b, 3}}}
	case 2: // move: remove ahead, add behind
		at = 1 + rnd.Intn(leaves-3)
		writes = []*hop{{op: "rem", o: []uint32{a, 1}}, {op: "add", o: []uint32{b, 7}}}
	case 3:
		writes = []*hop{{op: "clear"}, {op: "add", o: []uint32{b, 9}}, {op: "add", o: []uint32{a, 9}}}
	}
	w := &hop{proc: 1, op: "walk"}
	h.ops = append(h.ops, w)
	for _, x := range writes {
		x.proc = 2
		h.ops = append(h.ops, x)
	}
	done := make(chan bool)
	started := false
	call(func() ev { return ev{"op": "Tree.ForRangeLeaves with a writer"} }, func() {
		h.run(w, func(k int) {
			if k != at || started {
				return
			}
			started = true
			go func() {
				defer close(done)
				for _, x := range writes {
					h.run(x, nil)
				}
			}()
			select {
			case <-done:
			case <-time.After(15 * time.Millisecond):
			}
		})
		if !started {
			close(done)
			for _, x := range writes {
				h.run(x, nil)
			}
		}
		<-done
	})
	h.finish()
}

func init() {
	scenarios["C16"] = func(n int) {
		for i := 0; i < n/25+8; i++ {
			interruptedWalk(false)
		}
		for i := 0; i < n/60+8; i++ {
			interruptedWalk(true)
		}
		for i := 0; i < n; i++ {
			randomHist(2+rnd.Intn(3), 2+rnd.Intn(3))
		}
	}
}
