package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"sync"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
)

// ---- C09: histories of codec calls and caller writes over a pool of objects

func dig(v interface{}) string {
	b, err := json.Marshal(v)
	must(err)
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:8])
}

type object struct {
	p *agentx.Pdu
	b []byte
}

func (o object) digest() string {
	if o.p != nil {
		return dig([]ev{pduJ(*o.p), headerJ(*o.p)})
	}
	return dig(B(o.b))
}

// request is one codec call with its arguments, for a process that makes
// that call and no other.
type request struct {
	Op    string
	Dbg   bool // the debug variant
	P     ev   `json:",omitempty"`
	Tag   int
	Flags int
	Size  int32
	B     B
}
type jrequest struct {
	Op    string
	Dbg   bool
	P     *jpdu
	Tag   int
	Flags int
	Size  int32
	B     []int
}
type answer struct {
	Ok  bool   `json:"ok"`
	Dig string `json:"dig"`
}

func answerOf(op string, ok bool, b []byte, p agentx.Pdu) answer {
	a := answer{Ok: ok}
	if ok {
		switch op {
		case "enc":
			a.Dig = dig(B(b))
		case "hdr":
			a.Dig = dig(headerJ(p))
		case "pay":
			a.Dig = dig([]ev{headerJ(p), payloadJ(p)})
		}
	}
	return a
}

// the calls of C09, plain or debug
func hEncode(dbg bool, p agentx.Pdu) (b []byte, ok bool) {
	if dbg {
		b, ok, _ = xEncodeDbg(p, cutLog{})
	} else {
		b, ok, _ = xEncode(p)
	}
	return
}
func hHeader(dbg bool, b []byte) (p agentx.Pdu, ok bool) {
	if dbg {
		p, ok, _ = xHeaderDbg(b, cutLog{})
	} else {
		p, ok, _ = xHeader(b)
	}
	return
}
func hPayload(dbg bool, p *agentx.Pdu, b []byte) (ok bool) {
	if dbg {
		ok, _ = xPayloadDbg(p, b, cutLog{})
	} else {
		ok, _ = xPayload(p, b)
	}
	return
}

// scenOne answers the one request on stdin.
func scenOne(int) {
	in, err := io.ReadAll(os.Stdin)
	must(err)
	var r jrequest
	must(json.Unmarshal(in, &r))
	var a answer
	switch r.Op {
	case "enc":
		b, ok := hEncode(r.Dbg, r.P.pdu())
		a = answerOf("enc", ok, b, agentx.Pdu{})
	case "hdr":
		p, ok := hHeader(r.Dbg, bytesOf(r.B))
		a = answerOf("hdr", ok, nil, p)
	case "pay":
		p := agentx.Pdu{Tag: agentx.PduTag(r.Tag), Flags: agentx.Flags(r.Flags), SessionId: 9, TransactionId: 9, PacketId: 9, PayloadSize: r.Size}
		ok := hPayload(r.Dbg, &p, bytesOf(r.B))
		a = answerOf("pay", ok, nil, p)
	}
	o, _ := json.Marshal(a)
	os.Stdout.Write(append([]byte("ANSWER "), append(o, '\n')...))
	os.Exit(0)
}

type pendingReq struct {
	r request
	e ev
}

// resolve asks fresh processes, in parallel, and fills in e["fresh"].
func resolve(ps []pendingReq) {
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i := range ps {
		wg.Add(1)
		sem <- true
		go func(x *pendingReq) {
			defer func() { <-sem; wg.Done() }()
			in, err := json.Marshal(x.r)
			must(err)
			for try := 0; ; try++ {
				c := exec.Command(os.Args[0], "-scen", "one", "-out", os.DevNull)
				c.Stdin = bytes.NewReader(in)
				out, err := c.Output()
				if i := bytes.Index(out, []byte("ANSWER ")); err == nil && i >= 0 {
					var a answer
					must(json.Unmarshal(out[i+7:], &a))
					x.e["fresh"] = a
					return
				}
				if try == 2 {
					must(err)
					os.Exit(3)
				}
			}
		}(&ps[i])
	}
	wg.Wait()
}

// scribble writes into the memory of a PDU that its owner may write to.
// It returns false if there is none.
func scribble(p *agentx.Pdu) bool {
	flip := func(o []uint32) bool {
		if len(o) == 0 {
			return false
		}
		o[rnd.Intn(len(o))] ^= 1 + rnd.Uint32()>>1
		return true
	}
	switch rnd.Intn(7) {
	case 0:
		switch q := p.Params.(type) {
		case agentx.OpenParams:
			return flip(q.Oid)
		case agentx.RegisterParams:
			return flip(q.Subtree)
		case agentx.UnregisterParams:
			return flip(q.Subtree)
		case agentx.AddAgentCapsParams:
			return flip(q.Oid)
		case agentx.RemoveAgentCapsParams:
			return flip(q.Oid)
		}
		return false
	case 1:
		if len(p.Ranges) > 0 {
			r := &p.Ranges[rnd.Intn(len(p.Ranges))]
			if chance(2) {
				return flip(r.StartOid)
			}
			return flip(r.EndOid)
		}
		return false
	case 2:
		if len(p.Varbinds) > 0 {
			return flip(p.Varbinds[rnd.Intn(len(p.Varbinds))].Oid)
		}
		return false
	case 3:
		if len(p.Varbinds) > 0 {
			switch v := p.Varbinds[rnd.Intn(len(p.Varbinds))].Value.(type) {
			case []uint32:
				return flip(v)
			case []byte:
				if len(v) > 0 {
					v[rnd.Intn(len(v))] ^= byte(1 + rnd.Intn(255))
					return true
				}
			}
		}
		return false
	case 4: // grow an OID or value
		if len(p.Varbinds) > 0 {
			vb := &p.Varbinds[rnd.Intn(len(p.Varbinds))]
			switch v := vb.Value.(type) {
			case []byte:
				vb.Value = append(v, genByte(), genByte(), genByte())
			case []uint32:
				vb.Value = append(v, genU32())
			default:
				vb.Oid = append(vb.Oid, genU32(), genU32())
			}
			return true
		}
		if len(p.Ranges) > 0 {
			r := &p.Ranges[rnd.Intn(len(p.Ranges))]
			r.StartOid = append(r.StartOid, genU32(), genU32())
			return true
		}
		return false
	case 5: // grow the lists
		if len(p.Varbinds) > 0 {
			p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: []uint32{7}, Tag: 5})
			return true
		}
		if len(p.Ranges) > 0 {
			p.Ranges = append(p.Ranges, agentx.SearchRange{StartOid: []uint32{7}})
			return true
		}
		return false
	default:
		if len(p.Varbinds) > 0 {
			p.Varbinds[rnd.Intn(len(p.Varbinds))] = asn.Varbind{Oid: []uint32{1, 2}, Tag: 2, Value: int32(genU32())}
			return true
		}
		p.SessionId++
		return true
	}
}

var varbindTypes = []agentx.PduTag{agentx.TagTestSet, agentx.TagNotify, agentx.TagIndexAllocate, agentx.TagIndexDeallocate, agentx.TagResponse}

// simplePdu has no values that the projection cannot carry.
func simplePdu() agentx.Pdu {
	p := genPdu()
	if chance(2) { // values with memory of their own
		p = genPduOf(varbindTypes[rnd.Intn(len(varbindTypes))])
		for _, t := range []asn.Tag{asn.TagOpaque, asn.TagObjectId, asn.TagOctetString} {
			if !chance(3) {
				p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: genOid(), Tag: t, Value: genValue(t)})
			}
		}
		rnd.Shuffle(len(p.Varbinds), func(i, j int) { p.Varbinds[i], p.Varbinds[j] = p.Varbinds[j], p.Varbinds[i] })
	}
	for i := range p.Varbinds {
		switch p.Varbinds[i].Tag {
		case 5, 128, 129, 130:
			p.Varbinds[i].Value = nil
		}
	}
	// runs of one OID, or one value, in lists
	if len(p.Varbinds) > 1 && chance(2) {
		for i := 1; i < len(p.Varbinds); i++ {
			if chance(2) {
				p.Varbinds[i].Oid = append([]uint32(nil), p.Varbinds[rnd.Intn(i)].Oid...)
			} else if chance(3) {
				p.Varbinds[i] = twinOf(agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: p.Varbinds[:i]}).Varbinds[rnd.Intn(i)]
			}
		}
	}
	for i := range p.Ranges {
		if chance(3) {
			p.Ranges[i].EndOid = append([]uint32(nil), p.Ranges[rnd.Intn(i+1)].StartOid...)
		} else if chance(3) {
			p.Ranges[i].StartOid = append([]uint32(nil), p.Ranges[rnd.Intn(i+1)].StartOid...)
		}
	}
	return p
}

// twin makes a deep copy of p that differs from it in little: hidden state
// that is not keyed by everything mistakes one for the other.
func twin(p agentx.Pdu) agentx.Pdu {
	q := twinOf(p)
	switch rnd.Intn(4) {
	case 0:
		q.SessionId ^= 1 << uint(rnd.Intn(32))
	case 1:
		q.Flags ^= 16
	case 2:
		q.PacketId++
	default:
		for k := 0; k < 8 && !scribble(&q); k++ {
		}
	}
	return q
}

// twinOf makes a deep copy.
func twinOf(p agentx.Pdu) agentx.Pdu {
	b, err := json.Marshal(pduJ(p))
	must(err)
	var j jpdu
	must(json.Unmarshal(b, &j))
	return j.pdu()
}

// codecHeap is the pool of objects of one history.
type codecHeap struct {
	pool []object
	reqs []pendingReq
	big  bool // PDUs with large values and long lists
}

// largePdu has values or lists of some thousand bytes and more.
func largePdu() agentx.Pdu {
	p := simplePdu()
	p.Tag, p.Params = pickTag(8, 12, 14, 15), agentx.NoParams{}
	p.Flags &= 8 | 16
	p.Ranges = nil
	if len(p.Varbinds) > 4 {
		p.Varbinds = p.Varbinds[:4]
	}
	b := make([]byte, pick(1000, 1024, 2048, 4000, 4096, 5000, 8192, 20000, 65536, 70000)+rnd.Intn(3))
	rnd.Read(b)
	switch rnd.Intn(5) {
	case 0:
		p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: genOid(), Tag: 4, Value: string(b)})
	case 1, 2:
		p.Varbinds = append([]asn.Varbind{{Oid: genOid(), Tag: 68, Value: b}}, p.Varbinds...)
	case 3:
		if chance(2) {
			p.Flags |= 8
			p.Context = string(b)
			break
		}
		fallthrough
	default:
		for k := 200 + rnd.Intn(1200); k > 0; k-- {
			p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: genSubids(rnd.Intn(4)), Tag: 6, Value: genSubids(1 + rnd.Intn(3))})
		}
	}
	return p
}

// large: a message of some size is encoded, decoded, decoded again, written to.
func (h *codecHeap) large() {
	h.big = true
	h.mk(-1)
	if !h.enc(0) || !h.dec(1, -1) || !h.dec(1, -1) {
		h.end()
		return
	}
	h.wr(1, false)
	for k := 0; k < 3; k++ {
		h.wr(2, false)
	}
	h.enc(2)
	h.dec(1, 2)
	h.enc(0)
	h.mk(0)
	if h.enc(len(h.pool) - 1) {
		h.dec(len(h.pool)-1, 2)
		h.wr(len(h.pool)-1, true)
	}
	h.end()
}

func (h *codecHeap) log(e ev) {
	r := make([]string, len(h.pool))
	for i, o := range h.pool {
		r[i] = o.digest()
	}
	e["all"] = r
	emit(e)
}

func (h *codecHeap) pick(pdu bool) int {
	for k := 0; k < 12; k++ {
		i := rnd.Intn(len(h.pool))
		if (h.pool[i].p != nil) == pdu {
			return i
		}
	}
	return -1
}

// mk: the caller makes a PDU, like one it has (or not).
func (h *codecHeap) mk(like int) {
	p := simplePdu()
	if h.big {
		p = largePdu()
	}
	if like >= 0 {
		p = twin(*h.pool[like].p)
	}
	h.pool = append(h.pool, object{p: &p})
	h.log(ev{"e": "mk"})
}

// cp: the caller copies a PDU value; the copy shares the lists.
func (h *codecHeap) cp(i int) {
	p := *h.pool[i].p
	h.pool = append(h.pool, object{p: &p})
	h.log(ev{"e": "cp", "src": i + 1})
}

func (h *codecHeap) enc(i int) bool {
	r := request{Op: "enc", Dbg: chance(3), P: pduJ(*h.pool[i].p)}
	b, ok := hEncode(r.Dbg, *h.pool[i].p)
	e := ev{"e": "enc", "src": i + 1, "got": answerOf("enc", ok, b, agentx.Pdu{})}
	h.reqs = append(h.reqs, pendingReq{r, e})
	if ok {
		h.pool = append(h.pool, object{b: b})
	}
	h.log(e)
	return ok
}

func (h *codecHeap) hdr(i int) bool {
	if len(h.pool[i].b) < 20 {
		return false
	}
	r := request{Op: "hdr", Dbg: chance(3), B: append(B{}, h.pool[i].b[:20]...)}
	p, ok := hHeader(r.Dbg, h.pool[i].b[:20])
	e := ev{"e": "hdr", "src": i + 1, "got": answerOf("hdr", ok, nil, p)}
	h.reqs = append(h.reqs, pendingReq{r, e})
	if ok {
		h.pool = append(h.pool, object{p: &p})
	}
	h.log(e)
	return ok
}

// dec decodes buffer i into PDU t, or into a new one (t < 0).
func (h *codecHeap) dec(i, t int) bool {
	if len(h.pool[i].b) < 20 {
		return false
	}
	hd, ok, _ := xHeader(h.pool[i].b[:20])
	if !ok {
		return false
	}
	if t < 0 {
		h.pool = append(h.pool, object{p: &hd})
		t = len(h.pool) - 1
		h.log(ev{"e": "mk"})
	}
	p := h.pool[t].p
	p.Tag, p.Flags, p.PayloadSize = hd.Tag, hd.Flags, hd.PayloadSize
	p.SessionId, p.TransactionId, p.PacketId = 9, 9, 9
	h.log(ev{"e": "wr", "dst": t + 1})
	r := request{Op: "pay", Dbg: chance(3), Tag: int(p.Tag), Flags: int(p.Flags), Size: p.PayloadSize, B: append(B{}, h.pool[i].b[20:]...)}
	ok = hPayload(r.Dbg, p, h.pool[i].b[20:])
	e := ev{"e": "pay", "src": i + 1, "dst": t + 1, "got": answerOf("pay", ok, nil, *p)}
	h.reqs = append(h.reqs, pendingReq{r, e})
	h.log(e)
	return true
}

// wr: the caller writes to an object.
func (h *codecHeap) wr(i int, header bool) {
	o := &h.pool[i]
	if o.p != nil {
		// the same write to a copy that shares nothing, also within itself,
		// shows what it should do
		q := twinOf(*o.p)
		q.PayloadSize = o.p.PayloadSize
		known := object{p: &q}.digest() == o.digest()
		seed := rnd.Int63()
		keep := rnd
		rnd = rand.New(rand.NewSource(seed))
		wrote := scribble(o.p)
		if wrote && known {
			rnd = rand.New(rand.NewSource(seed))
			scribble(&q)
			h.log(ev{"e": "wr", "dst": i + 1, "want": object{p: &q}.digest()})
		} else if wrote {
			h.log(ev{"e": "wr", "dst": i + 1})
		}
		rnd = keep
		return
	}
	b := o.b
	if len(b) == 0 {
		return
	}
	k := rnd.Intn(4)
	if !header {
		k = 3
	}
	switch k {
	case 0:
		b[rnd.Intn(len(b))] ^= byte(1 + rnd.Intn(255))
	case 1:
		for j := range b {
			b[j] ^= 0x5a
		}
	case 2:
		o.b = append(b, 1, 2, 3, 4)
	case 3: // payload only, so that the header still decodes
		for j := 20; j < len(b); j++ {
			b[j] ^= 0x5a
		}
	}
	h.log(ev{"e": "wr", "dst": i + 1})
}

func (h *codecHeap) end() {
	resolve(h.reqs)
	endSession()
}

// replay follows a history of the specification (CodecHeap).
func (h *codecHeap) replay(ops [][]interface{}) {
	ids := []int{} // object of the specification -> object of the pool
	for _, o := range ops {
		num := func(k int) int { return int(o[k].(float64)) }
		n := len(h.pool)
		switch o[0].(string) {
		case "mk":
			if n > 0 && chance(2) {
				h.mk(ids[0])
			} else {
				h.mk(-1)
			}
			ids = append(ids, n)
		case "cp":
			h.cp(ids[num(1)-1])
			ids = append(ids, n)
		case "enc":
			if !h.enc(ids[num(1)-1]) {
				h.end()
				return
			}
			ids = append(ids, n)
		case "dec":
			t := -1
			if num(2) > 0 {
				t = ids[num(2)-1]
			}
			if !h.dec(ids[num(1)-1], t) {
				h.end()
				return
			}
			if t < 0 {
				ids = append(ids, n)
			}
		case "wr":
			for k := 0; k < 3; k++ {
				h.wr(ids[num(1)-1], false)
			}
		}
	}
	h.end()
}

// wander makes a long history of its own.
func (h *codecHeap) wander() {
	for k := 16 + rnd.Intn(14); k > 0; k-- {
		op := rnd.Intn(20)
		if len(h.pool) == 0 {
			op = 0
		}
		if len(h.pool) > 12 && op < 12 {
			op = 12 + rnd.Intn(8)
		}
		switch {
		case op <= 2:
			like := -1
			if len(h.pool) > 0 && chance(2) {
				like = h.pick(true)
			}
			if like >= 0 && chance(2) {
				h.cp(like)
			} else {
				h.mk(like)
			}
		case op <= 6:
			if i := h.pick(true); i >= 0 {
				h.enc(i)
			}
		case op <= 9:
			if i := h.pick(false); i >= 0 {
				h.hdr(i)
			}
		case op <= 14: // into a new or a used PDU
			if i := h.pick(false); i >= 0 {
				t := -1
				if chance(2) {
					t = h.pick(true)
				}
				h.dec(i, t)
			}
		case op <= 16:
			if i := h.pick(false); i >= 0 {
				h.wr(i, true)
			}
		default:
			if i := h.pick(true); i >= 0 {
				h.wr(i, true)
			}
		}
	}
	h.end()
}

// ---- C09: concurrent callers

// concurrent callers share read-only PDUs and buffers and must all get what a
// lone caller gets. The race detector watches when it is compiled in.
func scenC09c(n int) {
	for i := 0; i < n; i++ {
		var ps []agentx.Pdu
		var bufs [][]byte
		for k := 0; k < 6; k++ {
			p := simplePdu()
			ps = append(ps, p, twin(p))
		}
		want := make([]answer, 0)
		dbg := i%3 == 2
		do := func(k int) answer {
			if k < len(ps) {
				b, ok := agentx.EncodePdu(ps[k])
				if dbg {
					b, ok = agentx.EncodePduDbg(ps[k], cutLog{})
				}
				return answerOf("enc", ok, b, agentx.Pdu{})
			}
			b := bufs[k-len(ps)]
			p, ok := agentx.DecodePduHeader(b[:20])
			if dbg {
				if p, ok = agentx.DecodePduHeaderDbg(b[:20], cutLog{}); ok {
					ok = agentx.DecodePduPayloadDbg(&p, b[20:], cutLog{})
				}
			} else if ok {
				ok = agentx.DecodePduPayload(&p, b[20:])
			}
			return answerOf("pay", ok, nil, p)
		}
		for k := range ps {
			b, ok := agentx.EncodePdu(ps[k])
			if ok && len(b) >= 20 {
				bufs = append(bufs, append([]byte{}, b...))
			}
			_ = k
		}
		total := len(ps) + len(bufs)
		for k := 0; k < total; k++ {
			want = append(want, do(k))
		}
		const g = 8
		got := make([][]answer, g)
		perm := make([][]int, g)
		for w := range got {
			got[w] = make([]answer, total)
			perm[w] = rnd.Perm(total)
		}
		var wg sync.WaitGroup
		start := make(chan bool)
		for w := 0; w < g; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				<-start
				for _, k := range perm[w] {
					got[w][k] = do(k)
				}
			}(w)
		}
		call(func() ev { return ev{"op": "concurrent EncodePdu/DecodePdu*"} }, func() { close(start); wg.Wait() })
		for k := 0; k < total; k++ {
			gs := make([]answer, g)
			for w := range gs {
				gs[w] = got[w][k]
			}
			emit(ev{"e": "conc", "want": want[k], "got": gs})
		}
		endSession()
	}
}

func init() {
	scenarios["one"] = scenOne
	scenarios["C09"] = func(n int) {
		for _, c := range readCorpus() {
			if c.H != nil {
				new(codecHeap).replay(c.H)
			}
		}
		for i := 0; i < n; i++ {
			new(codecHeap).wander()
		}
		for i := 0; i < n/20+20; i++ {
			new(codecHeap).large()
		}
	}
	scenarios["C09c"] = scenC09c
}
