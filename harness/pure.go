package main

import (
	"encoding/json"
	"strings"
	"sync"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/hex"
	"github.com/alexispb/mygosnmp/ipa"
	"github.com/alexispb/mygosnmp/oid"
	"github.com/alexispb/mygosnmp/pduerror"
)

// ---- C21: calls that are functions of their arguments, in histories and
// concurrently. A result is recorded when it is returned and again when
// everything is over.

// pcall is one call. The arguments are described by in before the call.
type pcall struct {
	in   ev
	do   func()      // makes the call, keeps the result
	out  func(e ev)  // adds the result, as it is now
	wr   func()      // the owner overwrites the result (nil: it cannot)
	args func() bool // the arguments are as they were
	pan  bool
	done bool
}

func (c *pcall) run() {
	defer func() {
		if recover() != nil {
			c.pan = true
		}
		c.done = true
	}()
	c.do()
}

func (c *pcall) event() ev {
	e := ev{"pan": c.pan}
	for k, v := range c.in {
		e[k] = v
	}
	c.out(e)
	return e
}

// emit records what the call has given.
func (c *pcall) emit() {
	emit(c.event())
}

func (c *pcall) emitArgs() {
	emit(ev{"e": "args", "of": c.in["e"], "same": c.args == nil || c.args()})
}

func dump1(x interface{}) string {
	b, err := json.Marshal(x)
	if err != nil {
		fail("marshal: " + err.Error())
	}
	return string(b)
}

// unchanged describes an argument now and compares later.
func unchanged(f func() interface{}) func() bool {
	was := dump1(f())
	return func() bool { return dump1(f()) == was }
}

func overwrite(o []uint32) {
	for i := range o {
		o[i] ^= 0xa5a5a5
	}
	if cap(o) > len(o) {
		o = o[:cap(o)]
		for i := range o {
			o[i] = 77
		}
	}
}

// A maker makes a call for some argument of a family: arguments of one family
// are alike (equal lengths, common beginnings), which is what caches and
// buffers confuse.
type maker func() *pcall

// family: makers and what changes the arguments (nil: they cannot be changed).
type family struct {
	ms  []maker
	mut func()
}

func strCall(in ev, args func() bool, f func(sb *strings.Builder) string, both bool) *pcall {
	c := &pcall{in: in, args: args}
	var s, g string
	c.do = func() {
		var sb strings.Builder
		sb.WriteByte('>')
		s = f(&sb)
		g = sb.String()
	}
	c.out = func(e ev) {
		e["s"] = B(s)
		if both {
			e["f"] = B(g)
		}
	}
	return c
}

// oidFamily makes n OIDs that are easily taken for one another.
func oidFamily(n int) (os [][]uint32) {
	o := append(genOid(), genSubids(1)...)
	for len(os) < n {
		os = append(os, append([]uint32{}, o...))
		o = near(o)
	}
	return
}

func oidMakers() family {
	os := oidFamily(3)
	var ms []maker
	kind := rnd.Intn(6)
	for k := range os {
		a, b := os[k], os[(k+1)%len(os)]
		ms = append(ms, func() *pcall {
			keep := unchanged(func() interface{} { return []interface{}{oidJ(a), oidJ(b)} })
			switch kind {
			case 0:
				c := &pcall{in: ev{"e": "cmp", "a": oidJ(a), "b": oidJ(b)}, args: keep}
				r := ev{}
				c.do = func() {
					x := ev{"cmp": oid.Compare(a, b), "lt": oid.Lt(a, b), "le": oid.Le(a, b), "eq": oid.Eq(a, b),
						"ne": oid.Ne(a, b), "ge": oid.Ge(a, b), "gt": oid.Gt(a, b), "pre": oid.HasPrefix(a, b...)}
					r = x
				}
				c.out = func(e ev) {
					for k, v := range r {
						e[k] = v
					}
				}
				return c
			case 1:
				c := &pcall{in: ev{"e": "text", "o": oidJ(a)}, args: keep}
				var s, f string
				c.do = func() {
					s = oid.String(a)
					var sb strings.Builder
					sb.WriteByte('x')
					oid.Fprint(&sb, a)
					f = sb.String()
				}
				c.out = func(e ev) { e["s"], e["f"] = B(s), B(f) }
				return c
			case 2, 3:
				s := oidText(a)
				switch k {
				case 1:
					s = "." + s
				case 2:
					if kind == 3 {
						s = mutateText(s)
					}
				}
				c := &pcall{in: ev{"e": "parse", "s": B(s)}}
				var o []uint32
				c.do = func() { o = oid.Parse(s) }
				c.out = func(e ev) {
					e["ok"] = !c.pan
					if !c.pan {
						e["o"] = oidJ(o)
					}
				}
				c.wr = func() { overwrite(o) }
				return c
			case 4:
				c := &pcall{in: ev{"e": "clone", "a": oidJ(a)}, args: keep}
				var o []uint32
				c.do = func() { o = oid.Clone(a) }
				c.out = func(e ev) { e["o"] = oidJ(o) }
				c.wr = func() { overwrite(o) }
				return c
			default:
				c := &pcall{in: ev{"e": "cat", "a": oidJ(a), "b": oidJ(b)}, args: keep}
				var o []uint32
				c.do = func() { o = oid.Cat(a, b...) }
				c.out = func(e ev) { e["o"] = oidJ(o) }
				c.wr = func() { overwrite(o) }
				return c
			}
		})
	}
	return family{ms, func() { mutOids(os) }}
}

// oidText is the text of an OID, made here.
func oidText(o []uint32) string {
	var p []string
	for _, x := range o {
		p = append(p, string(decimal(x)))
	}
	return strings.Join(p, ".")
}

func decimal(x uint32) (b []byte) {
	for {
		b = append([]byte{byte('0' + x%10)}, b...)
		if x /= 10; x == 0 {
			return
		}
	}
}

func textMakers() family {
	var ms []maker
	var ds [][]byte
	os := oidFamily(3)
	data := genBytes()
	if len(data) > 200 {
		data = data[:200]
	}
	base := genPdu()
	for len(base.Varbinds)+len(base.Ranges) > 6 || len(base.Context) > 100 {
		base = genPdu()
	}
	kind := rnd.Intn(10)
	for k := 0; k < 3; k++ {
		k := k
		d := append([]byte{}, data...)
		if len(d) > 0 {
			d[rnd.Intn(len(d))] ^= byte(k)
		}
		if chance(3) {
			d = d[:rnd.Intn(len(d)+1)]
		}
		ds = append(ds, d)
		keep := func() func() bool { return unchanged(func() interface{} { return []B{data, d} }) }
		o := os[k]
		n := rnd.Intn(256)
		switch kind {
		case 0:
			i1 := rnd.Intn(len(d) + 1)
			i2 := i1 + rnd.Intn(len(d)-i1+1)
			pre := []string{"", "  ", "p "}[rnd.Intn(3)]
			ms = append(ms, func() *pcall {
				return strCall(ev{"e": "sub", "prefix": B(pre), "i1": i1, "i2": i2, "n": len(d), "d": append(B{}, d[i1:i2]...)}, keep(),
					func(*strings.Builder) string { return hex.DumpSub(pre, d, i1, i2) }, false)
			})
		case 1:
			ms = append(ms, func() *pcall {
				return strCall(ev{"e": "diff", "a": append(B{}, data...), "b": append(B{}, d...)}, keep(),
					func(*strings.Builder) string { return hex.DumpDiff(data, d) }, false)
			})
		case 2:
			t := valueTags[rnd.Intn(len(valueTags))]
			if k > 0 && chance(2) {
				t = asn.TagOpaque
			}
			v := genValue(t)
			for len(dump1(valueJ(t, v))) > 2000 {
				v = genValue(t)
			}
			ms = append(ms, func() *pcall {
				c := &pcall{in: ev{"e": "val", "t": int(t), "v": valueJ(t, v)}, args: unchanged(func() interface{} { return valueJ(t, v) })}
				var s string
				c.do = func() {
					var sb strings.Builder
					sb.WriteByte('>')
					t.Fprint(&sb, v)
					s = sb.String()
				}
				c.out = func(e ev) { e["s"] = B(s) }
				return c
			})
		case 3:
			vb := genVarbind()
			vb.Oid = o
			if k > 0 && chance(2) {
				vb.Tag, vb.Value = asn.TagOpaque, d
			}
			for len(dump1(vbJ(vb))) > 2000 {
				vb = genVarbind()
			}
			ms = append(ms, func() *pcall {
				return strCall(ev{"e": "vbt", "vb": vbJ(vb)}, unchanged(func() interface{} { return vbJ(vb) }),
					func(sb *strings.Builder) string { vb.Fprint(sb); return vb.String() }, true)
			})
		case 4:
			r := agentx.SearchRange{StartOid: o, EndOid: os[(k+1)%3], StartIncluded: byte(k)}
			ms = append(ms, func() *pcall {
				return strCall(ev{"e": "rng", "r": rangeJ(r)}, unchanged(func() interface{} { return rangeJ(r) }),
					func(sb *strings.Builder) string { r.Fprint(sb); return r.String() }, true)
			})
		case 5:
			a := [4]byte{byte(k), genByte(), 7, byte(n)}
			ms = append(ms, func() *pcall {
				return strCall(ev{"e": "ip", "a": B(a[:])}, nil,
					func(sb *strings.Builder) string { ipa.Fprint(sb, a); return ipa.String(a) }, true)
			})
		case 6, 7:
			p := base
			switch k {
			case 1:
				p.SessionId++
				p.Context += "x"
			case 2:
				p.Ranges = append([]agentx.SearchRange{{StartOid: o}}, p.Ranges...)
				p.Varbinds = append([]asn.Varbind{{Oid: o, Tag: asn.TagOpaque, Value: d}}, p.Varbinds...)
			}
			depth := rnd.Intn(4)
			ms = append(ms, func() *pcall {
				return strCall(ev{"e": "pdu", "p": pduJ(p), "size": w32(uint32(p.PayloadSize)), "depth": depth}, unchanged(func() interface{} { return pduJ(p) }),
					func(*strings.Builder) string { return p.String(depth) }, false)
			})
		case 8:
			what := rnd.Intn(5)
			if chance(2) {
				n = rnd.Intn(32)
			}
			ms = append(ms, func() *pcall {
				switch what {
				case 0:
					c := strCall(ev{"e": "ptag", "n": n}, nil, func(*strings.Builder) string { return agentx.PduTag(n).String() }, false)
					known, do, out := false, c.do, c.out
					c.do = func() { do(); known = agentx.PduTag(n).IsKnown() }
					c.out = func(e ev) { out(e); e["known"] = known }
					return c
				case 1:
					c := strCall(ev{"e": "atag", "n": n}, nil, func(*strings.Builder) string { return asn.Tag(n).String() }, false)
					known, vt, do, out := false, false, c.do, c.out
					c.do = func() { do(); known, vt = asn.Tag(n).IsKnown(), asn.Tag(n).IsValueTag() }
					c.out = func(e ev) { out(e); e["known"], e["vt"] = known, vt }
					return c
				case 2:
					return strCall(ev{"e": "reason", "n": n}, nil, func(*strings.Builder) string { return agentx.CloseReason(n).String() }, false)
				case 3:
					c := &pcall{in: ev{"e": "flags", "n": n}}
					var s, f string
					c.do = func() {
						var sb strings.Builder
						agentx.Flags(n).Fprint(&sb)
						s, f = agentx.Flags(n).String(), sb.String()
					}
					c.out = func(e ev) { e["s"], e["f"] = B(s), B(f) }
					return c
				default:
					m := n + pick(0, 250)
					return strCall(ev{"e": "err", "n": m}, nil, func(*strings.Builder) string { return pduerror.Error(m).String() }, false)
				}
			})
		case 9:
			p := noBangPdu(base)
			p.PacketId += uint32(k)
			if k == 2 && chance(2) {
				p.Params = nil
			}
			ms = append(ms, func() *pcall {
				c := &pcall{in: ev{"e": "log", "op": "encode"}, args: unchanged(func() interface{} { return pduJ(p) })}
				l := &memLog{}
				var b []byte
				var ok bool
				c.do = func() { b, ok = agentx.EncodePduDbg(p, l) }
				c.out = func(e ev) {
					if !ok {
						b = nil
					}
					e["dump"], e["found"] = logInto(e, ok, l, p)
					e["data"] = B(b)
				}
				return c
			})
		}
	}
	return family{ms, func() {
		mutOids(os)
		for _, d := range append(ds, data) {
			if len(d) > 0 {
				d[rnd.Intn(len(d))] ^= 0x11
			}
		}
	}}
}

func mutOids(os [][]uint32) {
	for _, o := range os {
		if len(o) > 0 {
			o[rnd.Intn(len(o))] += uint32(pick(1, 2, 256))
		}
	}
}

// pureHistory replays a history of the model: c calls with an argument of the
// family, w overwrites a result.
func pureHistory(f family, h [][]interface{}) {
	ms := f.ms
	var cs []*pcall
	written := map[int]bool{}
	changed := false
	for _, st := range h {
		k := int(st[1].(float64))
		if st[0] == "c" {
			c := ms[(k-1)%len(ms)]()
			call(func() ev { return c.in }, c.run)
			c.emit()
			c.emitArgs()
			cs = append(cs, c)
			continue
		}
		if chance(2) { // instead, the caller changes what it has passed and will pass again
			f.mut()
			changed = true
			continue
		}
		if k <= len(cs) && !written[k] && cs[k-1].wr != nil && !cs[k-1].pan {
			cs[k-1].wr()
			written[k] = true
		}
	}
	for i, c := range cs {
		if !written[i+1] {
			c.emit()
		}
		if !changed {
			c.emitArgs()
		}
	}
	endSession()
}

func pureSeq(make func() family) func(n int) {
	return func(n int) {
		var hs [][][]interface{}
		for _, c := range readCorpus() {
			if c.H != nil {
				hs = append(hs, c.H)
			}
		}
		for i := 0; i < n; i++ {
			f := make()
			h := hs[rnd.Intn(len(hs))]
			if i < 12*len(hs) {
				h = hs[i%len(hs)]
			}
			pureHistory(f, h)
		}
	}
}

// pureConc lets goroutines make calls with the same arguments at once.
func pureConc(mk func() family) func(n int) {
	return func(n int) {
		for i := 0; i < n; i++ {
			var ms []maker
			for k := 0; k < 3; k++ {
				ms = append(ms, mk().ms...)
			}
			const g, each = 4, 6
			cs := make([][]*pcall, g)
			for w := range cs {
				for k := 0; k < each; k++ {
					cs[w] = append(cs[w], ms[rnd.Intn(len(ms))]())
				}
			}
			var wg sync.WaitGroup
			start := make(chan bool)
			for w := range cs {
				wg.Add(1)
				go func(l []*pcall) {
					defer wg.Done()
					<-start
					for _, c := range l {
						c.run()
						if c.wr != nil && !c.pan && len(l)%2 == 0 {
							// the owner reads its result meanwhile
							c.out(ev{})
						}
					}
				}(cs[w])
			}
			call(func() ev { return ev{"op": "concurrent pure calls"} }, func() { close(start); wg.Wait() })
			for _, l := range cs {
				for _, c := range l {
					c.emit()
					c.emitArgs()
				}
			}
			endSession()
		}
	}
}

func init() {
	scenarios["C21o"] = pureSeq(oidMakers)
	scenarios["C21t"] = pureSeq(textMakers)
	scenarios["C21oc"] = pureConc(oidMakers)
	scenarios["C21tc"] = pureConc(textMakers)
}
