package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strconv"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/pduerror"
)

// Projection of Go values to the abstract values of spec/Wire.tla: bytes are
// arrays of numbers, 16/32/64-bit words are big-endian arrays of bytes, an OID
// is an array of words. nil and empty are the same.

// B marshals as an array of numbers.
type B []byte

func (b B) MarshalJSON() ([]byte, error) {
	o := make([]byte, 0, 2+4*len(b))
	o = append(o, '[')
	for i, x := range b {
		if i > 0 {
			o = append(o, ',')
		}
		o = strconv.AppendUint(o, uint64(x), 10)
	}
	return append(o, ']'), nil
}

func w16(v uint16) B { return B{byte(v >> 8), byte(v)} }
func w32(v uint32) B { return B{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }
func w64(v uint64) B {
	return append(w32(uint32(v>>32)), w32(uint32(v))...)
}
func oidJ(id []uint32) []B {
	r := make([]B, len(id))
	for i, s := range id {
		r[i] = w32(s)
	}
	return r
}

// wrongly typed values that carry a text for the journal only
func valueJ(tag asn.Tag, v interface{}) ev {
	switch x := v.(type) {
	case nil:
		return ev{"k": "void", "b": B{}}
	case int32:
		return ev{"k": "i32", "b": w32(uint32(x))}
	case string:
		return ev{"k": "str", "b": B(x)}
	case []uint32:
		return ev{"k": "oid", "b": oidJ(x)}
	case [4]byte:
		return ev{"k": "ip", "b": B(x[:])}
	case uint32:
		return ev{"k": "u32", "b": w32(x)}
	case []byte:
		return ev{"k": "opq", "b": append(B{}, x...)} // a copy: the caller may write to x
	case uint64:
		return ev{"k": "u64", "b": w64(x)}
	}
	return ev{"k": "other", "b": B{}, "go": fmt.Sprintf("%T", v)}
}

func vbJ(vb asn.Varbind) ev {
	return ev{"o": oidJ(vb.Oid), "t": int(vb.Tag), "v": valueJ(vb.Tag, vb.Value)}
}

func rangeJ(r agentx.SearchRange) ev {
	return ev{"s": oidJ(r.StartOid), "e": oidJ(r.EndOid), "i": int(r.StartIncluded)}
}

func paramsJ(p agentx.PayloadParams) ev {
	switch q := p.(type) {
	case nil:
		return ev{"k": "nil"}
	case agentx.NoParams:
		return ev{"k": "none"}
	case agentx.OpenParams:
		return ev{"k": "open", "timeout": int(q.Timeout), "oid": oidJ(q.Oid), "descr": B(q.Description)}
	case agentx.CloseParams:
		return ev{"k": "close", "reason": int(q.Reason)}
	case agentx.RegisterParams:
		return ev{"k": "reg", "timeout": int(q.Timeout), "prio": int(q.Priority), "rsub": int(q.RangeSubid),
			"oid": oidJ(q.Subtree), "upper": w32(q.UpperBound)}
	case agentx.UnregisterParams:
		return ev{"k": "unreg", "prio": int(q.Priority), "rsub": int(q.RangeSubid),
			"oid": oidJ(q.Subtree), "upper": w32(q.UpperBound)}
	case agentx.GetBulkParams:
		return ev{"k": "bulk", "nonrep": w16(uint16(q.NonRepeaters)), "maxrep": w16(uint16(q.MaxRepeatitions))}
	case agentx.AddAgentCapsParams:
		return ev{"k": "addcaps", "oid": oidJ(q.Oid), "descr": B(q.Description)}
	case agentx.RemoveAgentCapsParams:
		return ev{"k": "remcaps", "oid": oidJ(q.Oid)}
	case agentx.ResponseParams:
		return ev{"k": "resp", "uptime": w32(q.SysUpTime), "error": w16(uint16(q.Error)), "index": w16(uint16(q.Index))}
	}
	return ev{"k": "foreign"}
}

func rangesJ(rs []agentx.SearchRange) []ev {
	l := make([]ev, len(rs))
	for i, r := range rs {
		l[i] = rangeJ(r)
	}
	return l
}

func vbsJ(vs []asn.Varbind) []ev {
	l := make([]ev, len(vs))
	for i, v := range vs {
		l[i] = vbJ(v)
	}
	return l
}

func pduJ(p agentx.Pdu) ev {
	return ev{"tag": int(p.Tag), "flags": int(p.Flags), "sid": w32(p.SessionId), "tid": w32(p.TransactionId),
		"pid": w32(p.PacketId), "ctx": B(p.Context), "params": paramsJ(p.Params),
		"ranges": rangesJ(p.Ranges), "vbs": vbsJ(p.Varbinds)}
}

func headerJ(p agentx.Pdu) ev {
	return ev{"tag": int(p.Tag), "flags": int(p.Flags), "sid": w32(p.SessionId), "tid": w32(p.TransactionId),
		"pid": w32(p.PacketId), "size": w32(uint32(p.PayloadSize))}
}

// payloadJ projects the payload fields that a PDU of this type carries; the
// others are not set by decoding.
func payloadJ(p agentx.Pdu) ev {
	e := ev{"ctx": B{}, "params": paramsJ(p.Params), "ranges": []ev{}, "vbs": []ev{}}
	if p.Flags&agentx.FlagNonDefaultContext != 0 {
		e["ctx"] = B(p.Context)
	}
	if hasRanges(p.Tag) {
		e["ranges"] = rangesJ(p.Ranges)
	}
	if hasVarbinds(p.Tag) {
		e["vbs"] = vbsJ(p.Varbinds)
	}
	return e
}

func hasRanges(t agentx.PduTag) bool { return t >= 5 && t <= 7 }
func hasVarbinds(t agentx.PduTag) bool {
	return t == 8 || t == 12 || t == 14 || t == 15 || t == 18
}

// ---- from abstract values (corpus generated by TLC) to Go values

var corpusFile string

type corpusCase struct {
	P  *jpdu     `json:"p"`
	B  []int     `json:"b"` // raw message bytes
	O  *[][]int  `json:"o"` // OID
	S  *[]int    `json:"s"` // text
	T  *treeCase `json:"t"`
	St *struct { // a stream: messages and one damaged byte (message, position, value) or none
		Ms  []jpdu
		Hit []int
	} `json:"st"`

	Hx     [][]int         `json:"hx"` // two byte strings
	H      [][]interface{} `json:"h"`  // history: operation, object, target
	Bounds [][][]int       `json:"bounds"`
}

type jval struct {
	K string          `json:"k"`
	B json.RawMessage `json:"b"`
}
type jvb struct {
	O [][]int `json:"o"`
	T int     `json:"t"`
	V jval    `json:"v"`
}
type jrange struct {
	S [][]int `json:"s"`
	E [][]int `json:"e"`
	I int     `json:"i"`
}
type jparams struct {
	K                                           string
	Timeout, Prio, Rsub, Reason                 int
	Oid                                         [][]int
	Descr                                       []int
	Upper, Nonrep, Maxrep, Uptime, Error, Index []int
}
type jpdu struct {
	Tag, Flags    int
	Sid, Tid, Pid []int
	Ctx           []int
	Params        jparams
	Ranges        []jrange
	Vbs           []jvb
}

func u32of(w []int) uint32 {
	var v uint32
	for _, b := range w {
		v = v<<8 | uint32(b)
	}
	return v
}
func u64of(w []int) uint64 {
	var v uint64
	for _, b := range w {
		v = v<<8 | uint64(b)
	}
	return v
}
func bytesOf(w []int) []byte {
	r := make([]byte, len(w))
	for i, b := range w {
		r[i] = byte(b)
	}
	return r
}
func oidOf(ws [][]int) []uint32 {
	if len(ws) == 0 {
		return nil
	}
	r := make([]uint32, len(ws))
	for i, w := range ws {
		r[i] = u32of(w)
	}
	return r
}
func (v jval) ints() (r []int) { must(json.Unmarshal(v.B, &r)); return }
func (v jval) value() interface{} {
	switch v.K {
	case "i32":
		return int32(u32of(v.ints()))
	case "u32":
		return u32of(v.ints())
	case "u64":
		return u64of(v.ints())
	case "str":
		return string(bytesOf(v.ints()))
	case "opq":
		return bytesOf(v.ints())
	case "ip":
		var a [4]byte
		copy(a[:], bytesOf(v.ints()))
		return a
	case "oid":
		var ws [][]int
		must(json.Unmarshal(v.B, &ws))
		r := oidOf(ws)
		if r == nil {
			r = []uint32{}
		}
		return r
	}
	return nil
}
func (q jparams) params() agentx.PayloadParams {
	switch q.K {
	case "none":
		return agentx.NoParams{}
	case "open":
		return agentx.OpenParams{Timeout: byte(q.Timeout), Oid: oidOf(q.Oid), Description: string(bytesOf(q.Descr))}
	case "close":
		return agentx.CloseParams{Reason: agentx.CloseReason(q.Reason)}
	case "reg":
		return agentx.RegisterParams{Timeout: byte(q.Timeout), Priority: byte(q.Prio), RangeSubid: byte(q.Rsub),
			Subtree: oidOf(q.Oid), UpperBound: u32of(q.Upper)}
	case "unreg":
		return agentx.UnregisterParams{Priority: byte(q.Prio), RangeSubid: byte(q.Rsub),
			Subtree: oidOf(q.Oid), UpperBound: u32of(q.Upper)}
	case "bulk":
		return agentx.GetBulkParams{NonRepeaters: int16(u32of(q.Nonrep)), MaxRepeatitions: int16(u32of(q.Maxrep))}
	case "addcaps":
		return agentx.AddAgentCapsParams{Oid: oidOf(q.Oid), Description: string(bytesOf(q.Descr))}
	case "remcaps":
		return agentx.RemoveAgentCapsParams{Oid: oidOf(q.Oid)}
	case "resp":
		return agentx.ResponseParams{SysUpTime: u32of(q.Uptime), Error: pduerror.Error(u32of(q.Error)), Index: int16(u32of(q.Index))}
	}
	return nil
}
func (j *jpdu) pdu() agentx.Pdu {
	p := agentx.Pdu{Tag: agentx.PduTag(j.Tag), Flags: agentx.Flags(j.Flags), SessionId: u32of(j.Sid),
		TransactionId: u32of(j.Tid), PacketId: u32of(j.Pid), Context: string(bytesOf(j.Ctx)), Params: j.Params.params()}
	for _, r := range j.Ranges {
		p.Ranges = append(p.Ranges, agentx.SearchRange{StartOid: oidOf(r.S), EndOid: oidOf(r.E), StartIncluded: byte(r.I)})
	}
	for _, v := range j.Vbs {
		p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: oidOf(v.O), Tag: asn.Tag(v.T), Value: v.V.value()})
	}
	return p
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

func readCorpus() (cs []corpusCase) {
	if corpusFile == "" {
		return
	}
	f, err := os.Open(corpusFile)
	must(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var c corpusCase
		must(json.Unmarshal(sc.Bytes(), &c))
		cs = append(cs, c)
	}
	return
}

func corpusPdus() (ps []agentx.Pdu) {
	for _, c := range readCorpus() {
		if c.P != nil {
			ps = append(ps, c.P.pdu())
		}
	}
	return
}

func corpusRaw() (bs [][]byte) {
	for _, c := range readCorpus() {
		if c.P == nil && c.B != nil {
			bs = append(bs, bytesOf(c.B))
		}
	}
	return
}
