package main

import (
	"reflect"
	"strings"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/internal"
)

// ---- C22: struct texts and line diffs

// types that say themselves how they print, and some that only look so
type ownPrint struct{ S string }

func (x ownPrint) Fprint(sb *strings.Builder) { sb.WriteString("<" + x.S) }

type ownString int16

func (x ownString) String() string { return "s" + string(rune('a'+int(x)&15)) }

type ownBoth string

func (x ownBoth) Fprint(sb *strings.Builder) { sb.WriteString("f:" + string(x)) }
func (x ownBoth) String() string             { return "not this" }

type ownText string
type ownNamed uint8

func (x ownNamed) String() ownText { return ownText(rune('A' + int(x)&15)) }

type ptrPrint struct{ A int8 }

func (x *ptrPrint) String() string { return "ptr" }

type oddPrint struct{ A uint16 }

func (x oddPrint) Fprint(sb *strings.Builder) int { sb.WriteString("odd"); return 1 }

type oddPrint2 struct{ A uint16 }

func (x oddPrint2) Fprint(s string) {}

type oddPrint3 int8

func (x oddPrint3) Fprint(sb *strings.Builder, n int) {}
func (x oddPrint3) String(n int) string               { return "odd" }

type badString int32

func (x badString) String() int { return 7 }

type oddString2 uint32

func (x oddString2) String() (string, error) { return "odd", nil }

type mixed bool

func (x mixed) Fprint() {}
func (x mixed) String() string {
	if x {
		return "yes"
	}
	return "no"
}

// every kind with both methods: the first one counts
type bothBool bool
type bothInt int32
type bothUint uint64
type bothStruct struct{ A, B int8 }
type bothList []int8
type bothOid []uint32
type bothMap map[string]int
type bothArray [2]uint16
type bothFloat float64

func (bothBool) Fprint(sb *strings.Builder)   { sb.WriteString("f1") }
func (bothInt) Fprint(sb *strings.Builder)    { sb.WriteString("f2") }
func (bothUint) Fprint(sb *strings.Builder)   { sb.WriteString("f3") }
func (bothStruct) Fprint(sb *strings.Builder) { sb.WriteString("f4") }
func (bothList) Fprint(sb *strings.Builder)   { sb.WriteString("f5") }
func (bothOid) Fprint(sb *strings.Builder)    { sb.WriteString("f6") }
func (bothMap) Fprint(sb *strings.Builder)    { sb.WriteString("f7") }
func (bothArray) Fprint(sb *strings.Builder)  { sb.WriteString("f8") }
func (bothFloat) Fprint(sb *strings.Builder)  { sb.WriteString("f9") }
func (bothBool) String() string               { return "s1" }
func (bothInt) String() string                { return "s2" }
func (bothUint) String() string               { return "s3" }
func (bothStruct) String() string             { return "s4" }
func (bothList) String() string               { return "s5" }
func (bothOid) String() string                { return "s6" }
func (bothMap) String() string                { return "s7" }
func (bothArray) String() string              { return "s8" }
func (bothFloat) String() string              { return "s9" }

// and every kind with String alone
type saysBool bool
type saysUint uint32
type saysStruct struct{ A, B int8 }
type saysList []int8
type saysOid []uint32
type saysMap map[string]int
type saysStr string

func (saysBool) String() string   { return "t1" }
func (saysUint) String() string   { return "t3" }
func (saysStruct) String() string { return "t4" }
func (saysList) String() string   { return "t5" }
func (saysOid) String() string    { return "t6" }
func (saysMap) String() string    { return "t7" }
func (saysStr) String() string    { return "t8" }

// ifaceMaker makes values of an interface type with methods, nil among them.
func ifaceMaker(t reflect.Type, fill func(v reflect.Value) ev) smaker {
	return smaker{t, func(v reflect.Value) ev {
		if chance(3) {
			return ev{"k": "nil"}
		}
		return fill(v)
	}}
}

func ownFill(text string) func(v reflect.Value) ev {
	return func(v reflect.Value) ev {
		switch v.Kind() {
		case reflect.Bool:
			v.SetBool(chance(2))
		case reflect.Slice:
			if n := rnd.Intn(3); n > 0 {
				v.Set(reflect.MakeSlice(v.Type(), n, n))
			}
		case reflect.Struct:
			v.Field(0).SetInt(int64(rnd.Intn(5)))
		}
		return ev{"k": "own", "b": B(text)}
	}
}

type plainOid []uint32
type plainU32 uint32
type embeds struct { // says what the embedded one says
	ownPrint
	N int8
}
type sayer interface{ String() string }
type printer interface{ Fprint(*strings.Builder) }

type plainInt int64
type plainStr string

// smaker is a type, and a way to fill a value of it and to describe it.
type smaker struct {
	t    reflect.Type
	fill func(v reflect.Value) ev
}

func smk(x interface{}, fill func(v reflect.Value) ev) smaker { return smaker{reflect.TypeOf(x), fill} }

func fieldName() string {
	s := string([]byte{byte('A' + rnd.Intn(26))})
	for n := rnd.Intn(6); n > 0; n-- {
		s += string([]byte{"abz_09XY"[rnd.Intn(8)]})
	}
	return s
}

func genText() string {
	switch rnd.Intn(6) {
	case 0:
		return ""
	case 1:
		return string(genBytes())
	case 2:
		return strings.Repeat("\n", rnd.Intn(3)) + "x" + strings.Repeat("\n", rnd.Intn(3))
	}
	return []string{"abc", "a b", " x ", "<empty>", "%d", "日本", "Name: value"}[rnd.Intn(7)]
}

func intFill(v reflect.Value) ev {
	x := int64(genU32())<<32 | int64(genU32())
	if chance(2) {
		x = int64(int32(genU32()))
	}
	v.SetInt(x >> uint(64-v.Type().Bits()))
	return ev{"k": "int", "b": w64(uint64(v.Int()))}
}
func uintFill(v reflect.Value) ev {
	x := uint64(genU32())<<32 | uint64(genU32())
	v.SetUint(x >> uint(64-v.Type().Bits()))
	return ev{"k": "uint", "b": w64(v.Uint())}
}
func strFill(v reflect.Value) ev {
	v.SetString(genText())
	return ev{"k": "str", "b": B(v.String())}
}

// leafMakers have nothing below them.
var leafMakers = []smaker{
	smk(int(0), intFill), smk(int8(0), intFill), smk(int16(0), intFill), smk(int32(0), intFill), smk(int64(0), intFill), smk(plainInt(0), intFill),
	smk(uint(0), uintFill), smk(uint8(0), uintFill), smk(uint16(0), uintFill), smk(uint32(0), uintFill), smk(uint64(0), uintFill),
	smk(oddPrint3(0), intFill), smk(badString(0), intFill), smk(oddString2(0), uintFill),
	smk(false, func(v reflect.Value) ev { v.SetBool(chance(2)); return ev{"k": "bool", "b": v.Bool()} }),
	smk("", strFill), smk(plainStr(""), strFill),
	smk([]uint32{}, func(v reflect.Value) ev {
		if o := genOid(); o != nil || chance(2) {
			v.Set(reflect.ValueOf(o))
		}
		return ev{"k": "oid", "b": oidJ(v.Interface().([]uint32))}
	}),
	smk(ownPrint{}, func(v reflect.Value) ev {
		v.Field(0).SetString(genText())
		return ev{"k": "own", "b": B("<" + v.Field(0).String())}
	}),
	smk(ownString(0), func(v reflect.Value) ev {
		x := rnd.Intn(16)
		v.SetInt(int64(x))
		return ev{"k": "own", "b": B("s" + string(rune('a'+x)))}
	}),
	smk(ownNamed(0), func(v reflect.Value) ev {
		x := rnd.Intn(16)
		v.SetUint(uint64(x))
		return ev{"k": "own", "b": B(string(rune('A' + x)))}
	}),
	smk(ownBoth(""), func(v reflect.Value) ev {
		v.SetString(genText())
		return ev{"k": "own", "b": B("f:" + v.String())}
	}),
	smk(mixed(false), func(v reflect.Value) ev {
		v.SetBool(chance(2))
		if v.Bool() {
			return ev{"k": "own", "b": B("yes")}
		}
		return ev{"k": "own", "b": B("no")}
	}),
	smk(&ptrPrint{}, func(v reflect.Value) ev { // printed by a method of the pointer
		if chance(3) {
			return ev{"k": "nil"}
		}
		v.Set(reflect.ValueOf(&ptrPrint{3}))
		return ev{"k": "own", "b": B("ptr")}
	}),
	smk(agentx.Flags(0), func(v reflect.Value) ev {
		v.SetUint(16)
		return ev{"k": "own", "b": B("NetworkByteOrder")}
	}),
	smk(plainU32(0), uintFill),
	smk(plainOid{}, func(v reflect.Value) ev {
		if o := genOid(); o != nil || chance(2) {
			v.Set(reflect.ValueOf(plainOid(o)))
		}
		return ev{"k": "oid", "b": oidJ([]uint32(v.Interface().(plainOid)))}
	}),
	smk(embeds{}, func(v reflect.Value) ev {
		v.Set(reflect.ValueOf(embeds{ownPrint{"e"}, 1}))
		return ev{"k": "own", "b": B("<e")}
	}),
	ifaceMaker(reflect.TypeOf((*sayer)(nil)).Elem(), func(v reflect.Value) ev {
		if chance(2) {
			v.Set(reflect.ValueOf(saysStruct{1, 2}))
			return ev{"k": "own", "b": B("t4")}
		}
		v.Set(reflect.ValueOf(saysOid{1}))
		return ev{"k": "own", "b": B("t6")}
	}),
	ifaceMaker(reflect.TypeOf((*printer)(nil)).Elem(), func(v reflect.Value) ev {
		v.Set(reflect.ValueOf(&ownPrint{"p"}))
		return ev{"k": "own", "b": B("<p")}
	}),
	smk(bothBool(false), ownFill("f1")), smk(bothInt(0), ownFill("f2")), smk(bothUint(0), ownFill("f3")), smk(bothStruct{}, ownFill("f4")),
	smk(bothList{}, ownFill("f5")), smk(bothOid{}, ownFill("f6")), smk(bothMap{}, ownFill("f7")), smk(bothArray{}, ownFill("f8")), smk(bothFloat(0), ownFill("f9")),
	smk(saysBool(false), ownFill("t1")), smk(saysUint(0), ownFill("t3")), smk(saysStruct{}, ownFill("t4")), smk(saysList{}, ownFill("t5")),
	smk(saysOid{}, ownFill("t6")), smk(saysMap{}, ownFill("t7")), smk(saysStr(""), ownFill("t8")),
	smk(float64(0), otherFill), smk(float32(0), otherFill), smk(complex64(0), otherFill), smk([2]byte{}, otherFill), smk(map[string]int{}, otherFill),
	smk(func() {}, otherFill), smk(make(chan int), otherFill), smk(uintptr(0), otherFill),
}

func otherFill(v reflect.Value) ev { return ev{"k": "other", "b": B(v.Kind().String())} }

func oneField(name string, t interface{}, f smaker) smaker {
	return smk(t, func(v reflect.Value) ev {
		return ev{"k": "struct", "b": []ev{{"n": B(name), "v": f.fill(v.Field(0))}}}
	})
}

func genMaker(depth int) smaker {
	if depth <= 0 || chance(3) {
		return leafMakers[rnd.Intn(len(leafMakers))]
	}
	switch rnd.Intn(5) {
	case 0:
		return genStructMaker(depth)
	case 1: // a list
		e := genMaker(depth - 1)
		if e.t == reflect.TypeOf(uint32(0)) { // an OID
			return leafMakers[rnd.Intn(14)]
		}
		return smaker{reflect.SliceOf(e.t), func(v reflect.Value) ev {
			n := pick(0, 1, 2, 3, 5)
			l := []ev{}
			if n > 0 || chance(2) {
				v.Set(reflect.MakeSlice(v.Type(), n, n+rnd.Intn(3)))
			}
			for i := 0; i < n; i++ {
				l = append(l, e.fill(v.Index(i)))
			}
			return ev{"k": "list", "b": l}
		}}
	case 2: // what a pointer points to
		e := genMaker(depth - 1)
		if e.t == reflect.TypeOf(ptrPrint{}) {
			return leafMakers[0]
		}
		return smaker{reflect.PtrTo(e.t), func(v reflect.Value) ev {
			if chance(4) {
				return ev{"k": "nil"}
			}
			v.Set(reflect.New(e.t))
			return ev{"k": "ref", "b": e.fill(v.Elem())}
		}}
	case 3: // what an interface holds
		var none interface{}
		return smaker{reflect.TypeOf(&none).Elem(), func(v reflect.Value) ev {
			if chance(4) {
				return ev{"k": "nil"}
			}
			e := genMaker(depth - 1)
			x := reflect.New(e.t).Elem()
			d := e.fill(x)
			v.Set(x)
			return ev{"k": "ref", "b": d}
		}}
	}
	return []smaker{
		oneField("A", ptrPrint{}, leafMakers[1]),
		oneField("A", oddPrint{}, leafMakers[8]),
		oneField("A", oddPrint2{}, leafMakers[8]),
	}[rnd.Intn(3)]
}

func genStructMaker(depth int) smaker {
	var fs []reflect.StructField
	var ms []smaker
	seen := map[string]bool{}
	for n := pick(0, 1, 2, 3, 4, 6); n > 0; n-- {
		name := fieldName()
		if seen[name] {
			continue
		}
		seen[name] = true
		m := genMaker(depth - 1)
		fs = append(fs, reflect.StructField{Name: name, Type: m.t})
		ms = append(ms, m)
	}
	return smaker{reflect.StructOf(fs), func(v reflect.Value) ev {
		l := []ev{}
		for i, m := range ms {
			l = append(l, ev{"n": B(fs[i].Name), "v": m.fill(v.Field(i))})
		}
		return ev{"k": "struct", "b": l}
	}}
}

func lineDiffEvent(a, b string) {
	var s string
	pan := call(func() ev { return ev{"op": "internal.StringsLinesDiff", "a": B(a), "b": B(b)} }, func() { s = internal.StringsLinesDiff(a, b) })
	emitStateless(ev{"e": "ldiff", "a": B(a), "b": B(b), "s": B(s), "pan": pan})
}

func scenC22(n int) {
	made := func(m smaker) (interface{}, ev) {
		v := reflect.New(m.t).Elem()
		d := m.fill(v)
		return v.Interface(), d
	}
	text := func(m smaker) {
		x, d := made(m)
		depth := pick(0, 0, 1, 2, 5, 6, 7, 8, 9, 20)
		var s string
		pan := call(func() ev { return ev{"op": "internal.StructString", "v": d, "depth": depth} }, func() { s = internal.StructString(x, depth) })
		emitStateless(ev{"e": "stext", "v": d, "depth": depth, "s": B(s), "pan": pan})
	}
	for i := 0; i < n; i++ {
		text(genStructMaker(pick(1, 2, 3, 4)))
	}
	for _, m := range leafMakers {
		if m.t.Kind() != reflect.Struct && m.t.Kind() != reflect.Interface {
			text(m)
		}
	}
	deep := leafMakers[3]
	for k := 0; k < 14; k++ { // structs in structs
		e := deep
		deep = smaker{reflect.StructOf([]reflect.StructField{{Name: "X", Type: e.t}, {Name: "Y", Type: reflect.TypeOf(int8(0))}}), func(v reflect.Value) ev {
			return ev{"k": "struct", "b": []ev{{"n": B("X"), "v": e.fill(v.Field(0))}, {"n": B("Y"), "v": intFill(v.Field(1))}}}
		}}
		text(deep)
	}
	for i := 0; i < n/2; i++ { // two structs, often alike
		m := genStructMaker(pick(1, 2, 3))
		x, dx := made(m)
		y, dy := made(m)
		if chance(4) {
			y, dy = x, dx
		}
		if chance(8) {
			y, dy = made(genStructMaker(2))
		}
		var s string
		pan := call(func() ev { return ev{"op": "internal.StructsDiff", "v": dx, "w": dy} }, func() { s = internal.StructsDiff(x, y) })
		emitStateless(ev{"e": "sdiff", "v": dx, "w": dy, "s": B(s), "pan": pan})
	}
	for _, c := range readCorpus() {
		if len(c.Hx) == 2 {
			lineDiffEvent(string(bytesOf(c.Hx[0])), string(bytesOf(c.Hx[1])))
		}
	}
	line := func() string {
		return []string{"", "a", "b", " a", "a ", "\u250ca", "\u2514", "Tag: Get", "\r", "\x00", "\t", string(genBytes())}[rnd.Intn(12)]
	}
	for i := 0; i < n; i++ {
		var l []string
		for k := rnd.Intn(8); k >= 0; k-- {
			l = append(l, line())
		}
		m := append([]string{}, l...)
		for k := rnd.Intn(3); k > 0; k-- {
			j := rnd.Intn(len(m))
			switch rnd.Intn(3) {
			case 0:
				m[j] = line()
			case 1:
				m = append(m[:j], m[min(j+1, len(m)-1):]...)
			default:
				m = append(m, line())
			}
		}
		a, b := strings.Join(l, "\n"), strings.Join(m, "\n")
		if chance(2) {
			a, b = b, a
		}
		lineDiffEvent(a, b)
	}
	for i := 0; i < n; i++ { // two texts that differ in next to nothing
		var l []string
		for k := rnd.Intn(5); k >= 0; k-- {
			l = append(l, line())
		}
		a := strings.Join(l, "\n")
		b := []byte(a)
		alike := [][2]string{{"a", "A"}, {"Get", "get"}, {"k", "\u212a"}, {"s", "\u017f"}, {"\u00e9", "e\u0301"}, {"\u00e9", "\xe9"}, {"\xff", "\ufffd"},
			{" ", ""}, {" ", "\t"}, {" ", "\u00a0"}, {"\r", ""}, {"\n", "\r\n"}, {"\n", "\n\n"}, {"\n", ""}, {"0", "00"}, {"1", "01"}, {"\x00", ""}, {"\u250c", "\u2514"}, {"1.0", "1"}}
		j := rnd.Intn(len(b) + 1)
		switch p := alike[rnd.Intn(len(alike))]; {
		case chance(3) && j < len(b): // one bit
			b[j] ^= 1 << uint(rnd.Intn(8))
		case chance(3) && j+1 < len(b): // two neighbours
			b[j], b[j+1] = b[j+1], b[j]
		default:
			a = a[:j] + p[0] + a[j:]
			b = append(append(append([]byte{}, b[:j]...), p[1]...), b[j:]...)
		}
		lineDiffEvent(a, string(b))
		if chance(2) {
			lineDiffEvent(string(b), a)
		}
	}
	for _, k := range []int{100, 255, 256, 257, 1000, 1025, 4097} { // many lines
		a := strings.Repeat("l\n", k)
		lineDiffEvent(a, a+"x")
		lineDiffEvent(a+"y", a)
		lineDiffEvent(a[:2*k-4]+"z\nl", a)
		lineDiffEvent("", a)
	}
	for _, k := range []int{127, 128, 255, 256, 1023, 1024, 4096, 5000} { // long lines
		a := strings.Repeat("l", k)
		lineDiffEvent(a+"\nx", a+"\ny")
		lineDiffEvent("x\n"+a, "x\n"+a+"y")
		lineDiffEvent(a+"x\n\n", a+"y\n\n")
	}
	for _, k := range []int{33, 100, 257, 1000, 3000} { // long lists, structs of many fields
		e := leafMakers[1]
		list := smaker{reflect.SliceOf(e.t), func(v reflect.Value) ev {
			l := []ev{}
			v.Set(reflect.MakeSlice(v.Type(), k, k))
			for i := 0; i < k; i++ {
				l = append(l, e.fill(v.Index(i)))
			}
			return ev{"k": "list", "b": l}
		}}
		text(smaker{reflect.StructOf([]reflect.StructField{{Name: "L", Type: list.t}, {Name: "N", Type: e.t}}), func(v reflect.Value) ev {
			return ev{"k": "struct", "b": []ev{{"n": B("L"), "v": list.fill(v.Field(0))}, {"n": B("N"), "v": e.fill(v.Field(1))}}}
		}})
		if k > 300 {
			continue
		}
		var fs []reflect.StructField
		for i := 0; i < k; i++ {
			fs = append(fs, reflect.StructField{Name: "F" + string([]byte{byte('a' + i/26%26), byte('a' + i%26)}), Type: e.t})
		}
		text(smaker{reflect.StructOf(fs), func(v reflect.Value) ev {
			l := []ev{}
			for i := range fs {
				l = append(l, ev{"n": B(fs[i].Name), "v": e.fill(v.Field(i))})
			}
			return ev{"k": "struct", "b": l}
		}})
	}
}

func init() {
	scenarios["C22"] = scenC22
}
