package kafkamock

import (
	"math"
	"reflect"

	"github.com/google/uuid"
)

// The codec guarantees (C01-C07) at sizes where length prefixes grow, buffers are refilled and counts
// pass 8, 14, 15, 16 and 21 bits. Bulk contents are concrete; a few bytes or elements are arbitrary.

// vBulk is n bytes, four of them arbitrary: the first, the last, one in the middle and the 4096th.
func vBulk(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8)
	}
	for _, i := range []int{0, 4095, n / 2, n - 1} {
		if i >= 0 && i < n {
			b[i] = vU8(name)
		}
	}
	return b
}

var vBulkLens = []int{4095, 8190, 8191, 8192, 16383, 16384, 32768, 65535, 70000, 1<<20 - 2, 1<<20 - 1, 1 << 20, 1<<21 + 1}

// Byte arrays and compact strings of 16 KB to 2 MB, after up to five other bytes and before a trailing value.
//verif prop=C02 weight=2 reach=huge steps=400000000 timeout=60
func vC02Huge() {
	k := vPick("type", 6)
	n := vBulkLens[vPick("n", len(vBulkLens))]
	if k >= 4 && n > 70000 { // element by element in the code: smaller
		n = 66000 + n&7
	}
	b := vBulk("b", n)
	var v any
	var body []byte
	switch k {
	case 0:
		v, body = CompactString(b), vCat(vRefLen(n), b)
	case 1:
		s := CompactString(b)
		v, body = CompactNullableString(&s), vCat(vRefLen(n), b)
	case 2:
		v, body = NullableBytes(b), vCat(vRefBE(uint64(n), 4), b)
	case 3:
		v, body = CompactNullableBytes(b), vCat(vRefLen(n), b)
	case 4:
		v, body = b, vCat(vRefBE(uint64(n), 4), b)
	case 5:
		v, body = CompactBytes(b), vCat(vRefLen(n), b)
	}
	z := vI32("z")
	w := vEncAll(int8(7), v, z)
	vAssert(len(w) == 1+len(body)+4, "a long value is written with the wrong length")
	vAssert(vBytesEq(w[1:1+len(body)], body), "a long value is written wrongly")
	rd := vReader(w)
	next, o := peekObject(rd, 1, vTypeOf(v))
	vAssert(next == 1+len(body), "a long value is not consumed exactly")
	var got []byte
	switch y := o.(type) {
	case CompactString:
		got = []byte(y)
	case CompactNullableString:
		got = []byte(*y)
	case NullableBytes:
		got = y
	case CompactNullableBytes:
		got = y
	case []byte:
		got = y
	case CompactBytes:
		got = y
	}
	vAssert(reflect.TypeOf(o) == vTypeOf(v), "a long value is decoded as another type")
	vAssert(len(got) == n && vBytesEq(got, b), "the contents of a long value changed")
	next, o = peekObject(rd, next, vTypeOf(z))
	y, ok := o.(int32)
	vAssert(ok && next == len(w) && y == z, "the value after a long value changed")
	vReach("huge")
}

// Strings of every length near 2^15-1, the longest the format carries, and null and empty around them.
//verif prop=C02 reach=long steps=100000000
func vC02Long() {
	type row struct {
		A string
		N NullableString
		B NullableString
		C NullableBytes
		D CompactNullableString
		E string
	}
	s := string(vBulk("s", []int{255, 256, 16383, 16384, 32765, 32766, 32767}[vPick("n", 7)]))
	var r row
	r.A = s
	r.B = &s
	r.E = vStr("e", 1)
	if vPick("null", 2) == 0 {
		r.C = []byte(s)
		c := CompactString(s)
		r.D = &c
	}
	b := vEnc(r)
	next, o := peekObject(vReader(b), 0, vTypeOf(r))
	y, ok := o.(row)
	vAssert(ok && next == len(b), "a row of long strings is not decoded completely")
	vAssert(vStrEq(y.A, s) && y.N == nil && y.B != nil && vStrEq(*y.B, s) && vStrEq(y.E, r.E), "a long string in a row changed")
	vAssert((y.C == nil) == (r.C == nil) && (y.D == nil) == (r.D == nil), "null and present are confused after a long string")
	if r.C != nil {
		vAssert(vBytesEq(y.C, r.C) && vStrEq(string(*y.D), s), "long bytes in a row changed")
	}
	vReach("long")
}

var vBulkCounts = []int{127, 128, 255, 256, 8191, 16383, 16384, 32768, 65536}

// Arrays of up to 65536 elements, plain and compact, of numbers, strings, structures and byte arrays.
//verif prop=C03 weight=2 reach=wide steps=400000000 timeout=60
func vC03Wide() {
	type el struct {
		A int16
		S string
	}
	type m struct {
		H  int32
		N  []int32
		C  []VarInt64 `kafka:"compact"`
		E  []el
		CE []*el `kafka:"compact"`
		S  []CompactString `kafka:"compact"`
		Z  int32
	}
	k := vPick("kind", 5)
	n := vBulkCounts[vPick("n", len(vBulkCounts))]
	if k > 1 && n > 8191 && !vThorough() {
		n = 16384 + n&3
	}
	x := m{H: vI32("h"), Z: vI32("z")}
	a, s := vI32("a"), vStr("s", 2)
	at := func(i int) bool { return i == 0 || i == n-1 || i == 128 || i == 16383 }
	for i := 0; i < n; i++ {
		switch k {
		case 0:
			x.N = append(x.N, int32(i*77777))
		case 1:
			x.C = append(x.C, VarInt64(i*i-5))
		case 2:
			x.E = append(x.E, el{int16(i), ""})
		case 3:
			x.CE = append(x.CE, &el{int16(i), "q"})
		case 4:
			x.S = append(x.S, "y")
		}
		if at(i) {
			switch k {
			case 0:
				x.N[i] = a
			case 1:
				x.C[i] = VarInt64(a)
			case 2:
				x.E[i].S = s
			case 3:
				x.CE[i].S = s
			case 4:
				x.S[i] = CompactString(s)
			}
		}
	}
	b := vEnc(x)
	next, o := peekObject(vReader(b), 0, vTypeOf(x))
	y, ok := o.(m)
	vAssert(ok && next == len(b), "a message with a long array is not decoded completely")
	vAssert(y.H == x.H && y.Z == x.Z, "a field beside a long array changed")
	vAssert(len(y.N) == len(x.N) && len(y.C) == len(x.C) && len(y.E) == len(x.E) && len(y.CE) == len(x.CE) && len(y.S) == len(x.S), "a long array changed its length")
	vAssert((y.N == nil) == (x.N == nil) && (y.C == nil) == (x.C == nil) && (y.E == nil) == (x.E == nil) && (y.CE == nil) == (x.CE == nil) && (y.S == nil) == (x.S == nil), "null and empty arrays are confused beside a long one")
	for i := 0; i < n; i++ {
		switch k {
		case 0:
			vAssert(y.N[i] == x.N[i], "an element of a long array changed")
		case 1:
			vAssert(y.C[i] == x.C[i], "an element of a long compact array changed")
		case 2:
			vAssert(y.E[i].A == x.E[i].A && vStrEq(y.E[i].S, x.E[i].S), "a structure in a long array changed")
		case 3:
			vAssert(y.CE[i] != nil && y.CE[i].A == x.CE[i].A && vStrEq(y.CE[i].S, x.CE[i].S), "a structure in a long compact array changed")
			vAssert(i == 0 || y.CE[i] != y.CE[i-1], "two elements of a long array share one structure")
		case 4:
			vAssert(vStrEq(string(y.S[i]), string(x.S[i])), "a string in a long compact array changed")
		}
	}
	vReach("wide")
}

type vTree struct {
	V    VarInt
	Kids []vTree
	More []*vTree `kafka:"compact"`
}

// Messages nested 2 to 400 levels deep.
//verif prop=C03 reach=deep steps=100000000
func vC03Deep() {
	d := []int{2, 9, 10, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 256, 400}[vPick("depth", 15)]
	v := VarInt(vI32("v"))
	t := vTree{V: v, Kids: []vTree{}}
	for i := d; i > 0; i-- {
		in := t
		u := vTree{V: VarInt(i)}
		switch i % 3 {
		case 0:
			u.Kids = []vTree{t}
		case 1:
			u.More = []*vTree{&in}
		case 2:
			u.Kids, u.More = []vTree{t, {V: 9}}, []*vTree{{V: v}}
		}
		t = u
	}
	b := vEnc(t)
	next, o := peekObject(vReader(b), 0, vTypeOf(t))
	x, ok := o.(vTree)
	vAssert(ok && next == len(b), "a deeply nested message is not decoded completely")
	for i := 1; i <= d; i++ {
		vAssert(x.V == VarInt(i), "a value in a deeply nested message changed")
		switch i % 3 {
		case 0:
			vAssert(len(x.Kids) == 1 && x.More == nil, "the shape of a deeply nested message changed")
			x = x.Kids[0]
		case 1:
			vAssert(x.Kids == nil && len(x.More) == 1 && x.More[0] != nil, "the shape of a deeply nested message changed")
			x = *x.More[0]
		case 2:
			vAssert(len(x.Kids) == 2 && len(x.More) == 1 && x.Kids[1].V == 9 && x.Kids[1].Kids == nil && x.More[0].V == v, "the shape of a deeply nested message changed")
			x = x.Kids[0]
		}
	}
	vAssert(x.V == v && x.Kids != nil && len(x.Kids) == 0 && x.More == nil, "the innermost message changed")
	next, _ = peekObject(vReader(b[:len(b)-1]), 0, vTypeOf(t))
	vAssert(next < 0, "a truncated deeply nested message was not reported incomplete")
	vReach("deep")
}

type vForty struct {
	A00 int8
	A01 bool
	A02 string
	A03 int64
	A04 NullableString
	A05 []int8
	A06 uint16
	A07 VarUint64
	A08 vInner
	A09 *vInner
	A10 float64
	A11 uuid.UUID
	A12 uint8
	A13 CompactNullableBytes
	A14 int16
	A15 []vInner `kafka:"compact"`
	A16 int32
	A17 uint32
	A18 uint64
	A19 VarInt
	A20 NullableBytes
	A21 CompactString
	A22 CompactNullableString
	A23 []byte
	A24 CompactBytes
	A25 VarUint
	A26 VarInt64
	A27 bool
	A28 int8
	A29 int8
	A30 int8
	A31 int8
	A32 int8
	A33 int8
	A34 string
	A35 []string
	A36 [][]int16
	A37 int64
	A38 int8
	A39 bool
}

// A structure of forty fields of every wire type.
//verif prop=C03 weight=2 reach=forty
func vC03Forty() { vForties(false) }

// Every strict prefix of a structure of forty fields of every wire type.
//verif prop=C05 reach=cut
func vC05Forty() { vForties(true) }

func vForties(cut bool) {
	var x vForty
	s, cs := vStr("ns", 2), CompactString(vStr("cns", 1))
	x.A00, x.A01, x.A02, x.A03 = vI8("0"), vBool("1"), vStr("2", 2), vI64("3")
	x.A05, x.A06, x.A07 = []int8{vI8("5"), 2}, vU16("6"), 1<<40
	x.A08, x.A09 = vInner{-70, "in"}, &vInner{3, vStr("9", 1)}
	x.A10 = math.Float64frombits(0x7ff8000000000001)
	copy(x.A11[:], vBytes("11", 16))
	x.A12, x.A13, x.A14 = vU8("12"), vBytes("13", 2), vI16("14")
	x.A15 = []vInner{{1, "a"}, {64, ""}}
	x.A16, x.A17, x.A18, x.A19 = vI32("16"), vU32("17"), vU64("18"), -1
	x.A20, x.A21, x.A23, x.A24 = vBytes("20", 1), CompactString(vStr("21", 1)), vBytes("23", 2), vBytes("24", 1)
	x.A25, x.A26, x.A27 = 128, -1<<40, true
	x.A28, x.A29, x.A30, x.A31, x.A32, x.A33 = vI8("28"), 29, 30, vI8("31"), vI8("32"), vI8("33")
	x.A34, x.A35, x.A36 = vStr("34", 1), []string{vStr("35", 1), ""}, [][]int16{{vI16("36")}, {}}
	x.A37, x.A38, x.A39 = vI64("37"), vI8("38"), false
	if vPick("null", 2) == 0 {
		x.A04, x.A22 = &s, &cs
	} else {
		x.A13, x.A15, x.A20, x.A35 = nil, nil, nil, nil
	}
	b := vEnc(x)
	if cut {
		k := vConcrete(vInt("at", 0, int64(len(b)-1)))
		next, _ := peekObject(vReader(b[:k]), 0, vTypeOf(x))
		vAssert(next < 0, "a truncated structure was not reported incomplete")
		vReach("cut")
		return
	}
	next, o := peekObject(vReader(b), 0, vTypeOf(x))
	y, ok := o.(vForty)
	vAssert(ok && next == len(b), "a structure of many fields is not decoded completely")
	vAssert((y.A04 == nil) == (x.A04 == nil) && (y.A13 == nil) == (x.A13 == nil) && (y.A15 == nil) == (x.A15 == nil) && (y.A20 == nil) == (x.A20 == nil) && (y.A22 == nil) == (x.A22 == nil) && (y.A35 == nil) == (x.A35 == nil), "null and present are confused in a structure of many fields")
	vAssert(y.A09 != nil, "a structure pointer is lost")
	vAssert(vAnd(y.A00 == x.A00, y.A01 == x.A01, vStrEq(y.A02, x.A02), y.A03 == x.A03, y.A06 == x.A06, y.A07 == x.A07, vInnerEq(y.A08, x.A08), vInnerEq(*y.A09, *x.A09)), "one of the fields 0..9 changed")
	vAssert(math.Float64bits(y.A10) == 0x7ff8000000000001 && vBytesEq(y.A11[:], x.A11[:]), "the floating point number or UUID changed")
	vAssert(vAnd(y.A12 == x.A12, vBytesEq(y.A13, x.A13), y.A14 == x.A14, y.A16 == x.A16, y.A17 == x.A17, y.A18 == x.A18, y.A19 == x.A19), "one of the fields 12..19 changed")
	vAssert(vAnd(vBytesEq(y.A20, x.A20), vStrEq(string(y.A21), string(x.A21)), vBytesEq(y.A23, x.A23), vBytesEq(y.A24, x.A24), y.A25 == x.A25, y.A26 == x.A26, y.A27 == x.A27), "one of the fields 20..27 changed")
	vAssert(vAnd(y.A28 == x.A28, y.A29 == 29, y.A30 == 30, y.A31 == x.A31, y.A32 == x.A32, y.A33 == x.A33, vStrEq(y.A34, x.A34), y.A37 == x.A37, y.A38 == x.A38, y.A39 == x.A39), "one of the fields 28..39 changed")
	vAssert(len(y.A05) == 2 && len(y.A15) == len(x.A15) && len(y.A35) == len(x.A35) && len(y.A36) == 2 && len(y.A36[0]) == 1 && len(y.A36[1]) == 0, "an array changed its length")
	vAssert(vAnd(y.A05[0] == x.A05[0], y.A05[1] == 2, y.A36[0][0] == x.A36[0][0]), "an array element changed")
	if x.A15 != nil {
		vAssert(vAnd(vInnerEq(y.A15[0], x.A15[0]), vInnerEq(y.A15[1], x.A15[1]), vStrEq(y.A35[0], x.A35[0]), vStrEq(y.A35[1], "")), "an array element changed")
		vAssert(vStrEq(*y.A04, s) && vStrEq(string(*y.A22), string(cs)), "a nullable string changed")
	}
	vReach("forty")
}

// Cuts of long values: arrays, structures, strings and tagged fields of up to 2 MB.
//verif prop=C05 reach=cut steps=400000000 timeout=60
func vC05Huge() {
	type m struct {
		A int32
		L []int16
		C []int16 `kafka:"compact"`
		S CompactString
		T int8
	}
	n := []int{130, 16384, 40000}[vPick("n", vTier(2, 3))]
	x := m{A: vI32("a"), L: []int16{}, C: []int16{}, T: vI8("t")}
	switch vPick("kind", 3) {
	case 0:
		x.L = make([]int16, n)
	case 1:
		x.C = make([]int16, n)
	case 2:
		x.S = CompactString(vBulk("s", n*50))
	}
	b := vEnc(x)
	k := []int{1, 4, 7, 8, 9, 10, 11, 255, 256, 257, n, 2 * n, len(b) / 2, len(b) - 3, len(b) - 2, len(b) - 1}[vPick("cut", 16)]
	vAssume(k < len(b))
	next, _ := peekObject(vReader(b[:k]), 0, vTypeOf(x))
	vAssert(next < 0, "a truncated long structure was not reported incomplete")
	next, _ = peekObject(vReader(b), 0, vTypeOf(x))
	vAssert(next == len(b), "the completed long structure is not decoded exactly")
	vReach("cut")
}

// Counts and lengths that do and do not match 20000 bytes of data, for every wire type that has one.
//verif prop=C06 weight=2 reach=value,incomplete steps=400000000 timeout=60
func vC06Counts() {
	type el struct {
		A int16
		S string
	}
	type c struct {
		X []el `kafka:"compact"`
	}
	type p struct {
		X []*el
	}
	ts := []reflect.Type{vTypeOf(""), vTypeOf(NullableString(nil)), vTypeOf(CompactString("")), vTypeOf(CompactNullableString(nil)), vTypeOf(NullableBytes(nil)), vTypeOf(CompactNullableBytes(nil)), vTypeOf(CompactBytes(nil)), vTypeOf([]byte(nil)),
		vTypeOf([]int64(nil)), vTypeOf([]el(nil)), vTypeOf(c{}), vTypeOf(p{}), vTypeOf([][]int16(nil)), vTypeOf([][][]el(nil)), vTypeOf([]CompactNullableString(nil))}
	t := ts[vPick("type", len(ts))]
	const n = 20000
	cnt := []uint64{0, 1, n / 8, n / 4, n / 2, n - 1, n, n + 1, 32767, 32768, 65535, 65536, 1<<24 - 1, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1, 1<<35 - 1, 1<<63 - 1, 1 << 63, 1<<64 - 1}[vPick("count", 21)]
	var pre []byte
	switch vPick("prefix", 3) {
	case 0:
		pre = vRefBE(cnt, 4)
	case 1:
		pre = vRefVar(cnt)
	case 2:
		pre = vRefBE(cnt, 2)
	}
	b := append(pre, make([]byte, n)...)
	if vPick("fill", 2) == 1 {
		for i := len(pre); i < len(b); i++ {
			b[i] = 1
		}
	}
	vDecodeAny(b, 0, t)
}

// Many tagged fields (up to 300; 17000 in the thorough tier), or large ones (up to 2 MB), some known.
//verif prop=C07 weight=2 reach=many steps=400000000 timeout=60
func vC07Many() {
	n := []int{9, 10, 17, 127, 128, 129, 300, 17000}[vPick("n", vTier(7, 8))]
	step := []int{1, 3, 130}[vPick("step", 3)]
	v, s := vI32("v"), vStr("s", 3)
	tags := map[int]any{}
	fields := map[int]*kafkaField{}
	var want []byte
	want = append(want, vRefVar(uint64(n))...)
	wire := map[int][]byte{}
	for i := 0; i < n; i++ {
		var x any
		switch i % 4 {
		case 0:
			x = VarInt(i * 50)
		case 1:
			x = v
		case 2:
			x = s
		case 3:
			x = CompactString(vLong('c', 120+i%20))
		}
		w := vEnc(x)
		wire[i] = w
		want = append(want, vRefVar(uint64(i*step))...)
		want = append(want, vRefVar(uint64(len(w)))...)
		want = append(want, w...)
	}
	for j := 0; j < n; j++ { // scattered order of insertion
		i := (j*7 + 3) % n
		if n%7 == 0 {
			i = n - 1 - j
		}
		switch i % 4 {
		case 0:
			tags[i*step] = VarInt(i * 50)
		case 1:
			tags[i*step] = v
		case 2:
			tags[i*step] = s
		case 3:
			tags[i*step] = CompactString(vLong('c', 120+i%20))
		}
		if i%3 != 0 {
			fields[i*step] = &kafkaField{valType: vTypeOf(tags[i*step])}
		}
	}
	b := vEncTags(tags)
	vAssert(len(b) == len(want) && vBytesEq(b, want), "many tagged fields are not written in ascending order with exact sizes")
	all := vCat([]byte{1, 2}, b, []byte{9})
	next, got := peekTags(vReader(all), 2, fields)
	vAssert(next == 2+len(b), "decoding many tagged fields does not consume exactly what was written")
	vAssert(len(got) == n, "the set of many tagged fields changed")
	for i := 0; i < n; i++ {
		o, ok := got[i*step]
		vAssert(ok, "one of many tagged fields is lost")
		if i%3 == 0 {
			raw, ok := o.([]byte)
			vAssert(ok && vBytesEq(raw, wire[i]), "one of many unknown tagged fields is not returned as its raw bytes")
			continue
		}
		vAssert(reflect.TypeOf(o) == vTypeOf(tags[i*step]) && vBytesEq(vEnc(o), wire[i]), "one of many known tagged fields has the wrong value")
	}
	next, _ = peekTags(vReader(all[:len(all)-2]), 2, fields)
	vAssert(next < 0, "many truncated tagged fields were not reported incomplete")
	vReach("many")
}

// A large tagged field (16 KB to 2 MB), known or not, between small ones, at small and large ids.
//verif prop=C07 reach=large steps=400000000 timeout=60
func vC07Large() {
	n := []int{16381, 16382, 16383, 16384, 32768, 65536, 1<<21 - 4, 1<<21 + 1}[vPick("n", 8)]
	id := []int{4, 127, 128, 16383, 16384, 1 << 21, 1<<28 - 1, 1 << 28, 1<<31 - 1}[vPick("id", 9)]
	s := NullableBytes(vBulk("s", n))
	x := vI32("x")
	tags := map[int]any{id: s, 0: x, id - 1: int8(3)}
	b := vEncTags(tags)
	w := vCat(vRefBE(uint64(n), 4), s)
	want := vCat([]byte{3, 0, 4}, vRefBE(uint64(x), 4), vRefVar(uint64(id-1)), []byte{1, 3}, vRefVar(uint64(id)), vRefVar(uint64(n+4)), w)
	vAssert(len(b) == len(want) && vBytesEq(b, want), "a large tagged field is written wrongly")
	fields := map[int]*kafkaField{0: {valType: vTypeOf(x)}}
	known := vPick("known", 2) == 1
	if known {
		fields[id] = &kafkaField{valType: vTypeOf(s)}
	}
	next, got := peekTags(vReader(b), 0, fields)
	vAssert(next == len(b) && len(got) == 3, "a large tagged field is not consumed exactly")
	y, ok := got[0].(int32)
	vAssert(ok && y == x, "the field before a large one changed")
	if known {
		z, ok := got[id].(NullableBytes)
		vAssert(ok && vBytesEq(z, s), "a large known tagged field changed")
	} else {
		z, ok := got[id].([]byte)
		vAssert(ok && vBytesEq(z, w), "a large unknown tagged field's bytes changed")
	}
	next, _ = peekTags(vReader(b[:len(b)-1]), 0, fields)
	vAssert(next < 0, "a truncated large tagged field was not reported incomplete")
	vReach("large")
}
