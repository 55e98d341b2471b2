package kafkamock

type vInner struct {
	N VarInt
	S string
}

type vMid struct {
	A int16
	P *vInner
	L []vInner
}

type vOuter struct {
	H  int32
	M  vMid
	C  []vMid `kafka:"compact"`
	NS NullableString
	I  []int32
	S  []string
	CI []VarInt64 `kafka:"compact"`
	T  uint8
}

func vMkInner(n string) vInner { return vInner{VarInt(vI32(n + ".n")), vStr(n+".s", vPick(n+".len", 3))} }

func vInnerEq(a, b vInner) bool { return vAnd(a.N == b.N, vStrEq(a.S, b.S)) }

func vMidEq(a, b vMid) bool {
	if b.P == nil || len(a.L) != len(b.L) || (a.L == nil) != (b.L == nil) {
		return false
	}
	r := vAnd(a.A == b.A, vInnerEq(*a.P, *b.P))
	for i := range a.L {
		r = vAnd(r, vInnerEq(a.L[i], b.L[i]))
	}
	return r
}

// Nested structures, structure pointers, arrays (0..2 elements or null) and strings, contents arbitrary.
//verif prop=C03 weight=2 reach=msg
func vC03Mid() {
	in := vMkInner("p")
	m := vMid{A: vI16("a"), P: &in}
	if n := vPick("l", 4); n < 3 {
		m.L = []vInner{}
		for i := 0; i < n; i++ {
			m.L = append(m.L, vInner{VarInt(vI16("l.n")), vStr("l.s", vPick("l.len", 2))})
		}
	}
	vRoundTrip(m, func(o any) bool { y, ok := o.(vMid); return ok && vMidEq(m, y) })
	vReach("msg")
}

// A message nesting arrays of structures that hold arrays and pointers; consecutive messages in one buffer.
//verif prop=C03 weight=3 reach=outer
func vC03Outer() {
	mk := func(n string) vOuter {
		in := vInner{VarInt(vI8(n + "in")), vStr(n+"is", 1)}
		var o vOuter
		o.H = vI32(n + "h")
		o.M = vMid{vI16(n + "a"), &in, []vInner{{VarInt(vI8(n + "x")), vStr(n+"xs", 2)}}}
		if k := vPick(n+"c", 4); k < 3 {
			o.C = []vMid{}
			for i := 0; i < k; i++ {
				o.C = append(o.C, vMid{vI16(n + "ca"), &vInner{VarInt(vI8(n + "ci")), ""}, []vInner{}})
			}
		}
		if vPick(n+"ns", 2) == 1 {
			s := vStr(n+"nss", 1)
			o.NS = &s
		}
		if k := vPick(n+"i", 4); k < 3 {
			o.I = []int32{}
			for i := 0; i < k; i++ {
				o.I = append(o.I, vI32(n+"ii"))
			}
		}
		o.S = []string{}
		if k := vPick(n+"s", 3); k > 0 {
			o.S = append(o.S, vStr(n+"ss", k), vStr(n+"st", 0))
		}
		o.CI = []VarInt64{VarInt64(vI8(n + "ci"))}
		o.T = vU8(n + "t")
		return o
	}
	a := mk("a.")
	b := a
	b.H, b.T = vI32("b.h"), vU8("b.t")
	buf := vEncAll(a, b)
	rd := vReader(buf)
	n1, o1 := peekObject(rd, 0, vTypeOf(a))
	x, ok := o1.(vOuter)
	vAssert(ok && n1 == len(vEnc(a)), "the first message is not consumed exactly")
	vAssert(vOuterEq(a, x), "the first message differs")
	n2, o2 := peekObject(rd, n1, vTypeOf(a))
	y, ok := o2.(vOuter)
	vAssert(ok && n2 == len(buf), "the second message is not consumed exactly")
	vAssert(vOuterEq(b, y), "the second message differs")
	vAssert(vOuterEq(a, x), "decoding the second message changed the first")
	vReach("outer")
}

func vOuterEq(a, b vOuter) bool {
	if len(a.C) != len(b.C) || len(a.I) != len(b.I) || len(a.S) != len(b.S) || len(a.CI) != len(b.CI) {
		return false
	}
	if (a.C == nil) != (b.C == nil) || (a.I == nil) != (b.I == nil) || (a.NS == nil) != (b.NS == nil) {
		return false
	}
	r := vAnd(a.H == b.H, a.T == b.T, vMidEq(a.M, b.M))
	for i := range a.C {
		r = vAnd(r, vMidEq(a.C[i], b.C[i]))
	}
	for i := range a.I {
		r = vAnd(r, a.I[i] == b.I[i])
	}
	for i := range a.S {
		r = vAnd(r, vStrEq(a.S[i], b.S[i]))
	}
	for i := range a.CI {
		r = vAnd(r, a.CI[i] == b.CI[i])
	}
	if a.NS != nil {
		r = vAnd(r, vStrEq(*a.NS, *b.NS))
	}
	return r
}

// Arrays on their own: every element type, 0..3 elements or null, plain and compact, null not empty.
//verif prop=C03 weight=2 reach=arr
func vC03Arrays() {
	n := vPick("n", 5) // 4: null
	type ci struct {
		X []int16 `kafka:"compact"`
	}
	type cs struct {
		X []CompactString `kafka:"compact"`
	}
	type cp struct {
		X []*vInner `kafka:"compact"`
		Y []*vInner
	}
	switch vPick("type", 7) {
	case 0:
		var a []int64
		if n < 4 {
			a = []int64{}
			for i := 0; i < n; i++ {
				a = append(a, vI64("e"))
			}
		}
		vRoundTrip(a, func(o any) bool {
			y, _ := o.([]int64)
			if len(y) != len(a) || (y == nil) != (a == nil) {
				return false
			}
			r := true
			for i := range a {
				r = vAnd(r, a[i] == y[i])
			}
			return r
		})
	case 1:
		var a []VarUint
		if n < 4 {
			a = []VarUint{}
			for i := 0; i < n; i++ {
				a = append(a, VarUint(vU16("e")))
			}
		}
		vRoundTrip(a, func(o any) bool {
			y, _ := o.([]VarUint)
			if len(y) != len(a) || (y == nil) != (a == nil) {
				return false
			}
			r := true
			for i := range a {
				r = vAnd(r, a[i] == y[i])
			}
			return r
		})
	case 2:
		var a ci
		if n < 4 {
			a.X = []int16{}
			for i := 0; i < n; i++ {
				a.X = append(a.X, vI16("e"))
			}
		}
		vRoundTrip(a, func(o any) bool {
			y, ok := o.(ci)
			if !ok || len(y.X) != len(a.X) || (y.X == nil) != (a.X == nil) {
				return false
			}
			r := true
			for i := range a.X {
				r = vAnd(r, a.X[i] == y.X[i])
			}
			return r
		})
	case 3:
		var a cs
		if n < 4 {
			a.X = []CompactString{}
			for i := 0; i < n; i++ {
				a.X = append(a.X, CompactString(vStr("e", i)))
			}
		}
		vRoundTrip(a, func(o any) bool {
			y, ok := o.(cs)
			if !ok || len(y.X) != len(a.X) || (y.X == nil) != (a.X == nil) {
				return false
			}
			r := true
			for i := range a.X {
				r = vAnd(r, vStrEq(string(a.X[i]), string(y.X[i])))
			}
			return r
		})
	case 4:
		var a cp
		if n < 4 {
			a.X, a.Y = []*vInner{}, []*vInner{}
			for i := 0; i < n; i++ {
				a.X = append(a.X, &vInner{VarInt(vI8("e")), vStr("s", 1)})
				a.Y = append(a.Y, &vInner{VarInt(vI8("f")), vStr("t", i)})
			}
		}
		vRoundTrip(a, func(o any) bool {
			y, ok := o.(cp)
			if !ok || len(y.X) != len(a.X) || (y.X == nil) != (a.X == nil) || len(y.Y) != len(a.Y) || (y.Y == nil) != (a.Y == nil) {
				return false
			}
			r := true
			for i := range a.X {
				r = vAnd(r, vInnerEq(*a.X[i], *y.X[i]), vInnerEq(*a.Y[i], *y.Y[i]))
			}
			return r
		})
	case 5:
		var a [][]int16
		if n < 4 {
			a = [][]int16{}
			for i := 0; i < n; i++ {
				e := []int16{}
				for j := 0; j < i; j++ {
					e = append(e, vI16("e"))
				}
				a = append(a, e)
			}
		}
		vRoundTrip(a, func(o any) bool {
			y, _ := o.([][]int16)
			if len(y) != len(a) || (y == nil) != (a == nil) {
				return false
			}
			r := true
			for i := range a {
				if len(a[i]) != len(y[i]) {
					return false
				}
				for j := range a[i] {
					r = vAnd(r, a[i][j] == y[i][j])
				}
			}
			return r
		})
	case 6:
		var a []NullableString
		if n < 4 {
			a = []NullableString{}
			for i := 0; i < n; i++ {
				if i == 1 {
					a = append(a, nil)
					continue
				}
				s := vStr("e", i)
				a = append(a, &s)
			}
		}
		vRoundTrip(a, func(o any) bool {
			y, _ := o.([]NullableString)
			if len(y) != len(a) || (y == nil) != (a == nil) {
				return false
			}
			r := true
			for i := range a {
				if (a[i] == nil) != (y[i] == nil) {
					return false
				}
				if a[i] != nil {
					r = vAnd(r, vStrEq(*a[i], *y[i]))
				}
			}
			return r
		})
	}
	vReach("arr")
}

// Long arrays (up to 300 elements; 9000 in the thorough tier) whose compact length prefix takes two bytes.
//verif prop=C03 reach=long
func vC03Long() {
	type m struct {
		A []uint8 `kafka:"compact"`
		B []int16 `kafka:"compact"`
		C []int16
	}
	ns := []int{62, 63, 64, 127, 128, 300}
	if vThorough() {
		ns = append(ns, 8190, 8191, 8192)
	}
	n := ns[vPick("n", len(ns))]
	var x struct {
		B []int16 `kafka:"compact"`
		C []int16
		Z int32
	}
	for i := 0; i < n; i++ {
		x.B = append(x.B, int16(i))
		x.C = append(x.C, int16(-i))
	}
	x.B[n-1] = vI16("last")
	x.C[n/2] = vI16("mid")
	x.Z = vI32("z")
	b := vEnc(x)
	next, o := peekObject(vReader(b), 0, vTypeOf(x))
	y, ok := o.(struct {
		B []int16 `kafka:"compact"`
		C []int16
		Z int32
	})
	vAssert(ok && next == len(b) && len(y.B) == n && len(y.C) == n, "a long array is not decoded completely")
	for i := 0; i < n; i++ {
		vAssert(vAnd(y.B[i] == x.B[i], y.C[i] == x.C[i]), "an element of a long array changed")
	}
	vAssert(y.Z == x.Z, "the field after a long array changed")
	vReach("long")
}
