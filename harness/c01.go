package kafkamock

import (
	"math"

	"github.com/google/uuid"
)

// Every value of each fixed-width type, at offsets 0, 1 and 5, with 0 or 3 bytes after it.
//verif prop=C01 reach=bool,i8,i16,i32,i64,u8,u16,u32,u64,int,uint
func vC01Fixed() {
	switch vPick("type", 11) {
	case 0:
		x := vBool("v")
		vRoundTrip(x, func(o any) bool { y, ok := o.(bool); return ok && y == x })
		vReach("bool")
	case 1:
		x := vI8("v")
		vRoundTrip(x, func(o any) bool { y, ok := o.(int8); return ok && y == x })
		vReach("i8")
	case 2:
		x := vI16("v")
		vRoundTrip(x, func(o any) bool { y, ok := o.(int16); return ok && y == x })
		vReach("i16")
	case 3:
		x := vI32("v")
		vRoundTrip(x, func(o any) bool { y, ok := o.(int32); return ok && y == x })
		vReach("i32")
	case 4:
		x := vI64("v")
		vRoundTrip(x, func(o any) bool { y, ok := o.(int64); return ok && y == x })
		vReach("i64")
	case 5:
		x := vU8("v")
		vRoundTrip(x, func(o any) bool { y, ok := o.(uint8); return ok && y == x })
		vReach("u8")
	case 6:
		x := vU16("v")
		vRoundTrip(x, func(o any) bool { y, ok := o.(uint16); return ok && y == x })
		vReach("u16")
	case 7:
		x := vU32("v")
		vRoundTrip(x, func(o any) bool { y, ok := o.(uint32); return ok && y == x })
		vReach("u32")
	case 8:
		x := vU64("v")
		vRoundTrip(x, func(o any) bool { y, ok := o.(uint64); return ok && y == x })
		vReach("u64")
	case 9: // int is a 32-bit wire value
		x := int(vI32("v"))
		vRoundTrip(x, func(o any) bool { y, ok := o.(int); return ok && y == x })
		vReach("int")
	case 10:
		x := uint(vU32("v"))
		vRoundTrip(x, func(o any) bool { y, ok := o.(uint); return ok && y == x })
		vReach("uint")
	}
}

// Every value of the variable-length and zigzag types.
//verif prop=C01 reach=vi,vu,vi64,vu64
func vC01Var() {
	switch vPick("type", 4) {
	case 0:
		x := VarInt(vI32("v"))
		vRoundTrip(x, func(o any) bool { y, ok := o.(VarInt); return ok && y == x })
		vReach("vi")
	case 1:
		x := VarUint(vU32("v"))
		vRoundTrip(x, func(o any) bool { y, ok := o.(VarUint); return ok && y == x })
		vReach("vu")
	case 2:
		x := VarInt64(vI64("v"))
		vRoundTrip(x, func(o any) bool { y, ok := o.(VarInt64); return ok && y == x })
		vReach("vi64")
	case 3:
		x := VarUint64(vU64("v"))
		vRoundTrip(x, func(o any) bool { y, ok := o.(VarUint64); return ok && y == x })
		vReach("vu64")
	}
}

// Every bit pattern of a float64 (NaNs included) and of a UUID.
//verif prop=C01 reach=f64,uuid
func vC01FloatUuid() {
	if vPick("type", 2) == 0 {
		u := vU64("bits")
		x := math.Float64frombits(u)
		vRoundTrip(x, func(o any) bool { y, ok := o.(float64); return ok && math.Float64bits(y) == u })
		vReach("f64")
		return
	}
	var x uuid.UUID
	copy(x[:], vBytes("uuid", 16))
	vRoundTrip(x, func(o any) bool { y, ok := o.(uuid.UUID); return ok && vBytesEq(y[:], x[:]) })
	vReach("uuid")
}

// All numeric types in sequence in one buffer: each is found where the previous one ended.
//verif prop=C01 reach=seq
func vC01Sequence() {
	a, b, c, d, e := vI16("a"), VarInt(vI32("b")), vU64("c"), VarUint(vU32("d")), vBool("e")
	buf := vEncAll(a, b, c, d, e)
	rd := vReader(buf)
	type msg struct {
		A int16
		B VarInt
		C uint64
		D VarUint
		E bool
	}
	next, o := peekObject(rd, 0, vTypeOf(msg{}))
	m, ok := o.(msg)
	vAssert(ok && next == len(buf), "a sequence of numbers is not decoded as one message")
	vAssert(vAnd(m.A == a, m.B == b, m.C == c, m.D == d, m.E == e), "a number in a sequence changed")
	vReach("seq")
}

// The same at a position far into a large buffer.
//verif prop=C01 tiers=thorough reach=far
func vC01FarOffset() {
	pre := make([]byte, []int{127, 255, 4094, 4096, 9000}[vPick("n", 5)])
	x := vI64("v")
	y := VarInt64(vI64("w"))
	b := vEncAll(x, y)
	all := append(append([]byte(nil), pre...), b...)
	rd := vReader(all)
	n1, o1 := peekObject(rd, len(pre), vTypeOf(x))
	v1, ok := o1.(int64)
	vAssert(ok && v1 == x && n1 == len(pre)+8, "int64 at a far offset")
	n2, o2 := peekObject(rd, n1, vTypeOf(y))
	v2, ok := o2.(VarInt64)
	vAssert(ok && v2 == y && n2 == len(all), "VarInt64 at a far offset")
	vReach("far")
}
