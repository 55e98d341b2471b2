package kafkamock

import (
	"math"

	"github.com/google/uuid"
)

// Reference encodings, written from the Kafka protocol description.

func vRefBE(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i++ {
		b[i] = byte(v >> (8 * uint(n-1-i)))
	}
	return b
}

func vRefVar(u uint64) []byte {
	var b []byte
	for u >= 128 {
		b = append(b, byte(u&127|128))
		u >>= 7
	}
	return append(b, byte(u))
}

func vRefZig32(x int32) []byte {
	u := uint32(x) << 1
	if x < 0 {
		u = ^u
	}
	return vRefVar(uint64(u))
}

func vRefZig64(x int64) []byte {
	u := uint64(x) << 1
	if x < 0 {
		u = ^u
	}
	return vRefVar(u)
}

// vRefLen is the compact length prefix; n < 0 stands for null.
func vRefLen(n int) []byte { return vRefZig32(int32(n + 1)) }

func vCat(bs ...[]byte) []byte {
	r := []byte{}
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

func vWire(obj any, want []byte, what string) {
	got := vEnc(obj)
	vAssert(len(got) == len(want), what+": wrong number of bytes on the wire")
	vAssert(vBytesEq(got, want), what+": wrong bytes on the wire")
	vObserveBytes("wire", got)
}

// Every value of the fixed-width types.
//verif prop=C04 reach=fixed
func vC04Fixed() {
	switch vPick("type", 13) {
	case 0:
		v := vBool("v")
		vWire(v, []byte{byte(vIte(v, 1, 0))}, "bool")
	case 1:
		v := vI8("v")
		vWire(v, []byte{byte(v)}, "int8")
	case 2:
		v := vI16("v")
		vWire(v, vRefBE(uint64(v), 2), "int16")
	case 3:
		v := vI32("v")
		vWire(v, vRefBE(uint64(v), 4), "int32")
	case 4:
		v := vI64("v")
		vWire(v, vRefBE(uint64(v), 8), "int64")
	case 5:
		v := vU8("v")
		vWire(v, []byte{v}, "uint8")
	case 6:
		v := vU16("v")
		vWire(v, vRefBE(uint64(v), 2), "uint16")
	case 7:
		v := vU32("v")
		vWire(v, vRefBE(uint64(v), 4), "uint32")
	case 8:
		v := vU64("v")
		vWire(v, vRefBE(v, 8), "uint64")
	case 9:
		v := vI32("v")
		vWire(int(v), vRefBE(uint64(v), 4), "int")
	case 10:
		v := vU32("v")
		vWire(uint(v), vRefBE(uint64(v), 4), "uint")
	case 11:
		u := vU64("v")
		vWire(math.Float64frombits(u), vRefBE(u, 8), "float64")
	case 12:
		var id uuid.UUID
		b := vBytes("v", 16)
		copy(id[:], b)
		vWire(id, b, "uuid")
	}
	vReach("fixed")
}

// Every value of the variable-length types, on their own and as tagged fields.
//verif prop=C04 reach=var,tagged
func vC04Var() {
	tag := vPick("tagged", 2) == 1
	switch vPick("type", 6) {
	case 0:
		v := vI32("v")
		w := vRefZig32(v)
		if tag {
			vWire(struct {
				X int32 `kafka:"compact"`
			}{v}, w, "compact int32")
		} else {
			vWire(VarInt(v), w, "VarInt")
		}
	case 1:
		v := vU32("v")
		w := vRefVar(uint64(v))
		if tag {
			vWire(struct {
				X uint32 `kafka:"compact"`
			}{v}, w, "compact uint32")
		} else {
			vWire(VarUint(v), w, "VarUint")
		}
	case 2:
		v := vI64("v")
		w := vRefZig64(v)
		if tag {
			vWire(struct {
				X int64 `kafka:"compact"`
			}{v}, w, "compact int64")
		} else {
			vWire(VarInt64(v), w, "VarInt64")
		}
	case 3:
		v := vU64("v")
		w := vRefVar(v)
		if tag {
			vWire(struct {
				X uint64 `kafka:"compact"`
			}{v}, w, "compact uint64")
		} else {
			vWire(VarUint64(v), w, "VarUint64")
		}
	case 4:
		v := vI32("v")
		vAssume(tag)
		vWire(struct {
			X int `kafka:"compact"`
		}{int(v)}, vRefZig32(v), "compact int")
		vReach("tagged")
	case 5:
		v := vU32("v")
		vAssume(tag)
		vWire(struct {
			X uint `kafka:"compact"`
		}{uint(v)}, vRefVar(uint64(v)), "compact uint")
	}
	vReach("var")
}

// Strings and byte arrays of the chosen lengths, arbitrary contents; null of every nullable type.
//verif prop=C04 weight=2 reach=text,null
func vC04Text() {
	if vPick("null", 2) == 1 {
		switch vPick("type", 10) {
		case 0:
			vWire(NullableString(nil), []byte{255, 255}, "null string")
		case 1:
			vWire(CompactNullableString(nil), []byte{0}, "null compact string")
		case 2:
			vWire(NullableBytes(nil), []byte{255, 255, 255, 255}, "null byte array")
		case 3:
			vWire(CompactNullableBytes(nil), []byte{0}, "null compact byte array")
		case 4:
			vWire([]byte(nil), []byte{255, 255, 255, 255}, "nil byte slice")
		case 5:
			vWire(struct{ X *string }{nil}, []byte{255, 255}, "nil *string field")
		case 6:
			vWire(struct {
				X *string `kafka:"compact,nullable"`
			}{nil}, []byte{0}, "nil compact nullable *string field")
		case 7:
			vWire(struct {
				X *CompactString `kafka:"compact,nullable"`
			}{nil}, []byte{0}, "nil compact nullable *CompactString field")
		case 8:
			vWire(struct {
				X []byte `kafka:"compact,nullable"`
			}{nil}, []byte{0}, "nil compact nullable []byte field")
		case 9:
			vWire(struct {
				X []byte `kafka:"nullable"`
			}{nil}, []byte{255, 255, 255, 255}, "nil nullable []byte field")
		}
		vReach("null")
		return
	}
	k := vPick("type", 17)
	n := vLen("len", 32767)
	b := vBytes("b", n)
	s := string(b)
	plain := vCat(vRefBE(uint64(n), 2), b)
	compact := vCat(vRefLen(n), b)
	bytes4 := vCat(vRefBE(uint64(n), 4), b)
	switch k {
	case 0:
		vWire(s, plain, "string")
	case 1:
		vWire(NullableString(&s), plain, "nullable string")
	case 2:
		vWire(CompactString(s), compact, "compact string")
	case 3:
		c := CompactString(s)
		vWire(CompactNullableString(&c), compact, "compact nullable string")
	case 4:
		vWire(b, bytes4, "byte slice")
	case 5:
		vWire(NullableBytes(b), bytes4, "nullable byte array")
	case 6:
		vWire(CompactBytes(b), compact, "compact byte array")
	case 7:
		vWire(CompactNullableBytes(b), compact, "compact nullable byte array")
	case 8:
		vWire(struct {
			X string `kafka:"compact"`
		}{s}, compact, "compact string field")
	case 9:
		vWire(struct{ X *string }{&s}, plain, "*string field")
	case 10:
		vWire(struct {
			X *string `kafka:"compact,nullable"`
		}{&s}, compact, "compact nullable *string field")
	case 11:
		c := CompactString(s)
		vWire(struct {
			X *CompactString `kafka:"compact,nullable"`
		}{&c}, compact, "compact nullable *CompactString field")
	case 12:
		vWire(struct {
			X []byte `kafka:"compact"`
		}{b}, compact, "compact []byte field")
	case 13:
		vWire(struct {
			X []byte `kafka:"compact,nullable"`
		}{b}, compact, "compact nullable []byte field")
	case 14:
		vWire(struct {
			X []byte `kafka:"nullable"`
		}{b}, bytes4, "nullable []byte field")
	case 15:
		vWire(struct {
			X string `kafka:"nullable"`
		}{s}, plain, "nullable string field")
	case 16:
		vWire(struct {
			X CompactString
			Y NullableBytes
		}{CompactString(s), b}, vCat(compact, bytes4), "named wire types as fields")
	}
	vReach("text")
}

// Arrays: null, empty and up to 3 elements, plain and compact; long compact arrays; structures are the
// concatenation of their fields.
//verif prop=C04 reach=arr
func vC04Arrays() {
	n := vPick("n", 7) - 1 // -1: null
	if n == 4 {
		n = 63
	} else if n == 5 {
		n = 200
	}
	var a []int16
	var el []byte
	if n >= 0 {
		a = []int16{}
	}
	for i := 0; i < n; i++ {
		v := vI16("e")
		a = append(a, v)
		el = vCat(el, vRefBE(uint64(v), 2))
	}
	plain := vCat(vRefBE(uint64(int64(n)), 4), el)
	compact := vCat(vRefLen(n), el)
	type in struct {
		A int8
		B []CompactString
	}
	type mid struct {
		P *in
		L []in
		C []in `kafka:"compact"`
	}
	switch vPick("type", 4) {
	case 0:
		vWire(a, plain, "array")
	case 1:
		vWire(struct {
			X []int16 `kafka:"compact"`
		}{a}, compact, "compact array")
	case 2:
		z := vI32("z")
		vWire(struct {
			X []int16
			Y []int16 `kafka:"compact"`
			Z int32
		}{a, a, z}, vCat(plain, compact, vRefBE(uint64(z), 4)), "arrays among fields")
	case 3:
		x, y := vI8("x"), vStr("y", 2)
		i := in{x, []CompactString{CompactString(y)}}
		ib := vCat([]byte{byte(x)}, vRefBE(1, 4), vRefLen(2), []byte(y))
		vWire(mid{&i, []in{i, i}, []in{i}}, vCat(ib, vRefBE(2, 4), ib, ib, vRefLen(1), ib), "nested structures")
	}
	vReach("arr")
}
