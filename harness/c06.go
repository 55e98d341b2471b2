package kafkamock

import (
	"reflect"

	"github.com/google/uuid"
)

func vWireTypes() []reflect.Type {
	type in struct {
		N VarInt
		S string
	}
	type st struct {
		A int16
		P *in
		L []in
		C []in `kafka:"compact"`
		B NullableBytes
	}
	type uu struct {
		U []uuid.UUID
		V []VarUint64 `kafka:"compact"`
		W []NullableString
	}
	return []reflect.Type{
		vTypeOf(true), vTypeOf(int8(0)), vTypeOf(int16(0)), vTypeOf(int32(0)), vTypeOf(int64(0)), vTypeOf(uint8(0)), vTypeOf(uint16(0)),
		vTypeOf(uint32(0)), vTypeOf(uint64(0)), vTypeOf(int(0)), vTypeOf(uint(0)), vTypeOf(float64(0)), vTypeOf(uuid.UUID{}), vTypeOf(VarInt(0)),
		vTypeOf(VarUint(0)), vTypeOf(VarInt64(0)), vTypeOf(VarUint64(0)), vTypeOf(""), vTypeOf(NullableString(nil)), vTypeOf(CompactString("")),
		vTypeOf(CompactNullableString(nil)), vTypeOf(NullableBytes(nil)), vTypeOf(CompactNullableBytes(nil)), vTypeOf(CompactBytes(nil)), vTypeOf([]byte(nil)),
		vTypeOf([]int16(nil)), vTypeOf([]string(nil)), vTypeOf([][]int8(nil)), vTypeOf([]NullableString(nil)),
		vTypeOf(in{}), vTypeOf(st{}), vTypeOf(&in{}), vTypeOf(uu{}), vTypeOf([]in(nil)), vTypeOf([]*in(nil)),
	}
}

func vDecodeAny(b []byte, off int, t reflect.Type) {
	vAllocBudget(64*len(b) + 1<<16)
	next, o := peekObject(vReader(b), off, t)
	vAssert(next < 0 || (next >= off && next <= len(b)), "decoding claims to have consumed bytes that are not there")
	if next >= 0 {
		vReach("value")
		if o != nil && t.Kind() != reflect.Slice {
			vAssert(reflect.TypeOf(o) == t, "decoding returns a value of another type")
		}
	} else {
		vReach("incomplete")
	}
}

// Any 0..8 bytes (0..14 in the thorough tier) as any wire type, at offsets 0 and 2.
//verif prop=C06 weight=4 reach=value,incomplete
func vC06Bytes() {
	ts := vWireTypes()
	t := ts[vPick("type", len(ts))]
	n := 8
	if vThorough() {
		n = 14
	}
	k := vPick("n", n+1)
	off := 0
	if k >= 4 && vPick("off", 2) == 1 {
		off = 2
	}
	vDecodeAny(vBytes("b", k), off, t)
}

// Any length or count prefix in front of 100 bytes of data.
//verif prop=C06 weight=2 reach=value,incomplete
func vC06Prefix() {
	ts := vWireTypes()
	t := ts[vPick("type", len(ts))]
	b := append(vBytes("prefix", 5), make([]byte, 100)...)
	vDecodeAny(b, 0, t)
}

// Any 0..9 bytes as tagged fields, with and without known ones.
//verif prop=C06 weight=2 reach=value,incomplete
func vC06Tags() {
	n := 7
	if vThorough() {
		n = 10
	}
	b := vBytes("b", vPick("n", n+1))
	fields := map[int]*kafkaField{}
	switch vPick("fields", 3) {
	case 1:
		fields[1] = &kafkaField{valType: vTypeOf("")}
	case 2:
		fields[0] = &kafkaField{valType: vTypeOf(VarInt(0))}
		fields[2] = &kafkaField{valType: vTypeOf([]int16(nil))}
	}
	vAllocBudget(64*len(b) + 1<<16)
	next, _ := peekTags(vReader(b), 0, fields)
	vAssert(next < 0 || next <= len(b), "decoding tags claims to have consumed bytes that are not there")
	if next >= 0 {
		vReach("value")
	} else {
		vReach("incomplete")
	}
}
