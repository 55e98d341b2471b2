package kafkamock

import (
	"bufio"
	"bytes"
	"math"
	"reflect"

	"github.com/google/uuid"
)

// vAnyValue is some value of some wire type, contents arbitrary.
func vAnyValue() any {
	type in struct {
		A int8
		S string
	}
	type st struct {
		A VarInt
		P *in
		L []in
		C []int16 `kafka:"compact"`
		N NullableString
	}
	n := func() int { return vPick("n", 4) }
	switch vPick("type", 25) {
	case 0:
		return vBool("v")
	case 1:
		return vI8("v")
	case 2:
		return vI16("v")
	case 3:
		return vI32("v")
	case 4:
		return vI64("v")
	case 5:
		return vU8("v")
	case 6:
		return vU16("v")
	case 7:
		return vU32("v")
	case 8:
		return vU64("v")
	case 9:
		return int(vI32("v"))
	case 10:
		return uint(vU32("v"))
	case 11:
		return math.Float64frombits(vU64("v"))
	case 12:
		var id uuid.UUID
		copy(id[:], vBytes("v", 16))
		return id
	case 13:
		return VarInt(vI32("v"))
	case 14:
		return VarUint(vU32("v"))
	case 15:
		return VarInt64(vI64("v"))
	case 16:
		return VarUint64(vU64("v"))
	case 17:
		return vStr("v", n())
	case 18:
		s := vStr("v", n())
		return NullableString(&s)
	case 19:
		return CompactString(vStr("v", [...]int{0, 1, 3, 70}[n()]))
	case 20:
		s := CompactString(vStr("v", [...]int{0, 1, 3, 63}[n()]))
		return CompactNullableString(&s)
	case 21:
		return NullableBytes(vBytes("v", n()))
	case 22:
		return CompactNullableBytes(vBytes("v", [...]int{0, 1, 3, 64}[n()]))
	case 23:
		a := []VarUint{}
		for i := n(); i > 0; i-- {
			a = append(a, VarUint(vU16("v")))
		}
		return a
	default:
		i := in{vI8("a"), vStr("s", vPick("n", 2))}
		s := vStr("ns", 1)
		o := st{VarInt(vI16("v")), &i, []in{i}, []int16{vI16("c")}, &s}
		if vPick("null", 2) == 1 {
			o.N, o.C = nil, nil
		}
		return o
	}
}

// Every strict prefix of the encoding of every value of vAnyValue, at offsets 0, 1 and 5.
//verif prop=C05 weight=2 reach=cut
func vC05Truncated() {
	v := vAnyValue()
	b := vEnc(v)
	k := vConcrete(vInt("cut", 0, int64(len(b)-1)))
	pre := vBytes("before", [...]int{0, 1, 5}[vPick("nbefore", 3)])
	all := append(append([]byte{}, pre...), b[:k]...)
	next, _ := peekObject(vReader(all), len(pre), reflect.TypeOf(v))
	vAssert(next < 0, "a truncated value was not reported incomplete")
	// the rest arriving later completes it
	whole := append(all, b[k:]...)
	next, _ = peekObject(vReader(whole), len(pre), reflect.TypeOf(v))
	vAssert(next == len(whole), "the completed value is not decoded exactly")
	vReach("cut")
}

// The same for long strings and byte arrays: cuts at the prefix, in the middle and one before the end.
//verif prop=C05 reach=cut
func vC05Long() {
	n := []int{127, 300, 4094, 8192, 32767}[vPick("n", 5)]
	s := vStr("s", n)
	var v any
	switch vPick("type", 4) {
	case 0:
		v = s
	case 1:
		v = CompactString(s)
	case 2:
		v = NullableBytes([]byte(s))
	case 3:
		v = CompactNullableBytes([]byte(s))
	}
	b := vEnc(v)
	k := []int{1, 2, 3, 4, 5, n / 2, 4096, len(b) - 2, len(b) - 1}[vPick("cut", 9)]
	vAssume(k < len(b))
	next, _ := peekObject(vReader(b[:k]), 0, reflect.TypeOf(v))
	vAssert(next < 0, "a truncated long value was not reported incomplete")
	vReach("cut")
}

func vEncTags(tags map[int]any) []byte {
	var buf bytes.Buffer
	w := bufio.NewWriter(&buf)
	encodeTags(w, tags)
	w.Flush()
	return buf.Bytes()
}

// Tagged fields (0..2, known or unknown): every strict prefix.
//verif prop=C05 reach=cut
func vC05Tags() {
	tags := map[int]any{}
	fields := map[int]*kafkaField{}
	n := vPick("n", 3)
	for i := 0; i < n; i++ {
		id := 3 + 200*i
		switch vPick("type", 3) {
		case 0:
			tags[id] = vStr("s", vPick("len", 3))
		case 1:
			tags[id] = VarInt(vI32("v"))
		case 2:
			tags[id] = vI64("i")
		}
		if vPick("known", 2) == 1 {
			fields[id] = &kafkaField{valType: reflect.TypeOf(tags[id])}
		}
	}
	b := vEncTags(tags)
	k := vConcrete(vInt("cut", 0, int64(len(b)-1)))
	pre := vBytes("before", vPick("nbefore", 2)*3)
	all := append(append([]byte{}, pre...), b[:k]...)
	next, _ := peekTags(vReader(all), len(pre), fields)
	vAssert(next < 0, "truncated tagged fields were not reported incomplete")
	vReach("cut")
}
