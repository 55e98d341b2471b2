package kafkamock

import (
	"reflect"
)

type vTagRec struct {
	id   int
	val  any
	wire []byte
}

func vAnyTagValue(maxLen int) any {
	switch vPick("type", 6) {
	case 0:
		return vStr("s", vPick("len", maxLen))
	case 1:
		return VarInt(vI16("vi"))
	case 2:
		return vI64("i64")
	case 3:
		return CompactString(vStr("cs", vPick("len", maxLen)))
	case 4:
		return struct {
			A int16
			B string
		}{vI16("a"), vStr("b", 1)}
	default:
		return vU8("u8")
	}
}

// vTagsRun encodes up to n tags with arbitrary distinct ids below idMax, checks the wire and decodes.
func vTagsRun(n, maxLen int, idMax int64) {
	var recs []vTagRec
	tags := map[int]any{}
	prev := int64(-1)
	for i := 0; i < n; i++ {
		id := vInt("id", 0, idMax)
		vAssume(id > prev)
		prev = id
		v := vAnyTagValue(maxLen)
		recs = append(recs, vTagRec{int(id), v, vEnc(v)})
	}
	// put them into the map in one of several orders
	rot := 0
	if n > 1 {
		rot = vPick("order", n)
	}
	for i := range recs {
		r := recs[(i+rot)%n]
		tags[r.id] = r.val
	}
	vMapOrder()
	b := vEncTags(tags)
	want := vRefVar(uint64(n))
	for _, r := range recs {
		want = vCat(want, vRefVar(uint64(r.id)), vRefVar(uint64(len(r.wire))), r.wire)
	}
	vAssert(vBytesEq(b, want), "tagged fields are not written in ascending order with exact sizes")
	fields := map[int]*kafkaField{}
	known := make([]bool, n)
	for i, r := range recs {
		if vPick("known", 2) == 1 {
			known[i] = true
			fields[r.id] = &kafkaField{valType: reflect.TypeOf(r.val)}
		}
	}
	all, off := vSurround(b)
	next, got := peekTags(vReader(all), off, fields)
	vAssert(next == off+len(b), "decoding tagged fields does not consume exactly what was written")
	vAssert(len(got) == n, "the set of tagged fields changed")
	for i, r := range recs {
		o, ok := got[r.id]
		vAssert(ok, "a tagged field is lost")
		if !known[i] {
			raw, ok := o.([]byte)
			vAssert(ok && vBytesEq(raw, r.wire), "an unknown tagged field is not returned as its raw bytes")
			continue
		}
		vAssert(reflect.TypeOf(o) == reflect.TypeOf(r.val), "a known tagged field has the wrong type")
		vAssert(vBytesEq(vEnc(o), r.wire), "a known tagged field has the wrong value")
	}
	vReach("tags")
}

// No, one and two tagged fields with arbitrary ids (any 32-bit id), each known or unknown.
//verif prop=C07 reach=tags
func vC07One() { vTagsRun(vPick("n", 2), 4, 1<<32-1) }

// Two tagged fields with any ids below 2^21.
//verif prop=C07 weight=3 reach=tags
func vC07Two() { vTagsRun(2, 2, 1<<14) }

// Three tagged fields with ids below 200.
//verif prop=C07 tiers=thorough weight=4 reach=tags
func vC07Three() { vTagsRun(3, 2, 200) }

// A tagged value of 100..300 bytes, whose size takes two bytes, and a small one after it.
//verif prop=C07 reach=big
func vC07Big() {
	n := []int{100, 125, 126, 128, 300}[vPick("n", 5)]
	s := vStr("s", n)
	x := vI32("x")
	tags := map[int]any{5: s, 7: x}
	b := vEncTags(tags)
	want := vCat([]byte{2, 5}, vRefVar(uint64(n+2)), vRefBE(uint64(n), 2), []byte(s), []byte{7, 4}, vRefBE(uint64(x), 4))
	vAssert(vBytesEq(b, want), "a large tagged field is written wrongly")
	next, got := peekTags(vReader(b), 0, map[int]*kafkaField{7: {valType: reflect.TypeOf(x)}})
	vAssert(next == len(b) && len(got) == 2, "a large unknown tagged field is not skipped exactly")
	raw, ok := got[5].([]byte)
	vAssert(ok && vBytesEq(raw, vCat(vRefBE(uint64(n), 2), []byte(s))), "a large unknown field's bytes")
	y, ok := got[7].(int32)
	vAssert(ok && y == x, "the field after a large unknown one")
	vReach("big")
}
