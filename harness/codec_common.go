package kafkamock

// Shared by the codec harnesses (C01-C07): they drive the encoder and decoder through the entry
// points encodeObject, peekObject, encodeTags and peekTags.

import (
	"bufio"
	"bytes"
	"reflect"

	"github.com/google/uuid"
)

// vEnc is what the encoder writes for obj.
func vEnc(obj any) []byte {
	var buf bytes.Buffer
	w := bufio.NewWriter(&buf)
	encodeObject(w, obj)
	w.Flush()
	return buf.Bytes()
}

// vEncAll writes several objects to one stream.
func vEncAll(objs ...any) []byte {
	var buf bytes.Buffer
	w := bufio.NewWriter(&buf)
	for _, o := range objs {
		encodeObject(w, o)
	}
	w.Flush()
	return buf.Bytes()
}

func vReader(b []byte) *bufio.Reader {
	return bufio.NewReaderSize(bytes.NewReader(b), len(b)+32)
}

// vSurround puts arbitrary bytes before and after b; off is where b starts.
func vSurround(b []byte) (all []byte, off int) {
	pre := vBytes("before", [...]int{0, 1, 5}[vPick("nbefore", 3)])
	post := vBytes("after", [...]int{0, 3}[vPick("nafter", 2)])
	all = append(all, pre...)
	all = append(all, b...)
	all = append(all, post...)
	return all, len(pre)
}

// vRoundTrip encodes obj, decodes it between arbitrary other bytes, and leaves the judgement of the
// decoded value to same.
func vRoundTrip(obj any, same func(o any) bool) {
	b := vEnc(obj)
	all, off := vSurround(b)
	next, o := peekObject(vReader(all), off, reflect.TypeOf(obj))
	vAssert(next >= 0, "the complete encoding was reported incomplete")
	vAssert(next == off+len(b), "decoding did not consume exactly what was encoded")
	vAssert(same(o), "the decoded value differs from the encoded one")
	vObserveBytes("wire", b)
	// the same reader must yield the same again: peeking consumes nothing
	rd := vReader(all)
	n1, _ := peekObject(rd, off, reflect.TypeOf(obj))
	n2, o2 := peekObject(rd, off, reflect.TypeOf(obj))
	vAssert(n1 == n2 && same(o2), "decoding twice gives different results")
}

var _ uuid.UUID

func vTypeOf(v any) reflect.Type { return reflect.TypeOf(v) }
