package kafkamock

// vLen picks a content length: every length up to 40 (300 in the thorough tier), and the lengths
// around which prefixes and buffers change size.
func vLen(name string, max int) int {
	all := []int{61, 62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 300}
	if vThorough() {
		all = append(all, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 16383, 16384, 32766, 32767, 32768, 65535, 65536)
	} else {
		all = append(all, 4094, 4096, 8191, 8192, 32766, 32767, 65536)
	}
	n := 0
	for n < len(all) && all[n] <= max {
		n++
	}
	k := vPick(name+".class", n+1)
	if k > 0 {
		return all[k-1]
	}
	top := int64(40)
	if vThorough() {
		top = 300
	}
	return int(vConcrete(vInt(name, 0, top)))
}

// Every string of the chosen lengths as each string type, alone and between other bytes.
//verif prop=C02 reach=string,compact,nullable,compactnullable
func vC02Strings() {
	k := vPick("type", 4)
	max := 32767
	if k == 1 || k == 3 {
		max = 65536
	}
	s := vStr("s", vLen("len", max))
	switch k {
	case 0:
		vRoundTrip(s, func(o any) bool { y, ok := o.(string); return ok && vStrEq(y, s) })
		vReach("string")
	case 1:
		vRoundTrip(CompactString(s), func(o any) bool { y, ok := o.(CompactString); return ok && vStrEq(string(y), s) })
		vReach("compact")
	case 2:
		vRoundTrip(NullableString(&s), func(o any) bool { y, ok := o.(NullableString); return ok && y != nil && vStrEq(*y, s) })
		vReach("nullable")
	case 3:
		c := CompactString(s)
		vRoundTrip(CompactNullableString(&c), func(o any) bool {
			y, ok := o.(CompactNullableString)
			return ok && y != nil && vStrEq(string(*y), s)
		})
		vReach("compactnullable")
	}
}

// Every byte array of the chosen lengths as each byte array type.
//verif prop=C02 reach=bytes,nullable,compactnullable,compact
func vC02Bytes() {
	k := vPick("type", 4)
	max := 65536
	if k == 0 || k == 3 {
		max = 4096
		if !vThorough() {
			max = 300
		}
	}
	b := vBytes("b", vLen("len", max))
	switch k {
	case 0:
		vRoundTrip(b, func(o any) bool { y, ok := o.([]byte); return ok && y != nil && vBytesEq(y, b) })
		vReach("bytes")
	case 1:
		vRoundTrip(NullableBytes(b), func(o any) bool { y, ok := o.(NullableBytes); return ok && y != nil && vBytesEq(y, b) })
		vReach("nullable")
	case 2:
		vRoundTrip(CompactNullableBytes(b), func(o any) bool {
			y, ok := o.(CompactNullableBytes)
			return ok && y != nil && vBytesEq(y, b)
		})
		vReach("compactnullable")
	case 3:
		vRoundTrip(CompactBytes(b), func(o any) bool { y, ok := o.(CompactBytes); return ok && y != nil && vBytesEq(y, b) })
		vReach("compact")
	}
}

// Null as each nullable type.
//verif prop=C02 reach=null
func vC02Null() {
	switch vPick("type", 5) {
	case 0:
		vRoundTrip(NullableString(nil), func(o any) bool { y, ok := o.(NullableString); return ok && y == nil })
	case 1:
		vRoundTrip(CompactNullableString(nil), func(o any) bool { y, ok := o.(CompactNullableString); return ok && y == nil })
	case 2:
		vRoundTrip(NullableBytes(nil), func(o any) bool { y, ok := o.(NullableBytes); return ok && y == nil })
	case 3:
		vRoundTrip(CompactNullableBytes(nil), func(o any) bool { y, ok := o.(CompactNullableBytes); return ok && y == nil })
	case 4: // a null []byte is absent, not empty
		vRoundTrip([]byte(nil), func(o any) bool {
			if o == nil {
				return true
			}
			y, ok := o.([]byte)
			return ok && y == nil
		})
	}
	vReach("null")
}

// Two values in a row, any mix of types, contents and nulls, with symbolic contents of length 0..3.
//verif prop=C02 reach=pair
func vC02Pairs() {
	type pair struct {
		A NullableString
		B CompactNullableString
		C NullableBytes
		D CompactNullableBytes
		E string
		F CompactString
	}
	var p pair
	if n := vPick("a", 4); n < 3 {
		s := vStr("as", n)
		p.A = &s
	}
	if n := vPick("b", 4); n < 3 {
		s := CompactString(vStr("bs", n))
		p.B = &s
	}
	if n := vPick("c", 3); n < 2 {
		p.C = vBytes("cb", n)
	}
	if n := vPick("d", 3); n < 2 {
		p.D = vBytes("db", n)
	}
	p.E = vStr("es", vPick("e", 2))
	p.F = CompactString(vStr("fs", vPick("f", 2)))
	b := vEnc(p)
	next, o := peekObject(vReader(b), 0, vTypeOf(p))
	q, ok := o.(pair)
	vAssert(ok && next == len(b), "strings and byte arrays in a row are not decoded completely")
	vAssert((p.A == nil) == (q.A == nil) && (p.B == nil) == (q.B == nil) && (p.C == nil) == (q.C == nil) && (p.D == nil) == (q.D == nil), "null and empty are confused")
	if p.A != nil {
		vAssert(vStrEq(*p.A, *q.A), "nullable string in a row changed")
	}
	if p.B != nil {
		vAssert(vStrEq(string(*p.B), string(*q.B)), "compact nullable string in a row changed")
	}
	vAssert(vAnd(vBytesEq(p.C, q.C), vBytesEq(p.D, q.D), vStrEq(p.E, q.E), vStrEq(string(p.F), string(q.F))), "content in a row changed")
	vReach("pair")
}
