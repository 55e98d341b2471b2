package kafkamock

// Request fields that must make no difference, entries named more than once, types of the same name, and
// records of megabytes.

// A fetch with an arbitrary replica id, minimum byte count and any of six wait times (data is at hand), from a client
// with an arbitrary id.
//verif prop=D01 reach=read
func vD01Fields() {
	s := vStartSrv()
	a, b := vSized("a", 1, 2), vSized("b", -1, 0)
	s.post("t", 0, a)
	s.post("t", 0, b)
	c := s.dial()
	off := vPick("offset", 2)
	w := new(vW).i32(vI32("replica")).i32([]int32{-1 << 31, -1, 0, 1, 1000, 1<<31 - 1}[vPick("wait", 6)]).i32(vI32("minBytes")).i32(1).str("t").i32(1).i32(0).i64(int64(off)).i32(10000)
	c.Send(vFrame(apiFetch, 2, vI32("corr"), vStr("client", vPick("clientLen", 3)), w.b))
	_, r := c.frame(20*vSec, "fetch")
	ts := vParseFetch(r)
	vAssert(len(ts) == 1 && len(ts[0].parts) == 1, "fetch: the requested partition is not answered exactly once")
	f := ts[0].parts[0]
	vAssert(len(f.msgs) == 2-off, "a fetch does not return all records from the offset on")
	for i, m := range f.msgs {
		vIsRec(m, []vRec{a, b}[off+i], int64(off+i))
	}
	vReach("read")
}

// Records of 30 kB to 1 MB (3 MB in the thorough tier), small ones between them, read at once, one by one, and again after a restart.
//verif prop=D01 reach=big steps=400000000 timeout=60
func vD01Big() {
	s := vStartSrv()
	n := []int{30000, 32767, 32768, 65535, 65536, 100000, 1 << 20, 3 << 20}[vPick("n", vTier(7, 8))]
	mk := func(k, v int) vRec {
		r := vRec{nil, nil, vInt("ts", 0, 1<<40)}
		if k >= 0 {
			r.key = vBulk("k", k)
		}
		if v >= 0 {
			r.value = vBulk("v", v)
		}
		return r
	}
	recs := []vRec{mk(1, 2), mk(-1, n), mk(3, 1), mk(n/2, n/2), mk(0, -1)}
	for _, r := range recs {
		s.post("t", 0, r)
	}
	if vPick("restart", 2) == 1 {
		s.km.Restart()
	}
	c := s.dial()
	f := c.fetch1(0, "t", 0, 0, 1<<30)
	vAssert(len(f.msgs) == len(recs), "a fetch does not return all records from the offset on")
	for i, m := range f.msgs {
		vIsRec(m, recs[i], int64(i))
	}
	for i := range recs {
		limit := 34 + len(recs[i].key) + len(recs[i].value)
		f := c.fetch1(0, "t", 0, int64(i), int32(limit))
		vAssert(len(f.msgs) == 1, "a large record that just fits is not returned alone")
		vIsRec(f.msgs[0], recs[i], int64(i))
	}
	vReach("big")
}

// Message sets of records of up to 3 MB: sizes and checksums.
//verif prop=D05 reach=big steps=400000000 timeout=60
func vD05Big() {
	s := vStartSrv()
	n := []int{8000, 8192, 16384, 32768, 65536, 1 << 20, 3 << 20}[vPick("n", 7)]
	v := make([]byte, n)
	for i := range v {
		v[i] = byte(i * 31)
	}
	var k []byte
	if vPick("key", 2) == 1 {
		k = v[:n/3]
	}
	s.post("t", 0, vRec{k, v, 77})
	s.post("t", 0, vRec{nil, v[:5], 78})
	f := s.dial().fetch1(0, "t", 0, 0, 1<<30)
	vAssert(len(f.msgs) == 2, "the record is not returned")
	vSetOk(f)
	vReach("big")
}

// The same topic, and the same partition of it, named in several entries of one fetch, with offsets and limits
// of their own.
//verif prop=D03 reach=repeat
func vD03Repeat() {
	s := vStartSrv()
	recs := []vRec{vSized("a", 1, 2), vSized("b", 1, 2), vSized("c", 1, 2)}
	for _, r := range recs {
		s.post("t", 0, r)
	}
	s.post("t", 1, vRec{nil, []byte{9}, 5})
	type entry struct {
		off int64
		n   int
	}
	var es []entry
	var ps [2][]vFetchPart
	for i := 0; i < 3; i++ {
		e := entry{int64([]int{0, 1, 3}[vPick("offset", 3)]), []int{0, 1, 3}[vPick("room", 3)]}
		es = append(es, e)
		k := 0
		if i == 2 {
			k = vPick("topics", 2) // the third entry under the same or a second mention of the topic
		}
		ps[k] = append(ps[k], vFetchPart{0, e.off, int32(37 * e.n)})
	}
	req := []vFetchTopic{{"t", ps[0]}}
	if len(ps[1]) > 0 {
		req = append(req, vFetchTopic{"t", ps[1]})
	}
	ts := s.dial().fetch(0, req)
	vAssert(len(ts) == len(req), "fetch: another number of topics is answered than was requested")
	var got []vFetched
	for i, t := range ts {
		vAssert(vStrEq(t.topic, "t") && len(t.parts) == len(req[i].parts), "fetch: another number of partitions is answered than was requested")
		got = append(got, t.parts...)
	}
	for i, f := range got {
		want := 3 - int(es[i].off)
		if want > es[i].n {
			want = es[i].n
		}
		vAssert(f.part == 0 && len(f.msgs) == want, "fetch: an entry does not have its own offset and limit")
		for j, m := range f.msgs {
			vIsRec(m, recs[int(es[i].off)+j], es[i].off+int64(j))
		}
	}
	vReach("repeat")
}

// ListOffsets with an arbitrary replica id, the same partition asked about several times with any of four times,
// under one mention of its topic or two.
//verif prop=D07 reach=repeat
func vD07Repeat() {
	s := vStartSrv()
	s.post("t", 0, vRec{nil, nil, 100})
	s.post("t", 0, vRec{nil, nil, 200})
	s.post("u", 0, vRec{nil, nil, 300})
	asks := []int64{-1, -2, 150, 201}
	wants := []int64{2, 0, 1, 2}
	var ks []int
	for i := 0; i < 3; i++ {
		ks = append(ks, vPick("ask", 4))
	}
	w := new(vW).i32(vI32("replica"))
	two := vPick("mentions", 2) == 1
	if two {
		w.i32(3).str("t").i32(1).i32(0).i64(asks[ks[0]]).str("u").i32(1).i32(0).i64(-1).str("t").i32(2).i32(0).i64(asks[ks[1]]).i32(0).i64(asks[ks[2]])
	} else {
		w.i32(1).str("t").i32(3).i32(0).i64(asks[ks[0]]).i32(0).i64(asks[ks[1]]).i32(0).i64(asks[ks[2]])
	}
	r := s.dial().call(apiListOffsets, w.b, "list offsets")
	one := func(want int64) {
		vAssert(r.i32() == 0 && r.i16() == 0, "list offsets: an entry is not the one asked for, or reports an error")
		r.i64()
		vAssert(r.i64() == want, "list offsets: a repeated entry is answered with another entry's offset")
	}
	if two {
		vAssert(r.i32() == 3 && vStrEq(r.str(), "t") && r.i32() == 1, "list offsets: entries are not answered in request order")
		one(wants[ks[0]])
		vAssert(vStrEq(r.str(), "u") && r.i32() == 1, "list offsets: entries are not answered in request order")
		one(1)
		vAssert(vStrEq(r.str(), "t") && r.i32() == 2, "list offsets: entries are not answered in request order")
		one(wants[ks[1]])
		one(wants[ks[2]])
	} else {
		vAssert(r.i32() == 1 && vStrEq(r.str(), "t") && r.i32() == 3, "list offsets: entries are not answered in request order")
		for _, k := range ks {
			one(wants[k])
		}
	}
	r.end("list offsets")
	vReach("repeat")
}

type vNamed struct {
	b   []byte
	bad func(b []byte) bool // whether b does not decode to what was encoded
}

func vNamedA() vNamed {
	type row struct {
		X int16
		S string
		L []int8
	}
	v := row{vI16("ax"), vStr("as", 1), []int8{vI8("al")}}
	return vNamed{vEnc(v), func(b []byte) bool {
		n, o := peekObject(vReader(b), 0, vTypeOf(v))
		y, ok := o.(row)
		return !ok || n != len(b) || len(y.L) != 1 || !vAnd(y.X == v.X, vStrEq(y.S, v.S), y.L[0] == v.L[0])
	}}
}

func vNamedB() vNamed {
	type row struct {
		S CompactString
		X *vInner
		L []int8 `kafka:"compact"`
		Y int64
	}
	v := row{CompactString(vStr("bs", 1)), &vInner{VarInt(vI8("bn")), ""}, []int8{vI8("bl"), 2}, vI64("by")}
	return vNamed{vEnc(v), func(b []byte) bool {
		n, o := peekObject(vReader(b), 0, vTypeOf(v))
		y, ok := o.(row)
		return !ok || n != len(b) || len(y.L) != 2 || y.X == nil || !vAnd(vStrEq(string(y.S), string(v.S)), vInnerEq(*y.X, *v.X), y.L[0] == v.L[0], y.L[1] == 2, y.Y == v.Y)
	}}
}

func vNamedC() vNamed {
	v := struct {
		X int32
		S string
	}{vI32("cx"), vStr("cs", 2)}
	return vNamed{vEnc(v), func(b []byte) bool {
		n, o := peekObject(vReader(b), 0, vTypeOf(v))
		y, ok := o.(struct {
			X int32
			S string
		})
		return !ok || n != len(b) || !vAnd(y.X == v.X, vStrEq(y.S, v.S))
	}}
}

func vNamedD() vNamed {
	v := struct {
		X int32
		S string `kafka:"nullable"`
	}{vI32("dx"), "d"}
	return vNamed{vEnc(v), func(b []byte) bool {
		n, o := peekObject(vReader(b), 0, vTypeOf(v))
		y, ok := o.(struct {
			X int32
			S string `kafka:"nullable"`
		})
		return !ok || n != len(b) || !vAnd(y.X == v.X, vStrEq(y.S, v.S))
	}}
}

// Different structure types of the same name, and unnamed ones that differ in their tags only, encoded and
// decoded in any order.
//verif prop=C03 reach=names
func vC03Names() {
	mk := []func() vNamed{vNamedA, vNamedB, vNamedC, vNamedD}
	var ns []vNamed
	for i := 0; i < 3; i++ {
		ns = append(ns, mk[vPick("type", 4)]())
	}
	for i := range ns {
		if vPick("backwards", 2) == 1 {
			i = len(ns) - 1 - i
		}
		vAssert(!ns[i].bad(ns[i].b), "a message is decoded as another type of the same name")
	}
	vReach("names")
}
