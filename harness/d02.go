package kafkamock

// vSized is a record with the given key and value lengths (-1: null) and arbitrary contents.
func vSized(name string, k, v int) vRec {
	r := vRec{ts: vInt(name+".ts", 0, 1<<50)}
	if k >= 0 {
		r.key = vBytes(name+".k", k)
	}
	if v >= 0 {
		r.value = vBytes(name+".v", v)
	}
	return r
}

// vWireSize is the size of the record's message in a message set: offset 8, size 4, crc 4, magic 1,
// attributes 1, timestamp 8, two length prefixes.
func vWireSize(r vRec) int64 { return 34 + int64(len(r.key)) + int64(len(r.value)) }

// vFits asserts that the fetched messages are the longest run of recs (from offset off) within the limit.
func vFits(f vFetched, recs []vRec, off int, limit int64) {
	sum := int64(0)
	for i, m := range f.msgs {
		vAssert(off+i < len(recs), "more records than were posted")
		vIsRec(m, recs[off+i], int64(off+i))
		sum += vWireSize(recs[off+i])
	}
	if len(f.msgs) > 0 {
		vAssert(sum <= limit, "the records exceed the partition byte limit")
	}
	if next := off + len(f.msgs); next < len(recs) {
		vAssert(sum+vWireSize(recs[next]) > limit, "a record that fits is held back")
		vReach("cut")
	} else {
		vReach("all")
	}
}

// Every 32-bit limit (zero and negative included), 0..3 records of several sizes (arbitrary contents), any
// start offset among them; maximum wait 0 or 30 ms. The fetch must complete.
//verif prop=D02 weight=3 reach=cut,all
func vD02Limit() {
	s := vStartSrv()
	s.km.CreatePartitionTopics([]string{"t"}, 3)
	sizes := [][2]int{{-1, 1}, {2, 0}, {1, 9}, {0, -1}}
	n := vPick("n", 4)
	shift := vPick("shift", 4)
	var recs []vRec
	for i := 0; i < n; i++ {
		z := sizes[(i+shift)%4]
		r := vSized("r", z[0], z[1])
		recs = append(recs, r)
		s.post("t", 3, r)
	}
	off := vPick("off", 3)
	vAssume(off <= n)
	limit := vI32("limit")
	wait := int32(vPick("wait", 2) * 30)
	c := s.dial()
	t0 := vClockNs()
	f := c.fetch1(wait, "t", 3, int64(off), limit)
	vAssert(vClockNs()-t0 < 5*vSec, "the fetch takes very long")
	vFits(f, recs, off, int64(limit))
	// and once more, to see that an oversized record did not wedge the connection
	c.call(apiHeartbeat, new(vW).str("g").i32(0).str("m").b, "heartbeat after fetch")
}

// Two partitions (and a third in another topic) in one request, each with its own arbitrary limit.
//verif prop=D02 weight=2 reach=cut,all
func vD02Several() {
	s := vStartSrv()
	a := []vRec{vSized("a", 1, 1), vSized("a", -1, 8)}
	b := []vRec{vSized("b", 3, 4), vSized("b", 0, 0)}
	for i := range a {
		s.post("t", 0, a[i])
		s.post("t", 1, b[i])
		s.post("u", 0, b[1-i])
	}
	l0, l1, l2 := vI32("limit0"), vI32("limit1"), vI32("limit2")
	c := s.dial()
	ts := c.fetch(0, []vFetchTopic{{"t", []vFetchPart{{0, 0, l0}, {1, 0, l1}}}, {"u", []vFetchPart{{0, 0, l2}}}})
	vAssert(len(ts) == 2 && len(ts[0].parts) == 2 && len(ts[1].parts) == 1, "fetch: not every requested partition is answered")
	vFits(ts[0].parts[0], a, 0, int64(l0))
	vFits(ts[0].parts[1], b, 0, int64(l1))
	vFits(ts[1].parts[0], []vRec{b[1], b[0]}, 0, int64(l2))
}

// Large records: values of 300 and 4090..5000 bytes, any limit; a second fetch goes on where the first
// one ended.
//verif prop=D02 reach=cut,all
func vD02Large() {
	s := vStartSrv()
	big := []int{4090, 4096, 5000}[vPick("big", 3)]
	var recs []vRec
	for _, n := range []int{300, big, 2} {
		v := make([]byte, n)
		v[0], v[n-1] = vU8("first"), vU8("last")
		r := vRec{value: v, key: vBytes("k", 1), ts: vInt("ts", 0, 1<<50)}
		recs = append(recs, r)
		s.post("t", 0, r)
	}
	limit := vI32("limit")
	c := s.dial()
	f := c.fetch1(0, "t", 0, 0, limit)
	vFits(f, recs, 0, int64(limit))
	g := c.fetch1(0, "t", 0, int64(len(f.msgs)), limit)
	vFits(g, recs, len(f.msgs), int64(limit))
}
