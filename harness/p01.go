package kafkamock

// vStream is a few requests whose responses tell whether each was handled exactly once and in order:
// offset commits growing by one, each followed by a fetch of the committed offset.
func vStream(topic string) (reqs [][]byte, check func(corr int32, r *vR, i int)) {
	a, b := vInt("a", 0, 1<<40), vInt("b", 1<<41, 1<<42)
	body := func(off int64) []byte {
		return vCommitBody("g", []vCmTopic{{topic, []vCmPart{{0, off}}}})
	}
	of := vOffsetFetchBody("g", []vOfTopic{{topic, []int32{0}}})
	id := int32(500)
	reqs = [][]byte{vReq(apiCommit, id, body(a)), vReq(apiOffsetFetch, id+1, of), vReq(apiCommit, id+2, body(b)), vReq(apiOffsetFetch, id+3, of)}
	check = func(corr int32, r *vR, i int) {
		vAssert(corr == id+int32(i), "requests are not answered in order, each once")
		if i%2 == 0 {
			vParseCommit(r)
			return
		}
		r.i32()
		r.str()
		r.i32()
		r.i32()
		got := r.i64()
		vAssert(!r.bad, "offset fetch: response is shorter than its contents")
		vAssert(got == vIte(i == 1, a, b), "a request was handled early, late, or more than once")
	}
	return
}

// vGap passes time between segments.
func vGap(kind int) {
	switch kind {
	case 0:
		vSettle()
	case 1:
		vSettle()
		vSleep(1200 * vMsNs)
	}
}

// Two requests in one stream, cut at every pair of positions, with and without the server catching up in
// between (also for longer than its read timeout).
//verif prop=P01 weight=3 reach=cut
func vP01Cuts() { vP01(1, 2, 0) }

// Four requests cut at one position and again up to 9 bytes further.
//verif prop=P01 weight=3 reach=cut
func vP01Near() { vP01(1, 4, 9) }

// Four requests, every pair of cuts.
//verif prop=P01 weight=3 tiers=thorough reach=cut
func vP01Four() { vP01(1, 4, 0) }

// Two requests, every three cuts, the latter two within 16 bytes each.
//verif prop=P01 weight=3 tiers=thorough reach=cut
func vP01MoreCuts() { vP01(2, 2, 16) }

func vP01(extra, nreqs, near int) {
	s := vStartSrv()
	s.km.CreatePartitionTopics([]string{"t"}, 0)
	reqs, check := vStream("t")
	reqs = reqs[:nreqs]
	var all []byte
	var ends []int
	for _, r := range reqs {
		all = append(all, r...)
		ends = append(ends, len(all))
	}
	c := s.dial()
	from := 0
	gap := vPick("gap", 3)
	done := 0
	recv := func(upto int) {
		for ; done < len(ends) && ends[done] <= upto; done++ {
			corr, r := c.frame(20*vSec, "pipelined request")
			check(corr, r, done)
		}
	}
	for i := 0; i <= extra; i++ {
		max := len(all) - from
		if i > 0 && near > 0 && max > near {
			max = near
		}
		step := vPick("cut", max)
		c.Send(all[from : from+step])
		from += step
		vGap(gap)
		if gap < 2 {
			recv(from)
			vAssert(c.Pending() == 0, "an incomplete request was acted on")
		}
	}
	c.Send(all[from:])
	recv(len(all))
	vSettle()
	vAssert(c.Pending() == 0, "a request was answered more than once")
	vReach("cut")
}

// One byte at a time; and everything in one segment.
//verif prop=P01 reach=bytes,one
func vP01Bytes() {
	s := vStartSrv()
	s.km.CreatePartitionTopics([]string{"t"}, 0)
	reqs, check := vStream("t")
	var all []byte
	for _, r := range reqs {
		all = append(all, r...)
	}
	c := s.dial()
	if vPick("how", 2) == 0 {
		for i := range all {
			c.Send(all[i : i+1])
		}
		vReach("bytes")
	} else {
		c.Send(all)
		vReach("one")
	}
	for i := range reqs {
		corr, r := c.frame(20*vSec, "pipelined request")
		check(corr, r, i)
	}
	vSettle()
	vAssert(c.Pending() == 0, "a request was answered more than once")
}

// Requests of many sizes from 60 bytes to 1 MB (around 4096, 8192, 16384, 32768, 65536 and 2^20 bytes in
// particular), whole or split at several positions, between two small ones in the same stream.
//verif prop=P01 weight=5 reach=large steps=400000000 timeout=60
func vP01Large() {
	s := vStartSrv()
	s.km.CreatePartitionTopics([]string{"t"}, 0)
	sizes := []int{60, 255, 256, 4000, 4091, 4092, 4093, 4095, 4096, 4097, 4100, 8180, 8188, 8192, 8196, 9000, 16384, 20001, 32768, 40000, 65535, 65536, 70000, 131073, 1 << 20, 300000, 1<<20 - 1, 1<<20 + 1}
	size := sizes[vPick("size", vTier(len(sizes)-3, len(sizes)))]
	// the request's frame is exactly size bytes long; topic names of up to 30000 bytes fill it
	name := vLong('a', 30000)
	build := func(n int) []byte {
		ts := []vOfTopic{{"t", []int32{0}}}
		for n > 0 {
			k := n
			if k > 30000 {
				k = 30000
			}
			ts = append(ts, vOfTopic{name[:k], nil})
			n -= k
		}
		return vReq(apiOffsetFetch, 2, vOffsetFetchBody("g", ts))
	}
	fill := 0
	if base := len(build(1)); size > base {
		fill = size - base + 1
		for len(build(fill)) > size {
			fill--
		}
	}
	big := build(fill)
	x := vInt("x", 1, 1<<50)
	var all []byte
	all = append(all, vReq(apiCommit, 1, vCommitBody("g", []vCmTopic{{"t", []vCmPart{{0, x}}}}))...)
	start := len(all)
	all = append(all, big...)
	all = append(all, vReq(apiHeartbeat, 3, new(vW).str("g").i32(0).str("m").b)...)
	c := s.dial()
	splits := 4
	if size > 200000 {
		splits = 3
	}
	switch vPick("split", splits) {
	case 0:
		c.Send(all)
	case 1:
		c.Send(all[:start+2])
		c.Send(all[start+2:])
	case 2:
		h := start + len(big)/2
		c.Send(all[:h])
		vSettle()
		c.Send(all[h:])
	case 3:
		for i := 0; i < len(all); i += 1460 {
			e := i + 1460
			if e > len(all) {
				e = len(all)
			}
			c.Send(all[i:e])
		}
	}
	corr, r := c.frame(20*vSec, "small request")
	vAssert(corr == 1, "requests are not answered in order, each once")
	vParseCommit(r)
	corr, r = c.frame(20*vSec, "large request")
	vAssert(corr == 2, "requests are not answered in order, each once")
	vAssert(r.count() == 1, "the large request is not answered as such")
	vAssert(r.str() == "t" && r.count() == 1 && r.i32() == 0, "the large request is not answered as such")
	vAssert(r.i64() == x, "the large request is not answered as such")
	corr, r = c.frame(20*vSec, "request after a large one")
	vAssert(corr == 3, "requests are not answered in order, each once")
	vErr0(r, "heartbeat")
	vReach("large")
}

// A large fetch request (hundreds of partitions) and a large response (records of 20000 bytes).
//verif prop=P01 reach=large steps=20000000 timeout=60
func vP01LargeFetch() {
	s := vStartSrv()
	n := []int{100, 300, 700}[vPick("n", 3)]
	v := make([]byte, 20000)
	v[0], v[19999] = vU8("first"), vU8("last")
	rec := vRec{nil, v, 5}
	s.post("t", n-1, rec)
	var ps []vFetchPart
	for i := 0; i < n; i++ {
		ps = append(ps, vFetchPart{int32(i), 0, 100000})
	}
	c := s.dial()
	ts := c.fetch(0, []vFetchTopic{{"t", ps}})
	vAssert(len(ts) == 1 && len(ts[0].parts) == n, "fetch: not every requested partition is answered")
	for i, f := range ts[0].parts {
		vAssert(f.part == int32(i), "fetch: partitions out of order")
		if i < n-1 {
			vAssert(len(f.msgs) == 0, "records out of nowhere")
		} else {
			vAssert(len(f.msgs) == 1, "the record is missing")
			vIsRec(f.msgs[0], rec, 0)
		}
	}
	vReach("large")
}
