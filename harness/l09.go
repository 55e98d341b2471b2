package kafkamock

// vBusy puts a client into state k, in which the server has something to wait for or to do: the states of
// vMode, and some more.
const vBusyModes = vModes + 4

func (s *vSrv) vBusy(k int) *vCli {
	if k < vModes {
		c, _ := s.vMode(k)
		return c
	}
	c := s.dial()
	switch k - vModes {
	case 0: // announces a large request and sends little of it
		c.Send(new(vW).i32(1 << 24).i16(apiHeartbeat).i16(0).i32(1).b)
	case 1: // several long waits in a row
		for i := int32(0); i < 3; i++ {
			c.Send(vReq(apiFetch, i, vFetchBody(1<<30, []vFetchTopic{{"t", []vFetchPart{{0, 9, 100}}}})))
		}
	case 2: // only part of a size prefix
		c.Send([]byte{0, 0})
	case 3: // does not read a large response
		c, _, _ = s.vStalled(3)
	}
	return c
}

// One client is in any state - idle, half a request, waiting, not reading - and another, connected before
// or after, sends a request of any API: it is answered as promptly as if it were alone, several times over.
//verif prop=L09 timeout=40 reach=done
func vL09Beside() {
	s := vP02Setup()
	first := vPick("first", 2) == 1
	var d *vCli
	if first {
		d = s.dial()
		d.beat("heartbeat")
	}
	s.vBusy(vPick("mode", vBusyModes))
	if !first {
		d = s.dial()
	}
	if vPick("settle", 2) == 1 {
		vSettle()
	}
	api, body, check := vAnyReq(vPick("api", len(vApis)))
	if api == apiSync {
		check = func(r *vR) { vParseSync(r) }
	}
	slack := int64(vPrompt)
	for i := int32(0); i < 2; i++ {
		t := vClockNs()
		d.Send(vReq(api, 40+i, body))
		corr, r := d.frame(3*vSec, "a request beside a client that keeps the server waiting")
		vAssert(corr == 40+i, "another request is answered")
		vAssert(vClockNs()-t <= slack, "a request is held up by another client")
		check(r)
	}
	vReach("done")
}

// Up to 3 clients in any states at a time (every combination) and one that is served beside them.
//verif prop=L09 timeout=60 weight=2 reach=done
func vL09Several() {
	s := vP02Setup()
	n := vTier(2, 3)
	last := 0
	for i := 0; i < n; i++ {
		k := vPick("mode", vBusyModes-1)
		vAssume(k >= last)
		last = k
		s.vBusy(k)
	}
	slack := int64(vPrompt)
	d := s.dial()
	for i := 0; i < 2; i++ {
		t := vClockNs()
		d.beat("a request beside clients that keep the server waiting")
		vAssert(vClockNs()-t <= slack, "a request is held up by other clients")
	}
	t := vClockNs()
	f := d.fetch1(0, "t", 0, 0, 10000)
	vAssert(len(f.msgs) == 2 && vClockNs()-t <= slack, "a request is held up by other clients")
	vReach("done")
}

// Two clients fetch, commit, list, or join at the same time with arbitrary contents of their own: on every
// schedule within the bound each response is the one to its own request.
//verif prop=L09 sched weight=2 reach=done
func vL09Mixed() {
	s := vStartSrv()
	recs := []vRec{{vBytes("key", 1), vBytes("value", 2), 3}, {vBytes("key", 1), vBytes("value", 2), 4}}
	s.post("t", 0, recs[0])
	s.post("u", 0, recs[1])
	c, d := s.dial(), s.dial()
	c.beat("heartbeat")
	d.beat("heartbeat")
	tops := []string{"t", "u"}
	member := []string{vStr("member", 1), vStr("member", 1)}
	kinds := []int{vPick("a", 4), vPick("b", 4)}
	vAssume(kinds[0] <= kinds[1])
	body := func(i int) (int16, []byte) {
		switch kinds[i] {
		case 0:
			return apiFetch, vFetchBody(0, []vFetchTopic{{tops[i], []vFetchPart{{0, 0, 1000}}}})
		case 1:
			return apiListOffsets, vLoBody([]vLoTopic{{tops[i], []vLoPart{{0, 0}, {int32(7 + i), -1}}}})
		case 2:
			return apiMetadata, new(vW).i32(1).str(tops[i]).b
		}
		return apiJoin, new(vW).str("g").i32(1).i32(9).str(member[i]).str("consumer").i32(1).str(tops[i]).bytes([]byte{1, 2}).b
	}
	corrs := []int32{vI32("corr"), vI32("corr")}
	vSettle()
	vExplore(vTier(1, 2), 3)
	for i, x := range []*vCli{c, d} {
		api, b := body(i)
		x.Send(vReq(api, corrs[i], b))
	}
	var rs [2]*vR
	for i, x := range []*vCli{c, d} {
		var corr int32
		corr, rs[i] = x.frame(8*vSec, "concurrent request")
		vAssert(corr == corrs[i], "another client's request is answered")
	}
	vNoExplore()
	for i, r := range rs {
		switch kinds[i] {
		case 0:
			f := vParseFetch(r)
			vAssert(len(f) == 1 && vStrEq(f[0].topic, tops[i]) && len(f[0].parts) == 1 && len(f[0].parts[0].msgs) == 1, "another client's request is answered")
			vIsRec(f[0].parts[0].msgs[0], recs[i], 0)
		case 1:
			vAssert(r.i32() == 1 && vStrEq(r.str(), tops[i]) && r.i32() == 2, "another client's request is answered")
			vAssert(r.i32() == 0 && r.i16() == 0 && r.i64() == recs[i].ts && r.i64() == 0, "another client's request is answered")
			vAssert(r.i32() == int32(7+i) && r.i16() == 3, "another client's request is answered")
			r.i64()
			r.i64()
			r.end("list offsets")
		case 2:
			for n := r.count(); n > 0; n-- {
				r.i32()
				r.str()
				r.i32()
				r.str()
			}
			r.i32()
			vAssert(r.i32() == 1 && r.i16() == 0 && vStrEq(r.str(), tops[i]), "another client's request is answered")
			r.i8()
			vAssert(r.i32() == 1, "another client's request is answered")
			r.take(10)
			r.take(4 * r.count())
			r.take(4 * r.count())
			r.end("metadata")
		case 3:
			vParseJoin(r)
		}
	}
	vReach("done")
}

// Many clients at once (150, or 500 in the thorough tier), each waiting for its own partition: a
// post wakes exactly the one that waits for it, and all of them are answered in the end.
//verif prop=L09 timeout=90 steps=60000000 reach=done
func vL09Many() {
	s := vStartSrv()
	n := vTier(150, 500)
	var cs []*vCli
	for i := 0; i < n; i++ {
		s.km.CreatePartitionTopics([]string{"t"}, i)
		c := s.dial()
		c.Send(vReq(apiFetch, int32(i), vFetchBody(60000, []vFetchTopic{{"t", []vFetchPart{{int32(i), 0, 1000}}}})))
		cs = append(cs, c)
	}
	x := []int{0, n / 2, n - 1}[vPick("who", 3)]
	d := s.dial()
	d.beat("a client beside many that wait")
	rec := vRec{nil, vBytes("value", 2), 5}
	s.post("t", x, rec)
	corr, r := cs[x].frame(3*vSec, "waiting fetch")
	vAssert(corr == int32(x), "another request is answered")
	f := vParseFetch(r)
	vAssert(len(f[0].parts[0].msgs) == 1, "a waiting fetch is not answered with the posted record")
	vIsRec(f[0].parts[0].msgs[0], rec, 0)
	for i, c := range cs {
		vAssert(c.Pending() == 0, "a client is answered by another's data")
		if i != x {
			s.post("t", i, vRec{nil, []byte{byte(i), byte(i >> 8)}, 5})
		}
	}
	for i, c := range cs {
		if i != x {
			corr, r := c.frame(3*vSec, "waiting fetch")
			vAssert(corr == int32(i), "another request is answered")
			f := vParseFetch(r)
			vAssert(len(f[0].parts) == 1 && f[0].parts[0].part == int32(i) && len(f[0].parts[0].msgs) == 1, "another client's request is answered")
			vIsRec(f[0].parts[0].msgs[0], vRec{nil, []byte{byte(i), byte(i >> 8)}, 5}, 0)
		}
	}
	vReach("done")
}
