package kafkamock

// The protocol guarantees (P01-P04, G03) on long streams, long requests and well-used connections.

// 300 requests of many lengths in one stream that arrives in segments of 60, 100, 1000, 4096, 8191,
// 8192, 8193 or 20000 bytes; an arbitrary commit among them shows in all later answers and in none before.
//verif prop=P01 weight=2 reach=stream steps=100000000 timeout=60
func vP01Segments() {
	s := vStartSrv()
	s.km.CreatePartitionTopics([]string{"t"}, 0)
	seg := []int{60, 100, 1000, 4096, 8191, 8192, 8193, 20000}[vPick("segment", 8)]
	const n = 300
	x := vInt("x", 1<<41, 1<<42)
	var all []byte
	for i := 0; i < n; i++ {
		switch {
		case i == 150:
			all = append(all, vReq(apiCommit, int32(i), vCommitBody("g", []vCmTopic{{"t", []vCmPart{{0, x}}}}))...)
		case i%3 == 0:
			all = append(all, vReq(apiHeartbeat, int32(i), new(vW).str(vLong('h', i*i%700)).i32(0).str("m").b)...)
		case i%3 == 1:
			all = append(all, vReq(apiOffsetFetch, int32(i), vOffsetFetchBody("g", []vOfTopic{{"t", []int32{0}}}))...)
		default:
			all = append(all, vReq(apiCommit, int32(i), vCommitBody("g", []vCmTopic{{"t", []vCmPart{{0, int64(i)}}}}))...)
		}
	}
	c := s.dial()
	for i := 0; i < len(all); i += seg {
		e := i + seg
		if e > len(all) {
			e = len(all)
		}
		c.Send(all[i:e])
	}
	last := int64(0)
	for i := 0; i < n; i++ {
		corr, r := c.frame(20*vSec, "one of many pipelined requests")
		vAssert(corr == int32(i), "requests are not answered in order, each once")
		switch {
		case i == 150:
			vParseCommit(r)
			last = x
		case i%3 == 0:
			vErr0(r, "heartbeat")
		case i%3 == 1:
			r.i32()
			r.str()
			r.i32()
			r.i32()
			got := r.i64()
			vAssert(!r.bad, "offset fetch: response is shorter than its contents")
			vAssert(got == last, "a request was handled early, late, or more than once")
		default:
			vParseCommit(r)
			if i < 150 {
				last = int64(i)
			}
		}
	}
	vSettle()
	vAssert(c.Pending() == 0, "a request was answered more than once")
	vReach("stream")
}

// 110 pipelined requests, all APIs in turn, a few with arbitrary correlation ids.
//verif prop=P02 weight=2 reach=mixed steps=100000000
func vP02Mixed() {
	s := vP02Setup()
	c := s.dial()
	together := vPick("together", 2) == 1
	first := vPick("first", len(vApis))
	var all []byte
	var ids []int32
	var checks []func(r *vR)
	var bodies [][]byte
	var answers []func(r *vR)
	for k := range vApis {
		_, body, check := vAnyReq(k)
		bodies, answers = append(bodies, body), append(answers, check)
	}
	for i := 0; i < 110; i++ {
		k := (first + i*4) % len(vApis)
		api, body, check := vApis[k], bodies[k], answers[k]
		id := int32(-50 + i)
		if i == 0 || i == 64 || i == 109 {
			id = vI32("corr")
		}
		f := vFrame(api, vApiVer(api), id, "c", body)
		if together {
			all = append(all, f...)
		} else {
			c.Send(f)
		}
		ids = append(ids, id)
		checks = append(checks, check)
	}
	c.Send(all)
	for i := range ids {
		corr, r := c.frame(20*vSec, "pipelined request")
		vAssert(corr == ids[i], "pipelined requests are not answered in order with their own correlation ids")
		checks[i](r)
	}
	vSettle()
	vAssert(c.Pending() == 0, "more than one response to a request")
	vReach("mixed")
}

// A connection that has had 1, 20 or 200 good answers sends a request of
// any API number and version that is not advertised, or one whose contents are too short or too long.
func vAfter(bad func(e *vCli) []byte) {
	s := vP02Setup()
	e := s.dial()
	c := vDialRelay(s.port, 10*vSec)
	vAssert(c != nil, "the server does not accept a connection")
	n := []int{1, 20, 200}[vPick("before", 3)]
	good := func(i int) []byte { return vReq(vApis[5+i%5], int32(i), vGoodBody(vApis[5+i%5])) }
	for i := 0; i < n; i++ {
		c.Send(good(i))
		corr, r := c.frame(20*vSec, "a good request")
		vAssert(corr == int32(i) && len(r.b) > 0, "a good request is not answered")
	}
	b := bad(e)
	vReach("after")
	vNoAnswer(c, b)
}

func vGoodBody(api int16) []byte {
	switch api {
	case apiFindCoord:
		return new(vW).str("key").b
	case apiJoin:
		return new(vW).str("g").i32(7).i32(9).str("").str("consumer").i32(0).b
	case apiHeartbeat:
		return new(vW).str("g").i32(1).str("m").b
	case apiLeave:
		return new(vW).str("g").str("m").b
	}
	return new(vW).str("g").i32(1).str("m").i32(0).b
}

// The same after 1, 20 or 200 good requests on the connection: any API key and version that is not advertised.
//verif prop=P03 reach=after steps=40000000
func vP03After() {
	vAfter(func(e *vCli) []byte {
		key, ver := vI16("key"), vI16("version")
		for _, x := range e.advertised() {
			vAssume(vNot(vAnd(x.key == key, x.min <= ver, ver <= x.max)))
		}
		return vFrame(key, ver, vI32("corr"), "c", vGoodBody(vApis[5+2*vPick("body", 2)]))
	})
}

// The same after 1, 20 or 200 good requests on the connection: a request 1..4 bytes short or followed by 1..2 arbitrary bytes.
//verif prop=P04 reach=after steps=40000000
func vP04After() {
	vAfter(func(e *vCli) []byte {
		api := vApis[5+vPick("api", 5)]
		f := vReq(api, vI32("corr"), vGoodBody(api))[4:]
		if vPick("how", 2) == 0 {
			f = f[:len(f)-1-vPick("less", 4)]
		} else {
			f = append(f, vBytes("more", 1+vPick("n", 2))...)
		}
		return new(vW).bytes(f).b
	})
}

// Counts inside a request that claim fewer elements than the frame holds, null (-1) among them.
//verif prop=P04 reach=count
func vP04Under() {
	s := vP02Setup()
	n := vI32("count")
	var api int16
	var body []byte
	vAssume(n < 2)
	switch vPick("where", 8) {
	case 0:
		api, body = apiMetadata, new(vW).i32(n).str("t").str("u").b
	case 1:
		api, body = apiFetch, new(vW).i32(-1).i32(0).i32(1).i32(1).str("t").i32(n).i32(0).i64(0).i32(9).i32(1).i64(0).i32(9).b
	case 2:
		api, body = apiCommit, new(vW).str("g").i32(1).str("m").i64(0).i32(1).str("t").i32(n).i32(0).i64(3).nstr().i32(1).i64(3).nstr().b
	case 3:
		api, body = apiOffsetFetch, new(vW).str("g").i32(1).str("t").i32(n).i32(0).i32(1).b
	case 4:
		api, body = apiJoin, new(vW).str("g").i32(1).i32(1).str("").str("c").i32(n).str("p").bytes([]byte{1}).str("q").bytes([]byte{2}).b
	case 5:
		api, body = apiListOffsets, new(vW).i32(-1).i32(1).str("t").i32(n).i32(0).i64(-1).i32(1).i64(-1).b
	case 6:
		api, body = apiSync, new(vW).str("g").i32(1).str("m").i32(n).str("m").bytes([]byte{1}).str("q").bytes([]byte{2}).b
	case 7:
		api, body = apiJoin, new(vW).str("g").i32(1).i32(1).str("").str("c").i32(1).str("p").i32(n).raw([]byte{1, 2}).b
	}
	c := vDialRelay(s.port, 10*vSec)
	vAssert(c != nil, "the server does not accept a connection")
	vReach("count")
	vNoAnswer(c, vReq(api, 4, body))
}

// Requests with hundreds of elements (3 to 10 kB), cut short at any of many places or one byte too long.
//verif prop=P04 reach=wide steps=40000000
func vP04Wide() {
	s := vP02Setup()
	const n = 300
	var api int16
	w := new(vW)
	switch vPick("api", 5) {
	case 0:
		api = apiMetadata
		w.i32(n)
		for i := 0; i < n; i++ {
			w.str(vLong('t', 1+i%20))
		}
	case 1:
		api = apiFetch
		var ps []vFetchPart
		for i := int32(0); i < n; i++ {
			ps = append(ps, vFetchPart{i, 0, 100})
		}
		w.raw(vFetchBody(0, []vFetchTopic{{"t", ps}}))
	case 2:
		api = apiCommit
		var ps []vCmPart
		for i := int32(0); i < n; i++ {
			ps = append(ps, vCmPart{i, 5})
		}
		w.raw(vCommitBody("g", []vCmTopic{{"t", ps}}))
	case 3:
		api = apiOffsetFetch
		var ps []int32
		for i := int32(0); i < 2500; i++ {
			ps = append(ps, i)
		}
		w.raw(vOffsetFetchBody("g", []vOfTopic{{"t", ps}}))
	case 4:
		api = apiJoin
		w.str("g").i32(1).i32(1).str("").str("c").i32(3)
		for i := 0; i < 3; i++ {
			w.str("p").bytes(make([]byte, 2500))
		}
	}
	f := vReq(api, 4, w.b)[4:]
	m := len(f)
	switch cut := vPick("cut", 14); cut {
	case 0:
		f = append(f, vU8("x"))
	case 1:
		f = append(f, make([]byte, 9000)...)
	default:
		k := []int{m - 1, m - 2, m - 4, m - 5, m - 9, m - 300, m / 2, 4096, 4095, 257, 100, 30}[cut-2]
		vAssume(k < m)
		f = f[:k]
	}
	c := vDialRelay(s.port, 10*vSec)
	vAssert(c != nil, "the server does not accept a connection")
	vReach("wide")
	vNoAnswer(c, new(vW).bytes(f).b)
}

// Long group, member and protocol names and metadata, and hundreds of joins, heartbeats and leaves of tens of
// members; records and committed offsets stay as they were.
//verif prop=G03 reach=served steps=400000000 timeout=60
func vG03Many() {
	s := vStartSrv()
	rec := vSized("r", 1, 1)
	s.post("t", 0, rec)
	c := s.dial()
	c.commit1("g", "t", 0, 4)
	long := []int{1, 255, 256, 1000, 9000}[vPick("len", 5)]
	n := vTier(120, 400)
	group := vLong('g', long)
	var told [20]vJoined
	for i := 0; i < n; i++ {
		k := i % 20
		member := vLong('A'+byte(k), 1+(long-1)*(k%2))
		switch i / 20 % 3 {
		case 0:
			w := new(vW).str(group).i32(vIte32(k == 3, vI32("session"), 7)).i32(9).str(member).str("consumer").i32(int32(k % 5))
			for j := 0; j < k%5; j++ {
				w.str(vLong('p', 1+j*60)).bytes(make([]byte, j*5000))
			}
			j := vParseJoin(c.call(apiJoin, w.b, "join group"))
			if i < 20 {
				told[k] = j
			}
			vAssert(vStrEq(j.protocol, told[k].protocol) && vStrEq(j.leader, told[k].leader) && vStrEq(j.member, told[k].member), "a member is told something else on joining again")
		case 1:
			vErr0(c.call(apiHeartbeat, new(vW).str(group).i32(int32(i)).str(member).b, "heartbeat"), "heartbeat")
		case 2:
			vErr0(c.call(apiLeave, new(vW).str(group).str(member).b, "leave group"), "leave group")
		}
	}
	f := c.fetch1(0, "t", 0, 0, 10000)
	vAssert(len(f.msgs) == 1, "a group request changed the records")
	vIsRec(f.msgs[0], rec, 0)
	vAssert(c.committed("g", "t", 0) == 4, "a group request changed a committed offset")
	vAssert(c.committed(group, "t", 0) == vIte(group == "g", 4, 0), "a group request changed a committed offset")
	vReach("served")
}

func vIte32(c bool, a, b int32) int32 {
	if c {
		return a
	}
	return b
}
