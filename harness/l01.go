package kafkamock

const vActs = 16

// vAct is activity number k: begin sends a request or calls the mock, end waits for it. Every repetition
// rep creates other topics.
func (s *vSrv) vAct(k int, c *vCli, rep int) (begin func(g *vGroup), end func()) {
	names := []string{"n", "m"}
	if rep > 1 {
		names = []string{"n" + string(rune('a'+rep)), "m" + string(rune('a'+rep))}
	}
	call := func(f func()) (func(g *vGroup), func()) { return func(g *vGroup) { g.Go(f) }, func() {} }
	switch k {
	case 0:
		return call(func() { s.km.SimplePost("t", 0, nil, []byte{1}) })
	case 1:
		return call(func() { s.km.ExtendedPost(names[0], 3, []byte{1}, []byte{2}, map[string][]byte{"h": {1}}, vMs(9)) })
	case 2:
		return call(func() { s.km.CreatePartitionTopics([]string{"t", names[1]}, 7+rep) })
	case 3:
		return call(func() { s.km.SetConsumerGroupOffset("t", 0, "g", 5) })
	}
	api := int16(apiFetch)
	if k < 15 {
		api = vApis[k-4]
	}
	var body []byte
	switch {
	case k == 15: // one that waits
		body = vFetchBody(60, []vFetchTopic{{"t", []vFetchPart{{0, 1 << 40, 10000}}}, {"none", []vFetchPart{{0, 0, 100}}}})
	case api == apiFetch:
		body = vFetchBody(60, []vFetchTopic{{"t", []vFetchPart{{0, 1, 10000}, {1, 0, 10}}}, {"n", []vFetchPart{{3, 0, 100}}}})
	case api == apiListOffsets:
		body = vLoBody([]vLoTopic{{"t", []vLoPart{{0, -1}, {0, -2}, {0, 3}}}})
	case api == apiMetadata:
		body = new(vW).i32(2).str("t").str("n").b
	case api == apiCommit:
		body = vCommitBody("g", []vCmTopic{{"t", []vCmPart{{0, 3}}}})
	case api == apiOffsetFetch:
		body = vOffsetFetchBody("g", []vOfTopic{{"t", []int32{0}}})
	default:
		_, body, _ = vAnyReq(k - 4)
	}
	return func(g *vGroup) { c.Send(vReq(api, 7, body)) }, func() { c.frame(8*vSec, "concurrent request") }
}

// Every pair of activities (4 API functions and requests of all 11 APIs, one of them a fetch that waits, the same one twice included), run
// concurrently; the solver looks for an order of the recorded run in which two of them access the same
// memory unsynchronised, at least one writing.
//verif prop=L01 race weight=3 reach=ran timeout=60
func vL01Pairs() {
	s := vStartSrv()
	s.km.SimplePost("t", 0, nil, []byte{1})
	s.km.SimplePost("t", 1, nil, []byte{1})
	a := vPick("first", vActs)
	b := vPick("second", vActs)
	vAssume(a <= b)
	c, d := s.dial(), s.dial()
	c.beat("heartbeat")
	d.beat("heartbeat")
	vRaces()
	for i := vReps(); i > 0; i-- {
		var g vGroup
		begA, endA := s.vAct(a, c, i)
		begB, endB := s.vAct(b, d, i)
		begA(&g)
		begB(&g)
		endA()
		endB()
		vAssert(g.Wait(8*vSec), "a call into the mock does not return")
	}
	vReach("ran")
}

// Three activities at a time: a request of every API against a post and a topic creation (or direct
// setting), on different schedules.
//verif prop=L01 race weight=2 tiers=thorough reach=ran timeout=60
func vL01Triples() {
	s := vStartSrv()
	s.km.SimplePost("t", 0, nil, []byte{1})
	a := 4 + vPick("first", 11)
	b := vPick("second", 4)
	k := vPick("third", vActs)
	c, d := s.dial(), s.dial()
	c.beat("heartbeat")
	d.beat("heartbeat")
	vRaces()
	vExplore(1, 2)
	for i := vReps(); i > 0; i-- {
		var g vGroup
		begA, endA := s.vAct(a, c, i)
		begB, _ := s.vAct(b, nil, i)
		begC, endC := s.vAct(k, d, i)
		begB(&g)
		begA(&g)
		begC(&g)
		endA()
		endC()
		vAssert(g.Wait(8*vSec), "a call into the mock does not return")
	}
	vReach("ran")
}

// Clients connecting, sending their first request and disconnecting while others are served, while records
// are posted, and while the mock is told to finish or to stop.
//verif prop=L01 race weight=2 reach=ran timeout=60
func vL01Connect() {
	s := vStartSrv()
	s.km.SimplePost("t", 0, nil, []byte{1})
	c := s.dial()
	c.beat("heartbeat")
	k := vPick("act", vActs)
	end := vPick("end", 4)
	vRaces()
	for i := vReps(); i > 0; i-- {
		var g vGroup
		beg, fin := s.vAct(k, c, i)
		beg(&g)
		d := s.dial()
		d.Send(vReq(apiHeartbeat, 1, new(vW).str("g").i32(0).str("m").b))
		fin()
		if end == 0 {
			d.Close()
		}
		vAssert(g.Wait(8*vSec), "a call into the mock does not return")
	}
	switch end {
	case 1:
		s.km.FinishRequests()
	case 2:
		s.km.RequestStop()
	case 3:
		s.km.Restart()
		s.dial().beat("heartbeat after restart")
	}
	s.km.RequestStop()
	s.km.WaitForTermination()
	vReach("ran")
}
