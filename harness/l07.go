package kafkamock

// vAlive asserts that a client of before and a new one are served.
func (s *vSrv) vAlive(d *vCli) {
	d.beat("another client after a connection was lost")
	s.dial().beat("a new client after a connection was lost")
	vAssert(len(d.fetch1(0, "t", 0, 0, 1000).msgs) == 1, "the server does not serve data after a connection was lost")
}

// A client sends any prefix of a request of any API (or of two pipelined ones) and closes, half closes or
// resets the connection, right away or when the server has dealt with the prefix.
//verif prop=L07 reach=done
func vL07Prefix() {
	s := vStartSrv()
	s.km.SimplePost("t", 0, nil, []byte{1})
	d := s.dial()
	d.beat("heartbeat")
	c := s.dial()
	k := vPick("api", len(vApis))
	api, body, _ := vAnyReq(k)
	msg := vReq(api, 1, body)
	msg = append(msg, vReq(apiHeartbeat, 2, new(vW).str("g").i32(0).str("m").b)...)
	step := vTier(3, 1)
	cut := vPick("cut", len(msg)/step+1) * step
	c.Send(msg[:cut])
	if vPick("settled", 2) == 1 {
		vSettle()
	}
	c.vLeave(vPick("way", 3))
	vSettle()
	s.vAlive(d)
	vReach("done")
}

// A reset after every number of writes of the server, while it answers up to 3 pipelined requests of any
// APIs, a long response included.
//verif prop=L07 reach=done
func vL07Respond() {
	s := vStartSrv()
	s.km.SimplePost("t", 0, nil, []byte{1})
	s.km.SimplePost("u", 0, nil, make([]byte, 3000))
	d := s.dial()
	d.beat("heartbeat")
	c := s.dial()
	var msg []byte
	k := vPick("api", len(vApis)+1)
	for i := int32(0); i < 3; i++ {
		api, body, _ := vAnyReq(0)
		if k < len(vApis) {
			api, body, _ = vAnyReq(k)
		} else {
			body = vFetchBody(0, []vFetchTopic{{"u", []vFetchPart{{0, 0, 10000}}}})
		}
		msg = append(msg, vReq(api, i, body)...)
	}
	c.ResetAfterWrites(1 + vPick("writes", 10))
	c.Send(msg)
	vSettle()
	s.vAlive(d)
	vReach("done")
}

// A client whose fetch waits goes away; so does one in any other state, in any way.
//verif prop=L07 reach=done
func vL07Modes() {
	s := vStartSrv()
	s.km.SimplePost("t", 0, nil, []byte{1})
	d := s.dial()
	d.beat("heartbeat")
	c, open := s.vMode(vPick("mode", vModes))
	if vPick("settled", 2) == 1 {
		vSleep(50 * vMsNs)
	}
	if open {
		c.vLeave(vPick("way", 3))
	}
	if vPick("post", 2) == 1 {
		vSleep(100 * vMsNs)
		for i := 0; i < 9; i++ {
			s.km.SimplePost("nope", 0, nil, []byte{1})
		}
		s.km.SimplePost("u", 0, nil, []byte{1})
	}
	vSleep(vInt("pause", 0, 1) * 2 * vSec)
	s.vAlive(d)
	vReach("done")
}

// A reset or close on every schedule within the bound while the server reads, works and writes.
//verif prop=L07 sched weight=2 reach=done
func vL07Sched() {
	s := vStartSrv()
	s.km.SimplePost("t", 0, nil, []byte{1})
	d := s.dial()
	d.beat("heartbeat")
	c := s.dial()
	c.beat("heartbeat")
	way := vPick("way", 3)
	api, body, _ := vAnyReq(vPick("api", len(vApis)))
	vExplore(vTier(1, 2), vTier(3, 5))
	c.Send(append(vReq(api, 1, body), vReq(apiHeartbeat, 2, new(vW).str("g").i32(0).str("m").b)...))
	c.vLeave(way)
	d.beat("another client while a connection is lost")
	vNoExplore()
	vSettle()
	s.vAlive(d)
	vReach("done")
}

var vIdleTimes = []int64{0, 999, 1000, 1001, 1100, 1999, 2500, 12000, 900, 2001, 61000, 3700000}

// A connection stays usable however long the client is silent: before the first request, between requests,
// in the middle of a request (silent after any byte), and repeatedly.
//verif prop=L07 timeout=50 reach=done
func vL07Idle() {
	s := vStartSrv()
	s.km.SimplePost("t", 0, nil, []byte{1})
	d := s.dial()
	c := s.dial()
	n := vTier(8, len(vIdleTimes))
	if !vSymbolic() {
		n = len(vIdleTimes)
	}
	pause := func() { vSleep(vIdleTimes[vPick("idle", n)] * vMsNs) }
	k := vPick("api", len(vApis))
	api, body, check := vAnyReq(k)
	vAssume(api != apiListOffsets && api != apiFetch)
	msg := vReq(api, 3, body)
	pause()
	cut := vPick("cut", 3)*len(msg)/4 + vPick("plus", 2)*3
	c.Send(msg[:cut])
	pause()
	c.Send(msg[cut:])
	corr, r := c.frame(3*vSec, "a request after the connection was idle")
	vAssert(corr == 3, "another request is answered")
	check(r)
	d.beat("a client that was silent since it connected")
	vReach("done")
}

// A client that stops reading while it is being answered, for any time: others are served meanwhile, and
// when it reads again it gets every response whole.
//verif prop=L07 timeout=30 reach=done
func vL07Stalled() {
	s := vStartSrv()
	s.km.SimplePost("t", 0, nil, []byte{1})
	d := s.dial()
	c, rec, n := s.vStalled(1 + vPick("requests", 3))
	vSleep(vSec * []int64{0, 2, 7}[vPick("pause", 3)])
	s.vAlive(d)
	switch vPick("then", 4) {
	case 0:
		c.Resume()
		for i := 0; i < n; i++ {
			corr, r := c.frame(5*vSec, "response to a client that reads again")
			vAssert(corr == int32(i), "another request is answered")
			f := vParseFetch(r)
			vAssert(len(f) == 1 && len(f[0].parts) == 1 && len(f[0].parts[0].msgs) == 1, "a response to a client that reads again is not complete")
			vIsRec(f[0].parts[0].msgs[0], rec, 0)
		}
		c.beat("a client that reads again")
	case 1:
		c.Close()
	case 2:
		c.Reset()
	case 3:
		c.CloseWrite()
	}
	vSettle()
	s.vAlive(d)
	vReach("done")
}

// A client's host vanishes without a word, so that its connection fails with a time-out: while the
// server reads, or while it writes a response.
//verif prop=L07 timeout=30 reach=done
func vL07Vanish() {
	s := vStartSrv()
	s.km.SimplePost("t", 0, nil, []byte{1})
	d := s.dial()
	c := s.dial()
	c.beat("heartbeat")
	n := 1 + vPick("requests", 2)
	size := 10
	if !vSymbolic() {
		size = 400000
	}
	s.km.SimplePost("big", 0, nil, make([]byte, size))
	when := vPick("when", 2)
	if when == 0 {
		s.vVanish(c)
	}
	for i := 0; i < n; i++ {
		c.Send(vReq(apiFetch, int32(i), vFetchBody(0, []vFetchTopic{{"big", []vFetchPart{{0, 0, 1 << 24}}}})))
	}
	if when == 1 {
		s.vVanish(c)
	}
	vSleep(vSec * 5 / 2)
	s.vAlive(d)
	vReach("done")
}
