package kafkamock

// vLeave ends a client's connection in way k.
func (c *vCli) vLeave(k int) {
	switch k {
	case 0:
		c.Close()
	case 1:
		c.CloseWrite()
	case 2:
		c.Reset()
	}
}

// vOthers asserts that exactly the clients still connected are (soon) registered, and that they are answered.
func (s *vSrv) vOthers(cs []*vCli, gone []bool) {
	n := 0
	for i, c := range cs {
		if !gone[i] {
			n++
			c.beat("a client that stays connected")
		}
	}
	end := vClockNs() + 5*vSec
	for {
		all, ok := 0, true
		var wrong string
		for i, c := range cs {
			var mine int
			all, mine = s.registered(c)
			if gone[i] && mine != 0 {
				wrong = "a client that disconnected is still registered"
				ok = false
			} else if !gone[i] && mine != 1 {
				wrong = "a client that stays connected is not registered exactly once"
				ok = false
			}
		}
		if ok && all == n {
			return
		}
		if ok {
			wrong = "the registered clients are not those that are connected"
		}
		vAssert(vClockNs() < end, wrong)
		vSleep(vSec / 10)
	}
}

// Up to 3 (4 in the thorough tier) clients connect, and in any order all of them but one end their
// connection in any way; a new one may connect in between, and all may be silent for 12 s after.
//verif prop=L05 timeout=40 reach=done
func vL05Order() {
	s := vStartSrv()
	s.km.SimplePost("t", 0, nil, []byte{1})
	n := vTier(3, 4)
	var cs []*vCli
	gone := make([]bool, n+2)
	for i := 0; i < n; i++ {
		c := s.dial()
		c.beat("heartbeat")
		cs = append(cs, c)
	}
	for k := 0; k < n-1; k++ {
		i := vPick("leaves", n)
		vAssume(!gone[i])
		cs[i].vLeave(vPick("way", 3))
		gone[i] = true
		if vPick("settle", 2) == 1 {
			s.vOthers(cs, gone)
		}
	}
	if vPick("new", 2) == 1 {
		c := s.dial()
		c.beat("a client that connects later")
		cs = append(cs, c)
	}
	s.vOthers(cs, gone)
	if vPick("later", 2) == 1 {
		vSleep(12 * vSec)
		s.vOthers(cs, gone)
	}
	vReach("done")
}

// One client leaves in the middle of a conversation (any state) while others wait in a fetch, send a
// request in pieces or are answered: those get their answers, and data posted meanwhile.
//verif prop=L05 reach=done
func vL05Amid() {
	s := vStartSrv()
	s.km.SimplePost("t", 0, nil, []byte{1})
	first := vPick("connectedFirst", 2)
	var x, w, p *vCli
	if first == 1 {
		x, _ = s.vMode(vPick("mode", vModes))
	}
	w, p = s.dial(), s.dial()
	w.Send(vReq(apiFetch, 5, vFetchBody(6000, []vFetchTopic{{"t", []vFetchPart{{0, 1, 1000}}}})))
	beat := vReq(apiHeartbeat, 9, new(vW).str("g").i32(0).str("m").b)
	cut := vPick("cut", 4) * 4
	p.Send(beat[:cut])
	if first == 0 {
		x, _ = s.vMode(vPick("mode", vModes))
	}
	x.vLeave(vPick("way", 3))
	vSleep(vInt("pause", 0, 2) * vSec)
	p.Send(beat[cut:])
	corr, r := p.frame(3*vSec, "request in pieces")
	vAssert(corr == 9, "another request is answered")
	vErr0(r, "heartbeat")
	rec := vRec{vBytes("key", 1), vBytes("value", 2), vInt("ts", 0, 1<<40)}
	s.post("t", 0, rec)
	corr, r = w.frame(3*vSec, "waiting fetch")
	vAssert(corr == 5, "another request is answered")
	f := vParseFetch(r)
	vAssert(len(f) == 1 && len(f[0].parts) == 1 && len(f[0].parts[0].msgs) == 1, "a waiting fetch is not answered with the posted record")
	vIsRec(f[0].parts[0].msgs[0], rec, 1)
	w.beat("a client that stays connected")
	p.beat("a client that stays connected")
	vReach("done")
}

// Connecting and disconnecting at the same time, on every schedule within the bound.
//verif prop=L05 sched weight=2 reach=done
func vL05Sched() {
	s := vStartSrv()
	a := s.dial()
	a.beat("heartbeat")
	way := vPick("way", 3)
	var b, c *vCli
	var g vGroup
	vExplore(vTier(1, 2), vTier(3, 4))
	g.Go(func() { b = s.dial(); b.beat("heartbeat") })
	g.Go(func() { c = s.dial(); c.beat("heartbeat") })
	a.vLeave(way)
	vAssert(g.Wait(8*vSec), "a client that connects while another leaves is not served")
	vNoExplore()
	s.vOthers([]*vCli{a, b, c}, []bool{true, false, false})
	c.vLeave(way)
	s.vOthers([]*vCli{a, b, c}, []bool{true, false, true})
	vReach("done")
}
