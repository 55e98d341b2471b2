package kafkamock

const vModes = 8

// vMode brings a client into state k of a conversation; open is false when the client itself has ended the
// connection.
func (s *vSrv) vMode(k int) (c *vCli, open bool) {
	c = s.dial()
	beat := new(vW).str("g").i32(0).str("m").b
	switch k {
	case 0: // idle after a request
		c.beat("heartbeat")
	case 1: // half closed by the client
		c.beat("heartbeat")
		c.CloseWrite()
	case 2: // in the middle of a request
		c.Send(vReq(apiHeartbeat, 1, beat)[:9])
	case 3: // waiting fetch, longer than all time limits here
		c.Send(vReq(apiFetch, 1, vFetchBody(60000, []vFetchTopic{{"t", []vFetchPart{{0, 9, 100}}}, {"nope", []vFetchPart{{0, 0, 100}}}})))
	case 4: // just connected
	case 5: // pipelined requests
		for i := int32(0); i < 3; i++ {
			c.Send(vReq(apiHeartbeat, i, beat))
		}
	case 6: // gone
		c.beat("heartbeat")
		c.Close()
		return c, false
	case 7:
		c.Send(vReq(apiHeartbeat, 1, beat))
		c.Reset()
		return c, false
	}
	return c, true
}

// vStopped asserts what holds once the server has stopped.
func (s *vSrv) vStopped(cs ...*vCli) {
	vAssert(vOpenListeners() == 0, "the server still accepts connections after it terminated")
	vAssert(vDial(s.port, vSec/10) == nil, "the server still accepts connections after it terminated")
	for _, c := range cs {
		vAssert(c.WaitClosed(3*vSec), "a client connection is still open after the server terminated")
	}
}

// Waiting for a mock that is not running - never started, with or without stop requests, or stopped before
// - returns, however often.
//verif prop=L03 reach=done
func vL03Idle() {
	s := vNewSrv()
	if vPick("started", 2) == 1 {
		s.km.Start()
		s.km.RequestStop()
		var g vGroup
		g.Go(s.km.WaitForTermination)
		vAssert(g.Wait(8*vSec), "waiting for termination does not return")
	}
	for i := 0; i < 3; i++ {
		var g vGroup
		switch vPick("call", 3) {
		case 0:
			g.Go(s.km.RequestStop)
		case 1:
			g.Go(s.km.WaitForTermination)
		case 2:
			g.Go(s.km.WaitForTermination)
			g.Go(s.km.WaitForTermination)
			g.Go(s.km.RequestStop)
		}
		vAssert(g.Wait(8*vSec), "stopping or waiting on a mock that is not running does not return")
	}
	s.vStopped()
	vReach("done")
}

// A stop requested right after start, up to three times from up to two goroutines, with waiters before and
// after it and possibly a client connecting at the same time; every schedule within the bound.
//verif prop=L03 sched weight=2 reach=done
func vL03Early() {
	s := vNewSrv()
	how := vPick("how", 4)
	cli := vPick("client", 2)
	var c *vCli
	var g vGroup
	vExplore(vTier(2, 3), vTier(3, 5))
	s.km.Start()
	if cli == 1 {
		g.Go(func() { c = vDial(s.port, vSec/5) })
	}
	switch how {
	case 0:
		s.km.RequestStop()
	case 1:
		s.km.RequestStop()
		s.km.RequestStop()
	case 2:
		g.Go(s.km.RequestStop)
		g.Go(s.km.RequestStop)
	case 3:
		g.Go(s.km.WaitForTermination)
		g.Go(s.km.RequestStop)
		s.km.RequestStop()
	}
	if how != 2 {
		g.Go(s.km.WaitForTermination)
	}
	vAssert(g.Wait(8*vSec), "stopping does not complete")
	var g2 vGroup
	g2.Go(func() { s.km.RequestStop(); s.km.WaitForTermination() })
	vAssert(g2.Wait(8*vSec), "stopping does not complete")
	vNoExplore()
	if c != nil {
		s.vStopped(c)
	} else {
		s.vStopped()
	}
	vReach("done")
}

// Two clients in any states; stops requested in several ways.
//verif prop=L03 weight=2 reach=done
func vL03Clients() {
	s := vStartSrv()
	s.km.SimplePost("t", 0, nil, []byte{1})
	a, b := vPick("first", vModes), vPick("second", vModes)
	vAssume(a <= b)
	c, openC := s.vMode(a)
	d, openD := s.vMode(b)
	if vPick("settled", 2) == 1 {
		vSettle()
	}
	s.vStopSomehow(vPick("how", 5))
	var open []*vCli
	if openC {
		open = append(open, c)
	}
	if openD {
		open = append(open, d)
	}
	s.vStopped(open...)
	vReach("done")
}

func (s *vSrv) vStopSomehow(how int) {
	var g vGroup
	switch how {
	case 0:
		s.km.RequestStop()
		g.Go(s.km.WaitForTermination)
	case 1:
		g.Go(s.km.WaitForTermination)
		g.Go(s.km.WaitForTermination)
		s.km.RequestStop()
		s.km.RequestStop()
	case 2:
		for i := 0; i < 3; i++ {
			g.Go(func() { s.km.RequestStop(); s.km.WaitForTermination() })
		}
	case 3:
		s.km.FinishRequests()
		vSleep(vInt("pause", 0, 1) * 2 * vSec)
		g.Go(func() { s.km.RequestStop(); s.km.WaitForTermination() })
	case 4:
		s.km.RequestStop()
		s.km.FinishRequests()
		g.Go(s.km.WaitForTermination)
	}
	vAssert(g.Wait(8*vSec), "stopping does not complete")
}

// A stop on every schedule of the server's goroutines, with an idle and a busy client and one that connects.
//verif prop=L03 sched weight=3 reach=done
func vL03Sched() {
	s := vStartSrv()
	s.km.SimplePost("t", 0, nil, []byte{1})
	m := vPick("mode", vModes)
	c, open := s.vMode(m)
	d, _ := s.vMode(0)
	var e *vCli
	var g vGroup
	vExplore(vTier(1, 2), vTier(3, 5))
	g.Go(func() { e = vDial(s.port, vSec/5) })
	g.Go(s.km.RequestStop)
	g.Go(func() { s.km.RequestStop(); s.km.WaitForTermination() })
	vAssert(g.Wait(8*vSec), "stopping does not complete")
	var g2 vGroup
	g2.Go(s.km.WaitForTermination)
	vAssert(g2.Wait(8*vSec), "stopping does not complete")
	vNoExplore()
	all := []*vCli{d}
	if open {
		all = append(all, c)
	}
	if e != nil {
		all = append(all, e)
	}
	s.vStopped(all...)
	vReach("done")
}

// A client that does not read what it asked for: the server's write to it is blocked when the stop comes.
//verif prop=L03 timeout=30 reach=done
func vL03Stalled() {
	s := vStartSrv()
	c, _, _ := s.vStalled(1 + vPick("requests", 3))
	d, _ := s.vMode(vPick("other", 4))
	if vPick("settled", 2) == 1 {
		vSleep(vSec + vSec/2)
	}
	s.vStopSomehow(vPick("how", 5))
	c.Resume()
	s.vStopped(c, d)
	vReach("done")
}
