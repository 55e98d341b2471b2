package kafkamock

// vFinished asserts that the server closes the connection and sends nothing more.
func (c *vCli) vFinished() {
	vAssert(c.WaitClosed(3*vSec), "a connection is not closed after finish")
	vAssert(c.Pending() == 0, "a request is answered twice, or one that was not sent")
}

// A fetch that waits for data with any wait time of 5 s or more, and up to 2 requests pipelined behind it;
// finish strikes right away or later; data may have been posted right before.
//verif prop=L06 reach=done
func vL06Fetch() {
	s := vStartSrv()
	s.km.SimplePost("t", 0, nil, []byte{1})
	wait := int32(vInt("wait", 5000, 1<<31-1))
	parts := [][]vFetchTopic{
		{{"t", []vFetchPart{{0, 1, 1000}}}},
		{{"t", []vFetchPart{{7, 0, 1000}, {0, 1, 1000}}}},
		{{"nope", []vFetchPart{{0, 0, 1000}}}, {"t", []vFetchPart{{0, 1, 1000}}}},
	}[vPick("parts", 3)]
	post := vPick("post", 2)
	n := int32(vPick("pipelined", 3))
	c := s.dial()
	msg := vReq(apiFetch, 10, vFetchBody(wait, parts))
	for i := int32(1); i <= n; i++ {
		msg = append(msg, vReq(apiHeartbeat, 10+i, new(vW).str("g").i32(0).str("m").b)...)
	}
	c.Send(msg)
	switch vPick("pause", 3) {
	case 0:
		vSleep(5 * vMsNs)
	case 1:
		vSleep(100 * vMsNs)
	case 2:
		vSleep(2600 * vMsNs)
	}
	rec := vRec{vBytes("key", 1), vBytes("value", 1), vInt("ts", 0, 1<<40)}
	if post == 1 {
		s.post("t", 0, rec)
	}
	s.km.FinishRequests()
	corr, r := c.frame(2*vSec, "waiting fetch after finish")
	vAssert(corr == 10, "another request is answered")
	got := 0
	for _, t := range vParseFetch(r) {
		for _, p := range t.parts {
			for _, m := range p.msgs {
				vIsRec(m, rec, 1)
				got++
			}
		}
	}
	vAssert(got == post, "a waiting fetch is not answered with what was posted before finish")
	for i := int32(1); i <= n; i++ {
		corr, r = c.frame(2*vSec, "request received before finish")
		vAssert(corr == 10+i, "another request is answered")
		vErr0(r, "heartbeat")
	}
	c.vFinished()
	vReach("done")
}

// The same with the finish on any schedule against the waiting fetch.
//verif prop=L06 sched weight=2 reach=done
func vL06Sched() {
	s := vStartSrv()
	s.km.SimplePost("t", 0, nil, []byte{1})
	c := s.dial()
	c.beat("heartbeat")
	post := vPick("post", 2)
	vExplore(vTier(2, 3), vTier(2, 3))
	c.Send(vReq(apiFetch, 10, vFetchBody(60000, []vFetchTopic{{"t", []vFetchPart{{0, 1, 1000}}}})))
	if vPick("wait", 2) == 1 {
		vSleep(30 * vMsNs)
	}
	rec := vRec{nil, vBytes("value", 1), 77}
	if post == 1 {
		s.post("t", 0, rec)
	}
	s.km.FinishRequests()
	b := c.Recv(4, 3*vSec)
	vNoExplore()
	if len(b) == 0 {
		// the connection was idle when finish came
		c.vFinished()
		vReach("unread")
		return
	}
	n := int((&vR{b: b}).i32())
	p := c.Recv(n, 2*vSec)
	vAssert(len(p) == n, "a response is cut off by finish")
	f := vParseFetch(&vR{b: p[4:]})
	vAssert(len(f) == 1 && len(f[0].parts) == 1, "the fetch is not answered")
	vAssert(len(f[0].parts[0].msgs) == post, "a waiting fetch is not answered with what was posted before finish")
	c.vFinished()
	vReach("done")
}

// Clients that do not wait in a fetch: idle, half closed, in the middle of a request, or sending on and on;
// and ones that connect after finish.
//verif prop=L06 reach=done
func vL06Others() {
	s := vStartSrv()
	s.km.SimplePost("t", 0, nil, []byte{1})
	k := vPick("client", 6)
	c, _ := s.vMode(k)
	vSleep(vInt("pause", 0, 1) * vSec * 13 / 10)
	s.km.FinishRequests()
	if vPick("twice", 2) == 1 {
		s.km.FinishRequests()
	}
	if k == 0 && vPick("busy", 2) == 1 {
		end := vClockNs() + 4*vSec
		for !c.WaitClosed(vSec / 5) {
			vAssert(vClockNs() < end, "a connection stays open after finish while the client keeps sending")
			c.Send(vReq(apiHeartbeat, 1, new(vW).str("g").i32(0).str("m").b))
		}
	}
	vAssert(c.WaitClosed(3*vSec), "a connection is not closed after finish")
	if d := vDial(s.port, 0); d != nil {
		d.Send(vReq(apiHeartbeat, 1, new(vW).str("g").i32(0).str("m").b))
		vAssert(d.WaitClosed(3*vSec), "a connection made after finish stays open")
		vAssert(d.Pending() == 0, "a request is answered on a connection made after finish")
	}
	vReach("done")
}

// A client that does not read what it asked for: its connection is closed all the same, and what is sent to
// the others is not affected.
//verif prop=L06 timeout=30 reach=done
func vL06Stalled() {
	s := vStartSrv()
	s.km.SimplePost("t", 0, nil, []byte{1})
	c, _, _ := s.vStalled(1 + vPick("requests", 3))
	d, _ := s.vMode(3)
	vSleep(50*vMsNs + vInt("pause", 0, 1)*vSec*3/2)
	s.km.FinishRequests()
	corr, r := d.frame(2*vSec, "waiting fetch after finish")
	vAssert(corr == 1, "another request is answered")
	vParseFetch(r)
	d.vFinished()
	vSleep(6 * vSec)
	_, mine := s.registered(c)
	vAssert(mine == 0, "the connection of a client that does not read is not closed after finish")
	c.Resume()
	vAssert(c.WaitClosed(3*vSec), "the connection of a client that does not read is not closed after finish")
	vReach("done")
}
