package kafkamock

// vOnly asserts that partition 0 of a topic holds exactly these records.
func (c *vCli) vOnly(topic string, recs []vRec) {
	f := c.fetch1(0, topic, 0, 0, 100000)
	vAssert(len(f.msgs) == len(recs), "a mock serves records that were not posted to it, or too few")
	for i, m := range f.msgs {
		vIsRec(m, recs[i], int64(i))
	}
	vAssert(c.listOffset1(topic, 0, -1).offset == int64(len(recs)), "a mock's end offset is not the number of records posted to it")
}

// Two or three mocks in one process, created and started before or after one another is used: records,
// topics, commits and offsets set on each (arbitrary contents, the same names) are its own, and each leads
// its clients to its own port.
//verif prop=L08 reach=done
func vL08Data() {
	a := vNewSrv()
	n := 2 + vPick("third", 2)
	ss := []*vSrv{a}
	late := vPick("late", 2) == 1
	for i := 1; i < n && !late; i++ {
		ss = append(ss, vNewSrv())
	}
	recs := make([][]vRec, n)
	com := make([]int64, n)
	fill := func(i int) {
		s := ss[i]
		s.km.Start()
		for k := 0; k <= i; k++ {
			r := vRec{vBytes("key", 1), vBytes("value", 2), vInt("ts", 0, 1<<40)}
			s.post("t", 0, r)
			recs[i] = append(recs[i], r)
		}
		c := s.dial()
		com[i] = vInt("commit", 1, 1<<40)
		c.commit1("g", "t", 0, com[i])
		x := "own" + string(rune('a'+i))
		s.km.CreatePartitionTopics([]string{x}, i)
		s.km.SetConsumerGroupOffset(x, i, "g", com[i]+1)
	}
	fill(0)
	for i := 1; i < n; i++ {
		if late {
			ss = append(ss, vNewSrv())
		}
		fill(i)
	}
	if vPick("more", 2) == 1 {
		r := vRec{nil, vBytes("value", 1), 7}
		ss[0].post("t", 0, r)
		recs[0] = append(recs[0], r)
	}
	for i, s := range ss {
		c := s.dial()
		c.vOnly("t", recs[i])
		vAssert(c.committed("g", "t", 0) == com[i], "a mock's committed offset is not the one committed to it")
		as := c.assignment()
		vAssert(len(as) == 2, "a mock assigns topics of another")
		for k := range ss {
			x := "own" + string(rune('a'+k))
			if k != i {
				vAssert(c.listOffset1(x, int32(k), -1).err == 3, "a mock has a topic of another")
			} else {
				vAssert(c.committed("g", x, int32(k)) == com[i]+1, "a mock's offset is not the one set on it")
			}
		}
		bs, _ := c.metadata([]string{"t"})
		vAssert(len(bs) > 0, "metadata lists no broker")
		for _, b := range bs {
			vAssert(b.port == int32(s.port), "a mock leads its clients to another one")
		}
	}
	vReach("done")
}

// One mock is stopped, finished or restarted, or has clients in any state that leave in any way, while
// another is in use: a fetch waits there, a request is under way, a client is idle. The other one goes on
// as if nothing had happened, waiting fetch included, and stops on its own.
//verif prop=L08 weight=2 reach=done
func vL08Life() {
	a, b := vStartSrv(), vStartSrv()
	a.km.SimplePost("t", 0, nil, []byte{1})
	b.km.SimplePost("t", 0, nil, []byte{1})
	if vPick("swap", 2) == 1 {
		a, b = b, a
	}
	idle, waits, part := b.dial(), b.dial(), b.dial()
	idle.beat("heartbeat")
	wait := vInt("wait", 6000, 1<<31-1)
	waits.Send(vReq(apiFetch, 5, vFetchBody(int32(wait), []vFetchTopic{{"t", []vFetchPart{{0, 1, 1000}}}})))
	beat := vReq(apiHeartbeat, 9, new(vW).str("g").i32(0).str("m").b)
	part.Send(beat[:6])
	x, open := a.vMode(vPick("mode", vModes))
	var g vGroup
	stopped := false
	what := vPick("what", 6)
	switch what {
	case 0:
		g.Go(func() { a.km.RequestStop(); a.km.WaitForTermination() })
		stopped = true
	case 1:
		g.Go(func() { a.km.FinishRequests() })
	case 2:
		g.Go(a.km.Restart)
	case 3, 4, 5:
		if open {
			x.vLeave(what - 3)
		}
	}
	vAssert(g.Wait(8*vSec), "stopping a mock beside another does not complete")
	vSleep(vInt("pause", 0, 3) * vSec / 2)
	part.Send(beat[6:])
	corr, r := part.frame(3*vSec, "a request to the other mock")
	vAssert(corr == 9, "another request is answered")
	vErr0(r, "heartbeat")
	idle.beat("a client of the other mock")
	vAssert(waits.Pending() == 0, "a fetch that waits at another mock is answered early")
	rec := vRec{nil, vBytes("value", 1), vInt("ts", 0, 1<<40)}
	a.post("t", 0, vRec{nil, []byte{9, 9}, 3})
	vSleep(vSec / 2)
	vAssert(waits.Pending() == 0, "a fetch that waits at another mock is answered early")
	b.post("t", 0, rec)
	corr, r = waits.frame(3*vSec, "waiting fetch")
	vAssert(corr == 5, "another request is answered")
	f := vParseFetch(r)
	vAssert(len(f) == 1 && len(f[0].parts) == 1 && len(f[0].parts[0].msgs) == 1, "a waiting fetch is not answered with the posted record")
	vIsRec(f[0].parts[0].msgs[0], rec, 1)
	b.dial().beat("a new client of the other mock")
	if !stopped && what != 1 {
		a.dial().beat("a client of the mock")
	}
	g.Go(func() { b.km.RequestStop(); b.km.WaitForTermination() })
	vAssert(g.Wait(8*vSec), "stopping a mock beside another does not complete")
	vAssert(vDial(b.port, vSec/10) == nil, "the server still accepts connections after it terminated")
	vAssert(idle.WaitClosed(3*vSec) && waits.WaitClosed(3*vSec), "a client connection is still open after the server terminated")
	if !stopped && what != 1 {
		a.dial().beat("a client of the mock whose neighbour has stopped")
	}
	vReach("done")
}

// The same topics, groups and requests at two mocks at the same time, on every schedule within the bound:
// each request is answered by its own mock's data.
//verif prop=L08 sched weight=2 reach=done
func vL08Sched() {
	a, b := vStartSrv(), vStartSrv()
	ra, rb := vRecsOf(1, 1), vRecsOf(2, 1)
	c, d := a.dial(), b.dial()
	c.beat("heartbeat")
	d.beat("heartbeat")
	x, y := vInt("x", 1, 1<<40), vInt("y", 1, 1<<40)
	kind := vPick("kind", 4)
	vSettle()
	var g vGroup
	vExplore(vTier(1, 2), vTier(2, 3))
	g.Go(func() { a.vPostAll("t", 0, ra) })
	g.Go(func() { b.vPostAll("t", 0, rb) })
	vAssert(g.Wait(5*vSec), "concurrent posting does not end")
	switch kind {
	case 0:
		c.Send(vReq(apiCommit, 1, vCommitBody("g", []vCmTopic{{"t", []vCmPart{{0, x}}}})))
		d.Send(vReq(apiCommit, 1, vCommitBody("g", []vCmTopic{{"t", []vCmPart{{0, y}}}})))
	case 1:
		c.Send(vReq(apiFetch, 1, vFetchBody(0, []vFetchTopic{{"t", []vFetchPart{{0, 0, 1000}}}})))
		d.Send(vReq(apiFetch, 1, vFetchBody(0, []vFetchTopic{{"t", []vFetchPart{{0, 0, 1000}}}})))
	case 2:
		c.Send(vReq(apiMetadata, 1, new(vW).i32(1).str("t").b))
		d.Send(vReq(apiMetadata, 1, new(vW).i32(1).str("t").b))
	case 3:
		c.Send(vReq(apiSync, 1, vSyncBody("g", "m", 1).i32(0).b))
		d.Send(vReq(apiFetch, 1, vFetchBody(0, []vFetchTopic{{"t", []vFetchPart{{0, 0, 1000}}}})))
	}
	_, qa := c.frame(8*vSec, "request")
	_, qb := d.frame(8*vSec, "request")
	vNoExplore()
	if kind == 1 || kind == 3 {
		fb := vParseFetch(qb)
		vAssert(len(fb[0].parts[0].msgs) == 1, "a mock serves records that were not posted to it, or too few")
		vIsRec(fb[0].parts[0].msgs[0], rb[0], 0)
	}
	if kind == 1 {
		fa := vParseFetch(qa)
		vAssert(len(fa[0].parts[0].msgs) == 1, "a mock serves records that were not posted to it, or too few")
		vIsRec(fa[0].parts[0].msgs[0], ra[0], 0)
	}
	c.vOnly("t", ra)
	d.vOnly("t", rb)
	if kind == 0 {
		vAssert(c.committed("g", "t", 0) == x && d.committed("g", "t", 0) == y, "a mock's committed offset is not the one committed to it")
	}
	vReach("done")
}

// Mocks are created, started and stopped while another serves any activity: no unsynchronised access.
//verif prop=L08 race weight=2 reach=ran timeout=60
func vL08Race() {
	s := vStartSrv()
	s.km.SimplePost("t", 0, nil, []byte{1})
	s.km.SimplePost("t", 1, nil, []byte{1})
	c := s.dial()
	c.beat("heartbeat")
	k := vPick("act", vActs)
	vRaces()
	for i := vReps(); i > 0; i-- {
		var g vGroup
		port := vFreePort()
		beg, end := s.vAct(k, c, i)
		beg(&g)
		g.Go(func() {
			o := &vSrv{NewKafkaMock(vNewLane(), port), port}
			o.km.Start()
			o.km.SimplePost("t", 0, nil, []byte{1})
			o.km.RequestStop()
			o.km.WaitForTermination()
		})
		end()
		vAssert(g.Wait(8*vSec), "concurrent activity does not end")
	}
	vReach("ran")
}
