package kafkamock

// vStore is what a mock should hold.
type vStore struct {
	recs map[string][]vRec // by topic; partition 0
	com  map[vGTP]int64
}

// vHolds asserts that the server serves exactly the expected records, topics, partitions and offsets.
func (s *vSrv) vHolds(st *vStore) {
	c := s.dial()
	for _, topic := range []string{"t", "u"} {
		f := c.fetch1(0, topic, 0, 0, 100000)
		vAssert(len(f.msgs) == len(st.recs[topic]), "the records served differ from those posted")
		for i, m := range f.msgs {
			vIsRec(m, st.recs[topic][i], int64(i))
		}
		vAssert(c.listOffset1(topic, 0, -1).offset == int64(len(f.msgs)), "the end offset differs from the number of records posted")
	}
	vAssert(c.listOffset1("t", 1, -1).err == 0 && c.listOffset1("t", 1, -1).offset == 0, "an empty partition is lost or filled")
	vAssert(c.listOffset1("empty", 0, -1).err == 0 && c.listOffset1("empty", 0, -1).offset == 0, "a topic without records is lost or filled")
	vAssert(c.listOffset1("t", 2, -1).err != 0 && c.listOffset1("v", 0, -1).err != 0, "a topic or partition appeared from nowhere")
	as := c.assignment()
	n := 0
	for _, a := range as {
		for _, p := range a.parts {
			vAssert(vStrEq(a.topic, "t") && (p == 0 || p == 1) || (vStrEq(a.topic, "u") || vStrEq(a.topic, "empty")) && p == 0, "a topic or partition appeared from nowhere")
			n++
		}
	}
	vAssert(len(as) == 3 && n == 4, "the topics and partitions differ from those created")
	for k, x := range st.com {
		vAssert(c.committed(k.g, k.t, k.p) == x, "a committed offset differs from the one before")
	}
	vAssert(c.committed("other", "t", 0) == 0, "a group that committed nothing has an offset")
}

func vNewStore(s *vSrv) *vStore {
	st := &vStore{map[string][]vRec{}, map[vGTP]int64{}}
	for i := 0; i < 2; i++ {
		s.vAdd(st, "t", vRec{vBytes("key", i), vBytes("value", 2), vI64("ts") >> 16})
	}
	s.vAdd(st, "u", vRec{nil, []byte{}, vI64("ts") >> 16})
	s.km.CreatePartitionTopics([]string{"t"}, 1)
	s.km.CreatePartitionTopics([]string{"empty"}, 0)
	s.km.SetConsumerGroupOffset("empty", 0, "g", 4)
	st.com[vGTP{"g", "empty", 0}] = 4
	return st
}

func (s *vSrv) vAdd(st *vStore, topic string, r vRec) {
	s.post(topic, 0, r)
	st.recs[topic] = append(st.recs[topic], r)
}

func (s *vSrv) vRestart(how int) {
	var g vGroup
	switch how {
	case 0:
		g.Go(s.km.Restart)
	case 1: // stop, wait, start
		g.Go(func() { s.km.RequestStop(); s.km.WaitForTermination(); s.km.Start() })
	case 2: // restart of a stopped mock
		g.Go(func() { s.km.RequestStop(); s.km.WaitForTermination(); s.km.Restart() })
	case 3: // finish first
		g.Go(func() { s.km.FinishRequests(); s.km.Restart() })
	case 4: // already asked to stop
		g.Go(func() { s.km.RequestStop(); s.km.Restart() })
	}
	vAssert(g.Wait(8*vSec), "restarting does not return")
	if how != 1 {
		vAssert(vOpenListeners() == 1, "the server does not accept connections after a restart")
	}
}

// Up to 2 (3 in the thorough tier) restarts with a client in any state connected; arbitrary record contents
// and commits before and in between.
//verif prop=L04 reach=done
func vL04Restart() {
	s := vStartSrv()
	st := vNewStore(s)
	c := s.dial()
	x := vI64("commit")
	c.commit1("g", "t", 0, x)
	c.commit1("g", "u", 0, 7)
	st.com[vGTP{"g", "t", 0}] = vIte(x > 0, x, 0)
	st.com[vGTP{"g", "u", 0}] = 7
	y := vI64("set")
	s.km.SetConsumerGroupOffset("t", 1, "h", y)
	st.com[vGTP{"h", "t", 1}] = y
	d, open := s.vMode(vPick("client", vModes))
	for n := vTier(1, 2) + vPick("again", 2); n > 0; n-- {
		s.vRestart(vPick("how", 5))
		vAssert(c.WaitClosed(3*vSec), "a client of before the restart is still connected")
		vAssert(!open || d.WaitClosed(3*vSec), "a client of before the restart is still connected")
		if n > 1 {
			s.vAdd(st, "t", vRec{vBytes("key", 1), nil, 5})
			c = s.dial()
			z := vInt("commit2", 0, 1<<30)
			k := vGTP{"g", "t", 0}
			c.commit1("g", "t", 0, z)
			st.com[k] = vIte(z > st.com[k], z, st.com[k])
		}
	}
	s.vHolds(st)
	vReach("done")
}

// Records posted while the server is down are served after the start.
//verif prop=L04 reach=done
func vL04Down() {
	s := vNewSrv()
	st := vNewStore(s)
	s.km.SetConsumerGroupOffset("u", 0, "g", 3)
	st.com[vGTP{"g", "u", 0}] = 3
	s.km.Start()
	if vPick("used", 2) == 1 {
		s.vHolds(st)
	}
	var g vGroup
	g.Go(func() { s.km.RequestStop(); s.km.WaitForTermination() })
	vAssert(g.Wait(8*vSec), "stopping does not complete")
	s.vAdd(st, "u", vRec{vBytes("key", 1), vBytes("value", 1), vInt("ts", 0, 1<<40)})
	s.km.SetConsumerGroupOffset("u", 0, "g", 1)
	st.com[vGTP{"g", "u", 0}] = 1
	s.km.Start()
	s.vHolds(st)
	vReach("done")
}

// A restart while a client connects, posts are made and another client fetches: every schedule within the
// bound.
//verif prop=L04 sched weight=2 reach=done
func vL04Sched() {
	s := vStartSrv()
	st := vNewStore(s)
	s.vMode(vPick("client", vModes))
	r := vRec{vBytes("key", 1), nil, 5}
	var e *vCli
	var g vGroup
	vExplore(vTier(1, 2), vTier(2, 3))
	g.Go(func() { e = vDial(s.port, vSec/5) })
	g.Go(func() { s.vAdd(st, "t", r) })
	g.Go(s.km.Restart)
	vAssert(g.Wait(8*vSec), "restarting does not return")
	vAssert(vOpenListeners() == 1, "the server does not accept connections after a restart")
	vNoExplore()
	s.vHolds(st)
	_ = e
	vReach("done")
}

// Stops requested from another goroutine around the one that precedes the new start: once that one's wait
// has returned and the mock is started again, they stop the new run entirely or not at all.
//verif prop=L04 sched reach=done
func vL04LateStop() {
	s := vStartSrv()
	s.km.SimplePost("t", 0, nil, []byte{1})
	if vPick("client", 2) == 1 {
		s.dial().beat("heartbeat")
	}
	var g vGroup
	vExplore(vTier(2, 3), vTier(2, 3))
	vFine()
	g.Go(s.km.RequestStop)
	if vPick("two", 2) == 1 {
		g.Go(s.km.RequestStop)
	}
	s.km.RequestStop()
	s.km.WaitForTermination()
	s.km.Start()
	vSleep(20 * vMsNs)
	vAssert(g.Wait(8*vSec), "stopping does not complete")
	vNoExplore()
	c := vDial(s.port, vSec/5)
	if c == nil {
		// a request came after the new start: it must have stopped that run properly
		g.Go(func() { s.km.RequestStop(); s.km.WaitForTermination() })
		vAssert(g.Wait(8*vSec), "stopping does not complete")
		s.km.Start()
		c = s.dial()
		vReach("stopped")
	}
	c.beat("a client of the restarted mock")
	vAssert(len(c.fetch1(0, "t", 0, 0, 1000).msgs) == 1, "the records are lost")
	vReach("done")
}

// Goroutines that wait for termination since before a stop and a new start: they return then or when the
// new run is stopped, and do not disturb it.
//verif prop=L04 sched reach=done
func vL04Waiters() {
	s := vStartSrv()
	s.km.SimplePost("t", 0, nil, []byte{1})
	if vPick("client", 2) == 1 {
		s.dial().beat("heartbeat")
	}
	var g vGroup
	vExplore(vTier(1, 2), vTier(3, 4))
	vFine()
	g.Go(s.km.WaitForTermination)
	if vPick("two", 2) == 1 {
		g.Go(s.km.WaitForTermination)
	}
	vSleep(vMsNs)
	if vPick("how", 2) == 0 {
		s.km.Restart()
	} else {
		s.km.RequestStop()
		s.km.WaitForTermination()
		s.km.Start()
	}
	vSleep(20 * vMsNs)
	vNoExplore()
	c := s.dial()
	c.beat("a client of the restarted mock")
	vAssert(len(c.fetch1(0, "t", 0, 0, 1000).msgs) == 1, "the records are lost")
	g.Go(func() { s.km.RequestStop(); s.km.WaitForTermination() })
	vAssert(g.Wait(8*vSec), "stopping does not complete, or not everyone who waits for it is told")
	s.vStopped(c)
	vReach("done")
}
