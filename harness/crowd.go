package kafkamock

// Two or three clients that wait for records of the same partition, for the same or different offsets; one of them may
// wait for another partition as well, or leave. Records come in one by one: everyone who waits for one gets it promptly.
//verif prop=D04 weight=2 reach=all timeout=40
func vD04Crowd() {
	s := vStartSrv()
	s.km.CreatePartitionTopics([]string{"t", "u"}, 0)
	n := 2 + vPick("n", 2)
	gone := vPick("gone", 3) // nobody leaves, the first to wait, the last
	kind := vPick("kind", 4)
	at := make([]int64, n)
	var cs []*vCli
	for i := 0; i < n; i++ {
		c := s.dial()
		cs = append(cs, c)
		ts := []vFetchTopic{{"t", []vFetchPart{{0, 0, 100000}}}}
		switch {
		case kind == 1 && i == 0:
			ts = []vFetchTopic{{"u", []vFetchPart{{0, 0, 100000}}}, ts[0]}
		case kind == 2 && i == n-1:
			ts[0].parts = append(ts[0].parts, vFetchPart{0, 1, 100000})
		case kind == 3 && i == 0:
			ts[0].parts[0].offset, at[i] = 1, 1
		}
		c.Send(vReq(apiFetch, int32(i), vFetchBody(60000, ts)))
		vSettle()
	}
	vSleep([]int64{0, 30 * vMsNs, 1500 * vMsNs}[vPick("delay", 3)])
	switch gone {
	case 1:
		cs[0].Reset()
	case 2:
		cs[n-1].Close()
	}
	rs := []vRec{vSized("r", 1, 2), {nil, []byte{7}, 9}}
	var t0 int64
	for k, r := range rs {
		s.post("t", 0, r)
		t0 = vClockNs()
		for i, c := range cs {
			if gone == 1 && i == 0 || gone == 2 && i == n-1 {
				continue
			}
			if at[i] > int64(k) {
				continue
			}
			corr, b := c.frame(30*vSec, "waiting fetch")
			vAssert(corr == int32(i) || k > 0 && corr == int32(100+i), "fetch: wrong correlation id")
			fs := vParseFetch(b)
			vAssert(len(fs) > 0, "fetch: wrong layout")
			ps := fs[len(fs)-1].parts
			vAssert(len(ps) > 0 && len(ps[0].msgs) == 1, "one of several fetches that wait for a record does not return it")
			vIsRec(ps[0].msgs[0], r, int64(k))
			vAssert(vClockNs()-t0 <= vPrompt, "one of several fetches that wait for a record does not answer promptly")
			if k == 0 {
				c.Send(vReq(apiFetch, int32(100+i), vFetchBody(60000, []vFetchTopic{{"t", []vFetchPart{{0, 1, 100000}}}})))
				at[i] = 1
			}
		}
		vSettle()
	}
	vReach("all")
}

// A record that is posted while a fetch of its partition begins to wait is returned promptly, on every schedule within
// the bound; two clients fetch it.
//verif prop=D04 sched weight=2 reach=done timeout=60
func vD04Sched() {
	s := vStartSrv()
	s.km.CreatePartitionTopics([]string{"t"}, 0)
	two := vPick("two", 2) == 1
	c, d := s.dial(), s.dial()
	c.beat("heartbeat")
	d.beat("heartbeat")
	vSettle()
	var g vGroup
	r := vRec{vBytes("key", 1), []byte{1}, 5}
	if two {
		vExplore(vTier(1, 2), 2)
	} else {
		vExplore(vTier(2, 3), 2)
	}
	c.Send(vWaitFetch(30000, 1, 0))
	if two {
		d.Send(vWaitFetch(30000, 1, 0))
	}
	g.Go(func() { s.post("t", 0, r) })
	vAssert(g.Wait(5*vSec), "posting does not end")
	t0 := vClockNs()
	for i, x := range []*vCli{c, d} {
		if i == 1 && !two {
			break
		}
		f := vWaited(x)[0].parts[0]
		vAssert(len(f.msgs) == 1, "a fetch does not return the record that was posted as it began to wait")
		vIsRec(f.msgs[0], r, 0)
		vAssert(vClockNs()-t0 <= vPrompt, "a fetch does not answer promptly when a record is posted as it begins to wait")
	}
	vNoExplore()
	vReach("done")
}
