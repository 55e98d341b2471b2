package kafkamock

// vPostAll posts recs one after the other.
func (s *vSrv) vPostAll(topic string, part int, recs []vRec) {
	for _, r := range recs {
		s.post(topic, part, r)
	}
}

// vMerged asserts that the partition holds exactly the records of both posters, each poster's in order.
func (c *vCli) vMerged(topic string, part int32, a, b []vRec) {
	f := c.fetch1(0, topic, part, 0, 100000)
	vAssert(len(f.msgs) == len(a)+len(b), "a record posted concurrently is lost or stored twice")
	i, j := 0, 0
	for _, m := range f.msgs {
		vAssert(len(m.value) == 2, "a record is damaged")
		switch {
		case m.value[0] == 1 && i < len(a):
			vAssert(vBytesSame(m.value, a[i].value) && vBytesSame(m.key, a[i].key) && m.ts == a[i].ts, "a poster's records are out of order or damaged")
			i++
		case m.value[0] == 2 && j < len(b):
			vAssert(vBytesSame(m.value, b[j].value) && vBytesSame(m.key, b[j].key) && m.ts == b[j].ts, "a poster's records are out of order or damaged")
			j++
		default:
			vAssert(false, "a record is lost or stored twice")
		}
	}
}

func vRecsOf(who byte, n int) []vRec {
	var recs []vRec
	for i := 0; i < n; i++ {
		recs = append(recs, vRec{vBytes("key", 1), []byte{who, byte(i)}, vInt("ts", 0, 1<<40)})
	}
	return recs
}

// Two goroutines post two records each to the same or to different partitions or topics that do not exist
// yet; every schedule with up to 2 preemptions (3 in the
// thorough tier) at synchronisation operations.
//verif prop=L02 sched weight=3 reach=done
func vL02Posters() {
	s := vStartSrv()
	a, b := vRecsOf(1, 2), vRecsOf(2, 2)
	where := vPick("where", 3)
	tb, pb := "t", 0
	if where == 1 {
		pb = 1
	} else if where == 2 {
		tb = "u"
	}
	vSettle()
	var g vGroup
	vExplore(vTier(2, 3), 3)
	g.Go(func() { s.vPostAll("t", 0, a) })
	g.Go(func() { s.vPostAll(tb, pb, b) })
	vAssert(g.Wait(5*vSec), "concurrent posting does not end")
	vNoExplore()
	c := s.dial()
	if where == 0 {
		c.vMerged("t", 0, a, b)
	} else {
		c.vMerged("t", 0, a, nil)
		c.vMerged(tb, int32(pb), nil, b)
	}
	vReach("done")
}

// A poster, a creator of the same topic and partition, and a client that fetches what is posted.
//verif prop=L02 sched weight=2 reach=done
func vL02Create() {
	s := vStartSrv()
	a, b := vRecsOf(1, 2), vRecsOf(2, 1)
	c := s.dial()
	c.beat("heartbeat")
	var g vGroup
	vExplore(vTier(2, 3), 3)
	g.Go(func() { s.vPostAll("t", 0, a) })
	g.Go(func() {
		s.km.CreatePartitionTopics([]string{"t", "u"}, 0)
		s.vPostAll("u", 0, b)
	})
	vAssert(g.Wait(5*vSec), "concurrent posting does not end")
	vNoExplore()
	c.vMerged("t", 0, a, nil)
	c.vMerged("u", 0, nil, b)
	vReach("done")
}

// Two clients commit one arbitrary offset each at the same time, for the same group and partition (while a third
// asks for the offset), or for another group, topic or partition, after an initial commit.
//verif prop=L02 sched weight=5 reach=done
func vL02Commits() {
	s := vStartSrv()
	s.km.CreatePartitionTopics([]string{"t", "u"}, 0)
	s.km.CreatePartitionTopics([]string{"t"}, 1)
	c, d := s.dial(), s.dial()
	base, x, y := vInt("base", 0, 100), vI64("x"), vI64("y")
	c.commit1("g", "t", 0, base)
	d.beat("heartbeat")
	k := []vGTP{{"h", "t", 0}, {"g", "t", 1}, {"g", "u", 0}}[vPick("other", 3)]
	vSettle()
	vExplore(vTier(1, 2), vTier(3, 4))
	c.Send(vReq(apiCommit, 1, vCommitBody("g", []vCmTopic{{"t", []vCmPart{{0, x}}}})))
	d.Send(vReq(apiCommit, 2, vCommitBody(k.g, []vCmTopic{{k.t, []vCmPart{{k.p, y}}}})))
	corr, r := c.frame(8*vSec, "concurrent commit")
	vAssert(corr == 1, "wrong correlation id")
	vParseCommit(r)
	corr, r = d.frame(8*vSec, "concurrent commit")
	vAssert(corr == 2, "wrong correlation id")
	vParseCommit(r)
	vNoExplore()
	vAssert(c.committed(k.g, k.t, k.p) == vIte(y > 0, y, 0), "a concurrent commit is lost")
	vAssert(c.committed("g", "t", 0) == vIte(x > base, x, base), "a concurrent commit is lost or the offset moved back")
	vReach("done")
}

//verif prop=L02 sched weight=5 reach=done
func vL02Same() {
	s := vStartSrv()
	s.km.CreatePartitionTopics([]string{"t"}, 0)
	c, d, e := s.dial(), s.dial(), s.dial()
	base, x, y := vInt("base", 0, 100), vI64("x"), vI64("y")
	c.commit1("g", "t", 0, base)
	d.beat("heartbeat")
	e.beat("heartbeat")
	vSettle()
	vExplore(1, vTier(2, 4))
	c.Send(vReq(apiCommit, 1, vCommitBody("g", []vCmTopic{{"t", []vCmPart{{0, x}}}})))
	d.Send(vReq(apiCommit, 2, vCommitBody("g", []vCmTopic{{"t", []vCmPart{{0, y}}}})))
	e.Send(vReq(apiOffsetFetch, 3, vOffsetFetchBody("g", []vOfTopic{{"t", []int32{0}}})))
	corr, r := c.frame(8*vSec, "concurrent commit")
	vAssert(corr == 1, "wrong correlation id")
	vParseCommit(r)
	corr, r = d.frame(8*vSec, "concurrent commit")
	vAssert(corr == 2, "wrong correlation id")
	vParseCommit(r)
	corr, r = e.frame(8*vSec, "concurrent offset fetch")
	vAssert(corr == 3, "wrong correlation id")
	vNoExplore()
	o := vParseOffsetFetch(r)
	vAssert(len(o) == 1 && len(o[0].parts) == 1 && o[0].parts[0].err == 0, "a concurrent offset fetch is not answered")
	max := func(a, b int64) int64 { return vIte(a > b, a, b) }
	bx, by := max(base, x), max(base, y)
	saw := o[0].parts[0].offset
	vAssert(vOr(saw == base, saw == bx, saw == by, saw == max(bx, by)), "an offset fetch beside commits is answered with an offset that was never committed")
	vAssert(c.committed("g", "t", 0) == max(bx, by), "a concurrent commit is lost or the offset moved back")
	vReach("done")
}

// A post or direct setting while a client commits, fetches, lists, syncs or asks for metadata: all of them
// end, on every schedule with up to 1 preemption (2 in the thorough tier).
//verif prop=L02 sched weight=3 reach=done
func vL02Mixed() {
	s := vStartSrv()
	rec := vRecsOf(1, 2)
	s.post("t", 0, rec[0])
	c, d := s.dial(), s.dial()
	d.beat("heartbeat")
	c.beat("heartbeat")
	x := vI64("x")
	api := []int16{apiCommit, apiFetch, apiListOffsets, apiSync, apiMetadata, apiOffsetFetch}[vPick("api", 6)]
	vSettle()
	var g vGroup
	vExplore(vTier(1, 2), vTier(2, 3))
	k := 0
	for i, a := range vApis {
		if a == api {
			k = i
		}
	}
	beg, _ := s.vAct(4+k, c, 1)
	beg(&g)
	d.Send(vReq(apiCommit, 2, vCommitBody("g", []vCmTopic{{"t", []vCmPart{{0, x}}}})))
	g.Go(func() { s.post("t", 0, rec[1]) })
	c.frame(8*vSec, "request beside a post")
	corr, r := d.frame(8*vSec, "commit beside a post")
	vAssert(corr == 2, "wrong correlation id")
	vParseCommit(r)
	vAssert(g.Wait(5*vSec), "a concurrent post does not end")
	vNoExplore()
	c.vMerged("t", 0, rec, nil)
	want := vIte(x > 0, x, 0)
	if api == apiCommit {
		want = vIte(x > 3, x, 3)
	}
	vAssert(d.committed("g", "t", 0) == want, "a concurrent commit is lost")
	vReach("done")
}
