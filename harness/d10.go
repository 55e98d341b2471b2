package kafkamock

// ListOffsets and OffsetCommit over 1..3 entries, each a known or unknown topic or partition, in any
// order; the time asked for is arbitrary.
//verif prop=D10 weight=3 reach=known,unknown
func vD10Entries() {
	s := vStartSrv()
	s.post("a", 0, vSized("r", 1, 1))
	s.km.CreatePartitionTopics([]string{"b"}, 2)
	all := []vTP{{"a", 0}, {"b", 2}, {"a", 2}, {"b", 0}, {"zz", 0}, {"", -1}}
	known := func(tp vTP) bool { return tp == all[0] || tp == all[1] }
	n := 1 + vPick("n", 3)
	var tps []vTP
	for i := 0; i < n; i++ {
		tps = append(tps, all[vPick("entry", len(all))])
	}
	c := s.dial()
	group := vPick("grouped", 2) == 1 // entries of one topic in one list, or apart
	var lo []vLoTopic
	var cm []vCmTopic
	for i, tp := range tps {
		ask := []int64{-1, -2, vInt("ask", 0, 1<<60)}[i]
		l, m := vLoPart{int32(tp.p), ask}, vCmPart{int32(tp.p), vI64("commit")}
		if k := len(lo) - 1; group && k >= 0 && lo[k].topic == tp.t {
			lo[k].parts = append(lo[k].parts, l)
			cm[k].parts = append(cm[k].parts, m)
		} else {
			lo = append(lo, vLoTopic{tp.t, []vLoPart{l}})
			cm = append(cm, vCmTopic{tp.t, []vCmPart{m}})
		}
	}
	ro, rc := c.listOffsets(lo), c.commit("g", cm)
	vAssert(len(ro) == len(lo) && len(rc) == len(lo), "not every topic entry is answered")
	for i, t := range lo {
		vAssert(vStrEq(ro[i].topic, t.topic) && vStrEq(rc[i].topic, t.topic), "topics are not answered in request order")
		vAssert(len(ro[i].parts) == len(t.parts) && len(rc[i].parts) == len(t.parts), "not every partition entry is answered")
		for k, p := range t.parts {
			a, b := ro[i].parts[k], rc[i].parts[k]
			vAssert(a.part == p.part && b.part == p.part, "partitions are not answered in request order")
			if known(vTP{t.topic, int(p.part)}) {
				vAssert(a.err == 0 && b.err == 0, "an existing partition is answered with an error")
				vReach("known")
			} else {
				vAssert(a.err == 3 && b.err == 3, "an unknown topic or partition is not answered with error 3")
				vReach("unknown")
			}
		}
	}
	for _, tp := range all {
		want := int16(3)
		if known(tp) {
			want = 0
		}
		vAssert(c.listOffset1(tp.t, int32(tp.p), -1).err == want, "a request created a topic or partition")
	}
}

// Requests of every API that name a topic, for an unknown topic and for an unknown partition of a known
// one: nothing is created, as seen by ListOffsets, metadata and group sync.
//verif prop=D10 reach=quiet
func vD10NoCreate() {
	s := vStartSrv()
	s.km.CreatePartitionTopics([]string{"a"}, 0)
	c := s.dial()
	t, p := "zz", int32(0)
	if vPick("what", 2) == 1 {
		t, p = "a", 5
	}
	switch vPick("api", 5) {
	case 0:
		c.fetch1(int32(vPick("wait", 2)*30), t, p, vI64("offset"), vI32("max"))
	case 1:
		c.listOffset1(t, p, vI64("ts"))
	case 2:
		c.commit("g", []vCmTopic{{t, []vCmPart{{p, vI64("commit")}}}})
	case 3:
		c.offsetFetch("g", []vOfTopic{{t, []int32{p}}})
	case 4:
		c.metadata([]string{t})
		c.call(apiFindCoord, new(vW).str(t).b, "find coordinator")
	}
	vAssert(c.listOffset1(t, p, -1).err == 3, "a request created a topic or partition")
	as := c.assignment()
	vAssert(len(as) == 1 && as[0].topic == "a" && len(as[0].parts) == 1 && as[0].parts[0] == 0, "a request created a topic or partition")
	vReach("quiet")
}
