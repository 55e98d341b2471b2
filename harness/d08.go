package kafkamock

// vCommitStep commits one or two offsets in a request with arbitrary generation, member, retention and
// metadata.
func (c *vCli) vCommitAny(group string, topic string, ps []vCmPart) {
	w := new(vW).str(group).i32(vI32("gen")).str(vStr("member", vPick("memberLen", 2))).i64(vI64("retention")).i32(1).str(topic).i32(int32(len(ps)))
	for _, p := range ps {
		w.i32(p.part).i64(p.offset)
		if vPick("meta", 2) == 0 {
			w.nstr()
		} else {
			w.str(vStr("metadata", 1))
		}
	}
	o := vParseCommit(c.call(apiCommit, w.b, "offset commit"))
	vAssert(len(o) == 1 && vStrEq(o[0].topic, topic) && len(o[0].parts) == len(ps), "offset commit does not list what was committed")
	for i, p := range ps {
		vAssert(o[0].parts[i].part == p.part, "offset commit lists another partition")
		vAssert(o[0].parts[i].err == 0, "offset commit reports an error for an existing partition")
	}
}

type vGTP struct {
	g, t string
	p    int32
}

// Histories of 3 commits and direct settings with arbitrary 64-bit offsets, for 2 groups, 2 topics and 2 partitions, from 2 connections; every group's committed offset everywhere is read after the last step, and the changed one after each.
//verif prop=D08 weight=3 reach=checked
func vD08History() { vD08(3) }

// The same with 4 steps.
//verif prop=D08 weight=4 tiers=thorough reach=checked
func vD08Deep() { vD08(4) }

func vD08(steps int) {
	s := vStartSrv()
	all := []vGTP{{"g", "a", 0}, {"h", "a", 0}, {"g", "a", 1}, {"g", "b", 0}}
	s.km.CreatePartitionTopics([]string{"a", "b"}, 0)
	s.km.CreatePartitionTopics([]string{"a", "b"}, 1)
	cs := []*vCli{s.dial(), s.dial()}
	cur := map[vGTP]int64{}
	for i := 0; i < steps; i++ {
		k := all[vPick("where", len(all))]
		off := vI64("offset")
		c := cs[i%2]
		if vPick("op", 3) == 0 {
			s.km.SetConsumerGroupOffset(k.t, int(k.p), k.g, off)
			cur[k] = off
		} else {
			c.commit1(k.g, k.t, k.p, off)
			cur[k] = vIte(off > cur[k], off, cur[k])
		}
		vAssert(cs[(i+1)%2].committed(k.g, k.t, k.p) == cur[k], "the committed offset is not the highest committed since last set")
	}
	for _, k := range append(all, vGTP{"h", "b", 1}) {
		vAssert(cs[0].committed(k.g, k.t, k.p) == cur[k], "a group's committed offset was changed by a commit for another group, topic or partition")
	}
	vReach("checked")
}

// Requests with arbitrary generation, member, retention and metadata, several partitions and topics in
// one request (the same partition twice included), before which no or one partition has any offset.
//verif prop=D08 weight=2 reach=checked
func vD08Request() {
	s := vStartSrv()
	s.km.CreatePartitionTopics([]string{"a", "b"}, 0)
	s.km.CreatePartitionTopics([]string{"a", "b"}, 1)
	c := s.dial()
	x, y, z := vI64("x"), vI64("y"), vI64("z")
	max := func(a, b int64) int64 { return vIte(a > b, a, b) }
	was := [2]int64{}
	if k := vPick("before", 3); k < 2 {
		was[k] = vI64("was")
		s.km.SetConsumerGroupOffset("a", k, "g", was[k])
	}
	c.vCommitAny("g", "a", []vCmPart{{0, x}, {1, y}, {0, z}})
	vAssert(c.committed("g", "a", 0) == max(was[0], max(x, z)), "the committed offset is not the highest committed since last set")
	vAssert(c.committed("g", "a", 1) == max(was[1], y), "the committed offset is not the highest committed since last set")
	o := c.commit("h", []vCmTopic{{"b", []vCmPart{{1, x}}}, {"a", []vCmPart{{1, z}, {0, y}}}})
	vAssert(len(o) == 2 && vStrEq(o[0].topic, "b") && vStrEq(o[1].topic, "a") && len(o[0].parts) == 1 && len(o[1].parts) == 2, "offset commit does not list what was committed")
	vAssert(o[0].parts[0].err == 0 && o[1].parts[0].err == 0 && o[1].parts[1].err == 0, "offset commit reports an error for an existing partition")
	vAssert(o[0].parts[0].part == 1 && o[1].parts[0].part == 1 && o[1].parts[1].part == 0, "offset commit lists another partition")
	// one request for everything
	vMapOrder()
	got := map[vTP]int64{}
	n := 0
	for _, t := range c.offsetFetch("h", []vOfTopic{{"a", []int32{1, 0}}, {"b", []int32{0, 1}}}) {
		for _, p := range t.parts {
			vAssert(p.err == 0, "offset fetch reports an error")
			got[vTP{t.topic, int(p.part)}] = p.offset
			n++
		}
	}
	vAssert(n == 4 && len(got) == 4, "offset fetch does not list each requested partition once")
	vAssert(got[vTP{"a", 0}] == max(0, y) && got[vTP{"a", 1}] == max(0, z) && got[vTP{"b", 0}] == 0 && got[vTP{"b", 1}] == max(0, x), "a committed offset is wrong in a fetch for several partitions")
	vReach("checked")
}

// Two groups with arbitrary names of 0..2 bytes, equal or not.
//verif prop=D08 weight=2 reach=same,apart
func vD08Groups() {
	s := vStartSrv()
	s.km.CreatePartitionTopics([]string{"t"}, 0)
	g := vStr("g", vPick("glen", 3))
	h := vStr("h", vPick("hlen", 3))
	c := s.dial()
	x, y := vI64("x"), vI64("y")
	c.commit1(g, "t", 0, x)
	c.commit1(h, "t", 0, y)
	max := func(a, b int64) int64 { return vIte(a > b, a, b) }
	if vStrEq(g, h) {
		vAssert(c.committed(g, "t", 0) == max(0, max(x, y)), "the committed offset is not the highest committed")
		vReach("same")
	} else {
		vAssert(c.committed(g, "t", 0) == max(0, x), "another group's commit is seen")
		vAssert(c.committed(h, "t", 0) == max(0, y), "another group's commit is seen")
		vReach("apart")
	}
}
