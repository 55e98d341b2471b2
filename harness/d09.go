package kafkamock

// A direct setting of any value after up to two commits of any value, by itself and followed by another
// setting; any of 2 groups, topics and partitions, existing or not; records are posted before.
//verif prop=D09 weight=3 reach=set,missing
func vD09Set() {
	s := vStartSrv()
	r := vSized("r", 1, 1)
	s.post("a", 0, r)
	s.km.CreatePartitionTopics([]string{"a", "b"}, 1)
	all := []vGTP{{"g", "a", 0}, {"h", "a", 0}, {"g", "a", 1}, {"g", "b", 1}, {"h", "b", 1}}
	missing := []vGTP{{"g", "b", 0}, {"g", "zz", 0}, {"g", "a", 7}, {"g", "a", -1}}
	cur := map[vGTP]int64{}
	c := s.dial()
	for i, n := 0, vPick("commits", 3); i < n; i++ {
		k := all[vPick("commitAt", 3)]
		off := vI64("commit")
		c.commit1(k.g, k.t, k.p, off)
		cur[k] = vIte(off > cur[k], off, cur[k])
	}
	for i := 0; i < 2; i++ {
		w := vPick("where", len(all)+len(missing))
		v := vI64("value")
		if w < len(all) {
			k := all[w]
			s.km.SetConsumerGroupOffset(k.t, int(k.p), k.g, v)
			cur[k] = v
			vAssert(c.committed(k.g, k.t, k.p) == v, "a directly set offset is not what is fetched next")
			vReach("set")
		} else {
			k := missing[w-len(all)]
			s.km.SetConsumerGroupOffset(k.t, int(k.p), k.g, v)
			vAssert(c.listOffset1(k.t, k.p, -1).err == 3, "setting an offset created a topic or partition")
			_, ts := c.metadata([]string{k.t})
			if k.t == "zz" {
				vAssert(len(ts) == 1 && ts[0].err == 3, "setting an offset created a topic")
			} else {
				vAssert(len(ts) == 1 && ts[0].err == 0 && len(ts[0].parts) == 2-int(k.t[0]-'a'), "setting an offset created or lost a partition")
			}
			vReach("missing")
		}
	}
	for _, k := range all {
		vAssert(c.committed(k.g, k.t, k.p) == cur[k], "setting an offset affected another group, topic or partition")
	}
	f := c.fetch1(0, "a", 0, 0, 10000)
	vAssert(len(f.msgs) == 1, "setting an offset affected the records")
	vIsRec(f.msgs[0], r, 0)
}

// Group, topic and partition are arbitrary: short strings of any bytes, any 32-bit partition number.
//verif prop=D09 reach=hit,miss
func vD09Names() {
	s := vStartSrv()
	s.km.CreatePartitionTopics([]string{"t"}, 4)
	c := s.dial()
	c.commit1("g", "t", 4, 10)
	t, g, p, v := vStr("t", vPick("tlen", 2)), vStr("g", vPick("glen", 2)), vI32("p"), vI64("v")
	s.km.SetConsumerGroupOffset(t, int(p), g, v)
	if vStrEq(t, "t") && vStrEq(g, "g") && p == 4 {
		vAssert(c.committed("g", "t", 4) == v, "a directly set offset is not what is fetched next")
		vReach("hit")
	} else {
		vAssert(c.committed("g", "t", 4) == 10, "setting an offset affected another group, topic or partition")
		vReach("miss")
	}
}
