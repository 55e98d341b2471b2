package kafkamock

// What one client asks for, of each kind of request that names a topic, before and after the topic or
// partition comes into being: unknown at first, known afterwards, to the same connection and to another.
//verif prop=D10 weight=2 reach=known
func vD10Later() {
	s := vStartSrv()
	s.km.CreatePartitionTopics([]string{"t"}, 0)
	topic, part := "t", int32(1)
	if vPick("what", 2) == 1 {
		topic, part = "u", 0
	}
	x := vI64("x")
	vAssume(x > 0)
	c := s.dial()
	ask := func(c *vCli, k int, known bool, recs int) {
		switch k {
		case 0:
			o := c.listOffset1(topic, part, []int64{-1, -2, 5}[vPick("time", 3)])
			vAssert((o.err == 0) == known && (known || o.err == 3), "list offsets: an entry is not reported as what it is")
			vAssert(known || o.offset == 0 || o.offset == -1, "list offsets: an unknown entry has an offset")
		case 1:
			o := c.commit("g", []vCmTopic{{topic, []vCmPart{{part, x}}}})
			vAssert(len(o) == 1 && len(o[0].parts) == 1, "offset commit: the partition is not answered exactly once")
			vAssert((o[0].parts[0].err == 0) == known && (known || o[0].parts[0].err == 3), "offset commit: an entry is not reported as what it is")
			if known {
				vAssert(c.committed("g", topic, part) == x, "a committed offset is not what is fetched next")
			}
		case 2:
			o := c.offsetFetch("h", []vOfTopic{{topic, []int32{part}}})
			if known {
				vAssert(len(o) == 1 && len(o[0].parts) == 1 && o[0].parts[0].err == 0, "offset fetch: an existing partition is not answered")
			}
		case 3:
			f := c.fetch(0, []vFetchTopic{{topic, []vFetchPart{{part, 0, 10000}}}})
			vAssert(len(f) == 1 && len(f[0].parts) == 1 && len(f[0].parts[0].msgs) == recs, "fetch: not the records that were posted")
		case 4:
			_, ts := c.metadata([]string{topic})
			vAssert(len(ts) == 1, "metadata does not list every requested topic once")
			n := 0
			for _, p := range ts[0].parts {
				if p.part == part {
					n++
				}
			}
			vAssert(n == 0 && !known || n == 1 && known && ts[0].err == 0, "metadata: a partition is not listed as what it is")
		case 5:
			n := 0
			for _, a := range c.assignment() {
				for _, p := range a.parts {
					if vStrEq(a.topic, topic) && p == part {
						n++
					}
				}
			}
			vAssert(n == 0 && !known || n == 1 && known, "the assignment does not hold exactly the existing partitions")
		}
	}
	ask(c, vPick("first", 6), false, 0)
	recs := vPick("posts", 3)
	for i := 0; i < recs; i++ {
		s.post(topic, int(part), vRec{nil, vBytes("v", 1), 5})
	}
	if recs == 0 {
		s.km.CreatePartitionTopics([]string{topic}, int(part))
	}
	d := c
	if vPick("other", 2) == 1 {
		d = s.dial()
	}
	ask(d, vPick("second", 6), true, recs)
	ask(c, vPick("third", 6), true, recs)
	vReach("known")
}

// Any time, the end and the beginning asked for before and after records come in, on one connection or two.
//verif prop=D07 weight=2 reach=done
func vD07Grow() {
	s := vStartSrv()
	s.km.CreatePartitionTopics([]string{"t"}, 0)
	ask := vInt("ask", 0, 1<<40)
	c := s.dial()
	var ts []int64
	last := int64(0)
	for i, more := range []int{vPick("first", 2), 1 + vPick("second", 2), vPick("third", 2)} {
		for k := 0; k < more; k++ {
			x := vInt("ts", 0, 1<<40)
			vAssume(x >= last)
			last = x
			ts = append(ts, x)
			s.post("t", 0, vRec{nil, []byte{1}, x})
		}
		if i == 1 && vPick("other", 2) == 1 {
			c = s.dial()
		}
		vAssert(c.listOffset1("t", 0, -1).offset == int64(len(ts)), "the latest offset is not the number of records")
		o := c.listOffset1("t", 0, ask)
		want := 0
		for want < len(ts) && ts[want] < ask {
			want++
		}
		vAssert(o.err == 0 && o.offset == int64(want), "the offset for a time is not that of the first record not before it")
		if want < len(ts) {
			vAssert(o.ts == ts[want], "the timestamp for a time is not that of the first record not before it")
		}
		vAssert(c.listOffset1("t", 0, -2).offset == 0, "the earliest offset is not 0")
	}
	vReach("done")
}
