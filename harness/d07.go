package kafkamock

// 0..4 records with any non-decreasing timestamps (before 1970 and equal ones included) and any time
// asked for (-1 and -2, which stand for the latest and earliest offset, excepted), plus the
// latest and earliest offsets, in one request or in several.
//verif prop=D07 weight=3 reach=found,none,before
func vD07Times() { vD07(4) }

// The same with up to 9 records.
//verif prop=D07 tiers=thorough weight=3 reach=found,none,before
func vD07Many() { vD07(9) }

func vD07(maxRecs int) {
	s := vStartSrv()
	s.km.CreatePartitionTopics([]string{"t", "u"}, 5)
	n := vPick("n", maxRecs+1)
	var ts []int64
	last := int64(-1 << 50)
	for i := 0; i < n; i++ {
		x := vInt("ts", -1<<50, 1<<50)
		vAssume(x >= last)
		last = x
		ts = append(ts, x)
		s.post("t", 5, vRec{nil, []byte{byte(i)}, x})
	}
	s.post("u", 5, vRec{nil, []byte{9}, 77})
	ask := vI64("ask")
	vAssume(vAnd(ask != -1, ask != -2))
	c := s.dial()
	var late, early, timed vLoRes
	if vPick("together", 2) == 0 {
		late, early, timed = c.listOffset1("t", 5, -1), c.listOffset1("t", 5, -2), c.listOffset1("t", 5, ask)
	} else {
		o := c.listOffsets([]vLoTopic{{"u", []vLoPart{{5, -1}}}, {"t", []vLoPart{{5, -1}, {5, -2}, {5, ask}}}})
		vAssert(len(o) == 2 && len(o[0].parts) == 1 && len(o[1].parts) == 3, "list offsets: not every entry is answered")
		vAssert(vStrEq(o[0].topic, "u") && vStrEq(o[1].topic, "t"), "list offsets: topics out of order")
		vAssert(o[0].parts[0].err == 0 && o[0].parts[0].offset == 1, "list offsets: the other topic's end is wrong")
		late, early, timed = o[1].parts[0], o[1].parts[1], o[1].parts[2]
	}
	vAssert(late.part == 5 && early.part == 5 && timed.part == 5, "list offsets: another partition is answered")
	vAssert(late.err == 0 && early.err == 0 && timed.err == 0, "list offsets reports an error for an existing partition")
	vAssert(late.offset == int64(n), "the latest offset is not the number of records")
	vAssert(early.offset == 0, "the earliest offset is not 0")
	want := 0
	for want < n && ts[want] < ask {
		want++
	}
	vAssert(timed.offset == int64(want), "the offset for a time is not that of the first record not before it")
	if want < n {
		vAssert(timed.ts == ts[want], "the timestamp for a time is not that of the first record not before it")
		vReach("found")
		if want == 0 {
			vReach("before")
		}
	} else {
		vReach("none")
	}
	// nothing changed
	c.vCount("t", 5, n)
}

// vCount asserts the number of records of a partition.
func (c *vCli) vCount(topic string, part int32, n int) {
	f := c.fetch1(0, topic, part, 0, 1000000)
	vAssert(len(f.msgs) == n, "a partition holds another number of records than were posted to it")
}
