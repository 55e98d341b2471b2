package kafkamock

type vTP struct {
	t string
	p int
}

// vAllRecs asserts that a partition holds exactly recs.
func (c *vCli) vAllRecs(tp vTP, recs []vRec) {
	f := c.fetch1(0, tp.t, int32(tp.p), 0, 1000000)
	vAssert(len(f.msgs) == len(recs), "a partition holds another number of records than were posted to it")
	for i, m := range f.msgs {
		vIsRec(m, recs[i], int64(i))
	}
	// the number of records as listed
	o := c.listOffset1(tp.t, int32(tp.p), -1)
	if o.err == 0 {
		vAssert(o.offset == int64(len(recs)), "the end offset is not the number of records posted")
	}
}

// Histories of 3 steps, each a post or a creation of one or several topics, on 2 topics with 2 partitions
// each; all partitions are read afterwards.
//verif prop=D06 weight=3 reach=checked
func vD06History() { vD06(3) }

// Histories of 6 posts to 3 partitions of 2 topics, arbitrary contents.
//verif prop=D06 weight=2 reach=checked
func vD06Posts() {
	s := vStartSrv()
	all := []vTP{{"a", 0}, {"a", 1}, {"b", 0}}
	data := map[vTP][]vRec{}
	for i := 0; i < 6; i++ {
		tp := all[vPick("where", 3)]
		r := vSized("r", 1, i-1)
		data[tp] = append(data[tp], r)
		s.post(tp.t, tp.p, r)
	}
	c := s.dial()
	for _, tp := range all {
		c.vAllRecs(tp, data[tp])
	}
	vReach("checked")
}


// As vD06History with 5 steps.
//verif prop=D06 weight=4 tiers=thorough reach=checked
func vD06Deep() { vD06(5) }

func vD06(steps int) {
	s := vStartSrv()
	all := []vTP{{"a", 0}, {"a", 1}, {"b", 0}, {"b", 1}}
	data := map[vTP][]vRec{}
	exists := map[vTP]bool{}
	for i := 0; i < steps; i++ {
		tp := all[vPick("where", 4)]
		switch vPick("op", 3) {
		case 0:
			r := vSized("r", 1, 1)
			data[tp] = append(data[tp], r)
			s.post(tp.t, tp.p, r)
			exists[tp] = true
		case 1:
			s.km.CreatePartitionTopics([]string{tp.t}, tp.p)
			exists[tp] = true
		case 2:
			s.km.CreatePartitionTopics([]string{"b", "a", "b"}, tp.p)
			exists[vTP{"a", tp.p}], exists[vTP{"b", tp.p}] = true, true
		}
	}
	c := s.dial()
	for _, tp := range all {
		c.vAllRecs(tp, data[tp])
		o := c.listOffset1(tp.t, int32(tp.p), -2)
		vAssert((o.err == 0) == exists[tp], "a partition exists although it was never created, or does not although it was")
	}
	vReach("checked")
}

// Two topics with arbitrary one-byte names and arbitrary partition numbers (32 bit), equal or not, posted
// to in turn; headers and both posting functions.
//verif prop=D06 weight=2 reach=same,apart
func vD06Names() {
	s := vStartSrv()
	t1, t2 := vStr("t1", 1), vStr("t2", 1)
	p1, p2 := vI32("p1"), vI32("p2")
	r := []vRec{vSized("r1", 1, 1), vSized("r2", 1, -1), vSized("r3", -1, 2)}
	s.km.ExtendedPost(t1, int(p1), r[0].key, r[0].value, map[string][]byte{"h": {1}}, vMs(r[0].ts))
	s.post(t2, int(p2), r[1])
	s.km.CreatePartitionTopics([]string{t1, t2}, int(p1))
	before := vClockNs()
	_ = before
	s.km.SimplePost(t1, int(p1), r[2].key, r[2].value)
	same := vStrEq(t1, t2) && p1 == p2
	c := s.dial()
	f1 := c.fetch1(0, t1, p1, 0, 10000)
	f2 := c.fetch1(0, t2, p2, 0, 10000)
	if same {
		vAssert(len(f1.msgs) == 3 && len(f2.msgs) == 3, "a partition holds another number of records than were posted to it")
		vIsRec(f1.msgs[0], r[0], 0)
		vIsRec(f1.msgs[1], r[1], 1)
		r[2].ts = f1.msgs[2].ts
		vIsRec(f1.msgs[2], r[2], 2)
		vReach("same")
	} else {
		vAssert(len(f1.msgs) == 2 && len(f2.msgs) == 1, "a partition holds another number of records than were posted to it")
		vIsRec(f1.msgs[0], r[0], 0)
		r[2].ts = f1.msgs[1].ts
		vIsRec(f1.msgs[1], r[2], 1)
		vIsRec(f2.msgs[0], r[1], 0)
		vReach("apart")
	}
}

// Posts between fetches of one connection, also while offsets are being committed: what was read before
// stays as it was, and reading goes on where it ended. 12 records.
//verif prop=D06 reach=grown
func vD06Grow() {
	s := vStartSrv()
	c := s.dial()
	var recs []vRec
	for i := 0; i < 12; i++ {
		r := vSized("r", i%2, 1)
		recs = append(recs, r)
		s.post("t", 4, r)
		f := c.fetch1(0, "t", 4, int64(i), 10000)
		vAssert(len(f.msgs) == 1, "a record is not returned right after it was posted")
		vIsRec(f.msgs[0], r, int64(i))
		if i%3 == 0 {
			c.commit1("g", "t", 4, int64(i))
			s.km.CreatePartitionTopics([]string{"t"}, i)
		}
	}
	c.vAllRecs(vTP{"t", 4}, recs)
	vReach("grown")
}
