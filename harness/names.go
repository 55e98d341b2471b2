package kafkamock

import "time"

// Names that differ a little, times between milliseconds, changing join requests, longer comings and goings,
// and mocks on neighbouring ports.

// vAlike are names that a table could take for one another: case, spaces, bytes that are not text, joined names
// and partitions, wildcards, long names that differ at the end.
func vAlike() []string {
	l := vLong('x', 300)
	return []string{"a", "A", "orders", "Orders", "ORDERS", " orders", "orders ", "orders\x00", "\x00orders", "orders\n", "ab", "a.b", "a_b", "a-b", "a/b", "a:b", "a,b", "a b", "a\x00b",
		"a-0", "a-1", "a1", "a.1", "a/1", "a:1", "a_1", "\xff", "\xfe", "a\xff", "a\xfe", "a\xff\xfe", "a?", "a\xef\xbf\xbd", "e\xcc\x81", "\xc3\xa9", "E\xcc\x81", "\xc3\x89", "\xc5\xbf", "s", "\xe2\x84\xaa", "k", "K",
		"*", ".", "..", "%", "%61", "^", "0", "00", "1", "01", "+1", "-1", "__consumer_offsets", "_consumer_offsets", "__other", l, l + "x", l + "y", l[:255], l[:256], l[:128], l[:127] + "x", l[:64], l[:63] + "z", l[1:]}
}

// Tens of names that look alike, each topic with a record (arbitrary contents) in partitions 0, 1 and 11 of its
// own, created by posting or beforehand, in either order: read, listed and described each by itself.
//verif prop=D06 reach=checked steps=400000000
func vD06Alike() {
	s := vStartSrv()
	names := vAlike()
	if vPick("reverse", 2) == 1 {
		for i, j := 0, len(names)-1; i < j; i, j = i+1, j-1 {
			names[i], names[j] = names[j], names[i]
		}
	}
	parts := []int{0, 1, 11, -1}
	switch vPick("create", 3) {
	case 0:
		s.km.CreatePartitionTopics(names, 1)
	case 1:
		for i := range names {
			s.km.CreatePartitionTopics(names[i:i+1], 0)
		}
	}
	recs := map[vTP]vRec{}
	x := vU8("x")
	for j, p := range parts {
		for i, n := range names {
			r := vRec{nil, []byte{byte(i), byte(j), x}, int64(i)}
			if i == 3 {
				r.key = vBytes("key", 1)
			}
			recs[vTP{n, p}] = r
			s.post(n, p, r)
		}
	}
	c := s.dial()
	for _, n := range names {
		for _, p := range parts {
			f := c.fetch1(0, n, int32(p), 0, 1000)
			vAssert(len(f.msgs) == 1, "a partition of a topic with a name like another's holds another number of records than were posted to it")
			vIsRec(f.msgs[0], recs[vTP{n, p}], 0)
		}
		vAssert(c.listOffset1(n, 11, -1).offset == 1, "the end offset is not the number of records posted")
	}
	_, ts := c.metadata(names)
	vAssert(len(ts) == len(names), "metadata lists another number of topics than were asked about")
	for i, t := range ts {
		vAssert(t.topic == names[i] && t.err == 0 && len(t.parts) == len(parts), "a topic with a name like another's has other partitions")
	}
	vReach("checked")
}

// The same names as consumer groups: offsets committed and set for each are its own, in either order.
//verif prop=D08 reach=checked steps=400000000
func vD08Alike() { vGroupsAlike(false) }

//verif prop=D09 reach=checked steps=400000000
func vD09Alike() { vGroupsAlike(true) }

func vGroupsAlike(set bool) {
	s := vStartSrv()
	names := append(vAlike(), "", " ")
	if vPick("reverse", 2) == 1 {
		for i, j := 0, len(names)-1; i < j; i, j = i+1, j-1 {
			names[i], names[j] = names[j], names[i]
		}
	}
	s.km.CreatePartitionTopics(names[5:9], 0)
	s.km.CreatePartitionTopics([]string{"t"}, 0)
	s.km.CreatePartitionTopics([]string{"t"}, 1)
	c := s.dial()
	x := vInt("x", 0, 1<<40)
	for i, g := range names {
		if set {
			s.km.SetConsumerGroupOffset("t", 0, g, x+int64(i))
			s.km.SetConsumerGroupOffset("t", 1, g, x+int64(1000+i))
		} else {
			c.commit1(g, "t", 0, x+int64(i))
			c.commit1(g, "t", 1, x+int64(1000+i))
		}
	}
	for i, g := range names {
		vAssert(c.committed(g, "t", 0) == x+int64(i), "a group with a name like another's has another's committed offset")
		vAssert(c.committed(g, "t", 1) == x+int64(1000+i), "a group with a name like another's has another's committed offset")
		if i%8 == 0 {
			vAssert(c.committed(g, names[6], 0) == 0, "a group has a committed offset where none was committed")
		}
	}
	vReach("checked")
}

// Records posted with times between two milliseconds, in any of three places: the time is that of the
// millisecond begun, also when looked up.
//verif prop=D01 reach=between
func vD01Between() {
	s := vStartSrv()
	ms := vInt("ms", 0, 1<<40)
	ns := []int64{0, 1, 499999, 500000, 500001, 999000, 999999}
	zones := []*time.Location{time.FixedZone("u", 0), time.FixedZone("e", 3600*5+1800), time.FixedZone("w", -3600*8)}
	zone := zones[vPick("zone", 3)]
	var recs []vRec
	for i, d := range ns {
		r := vRec{nil, []byte{byte(i)}, ms + int64(i)}
		s.km.ExtendedPost("t", 0, nil, r.value, nil, vMs(r.ts).Add(time.Duration(d)).In(zone))
		recs = append(recs, r)
	}
	f := s.dial().fetch1(0, "t", 0, 0, 10000)
	vAssert(len(f.msgs) == len(recs), "a fetch does not return all records from the offset on")
	for i, m := range f.msgs {
		vIsRec(m, recs[i], int64(i))
	}
	vReach("between")
}

//verif prop=D07 reach=between
func vD07Between() {
	s := vStartSrv()
	ms := vInt("ms", 4, 1<<40)
	for i, d := range []int64{0, 1, 499999, 500000, 999999, 0} {
		s.km.ExtendedPost("t", 0, nil, nil, nil, vMs(ms+int64(2*i)).Add(time.Duration(d)))
	}
	c := s.dial()
	for i := 0; i < 6; i++ {
		o := c.listOffset1("t", 0, ms+int64(2*i))
		vAssert(o.offset == int64(i), "the offset listed for a time is not that of the first record at or after it")
		o = c.listOffset1("t", 0, ms+int64(2*i)-1)
		vAssert(o.offset == int64(i), "the offset listed for a time is not that of the first record at or after it")
	}
	vReach("between")
}

// The same member joins, leaves and joins again with other protocols, in any order and number, other metadata
// and time outs, on one connection and another, with other members in between: it is told the same.
//verif prop=G03 reach=told
func vG03Again() {
	s := vStartSrv()
	s.post("t", 0, vRec{nil, []byte{1}, 5})
	cs := []*vCli{s.dial(), s.dial()}
	protos := []string{"range", "roundrobin", "sticky", "cooperative-sticky", "", vStr("proto", 1)}
	first := map[string]vJoined{}
	for i := 0; i < 6; i++ {
		n, at := i, i%2*3
		if i < 3 {
			n, at = vPick("protocols", 6), vPick("from", 2)*3
		}
		member := []string{"", "m", "other"}[i*2%3]
		c := cs[i%2]
		w := new(vW).str("g").i32(vI32("session")).i32(vI32("rebalance")).str(member).str([]string{"consumer", "connect", ""}[i%3]).i32(int32(n))
		for j := 0; j < n; j++ {
			w.str(protos[(at+j*(1+at))%len(protos)]).bytes(vBytes("metadata", j))
		}
		j := vParseJoin(c.call(apiJoin, w.b, "join group"))
		if f, ok := first[member]; ok {
			vAssert(vStrEq(j.protocol, f.protocol) && vStrEq(j.leader, f.leader) && vStrEq(j.member, f.member), "a member is told something else on joining again")
		} else {
			first[member] = j
		}
		switch i {
		case 1:
			vErr0(c.call(apiLeave, new(vW).str("g").str(member).b, "leave group"), "leave group")
		case 2:
			c.assignment()
		case 3:
			vErr0(c.call(apiHeartbeat, new(vW).str("g").i32(-1).str(member).b, "heartbeat"), "heartbeat")
		case 4:
			c.Close()
			cs[i%2] = s.dial()
			s.km.CreatePartitionTopics([]string{"new"}, 0)
		}
	}
	vReach("told")
}

// Four clients (five in the thorough tier) of which all but one leave in any order; a new one comes after any of
// the departures, two more at the end, after which the first to have stayed leaves too.
//verif prop=L05 reach=done timeout=40
func vL05Turns() {
	s := vStartSrv()
	n := vTier(4, 5)
	var cs []*vCli
	gone := make([]bool, n+3)
	join := func() {
		c := s.dial()
		c.beat("a client that connects later")
		cs = append(cs, c)
	}
	for i := 0; i < n; i++ {
		join()
	}
	after := vPick("after", n)
	for k := 0; k < n-1; k++ {
		i := vPick("leaves", n)
		vAssume(!gone[i])
		cs[i].vLeave(0)
		gone[i] = true
		s.vOthers(cs, gone)
		if k == after {
			join()
		}
	}
	s.vOthers(cs, gone)
	join()
	s.vOthers(cs, gone)
	join()
	s.vOthers(cs, gone)
	for i := range cs {
		if !gone[i] {
			cs[i].vLeave(1)
			gone[i] = true
			break
		}
	}
	s.vOthers(cs, gone)
	vReach("done")
}

// Three mocks on ports beside each other, started in any order; one of them is stopped, finished, restarted or
// stopped and started again: the others go on, each with its own data.
//verif prop=L08 reach=done timeout=40
func vL08Beside() {
	port := vFreePorts(3)
	var ss []*vSrv
	for i := 0; i < 3; i++ {
		ss = append(ss, &vSrv{NewKafkaMock(vNewLane(), port+uint(i)), port + uint(i)})
	}
	order := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[vPick("order", 6)]
	cs := make([]*vCli, 3)
	for _, i := range order {
		ss[i].km.Start()
		ss[i].post("t", 0, vRec{nil, []byte{byte(i)}, 5})
	}
	for i, s := range ss {
		cs[i] = s.dial()
		cs[i].beat("a client")
	}
	at := vPick("at", 3)
	o := ss[at]
	finished := false
	var g vGroup
	switch vPick("what", 4) {
	case 0:
		g.Go(func() { o.km.RequestStop(); o.km.WaitForTermination() })
		vAssert(g.Wait(8*vSec), "stopping a mock beside another does not complete")
		vAssert(vDial(o.port, vSec/10) == nil, "the server still accepts connections after it terminated")
		finished = true
	case 1:
		g.Go(o.km.FinishRequests)
		finished = true
	case 2:
		g.Go(o.km.Restart)
	case 3:
		g.Go(func() { o.km.RequestStop(); o.km.WaitForTermination(); o.km.Start() })
	}
	vAssert(g.Wait(8*vSec), "stopping a mock beside another does not complete")
	check := func() {
		for i, s := range ss {
			if i == at && finished {
				continue
			}
			c := cs[i]
			if i != at {
				c.beat("a client of another mock")
			}
			c = s.dial()
			f := c.fetch1(0, "t", 0, 0, 1000)
			vAssert(len(f.msgs) == 1, "a mock serves records that were not posted to it, or too few")
			vIsRec(f.msgs[0], vRec{nil, []byte{byte(i)}, 5}, 0)
			bs, _ := c.metadata(nil)
			vAssert(len(bs) > 0, "metadata lists no broker")
			for _, b := range bs {
				vAssert(b.port == int32(s.port), "a mock leads its clients to another one")
			}
		}
	}
	check()
	vSleep(vSec)
	check()
	vReach("done")
}
