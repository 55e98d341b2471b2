package kafkamock

// vConsumer is a group consumer that follows the protocol as Kafka clients do, and what it has read so far.
type vConsumer struct {
	s     *vSrv
	c     *vCli
	recs  map[int32][]vRec // what has been posted
	next  map[int32]int64  // the first record not yet read under a commit
	dupes int              // records read again
	left  int              // requests until it breaks off; negative: never
	max   int32
}

// step counts a request and reports whether the consumer breaks off before it.
func (v *vConsumer) step() bool {
	if v.left == 0 {
		return true
	}
	v.left--
	return false
}

// session connects, joins the group, reads everything there is and commits it; it may break off anywhere.
func (v *vConsumer) session(each bool) (done bool) {
	v.c = v.s.dial()
	if v.step() {
		return
	}
	bs, ts := v.c.metadata([]string{"t"})
	vAssert(len(ts) == 1 && ts[0].err == 0 && len(bs) > 0, "metadata does not tell the topic")
	if v.step() {
		return
	}
	r := v.c.call(apiFindCoord, new(vW).str("g").b, "find coordinator")
	vAssert(r.i16() == 0, "coordinator lookup reports an error")
	node := r.i32()
	vAssert(vStrEq(r.str(), "localhost"), "the coordinator is another host")
	port := r.i32()
	r.end("find coordinator")
	known := false
	for _, b := range bs {
		known = known || b.node == node && b.port == port
	}
	vAssert(known && port == int32(v.s.port), "the coordinator is not a broker the metadata lists")
	if vPick("coordinator", 2) == 1 {
		// a connection of its own, as many clients have
		v.c = vDial(uint(port), vSec)
		vAssert(v.c != nil, "the coordinator cannot be reached")
	}
	if v.step() {
		return
	}
	r = v.c.call(apiJoin, new(vW).str("g").i32(10000).i32(9000).str("").str("consumer").i32(1).str("range").bytes([]byte{0, 0}).b, "join group")
	vAssert(r.i16() == 0, "join group reports an error")
	gen := r.i32()
	vAssert(len(r.str()) != 0, "join group tells no protocol")
	leader, member := r.str(), r.str()
	vAssert(!vStrEq(leader, member), "a consumer is told to lead the group, whose assignments the mock makes itself")
	if v.step() {
		return
	}
	as := vParseSync(v.c.call(apiSync, vSyncBody("g", member, gen).i32(0).b, "sync group"))
	vAssert(len(as) == 1 && vStrEq(as[0].topic, "t") && len(as[0].parts) == len(ts[0].parts), "the assignment is not what metadata tells")
	if v.step() {
		return
	}
	offs := v.c.offsetFetch("g", []vOfTopic{{"t", as[0].parts}})
	vAssert(len(offs) == 1 && len(offs[0].parts) == len(as[0].parts), "a committed offset is missing")
	for i, p := range as[0].parts {
		at := offs[0].parts[i].offset
		vAssert(at == v.next[p], "the group does not go on at the offset it committed")
		for {
			if v.step() {
				return
			}
			f := v.c.fetch1(0, "t", p, at, v.max)
			if len(f.msgs) == 0 {
				break
			}
			for _, m := range f.msgs {
				i := vConcrete(m.offset)
				vAssert(m.offset == at && i >= 0 && i < int64(len(v.recs[p])), "a record is skipped, or read that was not posted")
				vIsRec(m, v.recs[p][i], at)
				at++
				if each {
					if v.step() {
						return
					}
					v.c.commit1("g", "t", p, at)
					v.next[p] = at
				}
			}
			if v.step() {
				return
			}
			if !each {
				v.c.commit1("g", "t", p, at)
				v.next[p] = at
			}
		}
		vAssert(at == int64(len(v.recs[p])), "a posted record is not read")
		vAssert(v.c.listOffset1("t", p, -1).offset == at, "the lag of a group that has read everything is not zero")
	}
	if v.step() {
		return
	}
	vErr0(v.c.call(apiHeartbeat, new(vW).str("g").i32(gen).str(member).b, "heartbeat"), "heartbeat")
	vErr0(v.c.call(apiLeave, new(vW).str("g").str(member).b, "leave group"), "leave group")
	return true
}

func (v *vConsumer) post(p int32) {
	r := vRec{vBytes("key", 1), vBytes("value", 2), vInt("ts", 0, 1<<40)}
	v.s.post("t", int(p), r)
	v.recs[p] = append(v.recs[p], r)
}

func vNewConsumer() *vConsumer {
	v := &vConsumer{s: vStartSrv(), recs: map[int32][]vRec{}, next: map[int32]int64{}, max: int32([]int{40, 10000, 100}[vPick("max", vTier(2, 3))])}
	v.s.km.CreatePartitionTopics([]string{"t"}, 0)
	v.s.km.CreatePartitionTopics([]string{"t"}, 1)
	return v
}

// A consumer joins the group, reads two partitions of arbitrary records from the committed offset, commits
// after each record or each fetch, under two (three in the thorough tier) fetch limits; it breaks off before any of its requests, in
// any way; then records are posted, the mock is restarted, both or nothing, and the next session goes on.
// Every record is read, in order, and again only if it was not committed.
//verif prop=G04 weight=3 timeout=60 reach=done,broke
func vG04Break() {
	v := vNewConsumer()
	v.post(0)
	v.post(0)
	v.post(1)
	each := vPick("each", 2) == 1
	v.left = vPick("breaks", vTier(13, 18))
	if !v.session(each) {
		vReach("broke")
	}
	v.c.vLeave(vPick("way", 3))
	switch vPick("then", 4) {
	case 0:
		v.post(1)
	case 1:
		v.s.vRestart(vPick("how", 2))
	case 2:
		v.post(0)
		v.s.vRestart(0)
	}
	v.left = -1
	vAssert(v.session(each), "the consumer does not come to an end")
	vAssert(v.next[0] == int64(len(v.recs[0])) && v.next[1] == int64(len(v.recs[1])), "a posted record is not read")
	vReach("done")
}

// Several sessions (2, or 3 in the thorough tier) in a row with posts to either partition, restarts and
// broken-off sessions in between.
//verif prop=G04 weight=2 timeout=60 reach=done
func vG04Sessions() {
	v := vNewConsumer()
	vAssume(v.max == 10000)
	for i := 0; i < vTier(2, 3); i++ {
		for p := int32(0); p < 2; p++ {
			for n := vPick("posts", vTier(2, 3)); n > 0; n-- {
				v.post(p)
			}
		}
		v.left = []int{-1, 7, 4, 8}[vPick("breaks", vTier(2, 4))]
		if !v.session(false) && vPick("restart", 2) == 1 {
			v.s.vRestart(0)
		}
		v.c.Close()
	}
	v.left = -1
	vAssert(v.session(false), "the consumer does not come to an end")
	vAssert(v.next[0] == int64(len(v.recs[0])) && v.next[1] == int64(len(v.recs[1])), "a posted record is not read")
	vReach("done")
}

// A consumer that waits at the end of a partition for what a producer posts, one record at a time, with
// commits: every record arrives once and in order, on every schedule within the bound.
//verif prop=G04 sched weight=2 timeout=60 reach=done
func vG04Live() {
	v := vNewConsumer()
	vAssume(v.max == 10000)
	c := v.s.dial()
	c.beat("heartbeat")
	n := 2
	var recs []vRec
	for i := 0; i < n; i++ {
		recs = append(recs, vRec{vBytes("key", 1), []byte{byte(i)}, 5})
	}
	vSettle()
	var g vGroup
	vExplore(vTier(1, 3), vTier(2, 3))
	g.Go(func() { v.s.vPostAll("t", 0, recs) })
	at := int64(0)
	for at < int64(n) {
		f := c.fetch1(3000, "t", 0, at, v.max)
		vAssert(len(f.msgs) > 0, "a fetch that waits misses a posted record")
		for _, m := range f.msgs {
			vAssert(at < int64(n), "a record is read twice")
			vIsRec(m, recs[at], at)
			at++
		}
		c.commit1("g", "t", 0, at)
	}
	vAssert(g.Wait(5*vSec), "posting does not end")
	vNoExplore()
	vAssert(c.committed("g", "t", 0) == int64(n), "a commit is lost")
	vAssert(len(c.fetch1(0, "t", 0, int64(n), v.max).msgs) == 0, "a record is read twice")
	vReach("done")
}
