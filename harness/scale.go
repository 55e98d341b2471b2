package kafkamock

import "time"

// The same guarantees at sizes where thresholds, tables and estimates could show: hundreds of records,
// partitions, topics, groups, requests and clients, and long names. Contents are concrete but for a few.

var vMany = []int{130, 257, 300, 1030, 4200}

// vLong is a string of n bytes that begins with the given tag.
func vLong(tag byte, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte(i%23)
	}
	if n > 0 {
		b[0] = tag
	}
	return string(b)
}

// vNth is the i-th of many records; a few have arbitrary contents.
func vNth(i, n int) vRec {
	if i == n-1 || i == 127 || i == 256 {
		return vRec{vBytes("k", i%2), vBytes("v", 2), vInt("ts", 1<<40, 1<<41)}
	}
	return vRec{[]byte{byte(i)}, []byte{byte(i >> 8), byte(i)}, int64(1000 + i)}
}

func (s *vSrv) postMany(topic string, part, n int) (recs []vRec) {
	for i := 0; i < n; i++ {
		r := vNth(i, n)
		recs = append(recs, r)
		s.post(topic, part, r)
	}
	return
}

// Hundreds of records (130, 257, 300, 1030; 4200 in the thorough tier), fetched from any of several offsets.
//verif prop=D01 weight=2 reach=some,none steps=40000000
func vD01Many() {
	s := vStartSrv()
	n := vMany[vPick("n", vTier(4, 5))]
	recs := s.postMany("t", 0, n)
	c := s.dial()
	off := []int{0, 1, 127, 128, 255, 256, n - 2, n - 1, n, n + 1}[vPick("offset", 10)]
	f := c.fetch1(0, "t", 0, int64(off), 1000000)
	if off >= n {
		vAssert(len(f.msgs) == 0, "a fetch at an offset without records returns records")
		vReach("none")
		return
	}
	vAssert(len(f.msgs) == n-off, "a fetch does not return all records from the offset on")
	for i, m := range f.msgs {
		vIsRec(m, recs[off+i], int64(off+i))
	}
	vReach("some")
}

// A partition of 66000 records: its end, and fetches near the 16-bit boundaries and the end.
//verif prop=D01 reach=read steps=200000000 timeout=40
func vD01Huge() {
	s := vStartSrv()
	const n = 66000
	for i := 0; i < n; i++ {
		s.km.ExtendedPost("t", 0, nil, []byte{byte(i >> 16), byte(i >> 8), byte(i)}, nil, vMs(int64(i)))
	}
	c := s.dial()
	at := []int{32766, 65534, n - 2}[vPick("at", 3)]
	f := c.fetch1(0, "t", 0, int64(at), 37*2)
	vAssert(len(f.msgs) == 2, "a fetch does not return all records from the offset on")
	for i := 0; i < 2; i++ {
		k := at + i
		vIsRec(f.msgs[i], vRec{nil, []byte{byte(k >> 16), byte(k >> 8), byte(k)}, int64(k)}, int64(k))
	}
	o := c.listOffset1("t", 0, -1)
	vAssert(o.err == 0 && o.offset == n, "the end offset is not the number of records")
	o = c.listOffset1("t", 0, int64(at))
	vAssert(o.err == 0 && o.offset == int64(at), "the offset for a time is not that of the first record not before it")
	vReach("read")
}

// A reader that goes through 300 records in fetches of a limited size, posts coming in on the way.
//verif prop=D01 reach=read steps=40000000
func vD01Through() {
	s := vStartSrv()
	recs := s.postMany("t", 0, 200)
	c := s.dial()
	limit := []int32{37, 1000, 4096}[vPick("limit", 3)]
	at := 0
	for steps := 0; at < len(recs); steps++ {
		vAssert(steps < 400, "a reader does not get through the records")
		f := c.fetch1(0, "t", 0, int64(at), limit)
		vAssert(len(f.msgs) > 0, "a fetch of existing records that fit returns none")
		for _, m := range f.msgs {
			vAssert(at < len(recs), "more records than were posted")
			vIsRec(m, recs[at], int64(at))
			at++
		}
		if len(recs) < 300 && steps%2 == 0 {
			r := vNth(len(recs), 300)
			recs = append(recs, r)
			s.post("t", 0, r)
		}
	}
	vReach("read")
}

// Hundreds of records under a limit that takes in any number of them: 1, 100, 128, 255..258, all but one
// or all, with up to 36 bytes to spare.
//verif prop=D02 reach=cut,all steps=40000000
func vD02Many() {
	s := vStartSrv()
	n := vMany[vPick("n", vTier(4, 5))]
	var recs []vRec
	for i := 0; i < n; i++ {
		r := vRec{[]byte{byte(i)}, []byte{byte(i >> 8), byte(i)}, int64(1000 + i)}
		recs = append(recs, r)
		s.post("t", 0, r)
	}
	k := []int{1, 100, 128, 255, 256, 257, 258, n - 1, n}[vPick("fit", 9)]
	limit := int32(37*k) + int32(vInt("spare", 0, 36))
	c := s.dial()
	f := c.fetch1(0, "t", 0, 0, limit)
	vFits(f, recs, 0, int64(limit))
}

// A fetch over 40 topics with 6 partitions each, a third of them missing or empty.
//verif prop=D03 reach=answered steps=40000000
func vD03Wide() {
	s := vStartSrv()
	var ask []vFetchTopic
	x := vBytes("value", 1)
	miss := vPick("missing", 3)
	for t := 0; t < 40; t++ {
		name := "topic" + string(rune('A'+t/10)) + string(rune('a'+t%10))
		ft := vFetchTopic{topic: name}
		for p := 0; p < 6; p++ {
			if (t+p)%3 != miss {
				s.post(name, p, vRec{nil, []byte{byte(t), byte(p)}, int64(t)})
				s.post(name, p, vRec{x, []byte{byte(p), byte(t)}, int64(p)})
			} else if p%2 == 0 && t%4 != 0 {
				s.km.CreatePartitionTopics([]string{name}, p)
			}
			ft.parts = append(ft.parts, vFetchPart{int32(p), int64(p % 2), 100000})
		}
		ask = append(ask, ft)
	}
	c := s.dial()
	ts := c.fetch(0, ask)
	vAssert(len(ts) == 40, "fetch: not every requested topic is answered")
	for t := range ts {
		vAssert(vStrEq(ts[t].topic, ask[t].topic) && len(ts[t].parts) == 6, "fetch: not every requested partition is answered in order")
		for p, f := range ts[t].parts {
			vAssert(f.part == int32(p), "fetch: not every requested partition is answered in order")
			if (t+p)%3 == miss {
				vAssert(len(f.msgs) == 0, "fetch: records under a partition that has none")
				continue
			}
			vAssert(len(f.msgs) == 2-p%2, "fetch: a partition is answered without its own records")
			vIsRec(f.msgs[len(f.msgs)-1], vRec{x, []byte{byte(p), byte(t)}, int64(p)}, 1)
			if p%2 == 0 {
				vIsRec(f.msgs[0], vRec{nil, []byte{byte(t), byte(p)}, int64(t)}, 0)
			}
		}
	}
	vReach("answered")
}

// Waits of 65 seconds, ten minutes and an hour without a record, and a record that arrives after as long.
//verif prop=D04 reach=waited,arrived timeout=100 steps=60000000 novalidate
func vD04Minutes() {
	s := vStartSrv()
	s.km.CreatePartitionTopics([]string{"t"}, 0)
	waits := []int32{65000, 600000, 3600000}
	wait := waits[vPick("wait", vTier(2, 3))]
	if !vSymbolic() {
		wait = waits[0]
	}
	c := s.dial()
	t0 := vClockNs()
	if vPick("arrives", 2) == 0 {
		c.Send(vWaitFetch(wait, 1, 0))
		corr, r := c.frame(int64(wait)*vMsNs+10*vSec, "waiting fetch")
		vAssert(corr == 3, "fetch: wrong correlation id")
		took := vClockNs() - t0
		vAssert(len(vParseFetch(r)[0].parts[0].msgs) == 0, "a fetch without data returns records")
		vAssert(took >= int64(wait)*vMsNs, "a fetch answers empty before its wait time is over")
		vAssert(took <= int64(wait)*vMsNs+vPrompt, "a fetch answers much later than its wait time")
		vReach("waited")
		return
	}
	c.Send(vWaitFetch(wait+50000, 1, 0))
	vSettle()
	vSleep(int64(wait) * vMsNs)
	vAssert(c.Pending() == 0, "a fetch answers empty before its wait time is over")
	r := vSized("r", 1, 2)
	s.post("t", 0, r)
	t0 = vClockNs()
	f := vWaited(c)[0].parts[0]
	vAssert(len(f.msgs) == 1, "a waiting fetch does not return the record that arrived")
	vIsRec(f.msgs[0], r, 0)
	vAssert(vClockNs()-t0 <= vPrompt, "a waiting fetch does not answer promptly when a record arrives")
	vReach("arrived")
}

// A fetch that waits for records of 30 or 400 partitions of 10 topics; one of them gets one.
//verif prop=D04 reach=arrived steps=100000000
func vD04Wide() {
	s := vStartSrv()
	var ask []vFetchTopic
	per := []int{3, 40}[vPick("partitions", 2)]
	for t := 0; t < 10; t++ {
		name := "t" + string(rune('a'+t))
		ft := vFetchTopic{topic: name}
		for p := 0; p < per; p++ {
			s.km.CreatePartitionTopics([]string{name}, p)
			ft.parts = append(ft.parts, vFetchPart{int32(p), 0, 100000})
		}
		ask = append(ask, ft)
	}
	k := []int{0, 1, 3*per - 2, 7 * per, 10*per - 1}[vPick("which", 5)]
	c := s.dial()
	c.Send(vReq(apiFetch, 3, vFetchBody(20000, ask)))
	vSettle()
	vSleep([]int64{0, 800}[vPick("delay", 2)] * vMsNs)
	vAssert(c.Pending() == 0, "a fetch answers empty before its wait time is over")
	r := vSized("r", 1, 2)
	s.post(ask[k/per].topic, k%per, r)
	t0 := vClockNs()
	corr, b := c.frame(5*vSec, "waiting fetch")
	vAssert(corr == 3 && vClockNs()-t0 <= vPrompt, "a waiting fetch does not answer promptly when a record arrives")
	n := 0
	for i, t := range vParseFetch(b) {
		for j, p := range t.parts {
			if per*i+j == k {
				vAssert(len(p.msgs) == 1, "a waiting fetch does not return the record that arrived")
				vIsRec(p.msgs[0], r, 0)
			}
			n += len(p.msgs)
		}
	}
	vAssert(n == 1, "records out of nowhere")
	vReach("arrived")
}

// The message sets of hundreds of records.
//verif prop=D05 reach=msg steps=40000000
func vD05Many() {
	s := vStartSrv()
	n := vMany[vPick("n", vTier(4, 5))]
	s.postMany("t", 0, n)
	c := s.dial()
	f := c.fetch1(0, "t", 0, 0, 1<<30)
	vAssert(len(f.msgs) == n, "a fetch does not return all records")
	vSetOk(f)
	vReach("msg")
}

// Hundreds of posts to one partition, hundreds of partitions of a topic, hundreds of topics, with a topic of
// a long name among them.
//verif prop=D06 reach=checked steps=40000000
func vD06Many() {
	s := vStartSrv()
	n := vMany[vPick("n", vTier(4, 5))]
	recs := s.postMany("one", 0, n)
	long := vLong('x', []int{128, 300, 5000, 32000}[vPick("len", 4)])
	for i := 0; i < n; i++ {
		s.km.SimplePost("parts", i, nil, []byte{byte(i), byte(i >> 8)})
		s.km.SimplePost("t"+string(rune('A'+i/100))+string(rune('A'+i/10%10))+string(rune('A'+i%10)), 0, []byte{byte(i)}, []byte{byte(i >> 8)})
		if i%50 == 0 {
			s.km.SimplePost(long, 0, nil, []byte{byte(i)})
			s.km.SimplePost(long+"2", 0, nil, nil)
		}
	}
	c := s.dial()
	c.vAllRecs(vTP{"one", 0}, recs)
	for i := 0; i < n; i++ {
		if n > 300 && i%9 != 0 {
			continue
		}
		f := c.fetch1(0, "parts", int32(i), 0, 1000)
		vAssert(len(f.msgs) == 1 && vBytesEq(f.msgs[0].value, []byte{byte(i), byte(i >> 8)}), "one of many partitions holds other records than were posted to it")
		f = c.fetch1(0, "t"+string(rune('A'+i/100))+string(rune('A'+i/10%10))+string(rune('A'+i%10)), 0, 0, 1000)
		vAssert(len(f.msgs) == 1 && vBytesEq(f.msgs[0].key, []byte{byte(i)}) && vBytesEq(f.msgs[0].value, []byte{byte(i >> 8)}), "one of many topics holds other records than were posted to it")
	}
	f := c.fetch1(0, long, 0, 0, 100000)
	vAssert(len(f.msgs) == (n+49)/50, "a topic with a long name holds other records than were posted to it")
	for i, m := range f.msgs {
		vAssert(vBytesEq(m.value, []byte{byte(50 * i)}), "a topic with a long name holds other records than were posted to it")
	}
	vReach("checked")
}

// SimplePost stamps a record with the time of posting.
//verif prop=D06 reach=stamped steps=40000000
func vD06Stamp() {
	s := vStartSrv()
	c := s.dial()
	for i := 0; i < 3; i++ {
		vSleep([]int64{0, 5, 1234}[vPick("pause", 3)] * vMsNs)
		lo := time.Now().UnixMilli()
		s.km.SimplePost("t", 0, nil, []byte{byte(i)})
		hi := time.Now().UnixMilli()
		f := c.fetch1(0, "t", 0, int64(i), 1000)
		vAssert(len(f.msgs) == 1, "a record is not returned right after it was posted")
		vAssert(lo <= f.msgs[0].ts && f.msgs[0].ts <= hi, "a record posted without a timestamp does not carry the time of posting")
	}
	vReach("stamped")
}

// Hundreds of records with increasing timestamps (every fifth equal to the one before) and any time near some
// of them.
//verif prop=D07 reach=found,none steps=40000000
func vD07Hundreds() {
	s := vStartSrv()
	n := vMany[vPick("n", vTier(4, 5))]
	ts := func(i int) int64 { return 5000 + 10*int64(i-i/5%2) }
	for i := 0; i < n; i++ {
		s.post("t", 0, vRec{nil, []byte{byte(i)}, ts(i)})
	}
	k := []int{0, 1, 5, 100, 127, 128, 129, 255, 256, 257, n - 1}[vPick("near", 11)]
	ask := ts(k) + vInt("delta", -11, 11)
	c := s.dial()
	o := c.listOffset1("t", 0, ask)
	want := 0
	for want < n && ts(want) < ask {
		want++
	}
	vAssert(o.err == 0 && o.offset == int64(want), "the offset for a time is not that of the first record not before it")
	if want < n {
		vAssert(o.ts == ts(want), "the timestamp for a time is not that of the first record not before it")
		vReach("found")
	} else {
		vReach("none")
	}
	vAssert(c.listOffset1("t", 0, -1).offset == int64(n) && c.listOffset1("t", 0, -2).offset == 0, "the latest or earliest offset is wrong")
}

// Hundreds of commits for a partition, hundreds of groups, and a commit for hundreds of partitions and tens of
// topics at once; groups with long names.
//verif prop=D08 reach=checked steps=40000000
func vD08Many() {
	s := vStartSrv()
	n := vMany[vPick("n", vTier(3, 4))]
	s.km.CreatePartitionTopics([]string{"t"}, 0)
	c := s.dial()
	long := vLong('g', []int{128, 300, 5000}[vPick("len", 3)])
	for i := 0; i < n; i++ {
		c.commit1("one", "t", 0, int64(i))
		c.commit1("g"+string(rune('A'+i/26))+string(rune('A'+i%26)), "t", 0, int64(1000-i))
	}
	x := vI64("offset")
	c.commit1("one", "t", 0, x)
	c.commit1(long, "t", 0, x)
	vAssert(c.committed("one", "t", 0) == vIte(x > int64(n-1), x, int64(n-1)), "the committed offset is not the highest committed since last set")
	vAssert(c.committed(long, "t", 0) == vIte(x > 0, x, 0) && c.committed(long+"2", "t", 0) == 0, "the committed offset of a group with a long name is wrong")
	for i := 0; i < n; i++ {
		vAssert(c.committed("g"+string(rune('A'+i/26))+string(rune('A'+i%26)), "t", 0) == vIte(1000-int64(i) > 0, 1000-int64(i), 0), "one of many groups has another committed offset")
	}
	vReach("checked")
}

// A commit for 40 topics with 8 partitions each (some of which do not exist), and an offset fetch for all.
//verif prop=D08 reach=checked steps=40000000
func vD08Wide() {
	s := vStartSrv()
	var ts []vCmTopic
	var ask []vOfTopic
	x := vInt("base", 1, 1<<40)
	for t := 0; t < 40; t++ {
		name := "topic" + string(rune('A'+t/10)) + string(rune('a'+t%10))
		a, b := vCmTopic{topic: name}, vOfTopic{topic: name}
		for p := int32(0); p < 8; p++ {
			s.km.CreatePartitionTopics([]string{name}, int(p))
			a.parts = append(a.parts, vCmPart{p, x + int64(t*8) + int64(p)})
			b.parts = append(b.parts, p)
		}
		ts, ask = append(ts, a), append(ask, b)
	}
	c := s.dial()
	o := c.commit("g", ts)
	vAssert(len(o) == 40, "offset commit does not list what was committed")
	for t := range o {
		vAssert(vStrEq(o[t].topic, ts[t].topic) && len(o[t].parts) == 8, "offset commit does not list what was committed")
		for p := range o[t].parts {
			vAssert(o[t].parts[p].part == int32(p) && o[t].parts[p].err == 0, "offset commit does not list what was committed")
		}
	}
	n := 0
	for _, t := range c.offsetFetch("g", ask) {
		for k := range ask {
			if ask[k].topic == t.topic {
				for _, p := range t.parts {
					vAssert(p.err == 0 && p.offset == x+int64(k*8)+int64(p.part), "a committed offset is wrong in a fetch for many partitions")
					n++
				}
			}
		}
	}
	vAssert(n == 320, "offset fetch does not list each requested partition once")
	vReach("checked")
}

// Hundreds of groups and partitions whose offsets are set directly.
//verif prop=D09 reach=set steps=40000000
func vD09Many() {
	s := vStartSrv()
	n := vMany[vPick("n", vTier(3, 4))]
	x := vI64("offset")
	long := vLong('g', []int{128, 300, 5000}[vPick("len", 3)])
	for i := 0; i < n; i++ {
		s.km.CreatePartitionTopics([]string{"t"}, i)
		s.km.SetConsumerGroupOffset("t", i, "g", int64(i)+5)
		s.km.SetConsumerGroupOffset("t", 0, "g"+string(rune('A'+i/26))+string(rune('A'+i%26)), int64(i))
	}
	s.km.SetConsumerGroupOffset("t", 7, "g", x)
	s.km.SetConsumerGroupOffset("t", 7, long, x)
	s.km.SetConsumerGroupOffset(long, 7, "g", x)
	c := s.dial()
	for i := 0; i < n; i++ {
		if i != 7 {
			vAssert(c.committed("g", "t", int32(i)) == int64(i)+5, "a setting for another partition is seen")
		}
		vAssert(c.committed("g"+string(rune('A'+i/26))+string(rune('A'+i%26)), "t", 0) == int64(i), "a setting for another group is seen")
	}
	vAssert(c.committed("g", "t", 7) == x && c.committed(long, "t", 7) == x, "a directly set offset is not returned exactly")
	vReach("set")
}

// ListOffsets and OffsetCommit over 40 topics with 4 partitions each, in any mix of known and unknown.
//verif prop=D10 reach=checked steps=40000000
func vD10Wide() {
	s := vStartSrv()
	var lo []vLoTopic
	var cm []vCmTopic
	m := 2 + vPick("every", 3)
	known := func(t, p int) bool { return (t+p)%m != 0 && t%7 != 3 }
	for t := 0; t < 40; t++ {
		name := "topic" + string(rune('A'+t/10)) + string(rune('a'+t%10))
		a, b := vLoTopic{topic: name}, vCmTopic{topic: name}
		for p := 0; p < 4; p++ {
			if known(t, p) {
				s.km.CreatePartitionTopics([]string{name}, p)
			}
			a.parts = append(a.parts, vLoPart{int32(p), -1})
			b.parts = append(b.parts, vCmPart{int32(p), 5})
		}
		lo, cm = append(lo, a), append(cm, b)
	}
	c := s.dial()
	x, y := c.listOffsets(lo), c.commit("g", cm)
	vAssert(len(x) == 40 && len(y) == 40, "not every requested topic is answered")
	for t := range x {
		vAssert(vStrEq(x[t].topic, lo[t].topic) && vStrEq(y[t].topic, lo[t].topic) && len(x[t].parts) == 4 && len(y[t].parts) == 4, "entries are missing or out of order")
		for p := 0; p < 4; p++ {
			want := int16(3)
			if known(t, p) {
				want = 0
			}
			vAssert(x[t].parts[p].part == int32(p) && y[t].parts[p].part == int32(p), "entries are missing or out of order")
			vAssert(x[t].parts[p].err == want && y[t].parts[p].err == want, "unknown partitions are not those that are reported as unknown")
		}
	}
	vReach("checked")
}

// Metadata of 60 topics and of a topic with hundreds of partitions; topics and coordinator keys with long
// names.
//verif prop=G01 reach=checked steps=40000000
func vG01Many() {
	s := vStartSrv()
	n := vMany[vPick("n", vTier(4, 5))]
	long := vLong('x', []int{128, 300, 5000, 32000}[vPick("len", 4)])
	ask := []string{"many", long, "nope" + long}
	s.km.CreatePartitionTopics([]string{long}, 3)
	for i := 0; i < n; i++ {
		s.km.CreatePartitionTopics([]string{"many"}, i)
	}
	for t := 0; t < 60; t++ {
		name := "topic" + string(rune('A'+t/10)) + string(rune('a'+t%10))
		if t%3 != 0 {
			s.km.CreatePartitionTopics([]string{name}, t)
		}
		ask = append(ask, name)
	}
	c := s.dial()
	bs, ts := c.metadata(ask)
	vAssert(len(ts) == len(ask), "metadata does not list every requested topic once")
	for i, t := range ts {
		vAssert(vStrEq(t.topic, ask[i]), "metadata topics are out of order")
		switch {
		case i == 0:
			vAssert(t.err == 0 && len(t.parts) == n, "metadata lists another number of partitions than exist")
			seen := map[int32]bool{}
			for _, p := range t.parts {
				vAssert(p.err == 0 && p.part >= 0 && int(p.part) < n && !seen[p.part], "metadata does not list each existing partition once")
				seen[p.part] = true
				vBrokerOk(s, bs, p.leader)
			}
		case i == 2 || i > 2 && (i-3)%3 == 0:
			vAssert(t.err == 3, "metadata of an unknown topic does not say so")
		default:
			want := int32(3)
			if i > 2 {
				want = int32(i - 3)
			}
			vAssert(t.err == 0 && len(t.parts) == 1 && t.parts[0].part == want && t.parts[0].err == 0, "metadata does not list exactly the existing partitions")
			vBrokerOk(s, bs, t.parts[0].leader)
		}
	}
	r := c.call(apiFindCoord, new(vW).str(long).b, "find coordinator")
	vAssert(r.i16() == 0 && r.i32() == bs[0].node && vStrEq(r.str(), "localhost") && r.i32() == int32(s.port), "the coordinator is not this server's broker")
	r.end("find coordinator")
	vReach("checked")
}

// Assignments of hundreds of partitions and tens of topics, one with a long name; hundreds of joins and syncs.
//verif prop=G02 reach=assigned steps=40000000
func vG02Many() {
	s := vStartSrv()
	n := vMany[vPick("n", vTier(4, 5))]
	long := vLong('x', []int{128, 300, 5000, 32000}[vPick("len", 4)])
	s.km.CreatePartitionTopics([]string{long}, 3)
	want := map[string]int{"many": n, long: 1}
	for i := 0; i < n; i++ {
		s.km.CreatePartitionTopics([]string{"many"}, i)
	}
	for t := 0; t < 40; t++ {
		name := "topic" + string(rune('A'+t/10)) + string(rune('a'+t%10))
		for p := 0; p <= t%4; p++ {
			s.km.CreatePartitionTopics([]string{name}, p)
		}
		want[name] = t%4 + 1
	}
	c := s.dial()
	as := vParseSync(c.call(apiSync, vSyncBody(long, long, 1).i32(0).b, "sync group"))
	vAssert(len(as) == len(want), "the assignment does not list each existing topic once")
	for _, a := range as {
		k, ok := want[a.topic]
		vAssert(ok && len(a.parts) == k, "the assignment does not list each existing topic and partition once")
		delete(want, a.topic)
		seen := map[int32]bool{}
		for _, p := range a.parts {
			vAssert(!seen[p] && (a.topic == long && p == 3 || a.topic != long && p >= 0 && int(p) < k), "the assignment does not list each existing partition once")
			seen[p] = true
		}
	}
	vReach("assigned")
}

// Hundreds of requests on a connection, one at a time or pipelined, with long client ids and null ones.
//verif prop=P02 reach=answered weight=2 steps=40000000
func vP02Many() {
	s := vP02Setup()
	c := s.dial()
	client := vLong('c', []int{0, 300, 5000, 32000}[vPick("len", 4)])
	n := vTier(150, 400)
	together := vPick("together", 2) == 1
	x := vI32("corr")
	var all []byte
	for i := 0; i < n; i++ {
		corr := int32(i * 77777777)
		if i == n-1 {
			corr = x
		}
		w := new(vW).i16(apiHeartbeat).i16(0).i32(corr)
		if i%3 == 0 {
			w.nstr()
		} else if i%16 == 1 {
			w.str(client)
		} else {
			w.str("me")
		}
		w.str("g").i32(1).str("m")
		m := new(vW).i32(int32(len(w.b))).raw(w.b).b
		if together {
			all = append(all, m...)
			continue
		}
		c.Send(m)
		got, r := c.frame(10*vSec, "one of many requests")
		vAssert(got == corr, "wrong correlation id")
		vErr0(r, "heartbeat")
	}
	if together {
		c.Send(all)
		for i := 0; i < n; i++ {
			corr := int32(i * 77777777)
			if i == n-1 {
				corr = x
			}
			got, r := c.frame(10*vSec, "one of many requests")
			vAssert(got == corr, "wrong correlation id, or out of order")
			vErr0(r, "heartbeat")
		}
	}
	vAssert(c.Pending() == 0, "more than one response to a request")
	vReach("answered")
}

// Stopping with 20 clients in all states.
//verif prop=L03 reach=done timeout=40 steps=40000000
func vL03Many() {
	s := vStartSrv()
	s.km.SimplePost("t", 0, nil, []byte{1})
	var open []*vCli
	for i := 0; i < 20; i++ {
		if c, is := s.vMode(i % vModes); is {
			open = append(open, c)
		}
	}
	vSettle()
	s.vStopSomehow(vPick("how", 5))
	s.vStopped(open...)
	vReach("done")
}

// Six restarts, fifty records, ten topics, tens of groups.
//verif prop=L04 reach=done timeout=60 steps=40000000
func vL04Many() {
	s := vStartSrv()
	recs := s.postMany("t", 0, 50)
	for i := 0; i < 10; i++ {
		s.post("topic"+string(rune('a'+i)), i, vRec{nil, []byte{byte(i)}, int64(i)})
	}
	x := vI64("set")
	for round := 0; round < 6; round++ {
		for i := 0; i < 10; i++ {
			s.km.SetConsumerGroupOffset("t", 0, "g"+string(rune('a'+i))+string(rune('a'+round)), x+int64(round+i))
		}
		for k := 0; k < 3; k++ {
			s.vMode((round + k) % vModes)
		}
		s.vRestart(vPick("how", vTier(2, 3)))
		r := vNth(len(recs), 56)
		recs = append(recs, r)
		s.post("t", 0, r)
	}
	c := s.dial()
	c.vAllRecs(vTP{"t", 0}, recs)
	for i := 0; i < 10; i++ {
		c.vAllRecs(vTP{"topic" + string(rune('a'+i)), i}, []vRec{{nil, []byte{byte(i)}, int64(i)}})
		for round := 0; round < 6; round++ {
			vAssert(c.committed("g"+string(rune('a'+i))+string(rune('a'+round)), "t", 0) == x+int64(round+i), "a committed offset differs from the one before the restart")
		}
	}
	vAssert(len(c.assignment()) == 11, "the topics and partitions differ from those created")
	vReach("done")
}

// Tens of clients (24; 60 in the thorough tier) of which most leave, in one of several orders, before the others
// are looked at.
//verif prop=L05 reach=done timeout=60 steps=40000000
func vL05Many() {
	s := vStartSrv()
	s.km.SimplePost("t", 0, nil, []byte{1})
	n := vTier(24, 60)
	var cs []*vCli
	gone := make([]bool, n+8)
	for i := 0; i < n; i++ {
		c := s.dial()
		c.beat("heartbeat")
		cs = append(cs, c)
	}
	order := vPick("order", 4)
	way := vPick("way", 3)
	for k := 0; k < n; k++ {
		i := k
		switch order {
		case 1:
			i = n - 1 - k
		case 2:
			i = k * 7 % n
		case 3:
			i = (k + n/2) % n
		}
		if i%5 != 2 {
			cs[i].vLeave(way)
			gone[i] = true
		}
		if k%6 == 5 && len(cs) < n+4 {
			c := s.dial()
			c.beat("a client that connects later")
			cs = append(cs, c)
		}
	}
	s.vOthers(cs, gone)
	vReach("done")
}

// Ten clients whose fetches wait when finish comes, for different partitions; half of them have data.
//verif prop=L06 reach=done steps=40000000
func vL06Many() {
	s := vStartSrv()
	var cs []*vCli
	for i := 0; i < 10; i++ {
		s.km.CreatePartitionTopics([]string{"t"}, i)
		c := s.dial()
		c.Send(vReq(apiFetch, int32(i), vFetchBody(600000, []vFetchTopic{{"t", []vFetchPart{{int32(i), 0, 1000}}}})))
		cs = append(cs, c)
	}
	vSleep(vInt("pause", 0, 1)*vSec + 50*vMsNs)
	r := vSized("r", 1, 1)
	for i := 0; i < 10; i += 2 {
		s.post("t", i, r)
	}
	s.km.FinishRequests()
	for i, c := range cs {
		corr, b := c.frame(2*vSec, "waiting fetch after finish")
		vAssert(corr == int32(i), "another request is answered")
		f := vParseFetch(b)
		vAssert(len(f) == 1 && len(f[0].parts) == 1 && len(f[0].parts[0].msgs) == 1-i%2, "a waiting fetch is not answered with what was posted before finish")
		if i%2 == 0 {
			vIsRec(f[0].parts[0].msgs[0], r, 0)
		}
		c.vFinished()
	}
	vReach("done")
}
