package kafkamock

const vMsNs = int64(1000000)

// vPrompt is how soon an answer must come once it can be given.
const vPrompt = 700 * vMsNs

func vWaitFetch(wait, minBytes int32, offset int64) []byte {
	w := new(vW).i32(-1).i32(wait).i32(minBytes).i32(1).str("t").i32(1).i32(0).i64(offset).i32(100000)
	return vReq(apiFetch, 3, w.b)
}

func vWaited(c *vCli) []vFetchedTopic {
	corr, r := c.frame(120*vSec, "waiting fetch")
	vAssert(corr == 3, "fetch: wrong correlation id")
	ts := vParseFetch(r)
	vAssert(len(ts) == 1 && len(ts[0].parts) == 1, "fetch: the requested partition is not answered exactly once")
	return ts
}

// Any maximum wait of -2^31..400 ms without any record (empty partition, missing partition, or an offset
// past the end), any minimum byte count.
//verif prop=D04 weight=2 reach=waited,atonce
func vD04Expire() {
	s := vStartSrv()
	switch vPick("data", 4) {
	case 0:
		s.km.CreatePartitionTopics([]string{"t"}, 0)
	case 1:
		s.km.CreatePartitionTopics([]string{"t"}, 1)
	case 3:
		s.post("t", 0, vRec{nil, []byte{1}, 5})
	}
	wait := vI32("wait")
	vAssume(wait <= 400)
	c := s.dial()
	t0 := vClockNs()
	c.Send(vWaitFetch(wait, vI32("minBytes"), 1))
	f := vWaited(c)[0].parts[0]
	took := vClockNs() - t0
	vAssert(len(f.msgs) == 0, "a fetch without data returns records")
	vAssert(vOr(wait <= 0, took >= int64(wait)*vMsNs), "a fetch answers empty before its wait time is over")
	vAssert(took <= vIte(wait > 0, int64(wait)*vMsNs, 0)+vPrompt, "a fetch answers much later than its wait time")
	if wait > 0 {
		vReach("waited")
	} else {
		vReach("atonce")
	}
}

// A longer wait of 1.3, 2.5 or 10 seconds without a record.
//verif prop=D04 reach=waited timeout=40
func vD04Long() {
	s := vStartSrv()
	s.km.CreatePartitionTopics([]string{"t"}, 0)
	wait := []int32{1300, 2500, 10000}[vPick("wait", 3)]
	c := s.dial()
	t0 := vClockNs()
	c.Send(vWaitFetch(wait, 1, 0))
	f := vWaited(c)[0].parts[0]
	took := vClockNs() - t0
	vAssert(len(f.msgs) == 0, "a fetch without data returns records")
	vAssert(took >= int64(wait)*vMsNs, "a fetch answers empty before its wait time is over")
	vAssert(took <= int64(wait)*vMsNs+vPrompt, "a fetch answers much later than its wait time")
	vReach("waited")
}

// A record arrives 0..3 s after the fetch, whose wait time is 20 s or more (up to 2^31-1 ms); any minimum
// byte count; the awaited record is the partition's first or second.
//verif prop=D04 weight=2 reach=arrived timeout=40
func vD04Arrive() {
	s := vStartSrv()
	s.km.CreatePartitionTopics([]string{"t"}, 0)
	first := vPick("first", 2)
	if first == 1 {
		s.post("t", 0, vRec{nil, []byte{1}, 5})
	}
	waits := []int32{20000, 60000, 2147483647}
	wait := waits[vPick("wait", len(waits))]
	delay := []int64{0, 1, 19, 20, 21, 150, 1001, 3000}[vPick("delay", 8)] * vMsNs
	c := s.dial()
	c.Send(vWaitFetch(wait, vI32("minBytes"), int64(first)))
	vSettle()
	vSleep(delay)
	vAssert(c.Pending() == 0, "a fetch answers empty before its wait time is over")
	r := vSized("r", 1, 2)
	s.post("t", 0, r)
	t0 := vClockNs()
	f := vWaited(c)[0].parts[0]
	vAssert(len(f.msgs) == 1, "a waiting fetch does not return the record that arrived")
	vIsRec(f.msgs[0], r, int64(first))
	vAssert(vClockNs()-t0 <= vPrompt, "a waiting fetch does not answer promptly when a record arrives")
	vReach("arrived")
}

// Records are there from the start, with any wait time and minimum byte count, in any one of three
// partitions asked for.
//verif prop=D04 reach=present
func vD04Present() {
	s := vStartSrv()
	p := vPick("p", 3)
	s.km.CreatePartitionTopics([]string{"t"}, 1)
	r := vSized("r", 0, 1)
	s.post("t", p, r)
	c := s.dial()
	t0 := vClockNs()
	wait := []int32{1<<31 - 1, -1 << 31, -1, 0, 1, 1000}[vPick("waits", 6)]
	if wait == 0 && vPick("any", 2) == 1 {
		wait = vI32("wait")
	}
	w := new(vW).i32(-1).i32(wait).i32(vI32("minBytes")).i32(2).str("nope").i32(1).i32(0).i64(0).i32(100)
	w.str("t").i32(3).i32(0).i64(0).i32(1000).i32(1).i64(0).i32(1000).i32(2).i64(0).i32(1000)
	ts := vParseFetch(c.call(apiFetch, w.b, "fetch"))
	vAssert(vClockNs()-t0 <= vPrompt, "a fetch with data at hand waits")
	vAssert(len(ts) == 2 && len(ts[1].parts) == 3, "fetch: not every requested partition is answered")
	vAssert(len(ts[1].parts[p].msgs) == 1, "the record at hand is not returned")
	vIsRec(ts[1].parts[p].msgs[0], r, 0)
	vReach("present")
}

// A waiting fetch when the mock is told to finish: empty, at once, however long the wait.
//verif prop=D04 reach=finished timeout=40
func vD04Finish() {
	s := vStartSrv()
	s.km.CreatePartitionTopics([]string{"t"}, 0)
	c := s.dial()
	c.Send(vWaitFetch([]int32{5000, 2147483647}[vPick("wait", 2)], 1, 0))
	vSettle()
	vSleep([]int64{0, 7, 1500}[vPick("delay", 3)] * vMsNs)
	vAssert(c.Pending() == 0, "a fetch answers empty before its wait time is over")
	t0 := vClockNs()
	s.km.FinishRequests()
	f := vWaited(c)[0].parts[0]
	vAssert(len(f.msgs) == 0, "records out of nowhere")
	vAssert(vClockNs()-t0 <= vPrompt, "a waiting fetch does not answer promptly when told to finish")
	vReach("finished")
}
