package kafkamock

import "hash/crc32"

// vSetOk steps through a record set by its own sizes, checking every field a strict reader relies on.
func vSetOk(f vFetched) {
	sum := 0
	for _, m := range f.msgs {
		vAssert(m.magic == 1, "magic byte is not 1")
		vAssert(m.att&7 == 0, "a message claims to be compressed")
		vAssert(m.size == int32(4+len(m.raw)), "the message size does not count exactly the bytes after it")
		vAssert(uint32(m.crc) == crc32.ChecksumIEEE(m.raw), "the CRC is not the standard CRC-32 of the message")
		sum += 16 + len(m.raw)
	}
	vAssert(sum == f.setSize, "the record-set size differs from the messages' bytes")
}

// 0..2 records with keys and values of any shape and arbitrary contents and timestamps, any limit.
//verif prop=D05 weight=3 reach=msg,none
func vD05Set() {
	s := vStartSrv()
	s.km.CreatePartitionTopics([]string{"t"}, 0)
	n := vPick("n", 3)
	for i := 0; i < n; i++ {
		s.post("t", 0, vRec{vSomeBytes("k"), vSomeBytes("v"), vI64("ts") >> 14})
	}
	limit := vInt("limit", 0, 200)
	c := s.dial()
	f := c.fetch1(0, "t", 0, 0, int32(limit))
	vSetOk(f)
	if len(f.msgs) > 0 {
		vReach("msg")
	} else {
		vReach("none")
	}
}

// Records posted with headers, through SimplePost, and with keys or values of 20..4200 bytes; several
// partitions in one response.
//verif prop=D05 weight=2 reach=msg
func vD05Long() {
	s := vStartSrv()
	n := []int{20, 255, 256, 4062, 4096, 4200}[vPick("n", 6)]
	v := make([]byte, n)
	v[0], v[n/2], v[n-1] = vU8("first"), vU8("mid"), vU8("last")
	s.km.ExtendedPost("t", 0, vBytes("k", 2), v, map[string][]byte{"h": vBytes("h", 2)}, vMs(vInt("ts", 0, 1<<50)))
	s.km.SimplePost("t", 1, v, vBytes("v", 1))
	c := s.dial()
	ts := c.fetch(0, []vFetchTopic{{"t", []vFetchPart{{0, 0, 10000}, {1, 0, 10000}}}})
	vAssert(len(ts) == 1 && len(ts[0].parts) == 2, "fetch: not every requested partition is answered")
	for _, f := range ts[0].parts {
		vAssert(len(f.msgs) == 1, "the record is not returned")
		vSetOk(f)
	}
	vReach("msg")
}
