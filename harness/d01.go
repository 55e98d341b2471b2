package kafkamock

// vSomeBytes is a byte array of any of several shapes: null, empty, or a few arbitrary bytes.
func vSomeBytes(name string) []byte {
	switch vPick(name+".shape", 4) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return vBytes(name, 1)
	}
	return vBytes(name, 3)
}

// Any offset (symbolic 64-bit, negative and past the end included) into 0..3 records with arbitrary keys,
// values and timestamps; the fetch is repeated to see that nothing is consumed.
//verif prop=D01 weight=3 reach=some,none
func vD01Offset() {
	s := vStartSrv()
	n := vPick("n", 4)
	s.km.CreatePartitionTopics([]string{"t"}, 0)
	var recs []vRec
	for i := 0; i < n; i++ {
		r := vRec{vSomeBytes("k"), vSomeBytes("v"), vInt("ts", 0, 1<<60)}
		recs = append(recs, r)
		s.post("t", 0, r)
	}
	c := s.dial()
	off := vI64("offset")
	for round := 0; round < 2; round++ {
		f := c.fetch1(0, "t", 0, off, 1000000)
		if off < 0 || off >= int64(n) {
			vAssert(len(f.msgs) == 0, "a fetch at an offset without records returns records")
			vReach("none")
			continue
		}
		vAssert(int64(len(f.msgs)) == int64(n)-off, "a fetch does not return all records from the offset on")
		for i, m := range f.msgs {
			vIsRec(m, recs[int(off)+i], off+int64(i))
		}
		vReach("some")
	}
	// the connection still serves
	c.call(apiHeartbeat, new(vW).str("g").i32(0).str("m").b, "heartbeat after fetch")
}

// A caller that builds every record's key and value in the same two buffers, and goes on writing to them
// afterwards, also between fetches.
//verif prop=D01 reach=reused
func vD01Reuse() {
	s := vStartSrv()
	n := 1 + vPick("n", 3)
	key, value := make([]byte, 2), make([]byte, 3)
	if vPick("null", 2) == 1 {
		key = nil
	}
	var recs []vRec
	for i := 0; i < n; i++ {
		k, v := vBytes("k", len(key)), vBytes("v", len(value))
		if key == nil {
			k = nil
		}
		copy(key, k)
		copy(value, v)
		s.post("t", 0, vRec{key, value, 5})
		recs = append(recs, vRec{k, v, 5})
	}
	if len(key) > 0 {
		key[0] = vU8("later")
	}
	value[1] = vU8("later")
	c := s.dial()
	for round := 0; round < 2; round++ {
		f := c.fetch1(0, "t", 0, 0, 1000000)
		vAssert(len(f.msgs) == n, "a fetch does not return all records from the offset on")
		for i, m := range f.msgs {
			vIsRec(m, recs[i], int64(i))
		}
		value[2] ^= 0xff
	}
	vReach("reused")
}

// The high watermark a reader is told, at any offset within the partition and any byte limit: not before the
// records it is given, not beyond the end, and where it is when it has caught up.
//verif prop=D01 reach=behind,end
func vD01Mark() {
	s := vStartSrv()
	n := vPick("n", 4)
	s.km.CreatePartitionTopics([]string{"t"}, 0)
	for i := 0; i < n; i++ {
		s.post("t", 0, vSized("r", 1, 2))
	}
	c := s.dial()
	off := vInt("offset", 0, int64(n))
	f := c.fetch1(0, "t", 0, off, vI32("max"))
	vAssert(f.err == 0, "a fetch within the partition reports an error")
	vAssert(vAnd(f.hwm >= off+int64(len(f.msgs)), f.hwm <= int64(n)), "the high watermark is not between the records returned and the partition's end")
	if off == int64(n) {
		vReach("end")
	} else {
		vReach("behind")
	}
}
