package kafkamock

// Wire format of long values and of fields that differ in their tags only; creators and large requests at
// the same time.

// Byte arrays of 32 kB to 2 MB in every type and field tag that carries them, arrays of up to 70000 elements,
// plain and compact.
//verif prop=C04 reach=huge steps=400000000 timeout=60
func vC04Huge() {
	if vPick("array", 2) == 1 {
		n := []int{255, 256, 8190, 8191, 8192, 32766, 32767, 32768, 40000, 65535, 65536, 70000}[vPick("n", 12)]
		a := make([]int8, n)
		el := make([]byte, n)
		x := vI8("x")
		a[n/2], el[n/2] = x, byte(x)
		switch vPick("kind", 3) {
		case 0:
			vWire(a, vCat(vRefBE(uint64(n), 4), el), "long array")
		case 1:
			vWire(struct {
				X []int8 `kafka:"compact"`
				Y int8
			}{a, 7}, vCat(vRefLen(n), el, []byte{7}), "long compact array")
		case 2:
			type in struct{ V int8 }
			s := make([]in, n)
			s[n/2].V = x
			vWire(struct {
				X []in `kafka:"compact"`
				Y []in
			}{s, s}, vCat(vRefLen(n), el, vRefBE(uint64(n), 4), el), "long arrays of structures")
		}
		vReach("huge")
		return
	}
	n := []int{32766, 32767, 32768, 40000, 65534, 65535, 65536, 70000, 1<<20 - 1, 1 << 20, 1<<21 + 5}[vPick("n", 11)]
	b := vBulk("b", n)
	compact := vCat(vRefLen(n), b)
	plain := vCat(vRefBE(uint64(n), 4), b)
	switch vPick("kind", 9) {
	case 0:
		vWire(b, plain, "long byte slice")
	case 1:
		vWire(NullableBytes(b), plain, "long nullable byte array")
	case 2:
		vWire(CompactBytes(b), compact, "long compact byte array")
	case 3:
		vWire(CompactNullableBytes(b), compact, "long compact nullable byte array")
	case 4:
		vWire(CompactString(b), compact, "long compact string")
	case 5:
		c := CompactString(b)
		vWire(CompactNullableString(&c), compact, "long compact nullable string")
	case 6:
		vWire(struct {
			X []byte `kafka:"compact,nullable"`
			Y []byte
		}{b, b}, vCat(compact, plain), "long byte slice fields")
	case 7:
		s := string(b)
		vWire(struct {
			X string  `kafka:"compact"`
			Y *string `kafka:"compact,nullable"`
		}{s, &s}, vCat(compact, compact), "long string fields")
	case 8:
		vWire(struct {
			X []byte `kafka:"nullable"`
			Y []byte `kafka:"compact"`
		}{b, b}, vCat(plain, compact), "long byte slice fields")
	}
	vReach("huge")
}

func vTagged1(k int) {
	i, l, s, b, a := int32(vI8("i")), int64(vI8("l")), vStr("s", 2), vBytes("b", 2), vI16("a")
	be := func(x uint64, n int) []byte { return vRefBE(x, n) }
	switch k {
	case 0:
		type msg struct {
			I int32
			L int64
			S string
			B []byte
			A []int16
		}
		vWire(msg{i, l, s, b, []int16{a}}, vCat(be(uint64(i), 4), be(uint64(l), 8), be(2, 2), []byte(s), be(2, 4), b, be(1, 4), be(uint64(a), 2)), "plain fields")
	case 1:
		type msg struct {
			I int32   `kafka:"compact"`
			L int64   `kafka:"compact"`
			S string  `kafka:"compact"`
			B []byte  `kafka:"compact"`
			A []int16 `kafka:"compact"`
		}
		vWire(msg{i, l, s, b, []int16{a}}, vCat(vRefZig32(i), vRefZig64(l), vRefLen(2), []byte(s), vRefLen(2), b, vRefLen(1), be(uint64(a), 2)), "compact fields")
	case 2:
		type msg struct {
			I int32  `kafka:"compact"`
			L int64
			S string `kafka:"compact,nullable"`
			B []byte `kafka:"nullable"`
			A []int16
		}
		vWire(msg{i, l, s, b, []int16{a}}, vCat(vRefZig32(i), be(uint64(l), 8), vRefLen(2), []byte(s), be(2, 4), b, be(1, 4), be(uint64(a), 2)), "fields with different tags")
	case 3:
		type msg struct {
			I int32  `json:"compact"`
			L int64  `kafka:"compact" json:"l"`
			S string `kafka:"nullable,compact"`
			B []byte `kafka:"nullable,compact"`
			A []int16
		}
		vWire(msg{i, l, s, b, []int16{a}}, vCat(be(uint64(i), 4), vRefZig64(l), vRefLen(2), []byte(s), vRefLen(2), b, be(1, 4), be(uint64(a), 2)), "fields with different tags")
	}
}

// Structures whose fields have the same names, types and positions and differ in their tags only, written one
// after the other in any order.
//verif prop=C04 reach=tags
func vC04Tags() {
	a := vPick("first", 4)
	b := vPick("second", 4)
	vAssume(a != b)
	vTagged1(a)
	vTagged1(b)
	vReach("tags")
}

// Tagged fields of 4 kB to 128 kB followed by others, several of them, known and unknown.
//verif prop=C07 reach=mid steps=400000000 timeout=60
func vC07Mid() {
	ns := []int{5, 4090, 4091, 4092, 4096, 4097, 8192, 16384, 65536, 131072}
	n, m := ns[vPick("n", len(ns))], ns[vPick("m", 5)]
	s, q := NullableBytes(vBulk("s", n)), CompactBytes(vBulk("q", m))
	x, y := vI32("x"), vI16("y")
	b := vEncTags(map[int]any{7: x, 1: s, 2: y, 3: q, 5: "abc"})
	ws, wq := vCat(vRefBE(uint64(n), 4), s), vCat(vRefLen(m), q)
	want := vCat([]byte{5, 1}, vRefVar(uint64(len(ws))), ws, []byte{2, 2}, vRefBE(uint64(y), 2), []byte{3}, vRefVar(uint64(len(wq))), wq, []byte{5, 5, 0, 3}, []byte("abc"), []byte{7, 4}, vRefBE(uint64(x), 4))
	vAssert(len(b) == len(want) && vBytesEq(b, want), "tagged fields around a large one are written wrongly")
	fields := map[int]*kafkaField{7: {valType: vTypeOf(x)}}
	if vPick("known", 2) == 1 {
		fields[1] = &kafkaField{valType: vTypeOf(s)}
		fields[5] = &kafkaField{valType: vTypeOf("")}
	}
	next, got := peekTags(vReader(b), 0, fields)
	vAssert(next == len(b) && len(got) == 5, "tagged fields around a large one are not consumed exactly")
	z, ok := got[7].(int32)
	vAssert(ok && z == x, "the field after a large one changed")
	vReach("mid")
}

// Creators at the same time: posts to, and creations of, the same or another partition of one new topic or of
// two, on every schedule within the bound, with a client that asks for the topic.
//verif prop=L01 race weight=2 reach=ran timeout=60
func vL01Create() {
	s := vStartSrv()
	s.km.SimplePost("t", 0, nil, []byte{1})
	c := s.dial()
	c.beat("heartbeat")
	do := func(k int, topic string, part int) {
		switch k {
		case 0:
			s.km.SimplePost(topic, part, nil, []byte{1})
		case 1:
			s.km.ExtendedPost(topic, part, nil, []byte{1}, nil, vMs(3))
		case 2:
			s.km.CreatePartitionTopics([]string{topic, topic + "x"}, part)
		}
	}
	k, j := vPick("first", 3), vPick("second", 3)
	part := vPick("part", 2)
	ask := vPick("ask", 5)
	vAssume(k <= j)
	vRaces()
	if ask == 0 {
		vExplore(1, 2)
	}
	for i := vReps(); i > 0; i-- {
		topic := "n" + string(rune('a'+i%26)) + string(rune('a'+i/26))
		var g vGroup
		switch ask {
		case 1:
			c.Send(vReq(apiMetadata, 7, new(vW).i32(1).str(topic).b))
		case 2:
			c.Send(vReq(apiSync, 7, new(vW).str("g").i32(0).str("m").i32(0).b))
		case 3:
			c.Send(vReq(apiCommit, 7, vCommitBody("g", []vCmTopic{{topic, []vCmPart{{0, 3}}}})))
		case 4:
			c.Send(vReq(apiFetch, 7, vFetchBody(0, []vFetchTopic{{topic, []vFetchPart{{0, 0, 1000}}}})))
		}
		g.Go(func() { do(k, topic, 0) })
		g.Go(func() { do(j, topic, part) })
		if ask > 0 {
			c.frame(8*vSec, "a request beside posts")
		}
		vAssert(g.Wait(8*vSec), "a call into the mock does not return")
	}
	vReach("ran")
}

// Clients in the middle of large requests (5 kB to 256 kB, up to half of it sent), and others that send large
// requests of their own in pieces: those are answered promptly.
//verif prop=L09 timeout=60 steps=200000000 reach=done
func vL09Large() {
	s := vStartSrv()
	s.km.CreatePartitionTopics([]string{"t"}, 0)
	big := func(n int) []byte {
		w := new(vW).i32(int32(n/10000 + 1))
		for left := n; left >= 0; left -= 10000 {
			w.str(string(make([]byte, min(left, 10000))))
		}
		return vReq(apiMetadata, 9, w.b)
	}
	sizes := []int{5000, 9000, 20000, 70000, 262144}
	a := big(sizes[vPick("stuck", 5)])
	b := big(sizes[vPick("served", 4)])
	held := 1 + vPick("clients", 2)
	for i := 0; i < held; i++ {
		s.dial().Send(a[:len(a)/2])
	}
	d := s.dial()
	if vPick("settle", 2) == 1 {
		vSettle()
	}
	for i := 0; i < 2; i++ {
		t := vClockNs()
		d.Send(b[:len(b)/2])
		vSettle()
		t0 := vClockNs() - t
		d.Send(b[len(b)/2:])
		t = vClockNs()
		corr, _ := d.frame(3*vSec, "a large request beside one that is not complete")
		vAssert(corr == 9 && vClockNs()-t <= vPrompt && t0 >= 0, "a large request is held up by another client's")
		d.beat("a request after a large one")
	}
	vReach("done")
}
