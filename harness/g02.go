package kafkamock

type vAssign struct {
	topic string
	parts []int32
}

func vSyncBody(group, member string, gen int32) *vW { return new(vW).str(group).i32(gen).str(member) }

// assignment syncs a group and decodes what it is told.
func (c *vCli) assignment() []vAssign {
	return vParseSync(c.call(apiSync, vSyncBody("g", "m", 1).i32(0).b, "sync group"))
}

func vParseSync(r *vR) []vAssign {
	vAssert(r.i16() == 0, "sync group reports an error")
	b := r.byteArr()
	r.end("sync group")
	a := &vR{b: b}
	vAssert(a.i16() >= 0, "assignment version is negative")
	var out []vAssign
	for n := a.count(); n > 0 && !a.bad; n-- {
		x := vAssign{topic: a.str()}
		for k := a.count(); k > 0 && !a.bad; k-- {
			x.parts = append(x.parts, a.i32())
		}
		out = append(out, x)
	}
	a.byteArr() // user data
	a.end("assignment")
	return out
}

// Any subset of three topics, each with 1..3 partitions, in any map order; arbitrary group, member
// and generation; asked twice, with a partition created in between.
//verif prop=G02 weight=3 reach=assigned,nothing
func vG02Assign() { vG02(3) }

// Four topics.
//verif prop=G02 weight=3 tiers=thorough reach=assigned,nothing
func vG02Four() { vG02(4) }

func vG02(n int) {
	s := vStartSrv()
	shapes := []vAssign{{"d", []int32{5}}, {"b", []int32{3, 1}}, {"c", []int32{0, 2147483647, 9}}, {"a", []int32{0}}}[:n]
	var want []vAssign
	for _, x := range shapes {
		if vPick("has", 2) == 1 {
			want = append(want, x)
			for _, p := range x.parts {
				s.km.CreatePartitionTopics([]string{x.topic}, int(p))
			}
		}
	}
	c := s.dial()
	vMapOrder()
	body := vSyncBody(vStr("group", vPick("glen", 2)), vStr("member", 1), vI32("generation")).i32(0).b
	vSameAssign(vParseSync(c.call(apiSync, body, "sync group")), want)
	if vPick("more", 2) == 1 {
		s.post("d", 6, vSized("r", 1, 1))
		if len(want) > 0 && want[0].topic == "d" {
			want[0] = vAssign{"d", []int32{5, 6}}
		} else {
			want = append(want, vAssign{"d", []int32{6}})
		}
		vSameAssign(vParseSync(c.call(apiSync, body, "sync group")), want)
	}
	if len(want) > 0 {
		vReach("assigned")
	} else {
		vReach("nothing")
	}
}

// One topic with an arbitrary name (1..3 bytes) and two arbitrary different partition numbers.
//verif prop=G02 reach=assigned
func vG02Names() {
	s := vStartSrv()
	t, p, q := vStr("t", 1+vPick("len", 3)), vI32("p"), vI32("q")
	vAssume(p != q)
	s.km.CreatePartitionTopics([]string{t}, int(p))
	s.km.CreatePartitionTopics([]string{t}, int(q))
	c := s.dial()
	vSameAssign(c.assignment(), []vAssign{{t, []int32{p, q}}})
	vReach("assigned")
}

func vSameAssign(got, want []vAssign) {
	vAssert(len(got) == len(want), "the assignment does not list each existing topic once")
	for _, w := range want {
		n := 0
		for _, g := range got {
			if vStrEq(g.topic, w.topic) {
				n++
				vAssert(len(g.parts) == len(w.parts), "the assignment does not list each existing partition once")
				for _, p := range w.parts {
					k := int64(0)
					for _, q := range g.parts {
						k += vIte(q == p, 1, 0)
					}
					vAssert(k == 1, "the assignment does not list each existing partition once")
				}
			}
		}
		vAssert(n == 1, "the assignment does not list each existing topic once")
	}
}

// A sync request that carries 1..2 assignments with arbitrary members and contents is not answered.
//verif prop=G02 reach=rejected
func vG02Leader() {
	s := vStartSrv()
	s.km.CreatePartitionTopics([]string{"a"}, 0)
	c := vDialRelay(s.port, 10*vSec)
	vAssert(c != nil, "the server does not accept a connection")
	n := 1 + vPick("n", 2)
	w := vSyncBody("g", "m", vI32("gen")).i32(int32(n))
	for i := 0; i < n; i++ {
		w.str(vStr("member", vPick("mlen", 2)))
		if vPick("null", 2) == 0 {
			w.bytes(vBytes("assignment", vPick("alen", 3)))
		} else {
			w.i32(-1)
		}
	}
	vNoAnswer(c, vReq(apiSync, 9, w.b))
}

// vNoAnswer sends a request that must be rejected deliberately, without any response.
func vNoAnswer(c *vCli, req []byte) {
	vMayReject(true)
	vOnReject(func() { vAssert(c.Pending() == 0, "a request that must be rejected is answered") })
	c.Send(req)
	b := c.Recv(1, 3*vSec)
	vAssert(len(b) == 0, "a request that must be rejected is answered")
}
