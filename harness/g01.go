package kafkamock

type vMdPart struct {
	err           int16
	part, leader  int32
	replicas, isr []int32
}

type vMdTopic struct {
	err   int16
	topic string
	parts []vMdPart
}

type vMdBroker struct {
	node, port int32
	host       string
}

func (c *vCli) metadata(topics []string) (brokers []vMdBroker, out []vMdTopic) {
	w := new(vW).i32(int32(len(topics)))
	for _, t := range topics {
		w.str(t)
	}
	r := c.call(apiMetadata, w.b, "metadata")
	for n := r.count(); n > 0 && !r.bad; n-- {
		b := vMdBroker{node: r.i32(), host: r.str(), port: r.i32()}
		r.str() // rack
		brokers = append(brokers, b)
	}
	r.i32() // controller
	ints := func() (a []int32) {
		for n := r.count(); n > 0 && !r.bad; n-- {
			a = append(a, r.i32())
		}
		return
	}
	for n := r.count(); n > 0 && !r.bad; n-- {
		t := vMdTopic{err: r.i16(), topic: r.str()}
		r.i8()
		for k := r.count(); k > 0 && !r.bad; k-- {
			t.parts = append(t.parts, vMdPart{err: r.i16(), part: r.i32(), leader: r.i32(), replicas: ints(), isr: ints()})
		}
		out = append(out, t)
	}
	r.end("metadata")
	return
}

// 1..3 different topics out of four (with 0, 1, 2 and 3 partitions, numbers up to 2^31-1 among them) and
// an unknown one, in any order, asked for again after a partition was added; coordinator lookups for arbitrary keys; partitions in any map order.
//verif prop=G01 weight=3 reach=known,unknown,empty
func vG01Metadata() {
	s := vStartSrv()
	parts := map[string][]int32{"a": {0}, "b": {2, 0}, "c": {1, 7, 2147483647}, "e": {}}
	for _, t := range []string{"a", "b", "c"} {
		for _, p := range parts[t] {
			s.km.CreatePartitionTopics([]string{t}, int(p))
		}
	}
	names := []string{"a", "b", "c", "zz"}
	n := 1 + vPick("n", 3)
	var ask []string
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		t := names[vPick("topic", len(names))]
		vAssume(!used[t])
		used[t] = true
		ask = append(ask, t)
	}
	c := s.dial()
	again := vPick("again", 5)
	if again == 4 {
		vMapOrder()
	}
	bs, ts := c.metadata(ask)
	vDescribes(s, bs, ts, ask, parts)
	if 0 < again && again < 4 {
		// a partition comes in between, perhaps of a topic that was unknown
		t := ask[len(ask)-1]
		if again == 3 {
			s.post(t, 5, vRec{nil, []byte{1}, 5})
		} else {
			s.km.CreatePartitionTopics([]string{t}, 5)
		}
		if again == 2 {
			c = s.dial()
		}
		more := map[string][]int32{}
		for _, x := range []string{"a", "b", "c"} {
			more[x] = parts[x]
		}
		more[t] = append(append([]int32{}, parts[t]...), 5)
		bs, ts = c.metadata(ask)
		vDescribes(s, bs, ts, ask, more)
	}
	r := c.call(apiFindCoord, new(vW).str(vStr("key", vPick("keylen", 3))).b, "find coordinator")
	vAssert(r.i16() == 0, "coordinator lookup reports an error")
	node, host, port := r.i32(), r.str(), r.i32()
	r.end("find coordinator")
	vAssert(len(bs) == 1, "metadata lists another number of brokers than one")
	vAssert(node == bs[0].node && vStrEq(host, "localhost") && port == int32(s.port), "the coordinator is not this server's broker")
	vBrokerOk(s, bs, node)
	vReach("empty")
}

// vDescribes compares a metadata answer with the partitions that exist.
func vDescribes(s *vSrv, bs []vMdBroker, ts []vMdTopic, ask []string, parts map[string][]int32) {
	vAssert(len(ts) == len(ask), "metadata does not list every requested topic once")
	for i, t := range ts {
		vAssert(vStrEq(t.topic, ask[i]), "metadata topics are out of order")
		want, ok := parts[ask[i]]
		if !ok {
			vAssert(t.err == 3, "metadata of an unknown topic does not say so")
			vReach("unknown")
			continue
		}
		vAssert(t.err == 0, "metadata of an existing topic reports an error")
		vAssert(len(t.parts) == len(want), "metadata lists another number of partitions than exist")
		for _, p := range want {
			k := 0
			for _, q := range t.parts {
				if q.part == p {
					k++
					vAssert(q.err == 0, "metadata reports an error for an existing partition")
					vBrokerOk(s, bs, q.leader)
				}
			}
			vAssert(k == 1, "metadata does not list each existing partition once")
		}
		vReach("known")
	}
}

func vBrokerOk(s *vSrv, bs []vMdBroker, node int32) {
	for _, b := range bs {
		if b.node == node {
			vAssert(vStrEq(b.host, "localhost") && b.port == int32(s.port), "the broker listed is not this server")
			return
		}
	}
	vAssert(false, "a partition is led by a broker that is not listed")
}

// A mock created for any port from 1024 to 65535: the broker and the coordinator it tells.
//
//verif prop=G01 reach=told
func vG01Port() {
	port := uint(vInt("port", 1024, 65535))
	s := &vSrv{NewKafkaMock(vNewLane(), port), port}
	s.km.Start()
	s.km.CreatePartitionTopics([]string{"t"}, 0)
	c := s.dial()
	bs, ts := c.metadata([]string{"t"})
	vAssert(len(ts) == 1 && len(ts[0].parts) == 1, "metadata does not list exactly the existing partitions")
	vBrokerOk(s, bs, ts[0].parts[0].leader)
	r := c.call(apiFindCoord, new(vW).str("k").b, "find coordinator")
	vAssert(r.i16() == 0, "coordinator lookup reports an error")
	node, host, told := r.i32(), r.str(), r.i32()
	r.end("find coordinator")
	vAssert(vStrEq(host, "localhost") && told == int32(port), "the coordinator is not this server's broker")
	vBrokerOk(s, bs, node)
	vReach("told")
}

// A topic with an arbitrary name (0..2 bytes) and partition number, and a lookup of another.
//verif prop=G01 reach=same,other
func vG01Names() {
	s := vStartSrv()
	t, u := vStr("t", vPick("tlen", 3)), vStr("u", vPick("ulen", 3))
	p := vI32("p")
	s.km.CreatePartitionTopics([]string{t}, int(p))
	c := s.dial()
	bs, ts := c.metadata([]string{u})
	vAssert(len(ts) == 1 && vStrEq(ts[0].topic, u), "metadata does not list the requested topic")
	if vStrEq(t, u) {
		vAssert(ts[0].err == 0 && len(ts[0].parts) == 1 && ts[0].parts[0].part == p && ts[0].parts[0].err == 0, "metadata does not list exactly the existing partitions")
		vBrokerOk(s, bs, ts[0].parts[0].leader)
		vReach("same")
	} else {
		vAssert(ts[0].err == 3, "metadata of an unknown topic does not say so")
		vReach("other")
	}
}
