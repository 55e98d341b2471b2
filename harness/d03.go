package kafkamock

// A fetch over 1..2 topic entries with 0..2 partitions each, in any order: existing partitions with
// different records, an existing topic's missing partition, an unknown topic; each entry with its own
// offset and limit.
//verif prop=D03 weight=3 reach=data,empty,unknown
func vD03Layout() { vD03(2, 2) }

// As above with up to three topic entries and three partitions each.
//verif prop=D03 tiers=thorough weight=3 reach=data,empty,unknown
func vD03Deep() { vD03(3, 3) }

func vD03(maxTopics, maxParts int) {
	s := vStartSrv()
	names := []string{"a", "b", "zz"}
	data := map[string][]vRec{}
	id := func(t string, p int32) string { return t + string(rune('0'+p)) }
	put := func(t string, p int, n int) {
		for i := 0; i < n; i++ {
			r := vSized("r", 1, i)
			data[id(t, int32(p))] = append(data[id(t, int32(p))], r)
			s.post(t, p, r)
		}
	}
	put("a", 0, 2)
	put("b", 1, 1)
	put("a", 1, 3)
	put("b", 0, 2)
	s.km.CreatePartitionTopics([]string{"b"}, 2)

	var req []vFetchTopic
	used := map[string]bool{}
	for i, n := 0, 1+vPick("topics", maxTopics); i < n; i++ {
		t := vFetchTopic{topic: names[vPick("topic", 3)]}
		for k, m := 0, vPick("parts", maxParts+1); k < m; k++ {
			p := int32(vPick("part", 3))
			key := id(t.topic, p)
			vAssume(!used[key])
			used[key] = true
			var off int64
			max := int32(1000000)
			switch vPick("entry", 3) {
			case 1:
				off = 1
			case 2:
				max = 40
			}
			t.parts = append(t.parts, vFetchPart{p, off, max})
		}
		req = append(req, t)
	}
	c := s.dial()
	ts := c.fetch(0, req)
	vAssert(len(ts) == len(req), "fetch: another number of topics is answered than was requested")
	for i, t := range req {
		vAssert(vStrEq(ts[i].topic, t.topic), "fetch: topics are not answered in request order")
		vAssert(len(ts[i].parts) == len(t.parts), "fetch: another number of partitions is answered than was requested")
		for k, p := range t.parts {
			f := ts[i].parts[k]
			vAssert(f.part == p.part, "fetch: partitions are not answered in request order")
			recs, ok := data[id(t.topic, p.part)]
			if !ok {
				vAssert(len(f.msgs) == 0, "fetch: records for a partition that has none")
				vReach("unknown")
				continue
			}
			want := len(recs) - int(p.offset)
			if want < 0 {
				want = 0
			}
			if p.max == 40 && want > 1 {
				want = 1
			}
			vAssert(len(f.msgs) == want, "fetch: a partition's records are missing, too many, or another partition's")
			for j, m := range f.msgs {
				vIsRec(m, recs[int(p.offset)+j], p.offset+int64(j))
			}
			if want > 0 {
				vReach("data")
			} else {
				vReach("empty")
			}
		}
	}
}

// Two clients fetch different partitions at overlapping times, one of them waiting: each gets its own.
//verif prop=D03 reach=both
func vD03TwoClients() {
	s := vStartSrv()
	s.km.CreatePartitionTopics([]string{"a", "b"}, 0)
	s.km.CreatePartitionTopics([]string{"a", "b"}, 1)
	c, d := s.dial(), s.dial()
	body := func(t string, p int32) []byte {
		return vFetchBody(10000, []vFetchTopic{{t, []vFetchPart{{p, 0, 100000}}}})
	}
	p := int32(vPick("p", 2))
	c.Send(vReq(apiFetch, 5, body("a", p)))
	d.Send(vReq(apiFetch, 6, body("b", 1)))
	ra, rb := vSized("ra", 1, 2), vSized("rb", 2, 1)
	if vPick("order", 2) == 0 {
		s.post("a", int(p), ra)
		s.post("b", 1, rb)
	} else {
		s.post("b", 1, rb)
		s.post("a", int(p), ra)
	}
	corr, r := c.frame(30*vSec, "fetch")
	vAssert(corr == 5, "fetch: wrong correlation id")
	fa := vParseFetch(r)
	corr, r = d.frame(30*vSec, "fetch")
	vAssert(corr == 6, "fetch: wrong correlation id")
	fb := vParseFetch(r)
	vAssert(len(fa) == 1 && len(fa[0].parts) == 1 && fa[0].parts[0].part == p && len(fa[0].parts[0].msgs) == 1, "fetch: wrong layout")
	vAssert(len(fb) == 1 && len(fb[0].parts) == 1 && fb[0].parts[0].part == 1 && len(fb[0].parts[0].msgs) == 1, "fetch: wrong layout")
	vIsRec(fa[0].parts[0].msgs[0], ra, 0)
	vIsRec(fb[0].parts[0].msgs[0], rb, 0)
	vReach("both")
}
