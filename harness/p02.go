package kafkamock

// vAnyReq is a valid request of API number k (0..10) and a check of its response's body.
func vAnyReq(k int) (api int16, body []byte, check func(r *vR)) {
	api = vApis[k]
	switch api {
	case apiFetch:
		return api, vFetchBody(0, []vFetchTopic{{"t", []vFetchPart{{0, vInt("offset", 0, 2), 10000}, {1, 0, 10}}}}), func(r *vR) {
			ts := vParseFetch(r)
			vAssert(len(ts) == 1 && len(ts[0].parts) == 2, "the response is not one to this fetch")
		}
	case apiListOffsets:
		return api, vLoBody([]vLoTopic{{"t", []vLoPart{{0, -1}}}}), func(r *vR) {
			vAssert(r.i32() == 1 && vStrEq(r.str(), "t") && r.i32() == 1, "the response is not one to this request")
			r.i32()
			r.i16()
			r.i64()
			vAssert(r.i64() == 2, "the response is not one to this request")
			r.end("list offsets")
		}
	case apiMetadata:
		return api, new(vW).i32(2).str("t").str("nope").b, func(r *vR) {
			for n := r.count(); n > 0; n-- {
				r.i32()
				r.str()
				r.i32()
				r.str()
			}
			r.i32()
			vAssert(r.i32() == 2, "the response is not one to this request")
			for n := 2; n > 0; n-- {
				r.i16()
				r.str()
				r.i8()
				for k := r.count(); k > 0 && !r.bad; k-- {
					r.take(10)
					r.take(4 * r.count())
					r.take(4 * r.count())
				}
			}
			r.end("metadata")
		}
	case apiCommit:
		return api, vCommitBody("g", []vCmTopic{{"t", []vCmPart{{0, vI64("commit")}, {5, 2}}}}), func(r *vR) {
			o := vParseCommit(r)
			vAssert(len(o) == 1 && len(o[0].parts) == 2, "the response is not one to this commit")
		}
	case apiOffsetFetch:
		return api, vOffsetFetchBody("g", []vOfTopic{{"t", []int32{0}}}), func(r *vR) {
			vAssert(r.i32() == 1 && vStrEq(r.str(), "t") && r.i32() == 1 && r.i32() == 0, "the response is not one to this request")
			r.i64()
			r.str()
			vAssert(r.i16() == 0, "the response is not one to this request")
			r.end("offset fetch")
		}
	case apiFindCoord:
		return api, new(vW).str(vStr("key", 1)).b, func(r *vR) {
			vAssert(r.i16() == 0, "coordinator lookup reports an error")
			r.i32()
			r.str()
			r.i32()
			r.end("find coordinator")
		}
	case apiJoin:
		return api, new(vW).str("g").i32(vI32("session")).i32(9).str("").str("consumer").i32(1).str("p").bytes([]byte{1, 2}).b, func(r *vR) { vParseJoin(r) }
	case apiHeartbeat:
		return api, new(vW).str("g").i32(vI32("generation")).str("m").b, func(r *vR) { vErr0(r, "heartbeat") }
	case apiLeave:
		return api, new(vW).str("g").str("m").b, func(r *vR) { vErr0(r, "leave group") }
	case apiSync:
		return api, new(vW).str("g").i32(1).str("m").i32(0).b, func(r *vR) { vParseSync(r) }
	}
	return api, nil, func(r *vR) {
		vAssert(r.i16() == 0, "api versions reports an error")
		vAssert(r.i32() > 0, "api versions lists nothing")
		r.take(len(r.b) - r.pos)
		vAssert((len(r.b)-6)%6 == 0, "api versions: the response is not a whole list")
	}
}

func vP02Setup() *vSrv {
	s := vStartSrv()
	s.post("t", 0, vSized("r", 1, 1))
	s.post("t", 0, vSized("r", -1, 3))
	s.km.CreatePartitionTopics([]string{"u"}, 1)
	return s
}

// Each of the 11 APIs, with an arbitrary correlation id (all 32 bits) and client id (up to 2 arbitrary
// bytes), twice on a connection.
//verif prop=P02 reach=answered
func vP02Each() {
	s := vP02Setup()
	c := s.dial()
	api, body, check := vAnyReq(vPick("api", len(vApis)))
	for i := 0; i < 2; i++ {
		id := vI32("corr")
		c.Send(vFrame(api, vApiVer(api), id, vStr("client", vPick("clientLen", 3)), body))
		corr, r := c.frame(20*vSec, "request")
		vAssert(corr == id, "the response does not carry the request's correlation id")
		check(r)
	}
	vSettle()
	vAssert(c.Pending() == 0, "more than one response was sent, or more bytes than its size says")
	vReach("answered")
}

// Three pipelined requests of any APIs with arbitrary (also equal) correlation ids, in one segment or one
// each, on a connection beside another busy one.
//verif prop=P02 weight=3 reach=pipelined
func vP02Pipeline() { vP02(3) }

// Four pipelined requests.
//verif prop=P02 weight=3 tiers=thorough reach=pipelined
func vP02Long() { vP02(4) }

func vP02(n int) {
	s := vP02Setup()
	c, d := s.dial(), s.dial()
	var all []byte
	var ids []int32
	var checks []func(r *vR)
	apart := vPick("apart", 2) == 1
	d.Send(vReq(apiLeave, 99, new(vW).str("g").str("m").b))
	for i := 0; i < n; i++ {
		api, body, check := vAnyReq(vPick("api", len(vApis)))
		id := vI32("corr")
		ids = append(ids, id)
		checks = append(checks, check)
		f := vFrame(api, vApiVer(api), id, []string{"", "cl"}[i%2], body)
		if apart {
			c.Send(f)
		} else {
			all = append(all, f...)
		}
	}
	c.Send(all)
	for i := range ids {
		corr, r := c.frame(20*vSec, "pipelined request")
		vAssert(corr == ids[i], "pipelined requests are not answered in order with their own correlation ids")
		checks[i](r)
	}
	corr, r := d.frame(20*vSec, "other client's request")
	vAssert(corr == 99, "the response does not carry the request's correlation id")
	vErr0(r, "leave group")
	vSettle()
	vAssert(c.Pending() == 0 && d.Pending() == 0, "more than one response was sent to a request")
	vReach("pipelined")
}

// Responses of many sizes: a fetch of a record of 1..40000 bytes, metadata and assignments of up to 300
// partitions.
//verif prop=P02 reach=large steps=20000000 timeout=60
func vP02Large() {
	s := vStartSrv()
	n := []int{1, 3980, 4000, 4020, 4096, 8192, 40000}[vPick("n", 7)]
	v := make([]byte, n)
	v[n-1] = vU8("last")
	rec := vRec{nil, v, 5}
	s.post("t", 0, rec)
	if n > 8000 {
		for p := 0; p < 300; p++ {
			s.km.CreatePartitionTopics([]string{"many"}, p)
		}
	}
	c := s.dial()
	f := c.fetch1(0, "t", 0, 0, 100000)
	vAssert(len(f.msgs) == 1, "the record is missing")
	vIsRec(f.msgs[0], rec, 0)
	_, ts := c.metadata([]string{"t", "many"})
	vAssert(len(ts) == 2, "metadata does not list every requested topic")
	vAssert(len(c.assignment()) > 0, "nothing is assigned")
	vSettle()
	vAssert(c.Pending() == 0, "more than one response was sent to a request")
	vReach("large")
}
