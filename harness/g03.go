package kafkamock

type vJoined struct {
	protocol, leader, member string
}

func vParseJoin(r *vR) vJoined {
	vAssert(r.i16() == 0, "join group reports an error")
	r.i32()
	j := vJoined{r.str(), r.str(), r.str()}
	for n := r.count(); n > 0 && !r.bad; n-- {
		r.str()
		r.byteArr()
	}
	r.end("join group")
	return j
}

func vErr0(r *vR, what string) {
	vAssert(r.i16() == 0, what+" reports an error")
	r.end(what)
}

// Two rounds of join, heartbeat and leave in any order, with arbitrary group, member, generation, time
// outs and up to two protocols; records and committed offsets stay as they were.
//verif prop=G03 weight=3 reach=served
func vG03Any() {
	s := vStartSrv()
	rec := vSized("r", 1, 1)
	s.post("t", 0, rec)
	c := s.dial()
	c.commit1("g", "t", 0, 4)
	group, member := vStr("group", vPick("glen", 3)), vStr("member", vPick("mlen", 2))
	join := new(vW).str(group).i32(vI32("session")).i32(vI32("rebalance")).str(member).str(vStr("type", 1))
	np := vPick("protocols", 3)
	join.i32(int32(np))
	for i := 0; i < np; i++ {
		join.str(vStr("proto", 1))
		if vPick("meta", 2) == 0 {
			join.i32(-1)
		} else {
			join.bytes(vBytes("metadata", 2))
		}
	}
	hb := new(vW).str(group).i32(vI32("generation")).str(member)
	lv := new(vW).str(group).str(member)
	var told []vJoined
	for i := 0; i < 3; i++ {
		switch vPick("api", 3) {
		case 0:
			told = append(told, vParseJoin(c.call(apiJoin, join.b, "join group")))
		case 1:
			vErr0(c.call(apiHeartbeat, hb.b, "heartbeat"), "heartbeat")
		case 2:
			vErr0(c.call(apiLeave, lv.b, "leave group"), "leave group")
		}
	}
	for _, j := range told {
		vAssert(vStrEq(j.protocol, told[0].protocol) && vStrEq(j.leader, told[0].leader) && vStrEq(j.member, told[0].member), "a member is told something else on joining again")
	}
	f := c.fetch1(0, "t", 0, 0, 10000)
	vAssert(len(f.msgs) == 1, "a group request changed the records")
	vIsRec(f.msgs[0], rec, 0)
	vAssert(c.committed("g", "t", 0) == 4, "a group request changed a committed offset")
	vAssert(c.committed(group, "t", 0) == vIte(vStrEq(group, "g"), 4, 0), "a group request changed a committed offset")
	vReach("served")
}
