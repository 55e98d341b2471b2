package kafkamock

import "reflect"

// Null arrays within arrays, values cut off at the end of a longer structure, tag ids of all 32 bits, requests
// of exactly the size of a buffer, responses of megabytes, requests and responses beside a client that stalls,
// long silences, clients of several addresses.

// Arrays of up to 4 arrays of numbers or strings (and of arrays of arrays), each null, empty or filled, in any combination.
//verif prop=C03 reach=nulls
func vC03Nulls() {
	n := vPick("n", 5)
	kind := vPick("kind", 3)
	type m struct {
		A [][]int16
		B [][]string
		C [][][]int8
		Z int32
	}
	x := m{Z: vI32("z")}
	switch kind {
	case 0:
		x.A = [][]int16{}
	case 1:
		x.B = [][]string{}
	case 2:
		x.C = [][][]int8{}
	}
	for i := 0; i < n; i++ {
		f := vPick("inner", 3)
		switch kind {
		case 0:
			x.A = append(x.A, [][]int16{nil, {}, {vI16("e"), 7}}[f])
		case 1:
			x.B = append(x.B, [][]string{nil, {}, {vStr("s", 1), ""}}[f])
		case 2:
			x.C = append(x.C, [][][]int8{nil, {}, {nil, {vI8("e")}, nil}}[f])
		}
	}
	b := vEnc(x)
	next, o := peekObject(vReader(b), 0, vTypeOf(x))
	y, ok := o.(m)
	vAssert(ok && next == len(b) && y.Z == x.Z, "a message with arrays of arrays is not consumed exactly")
	vAssert((y.A == nil) == (x.A == nil) && (y.B == nil) == (x.B == nil) && (y.C == nil) == (x.C == nil), "null and empty arrays are confused")
	vAssert(len(y.A) == len(x.A) && len(y.B) == len(x.B) && len(y.C) == len(x.C), "an array of arrays changed its length")
	for i := range x.A {
		vAssert((y.A[i] == nil) == (x.A[i] == nil) && len(y.A[i]) == len(x.A[i]), "an inner array changed its length, or null and empty are confused")
		for j := range x.A[i] {
			vAssert(y.A[i][j] == x.A[i][j], "an element of an inner array changed")
		}
	}
	for i := range x.B {
		vAssert((y.B[i] == nil) == (x.B[i] == nil) && len(y.B[i]) == len(x.B[i]), "an inner array changed its length, or null and empty are confused")
		for j := range x.B[i] {
			vAssert(vStrEq(y.B[i][j], x.B[i][j]), "an element of an inner array changed")
		}
	}
	for i := range x.C {
		vAssert((y.C[i] == nil) == (x.C[i] == nil) && len(y.C[i]) == len(x.C[i]), "an inner array changed its length, or null and empty are confused")
		for j := range x.C[i] {
			vAssert((y.C[i][j] == nil) == (x.C[i][j] == nil) && len(y.C[i][j]) == len(x.C[i][j]), "an innermost array changed its length, or null and empty are confused")
			for k := range x.C[i][j] {
				vAssert(y.C[i][j][k] == x.C[i][j][k], "an element of an innermost array changed")
			}
		}
	}
	vReach("nulls")
}

// A value of each wire type (null or not) as the last field of a structure, after 0, 25, 300 or 5000 other bytes, cut off
// at any position of it, its very start included.
//verif prop=C05 weight=2 reach=cut steps=40000000
func vC05Last() {
	pre := CompactString(vLong('p', []int{1, 24, 298, 4998}[vPick("before", 4)]))
	try := func(x any) {
		b := vEnc(x)
		from := len(vEnc(pre))
		k := from + int(vConcrete(vInt("at", 0, int64(len(b)-from-1))))
		next, _ := peekObject(vReader(b[:k]), 0, reflect.TypeOf(x))
		vAssert(next < 0, "a structure whose last field is cut off was not reported incomplete")
		// more bytes in the reader than the structure's are no better when it starts further on
		next, _ = peekObject(vReader(vCat(make([]byte, 9), b[:k])), 9, reflect.TypeOf(x))
		vAssert(next < 0, "a structure whose last field is cut off was not reported incomplete")
		next, _ = peekObject(vReader(b), 0, reflect.TypeOf(x))
		vAssert(next == len(b), "the completed structure is not decoded exactly")
	}
	s, cs := vStr("s", 1), CompactString(vStr("cs", 1))
	null := vPick("null", 2) == 1
	switch vPick("type", 22) {
	case 0:
		x := struct {
			P CompactString
			V NullableString
		}{P: pre}
		if !null {
			x.V = &s
		}
		try(x)
	case 1:
		x := struct {
			P CompactString
			V CompactNullableString
		}{P: pre}
		if !null {
			x.V = &cs
		}
		try(x)
	case 2:
		x := struct {
			P CompactString
			V NullableBytes
		}{P: pre}
		if !null {
			x.V = vBytes("b", 2)
		}
		try(x)
	case 3:
		x := struct {
			P CompactString
			V CompactNullableBytes
		}{P: pre}
		if !null {
			x.V = vBytes("b", 2)
		}
		try(x)
	case 4:
		x := struct {
			P CompactString
			V []int16
		}{P: pre}
		if !null {
			x.V = []int16{vI16("v")}
		}
		try(x)
	case 5:
		x := struct {
			P CompactString
			V []vInner `kafka:"compact"`
		}{P: pre}
		if !null {
			x.V = []vInner{{VarInt(vI16("n")), s}}
		}
		try(x)
	case 6:
		x := struct {
			P CompactString
			V string
		}{pre, ""}
		if !null {
			x.V = s
		}
		try(x)
	case 7:
		try(struct {
			P, V CompactString
		}{pre, cs})
	case 8:
		try(struct {
			P CompactString
			V bool
		}{pre, vBool("v")})
	case 9:
		try(struct {
			P CompactString
			V int8
		}{pre, vI8("v")})
	case 10:
		try(struct {
			P CompactString
			V int16
		}{pre, vI16("v")})
	case 11:
		try(struct {
			P CompactString
			V int32
		}{pre, vI32("v")})
	case 12:
		try(struct {
			P CompactString
			V int64
		}{pre, vI64("v")})
	case 13:
		try(struct {
			P CompactString
			V uint16
		}{pre, vU16("v")})
	case 14:
		try(struct {
			P CompactString
			V float64
		}{pre, 1.5})
	case 15:
		try(struct {
			P CompactString
			V VarInt
		}{pre, VarInt(vI16("v"))})
	case 16:
		try(struct {
			P CompactString
			V VarUint64
		}{pre, VarUint64(vU16("v"))})
	case 17:
		try(struct {
			P CompactString
			V VarInt64
		}{pre, -1 << 40})
	case 18:
		try(struct {
			P CompactString
			V *vInner
		}{pre, &vInner{VarInt(vI8("n")), s}})
	case 19:
		try(struct {
			P CompactString
			V []byte
		}{pre, vBytes("b", 2)})
	case 20:
		try(struct {
			P CompactString
			V CompactBytes
		}{pre, vBytes("b", 1)})
	case 21:
		x := struct {
			P CompactString
			V [][]int8
		}{pre, [][]int8{{1}, nil}}
		if !null {
			x.V = [][]int8{{vI8("v")}, {}}
		}
		try(x)
	}
	vReach("cut")
}

var vTagIds = []int{0, 1, 127, 128, 1<<28 - 1, 1 << 28, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 2, 1<<32 - 1}

// Three tagged fields with ids of up to 32 bits, in any order of insertion.
//verif prop=C07 reach=ids
func vC07Ids() {
	a := vPick("a", len(vTagIds))
	b := a + 1 + vPick("b", len(vTagIds))
	vAssume(b < len(vTagIds))
	c := b + 1 + vPick("c", len(vTagIds))
	vAssume(c < len(vTagIds))
	ids := []int{vTagIds[a], vTagIds[b], vTagIds[c]}
	v := []int32{vI32("v"), vI32("v"), vI32("v")}
	tags := map[int]any{}
	for i := range ids {
		k := (i + c) % 3
		tags[ids[k]] = v[k]
	}
	w := vEncTags(tags)
	want := []byte{3}
	for i, id := range ids {
		want = vCat(want, vRefVar(uint64(id)), []byte{4}, vRefBE(uint64(uint32(v[i])), 4))
	}
	vAssert(len(w) == len(want) && vBytesEq(w, want), "tagged fields are not written in ascending order of their ids")
	fields := map[int]*kafkaField{ids[1]: {valType: vTypeOf(int32(0))}}
	next, got := peekTags(vReader(w), 0, fields)
	vAssert(next == len(w) && len(got) == 3, "tagged fields with large ids are not decoded completely")
	y, ok := got[ids[1]].(int32)
	vAssert(ok && y == v[1], "a known tagged field has the wrong value")
	for _, k := range []int{0, 2} {
		raw, ok := got[ids[k]].([]byte)
		vAssert(ok && vBytesEq(raw, vRefBE(uint64(uint32(v[k])), 4)), "an unknown tagged field is not returned as its raw bytes")
	}
	vReach("ids")
}

// A request whose frame is exactly 512 to 65536 bytes (powers of two and their neighbours), sent whole, or its first
// bytes up to such a size sent and the rest later: it is answered without anything more being sent.
//verif prop=P01 weight=2 reach=exact steps=400000000 timeout=60
func vP01Exact() {
	s := vStartSrv()
	s.km.CreatePartitionTopics([]string{"t"}, 0)
	size := []int{512, 1024, 2048, 4096, 8192, 16384, 24576, 32768, 65536}[vPick("size", 9)] + []int{0, -1, 1, 4}[vPick("plus", 4)]
	name := vLong('n', 30000)
	ts := []vOfTopic{{"t", []int32{0}}}
	body := func(ts []vOfTopic) []byte { return vReq(apiOffsetFetch, 2, vOffsetFetchBody("g", ts)) }
	for left := size - len(body(ts)); left > 0; left = size - len(body(ts)) {
		k := left - 6 // a topic entry is 6 bytes and its name
		if k > 30000 {
			k = 29000
		}
		ts = append(ts, vOfTopic{name[:k], nil})
	}
	req := body(ts)
	vAssume(len(req) == size)
	x := vInt("x", 1, 1<<50)
	c := s.dial()
	c.commit1("g", "t", 0, x)
	switch vPick("split", 4) {
	case 0:
		c.Send(req)
	case 1: // two segments that fill whole buffers where possible
		k := size / 2
		if size > 8192 {
			k = 8192
		}
		c.Send(req[:k])
		vSettle()
		vAssert(c.Pending() == 0, "an incomplete request was acted on")
		c.Send(req[k:])
	case 2: // another request before it in the same segment
		beat := vReq(apiHeartbeat, 1, new(vW).str("g").i32(0).str("m").b)
		c.Send(vCat(beat, req))
		_, r := c.frame(3*vSec, "small request")
		vErr0(r, "heartbeat")
	case 3: // several of it in one segment
		c.Send(vCat(req, req))
		c.frame(3*vSec, "a request that fills a buffer")
	}
	corr, r := c.frame(3*vSec, "a request that fills a buffer")
	vAssert(corr == 2 && r.count() >= 1 && r.str() == "t" && r.count() == 1 && r.i32() == 0 && r.i64() == x, "a request that fills a buffer is not answered as such")
	vSettle()
	vAssert(c.Pending() == 0, "a request was answered more than once")
	vReach("exact")
}

// Responses of 9 MB, to a client that reads at once or one that starts later, and the requests behind them.
//verif prop=L07 weight=2 reach=whole steps=400000000 timeout=60
func vL07Whole() { vWhole(9 << 20) }

// Responses of 3 MB, read at once or later, and the requests behind them.
//verif prop=P02 weight=2 reach=whole steps=400000000 timeout=60
func vP02Whole() { vWhole(3<<20 + 1) }

func vWhole(size int) {
	s := vStartSrv()
	v := make([]byte, size)
	for i := 1; i < 16; i++ {
		v[i*(size/16)] = byte(i)
	}
	v[0], v[size/2+1], v[size-1] = vU8("v"), vU8("v"), vU8("v")
	rec := vRec{nil, v, 5}
	s.post("t", 0, rec)
	c := s.dial()
	late := vPick("late", 2) == 1
	if late {
		c.StopReading(1000)
	}
	c.Send(vReq(apiFetch, 1, vFetchBody(0, []vFetchTopic{{"t", []vFetchPart{{0, 0, 1 << 30}}}})))
	c.Send(vReq(apiHeartbeat, 2, new(vW).str("g").i32(0).str("m").b))
	if late {
		vSleep(vSec)
		c.Resume()
	}
	corr, r := c.frame(10*vSec, "a request with a response of megabytes")
	vAssert(corr == 1, "another request is answered")
	f := vParseFetch(r)
	vAssert(len(f) == 1 && len(f[0].parts) == 1 && len(f[0].parts[0].msgs) == 1, "the record is missing from a large response")
	vIsRec(f[0].parts[0].msgs[0], rec, 0)
	corr, r = c.frame(3*vSec, "the request after a large response")
	vAssert(corr == 2, "another request is answered")
	vErr0(r, "heartbeat")
	vSettle()
	vAssert(c.Pending() == 0, "more bytes are sent than the responses' sizes say")
	vReach("whole")
}

// A client does not read its responses for a while, at any point of them, and another one makes requests of any
// API meanwhile: both get their own responses.
//verif prop=L09 timeout=40 reach=done
func vL09Unread() {
	s := vP02Setup()
	window, size, n := vPick("window", 4)*25, 40, 1+vPick("requests", 2)
	if !vSymbolic() {
		window, size, n = 0, 600000, 30
	}
	rec := vRec{nil, make([]byte, size), 5}
	for i := range rec.value {
		rec.value[i] = 0xa5
	}
	rec.value[size-1] = vU8("last")
	s.post("big", 0, rec)
	c, d := s.dial(), s.dial()
	c.beat("heartbeat")
	c.StopReading(window)
	for i := 0; i < n; i++ {
		c.Send(vReq(apiFetch, int32(i), vFetchBody(0, []vFetchTopic{{"big", []vFetchPart{{0, 0, 1 << 24}}}})))
	}
	vSleep(vSec / 2)
	api, body, check := vAnyReq(vPick("api", len(vApis)))
	if api == apiSync {
		check = func(r *vR) { vParseSync(r) }
	}
	for i := int32(0); i < 2; i++ {
		d.Send(vReq(api, 40+i, body))
		corr, r := d.frame(3*vSec, "a request beside a client that does not read")
		vAssert(corr == 40+i, "another request is answered")
		check(r)
	}
	if !vSymbolic() { // what the client waits for is long sent but for the end of it: others get as much
		s.post("other", 0, vRec{nil, make([]byte, size), 6})
		var g vGroup
		for i := 0; i < 16; i++ {
			g.Go(func() {
				x := s.dial()
				for i := 0; i < 6; i++ {
					f := x.fetch1(0, "other", 0, 0, 1<<24)
					vAssert(len(f.msgs) == 1, "another request is answered")
				}
			})
		}
		vAssert(g.Wait(20*vSec), "clients beside one that does not read are not answered")
	}
	c.Resume()
	for i := 0; i < n; i++ {
		corr, r := c.frame(8*vSec, "a response to a client that reads again")
		vAssert(corr == int32(i), "a client gets another one's response")
		f := vParseFetch(r)
		vAssert(len(f) == 1 && len(f[0].parts) == 1 && len(f[0].parts[0].msgs) == 1, "a response to a client that reads again is not its own")
		vIsRec(f[0].parts[0].msgs[0], rec, 0)
	}
	vReach("done")
}

// Up to 300 requests of any API received behind a waiting fetch when finish strikes.
//verif prop=L06 reach=done
func vL06Queue() {
	s := vP02Setup()
	c := s.dial()
	msg := vReq(apiFetch, 10, vFetchBody(60000, []vFetchTopic{{"t", []vFetchPart{{0, 2, 1000}}}}))
	n := []int{1, 9, 30, 80, 300}[vPick("n", 5)]
	api, body, check := vAnyReq(vPick("api", len(vApis)))
	one := vReq(api, 0, body)
	if max := (8192 - len(msg)) / len(one); n > max { // what the server reads at once
		n = max
	}
	for i := 0; i < n; i++ {
		msg = append(msg, vReq(api, int32(100+i), body)...)
	}
	c.Send(msg)
	vSleep(100 * vMsNs)
	s.km.FinishRequests()
	corr, r := c.frame(2*vSec, "waiting fetch after finish")
	vAssert(corr == 10, "another request is answered")
	vParseFetch(r)
	for i := 0; i < n; i++ {
		corr, r = c.frame(2*vSec, "request received before finish")
		vAssert(corr == int32(100+i), "another request is answered")
		if api != apiSync {
			check(r)
		}
	}
	c.vFinished()
	vReach("done")
}

// A client is silent for half a minute to five minutes, before its first request, between two, or in the middle of one.
//verif prop=L07 timeout=400 novalidate reach=done steps=40000000
func vL07Silent() {
	s := vStartSrv()
	s.km.SimplePost("t", 0, nil, []byte{1})
	c := s.dial()
	where := vPick("where", 3)
	beat := vReq(apiHeartbeat, 3, new(vW).str("g").i32(0).str("m").b)
	if where > 0 {
		c.beat("heartbeat")
	}
	if where == 2 {
		c.Send(beat[:11])
	}
	vSleep([]int64{31, 62, 130, 305}[vPick("silence", 4)] * vSec)
	if where == 2 {
		beat = beat[11:]
	}
	c.Send(beat)
	corr, r := c.frame(3*vSec, "a request after the connection was idle for minutes")
	vAssert(corr == 3, "another request is answered")
	vErr0(r, "heartbeat")
	s.vAlive(c)
	vReach("done")
}

// Clients of up to three addresses, with the same port number or different ones, come and go: each is registered, served
// and forgotten on its own.
//verif prop=L05 timeout=40 reach=done
func vL05Addresses() {
	s := vStartSrv()
	s.km.SimplePost("t", 0, nil, []byte{1})
	var cs []*vCli
	gone := make([]bool, 4)
	used := map[int]bool{}
	for i := 0; i < 3; i++ {
		host, port := vPick("host", 3), vPick("port", 2)
		vAssume(!used[host*2+port])
		used[host*2+port] = true
		c := vDialFrom(s.port, host, port, 10*vSec)
		vAssert(c != nil, "the server does not accept a connection")
		c.beat("heartbeat")
		cs = append(cs, c)
	}
	s.vOthers(cs, gone)
	i := vPick("leaves", 3)
	cs[i].vLeave(vPick("way", 3))
	gone[i] = true
	s.vOthers(cs, gone)
	s.vAlive(cs[(i+1)%3])
	var g vGroup
	switch vPick("end", 3) {
	case 1:
		g.Go(s.km.Restart)
	case 2:
		g.Go(func() { s.km.RequestStop(); s.km.WaitForTermination() })
	}
	vAssert(g.Wait(8*vSec), "stopping does not complete")
	vReach("done")
}

// A complete small request whose size prefix announces any larger size (all 32 bits): it is never acted on, though other
// clients are served.
//verif prop=P01 reach=waits
func vP01Announced() {
	s := vP02Setup()
	e := s.dial()
	e.beat("heartbeat")
	api, body, _ := vAnyReq(vPick("api", len(vApis)))
	f := vReq(api, 1, body)
	size := vU32("size")
	vAssume(size > uint32(len(f)-4))
	copy(f, vRefBE(uint64(size), 4))
	c := vDialRelay(s.port, 10*vSec)
	vAssert(c != nil, "the server does not accept a connection")
	vReach("waits")
	vNoAnswer(c, f)
	e.beat("a client beside one that has sent part of a request")
	vAssert(e.committed("g", "t", 0) == 0, "an incomplete request was acted on")
}

// A consumer joins, and joins again under any member id (its own, the leader's, or up to 3 arbitrary bytes): it is never
// told to lead the group.
//verif prop=G04 reach=joined
func vG04Rejoin() {
	s := vP02Setup()
	c := s.dial()
	join := func(id string) (leader, member string) {
		r := c.call(apiJoin, new(vW).str("g").i32(vI32("session")).i32(9000).str(id).str("consumer").i32(1).str("range").bytes([]byte{0, 0}).b, "join group")
		vAssert(r.i16() == 0, "join group reports an error")
		r.i32()
		vAssert(len(r.str()) != 0, "join group tells no protocol")
		leader, member = r.str(), r.str()
		vAssert(!vStrEq(leader, member), "a consumer is told to lead the group, whose assignments the mock makes itself")
		return
	}
	leader, member := join("")
	for i := 0; i < 2; i++ {
		var id string
		switch vPick("id", 3) {
		case 0:
			id = leader
		case 1:
			id = member
		case 2:
			id = vStr("id", vPick("len", 4))
		}
		leader, member = join(id)
	}
	as := vParseSync(c.call(apiSync, vSyncBody("g", member, 1).i32(0).b, "sync group"))
	vAssert(len(as) == 2, "the assignment does not hold the existing topics")
	vReach("joined")
}

// A request of any API while topics and partitions are created, posted to and committed, on every schedule within the
// bound: everything is answered, nothing blocks, and nothing is lost.
//verif prop=L02 sched weight=2 reach=done
func vL02Beside() {
	s := vStartSrv()
	s.km.CreatePartitionTopics([]string{"t"}, 0)
	c := s.dial()
	c.beat("heartbeat")
	k := vPick("api", len(vApis))
	api, body, _ := vAnyReq(k)
	vAssume(api != apiHeartbeat && api != apiLeave && api != apiVers && api != apiJoin && api != apiFindCoord)
	act := vPick("act", 4)
	vSettle()
	var g vGroup
	vExplore(vTier(1, 3), vTier(3, 3))
	c.Send(vReq(api, 7, body))
	g.Go(func() {
		switch act {
		case 0:
			s.km.CreatePartitionTopics([]string{"t"}, 1)
		case 1:
			s.km.CreatePartitionTopics([]string{"t", "v"}, 2)
		case 2:
			s.post("v", 1, vRec{nil, []byte{1}, 5})
		case 3:
			s.km.SetConsumerGroupOffset("t", 0, "h", 5)
		}
	})
	corr, _ := c.frame(5*vSec, "a request while topics are created")
	vAssert(corr == 7, "another request is answered")
	vAssert(g.Wait(5*vSec), "a call into the mock does not return")
	vNoExplore()
	vAssert(c.listOffset1("t", 0, -1).err == 0, "a partition is lost")
	switch act {
	case 0:
		vAssert(c.listOffset1("t", 1, -1).err == 0, "a partition is lost")
	case 1:
		vAssert(c.listOffset1("t", 2, -1).err == 0 && c.listOffset1("v", 2, -1).err == 0, "a partition is lost")
	case 2:
		vAssert(len(c.fetch1(0, "v", 1, 0, 1000).msgs) == 1, "a record is lost")
	case 3:
		vAssert(c.committed("h", "t", 0) == 5, "a committed offset is lost")
	}
	vReach("done")
}
