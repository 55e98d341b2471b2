package kafkamock

// A valid request of each of the 11 APIs whose contents are cut short at every position (the frame's size
// being that of what is left), header included.
//verif prop=P04 weight=2 reach=cut
func vP04Cut() {
	s := vP02Setup()
	api, body, _ := vAnyReq(vPick("api", len(vApis)))
	f := vReq(api, vI32("corr"), body)[4:]
	n := vPick("keep", len(f))
	c := vDialRelay(s.port, 10*vSec)
	vAssert(c != nil, "the server does not accept a connection")
	vReach("cut")
	vNoAnswer(c, new(vW).bytes(f[:n]).b)
}

// A valid request of each API followed, within its frame, by 1, 2, 7 or 5000 more bytes; the first 7
// arbitrary.
//verif prop=P04 weight=2 reach=over
func vP04Over() {
	s := vP02Setup()
	api, body, _ := vAnyReq(vPick("api", len(vApis)))
	f := vReq(api, vI32("corr"), body)[4:]
	n := []int{1, 2, 7, 5000}[vPick("extra", 4)]
	x := make([]byte, n)
	k := n
	if k > 7 {
		k = 7
	}
	copy(x, vBytes("x", k))
	c := vDialRelay(s.port, 10*vSec)
	vAssert(c != nil, "the server does not accept a connection")
	vReach("over")
	vNoAnswer(c, new(vW).bytes(append(f, x...)).b)
}

// The same with a good request right behind it in the same segment, or before it; the good request behind
// must not make up for missing bytes.
//verif prop=P04 reach=followed
func vP04Followed() {
	s := vP02Setup()
	api, body, _ := vAnyReq(vPick("api", len(vApis)))
	f := vReq(api, 4, body)[4:]
	c := vDialRelay(s.port, 10*vSec)
	vAssert(c != nil, "the server does not accept a connection")
	var bad []byte
	if vPick("how", 2) == 0 {
		bad = new(vW).bytes(f[:len(f)-1]).b
	} else {
		bad = new(vW).bytes(append(f, 0)).b
	}
	vReach("followed")
	vNoAnswer(c, append(bad, vReq(apiHeartbeat, 5, new(vW).str("g").i32(0).str("m").b)...))
}

// Counts and lengths inside a request that claim more than the frame holds: every 32-bit element count
// beyond what fits (up to 2^31-1) and every 16-bit string length.
//verif prop=P04 weight=2 reach=count
func vP04Counts() {
	s := vP02Setup()
	n := vI32("count")
	var api int16
	var body []byte
	switch vPick("where", 7) {
	case 0:
		vAssume(n > 1)
		api, body = apiMetadata, new(vW).i32(n).str("t").b
	case 1:
		vAssume(n > 0)
		api, body = apiFetch, new(vW).i32(-1).i32(0).i32(1).i32(n).b
	case 2:
		vAssume(n > 1)
		api, body = apiCommit, new(vW).str("g").i32(1).str("m").i64(0).i32(1).str("t").i32(n).i32(0).i64(3).nstr().b
	case 3:
		vAssume(n > 2)
		api, body = apiOffsetFetch, new(vW).str("g").i32(1).str("t").i32(n).i32(0).i32(1).b
	case 4:
		vAssume(n > 0)
		api, body = apiJoin, new(vW).str("g").i32(1).i32(1).str("").str("c").i32(n).b
	case 5:
		vAssume(n > 1)
		vAssume(n < 32768)
		api, body = apiFindCoord, new(vW).i16(int16(n)).raw([]byte{65}).b
	case 6:
		vAssume(n > 3)
		api, body = apiJoin, new(vW).str("g").i32(1).i32(1).str("").str("c").i32(1).str("p").i32(n).raw([]byte{1, 2, 3}).b
	}
	c := vDialRelay(s.port, 10*vSec)
	vAssert(c != nil, "the server does not accept a connection")
	vReach("count")
	vAllocBudget(1 << 22)
	vNoAnswer(c, vReq(api, 4, body))
}
