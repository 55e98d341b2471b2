package kafkamock

type vRange struct{ key, min, max int16 }

func (c *vCli) advertised() []vRange {
	r := c.call(apiVers, nil, "api versions")
	vAssert(r.i16() == 0, "api versions reports an error")
	var out []vRange
	for n := r.count(); n > 0 && !r.bad; n-- {
		x := vRange{r.i16(), r.i16(), r.i16()}
		if k := len(out); k > 0 {
			vAssert(out[k-1].key < x.key, "api versions does not list the keys in ascending order without repeats")
		}
		vAssert(x.min <= x.max, "an advertised version range is empty")
		out = append(out, x)
	}
	r.end("api versions")
	return out
}

// Every advertised API key and version answers.
//verif prop=P03 reach=served
func vP03Served() {
	s := vP02Setup()
	c := s.dial()
	rs := c.advertised()
	vAssert(len(rs) > 0, "no API is advertised")
	for _, x := range rs {
		k := -1
		for i, a := range vApis {
			if a == x.key {
				k = i
			}
		}
		for v := x.min; v <= x.max; v++ {
			var body []byte
			if k >= 0 {
				_, body, _ = vAnyReq(k)
			}
			c.Send(vFrame(x.key, v, 55, "c", body))
			corr, _ := c.frame(20*vSec, "an advertised API version")
			vAssert(corr == 55, "the response does not carry the request's correlation id")
		}
	}
	vReach("served")
}

// Any API key and version (all 32 bits) that is not advertised, with the body of any supported request:
// never answered; no data is changed if the server goes on.
//verif prop=P03 weight=2 reach=unsupported
func vP03Unsupported() {
	s := vP02Setup()
	e := s.dial()
	rs := e.advertised()
	key, ver := vI16("key"), vI16("version")
	for _, x := range rs {
		vAssume(vNot(vAnd(x.key == key, x.min <= ver, ver <= x.max)))
	}
	_, body, _ := vAnyReq(vPick("body", len(vApis)))
	vReach("unsupported")
	c := vDialRelay(s.port, 10*vSec)
	vAssert(c != nil, "the server does not accept a connection")
	vNoAnswer(c, vFrame(key, ver, vI32("corr"), "c", body))
	vAssert(e.committed("g", "t", 0) == 0, "an unsupported request changed stored data")
	e.vCount("t", 0, 2)
	vAssert(len(e.assignment()) == 2, "an unsupported request changed stored data")
}
