package main

// Virtual time. A time.Time is kept as Struct{wall: sub-millisecond ns, ext: ms since year 1, loc},
// so that millisecond timestamps (what the code under test stores) stay linear in symbolic inputs.

import (
	"go/types"
)

const msYear1ToUnix = 62135596800000
const clockBaseMs = 1700000000000 // wall clock at virtual time 0

func (ip *Interp) timeParts(v Value) (wall, ms *Term, loc Value) {
	s := v.(Struct)
	return s[0].(*Term), s[1].(*Term), s[2]
}

func (ip *Interp) mkTime(wall, ms *Term) Value {
	return Struct{wall, ms, (*Value)(nil)}
}

// nowTime looks at the clock. Computation takes no time otherwise; but one who looks at it very often without anything
// passing sees it move, so that loops that wait by polling, or with timers that are due, end.
func (ip *Interp) nowTime() Value {
	if ip.clock != ip.lookClock {
		ip.looks = 0
	} else if ip.looks++; ip.looks > 200 {
		ip.clock += 1000 << min(uint((ip.looks-200)/16), 14)
	}
	ip.lookClock = ip.clock
	return ip.mkTime(ip.c.BV(64, uint64(ip.clock%1000000)), ip.c.BV(64, uint64(msYear1ToUnix+clockBaseMs+ip.clock/1000000)))
}

// mulBy reports x if t is x*k.
func mulBy(t *Term, k uint64) *Term {
	if t.op == OpMul {
		if t.a[0].op == OpConst && t.a[0].c == k {
			return t.a[1]
		}
		if t.a[1].op == OpConst && t.a[1].c == k {
			return t.a[0]
		}
	}
	return nil
}

func (ip *Interp) timeAdd(v Value, d *Term) Value {
	c := ip.c
	wall, ms, loc := ip.timeParts(v)
	if x := mulBy(d, 1000000); x != nil {
		return Struct{wall, c.Add(ms, x), loc}
	}
	if x := mulBy(d, 1000000000); x != nil {
		return Struct{wall, c.Add(ms, c.Mul(x, c.BV(64, 1000))), loc}
	}
	if d.op == OpConst {
		n := int64(d.c)
		q, r := n/1000000, n%1000000
		if r < 0 {
			q--
			r += 1000000
		}
		w := c.Add(wall, c.BV(64, uint64(r)))
		ov := c.Ule(c.BV(64, 1000000), w)
		return Struct{c.Ite(ov, c.Sub(w, c.BV(64, 1000000)), w), c.Add(c.Add(ms, c.BV(64, uint64(q))), ip.bvBool(ov, 64)), loc}
	}
	m := c.BV(64, 1000000)
	q := c.SDiv(d, m)
	r := c.SRem(d, m)
	neg := c.Slt(r, c.BV(64, 0))
	q = c.Ite(neg, c.Sub(q, c.BV(64, 1)), q)
	r = c.Ite(neg, c.Add(r, m), r)
	w := c.Add(wall, r)
	ov := c.Ule(m, w)
	return Struct{c.Ite(ov, c.Sub(w, m), w), c.Add(c.Add(ms, q), ip.bvBool(ov, 64)), loc}
}

func (ip *Interp) timeLess(a, b Value) *Term {
	c := ip.c
	aw, am, _ := ip.timeParts(a)
	bw, bm, _ := ip.timeParts(b)
	return c.Or(c.Slt(am, bm), c.And(c.Eq(am, bm), c.Ult(aw, bw)))
}

func (ip *Interp) timeEq(a, b Value) *Term {
	c := ip.c
	aw, am, _ := ip.timeParts(a)
	bw, bm, _ := ip.timeParts(b)
	return c.And(c.Eq(am, bm), c.Eq(aw, bw))
}

// timeSub returns a-b in ns, saturating like time.Time.Sub.
func (ip *Interp) timeSub(a, b Value) *Term {
	c := ip.c
	aw, am, _ := ip.timeParts(a)
	bw, bm, _ := ip.timeParts(b)
	dm := c.Sub(am, bm)
	exact := c.Add(c.Mul(dm, c.BV(64, 1000000)), c.Sub(aw, bw))
	const lim = 9223372036854
	neg := int64(-lim)
	big := c.Slt(c.BV(64, lim), dm)
	small := c.Slt(dm, c.BV(64, uint64(neg)))
	return c.Ite(big, c.BV(64, 1<<63-1), c.Ite(small, c.BV(64, 1<<63), exact))
}

func initTime() {
	in := intrinsics
	in["time.Now"] = func(ip *Interp, g *G, a []Value) Value { return ip.nowTime() }
	T := "(time.Time)."
	in[T+"Add"] = func(ip *Interp, g *G, a []Value) Value { return ip.timeAdd(a[0], a[1].(*Term)) }
	in[T+"Before"] = func(ip *Interp, g *G, a []Value) Value { return ip.timeLess(a[0], a[1]) }
	in[T+"After"] = func(ip *Interp, g *G, a []Value) Value { return ip.timeLess(a[1], a[0]) }
	in[T+"Equal"] = func(ip *Interp, g *G, a []Value) Value { return ip.timeEq(a[0], a[1]) }
	in[T+"Compare"] = func(ip *Interp, g *G, a []Value) Value {
		c := ip.c
		return c.Ite(ip.timeLess(a[0], a[1]), c.BV(64, ^uint64(0)), ip.bvBool(ip.timeLess(a[1], a[0]), 64))
	}
	in[T+"Sub"] = func(ip *Interp, g *G, a []Value) Value { return ip.timeSub(a[0], a[1]) }
	in["time.Since"] = func(ip *Interp, g *G, a []Value) Value { return ip.timeSub(ip.nowTime(), a[0]) }
	in["time.Until"] = func(ip *Interp, g *G, a []Value) Value { return ip.timeSub(a[0], ip.nowTime()) }
	unixMs := func(ip *Interp, v Value) *Term {
		_, ms, _ := ip.timeParts(v)
		return ip.c.Sub(ms, ip.c.BV(64, msYear1ToUnix))
	}
	in[T+"UnixMilli"] = func(ip *Interp, g *G, a []Value) Value { return unixMs(ip, a[0]) }
	in[T+"UnixMicro"] = func(ip *Interp, g *G, a []Value) Value {
		c := ip.c
		w, _, _ := ip.timeParts(a[0])
		return c.Add(c.Mul(unixMs(ip, a[0]), c.BV(64, 1000)), c.UDiv(w, c.BV(64, 1000)))
	}
	in[T+"UnixNano"] = func(ip *Interp, g *G, a []Value) Value {
		c := ip.c
		w, _, _ := ip.timeParts(a[0])
		return c.Add(c.Mul(unixMs(ip, a[0]), c.BV(64, 1000000)), w)
	}
	in[T+"Unix"] = func(ip *Interp, g *G, a []Value) Value {
		c := ip.c
		m := unixMs(ip, a[0])
		q := c.SDiv(m, c.BV(64, 1000))
		return c.Ite(c.Slt(c.SRem(m, c.BV(64, 1000)), c.BV(64, 0)), c.Sub(q, c.BV(64, 1)), q)
	}
	in[T+"Nanosecond"] = func(ip *Interp, g *G, a []Value) Value {
		c := ip.c
		w, ms, _ := ip.timeParts(a[0])
		return c.Add(w, c.Mul(c.URem(ms, c.BV(64, 1000)), c.BV(64, 1000000)))
	}
	in[T+"IsZero"] = func(ip *Interp, g *G, a []Value) Value {
		c := ip.c
		w, ms, _ := ip.timeParts(a[0])
		return c.And(c.Eq(w, c.BV(64, 0)), c.Eq(ms, c.BV(64, 0)))
	}
	self := func(ip *Interp, g *G, a []Value) Value { return a[0] }
	for _, n := range []string{"UTC", "Local", "In"} {
		in[T+n] = self
	}
	trunc := func(ip *Interp, g *G, a []Value) Value {
		c := ip.c
		d := int64(ip.concretize(a[1].(*Term)))
		w, ms, loc := ip.timeParts(a[0])
		switch {
		case d <= 0:
			return a[0]
		case d == 1000000:
			return Struct{c.BV(64, 0), ms, loc}
		case d%1000000 == 0:
			return Struct{c.BV(64, 0), c.Sub(ms, c.URem(ms, c.BV(64, uint64(d/1000000)))), loc}
		case 1000000%d == 0:
			return Struct{c.Sub(w, c.URem(w, c.BV(64, uint64(d)))), ms, loc}
		}
		unsupported("time.Truncate(%d)", d)
		return nil
	}
	in[T+"Truncate"] = trunc
	for _, n := range []string{"String", "Format", "GoString"} {
		in[T+n] = func(ip *Interp, g *G, a []Value) Value { return &Str{opaque: true} }
	}
	in["(time.Duration).String"] = func(ip *Interp, g *G, a []Value) Value { return &Str{opaque: true} }
	fromMs := func(ip *Interp, ms *Term) Value {
		return ip.mkTime(ip.c.BV(64, 0), ip.c.Add(ms, ip.c.BV(64, msYear1ToUnix)))
	}
	in["time.UnixMilli"] = func(ip *Interp, g *G, a []Value) Value { return fromMs(ip, a[0].(*Term)) }
	in["time.Unix"] = func(ip *Interp, g *G, a []Value) Value {
		t := fromMs(ip, ip.c.Mul(a[0].(*Term), ip.c.BV(64, 1000)))
		return ip.timeAdd(t, a[1].(*Term))
	}
	in["time.UnixMicro"] = func(ip *Interp, g *G, a []Value) Value {
		t := fromMs(ip, ip.c.BV(64, 0))
		return ip.timeAdd(t, ip.c.Mul(a[0].(*Term), ip.c.BV(64, 1000)))
	}
	in["time.Sleep"] = func(ip *Interp, g *G, a []Value) Value {
		if g.parked {
			g.parked = false
			return nil
		}
		d := a[0].(*Term)
		if ip.branch(ip.c.Sle(d, ip.c.BV(64, 0))) {
			return nil
		}
		// durations beyond the clock limit are all alike
		lim := ip.maxClock + 1
		if d.op != OpConst && ip.branch(ip.c.Slt(ip.c.BV(64, uint64(lim)), d)) {
			return ip.parkUntil(g, nil, lim+ip.clock, true)
		}
		n := int64(ip.concretize(d))
		at := ip.clock + n
		if at < 0 {
			at = 1<<63 - 1
		}
		return ip.parkUntil(g, nil, at, true)
	}
	for n, t := range map[string]string{
		"time.After": "vtAfter", "time.NewTimer": "vtNewTimer", "time.AfterFunc": "vtAfterFunc", "time.NewTicker": "vtNewTicker", "time.Tick": "vtTick",
		"(*time.Timer).Stop": "vtTimerStop", "(*time.Timer).Reset": "vtTimerReset", "(*time.Ticker).Stop": "vtTickerStop", "(*time.Ticker).Reset": "vtTickerReset",
	} {
		redirects[n] = redirect{target: t}
	}
	_ = types.Typ
}
