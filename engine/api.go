package main

// The harness API (symbolic side). The native side with the same names is harness/api_native.go.

import (
	"fmt"
)

// uniq gives repeated inputs of the same name distinct names, in call order.
func (ip *Interp) uniq(name string) string {
	m, _ := ip.side["names"].(map[string]int)
	if m == nil {
		m = map[string]int{}
		ip.side["names"] = m
	}
	m[name]++
	if n := m[name]; n > 1 {
		return fmt.Sprintf("%s#%d", name, n)
	}
	return name
}

func (ip *Interp) newVar(name string, w uint8) *Term {
	v := ip.c.Var(name, w)
	if val, ok := ip.pending[name]; ok {
		if _, has := ip.model[v]; !has {
			ip.model[v] = val
		}
	}
	return v
}

func (ip *Interp) input(name string, w uint8) *Term {
	name = ip.uniq(name)
	v := ip.newVar(name, w)
	ip.inputs = append(ip.inputs, &inputRec{name: name, w: w, ts: []*Term{v}})
	return v
}

func (ip *Interp) inputBytes(name string, n int) []*Term {
	name = ip.uniq(name)
	ts := make([]*Term, n)
	for i := range ts {
		ts[i] = ip.newVar(fmt.Sprintf("%s[%d]", name, i), 8)
	}
	ip.inputs = append(ip.inputs, &inputRec{name: name, w: 8, ts: ts, blob: true})
	return ts
}

func initHarness() {
	h := harnessIntr
	for n, w := range map[string]uint8{"vU8": 8, "vU16": 16, "vU32": 32, "vU64": 64, "vI8": 8, "vI16": 16, "vI32": 32, "vI64": 64, "vBool": 0, "vFloat64": 64} {
		h[n] = func(ip *Interp, g *G, a []Value) Value { return ip.input(ip.goStr(a[0]), w) }
	}
	h["vBytes"] = func(ip *Interp, g *G, a []Value) Value {
		n := int(ip.concInt(g, a[1]))
		ts := ip.inputBytes(ip.goStr(a[0]), n)
		r := make(Slice, n)
		for i, t := range ts {
			r[i] = t
		}
		return r
	}
	h["vStr"] = func(ip *Interp, g *G, a []Value) Value {
		n := int(ip.concInt(g, a[1]))
		ts := ip.inputBytes(ip.goStr(a[0]), n)
		if n == 0 {
			return ip.emptyStr
		}
		return &Str{b: ts}
	}
	h["vPick"] = func(ip *Interp, g *G, a []Value) Value {
		name := ip.uniq(ip.goStr(a[0]))
		n := int(ip.concInt(g, a[1]))
		if n <= 0 {
			panic(pathEnd{"infeasible", ""})
		}
		k := ip.choose(n, name)
		ip.inputs = append(ip.inputs, &inputRec{name: name, isC: true, conc: uint64(k)})
		return ip.c.BV(64, uint64(k))
	}
	h["vInt"] = func(ip *Interp, g *G, a []Value) Value {
		t := ip.input(ip.goStr(a[0]), 64)
		lo, hi := a[1].(*Term), a[2].(*Term)
		ip.assume(ip.c.And(ip.c.Sle(lo, t), ip.c.Sle(t, hi)))
		return t
	}
	h["vAssume"] = func(ip *Interp, g *G, a []Value) Value { ip.assume(a[0].(*Term)); return nil }
	h["vAssert"] = func(ip *Interp, g *G, a []Value) Value {
		ip.asserts++
		ip.check(g, ip.strText(a[1].(*Str)), a[0].(*Term))
		return nil
	}
	h["vReach"] = func(ip *Interp, g *G, a []Value) Value { ip.reached[ip.goStr(a[0])] = true; return nil }
	h["vObserve"] = func(ip *Interp, g *G, a []Value) Value {
		t := a[1].(*Term)
		ip.obs = append(ip.obs, obsRec{ip.goStr(a[0]), []*Term{t}})
		return nil
	}
	h["vObserveBytes"] = func(ip *Interp, g *G, a []Value) Value {
		s, _ := a[1].(Slice)
		var ts []*Term
		for _, b := range s {
			ts = append(ts, b.(*Term))
		}
		ip.obs = append(ip.obs, obsRec{ip.goStr(a[0]), ts})
		return nil
	}
	h["vBytesEq"] = func(ip *Interp, g *G, a []Value) Value {
		x, _ := a[0].(Slice)
		y, _ := a[1].(Slice)
		if len(x) != len(y) {
			return ip.c.tFalse
		}
		r := ip.c.tTrue
		for i := range x {
			r = ip.c.And(r, ip.c.Eq(x[i].(*Term), y[i].(*Term)))
			if r.isFalse() {
				break
			}
		}
		return r
	}
	h["vStrEq"] = func(ip *Interp, g *G, a []Value) Value { return ip.strEq(a[0].(*Str), a[1].(*Str)) }
	h["vAnd"] = func(ip *Interp, g *G, a []Value) Value {
		r := ip.c.tTrue
		s, _ := a[0].(Slice)
		for _, v := range s {
			r = ip.c.And(r, v.(*Term))
		}
		return r
	}
	h["vOr"] = func(ip *Interp, g *G, a []Value) Value {
		r := ip.c.tFalse
		s, _ := a[0].(Slice)
		for _, v := range s {
			r = ip.c.Or(r, v.(*Term))
		}
		return r
	}
	h["vNot"] = func(ip *Interp, g *G, a []Value) Value { return ip.c.Not(a[0].(*Term)) }
	h["vImplies"] = func(ip *Interp, g *G, a []Value) Value {
		return ip.c.Or(ip.c.Not(a[0].(*Term)), a[1].(*Term))
	}
	h["vIte"] = func(ip *Interp, g *G, a []Value) Value {
		return ip.c.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	}
	h["vMayReject"] = func(ip *Interp, g *G, a []Value) Value {
		ip.rejectOK = a[0].(*Term)
		return nil
	}
	h["vOnReject"] = func(ip *Interp, g *G, a []Value) Value {
		ip.onReject, _ = a[0].(*Closure)
		return nil
	}
	h["vAllocBudget"] = func(ip *Interp, g *G, a []Value) Value {
		ip.budget = ip.concInt(g, a[0])
		ip.alloc = 0
		return nil
	}
	h["vExplore"] = func(ip *Interp, g *G, a []Value) Value {
		ip.explore = true
		ip.maxPre = int(ip.concInt(g, a[0]))
		ip.maxFree = int(ip.concInt(g, a[1]))
		return nil
	}
	h["vFine"] = func(ip *Interp, g *G, a []Value) Value { ip.fine = true; return nil }
	h["vNoExplore"] = func(ip *Interp, g *G, a []Value) Value { ip.explore = false; return nil }
	h["vRaces"] = func(ip *Interp, g *G, a []Value) Value {
		ip.races = true
		ip.tr = newTrace()
		return nil
	}
	h["vMapOrder"] = func(ip *Interp, g *G, a []Value) Value { ip.mapOrder = true; return nil }
	h["vClockNs"] = func(ip *Interp, g *G, a []Value) Value { return ip.c.BV(64, uint64(ip.clock)) }
	h["vMaxClock"] = func(ip *Interp, g *G, a []Value) Value { ip.maxClock = ip.concInt(g, a[0]); return nil }
	h["vConcrete"] = func(ip *Interp, g *G, a []Value) Value { return ip.c.BV(64, ip.concretize(a[0].(*Term))) }
	h["vPark"] = func(ip *Interp, g *G, a []Value) Value {
		at := ip.concInt(g, a[0])
		return ip.parkUntil(g, "park", at, at >= 0)
	}
	h["vNotify"] = func(ip *Interp, g *G, a []Value) Value { ip.wake("park"); return nil }
	h["vYield"] = func(ip *Interp, g *G, a []Value) Value {
		if ip.explore {
			if ip.yieldPoint(g) {
				return blockedV
			}
			return nil
		}
		return nil
	}
	h["vSettle"] = func(ip *Interp, g *G, a []Value) Value {
		if g.parked {
			g.parked = false
			return nil
		}
		g.state = gBlocked
		g.parked = true
		g.waitOn = "settle"
		g.hasWake = false
		g.noPick = true
		return blockedV
	}
	h["vSymbolic"] = func(ip *Interp, g *G, a []Value) Value { return ip.c.tTrue }
	h["vThorough"] = func(ip *Interp, g *G, a []Value) Value { return ip.c.Bool(ip.w.cfg.Thorough) }
	h["vLog"] = nop
	h["vCount"] = func(ip *Interp, g *G, a []Value) Value { // live goroutines other than main and parked env
		n := 0
		for _, o := range ip.gs {
			if o.state != gDead {
				n++
			}
		}
		return ip.c.BV(64, uint64(n))
	}
	h["vBindConn"] = func(ip *Interp, g *G, a []Value) Value {
		p := a[0].(*Value)
		id := int(ip.concInt(g, a[1]))
		ip.connIDs[p] = id
		if s, ok := (*p).(Struct); ok && len(s) > 0 {
			ip.connIDs[&s[0]] = id
		}
		return nil
	}
}
