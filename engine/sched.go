package main

// Goroutines, scheduling, virtual time, channels.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (ip *Interp) spawn(g *G, ct *callTarget, i *ssa.Go) *G {
	ng := &G{id: len(ip.gs)}
	if ct.fn != nil {
		ng.name = ct.fn.name
	} else {
		ng.name = "func"
	}
	ip.gs = append(ip.gs, ng)
	if ip.tr != nil {
		ip.tr.spawn(ip, g, ng)
	}
	switch {
	case ct.fn != nil && ct.fn.intr == nil && ct.builtin == nil && ct.native == nil:
		ip.pushFn(ng, ct.fn, ct.env, ct.args, -1)
	default:
		ng.frames = append(ng.frames, &Frame{stub: ct, dst: -1})
	}
	return ng
}

func (ip *Interp) onExit(g *G) {
	if ip.tr != nil {
		ip.tr.add(ip, g, evExit, nil, "")
	}
	if g.main {
		ip.mainRet = true
		ip.ended = true
	}
}

// onCrash handles an uncaught panic: the whole process dies.
func (ip *Interp) onCrash(g *G, rec *panicRec) {
	if g.id < 0 {
		return
	}
	ip.ended = true
	text := ip.panicText(rec.val)
	if isRuntimeFault(rec.val) {
		ip.violation(g, "crash", fmt.Sprintf("uncaught run-time fault: %s at %s", text, rec.where), ip.model, rec.stack)
		return
	}
	ip.w.x.countReject()
	if ip.rejectOK == nil || ip.rejectOK.isFalse() {
		ip.violation(g, "reject", fmt.Sprintf("unexpected panic: %s at %s", text, rec.where), ip.model, rec.stack)
		return
	}
	ip.asserts++
	ip.check(g, "deliberate rejection only where allowed: "+text, ip.rejectOK)
	if ip.onReject != nil {
		ip.ended = false
		f := ip.onReject
		ip.onReject = nil
		ip.callNested(&callTarget{fn: f.fn, env: f.env})
		ip.ended = true
	}
	ip.reached["rejected"] = true
}

// yieldPoint offers the scheduler a context switch before a synchronisation operation. It returns
// true if the running goroutine has to stop here (the operation is executed when it resumes).
func (ip *Interp) yieldPoint(g *G) bool {
	if !ip.explore || g.envDep > 0 || g.id < 0 {
		return false
	}
	if g.noPick {
		g.noPick = false
		return false
	}
	if ip.preempts >= ip.maxPre {
		return false
	}
	var cand []*G
	for _, o := range ip.gs {
		if o != g && o.state == gRun {
			cand = append(cand, o)
		}
	}
	if len(cand) == 0 {
		return false
	}
	k := ip.choose(len(cand)+1, "sched")
	if k == 0 {
		return false
	}
	ip.preempts++
	if f := g.userFrame(); f != nil {
		ip.preSites = append(ip.preSites, ip.where(f))
	}
	g.noPick = true
	ip.switchReq = true
	ip.switchTo = cand[k-1]
	return true
}

func (ip *Interp) runAll() {
	cur := ip.gs[0]
	for !ip.ended {
		if ip.switchReq {
			ip.switchReq = false
			if ip.switchTo != nil {
				cur = ip.switchTo
				ip.switchTo = nil
			}
		}
		if cur == nil || cur.state != gRun {
			cur = ip.pick(cur)
			if cur == nil {
				ip.deadlock()
				return
			}
		}
		ip.cur = cur
		ip.runG(cur, 0)
	}
}

func (ip *Interp) pick(last *G) *G {
	for {
		var cand []*G
		n := len(ip.gs)
		start := 0
		if last != nil {
			start = last.id + 1
		}
		for k := 0; k < n; k++ {
			o := ip.gs[(start+k)%n]
			if o.state == gRun {
				cand = append(cand, o)
			}
		}
		if len(cand) > 0 {
			if ip.explore && len(cand) > 1 && ip.freeSwitch < ip.maxFree {
				ip.freeSwitch++
				g := cand[ip.choose(len(cand), "sched")]
				return g
			}
			return cand[0]
		}
		// goroutines waiting for everything else to come to rest
		settled := false
		for _, o := range ip.gs {
			if o.state == gBlocked && o.waitOn == any("settle") {
				ip.wakeG(o)
				settled = true
				break
			}
		}
		if settled {
			continue
		}
		// advance virtual time
		var best *G
		for _, o := range ip.gs {
			if o.hasWake && (o.state == gSleep || o.state == gBlocked) {
				if best == nil || o.wakeAt < best.wakeAt {
					best = o
				}
			}
		}
		if best == nil {
			return nil
		}
		if best.wakeAt > ip.clock {
			ip.clock = best.wakeAt
		}
		if ip.clock > ip.maxClock {
			ip.ended = true
			ip.violation(nil, "hang", fmt.Sprintf("still not finished after %d s of virtual time", ip.clock/1e9), ip.model, ip.stacks())
			return ip.gs[0]
		}
		ip.wakeG(best)
		// everything due at the same instant becomes runnable too
		for _, o := range ip.gs {
			if o.hasWake && o.state != gRun && o.state != gDead && o.wakeAt <= ip.clock {
				ip.wakeG(o)
			}
		}
	}
}

func (ip *Interp) stacks() []string {
	var r []string
	for _, g := range ip.gs {
		if g.state == gDead {
			continue
		}
		for i := len(g.frames) - 1; i >= 0 && i >= len(g.frames)-6; i-- {
			f := g.frames[i]
			if f.fn != nil {
				r = append(r, fmt.Sprintf("g%d %s %s", g.id, f.fn.name, ip.where(f)))
			}
		}
	}
	return r
}

func (ip *Interp) deadlock() {
	if ip.ended {
		return
	}
	ip.ended = true
	ip.violation(nil, "deadlock", "all goroutines are blocked", ip.model, ip.stacks())
}

func (ip *Interp) wakeG(g *G) {
	g.state = gRun
	g.hasWake = false
	g.waitOn = nil
}

// blockOn parks g until wake(obj).
func (ip *Interp) blockOn(g *G, obj any) Value {
	if g.id < 0 {
		unsupported("blocking in nested call")
	}
	g.state = gBlocked
	g.waitOn = obj
	g.hasWake = false
	g.noPick = true // resume is a scheduling decision of its own
	return blockedV
}

func (ip *Interp) wake(obj any) {
	for _, g := range ip.gs {
		if g.state == gBlocked && g.waitOn == obj {
			ip.wakeG(g)
		}
	}
}

// sleepUntil implements time.Sleep and parking with a deadline.
func (ip *Interp) parkUntil(g *G, obj any, at int64, hasAt bool) Value {
	if g.parked {
		g.parked = false
		return nil
	}
	if g.id < 0 {
		unsupported("sleeping in nested call")
	}
	g.state = gBlocked
	g.parked = true
	g.waitOn = obj
	g.wakeAt = at
	g.hasWake = hasAt
	g.noPick = true
	return blockedV
}

// ---------------------------------------------------------------- channels

type chanWait struct {
	tok *waitTok
	idx int
	val Value
}

func live(q []*chanWait) []*chanWait {
	for len(q) > 0 && q[0].tok.done {
		q = q[1:]
	}
	return q
}

func (ip *Interp) complete(w *chanWait, val Value, ok bool) {
	w.tok.done = true
	w.tok.idx = w.idx
	w.tok.val = val
	w.tok.ok = ok
	ip.wakeG(w.tok.g)
}

// trySend/tryRecv attempt the operation without blocking.
func (ip *Interp) trySend(g *G, ch *ChanV, v Value) bool {
	if ch == nil {
		return false
	}
	if ch.closed {
		ip.throwRT(g, "send on closed channel")
	}
	ch.recvq = live(ch.recvq)
	if len(ch.recvq) > 0 {
		w := ch.recvq[0]
		ch.recvq = ch.recvq[1:]
		if ip.tr != nil {
			ip.tr.edgeFrom(ip, g, ch)
			ip.tr.edgeTo(ip, w.tok.g, ch)
		}
		ip.complete(w, copyVal(v), true)
		return true
	}
	if len(ch.buf) < ch.cap {
		if ip.tr != nil {
			ip.tr.edgeFrom(ip, g, ch)
		}
		ch.buf = append(ch.buf, copyVal(v))
		return true
	}
	return false
}

func (ip *Interp) tryRecv(g *G, ch *ChanV) (Value, bool, bool) {
	if ch == nil {
		return nil, false, false
	}
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		if ip.tr != nil {
			ip.tr.edgeTo(ip, g, ch)
		}
		ch.sendq = live(ch.sendq)
		if len(ch.sendq) > 0 {
			w := ch.sendq[0]
			ch.sendq = ch.sendq[1:]
			ch.buf = append(ch.buf, w.val)
			ip.complete(w, nil, true)
		}
		return v, true, true
	}
	ch.sendq = live(ch.sendq)
	if len(ch.sendq) > 0 {
		w := ch.sendq[0]
		ch.sendq = ch.sendq[1:]
		if ip.tr != nil {
			ip.tr.edgeFrom(ip, w.tok.g, ch)
			ip.tr.edgeTo(ip, g, ch)
		}
		ip.complete(w, nil, true)
		return w.val, true, true
	}
	if ch.closed {
		if ip.tr != nil {
			ip.tr.edgeTo(ip, g, ch)
		}
		return nil, false, true
	}
	return nil, false, false
}

func (ip *Interp) chanClose(g *G, ch *ChanV) {
	if ch == nil {
		ip.throwRT(g, "close of nil channel")
	}
	if ch.closed {
		ip.throwRT(g, "close of closed channel")
	}
	ch.closed = true
	if ip.tr != nil {
		ip.tr.edgeFrom(ip, g, ch)
	}
	for _, w := range ch.recvq {
		if !w.tok.done {
			if ip.tr != nil {
				ip.tr.edgeTo(ip, w.tok.g, ch)
			}
			ip.complete(w, nil, false)
		}
	}
	ch.recvq = nil
	for _, w := range ch.sendq {
		if !w.tok.done {
			w.tok.clos = true
			ip.complete(w, nil, false)
		}
	}
	ch.sendq = nil
}

func (ip *Interp) parkChan(g *G, tok *waitTok) {
	if g.id < 0 {
		unsupported("blocking in nested call")
	}
	g.tok = tok
	g.state = gBlocked
	g.waitOn = tok
	g.hasWake = false
	g.noPick = true
}

func (ip *Interp) chanSend(g *G, fr *Frame, chv, v Value) bool {
	ch := chv.(*ChanV)
	if g.tok != nil && g.tok.done {
		t := g.tok
		g.tok = nil
		if t.clos {
			ip.throwRT(g, "send on closed channel")
		}
		return true
	}
	if ip.yieldPoint(g) {
		return false
	}
	if ip.trySend(g, ch, v) {
		return true
	}
	tok := &waitTok{g: g}
	if ch != nil {
		ch.sendq = append(ch.sendq, &chanWait{tok: tok, val: copyVal(v)})
	}
	ip.parkChan(g, tok)
	return false
}

func (ip *Interp) recvResult(in *Inst, ch *ChanV, elem types.Type, commaOk bool, v Value, ok bool) Value {
	if v == nil {
		v = ip.zero(elem)
	}
	if commaOk {
		return Tuple{v, ip.c.Bool(ok)}
	}
	return v
}

func (ip *Interp) chanRecv(g *G, fr *Frame, in *Inst, i *ssa.UnOp) bool {
	x := ip.get(fr, &in.ops[0])
	ch, ok := x.(*ChanV)
	if !ok {
		unsupported("receive from %T", x)
	}
	elem := i.X.Type().Underlying().(*types.Chan).Elem()
	if g.tok != nil && g.tok.done {
		t := g.tok
		g.tok = nil
		fr.regs[in.dst] = ip.recvResult(in, ch, elem, i.CommaOk, t.val, t.ok)
		return true
	}
	if ip.yieldPoint(g) {
		return false
	}
	if v, ok, done := ip.tryRecv(g, ch); done {
		fr.regs[in.dst] = ip.recvResult(in, ch, elem, i.CommaOk, v, ok)
		return true
	}
	tok := &waitTok{g: g}
	if ch != nil {
		ch.recvq = append(ch.recvq, &chanWait{tok: tok})
	}
	ip.parkChan(g, tok)
	return false
}

func (ip *Interp) selectOp(g *G, fr *Frame, in *Inst, i *ssa.Select) bool {
	c := ip.c
	n := len(i.States)
	tt := i.Type().(*types.Tuple)
	result := func(idx int, v Value, ok bool) {
		r := Tuple{c.BV(64, uint64(int64(idx))), c.Bool(ok)}
		k := 2
		for j, s := range i.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			if j == idx && v != nil {
				r = append(r, v)
			} else {
				r = append(r, ip.zero(tt.At(k).Type()))
			}
			k++
		}
		fr.regs[in.dst] = r
	}
	if g.tok != nil && g.tok.done {
		t := g.tok
		g.tok = nil
		if t.clos {
			ip.throwRT(g, "send on closed channel")
		}
		result(t.idx, t.val, t.ok)
		return true
	}
	if ip.yieldPoint(g) {
		return false
	}
	// ready cases
	var ready []int
	for j, s := range i.States {
		ch := ip.get(fr, &in.ops[2*j]).(*ChanV)
		if ch == nil {
			continue
		}
		if s.Dir == types.RecvOnly {
			ch.sendq = live(ch.sendq)
			if len(ch.buf) > 0 || len(ch.sendq) > 0 || ch.closed {
				ready = append(ready, j)
			}
		} else {
			ch.recvq = live(ch.recvq)
			if ch.closed || len(ch.recvq) > 0 || len(ch.buf) < ch.cap {
				ready = append(ready, j)
			}
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 {
			k = ip.choose(len(ready), "select")
		}
		j := ready[k]
		ch := ip.get(fr, &in.ops[2*j]).(*ChanV)
		if i.States[j].Dir == types.RecvOnly {
			v, ok, _ := ip.tryRecv(g, ch)
			result(j, v, ok)
		} else {
			ip.trySend(g, ch, ip.get(fr, &in.ops[2*j+1]))
			result(j, nil, false)
		}
		return true
	}
	if !i.Blocking {
		result(-1, nil, false)
		return true
	}
	tok := &waitTok{g: g}
	for j, s := range i.States {
		ch := ip.get(fr, &in.ops[2*j]).(*ChanV)
		if ch == nil {
			continue
		}
		w := &chanWait{tok: tok, idx: j}
		if s.Dir == types.RecvOnly {
			ch.recvq = append(ch.recvq, w)
		} else {
			w.val = copyVal(ip.get(fr, &in.ops[2*j+1]))
			ch.sendq = append(ch.sendq, w)
		}
	}
	_ = n
	ip.parkChan(g, tok)
	return false
}

// userFrame is the innermost frame that belongs to the code under test.
func (g *G) userFrame() *Frame {
	for i := len(g.frames) - 1; i >= 0; i-- {
		if f := g.frames[i]; f.fn != nil && f.fn.user {
			return f
		}
	}
	return nil
}
