package main

// Path exploration: depth-first re-execution with decision prefixes; every symbolic branch is
// decided by the solver (one query for the side the current model does not take).

import (
	"encoding/hex"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type workItem struct {
	prefix []dec
	model  map[string]uint64
}

type Violation struct {
	Kind    string
	Msg     string
	Vector  []string
	Stack   []string
	Decs    []dec
	Sched   bool
	Count   int
	Replay  string // "", "reproduced", "not reproduced", ...
	Detail  string
	Sites   []string
	Harness string
	Sig     string
}

type Sample struct {
	Vector []string
	Obs    []string
	End    string
	Reject bool
}

type Explorer struct {
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []*workItem
	active   int
	h        *Harness
	deadline time.Time
	maxPaths int
	stop     bool

	paths, infeasible, steps int
	unsup                    map[string]int
	unknown                  int
	asserts                  int
	assertProved             int
	branches                 int
	rejects                  int
	viol                     map[string]*Violation
	samples                  []*Sample
	reached                  map[string]int
	funcs                    map[string]bool
	userFuncs                map[string]bool
	timedOut                 bool
	pathCap                  bool
	schedPts                 int
	raceQ                    int
	racePairs                int
	maxSteps                 int
	nHang                    int
	nViol                    int
	dropped                  int
	maxQ                     int
}

func (x *Explorer) countReject() { x.mu.Lock(); x.rejects++; x.mu.Unlock() }

type Worker struct {
	id      int
	c       *Ctx
	s       *Solver
	cp      *Compiler
	ip      *Interp
	x       *Explorer
	profile map[string]int
	cfg     *Config
	total   SolverStats
	rp      *rawPipe
	cross   *Solver
	crossN  int
}

func newWorker(id int, cp *Compiler, cfg *Config) *Worker {
	w := &Worker{id: id, cp: cp, cfg: cfg}
	w.reset()
	return w
}

func (w *Worker) reset() {
	if w.s != nil {
		w.total.add(w.s.stats)
		w.s.close()
	}
	w.c = newCtx()
	w.s = newSolver(w.c, w.cfg.Solver, w.cfg.QueryMs)
	w.ip = &Interp{c: w.c, w: w, cp: w.cp, emptyStr: concStr("")}
}

func (a *SolverStats) add(b SolverStats) {
	a.Queries += b.Queries
	a.Sat += b.Sat
	a.Unsat += b.Unsat
	a.Unknown += b.Unknown
	a.CrossChecked += b.CrossChecked
	a.CrossDisagree += b.CrossDisagree
	a.Time += b.Time
}

// ---------------------------------------------------------------- path-condition operations

func (ip *Interp) addPC(t *Term) {
	if t.isTrue() {
		return
	}
	if t.op == OpAnd {
		ip.addPC(t.a[0])
		ip.addPC(t.a[1])
		return
	}
	if ip.pcSet[t] {
		return
	}
	ip.pcSet[t] = true
	ip.pc = append(ip.pc, t)
	ip.collect(t, ip.suppSeen, &ip.supp)
}

func (ip *Interp) collect(t *Term, seen map[*Term]bool, out *[]*Term) {
	if t.op == OpConst || seen[t] {
		return
	}
	seen[t] = true
	if t.op == OpVar {
		*out = append(*out, t)
		return
	}
	for _, a := range t.a {
		ip.collect(a, seen, out)
	}
}

// query decides pc ∧ t.
// inTime gives the path up when the harness's time is over.
func (ip *Interp) inTime() {
	if x := ip.w.x; time.Now().After(x.deadline) {
		x.mu.Lock()
		x.timedOut = true
		x.mu.Unlock()
		panic(pathEnd{"timeout", ""})
	}
}

func (ip *Interp) query(t *Term) (Result, Model) {
	if t.isFalse() || ip.pcSet[ip.c.Not(t)] {
		return Unsat, nil
	}
	ip.inTime()
	vars := func() []*Term {
		vs := append([]*Term(nil), ip.supp...)
		seen := map[*Term]bool{}
		var ex []*Term
		ip.collect(t, seen, &ex)
		for _, v := range ex {
			if !ip.suppSeen[v] {
				vs = append(vs, v)
			}
		}
		return vs
	}
	r, m := ip.w.s.Check(ip.pc, t, vars)
	ip.w.crossCheck(ip.pc, t, r)
	if r == Sat {
		nm := ip.model.clone()
		for k, v := range m {
			nm[k] = v
		}
		if ip.c.hasUF {
			memo := evalMemo{}
			ok := nm.Eval(t, memo) == 1
			for _, p := range ip.pc {
				if !ok {
					break
				}
				ok = nm.Eval(p, memo) == 1
			}
			if !ok {
				return Unknown, nil
			}
		}
		return Sat, nm
	}
	if r == Unknown {
		ip.w.x.mu.Lock()
		ip.w.x.unknown++
		ip.w.x.mu.Unlock()
	}
	return r, nil
}

func (ip *Interp) eval(t *Term) uint64 { return ip.model.Eval(t, ip.memo) }

func (ip *Interp) setModel(m Model) {
	ip.model = m
	ip.memo = evalMemo{}
}

// branch decides a Bool term, forking when both sides are feasible.
func (ip *Interp) branch(t *Term) bool {
	if t.op == OpConst {
		return t.c == 1
	}
	if ip.pcSet[t] {
		return true
	}
	nt := ip.c.Not(t)
	if ip.pcSet[nt] {
		return false
	}
	if len(ip.log) < len(ip.prefix) {
		d := ip.prefix[len(ip.log)]
		ip.log = append(ip.log, d)
		if d.taken {
			ip.addPC(t)
		} else {
			ip.addPC(nt)
		}
		return d.taken
	}
	taken := ip.eval(t) == 1
	other := nt
	if !taken {
		other = t
	}
	r, m := ip.query(other)
	if r == Sat {
		ip.fork(dec{taken: !taken}, m)
	}
	ip.log = append(ip.log, dec{taken: taken})
	if r == Unsat && len(ip.log) >= 0 {
		// the other side is impossible: the literal is implied; keep it for syntactic reuse only
		if taken {
			ip.pcSet[t] = true
		} else {
			ip.pcSet[nt] = true
		}
		return taken
	}
	if taken {
		ip.addPC(t)
	} else {
		ip.addPC(nt)
	}
	return taken
}

func (ip *Interp) fork(d dec, m Model) {
	if ip.w.profile != nil && ip.cur != nil && len(ip.cur.frames) > 0 {
		ip.w.profile["FORK "+ip.where(ip.cur.frames[len(ip.cur.frames)-1])]++
	}
	pre := make([]dec, len(ip.log)+1)
	copy(pre, ip.log)
	pre[len(ip.log)] = d
	nm := make(map[string]uint64, len(m))
	for k, v := range m {
		nm[k.name] = v
	}
	ip.w.x.push(&workItem{prefix: pre, model: nm})
}

// choose picks one of n alternatives, all feasible (scheduling, select, map order, vPick).
func (ip *Interp) choose(n int, what string) int {
	if n <= 1 {
		return 0
	}
	if len(ip.log) < len(ip.prefix) {
		d := ip.prefix[len(ip.log)]
		ip.log = append(ip.log, d)
		return int(d.val)
	}
	for k := n - 1; k >= 1; k-- {
		ip.fork(dec{val: uint64(k)}, ip.model)
	}
	ip.log = append(ip.log, dec{val: 0})
	return 0
}

// concretize forks over all feasible values of t.
func (ip *Interp) concretize(t *Term) uint64 {
	if t.op == OpConst {
		return t.c
	}
	for n := 0; ; n++ {
		if n > 70000 {
			unsupported("too many values to enumerate")
		}
		if len(ip.log) < len(ip.prefix) {
			d := ip.prefix[len(ip.log)]
			ip.log = append(ip.log, d)
			eq := ip.c.Eq(t, ip.c.BV(t.w, d.val))
			if d.taken {
				ip.addPC(eq)
				return d.val
			}
			ip.addPC(ip.c.Not(eq))
			continue
		}
		if os.Getenv("VERIF_DEBUG") == "conc" {
			fmt.Fprintln(os.Stderr, "enumerates:", ip.stacks())
		}
		v := ip.eval(t)
		eq := ip.c.Eq(t, ip.c.BV(t.w, v))
		ne := ip.c.Not(eq)
		r, m := ip.query(ne)
		if r == Sat {
			ip.fork(dec{taken: false, val: v}, m)
		}
		ip.log = append(ip.log, dec{taken: true, val: v})
		ip.addPC(eq)
		return v
	}
}

func (ip *Interp) assume(t *Term) {
	if t.isTrue() {
		return
	}
	if t.isFalse() {
		panic(pathEnd{"infeasible", ""})
	}
	if ip.eval(t) != 1 {
		r, m := ip.query(t)
		if r != Sat {
			if r == Unknown {
				panic(pathEnd{"unknown", "assumption undecided"})
			}
			panic(pathEnd{"infeasible", ""})
		}
		ip.setModel(m)
	}
	ip.addPC(t)
}

// check is an assertion: the solver decides whether any input on this path violates it.
func (ip *Interp) check(g *G, msg string, t *Term) {
	x := ip.w.x
	if t.isTrue() || ip.pcSet[t] {
		x.mu.Lock()
		x.asserts++
		x.assertProved++
		x.mu.Unlock()
		return
	}
	// queries repeated by re-execution of a shared prefix are skipped
	if len(ip.log) < len(ip.prefix) {
		ip.addPC(t)
		return
	}
	x.mu.Lock()
	x.asserts++
	x.mu.Unlock()
	nt := ip.c.Not(t)
	var m Model
	var r Result
	if ip.eval(t) != 1 {
		r, m = Sat, ip.model
	} else {
		r, m = ip.query(nt)
	}
	switch r {
	case Sat:
		var st []string
		if g != nil {
			for i := len(g.frames) - 1; i >= 0 && len(st) < 12; i-- {
				if f := g.frames[i]; f.fn != nil {
					st = append(st, f.fn.name+" "+ip.where(f))
				}
			}
		}
		ip.violation(g, "assert", msg, m, st)
		if ip.eval(t) != 1 {
			r2, m2 := ip.query(t)
			if r2 != Sat {
				panic(pathEnd{"violated", msg})
			}
			ip.setModel(m2)
		}
		ip.addPC(t)
	case Unsat:
		x.mu.Lock()
		x.assertProved++
		x.mu.Unlock()
		ip.pcSet[t] = true
	default:
		// undecided: counted in x.unknown; nothing is concluded
	}
}

func (ip *Interp) vector(m Model) []string {
	memo := evalMemo{}
	var out []string
	for _, in := range ip.inputs {
		switch {
		case in.blob:
			b := make([]byte, len(in.ts))
			for i, t := range in.ts {
				b[i] = byte(m.Eval(t, memo))
			}
			out = append(out, in.name+" x"+hex.EncodeToString(b))
		case in.isC:
			out = append(out, fmt.Sprintf("%s %d", in.name, in.conc))
		default:
			out = append(out, fmt.Sprintf("%s %d", in.name, m.Eval(in.ts[0], memo)))
		}
	}
	return out
}

func (ip *Interp) violation(g *G, kind, msg string, m Model, stack []string) {
	v := &Violation{Kind: kind, Msg: msg, Vector: ip.vector(m), Stack: stack, Decs: append([]dec(nil), ip.log...), Sched: ip.explore, Count: 1, Sites: append([]string(nil), ip.preSites...), Harness: ip.w.x.h.Name}
	v.Sig = kind + ":" + sigOf(msg)
	if kind == "hang" {
		v.Sig = kind
	}
	x := ip.w.x
	x.mu.Lock()
	defer x.mu.Unlock()
	x.nViol++
	if o, ok := x.viol[v.Sig]; ok {
		o.Count++
		if o.Count <= 4 {
			x.viol[fmt.Sprintf("%s#%d", v.Sig, o.Count)] = v
		}
	} else {
		x.viol[v.Sig] = v
	}
	if kind == "hang" {
		x.nHang++
	}
	if x.nViol >= 300 || x.nHang >= 40 {
		x.stop = true
	}
}

// sigOf strips digits so that the same failure with other numbers is one finding.
func sigOf(s string) string {
	var sb strings.Builder
	prev := byte(0)
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if ch >= '0' && ch <= '9' {
			ch = '#'
			if prev == '#' {
				continue
			}
		}
		prev = ch
		sb.WriteByte(ch)
	}
	return sb.String()
}

// ---------------------------------------------------------------- exploration

func (x *Explorer) push(w *workItem) {
	x.mu.Lock()
	if len(x.queue) < 2000000 {
		x.queue = append(x.queue, w)
	} else {
		x.dropped++
	}
	if len(x.queue) > x.maxQ {
		x.maxQ = len(x.queue)
	}
	x.mu.Unlock()
	x.cond.Signal()
}

func (x *Explorer) next() *workItem {
	x.mu.Lock()
	defer x.mu.Unlock()
	for {
		if x.stop {
			return nil
		}
		if time.Now().After(x.deadline) {
			if len(x.queue) > 0 || x.active > 0 {
				x.timedOut = true
			}
			x.stop = true
			x.cond.Broadcast()
			return nil
		}
		if x.paths >= x.maxPaths {
			if len(x.queue) > 0 {
				x.pathCap = true
			}
			x.stop = true
			x.cond.Broadcast()
			return nil
		}
		if n := len(x.queue); n > 0 {
			w := x.queue[n-1]
			x.queue = x.queue[:n-1]
			x.active++
			return w
		}
		if x.active == 0 {
			x.cond.Broadcast()
			return nil
		}
		x.cond.Wait()
	}
}

func (x *Explorer) done() {
	x.mu.Lock()
	x.active--
	if x.active == 0 {
		x.cond.Broadcast()
	}
	x.mu.Unlock()
}

func (x *Explorer) run(ws []*Worker) {
	x.cond = sync.NewCond(&x.mu)
	x.viol = map[string]*Violation{}
	x.unsup = map[string]int{}
	x.reached = map[string]int{}
	x.funcs = map[string]bool{}
	x.userFuncs = map[string]bool{}
	x.queue = []*workItem{{}}
	stopTick := make(chan bool)
	go func() {
		for {
			select {
			case <-stopTick:
				return
			case <-time.After(200 * time.Millisecond):
				x.cond.Broadcast()
			}
		}
	}()
	var wg sync.WaitGroup
	for _, w := range ws {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			w.x = x
			for {
				it := x.next()
				if it == nil {
					return
				}
				w.runPath(it)
				x.done()
			}
		}(w)
	}
	wg.Wait()
	close(stopTick)
}

func (w *Worker) runPath(it *workItem) {
	if w.c.next > 3000000 {
		w.reset()
	}
	ip := w.ip
	ip.globals = nil
	ip.ginit = map[*ssa.Package]bool{}
	ip.gs = nil
	ip.cur = nil
	ip.clock = 0
	ip.looks, ip.lookClock = 0, 0
	ip.pc = nil
	ip.pcSet = map[*Term]bool{}
	ip.prefix = it.prefix
	ip.log = nil
	ip.steps = 0
	ip.maxSteps = w.x.h.MaxSteps
	ip.inputs = nil
	ip.vars = nil
	ip.obs = nil
	ip.ended = false
	ip.side = map[any]any{}
	ip.nextID = 0
	ip.alloc = 0
	ip.budget = 0
	ip.explore = false
	ip.preempts = 0
	ip.maxPre = 0
	ip.freeSwitch = 0
	ip.maxFree = 0
	ip.fine = false
	ip.switchReq = false
	ip.switchTo = nil
	ip.maxClock = int64(24 * time.Hour)
	ip.mapOrder = false
	ip.rejectOK = nil
	ip.onReject = nil
	ip.races = false
	ip.tr = nil
	ip.funcs = map[*Fn]bool{}
	ip.reached = map[string]bool{}
	ip.asserts = 0
	ip.mainRet = false
	ip.connIDs = map[*Value]int{}
	ip.supp = nil
	ip.suppSeen = map[*Term]bool{}
	ip.setModel(Model{})
	ip.pending = it.model
	ip.preSites = nil

	end := w.execPath()
	x := w.x
	x.mu.Lock()
	defer x.mu.Unlock()
	x.steps += ip.steps
	if ip.steps > x.maxSteps {
		x.maxSteps = ip.steps
	}
	x.branches += len(ip.log)
	switch end.kind {
	case "infeasible":
		x.infeasible++
		return
	case "timeout":
		return
	case "unsupported", "unknown", "internal":
		x.unsup[end.kind+": "+end.msg]++
		x.paths++
		return
	}
	x.paths++
	for f := range ip.funcs {
		if f.user {
			x.userFuncs[f.name] = true
		} else if !f.harness {
			x.funcs[f.name] = true
		}
	}
	for r := range ip.reached {
		x.reached[r]++
	}
	if len(x.samples) < 12 || (x.paths%97 == 0 && len(x.samples) < 60) {
		s := &Sample{Vector: ip.vector(ip.model), End: end.kind, Reject: ip.reached["rejected"]}
		for _, o := range ip.obs {
			var sb strings.Builder
			for _, t := range o.t {
				fmt.Fprintf(&sb, " %d", ip.eval(t))
			}
			s.Obs = append(s.Obs, o.name+sb.String())
		}
		x.samples = append(x.samples, s)
	}
}

func (w *Worker) execPath() (end pathEnd) {
	ip := w.ip
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(pathEnd); ok {
				end = pe
				switch pe.kind {
				case "steps", "stack":
					ip.violation(ip.cur, "hang", "does not terminate within the step budget: "+pe.msg, ip.model, ip.stacks())
				}
				if os.Getenv("VERIF_DEBUG") != "" && pe.kind == "unsupported" {
					fmt.Fprintln(os.Stderr, "unsupported:", pe.msg, ip.stacks())
				}
				return
			}
			end = pathEnd{"internal", fmt.Sprint(r)}
			fmt.Fprintf(os.Stderr, "internal error: %v\n%v\n", r, ip.stacks())
			if os.Getenv("VERIF_DEBUG") != "" {
				debug.PrintStack()
			}
		}
	}()
	// package initialisation of the code under test, then the harness
	ip.callInit()
	g := &G{id: 0, name: "main", main: true}
	ip.gs = append(ip.gs, g)
	ip.pushFn(g, ip.cp.get(w.x.h.fn), nil, nil, -1)
	ip.runAll()
	if !ip.mainRet {
		return pathEnd{"crashed", ""}
	}
	if ip.tr != nil {
		ip.tr.analyse(ip)
	}
	return pathEnd{"completed", ""}
}

func (ip *Interp) callInit() {
	main := ip.cp.p.main
	ip.ginit[main] = true
	ip.callNested(&callTarget{fn: ip.cp.get(main.Func("init"))})
}

func (x *Explorer) violations() []*Violation {
	var ks []string
	for k := range x.viol {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*Violation
	for _, k := range ks {
		out = append(out, x.viol[k])
	}
	return out
}

// crossCheck asks a second solver some of the queries; the answers must not contradict each other.
func (w *Worker) crossCheck(pc []*Term, t *Term, r Result) {
	w.crossN++
	if w.cfg.Solver2 == "" || r == Unknown || w.crossN%w.cfg.CrossEach != 0 {
		return
	}
	if w.cross == nil || w.cross.c != w.c {
		if w.cross != nil {
			w.cross.close()
		}
		w.cross = newSolver(w.c, w.cfg.Solver2, w.cfg.QueryMs)
	}
	r2, _ := w.cross.Check(pc, t, func() []*Term { return nil })
	if r2 == Unknown {
		return
	}
	w.total.CrossChecked++
	if r2 != r {
		w.total.CrossDisagree++
	}
}
