package main

// Data-race analysis. A path's synchronisation operations and shared accesses are recorded; every
// pair of conflicting accesses is then decided by the solver over all reorderings of that path that
// keep program order, goroutine creation, channel/WaitGroup/atomic edges and lock mutual exclusion.

import (
	"bufio"
	"fmt"
	"os/exec"
	"sort"
	"strings"
	"time"
)

type evKind uint8

const (
	evLock evKind = iota
	evUnlock
	evRLock
	evRUnlock
	evRelease
	evAcquire
	evAtomic
	evExit
	evSpawn
	evStart
	evRead
	evWrite
)

type event struct {
	id    int
	g     int
	kind  evKind
	obj   any
	where string
	stack []string
	hb    []int // ids of events that must come first
	rf    int   // a read that yielded a reference: 1 + id of the other goroutine's write it saw
}

type Trace struct {
	evs   []*event
	last  map[int]*event       // last event per goroutine
	rel   map[any][]*event     // releases since the last acquire, per object
	seen  map[string]bool      // access dedup within a synchronisation epoch
	epoch map[int]int          // per goroutine
	cells map[any]map[int]bool // goroutines that touched a cell
	wr    map[any]bool
	lastW map[any]*event // last write per cell
	start map[int]*event
	over  bool
}

func newTrace() *Trace {
	return &Trace{last: map[int]*event{}, rel: map[any][]*event{}, seen: map[string]bool{}, epoch: map[int]int{}, cells: map[any]map[int]bool{}, wr: map[any]bool{}, lastW: map[any]*event{}, start: map[int]*event{}}
}

const maxEvents = 60000

func (t *Trace) push(g int, k evKind, obj any) *event {
	e := &event{id: len(t.evs), g: g, kind: k, obj: obj}
	if l := t.last[g]; l != nil {
		e.hb = append(e.hb, l.id)
	} else if s := t.start[g]; s != nil {
		e.hb = append(e.hb, s.id)
	}
	t.last[g] = e
	t.evs = append(t.evs, e)
	if k != evRead && k != evWrite {
		t.epoch[g]++
	}
	if len(t.evs) > maxEvents {
		t.over = true
	}
	return e
}

func (t *Trace) add(ip *Interp, g *G, k evKind, obj any, where string) {
	if t.over || g.id < 0 {
		return
	}
	e := t.push(g.id, k, obj)
	switch k {
	case evRelease:
		t.rel[obj] = append(t.rel[obj], e)
	case evAcquire:
		for _, r := range t.rel[obj] {
			e.hb = append(e.hb, r.id)
		}
	case evAtomic:
		for _, r := range t.rel[obj] {
			e.hb = append(e.hb, r.id)
		}
		t.rel[obj] = []*event{e}
	}
}

func (t *Trace) spawn(ip *Interp, g, ng *G) {
	if t.over {
		return
	}
	t.start[ng.id] = t.push(g.id, evSpawn, nil)
}

// edgeFrom/edgeTo: a release by g and a later acquire on the same object (channels).
func (t *Trace) edgeFrom(ip *Interp, g *G, obj any) {
	if t.over || g.id < 0 {
		return
	}
	e := t.push(g.id, evRelease, obj)
	t.rel[obj] = append(t.rel[obj], e)
	if len(t.rel[obj]) > 64 {
		t.rel[obj] = t.rel[obj][1:]
	}
}

func (t *Trace) edgeTo(ip *Interp, g *G, obj any) {
	if t.over || g.id < 0 {
		return
	}
	e := t.push(g.id, evAcquire, obj)
	for _, r := range t.rel[obj] {
		e.hb = append(e.hb, r.id)
	}
}

// access records a read or write of a memory cell or map.
func (ip *Interp) access(g *G, fr *Frame, loc any, write bool) {
	t := ip.tr
	if t == nil || t.over || !ip.races || g.id < 0 || fr == nil || fr.fn == nil || fr.fn.harness || g.envDep > 0 {
		return
	}
	switch p := loc.(type) {
	case *Value:
		if p == nil {
			return
		}
		switch agg := (*p).(type) {
		case Struct:
			for i := range agg {
				ip.access(g, fr, &agg[i], write)
			}
			return
		case Array:
			for i := range agg {
				ip.access(g, fr, &agg[i], write)
			}
			return
		}
	case *MapV:
		if p == nil {
			return
		}
	}
	k := evRead
	if write {
		k = evWrite
	}
	key := fmt.Sprintf("%d/%d/%p/%d", g.id, t.epoch[g.id], loc, k)
	if t.seen[key] {
		return
	}
	t.seen[key] = true
	e := t.push(g.id, k, loc)
	if write {
		t.lastW[loc] = e
	} else if w := t.lastW[loc]; w != nil && w.g != g.id && isRef(loc) {
		e.rf = 1 + w.id
	}
	e.where = fr.fn.name + " " + ip.where(fr)
	for i := len(g.frames) - 1; i >= 0 && len(e.stack) < 8; i-- {
		if f := g.frames[i]; f.fn != nil {
			e.stack = append(e.stack, f.fn.name+" "+ip.where(f))
		}
	}
	cs := t.cells[loc]
	if cs == nil {
		cs = map[int]bool{}
		t.cells[loc] = cs
	}
	cs[g.id] = true
	if write {
		t.wr[loc] = true
	}
}

// isRef: what a read of loc yields leads to other memory, so what follows depends on that write.
func isRef(loc any) bool {
	p, ok := loc.(*Value)
	if !ok {
		return true // a map
	}
	switch (*p).(type) {
	case *Term, nil:
		return false
	}
	return true
}

type section struct {
	g      int
	lo, hi int // event ids; hi = -1 if never released
	shared bool
}

// analyse decides all conflicting pairs of the recorded path with one query per candidate batch.
func (t *Trace) analyse(ip *Interp) {
	x := ip.w.x
	if t.over {
		x.mu.Lock()
		x.unsup["race analysis: too many events"]++
		x.mu.Unlock()
	}
	byLoc := map[any][]*event{}
	nconf := 0
	for _, e := range t.evs {
		if (e.kind == evRead || e.kind == evWrite) && len(t.cells[e.obj]) > 1 && t.wr[e.obj] {
			byLoc[e.obj] = append(byLoc[e.obj], e)
		}
	}
	type pair struct{ a, b *event }
	groups := map[string]pair{}
	for _, es := range byLoc {
		for i, a := range es {
			for _, b := range es[i+1:] {
				if a.g == b.g || (a.kind == evRead && b.kind == evRead) {
					continue
				}
				nconf++
				// one representative per pair of code sites, goroutines and synchronisation epochs
				k := fmt.Sprintf("%s|%s|%d|%d|%d|%d", a.where, b.where, a.g, b.g, t.epochOf(a), t.epochOf(b))
				if _, ok := groups[k]; !ok {
					groups[k] = pair{a, b}
				}
			}
		}
	}
	x.mu.Lock()
	x.racePairs += nconf
	x.mu.Unlock()
	if len(groups) == 0 {
		return
	}
	var keys []string
	for k := range groups {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	// relevant events: all synchronisation events and the accesses in groups
	rel := map[int]bool{}
	for _, p := range groups {
		rel[p.a.id], rel[p.b.id] = true, true
	}
	for _, e := range t.evs {
		if e.kind != evRead && e.kind != evWrite {
			rel[e.id] = true
		}
		if e.rf > 0 {
			rel[e.id], rel[e.rf-1] = true, true
		}
	}
	var sb strings.Builder
	sb.WriteString("(push 1)\n")
	for _, e := range t.evs {
		if rel[e.id] {
			fmt.Fprintf(&sb, "(declare-const o%d Int)\n", e.id)
		}
	}
	// program order over relevant events; cross edges of sync events and starts
	last := map[int]int{}
	for _, e := range t.evs {
		if !rel[e.id] {
			continue
		}
		if l, ok := last[e.g]; ok {
			fmt.Fprintf(&sb, "(assert (< o%d o%d))\n", l, e.id)
		} else if s := t.start[e.g]; s != nil {
			fmt.Fprintf(&sb, "(assert (< o%d o%d))\n", s.id, e.id)
		}
		last[e.g] = e.id
		if e.rf > 0 { // not strictly later: the two may be the race
			fmt.Fprintf(&sb, "(assert (<= o%d o%d))\n", e.rf-1, e.id)
		}
		for _, h := range e.hb {
			if t.evs[h].g != e.g && rel[h] && t.evs[h].kind != evSpawn {
				fmt.Fprintf(&sb, "(assert (< o%d o%d))\n", h, e.id)
			}
		}
	}
	// critical sections
	locks := map[any][]*section{}
	open := map[string]*section{}
	for _, e := range t.evs {
		key := fmt.Sprintf("%d/%p", e.g, e.obj)
		switch e.kind {
		case evLock, evRLock:
			s := &section{g: e.g, lo: e.id, hi: -1, shared: e.kind == evRLock}
			locks[e.obj] = append(locks[e.obj], s)
			open[key] = s
		case evUnlock, evRUnlock:
			if s := open[key]; s != nil {
				s.hi = e.id
				delete(open, key)
			}
		}
	}
	var lk []string
	lm := map[string][]*section{}
	for o, ss := range locks {
		k := fmt.Sprintf("%p", o)
		lk = append(lk, k)
		lm[k] = ss
	}
	sort.Strings(lk)
	for _, k := range lk {
		ss := lm[k]
		for i, a := range ss {
			for _, b := range ss[i+1:] {
				if a.g == b.g || (a.shared && b.shared) {
					continue
				}
				switch {
				case a.hi >= 0 && b.hi >= 0:
					fmt.Fprintf(&sb, "(assert (or (< o%d o%d) (< o%d o%d)))\n", a.hi, b.lo, b.hi, a.lo)
				case a.hi >= 0:
					fmt.Fprintf(&sb, "(assert (< o%d o%d))\n", a.hi, b.lo)
				case b.hi >= 0:
					fmt.Fprintf(&sb, "(assert (< o%d o%d))\n", b.hi, a.lo)
				}
			}
		}
	}
	base := sb.String()
	excluded := map[string]bool{}
	for round := 0; round < 12; round++ {
		var qs []string
		for _, k := range keys {
			p := groups[k]
			site := p.a.where + " / " + p.b.where
			if excluded[site] {
				continue
			}
			qs = append(qs, fmt.Sprintf("(= o%d o%d)", p.a.id, p.b.id))
		}
		if len(qs) == 0 {
			break
		}
		q := base + "(assert (or false " + strings.Join(qs, " ") + "))\n(check-sat)\n"
		if round > 0 {
			q = "(pop 1)\n" + q
		}
		res := ip.w.raw(q)
		x.mu.Lock()
		x.raceQ++
		x.mu.Unlock()
		if res == "unsat" {
			break
		}
		if res != "sat" {
			x.mu.Lock()
			x.unknown++
			x.mu.Unlock()
			break
		}
		// find the pairs this model satisfies
		var names []string
		for _, k := range keys {
			p := groups[k]
			names = append(names, fmt.Sprintf("(= o%d o%d)", p.a.id, p.b.id))
		}
		vals := ip.w.rawBools(names)
		found := false
		for i, v := range vals {
			p := groups[keys[i]]
			site := p.a.where + " / " + p.b.where
			if v && !excluded[site] {
				excluded[site] = true
				found = true
				kinds := map[evKind]string{evRead: "read", evWrite: "write"}
				st := append([]string{kinds[p.a.kind] + " g" + fmt.Sprint(p.a.g)}, p.a.stack...)
				st = append(st, kinds[p.b.kind]+" g"+fmt.Sprint(p.b.g))
				st = append(st, p.b.stack...)
				ip.violation(nil, "race", fmt.Sprintf("data race: %s at %s and %s at %s can happen at the same time", kinds[p.a.kind], p.a.where, kinds[p.b.kind], p.b.where), ip.model, st)
			}
		}
		if !found {
			break
		}
	}
	ip.w.rawSend("(pop 1)\n")
}

func (t *Trace) epochOf(e *event) int {
	n := 0
	// number of sync events of the same goroutine before e (cached lazily)
	for i := e.id - 1; i >= 0; i-- {
		o := t.evs[i]
		if o.g == e.g && o.kind != evRead && o.kind != evWrite {
			n = o.id
			break
		}
	}
	return n
}

// ---------------------------------------------------------------- raw solver pipe

type rawPipe struct {
	cmd *exec.Cmd
	in  *bufio.Writer
	out *bufio.Reader
}

func (w *Worker) rawStart() {
	cmd := exec.Command(solverArgs(w.cfg.Solver)[0], solverArgs(w.cfg.Solver)[1:]...)
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	if cmd.Start() != nil {
		return
	}
	w.rp = &rawPipe{cmd: cmd, in: bufio.NewWriterSize(in, 1<<20), out: bufio.NewReaderSize(out, 1<<16)}
	fmt.Fprintf(w.rp.in, "(set-option :timeout %d)\n", w.cfg.QueryMs)
}

func (w *Worker) rawSend(s string) {
	if w.rp != nil {
		w.rp.in.WriteString(s)
	}
}

func (w *Worker) raw(q string) string {
	if w.rp == nil {
		w.rawStart()
		if w.rp == nil {
			return "unknown"
		}
	}
	t0 := time.Now()
	w.rp.in.WriteString(q)
	w.rp.in.Flush()
	l, err := w.rp.out.ReadString('\n')
	w.s.stats.Queries++
	w.s.stats.Time += time.Since(t0)
	if err != nil {
		w.rp = nil
		return "unknown"
	}
	l = strings.TrimSpace(l)
	switch l {
	case "sat":
		w.s.stats.Sat++
	case "unsat":
		w.s.stats.Unsat++
	default:
		w.s.stats.Unknown++
	}
	return l
}

func (w *Worker) rawBools(exprs []string) []bool {
	var out []bool
	for i := 0; i < len(exprs); i += 200 {
		part := exprs[i:min(i+200, len(exprs))]
		w.rp.in.WriteString("(get-value (" + strings.Join(part, " ") + "))\n")
		w.rp.in.Flush()
		depth := 0
		var sb strings.Builder
		for {
			b, err := w.rp.out.ReadByte()
			if err != nil {
				w.rp = nil
				return out
			}
			sb.WriteByte(b)
			if b == '(' {
				depth++
			} else if b == ')' {
				depth--
				if depth == 0 {
					w.rp.out.ReadString('\n')
					break
				}
			}
		}
		// each entry ends with " true)" or " false)"
		s := sb.String()
		for {
			ti, fi := strings.Index(s, ") true)"), strings.Index(s, ") false)")
			if ti < 0 && fi < 0 {
				break
			}
			if fi < 0 || (ti >= 0 && ti < fi) {
				out = append(out, true)
				s = s[ti+7:]
			} else {
				out = append(out, false)
				s = s[fi+8:]
			}
		}
	}
	return out
}
