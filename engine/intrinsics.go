package main

// Models of runtime, reflection, synchronisation, time and other standard-library leaves.

import (
	"fmt"
	"go/types"
	"hash/crc32"
	"reflect"
	"strconv"
	"strings"
)

type redirect struct {
	target  string
	rewrite func(ip *Interp, g *G, args []Value) []Value
}

var intrinsics map[string]intrinsic
var harnessIntr map[string]intrinsic
var redirects map[string]redirect
var tryIntrinsics map[string]func(ip *Interp, g *G, args []Value) (Value, bool)
var globalStubs map[string]func(ip *Interp) Value

type mutexState struct {
	locked  bool
	owner   *G
	readers int
	wwait   int
}

type wgState struct {
	n        int64
	released map[*G]bool // waiters that were woken and have not returned yet
}

func sideOf[T any](ip *Interp, p Value) *T {
	if pv, ok := p.(*Value); ok && pv == nil {
		panic(goPanic{ip.runtimeError("invalid memory address or nil pointer dereference")})
	}
	if s, ok := ip.side[p].(*T); ok {
		return s
	}
	s := new(T)
	ip.side[p] = s
	return s
}

func argInt(ip *Interp, v Value) *Term { return v.(*Term) }

func (ip *Interp) bvBool(b *Term, w uint8) *Term {
	return ip.c.Ite(b, ip.c.BV(w, 1), ip.c.BV(w, 0))
}

func (ip *Interp) goStr(v Value) string {
	s := v.(*Str)
	if !s.concrete() {
		unsupported("concrete text expected")
	}
	return s.s
}

// lastCell returns the address of the last field of the struct p points to.
func lastCell(ip *Interp, p Value) *Value {
	pv, ok := p.(*Value)
	if !ok {
		unsupported("atomic on %T", p)
	}
	if pv == nil {
		panic(goPanic{ip.runtimeError("invalid memory address or nil pointer dereference")})
	}
	if s, ok := (*pv).(Struct); ok {
		return &s[len(s)-1]
	}
	return pv
}

func init() {
	intrinsics = map[string]intrinsic{}
	harnessIntr = map[string]intrinsic{}
	redirects = map[string]redirect{}
	tryIntrinsics = map[string]func(ip *Interp, g *G, args []Value) (Value, bool){}
	globalStubs = map[string]func(ip *Interp) Value{}
	initSync()
	initMisc()
	initTime()
	initHarness()
	initNet()
	initText()
}

// ---------------------------------------------------------------- sync

func (ip *Interp) lock(g *G, p Value) Value {
	if ip.yieldPoint(g) {
		return blockedV
	}
	m := sideOf[mutexState](ip, p)
	if m.locked || m.readers > 0 {
		m.wwait++
		return ip.blockOn(g, m)
	}
	m.locked = true
	m.owner = g
	if ip.tr != nil {
		ip.tr.add(ip, g, evLock, p, "")
	}
	return nil
}

func (ip *Interp) unlock(g *G, p Value) Value {
	if g.unlocked {
		g.unlocked, g.noPick = false, false
		return nil
	}
	m := sideOf[mutexState](ip, p)
	if !m.locked {
		ip.violation(g, "crash", "fatal error: unlock of unlocked mutex", ip.model, ip.stacks())
		panic(pathEnd{"crashed", "unlock of unlocked mutex"})
	}
	m.locked = false
	m.owner = nil
	if ip.tr != nil {
		ip.tr.add(ip, g, evUnlock, p, "")
	}
	ip.wake(m)
	if ip.fine && ip.yieldPoint(g) {
		g.unlocked = true
		return blockedV
	}
	return nil
}

func initSync() {
	in := intrinsics
	in["(*sync.Mutex).Lock"] = func(ip *Interp, g *G, a []Value) Value { return ip.lock(g, a[0]) }
	in["(*sync.Mutex).Unlock"] = func(ip *Interp, g *G, a []Value) Value { return ip.unlock(g, a[0]) }
	in["(*sync.Mutex).TryLock"] = func(ip *Interp, g *G, a []Value) Value {
		if ip.yieldPoint(g) {
			return blockedV
		}
		m := sideOf[mutexState](ip, a[0])
		if m.locked {
			return ip.c.tFalse
		}
		m.locked = true
		m.owner = g
		if ip.tr != nil {
			ip.tr.add(ip, g, evLock, a[0], "")
		}
		return ip.c.tTrue
	}
	in["(*sync.RWMutex).Lock"] = in["(*sync.Mutex).Lock"]
	in["(*sync.RWMutex).Unlock"] = in["(*sync.Mutex).Unlock"]
	in["(*sync.RWMutex).RLock"] = func(ip *Interp, g *G, a []Value) Value {
		if ip.yieldPoint(g) {
			return blockedV
		}
		m := sideOf[mutexState](ip, a[0])
		if m.locked {
			return ip.blockOn(g, m)
		}
		m.readers++
		if ip.tr != nil {
			ip.tr.add(ip, g, evRLock, a[0], "")
		}
		return nil
	}
	in["(*sync.RWMutex).RUnlock"] = func(ip *Interp, g *G, a []Value) Value {
		m := sideOf[mutexState](ip, a[0])
		if m.readers <= 0 {
			ip.violation(g, "crash", "fatal error: RUnlock of unlocked RWMutex", ip.model, ip.stacks())
			panic(pathEnd{"crashed", "RUnlock of unlocked RWMutex"})
		}
		m.readers--
		if ip.tr != nil {
			ip.tr.add(ip, g, evRUnlock, a[0], "")
		}
		ip.wake(m)
		return nil
	}
	wgAdd := func(ip *Interp, g *G, p Value, d int64) Value {
		w := sideOf[wgState](ip, p)
		w.n += d
		if ip.tr != nil {
			if d < 0 {
				ip.tr.add(ip, g, evRelease, p, "")
			}
		}
		if w.n < 0 {
			ip.throw(g, Iface{types.Typ[types.String], concStr("sync: negative WaitGroup counter")})
		}
		if w.n == 0 {
			for _, x := range ip.gs {
				if x.state == gBlocked && x.waitOn == w {
					if w.released == nil {
						w.released = map[*G]bool{}
					}
					w.released[x] = true
				}
			}
			ip.wake(w)
		}
		return nil
	}
	in["(*sync.WaitGroup).Add"] = func(ip *Interp, g *G, a []Value) Value {
		return wgAdd(ip, g, a[0], ip.concInt(g, a[1]))
	}
	in["(*sync.WaitGroup).Done"] = func(ip *Interp, g *G, a []Value) Value { return wgAdd(ip, g, a[0], -1) }
	in["(*sync.WaitGroup).Wait"] = func(ip *Interp, g *G, a []Value) Value {
		if ip.yieldPoint(g) {
			return blockedV
		}
		w := sideOf[wgState](ip, a[0])
		if w.released[g] {
			delete(w.released, g)
			if w.n != 0 {
				ip.throw(g, Iface{types.Typ[types.String], concStr("sync: WaitGroup is reused before previous Wait has returned")})
			}
		}
		if w.n > 0 {
			return ip.blockOn(g, w)
		}
		if ip.tr != nil {
			ip.tr.add(ip, g, evAcquire, a[0], "")
		}
		return nil
	}
	in["(*sync.WaitGroup).Go"] = func(ip *Interp, g *G, a []Value) Value {
		wgAdd(ip, g, a[0], 1)
		f := a[1].(*Closure)
		wg := a[0]
		ng := ip.spawn(g, &callTarget{native: func(ip *Interp, g *G, _ []Value) Value { return wgAdd(ip, g, wg, -1) }}, nil)
		fr := ip.pushFn(ng, f.fn, f.env, nil, -1)
		_ = fr
		return nil
	}
	// sync.Cond: L.Lock/Unlock are interface calls, so Wait is provided by the harness (vCondWait)
	redirects["(*sync.Cond).Wait"] = redirect{target: "vCondWait"}
	redirects["(*sync.Cond).Signal"] = redirect{target: "vCondWake"}
	redirects["(*sync.Cond).Broadcast"] = redirect{target: "vCondWake"}
	in["(*sync.noCopy).Lock"] = nop
	in["(*sync.noCopy).Unlock"] = nop
	in["(*sync.Pool).Get"] = func(ip *Interp, g *G, a []Value) Value {
		p := a[0].(*Value)
		if l, ok := ip.side[p].([]Value); ok && len(l) > 0 {
			v := l[len(l)-1]
			ip.side[p] = l[:len(l)-1]
			return v
		}
		s := (*p).(Struct)
		nw, _ := s[len(s)-1].(*Closure)
		if nw == nil {
			return Iface{}
		}
		return ip.callNested(&callTarget{fn: nw.fn, env: nw.env, native: nw.native})
	}
	in["(*sync.Pool).Put"] = func(ip *Interp, g *G, a []Value) Value {
		l, _ := ip.side[a[0]].([]Value)
		ip.side[a[0]] = append(l, a[1])
		return nil
	}
	// sync.Map
	smap := func(ip *Interp, p Value) *MapV {
		if m, ok := ip.side[p].(*MapV); ok {
			return m
		}
		m := ip.newMap(types.NewMap(types.NewInterfaceType(nil, nil), types.NewInterfaceType(nil, nil)))
		ip.side[p] = m
		return m
	}
	smEdge := func(ip *Interp, g *G, p Value) {
		if ip.tr != nil {
			ip.tr.add(ip, g, evAtomic, p, "")
		}
	}
	in["(*sync.Map).Load"] = func(ip *Interp, g *G, a []Value) Value {
		if ip.yieldPoint(g) {
			return blockedV
		}
		smEdge(ip, g, a[0])
		m := smap(ip, a[0])
		if i := ip.mapFind(g, m, a[1]); i >= 0 {
			return Tuple{*m.vals[i], ip.c.tTrue}
		}
		return Tuple{Iface{}, ip.c.tFalse}
	}
	in["(*sync.Map).Store"] = func(ip *Interp, g *G, a []Value) Value {
		if ip.yieldPoint(g) {
			return blockedV
		}
		smEdge(ip, g, a[0])
		ip.mapSet(g, smap(ip, a[0]), a[1], a[2])
		return nil
	}
	in["(*sync.Map).LoadOrStore"] = func(ip *Interp, g *G, a []Value) Value {
		if ip.yieldPoint(g) {
			return blockedV
		}
		smEdge(ip, g, a[0])
		m := smap(ip, a[0])
		if i := ip.mapFind(g, m, a[1]); i >= 0 {
			return Tuple{*m.vals[i], ip.c.tTrue}
		}
		ip.mapSet(g, m, a[1], a[2])
		return Tuple{a[2], ip.c.tFalse}
	}
	in["(*sync.Map).LoadAndDelete"] = func(ip *Interp, g *G, a []Value) Value {
		smEdge(ip, g, a[0])
		m := smap(ip, a[0])
		if i := ip.mapFind(g, m, a[1]); i >= 0 {
			v := *m.vals[i]
			ip.mapDelete(g, m, a[1])
			return Tuple{v, ip.c.tTrue}
		}
		return Tuple{Iface{}, ip.c.tFalse}
	}
	in["(*sync.Map).Delete"] = func(ip *Interp, g *G, a []Value) Value {
		smEdge(ip, g, a[0])
		ip.mapDelete(g, smap(ip, a[0]), a[1])
		return nil
	}
	in["maps.clone"] = func(ip *Interp, g *G, a []Value) Value {
		i := a[0].(Iface)
		m, _ := i.v.(*MapV)
		if m == nil {
			return i
		}
		ip.access(g, g.frames[len(g.frames)-1], m, false)
		n := ip.newMap(m.t)
		for k := range m.keys {
			if m.gone[k] {
				continue
			}
			cell := new(Value)
			*cell = copyVal(*m.vals[k])
			n.keys, n.vals, n.gone = append(n.keys, copyVal(m.keys[k])), append(n.vals, cell), append(n.gone, false)
			if ck, ok := concKey(m.keys[k]); ok {
				n.idx[ck] = len(n.keys) - 1
			} else {
				n.sym++
			}
		}
		return Iface{i.t, n}
	}

	// atomics
	ld := func(ip *Interp, g *G, p Value) *Value {
		if ip.tr != nil {
			ip.tr.add(ip, g, evAtomic, p, "")
		}
		return lastCell(ip, p)
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		for _, form := range []string{"(*sync/atomic." + t + ").%s", "sync/atomic.%s" + t} {
			name := func(op string) string { return fmt.Sprintf(form, op) }
			in[name("Load")] = func(ip *Interp, g *G, a []Value) Value {
				if ip.yieldPoint(g) {
					return blockedV
				}
				return *ld(ip, g, a[0])
			}
			in[name("Store")] = func(ip *Interp, g *G, a []Value) Value {
				if ip.yieldPoint(g) {
					return blockedV
				}
				*ld(ip, g, a[0]) = a[1]
				return nil
			}
			in[name("Add")] = func(ip *Interp, g *G, a []Value) Value {
				if ip.yieldPoint(g) {
					return blockedV
				}
				p := ld(ip, g, a[0])
				*p = ip.c.Add((*p).(*Term), a[1].(*Term))
				return *p
			}
			in[name("Swap")] = func(ip *Interp, g *G, a []Value) Value {
				if ip.yieldPoint(g) {
					return blockedV
				}
				p := ld(ip, g, a[0])
				o := *p
				*p = a[1]
				return o
			}
			in[name("CompareAndSwap")] = func(ip *Interp, g *G, a []Value) Value {
				if ip.yieldPoint(g) {
					return blockedV
				}
				p := ld(ip, g, a[0])
				if ip.branch(ip.c.Eq((*p).(*Term), a[1].(*Term))) {
					*p = a[2]
					return ip.c.tTrue
				}
				return ip.c.tFalse
			}
		}
	}
	ab := "(*sync/atomic.Bool)."
	toB := func(ip *Interp, v Value) *Term { return ip.c.Not(ip.c.Eq(v.(*Term), ip.c.BV(32, 0))) }
	in[ab+"Load"] = func(ip *Interp, g *G, a []Value) Value {
		if ip.yieldPoint(g) {
			return blockedV
		}
		return toB(ip, *ld(ip, g, a[0]))
	}
	in[ab+"Store"] = func(ip *Interp, g *G, a []Value) Value {
		if ip.yieldPoint(g) {
			return blockedV
		}
		*ld(ip, g, a[0]) = ip.bvBool(a[1].(*Term), 32)
		return nil
	}
	in[ab+"Swap"] = func(ip *Interp, g *G, a []Value) Value {
		if ip.yieldPoint(g) {
			return blockedV
		}
		p := ld(ip, g, a[0])
		o := toB(ip, *p)
		*p = ip.bvBool(a[1].(*Term), 32)
		return o
	}
	in[ab+"CompareAndSwap"] = func(ip *Interp, g *G, a []Value) Value {
		if ip.yieldPoint(g) {
			return blockedV
		}
		p := ld(ip, g, a[0])
		if ip.branch(ip.c.Eq(toB(ip, *p), a[1].(*Term))) {
			*p = ip.bvBool(a[2].(*Term), 32)
			return ip.c.tTrue
		}
		return ip.c.tFalse
	}
	for _, t := range []string{"(*sync/atomic.Pointer[T]).", "(*sync/atomic.Value)."} {
		isVal := strings.HasSuffix(t, "Value).")
		norm := func(v Value) Value {
			if v == nil {
				return Iface{}
			}
			return v
		}
		_ = isVal
		in[t+"Load"] = func(ip *Interp, g *G, a []Value) Value {
			if ip.yieldPoint(g) {
				return blockedV
			}
			return norm(*ld(ip, g, a[0]))
		}
		in[t+"Store"] = func(ip *Interp, g *G, a []Value) Value {
			if ip.yieldPoint(g) {
				return blockedV
			}
			*ld(ip, g, a[0]) = a[1]
			return nil
		}
		in[t+"Swap"] = func(ip *Interp, g *G, a []Value) Value {
			p := ld(ip, g, a[0])
			o := *p
			*p = a[1]
			return o
		}
		in[t+"CompareAndSwap"] = func(ip *Interp, g *G, a []Value) Value {
			if ip.yieldPoint(g) {
				return blockedV
			}
			p := ld(ip, g, a[0])
			if ip.branch(ip.equal(g, *p, a[1])) {
				*p = a[2]
				return ip.c.tTrue
			}
			return ip.c.tFalse
		}
	}
	in["runtime.Gosched"] = func(ip *Interp, g *G, a []Value) Value {
		if ip.yieldPoint(g) {
			return blockedV
		}
		return ip.parkUntil(g, nil, ip.clock, true)
	}
}

func nop(ip *Interp, g *G, a []Value) Value { return nil }

// ---------------------------------------------------------------- misc leaves

func initMisc() {
	in := intrinsics
	id := func(ip *Interp, g *G, a []Value) Value { return a[0] }
	for _, n := range []string{"math.Float64bits", "math.Float64frombits", "math.Float32bits", "math.Float32frombits", "internal/abi.NoEscape", "internal/abi.Escape", "strings.Clone", "internal/stringslite.Clone", "internal/abi.FuncPCABIInternal"} {
		in[n] = id
	}
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable",
		"internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "fmt.Print", "fmt.Println", "fmt.Printf", "log.Print", "log.Println", "log.Printf", "hash/crc32.ieeeInit", "hash/crc32.castagnoliInit", "os/signal.Notify",
		"internal/godebug.New", "runtime.runtime_debug_WriteHeapDump", "(*strings.Builder).copyCheck"} {
		in[n] = nop
	}
	for _, n := range []string{"fmt.Print", "fmt.Println", "fmt.Printf"} {
		in[n] = func(ip *Interp, g *G, a []Value) Value { return Tuple{ip.c.BV(64, 0), Iface{}} }
	}
	in["runtime.NumGoroutine"] = func(ip *Interp, g *G, a []Value) Value {
		n := 0
		for _, o := range ip.gs {
			if o.state != gDead {
				n++
			}
		}
		return ip.c.BV(64, uint64(n))
	}
	in["os.Exit"] = func(ip *Interp, g *G, a []Value) Value {
		ip.throw(g, Iface{types.Typ[types.String], concStr("os.Exit called")})
		return nil
	}
	in["internal/bytealg.MakeNoZero"] = func(ip *Interp, g *G, a []Value) Value {
		n := a[0].(*Term)
		return ip.makeSlice(g, types.Typ[types.Uint8], n, n)
	}
	in["internal/bytealg.Equal"] = func(ip *Interp, g *G, a []Value) Value {
		return ip.strEq(ip.bytesToStr(a[0].(Slice)), ip.bytesToStr(a[1].(Slice)))
	}
	in["bytes.Equal"] = in["internal/bytealg.Equal"]
	cmp := func(ip *Interp, x, y *Str) Value {
		c := ip.c
		return c.Ite(ip.strEq(x, y), c.BV(64, 0), c.Ite(ip.strLess(x, y), c.BV(64, ^uint64(0)), c.BV(64, 1)))
	}
	in["internal/bytealg.Compare"] = func(ip *Interp, g *G, a []Value) Value {
		return cmp(ip, ip.bytesToStr(a[0].(Slice)), ip.bytesToStr(a[1].(Slice)))
	}
	in["bytes.Compare"] = in["internal/bytealg.Compare"]
	in["internal/bytealg.CompareString"] = func(ip *Interp, g *G, a []Value) Value { return cmp(ip, a[0].(*Str), a[1].(*Str)) }
	in["strings.Compare"] = in["internal/bytealg.CompareString"]
	toStr := func(ip *Interp, v Value) *Str {
		if s, ok := v.(Slice); ok {
			return ip.bytesToStr(s)
		}
		return v.(*Str)
	}
	indexByte := func(ip *Interp, g *G, a []Value) Value {
		s := toStr(ip, a[0])
		for k := 0; k < s.length(); k++ {
			if ip.branch(ip.c.Eq(s.at(ip.c, k), a[1].(*Term))) {
				return ip.c.BV(64, uint64(k))
			}
		}
		return ip.c.BV(64, ^uint64(0))
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "bytes.IndexByte", "strings.IndexByte", "internal/stringslite.IndexByte"} {
		in[n] = indexByte
	}
	lastIndexByte := func(ip *Interp, g *G, a []Value) Value {
		s := toStr(ip, a[0])
		for k := s.length() - 1; k >= 0; k-- {
			if ip.branch(ip.c.Eq(s.at(ip.c, k), a[1].(*Term))) {
				return ip.c.BV(64, uint64(k))
			}
		}
		return ip.c.BV(64, ^uint64(0))
	}
	for _, n := range []string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString", "bytes.LastIndexByte", "strings.LastIndexByte"} {
		in[n] = lastIndexByte
	}
	count := func(ip *Interp, g *G, a []Value) Value {
		s := toStr(ip, a[0])
		r := ip.c.BV(64, 0)
		for k := 0; k < s.length(); k++ {
			r = ip.c.Add(r, ip.bvBool(ip.c.Eq(s.at(ip.c, k), a[1].(*Term)), 64))
		}
		return r
	}
	in["internal/bytealg.Count"] = count
	in["internal/bytealg.CountString"] = count
	index := func(ip *Interp, g *G, a []Value) Value {
		s, t := toStr(ip, a[0]), toStr(ip, a[1])
		for k := 0; k+t.length() <= s.length(); k++ {
			if ip.branch(ip.strEq(s.sub(k, k+t.length()), t)) {
				return ip.c.BV(64, uint64(k))
			}
		}
		return ip.c.BV(64, ^uint64(0))
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "bytes.Index", "strings.Index", "internal/stringslite.Index"} {
		in[n] = index
	}
	for _, w := range []struct {
		n string
		w uint8
	}{{"Len", 64}, {"Len64", 64}, {"Len32", 32}, {"Len16", 16}, {"Len8", 8}} {
		in["math/bits."+w.n] = func(ip *Interp, g *G, a []Value) Value {
			x := a[0].(*Term)
			r := ip.c.BV(64, 0)
			for k := uint8(0); k < x.w; k++ {
				r = ip.c.Ite(ip.c.Eq(ip.c.Extract(x, k, k), ip.c.BV(1, 1)), ip.c.BV(64, uint64(k)+1), r)
			}
			return r
		}
	}
	// crc32
	mkTab := func(ip *Interp, poly uint32) Value {
		key := fmt.Sprintf("crctab%08x", poly)
		if p, ok := ip.side[key].(*Value); ok {
			return p
		}
		if _, ok := crcTabs[poly]; !ok {
			unsupported("CRC polynomial %08x", poly)
		}
		p := new(Value)
		arr := make(Array, 256)
		for i := range arr {
			arr[i] = ip.c.BV(32, uint64(crcTabs[poly][i]))
		}
		*p = arr
		ip.side[key] = p
		ip.side[p] = poly
		return p
	}
	in["hash/crc32.MakeTable"] = func(ip *Interp, g *G, a []Value) Value { return mkTab(ip, uint32(ip.concretize(a[0].(*Term)))) }
	globalStubs["hash/crc32.IEEETable"] = func(ip *Interp) Value { return mkTab(ip, crc32.IEEE) }
	for _, n := range []string{"ieeeInitOnce", "castagnoliInitOnce"} {
		globalStubs["hash/crc32."+n] = func(ip *Interp) Value {
			return &Closure{native: func(ip *Interp, g *G, a []Value) Value { return nil }}
		}
	}
	globalStubs["hash/crc32.castagnoliTable"] = func(ip *Interp) Value { return mkTab(ip, crc32.Castagnoli) }
	globalStubs["hash/crc32.haveCastagnoli"] = func(ip *Interp) Value { return ip.c.tTrue }
	upd := func(ip *Interp, crc *Term, tab Value, p Slice) Value {
		poly, ok := ip.side[tab].(uint32)
		if !ok {
			unsupported("CRC with unknown table")
		}
		x := ip.c.BNot(crc)
		for _, b := range p {
			x = ip.c.CRCStep(poly, x, b.(*Term))
		}
		return ip.c.BNot(x)
	}
	in["hash/crc32.Update"] = func(ip *Interp, g *G, a []Value) Value { return upd(ip, a[0].(*Term), a[1], a[2].(Slice)) }
	in["hash/crc32.update"] = in["hash/crc32.Update"]
	in["hash/crc32.Checksum"] = func(ip *Interp, g *G, a []Value) Value { return upd(ip, ip.c.BV(32, 0), a[1], a[0].(Slice)) }
	in["hash/crc32.ChecksumIEEE"] = func(ip *Interp, g *G, a []Value) Value {
		return upd(ip, ip.c.BV(32, 0), mkTab(ip, crc32.IEEE), a[0].(Slice))
	}
	in["internal/reflectlite.Swapper"] = func(ip *Interp, g *G, a []Value) Value {
		s := a[0].(Iface).v.(Slice)
		return &Closure{native: func(ip *Interp, g *G, a []Value) Value {
			i, j := ip.concInt(g, a[0]), ip.concInt(g, a[1])
			s[i], s[j] = s[j], s[i]
			return nil
		}}
	}
	in["reflect.Swapper"] = in["internal/reflectlite.Swapper"]
	in["(*strings.Builder).String"] = func(ip *Interp, g *G, a []Value) Value {
		s := (*a[0].(*Value)).(Struct)
		return ip.bytesToStr(s[len(s)-1].(Slice))
	}
	globalStubs["os.ErrDeadlineExceeded"] = func(ip *Interp) Value {
		if v, ok := ip.side["deadlineErr"]; ok {
			return v
		}
		pkg := ip.cp.p.prog.ImportedPackage("internal/poll")
		tn := pkg.Pkg.Scope().Lookup("DeadlineExceededError").Type()
		cell := new(Value)
		*cell = Struct{}
		v := Iface{types.NewPointer(tn), cell}
		ip.side["deadlineErr"] = v
		return v
	}
	globalStubs["internal/poll.ErrDeadlineExceeded"] = globalStubs["os.ErrDeadlineExceeded"]
	globalStubs["os.Stdout"] = func(ip *Interp) Value { return (*Value)(nil) }
	globalStubs["os.Stderr"] = globalStubs["os.Stdout"]
	globalStubs["math/rand.globalRandGenerator"] = globalStubs["os.Stdout"]
}

// ---------------------------------------------------------------- reflection

type RType struct{ t types.Type }

type RVal struct {
	t    types.Type
	v    Value
	addr *Value
}

var kinds = map[types.BasicKind]reflect.Kind{
	types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16, types.Int32: reflect.Int32, types.Int64: reflect.Int64,
	types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr,
	types.Float32: reflect.Float32, types.Float64: reflect.Float64, types.Complex64: reflect.Complex64, types.Complex128: reflect.Complex128, types.String: reflect.String, types.UnsafePointer: reflect.UnsafePointer,
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return kinds[u.Kind()]
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func (ip *Interp) rtypeT() types.Type {
	if t, ok := ip.side["rtypeT"].(types.Type); ok {
		return t
	}
	pkg := ip.cp.p.prog.ImportedPackage("reflect")
	t := types.NewPointer(pkg.Pkg.Scope().Lookup("rtype").Type())
	ip.side["rtypeT"] = t
	return t
}

func (ip *Interp) mkRType(t types.Type) Value {
	if t == nil {
		return Iface{}
	}
	t = types.Unalias(t)
	if b, ok := t.(*types.Basic); ok {
		if b.Kind() == types.Uint8 {
			t = types.Typ[types.Uint8]
		} else if b.Kind() == types.Int32 {
			t = types.Typ[types.Int32]
		}
	}
	return Iface{ip.rtypeT(), &RType{t}}
}

func rtypeName(t types.Type) string {
	switch x := t.(type) {
	case *types.Named:
		n := x.Obj().Name()
		if ta := x.TypeArgs(); ta != nil && ta.Len() > 0 {
			var parts []string
			for i := 0; i < ta.Len(); i++ {
				parts = append(parts, types.TypeString(ta.At(i), func(p *types.Package) string { return p.Path() }))
			}
			n += "[" + strings.Join(parts, ",") + "]"
		}
		return n
	case *types.Basic:
		return x.Name()
	}
	return ""
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (ip *Interp) reflectPanic(f string, a ...any) {
	panic(goPanic{ip.runtimeError("reflect: " + fmt.Sprintf(f, a...))})
}

func (ip *Interp) structField(t types.Type, i int) Value {
	st := t.Underlying().(*types.Struct)
	if i < 0 || i >= st.NumFields() {
		ip.reflectPanic("Field index out of bounds")
	}
	f := st.Field(i)
	pkg := ip.cp.p.prog.ImportedPackage("reflect")
	sft := pkg.Pkg.Scope().Lookup("StructField").Type().Underlying().(*types.Struct)
	r := ip.zero(sft).(Struct)
	for k := 0; k < sft.NumFields(); k++ {
		switch sft.Field(k).Name() {
		case "Name":
			r[k] = concStr(f.Name())
		case "PkgPath":
			if !f.Exported() {
				r[k] = concStr(f.Pkg().Path())
			}
		case "Type":
			r[k] = ip.mkRType(f.Type())
		case "Tag":
			r[k] = concStr(st.Tag(i))
		case "Index":
			r[k] = Slice{ip.c.BV(64, uint64(i))}
		case "Anonymous":
			r[k] = ip.c.Bool(f.Embedded())
		}
	}
	return r
}

func (ip *Interp) asRType(v Value) types.Type {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			panic(goPanic{ip.runtimeError("invalid memory address or nil pointer dereference")})
		}
		return x.v.(*RType).t
	case *RType:
		return x.t
	}
	unsupported("reflect.Type %T", v)
	return nil
}

func (ip *Interp) rtypeMethod(g *G, r *RType, name string, a []Value) Value {
	c := ip.c
	t := r.t
	bad := func() { ip.reflectPanic("%s of invalid type %s", name, typeStr(t)) }
	switch name {
	case "Kind":
		return c.BV(64, uint64(kindOf(t)))
	case "Name":
		return concStr(rtypeName(t))
	case "String":
		return concStr(typeStr(t))
	case "PkgPath":
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return concStr(n.Obj().Pkg().Path())
		}
		return ip.emptyStr
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return ip.mkRType(u.Elem())
		case *types.Slice:
			return ip.mkRType(u.Elem())
		case *types.Array:
			return ip.mkRType(u.Elem())
		case *types.Map:
			return ip.mkRType(u.Elem())
		case *types.Chan:
			return ip.mkRType(u.Elem())
		}
		bad()
	case "Key":
		if u, ok := t.Underlying().(*types.Map); ok {
			return ip.mkRType(u.Key())
		}
		bad()
	case "Len":
		if u, ok := t.Underlying().(*types.Array); ok {
			return c.BV(64, uint64(u.Len()))
		}
		bad()
	case "NumField":
		if u, ok := t.Underlying().(*types.Struct); ok {
			return c.BV(64, uint64(u.NumFields()))
		}
		bad()
	case "Field":
		if _, ok := t.Underlying().(*types.Struct); !ok {
			bad()
		}
		return ip.structField(t, int(ip.concInt(g, a[0])))
	case "Comparable":
		return c.Bool(types.Comparable(t))
	case "Implements":
		u := ip.asRType(a[0]).Underlying().(*types.Interface)
		return c.Bool(ip.implements(t, u))
	case "AssignableTo":
		return c.Bool(types.AssignableTo(t, ip.asRType(a[0])))
	case "ConvertibleTo":
		return c.Bool(types.ConvertibleTo(t, ip.asRType(a[0])))
	case "Size":
		return c.BV(64, uint64(sizeOf(t)))
	case "Bits":
		return c.BV(64, uint64(sizeOf(t)*8))
	case "NumMethod":
		return c.BV(64, uint64(types.NewMethodSet(t).Len()))
	}
	unsupported("reflect.Type.%s", name)
	return nil
}

func (ip *Interp) rvInterface(r RVal) Iface {
	v := r.cur()
	if _, ok := r.t.Underlying().(*types.Interface); ok {
		return v.(Iface)
	}
	return Iface{r.t, copyVal(v)}
}

func (r RVal) cur() Value {
	if r.addr != nil {
		return *r.addr
	}
	return r.v
}

func (ip *Interp) toAssign(dst types.Type, src RVal, what string) Value {
	if src.t == nil {
		ip.reflectPanic("call of reflect.Value.%s on zero Value", what)
	}
	if it, ok := dst.Underlying().(*types.Interface); ok {
		if _, isI := src.t.Underlying().(*types.Interface); isI {
			return src.cur()
		}
		if !ip.implements(src.t, it) {
			ip.reflectPanic("reflect.%s: value of type %s is not assignable to type %s", what, typeStr(src.t), typeStr(dst))
		}
		return Iface{src.t, copyVal(src.cur())}
	}
	if !types.AssignableTo(src.t, dst) {
		ip.reflectPanic("reflect.%s: value of type %s is not assignable to type %s", what, typeStr(src.t), typeStr(dst))
	}
	return copyVal(src.cur())
}

func prefixIntrinsic(name string) intrinsic {
	for _, p := range []string{"(reflect.Value).", "(internal/reflectlite.Value)."} {
		if strings.HasPrefix(name, p) {
			m := name[len(p):]
			return func(ip *Interp, g *G, a []Value) Value { return ip.rvalMethod(g, m, a) }
		}
	}
	for _, p := range []string{"reflect.", "internal/reflectlite."} {
		if strings.HasPrefix(name, p) && !strings.Contains(name[len(p):], ".") {
			m := name[len(p):]
			if f, ok := reflectFuncs[m]; ok {
				return f
			}
		}
	}
	return nil
}

var reflectFuncs = map[string]intrinsic{
	"TypeOf": func(ip *Interp, g *G, a []Value) Value { return ip.mkRType(a[0].(Iface).t) },
	"ValueOf": func(ip *Interp, g *G, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return RVal{}
		}
		return RVal{t: i.t, v: i.v}
	},
	"New": func(ip *Interp, g *G, a []Value) Value {
		t := ip.asRType(a[0])
		cell := new(Value)
		*cell = ip.zero(t)
		ip.alloc += sizeOf(t)
		return RVal{t: types.NewPointer(t), v: cell}
	},
	"Zero": func(ip *Interp, g *G, a []Value) Value {
		t := ip.asRType(a[0])
		return RVal{t: t, v: ip.zero(t)}
	},
	"SliceOf":   func(ip *Interp, g *G, a []Value) Value { return ip.mkRType(types.NewSlice(ip.asRType(a[0]))) },
	"PointerTo": func(ip *Interp, g *G, a []Value) Value { return ip.mkRType(types.NewPointer(ip.asRType(a[0]))) },
	"PtrTo":     func(ip *Interp, g *G, a []Value) Value { return ip.mkRType(types.NewPointer(ip.asRType(a[0]))) },
	"MakeSlice": func(ip *Interp, g *G, a []Value) Value {
		t := ip.asRType(a[0])
		sl, ok := t.Underlying().(*types.Slice)
		if !ok {
			ip.reflectPanic("MakeSlice of non-slice type")
		}
		ln, cp := a[1].(*Term), a[2].(*Term)
		if ip.branch(ip.c.Slt(ln, ip.c.BV(64, 0))) {
			ip.reflectPanic("MakeSlice: negative len")
		}
		if ip.branch(ip.c.Slt(cp, ln)) {
			ip.reflectPanic("MakeSlice: len > cap or negative cap")
		}
		s := ip.makeSlice(g, sl.Elem(), ln, cp)
		return RVal{t: t, v: s}
	},
	"MakeMap": func(ip *Interp, g *G, a []Value) Value {
		t := ip.asRType(a[0])
		return RVal{t: t, v: ip.newMap(t.Underlying().(*types.Map))}
	},
	"MakeMapWithSize": func(ip *Interp, g *G, a []Value) Value {
		t := ip.asRType(a[0])
		ip.chargeMap(g, t.Underlying().(*types.Map), a[1].(*Term))
		return RVal{t: t, v: ip.newMap(t.Underlying().(*types.Map))}
	},
	"Append": func(ip *Interp, g *G, a []Value) Value {
		r := a[0].(RVal)
		sl, ok := r.t.Underlying().(*types.Slice)
		if !ok {
			ip.reflectPanic("Append to non-slice")
		}
		s := r.cur().(Slice)
		for _, e := range a[1].(Slice) {
			v := ip.toAssign(sl.Elem(), e.(RVal), "Append")
			if len(s) == cap(s) {
				nc := growCap(len(s)+1, cap(s), sizeOf(sl.Elem()))
				ip.alloc += int64(nc) * sizeOf(sl.Elem())
				n := make(Slice, len(s), nc)
				copyCells(n, s)
				full := n[:nc]
				for k := len(s); k < nc; k++ {
					full[k] = ip.zero(sl.Elem())
				}
				s = n
			}
			s = s[:len(s)+1]
			storeTo(&s[len(s)-1], v)
		}
		return RVal{t: r.t, v: s}
	},
	"AppendSlice": func(ip *Interp, g *G, a []Value) Value {
		r, y := a[0].(RVal), a[1].(RVal)
		s := append(append(Slice(nil), r.cur().(Slice)...), y.cur().(Slice)...)
		return RVal{t: r.t, v: s}
	},
	"Copy": func(ip *Interp, g *G, a []Value) Value {
		d, s := a[0].(RVal).cur().(Slice), a[1].(RVal).cur().(Slice)
		n := min(len(d), len(s))
		copyCells(d[:n], s[:n])
		return ip.c.BV(64, uint64(n))
	},
	"Indirect": func(ip *Interp, g *G, a []Value) Value {
		r := a[0].(RVal)
		if r.t == nil || kindOf(r.t) != reflect.Pointer {
			return r
		}
		return ip.rvElem(r)
	},
	"DeepEqual": func(ip *Interp, g *G, a []Value) Value { return ip.deepEq(g, a[0], a[1], 0) },
}

func (ip *Interp) deepEq(g *G, x, y Value, d int) *Term {
	c := ip.c
	if d > 50 {
		unsupported("DeepEqual depth")
	}
	switch a := x.(type) {
	case Iface:
		b := y.(Iface)
		if a.t == nil || b.t == nil {
			return c.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return c.tFalse
		}
		return ip.deepEq(g, a.v, b.v, d+1)
	case *Value:
		b := y.(*Value)
		if a == b {
			return c.tTrue
		}
		if a == nil || b == nil {
			return c.tFalse
		}
		return ip.deepEq(g, *a, *b, d+1)
	case Slice:
		b := y.(Slice)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return c.tFalse
		}
		r := c.tTrue
		for i := range a {
			r = c.And(r, ip.deepEq(g, a[i], b[i], d+1))
		}
		return r
	case Struct:
		b := y.(Struct)
		r := c.tTrue
		for i := range a {
			r = c.And(r, ip.deepEq(g, a[i], b[i], d+1))
		}
		return r
	case Array:
		b := y.(Array)
		r := c.tTrue
		for i := range a {
			r = c.And(r, ip.deepEq(g, a[i], b[i], d+1))
		}
		return r
	case *MapV:
		b := y.(*MapV)
		if (a == nil) != (b == nil) || a.length() != b.length() {
			return c.tFalse
		}
		r := c.tTrue
		if a != nil {
			for i := range a.keys {
				if a.gone[i] {
					continue
				}
				j := ip.mapFind(g, b, a.keys[i])
				if j < 0 {
					return c.tFalse
				}
				r = c.And(r, ip.deepEq(g, *a.vals[i], *b.vals[j], d+1))
			}
		}
		return r
	}
	return ip.equal(g, x, y)
}

func (ip *Interp) rvElem(r RVal) RVal {
	switch u := r.t.Underlying().(type) {
	case *types.Pointer:
		p := r.cur().(*Value)
		if p == nil {
			return RVal{}
		}
		return RVal{t: u.Elem(), addr: p}
	case *types.Interface:
		i := r.cur().(Iface)
		if i.t == nil {
			return RVal{}
		}
		return RVal{t: i.t, v: i.v}
	}
	ip.reflectPanic("call of reflect.Value.Elem on %s Value", kindOf(r.t))
	return RVal{}
}

func (ip *Interp) rvalMethod(g *G, m string, a []Value) Value {
	c := ip.c
	r, ok := a[0].(RVal)
	if !ok {
		unsupported("reflect.Value %T", a[0])
	}
	switch m {
	case "IsValid":
		return c.Bool(r.t != nil)
	case "Kind":
		if r.t == nil {
			return c.BV(64, 0)
		}
		return c.BV(64, uint64(kindOf(r.t)))
	}
	if r.t == nil {
		ip.reflectPanic("call of reflect.Value.%s on zero Value", m)
	}
	k := kindOf(r.t)
	bad := func() { ip.reflectPanic("call of reflect.Value.%s on %s Value", m, k) }
	set := func(v Value) Value {
		if r.addr == nil {
			ip.reflectPanic("reflect.Value.%s using unaddressable value", m)
		}
		storeTo(r.addr, v)
		return nil
	}
	switch m {
	case "Type":
		return ip.mkRType(r.t)
	case "IsNil":
		switch x := r.cur().(type) {
		case *Value:
			return c.Bool(x == nil)
		case Slice:
			return c.Bool(x == nil)
		case *MapV:
			return c.Bool(x == nil)
		case *ChanV:
			return c.Bool(x == nil)
		case *Closure:
			return c.Bool(x == nil)
		case Iface:
			return c.Bool(x.t == nil)
		}
		bad()
	case "IsZero":
		z := ip.zero(r.t)
		if s, ok := r.cur().(Slice); ok {
			return c.Bool(s == nil)
		}
		return ip.equal(g, r.cur(), z)
	case "Elem":
		return ip.rvElem(r)
	case "Interface":
		return ip.rvInterface(r)
	case "CanInterface":
		return c.Bool(true)
	case "CanSet", "CanAddr":
		return c.Bool(r.addr != nil)
	case "Addr":
		if r.addr == nil {
			ip.reflectPanic("reflect.Value.Addr of unaddressable value")
		}
		return RVal{t: types.NewPointer(r.t), v: r.addr}
	case "NumField":
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			bad()
		}
		return c.BV(64, uint64(st.NumFields()))
	case "Field":
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			bad()
		}
		i := int(ip.concInt(g, a[1]))
		if i < 0 || i >= st.NumFields() {
			ip.reflectPanic("Field index out of range")
		}
		s := r.cur().(Struct)
		f := RVal{t: st.Field(i).Type()}
		if r.addr != nil {
			f.addr = &s[i]
		} else {
			f.v = s[i]
		}
		return f
	case "FieldByName":
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			bad()
		}
		n := ip.goStr(a[1])
		s := r.cur().(Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				f := RVal{t: st.Field(i).Type()}
				if r.addr != nil {
					f.addr = &s[i]
				} else {
					f.v = s[i]
				}
				return f
			}
		}
		return RVal{}
	case "Len":
		switch x := r.cur().(type) {
		case Slice:
			return c.BV(64, uint64(len(x)))
		case Array:
			return c.BV(64, uint64(len(x)))
		case *Str:
			return c.BV(64, uint64(x.length()))
		case *MapV:
			return c.BV(64, uint64(x.length()))
		}
		bad()
	case "Cap":
		if x, ok := r.cur().(Slice); ok {
			return c.BV(64, uint64(cap(x)))
		}
		bad()
	case "Index":
		idx := a[1].(*Term)
		switch x := r.cur().(type) {
		case Slice:
			if !ip.branch(c.Ult(idx, c.BV(64, uint64(len(x))))) {
				ip.reflectPanic("slice index out of range")
			}
			i := ip.concretize(idx)
			return RVal{t: r.t.Underlying().(*types.Slice).Elem(), addr: &x[i]}
		case Array:
			if !ip.branch(c.Ult(idx, c.BV(64, uint64(len(x))))) {
				ip.reflectPanic("array index out of range")
			}
			i := ip.concretize(idx)
			f := RVal{t: r.t.Underlying().(*types.Array).Elem()}
			if r.addr != nil {
				f.addr = &x[i]
			} else {
				f.v = x[i]
			}
			return f
		case *Str:
			return RVal{t: types.Typ[types.Uint8], v: ip.strIndex(g, x, idx)}
		}
		bad()
	case "Int":
		if k < reflect.Int || k > reflect.Int64 {
			bad()
		}
		return c.SExt(r.cur().(*Term), 64)
	case "Uint":
		if k < reflect.Uint || k > reflect.Uintptr {
			bad()
		}
		return c.ZExt(r.cur().(*Term), 64)
	case "Float":
		if k != reflect.Float64 {
			unsupported("reflect float32")
		}
		return r.cur()
	case "Bool":
		if k != reflect.Bool {
			bad()
		}
		return r.cur()
	case "String":
		if k == reflect.String {
			return r.cur()
		}
		return concStr("<" + typeStr(r.t) + " Value>")
	case "Bytes":
		if s, ok := r.cur().(Slice); ok && k == reflect.Slice {
			return s
		}
		if s, ok := r.cur().(Array); ok && r.addr != nil {
			return Slice(s)
		}
		bad()
	case "CanInt":
		return c.Bool(k >= reflect.Int && k <= reflect.Int64)
	case "CanUint":
		return c.Bool(k >= reflect.Uint && k <= reflect.Uintptr)
	case "CanFloat":
		return c.Bool(k == reflect.Float32 || k == reflect.Float64)
	case "Set":
		if r.addr == nil {
			ip.reflectPanic("reflect.Value.Set using unaddressable value")
		}
		return set(ip.toAssign(r.t, a[1].(RVal), "Set"))
	case "SetInt":
		if k < reflect.Int || k > reflect.Int64 {
			bad()
		}
		w, _ := bvWidth(r.t)
		return set(c.Extract(a[1].(*Term), w-1, 0))
	case "SetUint":
		if k < reflect.Uint || k > reflect.Uintptr {
			bad()
		}
		w, _ := bvWidth(r.t)
		return set(c.Extract(a[1].(*Term), w-1, 0))
	case "SetBool", "SetString":
		return set(a[1])
	case "SetFloat":
		if k != reflect.Float64 {
			unsupported("reflect float32")
		}
		return set(a[1])
	case "SetBytes":
		return set(a[1])
	case "SetZero":
		return set(ip.zero(r.t))
	case "SetLen":
		s := r.cur().(Slice)
		n := int(ip.concInt(g, a[1]))
		if n < 0 || n > cap(s) {
			ip.reflectPanic("slice length out of range in SetLen")
		}
		return set(s[:n])
	case "Grow":
		s := r.cur().(Slice)
		n := len(s) + int(ip.concInt(g, a[1]))
		if n > cap(s) {
			et := r.t.Underlying().(*types.Slice).Elem()
			ns := make(Slice, len(s), n)
			copyCells(ns, s)
			full := ns[:n]
			for j := len(s); j < n; j++ {
				full[j] = ip.zero(et)
			}
			return set(ns)
		}
		return nil
	case "Slice":
		lo, hi := int(ip.concInt(g, a[1])), int(ip.concInt(g, a[2]))
		switch x := r.cur().(type) {
		case Slice:
			if lo < 0 || hi < lo || hi > cap(x) {
				ip.reflectPanic("slice index out of bounds")
			}
			return RVal{t: r.t, v: x[lo:hi]}
		case *Str:
			return RVal{t: r.t, v: x.sub(lo, hi)}
		case Array:
			return RVal{t: types.NewSlice(r.t.Underlying().(*types.Array).Elem()), v: Slice(x[lo:hi])}
		}
		bad()
	case "Convert":
		t := ip.asRType(a[1])
		if _, ok := t.Underlying().(*types.Interface); ok {
			return RVal{t: t, v: ip.rvInterface(r)}
		}
		return RVal{t: t, v: ip.convert(g, r.t, t, copyVal(r.cur()))}
	case "CanConvert":
		return c.Bool(types.ConvertibleTo(r.t, ip.asRType(a[1])))
	case "MapIndex":
		mv := r.cur().(*MapV)
		i := ip.mapFind(g, mv, ip.toAssign(r.t.Underlying().(*types.Map).Key(), a[1].(RVal), "MapIndex"))
		if i < 0 {
			return RVal{}
		}
		return RVal{t: r.t.Underlying().(*types.Map).Elem(), v: copyVal(*mv.vals[i])}
	case "SetMapIndex":
		mt := r.t.Underlying().(*types.Map)
		ip.mapSet(g, r.cur().(*MapV), ip.toAssign(mt.Key(), a[1].(RVal), "SetMapIndex"), ip.toAssign(mt.Elem(), a[2].(RVal), "SetMapIndex"))
		return nil
	case "MapKeys":
		mv := r.cur().(*MapV)
		var out Slice
		if mv != nil {
			for i := range mv.keys {
				if !mv.gone[i] {
					out = append(out, RVal{t: r.t.Underlying().(*types.Map).Key(), v: mv.keys[i]})
				}
			}
		}
		return out
	case "NumMethod":
		return c.BV(64, uint64(types.NewMethodSet(r.t).Len()))
	case "Comparable":
		return c.Bool(types.Comparable(r.t))
	case "Equal":
		return ip.equal(g, r.cur(), a[1].(RVal).cur())
	}
	unsupported("reflect.Value.%s", m)
	return nil
}

// ---------------------------------------------------------------- text

func initText() {
	in := intrinsics
	in["fmt.Sprintf"] = func(ip *Interp, g *G, a []Value) Value { return ip.sprintf(a[0].(*Str), a[1].(Slice)) }
	isStr := func(v Value) bool {
		i, ok := v.(Iface)
		if !ok || i.t == nil {
			return false
		}
		bt, ok := i.t.Underlying().(*types.Basic)
		return ok && bt.Info()&types.IsString != 0
	}
	sprint := func(ip *Interp, s Slice, ln bool) *Str {
		f := ""
		for i := range s {
			if i > 0 && (ln || !isStr(s[i]) && !isStr(s[i-1])) {
				f += " "
			}
			f += "%v"
		}
		if ln {
			f += "\n"
		}
		return ip.sprintf(concStr(f), s)
	}
	in["fmt.Sprint"] = func(ip *Interp, g *G, a []Value) Value { return sprint(ip, a[0].(Slice), false) }
	in["fmt.Sprintln"] = func(ip *Interp, g *G, a []Value) Value { return sprint(ip, a[0].(Slice), true) }
	redirects["fmt.Fprintf"] = redirect{"vFprint", func(ip *Interp, g *G, a []Value) []Value {
		return []Value{a[0], ip.sprintf(a[1].(*Str), a[2].(Slice))}
	}}
	redirects["fmt.Fprint"] = redirect{"vFprint", func(ip *Interp, g *G, a []Value) []Value {
		return []Value{a[0], sprint(ip, a[1].(Slice), false)}
	}}
	redirects["fmt.Fprintln"] = redirect{"vFprint", func(ip *Interp, g *G, a []Value) []Value {
		return []Value{a[0], sprint(ip, a[1].(Slice), true)}
	}}
	redirects["fmt.Appendf"] = redirect{"vAppendStr", func(ip *Interp, g *G, a []Value) []Value {
		return []Value{a[0], ip.sprintf(a[1].(*Str), a[2].(Slice))}
	}}
	// scanning decimal numbers from known text
	scanf := func(ip *Interp, f string, src *Str, dst Slice) (Value, bool) {
		if !src.concrete() {
			return nil, false
		}
		ptrs := make([]any, len(dst))
		for i, d := range dst {
			pt, ok := d.(Iface).t.(*types.Pointer)
			if !ok {
				return nil, false
			}
			bt, ok := pt.Elem().Underlying().(*types.Basic)
			if !ok {
				return nil, false
			}
			switch bt.Kind() {
			case types.Int, types.Int64:
				ptrs[i] = new(int64)
			case types.Int32:
				ptrs[i] = new(int32)
			case types.Int16:
				ptrs[i] = new(int16)
			case types.Uint, types.Uint64:
				ptrs[i] = new(uint64)
			case types.Uint32:
				ptrs[i] = new(uint32)
			case types.Uint16:
				ptrs[i] = new(uint16)
			case types.String:
				ptrs[i] = new(string)
			default:
				return nil, false
			}
		}
		var n int
		var err error
		if f == "" {
			n, err = fmt.Sscan(src.s, ptrs...)
		} else {
			n, err = fmt.Sscanf(src.s, f, ptrs...)
		}
		for i, d := range dst {
			cell := d.(Iface).v.(*Value)
			if i >= n {
				break
			}
			switch p := ptrs[i].(type) {
			case *int64:
				*cell = ip.c.BV(64, uint64(*p))
			case *int32:
				*cell = ip.c.BV(32, uint64(uint32(*p)))
			case *int16:
				*cell = ip.c.BV(16, uint64(uint16(*p)))
			case *uint64:
				*cell = ip.c.BV(64, *p)
			case *uint32:
				*cell = ip.c.BV(32, uint64(*p))
			case *uint16:
				*cell = ip.c.BV(16, uint64(*p))
			case *string:
				*cell = concStr(*p)
			}
		}
		var e Value = Iface{}
		if err != nil {
			e = ip.newError(err.Error())
		}
		return Tuple{ip.c.BV(64, uint64(n)), e}, true
	}
	tryIntrinsics["fmt.Sscanf"] = func(ip *Interp, g *G, a []Value) (Value, bool) {
		f := a[1].(*Str)
		if !f.concrete() || f.s == "" {
			return nil, false
		}
		return scanf(ip, f.s, a[0].(*Str), a[2].(Slice))
	}
	tryIntrinsics["fmt.Sscan"] = func(ip *Interp, g *G, a []Value) (Value, bool) {
		return scanf(ip, "", a[0].(*Str), a[1].(Slice))
	}
	in["fmt.Errorf"] = func(ip *Interp, g *G, a []Value) Value {
		msg := ip.sprintf(a[0].(*Str), a[1].(Slice))
		if f := a[0].(*Str); f.concrete() && strings.Contains(f.s, "%w") {
			for _, e := range a[1].(Slice) {
				ifc := e.(Iface)
				if ifc.t == nil {
					continue
				}
				et := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
				if ip.implements(ifc.t, et) {
					pkg := ip.cp.p.prog.ImportedPackage("fmt")
					tn := pkg.Pkg.Scope().Lookup("wrapError").Type()
					cell := new(Value)
					*cell = Struct{msg, ifc}
					return Iface{types.NewPointer(tn), cell}
				}
			}
		}
		return ip.newErrorStr(msg)
	}
	in["strconv.Itoa"] = func(ip *Interp, g *G, a []Value) Value { return ip.decStr(a[0].(*Term)) }
	in["internal/strconv.Itoa"] = in["strconv.Itoa"]
	tryIntrinsics["strconv.FormatInt"] = func(ip *Interp, g *G, a []Value) (Value, bool) {
		if b := a[1].(*Term); b.op == OpConst && b.c == 10 {
			return ip.decStr(a[0].(*Term)), true
		}
		return nil, false
	}
	tryIntrinsics["internal/strconv.FormatInt"] = tryIntrinsics["strconv.FormatInt"]
	tryIntrinsics["strconv.Atoi"] = func(ip *Interp, g *G, a []Value) (Value, bool) {
		s := a[0].(*Str)
		if len(s.segs) == 1 && s.segs[0].t != nil {
			return Tuple{s.segs[0].t, Iface{}}, true
		}
		if s.concrete() {
			if v, err := strconv.Atoi(s.s); err == nil {
				return Tuple{ip.c.BV(64, uint64(v)), Iface{}}, true
			}
		}
		return nil, false
	}
	str2 := func(name string, f func(a, b string) any) {
		tryIntrinsics[name] = func(ip *Interp, g *G, a []Value) (Value, bool) {
			x, ok1 := a[0].(*Str)
			y, ok2 := a[1].(*Str)
			if !ok1 || !ok2 || !x.concrete() || !y.concrete() {
				return nil, false
			}
			switch r := f(x.s, y.s).(type) {
			case bool:
				return ip.c.Bool(r), true
			case int:
				return ip.c.BV(64, uint64(r)), true
			case string:
				return concStr(r), true
			case []string:
				s := make(Slice, len(r))
				for i, e := range r {
					s[i] = concStr(e)
				}
				return s, true
			}
			return nil, false
		}
	}
	str2("strings.Split", func(a, b string) any { return strings.Split(a, b) })
	str2("strings.Contains", func(a, b string) any { return strings.Contains(a, b) })
	str2("strings.HasPrefix", func(a, b string) any { return strings.HasPrefix(a, b) })
	str2("strings.HasSuffix", func(a, b string) any { return strings.HasSuffix(a, b) })
	str2("strings.TrimPrefix", func(a, b string) any { return strings.TrimPrefix(a, b) })
	str2("strings.TrimSuffix", func(a, b string) any { return strings.TrimSuffix(a, b) })
	str2("strings.EqualFold", func(a, b string) any { return strings.EqualFold(a, b) })
	str2("strings.Trim", func(a, b string) any { return strings.Trim(a, b) })
	str1 := func(name string, f func(a string) any) {
		tryIntrinsics[name] = func(ip *Interp, g *G, a []Value) (Value, bool) {
			x, ok := a[0].(*Str)
			if !ok || !x.concrete() {
				return nil, false
			}
			switch r := f(x.s).(type) {
			case string:
				return concStr(r), true
			case []string:
				s := make(Slice, len(r))
				for i, e := range r {
					s[i] = concStr(e)
				}
				return s, true
			}
			return nil, false
		}
	}
	str1("strings.TrimSpace", func(a string) any { return strings.TrimSpace(a) })
	str1("strings.ToLower", func(a string) any { return strings.ToLower(a) })
	str1("strings.ToUpper", func(a string) any { return strings.ToUpper(a) })
	str1("strings.Fields", func(a string) any { return strings.Fields(a) })
	in["(reflect.StructTag).Get"] = func(ip *Interp, g *G, a []Value) Value {
		return concStr(reflect.StructTag(ip.goStr(a[0])).Get(ip.goStr(a[1])))
	}
	in["(reflect.StructTag).Lookup"] = func(ip *Interp, g *G, a []Value) Value {
		s, ok := reflect.StructTag(ip.goStr(a[0])).Lookup(ip.goStr(a[1]))
		return Tuple{concStr(s), ip.c.Bool(ok)}
	}
	tryIntrinsics["strings.Cut"] = func(ip *Interp, g *G, a []Value) (Value, bool) {
		x, y := a[0].(*Str), a[1].(*Str)
		if !x.concrete() || !y.concrete() {
			return nil, false
		}
		p, q, ok := strings.Cut(x.s, y.s)
		return Tuple{concStr(p), concStr(q), ip.c.Bool(ok)}, true
	}
	in["(reflect.Kind).String"] = func(ip *Interp, g *G, a []Value) Value {
		return concStr(reflect.Kind(ip.concretize(a[0].(*Term))).String())
	}
}

func (ip *Interp) decStr(t *Term) *Str {
	if t.op == OpConst {
		return concStr(strconv.FormatInt(int64(sext(t.c, t.w)), 10))
	}
	return &Str{segs: []strSeg{{t: t}}}
}

// sprintf formats; integers stay symbolic under plain %d/%v, other symbolic content makes the
// result opaque (it may be logged or carried in errors, but not compared).
func (ip *Interp) sprintf(f *Str, args Slice) *Str {
	if !f.concrete() {
		return &Str{opaque: true, s: "?"}
	}
	out := ip.emptyStr
	ai := 0
	s := f.s
	for len(s) > 0 {
		i := strings.IndexByte(s, '%')
		if i < 0 {
			out = ip.strCat(out, concStr(s))
			break
		}
		out = ip.strCat(out, concStr(s[:i]))
		s = s[i+1:]
		j := 0
		for j < len(s) && strings.IndexByte("+-# 0123456789.*[]", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			break
		}
		flags, verb := s[:j], s[j]
		s = s[j+1:]
		if verb == '%' {
			out = ip.strCat(out, concStr("%"))
			continue
		}
		if ai >= len(args) {
			out = ip.strCat(out, concStr("%!"+string(verb)+"(MISSING)"))
			continue
		}
		arg, _ := args[ai].(Iface)
		ai++
		out = ip.strCat(out, ip.fmtArg(flags, verb, arg))
	}
	return out
}

func (ip *Interp) strCat(a, b *Str) *Str {
	if a.concrete() && a.s == "" {
		return b
	}
	if b.concrete() && b.s == "" {
		return a
	}
	return ip.strConcat(a, b)
}

func (ip *Interp) fmtArg(flags string, verb byte, arg Iface) *Str {
	if verb == 'T' {
		if arg.t == nil {
			return concStr("<nil>")
		}
		return concStr(typeStr(arg.t))
	}
	if arg.t == nil {
		return concStr("<nil>")
	}
	op := &Str{opaque: true, s: "?"}
	isNamed := false
	if n, ok := arg.t.(*types.Named); ok && n.NumMethods() > 0 {
		isNamed = true
	}
	switch x := arg.v.(type) {
	case *Term:
		if isNamed && verb != 'd' && verb != 'x' {
			return op
		}
		if x.w == 0 {
			if x.op == OpConst {
				return concStr(fmt.Sprintf("%"+flags+string(verb), x.c == 1))
			}
			return op
		}
		if isFloat(arg.t) {
			return op
		}
		if x.op == OpConst {
			if isSigned(arg.t) {
				return concStr(fmt.Sprintf("%"+flags+string(verb), int64(sext(x.c, x.w))))
			}
			return concStr(fmt.Sprintf("%"+flags+string(verb), x.c))
		}
		if flags == "" && (verb == 'd' || verb == 'v') {
			if isSigned(arg.t) {
				return &Str{segs: []strSeg{{t: ip.c.SExt(x, 64)}}}
			}
			if x.w < 64 {
				return &Str{segs: []strSeg{{t: ip.c.ZExt(x, 64)}}}
			}
			if x.umax < 1<<63 || ip.branch(ip.c.Not(ip.c.Slt(x, ip.c.BV(64, 0)))) {
				return &Str{segs: []strSeg{{t: x}}}
			}
		}
		return op
	case *Str:
		if isNamed {
			return op
		}
		if x.concrete() {
			return concStr(fmt.Sprintf("%"+flags+string(verb), x.s))
		}
		if flags == "" && (verb == 's' || verb == 'v') {
			return x
		}
		return op
	case *opaque:
		return concStr(x.name)
	case *Value:
		if x != nil && strings.HasSuffix(arg.t.String(), "errors.errorString") {
			if st, ok := (*x).(Struct); ok {
				return st[0].(*Str)
			}
		}
	}
	return op
}
