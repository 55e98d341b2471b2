package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func constString(k *ssa.Const) string {
	if k.Value.Kind() == constant.String {
		return constant.StringVal(k.Value)
	}
	// string(rune) constants
	if i, ok := constant.Int64Val(k.Value); ok {
		return string(rune(i))
	}
	return ""
}

type gState uint8

const (
	gRun gState = iota
	gBlocked
	gSleep
	gDead
)

type deferred struct {
	fn   *Closure
	call *callTarget
	args []Value
}

type callTarget struct {
	fn      *Fn
	env     []Value
	native  func(ip *Interp, g *G, args []Value) Value
	builtin *ssa.Builtin
	args    []Value
	name    string
}

type panicRec struct {
	val       Value // Iface
	recovered bool
	where     string
	stack     []string
}

type Frame struct {
	fn     *Fn
	regs   []Value
	blk    *Blk
	prev   int
	pc     int
	defers []*callTarget
	dst    int32
	owner  *Frame // frame on whose behalf this deferred call runs
	pan    *panicRec
	recov  bool
	stub   *callTarget
}

type G struct {
	id       int
	name     string
	frames   []*Frame
	state    gState
	wakeAt   int64 // virtual ns, valid if state is gSleep or gBlocked with deadline
	hasWake  bool
	waitOn   any
	tok      *waitTok
	parked   bool
	noPick   bool
	unlocked bool // preempted right after an unlock
	crash    *panicRec
	envDep   int // >0 while executing harness environment code atomically
	main     bool
	evs      int
	lastCh   int
}

type waitTok struct {
	g    *G
	done bool
	idx  int
	val  Value
	ok   bool
	clos bool
}

type goPanic struct{ val Value }

type errObj struct{ msg string } // runtime error payload

// Interp executes one path.
type Interp struct {
	c        *Ctx
	w        *Worker
	cp       *Compiler
	emptyStr *Str
	constC   []Value

	// per path
	globals    []*Value
	ginit      map[*ssa.Package]bool
	gs         []*G
	cur        *G
	clock      int64
	pc         []*Term
	pcSet      map[*Term]bool
	model      Model
	memo       evalMemo
	prefix     []dec
	log        []dec
	steps      int
	maxSteps   int
	inputs     []*inputRec
	vars       []*Term
	obs        []obsRec
	ended      bool
	side       map[any]any // engine-private state of sync objects etc.
	nextID     int
	alloc      int64
	allocMax   *Term // pending allocation assertion budget
	budget     int64
	explore    bool
	preempts   int
	maxPre     int
	switchTo   *G
	switchReq  bool
	pending    map[string]uint64
	freeSwitch int
	maxFree    int
	fine       bool
	maxClock   int64
	looks      int // at the clock, since it moved
	lookClock  int64
	supp       []*Term
	suppSeen   map[*Term]bool
	mapOrder   bool
	rejectOK   *Term
	onReject   *Closure
	races      bool
	tr         *Trace
	funcs      map[*Fn]bool
	reached    map[string]bool
	asserts    int
	mainRet    bool
	connIDs    map[*Value]int
	depth      int
	note       []string
	preSites   []string
}

type dec struct {
	taken bool
	val   uint64
}

type obsRec struct {
	name string
	t    []*Term
}

type inputRec struct {
	name string
	w    uint8
	ts   []*Term // element terms (bytes for blobs)
	blob bool
	conc uint64
	isC  bool
}

func (ip *Interp) get(fr *Frame, o *operand) Value {
	switch o.kind {
	case okReg:
		return fr.regs[o.idx]
	case okConst:
		return ip.constant(o)
	case okGlobal:
		return ip.globalPtr(o)
	case okFunc:
		f := ip.cp.get(o.v.(*ssa.Function))
		return &Closure{fn: f}
	case okBuiltin:
		return o.v
	}
	return nil
}

func (ip *Interp) constant(o *operand) Value {
	for int(o.idx) >= len(ip.constC) {
		ip.constC = append(ip.constC, make([]Value, int(o.idx)+256-len(ip.constC))...)
	}
	v := ip.constC[o.idx]
	if v == nil {
		v = ip.constVal(o.v.(*ssa.Const))
		switch v.(type) {
		case Struct, Array:
			return v // fresh each time
		}
		ip.constC[o.idx] = v
	}
	return v
}

func (ip *Interp) globalPtr(o *operand) *Value {
	for int(o.idx) >= len(ip.globals) {
		ip.globals = append(ip.globals, make([]*Value, int(o.idx)+64-len(ip.globals))...)
	}
	p := ip.globals[o.idx]
	if p != nil {
		return p
	}
	gl := o.v.(*ssa.Global)
	p = ip.globalCell(gl, o.idx)
	return p
}

var initPkgs = map[string]bool{
	"bufio": true, "bytes": true, "errors": true, "io": true, "strings": true, "strconv": true, "sort": true, "slices": true,
	"encoding/binary": true, "math": true, "math/bits": true, "unicode/utf8": true, "github.com/google/uuid": true, "context": true,
	"iter": true, "maps": true, "cmp": true, "hash": true, "internal/bytealg": true, "internal/stringslite": true,
	"internal/itoa": true, "internal/byteorder": true, "io/fs": true, "internal/oserror": true, "internal/strconv": true, "container/list": true, "container/heap": true,
}

func (ip *Interp) globalCell(gl *ssa.Global, idx int32) *Value {
	elem := gl.Type().Underlying().(*types.Pointer).Elem()
	cell := new(Value)
	ip.globals[idx] = cell
	path := gl.Pkg.Pkg.Path()
	full := path + "." + gl.Name()
	if f, ok := globalStubs[full]; ok {
		*cell = f(ip)
		return cell
	}
	switch {
	case gl.Pkg == ip.cp.p.main:
		*cell = ip.zero(elem)
	case initPkgs[path]:
		*cell = ip.zero(elem)
		if !ip.ginit[gl.Pkg] && gl.Name() != "init$guard" {
			ip.ginit[gl.Pkg] = true
			gl.Pkg.Build()
			ip.callNested(&callTarget{fn: ip.cp.get(gl.Pkg.Func("init"))})
		}
	case types.Identical(elem, types.Universe.Lookup("error").Type()):
		*cell = ip.newError(full)
	case gl.Name() == "init$guard":
		*cell = ip.c.tTrue
	case !setByInit(gl):
		*cell = ip.zero(elem)
	default:
		// left uninitialised: reading it is reported as unsupported
		*cell = &uninit{full}
	}
	return cell
}

// setByInit tells whether the package's initialisation refers to the global.
func setByInit(gl *ssa.Global) bool {
	gl.Pkg.Build()
	for name, m := range gl.Pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok || name != "init" && !strings.HasPrefix(name, "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(gl) {
						return true
					}
				}
			}
		}
	}
	return false
}

type uninit struct{ name string }

// newError makes a distinct error value with a fixed text.
func (ip *Interp) newError(msg string) Value {
	return ip.newErrorStr(concStr(msg))
}

func (ip *Interp) newErrorStr(msg *Str) Value {
	pkg := ip.cp.p.prog.ImportedPackage("errors")
	tn := pkg.Pkg.Scope().Lookup("errorString").Type()
	cell := new(Value)
	*cell = Struct{msg}
	return Iface{types.NewPointer(tn), cell}
}

var rtErrType types.Type

func (ip *Interp) runtimeError(msg string) Value {
	return Iface{rtErrT, &opaque{"runtime error: " + msg}}
}

var rtErrT = types.NewNamed(types.NewTypeName(token.NoPos, nil, "runtimeError", nil), types.NewStruct(nil, nil), nil)

func (ip *Interp) throw(g *G, v Value) {
	panic(goPanic{v})
}

func (ip *Interp) throwRT(g *G, f string, a ...any) {
	panic(goPanic{ip.runtimeError(fmt.Sprintf(f, a...))})
}

// ---------------------------------------------------------------- calls and frames

func (ip *Interp) pushFn(g *G, fn *Fn, env []Value, args []Value, dst int32) *Frame {
	for fn.redirect != nil {
		if fn.rewrite != nil {
			args = fn.rewrite(ip, g, args)
		}
		fn = fn.redirect
	}
	if fn.err != "" {
		unsupported("%s", fn.err)
	}
	if len(g.frames) > 6000 {
		panic(pathEnd{"stack", "stack depth exceeded in " + fn.name})
	}
	if ip.w.profile != nil {
		ip.w.profile[fn.name]++
	}
	ip.funcs[fn] = true
	fr := &Frame{fn: fn, regs: make([]Value, fn.nregs), blk: fn.blocks[0], dst: dst, prev: -1}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.f.Params):], env)
	g.frames = append(g.frames, fr)
	if fn.env {
		g.envDep++
	}
	return fr
}

func (g *G) top() *Frame {
	if len(g.frames) == 0 {
		return nil
	}
	return g.frames[len(g.frames)-1]
}

// popFrame removes the top frame and delivers its result.
func (ip *Interp) popFrame(g *G, res Value) {
	fr := g.top()
	g.frames = g.frames[:len(g.frames)-1]
	if fr.fn != nil && fr.fn.env {
		g.envDep--
	}
	if fr.owner != nil {
		ip.afterDefer(g, fr.owner)
		return
	}
	if len(g.frames) == 0 {
		g.state = gDead
		ip.onExit(g)
		return
	}
	if fr.dst >= 0 {
		g.top().regs[fr.dst] = res
	}
}

// afterDefer continues owner after one of its deferred calls finished.
func (ip *Interp) afterDefer(g *G, owner *Frame) {
	if owner.pan != nil && owner.pan.recovered {
		owner.pan = nil
		owner.recov = true
	}
	if owner.pan != nil || owner.recov {
		ip.unwind(g)
	}
	// otherwise the RunDefers instruction is simply executed again
}

func (ip *Interp) startPanic(g *G, v Value) {
	fr := g.top()
	rec := &panicRec{val: v}
	for i := len(g.frames) - 1; i >= 0 && len(rec.stack) < 40; i-- {
		f := g.frames[i]
		if f.fn != nil {
			rec.stack = append(rec.stack, f.fn.name+" "+ip.where(f))
		}
	}
	if len(rec.stack) > 0 {
		rec.where = rec.stack[0]
	}
	fr.pan = rec
	fr.recov = false
	ip.unwind(g)
}

func (ip *Interp) where(f *Frame) string {
	if f.blk == nil {
		return ""
	}
	for pc := min(f.pc, len(f.blk.instrs)-1); pc >= 0; pc-- {
		if p := f.blk.instrs[pc].i.Pos(); p.IsValid() {
			ps := ip.cp.p.prog.Fset.Position(p)
			return fmt.Sprintf("%s:%d", shortFile(ps.Filename), ps.Line)
		}
	}
	return ""
}

func shortFile(f string) string {
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		return f[i+1:]
	}
	return f
}

func (ip *Interp) unwind(g *G) {
	for {
		fr := g.top()
		if fr.pan == nil && !fr.recov {
			return
		}
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			ip.pushDeferred(g, fr, d)
			return
		}
		if fr.recov {
			fr.recov = false
			if fr.fn.recover >= 0 {
				fr.blk = fr.fn.blocks[fr.fn.recover]
				fr.pc = 0
				return
			}
			var res Value
			rs := fr.fn.f.Signature.Results()
			switch rs.Len() {
			case 0:
			case 1:
				res = ip.zero(rs.At(0).Type())
			default:
				res = ip.zero(rs)
			}
			ip.popFrame(g, res)
			return
		}
		rec := fr.pan
		g.frames = g.frames[:len(g.frames)-1]
		if fr.fn != nil && fr.fn.env {
			g.envDep--
		}
		if len(g.frames) == 0 {
			g.crash = rec
			g.state = gDead
			ip.onCrash(g, rec)
			return
		}
		nt := g.top()
		nt.pan = rec
		nt.recov = false
	}
}

func (ip *Interp) pushDeferred(g *G, owner *Frame, d *callTarget) {
	if d.fn != nil && d.fn.intr == nil {
		fr := ip.pushFn(g, d.fn, d.env, d.args, -1)
		fr.owner = owner
		return
	}
	g.frames = append(g.frames, &Frame{stub: d, owner: owner, dst: -1})
}

// callNested runs a call to completion immediately (no blocking allowed). Used for lazy package
// initialisation and engine callbacks.
func (ip *Interp) callNested(ct *callTarget) Value {
	ng := &G{id: -1, name: "nested", envDep: 1}
	saved := ip.cur
	ip.cur = ng
	defer func() { ip.cur = saved }()
	var res Value
	root := &Frame{fn: ip.cp.nestedFn(), regs: make([]Value, 1), blk: &Blk{}, dst: -1}
	ng.frames = append(ng.frames, root)
	if r, imm := ip.invoke(ng, ct, 0); imm {
		return r
	}
	for ng.state == gRun && len(ng.frames) > 1 {
		ip.runG(ng, 1)
	}
	if ng.crash != nil {
		unsupported("panic in nested call: %s", ip.panicText(ng.crash.val))
	}
	if ng.state != gRun {
		unsupported("blocking nested call")
	}
	res = root.regs[0]
	return res
}

var nestedF = &Fn{name: "<nested>", recover: -1}

func (cp *Compiler) nestedFn() *Fn { return nestedF }

// invoke performs a call. Returns (result, true) when it completed immediately.
func (ip *Interp) invoke(g *G, ct *callTarget, dst int32) (Value, bool) {
	if ct.builtin != nil {
		return ip.builtin(g, ct.builtin, ct.args), true
	}
	if ct.native != nil {
		return ct.native(ip, g, ct.args), true
	}
	fn := ct.fn
	if fn.intr != nil {
		return fn.intr(ip, g, ct.args), true
	}
	if fn.try != nil {
		if r, ok := fn.try(ip, g, ct.args); ok {
			return r, true
		}
	}
	ip.pushFn(g, fn, ct.env, ct.args, dst)
	return nil, false
}

func (ip *Interp) target(g *G, fr *Frame, cc *ssa.CallCommon, ops []operand) *callTarget {
	if cc.IsInvoke() {
		recv := ip.get(fr, &ops[0])
		args := make([]Value, 0, len(ops))
		args = append(args, nil)
		for i := 1; i <= len(cc.Args); i++ {
			args = append(args, ip.get(fr, &ops[i]))
		}
		return ip.invokeTarget(g, recv, cc.Method, args)
	}
	args := make([]Value, len(cc.Args))
	for i := range cc.Args {
		args[i] = ip.get(fr, &ops[i+1])
	}
	switch ops[0].kind {
	case okFunc:
		return &callTarget{fn: ip.cp.get(ops[0].v.(*ssa.Function)), args: args}
	case okBuiltin:
		return &callTarget{builtin: ops[0].v.(*ssa.Builtin), args: args}
	}
	cl, _ := ip.get(fr, &ops[0]).(*Closure)
	if cl == nil {
		ip.throwRT(g, "invalid memory address or nil pointer dereference")
	}
	return &callTarget{fn: cl.fn, env: cl.env, native: cl.native, args: args, name: cl.name}
}

func (ip *Interp) invokeTarget(g *G, recv Value, m *types.Func, args []Value) *callTarget {
	ifc, ok := recv.(Iface)
	if !ok {
		if u, isU := recv.(*uninit); isU {
			unsupported("use of uninitialised global %s", u.name)
		}
		unsupported("invoke on %T", recv)
	}
	if ifc.t == nil {
		ip.throwRT(g, "invalid memory address or nil pointer dereference")
	}
	args[0] = ifc.v
	switch rt := ifc.v.(type) {
	case *RType:
		name := m.Name()
		return &callTarget{args: args, name: "rtype." + name, native: func(ip *Interp, g *G, a []Value) Value {
			return ip.rtypeMethod(g, rt, name, a[1:])
		}}
	case *opaque:
		name := m.Name()
		o := rt
		return &callTarget{args: args, native: func(ip *Interp, g *G, a []Value) Value {
			if name == "Error" || name == "String" {
				return concStr(o.name)
			}
			unsupported("method %s of %s", name, o.name)
			return nil
		}}
	}
	f := ip.cp.method(ifc.t, m)
	if f == nil {
		unsupported("no method %s on %s", m.Name(), ifc.t)
	}
	return &callTarget{fn: f, args: args}
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (cp *Compiler) method(t types.Type, m *types.Func) *Fn {
	cp.p.methMu.Lock()
	defer cp.p.methMu.Unlock()
	k := methKey{t, m}
	if f, ok := cp.p.meth[k]; ok {
		return f
	}
	sf := cp.p.prog.LookupMethod(t, m.Pkg(), m.Name())
	var r *Fn
	if sf != nil {
		r = cp.get(sf)
	}
	cp.p.meth[k] = r
	return r
}

// ---------------------------------------------------------------- main loop

// runG executes g until it blocks, dies or the quantum (in instructions; 0 = unlimited) is over.
func (ip *Interp) runG(g *G, quantum int) {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(goPanic); ok {
				ip.startPanic(g, gp.val)
				return
			}
			panic(r)
		}
	}()
	n := 0
	for g.state == gRun {
		fr := g.frames[len(g.frames)-1]
		if fr.stub != nil {
			ct := fr.stub
			if ct.native != nil || ct.builtin != nil || (ct.fn != nil && ct.fn.intr != nil) {
				r, _ := ip.invoke(g, ct, -1)
				if r == blockedV {
					return
				}
				if g.top() == fr {
					ip.popFrame(g, r)
				}
				continue
			}
			g.frames = g.frames[:len(g.frames)-1]
			nf := ip.pushFn(g, ct.fn, ct.env, ct.args, -1)
			nf.owner = fr.owner
			continue
		}
		if fr.pc >= len(fr.blk.instrs) {
			return // nested root frame
		}
		ip.steps++
		if ip.steps&0x3ffff == 0 {
			ip.inTime()
		}
		if ip.steps > ip.maxSteps {
			panic(pathEnd{"steps", "step budget exhausted in " + fr.fn.name + " " + ip.where(fr)})
		}
		ip.exec(g, fr, &fr.blk.instrs[fr.pc])
		if ip.ended || ip.switchReq {
			return
		}
		if quantum > 0 {
			n++
			if n >= quantum && len(g.frames) <= 1 {
				return
			}
		}
	}
}

type blockedT struct{}

var blockedV Value = &blockedT{}

func (ip *Interp) exec(g *G, fr *Frame, in *Inst) {
	c := ip.c
	switch i := in.i.(type) {
	case *ssa.Phi:
		// evaluate all phis of the block simultaneously
		bl := fr.blk
		pi := -1
		for k, p := range bl.preds {
			if p == fr.prev {
				pi = k
				break
			}
		}
		if bl.nphi == 1 {
			fr.regs[in.dst] = ip.get(fr, &in.ops[pi])
			fr.pc++
			return
		}
		tmp := make([]Value, bl.nphi)
		for k := 0; k < bl.nphi; k++ {
			tmp[k] = ip.get(fr, &bl.instrs[k].ops[pi])
		}
		for k := 0; k < bl.nphi; k++ {
			fr.regs[bl.instrs[k].dst] = tmp[k]
		}
		fr.pc += bl.nphi
		return
	case *ssa.Alloc:
		cell := new(Value)
		t := i.Type().Underlying().(*types.Pointer).Elem()
		*cell = ip.zero(t)
		if i.Heap {
			ip.alloc += sizeOf(t)
		}
		fr.regs[in.dst] = cell
	case *ssa.BinOp:
		fr.regs[in.dst] = ip.binop(g, i.Op, i.X.Type(), i.Y.Type(), ip.get(fr, &in.ops[0]), ip.get(fr, &in.ops[1]))
	case *ssa.UnOp:
		if i.Op == token.ARROW {
			if !ip.chanRecv(g, fr, in, i) {
				return
			}
			break
		}
		fr.regs[in.dst] = ip.unop(g, i, ip.get(fr, &in.ops[0]))
	case *ssa.Call:
		if fr.fn.isInit && in.ops[0].kind == okFunc && in.ops[0].v.(*ssa.Function).Synthetic == "package initializer" {
			break
		}
		ct := ip.target(g, fr, &i.Call, in.ops)
		r, imm := ip.invoke(g, ct, in.dst)
		if imm {
			if r == blockedV {
				return // retried when woken
			}
			fr.regs[in.dst] = r
			fr.pc++
			return
		}
		fr.pc++
		return
	case *ssa.ChangeType:
		fr.regs[in.dst] = ip.get(fr, &in.ops[0])
	case *ssa.Convert:
		fr.regs[in.dst] = ip.convert(g, i.X.Type(), i.Type(), ip.get(fr, &in.ops[0]))
	case *ssa.MultiConvert:
		fr.regs[in.dst] = ip.convert(g, i.X.Type(), i.Type(), ip.get(fr, &in.ops[0]))
	case *ssa.ChangeInterface:
		fr.regs[in.dst] = ip.get(fr, &in.ops[0])
	case *ssa.MakeInterface:
		fr.regs[in.dst] = Iface{i.X.Type(), copyVal(ip.get(fr, &in.ops[0]))}
	case *ssa.MakeClosure:
		env := make([]Value, len(i.Bindings))
		for k := range env {
			env[k] = ip.get(fr, &in.ops[k+1])
		}
		fr.regs[in.dst] = &Closure{fn: ip.cp.get(i.Fn.(*ssa.Function)), env: env}
	case *ssa.MakeMap:
		mt := i.Type().Underlying().(*types.Map)
		if i.Reserve != nil {
			ip.chargeMap(g, mt, ip.asInt64(ip.get(fr, &in.ops[0]), i.Reserve.Type()))
		}
		fr.regs[in.dst] = ip.newMap(mt)
	case *ssa.MakeChan:
		n := ip.concInt(g, ip.get(fr, &in.ops[0]))
		ip.nextID++
		fr.regs[in.dst] = &ChanV{cap: int(n), id: ip.nextID}
	case *ssa.MakeSlice:
		et := i.Type().Underlying().(*types.Slice).Elem()
		fr.regs[in.dst] = ip.makeSlice(g, et, ip.asInt64(ip.get(fr, &in.ops[0]), i.Len.Type()), ip.asInt64(ip.get(fr, &in.ops[1]), i.Cap.Type()))
	case *ssa.SliceToArrayPointer:
		s := ip.get(fr, &in.ops[0]).(Slice)
		n := int(i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			ip.throwRT(g, "cannot convert slice with length %d to array or pointer to array with length %d", len(s), n)
		}
		if s == nil {
			fr.regs[in.dst] = (*Value)(nil)
		} else {
			cell := new(Value)
			*cell = Array(s[:n:n])
			fr.regs[in.dst] = cell
		}
	case *ssa.Slice:
		fr.regs[in.dst] = ip.sliceOp(g, fr, in, i)
	case *ssa.FieldAddr:
		p, ok := ip.get(fr, &in.ops[0]).(*Value)
		if !ok {
			unsupported("field of %T", ip.get(fr, &in.ops[0]))
		}
		if p == nil {
			ip.throwRT(g, "invalid memory address or nil pointer dereference")
		}
		s, ok := (*p).(Struct)
		if !ok {
			if u, isU := (*p).(*uninit); isU {
				unsupported("use of uninitialised global %s", u.name)
			}
			unsupported("field address in %T (%s)", *p, i.X.Type())
		}
		fr.regs[in.dst] = &s[i.Field]
	case *ssa.Field:
		s, ok := ip.get(fr, &in.ops[0]).(Struct)
		if !ok {
			unsupported("field of %T", ip.get(fr, &in.ops[0]))
		}
		fr.regs[in.dst] = s[i.Field]
	case *ssa.IndexAddr:
		fr.regs[in.dst] = ip.indexAddr(g, ip.get(fr, &in.ops[0]), ip.asInt64(ip.get(fr, &in.ops[1]), i.Index.Type()))
	case *ssa.Index:
		x := ip.get(fr, &in.ops[0])
		idx := ip.asInt64(ip.get(fr, &in.ops[1]), i.Index.Type())
		switch xv := x.(type) {
		case Array:
			k := ip.boundIndex(g, idx, len(xv))
			fr.regs[in.dst] = xv[k]
		case *Str:
			fr.regs[in.dst] = ip.strIndex(g, xv, idx)
		default:
			unsupported("index of %T", x)
		}
	case *ssa.Lookup:
		x := ip.get(fr, &in.ops[0])
		k := ip.get(fr, &in.ops[1])
		switch xv := x.(type) {
		case *Str:
			fr.regs[in.dst] = ip.strIndex(g, xv, ip.asInt64(k, i.Index.Type()))
		case *MapV:
			ip.access(g, fr, xv, false)
			j := ip.mapFind(g, xv, k)
			var v Value
			if j >= 0 {
				v = copyVal(*xv.vals[j])
			} else {
				v = ip.zero(i.X.Type().Underlying().(*types.Map).Elem())
			}
			if i.CommaOk {
				v = Tuple{v, c.Bool(j >= 0)}
			}
			fr.regs[in.dst] = v
		case *uninit:
			unsupported("use of uninitialised global %s", xv.name)
		default:
			unsupported("lookup in %T", x)
		}
	case *ssa.Range:
		x := ip.get(fr, &in.ops[0])
		it := &rangeIter{}
		switch xv := x.(type) {
		case *Str:
			it.str = xv
			if ip.flat(xv).opaque {
				unsupported("range over unmodelled text")
			}
		case *MapV:
			it.m = xv
			if xv != nil {
				ip.access(g, fr, xv, false)
			}
		default:
			unsupported("range over %T", x)
		}
		fr.regs[in.dst] = it
	case *ssa.Next:
		it := ip.get(fr, &in.ops[0]).(*rangeIter)
		fr.regs[in.dst] = ip.next(g, fr, it, i)
	case *ssa.TypeAssert:
		fr.regs[in.dst] = ip.typeAssert(g, i, ip.get(fr, &in.ops[0]))
	case *ssa.Extract:
		tp, ok := ip.get(fr, &in.ops[0]).(Tuple)
		if !ok {
			unsupported("extract from %T in %s", ip.get(fr, &in.ops[0]), fr.fn.name)
		}
		fr.regs[in.dst] = tp[i.Index]
	case *ssa.Select:
		if !ip.selectOp(g, fr, in, i) {
			return
		}
	case *ssa.Jump:
		fr.prev = fr.blk.index
		fr.blk = fr.fn.blocks[fr.blk.succs[0]]
		fr.pc = 0
		return
	case *ssa.If:
		t, ok := ip.get(fr, &in.ops[0]).(*Term)
		if !ok {
			unsupported("branch on %T", ip.get(fr, &in.ops[0]))
		}
		k := 1
		if ip.branch(t) {
			k = 0
		}
		fr.prev = fr.blk.index
		fr.blk = fr.fn.blocks[fr.blk.succs[k]]
		fr.pc = 0
		return
	case *ssa.Return:
		var res Value
		switch len(in.ops) {
		case 0:
		case 1:
			res = ip.get(fr, &in.ops[0])
		default:
			tp := make(Tuple, len(in.ops))
			for k := range tp {
				tp[k] = ip.get(fr, &in.ops[k])
			}
			res = tp
		}
		ip.popFrame(g, res)
		return
	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			ip.pushDeferred(g, fr, d)
			return // executed again afterwards
		}
	case *ssa.Panic:
		v := ip.get(fr, &in.ops[0])
		if ifc, ok := v.(Iface); ok && ifc.t == nil {
			v = ip.runtimeError("panic called with nil argument")
		}
		ip.throw(g, v)
	case *ssa.Go:
		ct := ip.target(g, fr, &i.Call, in.ops)
		ip.spawn(g, ct, i)
	case *ssa.Defer:
		ct := ip.target(g, fr, &i.Call, in.ops[:1+len(i.Call.Args)])
		if i.DeferStack != nil {
			unsupported("defer inside range-over-func body")
		}
		fr.defers = append(fr.defers, ct)
	case *ssa.Send:
		if !ip.chanSend(g, fr, ip.get(fr, &in.ops[0]), ip.get(fr, &in.ops[1])) {
			return
		}
	case *ssa.Store:
		ip.store(g, fr, ip.get(fr, &in.ops[0]), ip.get(fr, &in.ops[1]))
	case *ssa.MapUpdate:
		m := ip.get(fr, &in.ops[0]).(*MapV)
		if m == nil {
			ip.throw(g, ip.runtimeError("assignment to entry in nil map"))
		}
		ip.access(g, fr, m, true)
		ip.alloc += 16
		ip.mapSet(g, m, ip.get(fr, &in.ops[1]), ip.get(fr, &in.ops[2]))
	default:
		unsupported("instruction %T", in.i)
	}
	fr.pc++
}

type rangeIter struct {
	str  *Str
	m    *MapV
	i    int
	used map[int]bool
}

func (ip *Interp) next(g *G, fr *Frame, it *rangeIter, i *ssa.Next) Value {
	c := ip.c
	if i.IsString {
		if it.i >= it.str.length() {
			return Tuple{c.tFalse, c.BV(64, 0), c.BV(32, 0)}
		}
		if it.str.concrete() {
			for k, r := range it.str.s[it.i:] {
				_ = k
				n := it.i
				it.i += len(string(r))
				if r == 0xFFFD {
					it.i = n + 1
					if strings.HasPrefix(it.str.s[n:], "\uFFFD") {
						it.i = n + 3
					}
				}
				return Tuple{c.tTrue, c.BV(64, uint64(n)), c.BV(32, uint64(r))}
			}
		}
		n := it.i
		r, k := ip.decodeRune(it.str, n)
		it.i += k
		return Tuple{c.tTrue, c.BV(64, uint64(n)), r}
	}
	tt := i.Type().(*types.Tuple)
	kz, vz := Value(nil), Value(nil)
	if t := tt.At(1).Type(); t != types.Typ[types.Invalid] {
		kz = ip.zero(t)
	}
	if t := tt.At(2).Type(); t != types.Typ[types.Invalid] {
		vz = ip.zero(t)
	}
	if it.m == nil {
		return Tuple{c.tFalse, kz, vz}
	}
	ip.access(g, fr, it.m, false)
	if ip.mapOrder && it.m.length() > 1 {
		if it.used == nil {
			it.used = map[int]bool{}
		}
		var cand []int
		for k := range it.m.keys {
			if !it.used[k] && !it.m.gone[k] {
				cand = append(cand, k)
			}
		}
		if len(cand) == 0 {
			return Tuple{c.tFalse, kz, vz}
		}
		k := cand[ip.choose(len(cand), "maporder")]
		it.used[k] = true
		return Tuple{c.tTrue, copyVal(it.m.keys[k]), copyVal(*it.m.vals[k])}
	}
	for it.i < len(it.m.keys) {
		k := it.i
		it.i++
		if it.m.gone[k] {
			continue
		}
		return Tuple{c.tTrue, copyVal(it.m.keys[k]), copyVal(*it.m.vals[k])}
	}
	return Tuple{c.tFalse, kz, vz}
}

// asInt64 widens an index/length value to 64 bits according to its type.
func (ip *Interp) asInt64(v Value, t types.Type) *Term {
	x, ok := v.(*Term)
	if !ok {
		unsupported("integer expected, got %T", v)
	}
	if x.w == 64 {
		return x
	}
	if isSigned(t) {
		return ip.c.SExt(x, 64)
	}
	return ip.c.ZExt(x, 64)
}

func (ip *Interp) concInt(g *G, v Value) int64 {
	t := v.(*Term)
	return int64(sext(ip.concretize(t), t.w))
}

// boundIndex checks 0 <= idx < n (throwing the run-time error on the other side) and concretises.
func (ip *Interp) boundCheck(g *G, idx *Term, n int) {
	if !ip.branch(ip.c.Ult(idx, ip.c.BV(64, uint64(n)))) {
		ip.throwRT(g, "index out of range [%s] with length %d", ip.show(idx), n)
	}
}

func (ip *Interp) boundIndex(g *G, idx *Term, n int) int {
	ip.boundCheck(g, idx, n)
	return int(ip.concretize(idx))
}

func (ip *Interp) show(t *Term) string {
	if t.op == OpConst {
		return fmt.Sprint(int64(sext(t.c, max(t.w, 1))))
	}
	return fmt.Sprintf("%d(symbolic)", int64(sext(ip.model.Eval(t, ip.memo), max(t.w, 1))))
}

func (ip *Interp) strIndex(g *G, s *Str, idx *Term) Value {
	if ip.flat(s).opaque {
		unsupported("index into unmodelled text")
	}
	ip.boundCheck(g, idx, s.length())
	if idx.op == OpConst {
		return s.at(ip.c, int(idx.c))
	}
	if s.length() <= 64 {
		r := s.at(ip.c, s.length()-1)
		for k := s.length() - 2; k >= 0; k-- {
			r = ip.c.Ite(ip.c.Eq(idx, ip.c.BV(64, uint64(k))), s.at(ip.c, k), r)
		}
		return r
	}
	return s.at(ip.c, int(ip.concretize(idx)))
}

func (ip *Interp) indexAddr(g *G, x Value, idx *Term) Value {
	var cells []Value
	switch xv := x.(type) {
	case Slice:
		cells = xv
	case *Value:
		if xv == nil {
			ip.throwRT(g, "invalid memory address or nil pointer dereference")
		}
		a, ok := (*xv).(Array)
		if !ok {
			if u, isU := (*xv).(*uninit); isU {
				unsupported("use of uninitialised global %s", u.name)
			}
			unsupported("index address in %T", *xv)
		}
		cells = a
	case *uninit:
		unsupported("use of uninitialised global %s", xv.name)
	default:
		unsupported("index address in %T", x)
	}
	ip.boundCheck(g, idx, len(cells))
	if idx.op == OpConst {
		return &cells[idx.c]
	}
	if len(cells) <= 256 {
		scalar := true
		for _, e := range cells {
			if _, ok := e.(*Term); !ok {
				scalar = false
				break
			}
		}
		if scalar {
			return &SymPtr{cells: cells, idx: idx}
		}
	}
	return &cells[ip.concretize(idx)]
}

func (ip *Interp) load(g *G, fr *Frame, p Value) Value {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			ip.throwRT(g, "invalid memory address or nil pointer dereference")
		}
		if ip.races {
			ip.access(g, fr, x, false)
		}
		if u, ok := (*x).(*uninit); ok {
			unsupported("use of uninitialised global %s", u.name)
		}
		return copyVal(*x)
	case *SymPtr:
		n := len(x.cells)
		r := x.cells[n-1].(*Term)
		for k := n - 2; k >= 0; k-- {
			r = ip.c.Ite(ip.c.Eq(x.idx, ip.c.BV(64, uint64(k))), x.cells[k].(*Term), r)
		}
		return r
	}
	unsupported("load through %T", p)
	return nil
}

func (ip *Interp) store(g *G, fr *Frame, p Value, v Value) {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			ip.throwRT(g, "invalid memory address or nil pointer dereference")
		}
		if ip.races {
			ip.access(g, fr, x, true)
		}
		storeTo(x, v)
		return
	case *SymPtr:
		t := v.(*Term)
		for k := range x.cells {
			x.cells[k] = ip.c.Ite(ip.c.Eq(x.idx, ip.c.BV(64, uint64(k))), t, x.cells[k].(*Term))
		}
		return
	}
	unsupported("store through %T", p)
}

func (ip *Interp) unop(g *G, i *ssa.UnOp, x Value) Value {
	c := ip.c
	switch i.Op {
	case token.MUL:
		return ip.load(g, g.top(), x)
	case token.NOT:
		return c.Not(x.(*Term))
	case token.SUB:
		t := x.(*Term)
		if isFloat(i.X.Type()) {
			if t.op != OpConst {
				return c.BXor(t, c.BV(t.w, 1<<(t.w-1)))
			}
			if t.w == 32 {
				return c.BV(32, uint64(math.Float32bits(-math.Float32frombits(uint32(t.c)))))
			}
			return c.BV(64, math.Float64bits(-math.Float64frombits(t.c)))
		}
		return c.Neg(t)
	case token.XOR:
		return c.BNot(x.(*Term))
	}
	unsupported("unary %s", i.Op)
	return nil
}

func (ip *Interp) binop(g *G, op token.Token, tx, ty types.Type, x, y Value) Value {
	c := ip.c
	switch op {
	case token.EQL:
		return ip.eqMixed(g, tx, ty, x, y)
	case token.NEQ:
		return c.Not(ip.eqMixed(g, tx, ty, x, y))
	}
	if sx, ok := x.(*Str); ok {
		sy := y.(*Str)
		switch op {
		case token.ADD:
			return ip.strConcat(sx, sy)
		case token.LSS:
			return ip.strLess(sx, sy)
		case token.GTR:
			return ip.strLess(sy, sx)
		case token.LEQ:
			return c.Not(ip.strLess(sy, sx))
		case token.GEQ:
			return c.Not(ip.strLess(sx, sy))
		}
	}
	a, ok1 := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		if u, ok := x.(*uninit); ok {
			unsupported("use of uninitialised global %s", u.name)
		}
		unsupported("binary %s on %T,%T", op, x, y)
	}
	if isFloat(tx) {
		return ip.floatOp(op, a, b)
	}
	signed := isSigned(tx) || isUntypedInt(tx)
	switch op {
	case token.ADD:
		return c.Add(a, b)
	case token.SUB:
		return c.Sub(a, b)
	case token.MUL:
		return c.Mul(a, b)
	case token.QUO, token.REM:
		if ip.branch(c.Eq(b, c.BV(b.w, 0))) {
			ip.throwRT(g, "integer divide by zero")
		}
		switch {
		case op == token.QUO && signed:
			return c.SDiv(a, b)
		case op == token.QUO:
			return c.UDiv(a, b)
		case signed:
			return c.SRem(a, b)
		}
		return c.URem(a, b)
	case token.AND:
		if a.w == 0 {
			return c.And(a, b)
		}
		return c.BAnd(a, b)
	case token.OR:
		if a.w == 0 {
			return c.Or(a, b)
		}
		return c.BOr(a, b)
	case token.XOR:
		return c.BXor(a, b)
	case token.AND_NOT:
		return c.BAnd(a, c.BNot(b))
	case token.SHL, token.SHR:
		// saturate the shift amount
		if isSigned(ty) {
			if ip.branch(c.Slt(b, c.BV(b.w, 0))) {
				ip.throwRT(g, "negative shift amount")
			}
		}
		w := a.w
		var n *Term
		if b.op == OpConst {
			n = c.BV(w, min(b.c, uint64(w)))
		} else if b.w > w {
			big := c.Not(c.Ult(b, c.BV(b.w, uint64(w))))
			n = c.Ite(big, c.BV(w, uint64(w)), c.Extract(b, w-1, 0))
		} else {
			n = c.ZExt(b, w)
		}
		if op == token.SHL {
			return c.Shl(a, n)
		}
		if signed {
			return c.AShr(a, n)
		}
		return c.LShr(a, n)
	case token.LSS:
		if signed {
			return c.Slt(a, b)
		}
		return c.Ult(a, b)
	case token.GTR:
		if signed {
			return c.Slt(b, a)
		}
		return c.Ult(b, a)
	case token.LEQ:
		if signed {
			return c.Sle(a, b)
		}
		return c.Ule(a, b)
	case token.GEQ:
		if signed {
			return c.Sle(b, a)
		}
		return c.Ule(b, a)
	}
	unsupported("binary %s", op)
	return nil
}

func (ip *Interp) eqMixed(g *G, tx, ty types.Type, x, y Value) *Term {
	_, ix := tx.Underlying().(*types.Interface)
	_, iy := ty.Underlying().(*types.Interface)
	if ix && !iy {
		if _, ok := y.(Iface); !ok {
			y = Iface{ty, y}
		}
	} else if iy && !ix {
		if _, ok := x.(Iface); !ok {
			x = Iface{tx, x}
		}
	}
	if isFloat(tx) {
		return ip.floatOp(token.EQL, x.(*Term), y.(*Term)).(*Term)
	}
	if u, ok := x.(*uninit); ok {
		unsupported("use of uninitialised global %s", u.name)
	}
	if u, ok := y.(*uninit); ok {
		unsupported("use of uninitialised global %s", u.name)
	}
	return ip.equal(g, x, y)
}

func (ip *Interp) floatOp(op token.Token, a, b *Term) Value {
	c := ip.c
	if a.op != OpConst || b.op != OpConst {
		return ip.floatCompare(op, a, b)
	}
	var x, y float64
	if a.w == 32 {
		x, y = float64(math.Float32frombits(uint32(a.c))), float64(math.Float32frombits(uint32(b.c)))
	} else {
		x, y = math.Float64frombits(a.c), math.Float64frombits(b.c)
	}
	ret := func(f float64) Value {
		if a.w == 32 {
			return c.BV(32, uint64(math.Float32bits(float32(f))))
		}
		return c.BV(64, math.Float64bits(f))
	}
	switch op {
	case token.ADD:
		return ret(x + y)
	case token.SUB:
		return ret(x - y)
	case token.MUL:
		return ret(x * y)
	case token.QUO:
		return ret(x / y)
	case token.EQL:
		return c.Bool(x == y)
	case token.LSS:
		return c.Bool(x < y)
	case token.GTR:
		return c.Bool(x > y)
	case token.LEQ:
		return c.Bool(x <= y)
	case token.GEQ:
		return c.Bool(x >= y)
	}
	unsupported("float op %s", op)
	return nil
}

// floatCompare compares IEEE values by their bits.
func (ip *Interp) floatCompare(op token.Token, a, b *Term) *Term {
	c, w := ip.c, a.w
	sign := c.BV(w, 1<<(w-1))
	inf := c.BV(w, 0x7ff<<52)
	if w == 32 {
		inf = c.BV(w, 0xff<<23)
	}
	abs := func(x *Term) *Term { return c.BAnd(x, c.BV(w, 1<<(w-1)-1)) }
	num := c.Not(c.Or(c.Ult(inf, abs(a)), c.Ult(inf, abs(b))))
	zero := c.Eq(abs(c.BOr(a, b)), c.BV(w, 0))
	key := func(x *Term) *Term { return c.Ite(c.Ult(x, sign), c.BXor(x, sign), c.BNot(x)) }
	less := func(x, y *Term) *Term { return c.And(c.Not(zero), c.Ult(key(x), key(y))) }
	switch op {
	case token.EQL:
		return c.And(num, c.Or(zero, c.Eq(a, b)))
	case token.LSS:
		return c.And(num, less(a, b))
	case token.GTR:
		return c.And(num, less(b, a))
	case token.LEQ:
		return c.And(num, c.Not(less(b, a)))
	case token.GEQ:
		return c.And(num, c.Not(less(a, b)))
	}
	unsupported("symbolic floating point arithmetic")
	return nil
}

func (ip *Interp) convert(g *G, from, to types.Type, v Value) Value {
	c := ip.c
	fu, tu := from.Underlying(), to.Underlying()
	switch x := v.(type) {
	case *Term:
		if isString(to) {
			if x.op != OpConst {
				if x.w == 8 && types.Identical(fu, types.Typ[types.Uint8]) {
					x = c.ZExt(x, 32)
				}
				if x.w != 32 {
					unsupported("string(rune) of a symbolic value")
				}
				return ip.runesToStr([]*Term{x})
			}
			return concStr(string(rune(int32(sext(x.c, x.w)))))
		}
		w, ok := bvWidth(to)
		if !ok {
			if b, isB := tu.(*types.Basic); isB && b.Kind() == types.UnsafePointer {
				unsupported("uintptr to unsafe.Pointer")
			}
			unsupported("convert %s to %s", from, to)
		}
		ff, tf := isFloat(from), isFloat(to)
		switch {
		case ff && tf:
			if x.w == w {
				return x
			}
			if x.op != OpConst {
				unsupported("symbolic floating point conversion")
			}
			if w == 32 {
				return c.BV(32, uint64(math.Float32bits(float32(math.Float64frombits(x.c)))))
			}
			return c.BV(64, math.Float64bits(float64(math.Float32frombits(uint32(x.c)))))
		case ff:
			if x.op != OpConst {
				unsupported("symbolic floating point conversion")
			}
			f := math.Float64frombits(x.c)
			if x.w == 32 {
				f = float64(math.Float32frombits(uint32(x.c)))
			}
			if isSigned(to) {
				return c.BV(w, uint64(int64(f)))
			}
			return c.BV(w, uint64(f))
		case tf:
			if x.op != OpConst {
				unsupported("symbolic floating point conversion")
			}
			var f float64
			if isSigned(from) {
				f = float64(int64(sext(x.c, x.w)))
			} else {
				f = float64(x.c)
			}
			if w == 32 {
				return c.BV(32, uint64(math.Float32bits(float32(f))))
			}
			return c.BV(64, math.Float64bits(f))
		}
		if w == x.w {
			return x
		}
		if w < x.w {
			return c.Extract(x, w-1, 0)
		}
		if isSigned(from) || isUntypedInt(from) {
			return c.SExt(x, w)
		}
		return c.ZExt(x, w)
	case *Str:
		if sl, ok := tu.(*types.Slice); ok {
			if ip.flat(x).opaque {
				unsupported("bytes of unmodelled text")
			}
			if b, _ := sl.Elem().Underlying().(*types.Basic); b != nil && b.Kind() == types.Uint8 {
				n := x.length()
				ip.alloc += int64(n)
				out := make(Slice, n)
				for k := 0; k < n; k++ {
					out[k] = x.at(c, k)
				}
				return out
			}
			if x.concrete() {
				rs := []rune(x.s)
				out := make(Slice, len(rs))
				for k, r := range rs {
					out[k] = c.BV(32, uint64(r))
				}
				return out
			}
			var out Slice
			for k := 0; k < x.length(); {
				r, n := ip.decodeRune(x, k)
				out = append(out, r)
				k += n
			}
			ip.alloc += 4 * int64(len(out))
			return out
		}
		return x
	case Slice:
		if isString(to) {
			et := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
			if et.Kind() == types.Uint8 {
				ip.alloc += int64(len(x))
				return ip.bytesToStr(x)
			}
			ts := make([]*Term, len(x))
			for k, e := range x {
				ts[k] = e.(*Term)
			}
			return ip.runesToStr(ts)
		}
		return x
	case *Value, *SymPtr:
		return x // pointer <-> unsafe.Pointer
	}
	unsupported("convert %T to %s", v, to)
	return nil
}

func (ip *Interp) bytesToStr(x Slice) *Str {
	ts := make([]*Term, len(x))
	conc := true
	for i, e := range x {
		ts[i] = e.(*Term)
		if ts[i].op != OpConst {
			conc = false
		}
	}
	if conc {
		b := make([]byte, len(ts))
		for i, t := range ts {
			b[i] = byte(t.c)
		}
		return &Str{s: string(b)}
	}
	return &Str{b: ts}
}

const maxElems = 1 << 20

// makeSlice allocates; symbolic or huge sizes are judged against the allocation budget first.
// chargeMap accounts for a map made with room for n entries.
func (ip *Interp) chargeMap(g *G, t *types.Map, n *Term) {
	c := ip.c
	if n.op == OpConst && int64(n.c) <= 8 {
		return
	}
	sz := sizeOf(t.Key()) + sizeOf(t.Elem()) + 1
	lim := int64(1<<30) / sz
	if ip.budget > 0 {
		lim = max((ip.budget-ip.alloc)/sz, 0)
		ip.asserts++
		// first look for an excess that the compiled code shows beyond doubt
		ip.check(g, "allocation stays within megabytes of the input's proportion", c.Or(c.Slt(n, c.BV(64, 8)), c.Ule(n, c.BV(64, uint64(lim+(ip.budget+4<<20)/sz)))))
	}
	if ip.budget > 0 || n.umax > 1<<27 {
		ip.check(g, "allocation stays in proportion to the input", c.Or(c.Slt(n, c.BV(64, 8)), c.Ule(n, c.BV(64, uint64(lim)))))
	}
}

func (ip *Interp) makeSlice(g *G, et types.Type, ln, cp *Term) Slice {
	c := ip.c
	if ip.branch(c.Slt(ln, c.BV(64, 0))) {
		ip.throwRT(g, "makeslice: len out of range")
	}
	if ln != cp {
		if ip.branch(c.Slt(cp, ln)) {
			ip.throwRT(g, "makeslice: cap out of range")
		}
	}
	sz := sizeOf(et)
	if sz == 0 {
		sz = 1
	}
	if ip.budget > 0 {
		lim := (ip.budget - ip.alloc) / sz
		if lim < 0 {
			lim = 0
		}
		ip.asserts++
		// first look for an excess that the compiled code shows beyond doubt
		ip.check(g, "allocation stays within megabytes of the input's proportion", c.Ule(cp, c.BV(64, uint64(lim+(ip.budget+4<<20)/sz))))
		ip.check(g, "allocation stays in proportion to the input", c.Ule(cp, c.BV(64, uint64(lim))))
	} else if cp.umax > 1<<27 {
		ip.check(g, "allocation size is sane", c.Ule(cp, c.BV(64, uint64((1<<30)/sz))))
	}
	n := int(ip.concretize(ln))
	if n > maxElems*32 {
		unsupported("allocation of %d elements", n)
	}
	kap := n
	if cp.op == OpConst && cp.c < maxElems {
		kap = int(cp.c)
	}
	ip.alloc += int64(kap) * sz
	s := make(Slice, n, kap)
	full := s[:kap]
	switch et.Underlying().(type) {
	case *types.Struct, *types.Array:
		for i := range full {
			full[i] = ip.zero(et)
		}
	default:
		z := ip.zero(et)
		for i := range full {
			full[i] = z
		}
	}
	return s
}

func (ip *Interp) sliceOp(g *G, fr *Frame, in *Inst, i *ssa.Slice) Value {
	x := ip.get(fr, &in.ops[0])
	c := ip.c
	arg := func(k int, v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return ip.asInt64(ip.get(fr, &in.ops[k]), v.Type())
	}
	lo, hi, mx := arg(1, i.Low), arg(2, i.High), arg(3, i.Max)
	var cells Slice
	isNil := false
	kap := 0
	curLen := 0
	switch xv := x.(type) {
	case *Str:
		if lo == nil && hi == nil {
			return xv
		}
		if ip.flat(xv).opaque {
			unsupported("slicing unmodelled text")
		}
		n := xv.length()
		if lo == nil {
			lo = c.BV(64, 0)
		}
		if hi == nil {
			hi = c.BV(64, uint64(n))
		}
		if !ip.branch(c.And(c.Ule(lo, hi), c.Ule(hi, c.BV(64, uint64(n))))) {
			ip.throwRT(g, "slice bounds out of range [%s:%s] with string length %d", ip.show(lo), ip.show(hi), n)
		}
		return xv.sub(int(ip.concretize(lo)), int(ip.concretize(hi)))
	case Slice:
		cells = xv
		kap, curLen = cap(xv), len(xv)
		isNil = xv == nil
	case *Value:
		if xv == nil {
			ip.throwRT(g, "invalid memory address or nil pointer dereference")
		}
		a, ok := (*xv).(Array)
		if !ok {
			unsupported("slice of %T", *xv)
		}
		cells = Slice(a)
		kap, curLen = len(a), len(a)
	case *uninit:
		unsupported("use of uninitialised global %s", xv.name)
	default:
		unsupported("slice of %T", x)
	}
	if lo == nil {
		lo = c.BV(64, 0)
	}
	if hi == nil {
		hi = c.BV(64, uint64(curLen))
	}
	if mx == nil {
		mx = c.BV(64, uint64(kap))
	}
	ok := c.And(c.Ule(mx, c.BV(64, uint64(kap))), c.And(c.Ule(hi, mx), c.Ule(lo, hi)))
	if !ip.branch(ok) {
		ip.throwRT(g, "slice bounds out of range [%s:%s:%s] with capacity %d", ip.show(lo), ip.show(hi), ip.show(mx), kap)
	}
	l, h, m := int(ip.concretize(lo)), int(ip.concretize(hi)), int(ip.concretize(mx))
	if isNil {
		return Slice(nil)
	}
	return cells[l:h:m]
}

func (ip *Interp) implements(t types.Type, it *types.Interface) bool {
	if rt, ok := t.(*types.Named); ok && rt == rtErrT {
		// runtime errors implement error (and runtime.Error)
		for i := 0; i < it.NumMethods(); i++ {
			switch it.Method(i).Name() {
			case "Error", "RuntimeError":
			default:
				return false
			}
		}
		return true
	}
	return types.Implements(t, it)
}

func (ip *Interp) typeAssert(g *G, i *ssa.TypeAssert, x Value) Value {
	ifc, ok := x.(Iface)
	if !ok {
		if u, isU := x.(*uninit); isU {
			unsupported("use of uninitialised global %s", u.name)
		}
		unsupported("type assertion on %T", x)
	}
	c := ip.c
	match := false
	var v Value
	if ifc.t != nil {
		if it, isI := i.AssertedType.Underlying().(*types.Interface); isI {
			match = ip.implements(ifc.t, it)
			v = ifc
		} else {
			match = types.Identical(ifc.t, i.AssertedType)
			v = copyVal(ifc.v)
		}
	}
	if i.CommaOk {
		if !match {
			v = ip.zero(i.AssertedType)
		}
		return Tuple{v, c.Bool(match)}
	}
	if !match {
		have := "nil"
		if ifc.t != nil {
			have = ifc.t.String()
		}
		ip.throw(g, ip.runtimeError(fmt.Sprintf("interface conversion: interface is %s, not %s", have, i.AssertedType)))
	}
	return v
}

func (ip *Interp) builtin(g *G, b *ssa.Builtin, args []Value) Value {
	c := ip.c
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Str:
			if ip.flat(x).opaque {
				unsupported("length of unmodelled text")
			}
			return c.BV(64, uint64(x.length()))
		case Slice:
			return c.BV(64, uint64(len(x)))
		case *MapV:
			ip.access(g, g.top(), x, false)
			return c.BV(64, uint64(x.length()))
		case *ChanV:
			if x == nil {
				return c.BV(64, 0)
			}
			return c.BV(64, uint64(len(x.buf)))
		case Array:
			return c.BV(64, uint64(len(x)))
		case *Value:
			return c.BV(64, uint64(len((*x).(Array))))
		case *uninit:
			unsupported("use of uninitialised global %s", x.name)
		}
		unsupported("len of %T", args[0])
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return c.BV(64, uint64(cap(x)))
		case *ChanV:
			if x == nil {
				return c.BV(64, 0)
			}
			return c.BV(64, uint64(x.cap))
		case Array:
			return c.BV(64, uint64(len(x)))
		case *Value:
			return c.BV(64, uint64(len((*x).(Array))))
		}
		unsupported("cap of %T", args[0])
	case "append":
		s := args[0].(Slice)
		if len(args) == 1 {
			return s
		}
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = y
		case *Str:
			for k := 0; k < y.length(); k++ {
				add = append(add, y.at(c, k))
			}
		default:
			unsupported("append of %T", args[1])
		}
		if len(add) == 0 {
			return s
		}
		es := int64(8)
		if st, ok := b.Type().(*types.Signature); ok && st.Results().Len() > 0 {
			if sl, ok := st.Results().At(0).Type().Underlying().(*types.Slice); ok {
				es = sizeOf(sl.Elem())
			}
		}
		if ip.races {
			for k := range add {
				ip.access(g, g.top(), &add[k], false)
			}
		}
		n := len(s)
		if n+len(add) <= cap(s) {
			r := s[:n+len(add)]
			for k, e := range add {
				if ip.races {
					ip.access(g, g.top(), &r[n+k], true)
				}
				r[n+k] = copyVal(e)
			}
			return r
		}
		nc := growCap(n+len(add), cap(s), es)
		ip.alloc += int64(nc) * es
		r := make(Slice, n+len(add), nc)
		if ip.races {
			for k := range s {
				ip.access(g, g.top(), &s[k], false)
			}
		}
		copyCells(r, s)
		for k, e := range add {
			r[n+k] = copyVal(e)
		}
		if nc > len(r) {
			z := ip.zeroLike(r[0])
			full := r[:nc]
			for k := len(r); k < nc; k++ {
				full[k] = copyVal(z)
			}
		}
		return r
	case "copy":
		d := args[0].(Slice)
		switch y := args[1].(type) {
		case Slice:
			n := min(len(d), len(y))
			if ip.races {
				for k := 0; k < n; k++ {
					ip.access(g, g.top(), &y[k], false)
					ip.access(g, g.top(), &d[k], true)
				}
			}
			copyCells(d[:n], y[:n])
			return c.BV(64, uint64(n))
		case *Str:
			n := min(len(d), y.length())
			for k := 0; k < n; k++ {
				d[k] = y.at(c, k)
			}
			return c.BV(64, uint64(n))
		}
		unsupported("copy from %T", args[1])
	case "delete":
		m := args[0].(*MapV)
		if m != nil {
			ip.access(g, g.top(), m, true)
			ip.mapDelete(g, m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				ip.access(g, g.top(), x, true)
				*x = *ip.newMap(x.t)
			}
		case Slice:
			for k := range x {
				x[k] = ip.zeroLike(x[k])
			}
		}
		return nil
	case "close":
		ip.chanClose(g, args[0].(*ChanV))
		return nil
	case "print", "println":
		return nil
	case "recover":
		// valid only directly inside a deferred function
		fr := g.top()
		if fr.owner != nil && fr.owner.pan != nil && !fr.owner.pan.recovered {
			fr.owner.pan.recovered = true
			return fr.owner.pan.val
		}
		return Iface{}
	case "min", "max":
		t := b.Type().(*types.Signature).Results().At(0).Type()
		r := args[0]
		for _, y := range args[1:] {
			if rs, ok := r.(*Str); ok {
				lt := ip.branch(ip.strLess(y.(*Str), rs))
				if lt == (b.Name() == "min") {
					r = y
				}
				continue
			}
			a, bb := r.(*Term), y.(*Term)
			if isFloat(t) {
				unsupported("float min/max")
			}
			var lt *Term
			if isSigned(t) {
				lt = c.Slt(bb, a)
			} else {
				lt = c.Ult(bb, a)
			}
			if b.Name() == "max" {
				if isSigned(t) {
					lt = c.Slt(a, bb)
				} else {
					lt = c.Ult(a, bb)
				}
			}
			r = c.Ite(lt, bb, a)
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			ip.throwRT(g, "invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "String": // unsafe.String
		p := args[0].(*Value)
		n := int(ip.concInt(g, args[1]))
		if n == 0 {
			return ip.emptyStr
		}
		if s, ok := ip.side[p].(Slice); ok && len(s) >= n {
			return ip.bytesToStr(s[:n])
		}
		unsupported("unsafe.String")
	case "SliceData": // unsafe.SliceData
		s := args[0].(Slice)
		if s == nil {
			return (*Value)(nil)
		}
		if cap(s) == 0 {
			return new(Value)
		}
		p := &s[:1][0]
		ip.side[p] = s[:cap(s)]
		return p
	case "Slice":
		p := args[0].(*Value)
		n := int(ip.concInt(g, args[1]))
		if p == nil {
			return Slice(nil)
		}
		if s, ok := ip.side[p].(Slice); ok && cap(s) >= n {
			return s[:n:n]
		}
		unsupported("unsafe.Slice")
	case "StringData":
		s := args[0].(*Str)
		sl := make(Slice, s.length())
		for k := range sl {
			sl[k] = s.at(c, k)
		}
		if len(sl) == 0 {
			return (*Value)(nil)
		}
		ip.side[&sl[0]] = sl
		return &sl[0]
	}
	unsupported("builtin %s", b.Name())
	return nil
}

// growCap follows the runtime's growth closely enough (doubling, then 1.25x).
func growCap(need, old int, es int64) int {
	nc := old
	dbl := old * 2
	if need > dbl {
		nc = need
	} else if old < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	// round up to a size class for bytes
	if es == 1 {
		for _, k := range []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384, 448, 512, 640, 768, 896, 1024} {
			if nc <= k {
				return k
			}
		}
	} else if es == 8 && nc < 4 {
		return max(nc, 1)
	}
	return nc
}

func copyCells(d, s []Value) {
	if len(s) == 0 {
		return
	}
	switch s[0].(type) {
	case Struct, Array:
		if &d[0] != &s[0] {
			tmp := make([]Value, len(s))
			for i := range s {
				tmp[i] = copyVal(s[i])
			}
			copy(d, tmp)
			return
		}
	}
	copy(d, s)
}

func (ip *Interp) zeroLike(v Value) Value {
	switch x := v.(type) {
	case *Term:
		if x.w == 0 {
			return ip.c.tFalse
		}
		return ip.c.BV(x.w, 0)
	case *Str:
		return ip.emptyStr
	case *Value:
		return (*Value)(nil)
	case Slice:
		return Slice(nil)
	case *MapV:
		return (*MapV)(nil)
	case *ChanV:
		return (*ChanV)(nil)
	case *Closure:
		return (*Closure)(nil)
	case Iface:
		return Iface{}
	case Struct:
		n := make(Struct, len(x))
		for i := range x {
			n[i] = ip.zeroLike(x[i])
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i := range x {
			n[i] = ip.zeroLike(x[i])
		}
		return n
	case RVal:
		return RVal{}
	}
	unsupported("zero like %T", v)
	return nil
}

// panicText renders a panic value for reports.
func (ip *Interp) panicText(v Value) string {
	ifc, ok := v.(Iface)
	if !ok {
		return fmt.Sprintf("%T", v)
	}
	if ifc.t == nil {
		return "nil"
	}
	switch x := ifc.v.(type) {
	case *opaque:
		return x.name
	case *Str:
		return ip.strText(x)
	case *Value:
		if x != nil {
			if s, ok := (*x).(Struct); ok {
				for _, f := range s {
					if st, ok := f.(*Str); ok {
						return ifc.t.String() + ": " + ip.strText(st)
					}
				}
			}
		}
	}
	return ifc.t.String()
}

func (ip *Interp) strText(x *Str) string {
	if x.concrete() {
		return x.s
	}
	if x.opaque {
		return x.s + "..."
	}
	if x.b != nil {
		b := make([]byte, len(x.b))
		for i, t := range x.b {
			b[i] = byte(ip.model.Eval(t, ip.memo))
		}
		return fmt.Sprintf("%q", b)
	}
	var sb strings.Builder
	for _, s := range x.segs {
		if s.t != nil {
			fmt.Fprint(&sb, int64(ip.model.Eval(s.t, ip.memo)))
		} else if s.b != nil {
			sb.WriteString(ip.strText(&Str{b: s.b}))
		} else {
			sb.WriteString(s.s)
		}
	}
	return sb.String()
}

// isRuntimeFault distinguishes run-time/reflection faults from deliberate panics.
func isRuntimeFault(v Value) bool {
	ifc, ok := v.(Iface)
	if !ok || ifc.t == nil {
		return true
	}
	if _, ok := ifc.v.(*opaque); ok {
		return true
	}
	if p := namedPathDeref(ifc.t); strings.HasPrefix(p, "reflect.") || strings.HasPrefix(p, "runtime.") {
		return true
	}
	if s, ok := ifc.v.(*Str); ok && (strings.HasPrefix(s.s, "reflect") || strings.HasPrefix(s.s, "bytes.") || strings.HasPrefix(s.s, "bufio") || strings.HasPrefix(s.s, "strings:") || strings.HasPrefix(s.s, "sync:") || strings.HasPrefix(s.s, "strings.")) {
		return true
	}
	if p, ok := ifc.v.(*Value); ok && p != nil {
		if s, ok := (*p).(Struct); ok && len(s) > 0 {
			if st, ok := s[0].(*Str); ok && strings.HasPrefix(st.s, "bytes.") {
				return true
			}
		}
	}
	return false
}

func namedPathDeref(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	return namedPath(t)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// decodeRune is the rune that starts at byte i of a text, and its size; it forks on the kind of sequence.
func (ip *Interp) decodeRune(s *Str, i int) (*Term, int) {
	c := ip.c
	in := func(k int, lo, hi uint64) *Term {
		if i+k >= s.length() {
			return c.tFalse
		}
		b := s.at(c, i+k)
		return c.And(c.Ule(c.BV(8, lo), b), c.Ule(b, c.BV(8, hi)))
	}
	if ip.branch(in(0, 0, 0x7f)) {
		return c.ZExt(s.at(c, i), 32), 1
	}
	bits := func(k int, hi uint8) *Term { return c.Extract(s.at(c, i+k), hi, 0) }
	if t := c.And(in(0, 0xc2, 0xdf), in(1, 0x80, 0xbf)); ip.branch(t) {
		return c.ZExt(c.Concat(bits(0, 4), bits(1, 5)), 32), 2
	}
	t := c.Or(c.And(in(0, 0xe0, 0xe0), in(1, 0xa0, 0xbf)), c.Or(c.And(in(0, 0xed, 0xed), in(1, 0x80, 0x9f)), c.And(c.Or(in(0, 0xe1, 0xec), in(0, 0xee, 0xef)), in(1, 0x80, 0xbf))))
	if ip.branch(c.And(t, in(2, 0x80, 0xbf))) {
		return c.ZExt(c.Concat(bits(0, 3), bits(1, 5), bits(2, 5)), 32), 3
	}
	t = c.Or(c.And(in(0, 0xf0, 0xf0), in(1, 0x90, 0xbf)), c.Or(c.And(in(0, 0xf4, 0xf4), in(1, 0x80, 0x8f)), c.And(in(0, 0xf1, 0xf3), in(1, 0x80, 0xbf))))
	if ip.branch(c.And(t, c.And(in(2, 0x80, 0xbf), in(3, 0x80, 0xbf)))) {
		return c.ZExt(c.Concat(bits(0, 2), bits(1, 5), bits(2, 5), bits(3, 5)), 32), 4
	}
	return c.BV(32, 0xfffd), 1
}

// encodeRune is the UTF-8 form of a rune; it forks on the kind of sequence.
func (ip *Interp) encodeRune(r *Term) []*Term {
	c := ip.c
	if ip.branch(c.Ult(r, c.BV(32, 0x80))) {
		return []*Term{c.Extract(r, 7, 0)}
	}
	part := func(lead uint64, w uint8, lo uint8) *Term {
		return c.Concat(c.BV(8-w, lead>>w), c.Extract(r, lo+w-1, lo))
	}
	if ip.branch(c.Ult(r, c.BV(32, 0x800))) {
		return []*Term{part(0xc0, 5, 6), part(0x80, 6, 0)}
	}
	if ip.branch(c.Or(c.Ult(c.BV(32, 0x10ffff), r), c.And(c.Ule(c.BV(32, 0xd800), r), c.Ule(r, c.BV(32, 0xdfff))))) {
		return []*Term{c.BV(8, 0xef), c.BV(8, 0xbf), c.BV(8, 0xbd)}
	}
	if ip.branch(c.Ult(r, c.BV(32, 0x10000))) {
		return []*Term{part(0xe0, 4, 12), part(0x80, 6, 6), part(0x80, 6, 0)}
	}
	return []*Term{part(0xf0, 3, 18), part(0x80, 6, 12), part(0x80, 6, 6), part(0x80, 6, 0)}
}

// runesToStr is string(runes).
func (ip *Interp) runesToStr(rs []*Term) *Str {
	var out Slice
	for _, r := range rs {
		for _, b := range ip.encodeRune(r) {
			out = append(out, b)
		}
	}
	return ip.bytesToStr(out)
}
