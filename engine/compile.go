package main

// Pre-resolution of SSA functions: every operand becomes a register, constant, global or function
// reference so that the interpreter loop does no map lookups.

import (
	"fmt"
	"go/token"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opKind uint8

const (
	okReg opKind = iota
	okConst
	okGlobal
	okFunc
	okBuiltin
	okNone
)

type operand struct {
	kind opKind
	idx  int32
	v    ssa.Value
}

type Inst struct {
	i   ssa.Instruction
	dst int32
	ops []operand
	aux int32
}

type Blk struct {
	index   int
	instrs  []Inst
	nphi    int
	preds   []int
	succs   []int
	comment string
}

type intrinsic func(ip *Interp, g *G, args []Value) Value

type Fn struct {
	f        *ssa.Function
	name     string
	nregs    int
	blocks   []*Blk
	recover  int
	intr     intrinsic
	redirect *Fn
	rewrite  func(ip *Interp, g *G, args []Value) []Value
	try      func(ip *Interp, g *G, args []Value) (Value, bool)
	isInit   bool
	harness  bool
	env      bool // harness environment code: no preemption inside, accesses not recorded
	user     bool // function of the package under test (not harness)
	pos      token.Pos
	once     sync.Once
	err      string
}

type Compiler struct {
	p      *Program
	mu     sync.RWMutex
	fns    map[*ssa.Function]*Fn
	consts []*ssa.Const
	constI map[*ssa.Const]int32
	globs  []*ssa.Global
	globI  map[*ssa.Global]int32
	funs   []*Fn
	funI   map[*ssa.Function]int32
}

func newCompiler(p *Program) *Compiler {
	return &Compiler{p: p, fns: map[*ssa.Function]*Fn{}, constI: map[*ssa.Const]int32{}, globI: map[*ssa.Global]int32{}, funI: map[*ssa.Function]int32{}}
}

func (cp *Compiler) isHarnessPos(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	pos := f.Pos()
	if !pos.IsValid() {
		return false
	}
	fn := cp.p.prog.Fset.Position(pos).Filename
	return strings.Contains(fn, "zz_verif_")
}

func (cp *Compiler) get(f *ssa.Function) *Fn {
	cp.mu.RLock()
	r := cp.fns[f]
	cp.mu.RUnlock()
	if r != nil {
		r.once.Do(func() { cp.compile(r) })
		return r
	}
	cp.mu.Lock()
	r = cp.fns[f]
	if r == nil {
		r = &Fn{f: f, name: fnName(f), recover: -1}
		cp.fns[f] = r
	}
	cp.mu.Unlock()
	r.once.Do(func() { cp.compile(r) })
	return r
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.String()
}

func (cp *Compiler) compile(fn *Fn) {
	f := fn.f
	fn.pos = f.Pos()
	inMain := f.Pkg == cp.p.main || (f.Pkg == nil && f.Object() != nil && f.Object().Pkg() == cp.p.main.Pkg) || (f.Origin() != nil && f.Origin().Pkg == cp.p.main)
	harness := cp.isHarnessPos(f)
	fn.user = inMain && !harness
	fn.harness = harness
	if harness {
		top := f
		for top.Parent() != nil {
			top = top.Parent()
		}
		fn.env = strings.HasPrefix(top.Name(), "env")
	}
	if in, ok := intrinsics[fn.name]; ok {
		fn.intr = in
		return
	}
	if harness && inMain {
		if in, ok := harnessIntr[f.Name()]; ok && f.Parent() == nil && f.Signature.Recv() == nil {
			fn.intr = in
			return
		}
	}
	if rd, ok := redirects[fn.name]; ok {
		t := cp.p.main.Func(rd.target)
		if t == nil {
			fn.err = "redirect target missing: " + rd.target
			return
		}
		fn.redirect = cp.get(t)
		fn.rewrite = rd.rewrite
		return
	}
	fn.try = tryIntrinsics[fn.name]
	fn.isInit = f.Synthetic == "package initializer"
	if pf := prefixIntrinsic(fn.name); pf != nil {
		fn.intr = pf
		return
	}
	if f.Pkg != nil { // waits for a build under way in another worker
		f.Pkg.Build()
	}
	if f.Blocks == nil {
		fn.err = "no body: " + fn.name
		return
	}
	regs := map[ssa.Value]int32{}
	n := int32(0)
	add := func(v ssa.Value) {
		regs[v] = n
		n++
	}
	for _, p := range f.Params {
		add(p)
	}
	for _, p := range f.FreeVars {
		add(p)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fn.nregs = int(n)
	cp.mu.Lock()
	defer cp.mu.Unlock()
	for _, b := range f.Blocks {
		bl := &Blk{index: b.Index, comment: b.Comment}
		for _, p := range b.Preds {
			bl.preds = append(bl.preds, p.Index)
		}
		for _, p := range b.Succs {
			bl.succs = append(bl.succs, p.Index)
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			it := Inst{i: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				it.dst = regs[v]
			}
			if _, ok := in.(*ssa.Phi); ok {
				bl.nphi++
			}
			var rands []*ssa.Value
			for _, r := range in.Operands(rands) {
				it.ops = append(it.ops, cp.operand(regs, r))
			}
			bl.instrs = append(bl.instrs, it)
		}
		fn.blocks = append(fn.blocks, bl)
	}
	if f.Recover != nil {
		fn.recover = f.Recover.Index
	}
}

func (cp *Compiler) operand(regs map[ssa.Value]int32, r *ssa.Value) operand {
	if r == nil || *r == nil {
		return operand{kind: okNone}
	}
	switch v := (*r).(type) {
	case *ssa.Const:
		i, ok := cp.constI[v]
		if !ok {
			i = int32(len(cp.consts))
			cp.consts = append(cp.consts, v)
			cp.constI[v] = i
		}
		return operand{kind: okConst, idx: i, v: v}
	case *ssa.Global:
		i, ok := cp.globI[v]
		if !ok {
			i = int32(len(cp.globs))
			cp.globs = append(cp.globs, v)
			cp.globI[v] = i
		}
		return operand{kind: okGlobal, idx: i, v: v}
	case *ssa.Function:
		return operand{kind: okFunc, v: v}
	case *ssa.Builtin:
		return operand{kind: okBuiltin, v: v}
	default:
		i, ok := regs[v]
		if !ok {
			panic(fmt.Sprintf("unknown value %T %v", v, v))
		}
		return operand{kind: okReg, idx: i}
	}
}
