package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	*Term            bool, integers, floats (as IEEE bits), uintptr
//	*Str             string
//	*Value           pointer (nil pointer = (*Value)(nil))
//	*SymPtr          pointer to one of several scalar cells, selected by a symbolic index
//	Struct, Array    aggregates, copied on load and assigned in place on store
//	Slice            Go slice of cells (nil-ness and capacity are those of the Go slice)
//	*MapV            map
//	Iface            interface value
//	*Closure         function value
//	*ChanV           channel
//	Tuple            multiple results
//	*RType, RVal     reflect.Type / reflect.Value
//	other            engine-private objects held behind opaque pointers
type Value interface{}

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

type Iface struct {
	t types.Type
	v Value
}

type SymPtr struct {
	cells []Value // scalar cells
	idx   *Term
}

type Closure struct {
	fn     *Fn
	env    []Value
	native func(ip *Interp, g *G, args []Value) Value
	name   string
}

type MapV struct {
	t    *types.Map
	keys []Value
	vals []*Value
	idx  map[interface{}]int // concrete keys only
	sym  int                 // number of symbolic keys
	del  int
	gone []bool
}

type ChanV struct {
	buf    []Value
	cap    int
	closed bool
	recvq  []*chanWait
	sendq  []*chanWait
	id     int
}

type Str struct {
	s      string
	b      []*Term  // symbolic bytes if non-nil
	segs   []strSeg // decimal renderings of symbolic integers, if non-nil
	opaque bool     // text whose content is not modelled
}

type strSeg struct {
	s string
	t *Term   // 64-bit signed value printed in decimal, if non-nil
	b []*Term // symbolic bytes, if non-nil
}

func concStr(s string) *Str { return &Str{s: s} }

func (s *Str) concrete() bool { return s.b == nil && s.segs == nil && !s.opaque }

func (s *Str) length() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (s *Str) at(c *Ctx, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return c.BV(8, uint64(s.s[i]))
}

func (s *Str) sub(lo, hi int) *Str {
	if s.b != nil {
		return mkStr(s.b[lo:hi])
	}
	return &Str{s: s.s[lo:hi]}
}

// mkStr makes a string of byte terms, concrete when they all are.
func mkStr(b []*Term) *Str {
	for _, t := range b {
		if t.op != OpConst {
			return &Str{b: b}
		}
	}
	x := make([]byte, len(b))
	for i, t := range b {
		x[i] = byte(t.c)
	}
	return &Str{s: string(x)}
}

func (s *Str) terms(c *Ctx) []*Term {
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = c.BV(8, uint64(s.s[i]))
	}
	return r
}

// pathEnd aborts the current path (Go panic, recovered by the explorer).
type pathEnd struct {
	kind string // "infeasible" (assume), "unsupported", "steps", "stop"
	msg  string
}

func unsupported(f string, a ...any) {
	panic(pathEnd{"unsupported", fmt.Sprintf(f, a...)})
}

// ---------------------------------------------------------------- types

func bvWidth(t types.Type) (uint8, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, true
	case types.Int8, types.Uint8:
		return 8, true
	case types.Int16, types.Uint16:
		return 16, true
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32, true
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.Float64, types.UntypedInt, types.UntypedFloat:
		return 64, true
	}
	return 0, false
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func namedPath(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

func (ip *Interp) zero(t types.Type) Value {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if o := n.Obj(); o.Name() == "Value" && o.Pkg() != nil && o.Pkg().Path() == "reflect" {
			return RVal{}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return (*Value)(nil)
		}
		if u.Info()&types.IsString != 0 {
			return ip.emptyStr
		}
		w, ok := bvWidth(u)
		if !ok {
			if u.Kind() == types.UntypedNil {
				return (*Value)(nil)
			}
			unsupported("zero of %s", t)
		}
		if w == 0 {
			return ip.c.tFalse
		}
		return ip.c.BV(w, 0)
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = ip.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if u.Len() > 1<<22 {
			unsupported("huge array")
		}
		a := make(Array, u.Len())
		et := u.Elem()
		if _, isB := et.Underlying().(*types.Basic); isB && len(a) > 0 {
			z := ip.zero(et)
			for i := range a {
				a[i] = z
			}
			return a
		}
		for i := range a {
			a[i] = ip.zero(et)
		}
		return a
	case *types.Tuple:
		if u.Len() == 0 {
			return nil
		}
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = ip.zero(u.At(i).Type())
		}
		return tp
	}
	unsupported("zero of %s", t)
	return nil
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i, e := range x {
			n[i] = copyVal(e)
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i, e := range x {
			n[i] = copyVal(e)
		}
		return n
	}
	return v
}

func storeTo(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(x) {
			for i := range x {
				storeTo(&d[i], x[i])
			}
			return
		}
		*p = copyVal(v)
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(x) {
			for i := range x {
				storeTo(&d[i], x[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

// sizeOf approximates a type's size in bytes (for allocation accounting).
var stdSizes = types.SizesFor("gc", "amd64")

func sizeOf(t types.Type) int64 { return stdSizes.Sizeof(t) }

// ---------------------------------------------------------------- equality

// equal returns a Bool term for x == y (same static type t, interfaces compared dynamically).
func (ip *Interp) equal(g *G, x, y Value) *Term {
	c := ip.c
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		return c.Eq(a, b)
	case *Str:
		return ip.strEq(a, y.(*Str))
	case *Value:
		switch b := y.(type) {
		case *Value:
			return c.Bool(a == b)
		}
		return c.Bool(a == nil && y == nil)
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			unsupported("iface compare %T", y)
		}
		if a.t == nil || b.t == nil {
			return c.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return c.tFalse
		}
		if !types.Comparable(a.t) {
			ip.throw(g, ip.runtimeError("comparing uncomparable type "+a.t.String()))
			return c.tFalse
		}
		if isFloat(a.t) {
			return ip.floatOp(token.EQL, a.v.(*Term), b.v.(*Term)).(*Term)
		}
		return ip.equal(g, a.v, b.v)
	case Struct:
		b := y.(Struct)
		r := c.tTrue
		for i := range a {
			r = c.And(r, ip.equal(g, a[i], b[i]))
		}
		return r
	case Array:
		b := y.(Array)
		r := c.tTrue
		for i := range a {
			r = c.And(r, ip.equal(g, a[i], b[i]))
		}
		return r
	case *ChanV:
		return c.Bool(a == y.(*ChanV))
	case *MapV:
		return c.Bool(a == y.(*MapV))
	case *Closure:
		b, _ := y.(*Closure)
		return c.Bool(a == b)
	case Slice:
		b := y.(Slice)
		return c.Bool((a == nil) == (b == nil) && a == nil)
	case *RType:
		return c.Bool(types.Identical(a.t, y.(*RType).t))
	case nil:
		return c.Bool(y == nil)
	case *opaque:
		return c.Bool(a == y)
	}
	unsupported("equality on %T", x)
	return nil
}

type opaque struct{ name string }

func (ip *Interp) strEq(a, b *Str) *Term {
	c := ip.c
	if a.concrete() && b.concrete() {
		return c.Bool(a.s == b.s)
	}
	if a.opaque || b.opaque {
		if a == b {
			return c.tTrue
		}
		unsupported("comparison of unmodelled text")
	}
	if a.segs != nil || b.segs != nil {
		return ip.segEq(a, b)
	}
	if a.length() != b.length() {
		return c.tFalse
	}
	n := a.length()
	ts := make([]*Term, 0, n)
	for i := 0; i < n; i++ {
		t := c.Eq(a.at(c, i), b.at(c, i))
		if t.isFalse() {
			return t
		}
		if !t.isTrue() {
			ts = append(ts, t)
		}
	}
	return c.AndN(ts)
}

// flat gives the decimal renderings in a string concrete lengths, with symbolic digits: it explores
// the signs and the numbers of digits separately.
func (ip *Interp) flat(s *Str) *Str {
	if s.segs == nil {
		return s
	}
	c := ip.c
	var out []*Term
	for _, sg := range s.segs {
		if sg.b != nil {
			out = append(out, sg.b...)
			continue
		}
		if sg.t == nil {
			for k := 0; k < len(sg.s); k++ {
				out = append(out, c.BV(8, uint64(sg.s[k])))
			}
			continue
		}
		t := sg.t
		if ip.branch(c.Slt(t, c.BV(64, 0))) {
			out = append(out, c.BV(8, '-'))
			t = c.Neg(t)
		}
		n, top := 1, uint64(10)
		for n < 19 && !ip.branch(c.Ult(t, c.BV(64, top))) {
			n++
			top *= 10
		}
		for k := 0; k < n; k++ {
			top /= 10
			d := t
			if n == 19 && k == 0 {
				top = 1000000000000000000
			}
			d = c.URem(c.UDiv(t, c.BV(64, top)), c.BV(64, 10))
			out = append(out, c.Add(c.Extract(d, 7, 0), c.BV(8, '0')))
		}
	}
	f := mkStr(out)
	s.segs, s.s, s.b = nil, f.s, f.b
	return s
}

// segEq compares strings holding decimal renderings of symbolic integers. Separators must be
// unambiguous (non-digit, non-'-').
func (ip *Interp) segEq(a, b *Str) *Term {
	c := ip.c
	if a.segs == nil {
		a, b = b, a
	}
	flat := func() *Term { return ip.strEq(ip.flat(a), ip.flat(b)) }
	if b.segs == nil && !b.concrete() {
		return flat()
	}
	for _, x := range []*Str{a, b} {
		for _, sg := range x.segs {
			if sg.b != nil {
				return flat()
			}
		}
	}
	if b.segs == nil && b.concrete() {
		rest := b.s
		r := c.tTrue
		for i, sg := range a.segs {
			if sg.t == nil {
				if !strings.HasPrefix(rest, sg.s) {
					return c.tFalse
				}
				rest = rest[len(sg.s):]
				continue
			}
			if i > 0 && a.segs[i-1].t != nil {
				return flat()
			}
			j := 0
			if j < len(rest) && rest[j] == '-' {
				j++
			}
			for j < len(rest) && rest[j] >= '0' && rest[j] <= '9' {
				j++
			}
			var v int64
			n, err := fmt.Sscanf(rest[:j], "%d", &v)
			if n != 1 || err != nil || fmt.Sprint(v) != rest[:j] {
				return c.tFalse
			}
			if i+1 < len(a.segs) && a.segs[i+1].t == nil && len(a.segs[i+1].s) > 0 {
				ch := a.segs[i+1].s[0]
				if ch >= '0' && ch <= '9' {
					return flat()
				}
			}
			r = c.And(r, c.Eq(sg.t, c.BV(64, uint64(v))))
			rest = rest[j:]
		}
		if rest != "" {
			return c.tFalse
		}
		return r
	}
	if b.segs != nil && len(a.segs) == len(b.segs) {
		r := c.tTrue
		for i := range a.segs {
			x, y := a.segs[i], b.segs[i]
			if (x.t == nil) != (y.t == nil) {
				return flat()
			}
			if x.t == nil {
				if x.s != y.s {
					if i == 0 && !strings.HasPrefix(x.s, y.s) && !strings.HasPrefix(y.s, x.s) {
						return c.tFalse
					}
					return flat()
				}
				continue
			}
			r = c.And(r, c.Eq(x.t, y.t))
		}
		return r
	}
	return flat()
}

func (ip *Interp) strConcat(a, b *Str) *Str {
	if a.opaque || b.opaque {
		return &Str{opaque: true, s: a.s + b.s}
	}
	if a.segs != nil || b.segs != nil {
		toSegs := func(x *Str) []strSeg {
			if x.segs != nil {
				return x.segs
			}
			if x.b != nil {
				return []strSeg{{b: x.b}}
			}
			if x.s == "" {
				return nil
			}
			return []strSeg{{s: x.s}}
		}
		out := append([]strSeg(nil), toSegs(a)...)
		for _, s := range toSegs(b) {
			if n := len(out); n > 0 && out[n-1].t == nil && s.t == nil && out[n-1].b == nil && s.b == nil {
				out[n-1].s += s.s
			} else {
				out = append(out, s)
			}
		}
		return &Str{segs: out}
	}
	if a.concrete() && b.concrete() {
		return &Str{s: a.s + b.s}
	}
	x := append([]*Term(nil), a.terms(ip.c)...)
	return &Str{b: append(x, b.terms(ip.c)...)}
}

// strLess returns a Bool term for a < b.
func (ip *Interp) strLess(a, b *Str) *Term {
	c := ip.c
	if a.concrete() && b.concrete() {
		return c.Bool(a.s < b.s)
	}
	if a.opaque || b.opaque {
		unsupported("ordering of unmodelled text")
	}
	a, b = ip.flat(a), ip.flat(b)
	n := min(a.length(), b.length())
	r := c.Bool(a.length() < b.length())
	for i := n - 1; i >= 0; i-- {
		x, y := a.at(c, i), b.at(c, i)
		r = c.Or(c.Ult(x, y), c.And(c.Eq(x, y), r))
	}
	return r
}

// ---------------------------------------------------------------- maps

func (ip *Interp) newMap(t *types.Map) *MapV {
	return &MapV{t: t, idx: map[interface{}]int{}}
}

// concKey returns a Go-comparable rendering of a fully concrete key.
func concKey(v Value) (interface{}, bool) {
	switch x := v.(type) {
	case *Term:
		if x.op == OpConst {
			return x.c, true
		}
		return nil, false
	case *Str:
		if x.concrete() {
			return x.s, true
		}
		return nil, false
	case *Value, *ChanV, *opaque:
		return x, true
	case *RType:
		return "rt:" + types.TypeString(x.t, nil), true
	case Iface:
		if x.t == nil {
			return "nil-iface", true
		}
		k, ok := concKey(x.v)
		if !ok {
			return nil, false
		}
		return [2]interface{}{types.TypeString(x.t, nil), k}, true
	case Struct:
		return concKeys([]Value(x))
	case Array:
		return concKeys([]Value(x))
	}
	return nil, false
}

func concKeys(vs []Value) (interface{}, bool) {
	var sb strings.Builder
	for _, v := range vs {
		k, ok := concKey(v)
		if !ok {
			return nil, false
		}
		fmt.Fprintf(&sb, "%T:%v|%d;", k, k, len(fmt.Sprint(k)))
	}
	return "agg:" + sb.String(), true
}

// find returns the entry index for key, forking on symbolic equality, or -1.
func (ip *Interp) mapFind(g *G, m *MapV, key Value) int {
	if m == nil {
		return -1
	}
	if t, ok := key.(Iface); ok && t.t != nil && !types.Comparable(t.t) {
		ip.throw(g, ip.runtimeError("hash of unhashable type "+t.t.String()))
		return -1
	}
	k, conc := concKey(key)
	if conc {
		if i, ok := m.idx[k]; ok {
			return i
		}
		if m.sym == 0 {
			return -1
		}
	}
	for i := range m.keys {
		if m.gone[i] {
			continue
		}
		if conc {
			if _, c2 := concKey(m.keys[i]); c2 {
				continue
			}
		}
		if ip.branch(ip.equal(g, m.keys[i], key)) {
			return i
		}
	}
	return -1
}

func (ip *Interp) mapSet(g *G, m *MapV, key, val Value) {
	if i := ip.mapFind(g, m, key); i >= 0 {
		*m.vals[i] = copyVal(val)
		return
	}
	cell := new(Value)
	*cell = copyVal(val)
	m.keys = append(m.keys, copyVal(key))
	m.vals = append(m.vals, cell)
	m.gone = append(m.gone, false)
	if k, ok := concKey(key); ok {
		m.idx[k] = len(m.keys) - 1
	} else {
		m.sym++
	}
}

func (ip *Interp) mapDelete(g *G, m *MapV, key Value) {
	i := ip.mapFind(g, m, key)
	if i < 0 {
		return
	}
	if k, ok := concKey(m.keys[i]); ok {
		delete(m.idx, k)
	} else {
		m.sym--
	}
	m.gone[i] = true
	m.del++
}

func (m *MapV) length() int {
	if m == nil {
		return 0
	}
	return len(m.keys) - m.del
}

// ---------------------------------------------------------------- constants

func (ip *Interp) constVal(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return ip.zero(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		unsupported("type parameter constant %s", tp)
	}
	if isString(t) {
		return concStr(constString(k))
	}
	w, ok := bvWidth(t)
	if !ok {
		if i, isI := t.Underlying().(*types.Interface); isI && i != nil {
			unsupported("interface constant")
		}
		unsupported("constant of type %s", t)
	}
	if w == 0 {
		return ip.c.Bool(k.Value.String() == "true")
	}
	if isFloat(t) {
		f := k.Float64()
		if w == 32 {
			return ip.c.BV(32, uint64(math.Float32bits(float32(f))))
		}
		return ip.c.BV(64, math.Float64bits(f))
	}
	if isSigned(t) || isUntypedInt(t) {
		return ip.c.BV(w, uint64(k.Int64()))
	}
	return ip.c.BV(w, k.Uint64())
}

func isUntypedInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.UntypedInt || b.Kind() == types.UntypedRune)
}
