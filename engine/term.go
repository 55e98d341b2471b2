package main

// Hash-consed SMT terms (Bool and fixed-width bit-vectors up to 64 bits) with a rewriting
// simplifier. Multi-byte loads/stores are normalised into n-ary concatenations of extracts so
// that byte-wise encode/decode pairs mostly cancel syntactically; everything else is left to
// the solver.

import (
	"fmt"
	"hash/crc32"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpUlt
	OpSlt
	OpAdd
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpConcat
	OpExtract
	OpSExt
	OpUF // name(args...) -> w   (crc steps)
)

// Term is immutable. w==0 means Bool.
type Term struct {
	op   Op
	w    uint8
	lo   uint8 // extract low bit
	c    uint64
	a    []*Term
	name string
	id   int32
	umin uint64
	umax uint64
}

type termKey struct {
	op         Op
	w, lo      uint8
	c          uint64
	a0, a1, a2 int32
	rest       string
}

// Ctx is a per-worker term table.
type Ctx struct {
	tab    map[termKey]*Term
	next   int32
	tTrue  *Term
	tFalse *Term
	small  [65][256]*Term
	vars   map[string]*Term
	hasUF  bool
}

func (c *Ctx) ufMark(name string) *Term { return c.mk(OpVar, 1, 0, 0, "uf:"+name) }

func newCtx() *Ctx {
	c := &Ctx{tab: map[termKey]*Term{}, vars: map[string]*Term{}}
	c.tTrue = c.mk(OpConst, 0, 0, 1, "")
	c.tFalse = c.mk(OpConst, 0, 0, 0, "")
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (c *Ctx) mk(op Op, w, lo uint8, cv uint64, name string, a ...*Term) *Term {
	for i, t := range a {
		if t.id < 0 { // constant not interned yet
			a[i] = c.mk(OpConst, t.w, 0, t.c, "")
		}
	}
	k := termKey{op: op, w: w, lo: lo, c: cv, a0: -1, a1: -1, a2: -1}
	switch len(a) {
	case 0:
	case 1:
		k.a0 = a[0].id
	case 2:
		k.a0, k.a1 = a[0].id, a[1].id
	case 3:
		k.a0, k.a1, k.a2 = a[0].id, a[1].id, a[2].id
	default:
		k.a0, k.a1, k.a2 = a[0].id, a[1].id, a[2].id
		var sb strings.Builder
		for _, t := range a[3:] {
			v := t.id
			sb.WriteByte(byte(v))
			sb.WriteByte(byte(v >> 8))
			sb.WriteByte(byte(v >> 16))
			sb.WriteByte(byte(v >> 24))
		}
		k.rest = sb.String()
	}
	if name != "" {
		k.rest += "\x00" + name
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, lo: lo, c: cv, name: name, id: c.next}
	if len(a) > 0 {
		t.a = append([]*Term(nil), a...)
	}
	c.next++
	t.setRange()
	c.tab[k] = t
	return t
}

func (t *Term) setRange() {
	m := mask(t.w)
	if t.w == 0 {
		m = 1
	}
	t.umin, t.umax = 0, m
	switch t.op {
	case OpConst:
		t.umin, t.umax = t.c, t.c
	case OpIte:
		if t.w > 0 {
			x, y := t.a[1], t.a[2]
			t.umin, t.umax = min(x.umin, y.umin), max(x.umax, y.umax)
		}
	case OpConcat:
		var lo, hi uint64
		for _, p := range t.a {
			lo = lo<<p.w | p.umin
			hi = hi<<p.w | p.umax
		}
		t.umin, t.umax = lo, hi
	case OpAdd:
		x, y := t.a[0], t.a[1]
		hi, carry := bits.Add64(x.umax, y.umax, 0)
		if carry == 0 && hi <= m {
			t.umin, t.umax = x.umin+y.umin, hi
		} else if y.op == OpConst {
			// x - k without borrow
			k := (-y.c) & m
			if x.umin >= k {
				t.umin, t.umax = x.umin-k, x.umax-k
			}
		}
	case OpMul:
		x, y := t.a[0], t.a[1]
		h, l := bits.Mul64(x.umax, y.umax)
		if h == 0 && l <= m {
			t.umin, t.umax = x.umin*y.umin, l
		}
	case OpUDiv:
		x, y := t.a[0], t.a[1]
		if y.umin > 0 {
			t.umin, t.umax = x.umin/y.umax, x.umax/y.umin
		}
	case OpURem:
		y := t.a[1]
		if y.umin > 0 {
			t.umax = min(y.umax-1, t.a[0].umax)
		}
	case OpBAnd:
		t.umax = min(t.a[0].umax, t.a[1].umax)
	case OpExtract:
		x := t.a[0]
		if t.lo == 0 && x.umax <= m {
			t.umin, t.umax = x.umin, x.umax
		} else if uint8(bits.Len64(x.umax)) <= t.lo+t.w {
			t.umin, t.umax = x.umin>>t.lo, x.umax>>t.lo
		}
	case OpLShr:
		t.umax = t.a[0].umax
	}
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.w == 0 && t.c == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.w == 0 && t.c == 0 }

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.tTrue
	}
	return c.tFalse
}

func (c *Ctx) BV(w uint8, v uint64) *Term {
	v &= mask(w)
	if v < 256 {
		if t := c.small[w][v]; t != nil {
			return t
		}
		t := c.mk(OpConst, w, 0, v, "")
		c.small[w][v] = t
		return t
	}
	return &Term{op: OpConst, w: w, c: v, id: -1, umin: v, umax: v}
}

func (c *Ctx) Var(name string, w uint8) *Term {
	return c.mk(OpVar, w, 0, 0, name)
}

func (c *Ctx) Not(x *Term) *Term {
	if x.op == OpConst {
		return c.Bool(x.c == 0)
	}
	if x.op == OpNot {
		return x.a[0]
	}
	return c.mk(OpNot, 0, 0, 0, "", x)
}

func (c *Ctx) And(x, y *Term) *Term {
	if x.op == OpConst {
		if x.c == 0 {
			return c.tFalse
		}
		return y
	}
	if y.op == OpConst {
		if y.c == 0 {
			return c.tFalse
		}
		return x
	}
	if x == y {
		return x
	}
	if (x.op == OpNot && x.a[0] == y) || (y.op == OpNot && y.a[0] == x) {
		return c.tFalse
	}
	if x.id > y.id {
		x, y = y, x
	}
	return c.mk(OpAnd, 0, 0, 0, "", x, y)
}

func (c *Ctx) Or(x, y *Term) *Term {
	if x.op == OpConst {
		if x.c == 1 {
			return c.tTrue
		}
		return y
	}
	if y.op == OpConst {
		if y.c == 1 {
			return c.tTrue
		}
		return x
	}
	if x == y {
		return x
	}
	if (x.op == OpNot && x.a[0] == y) || (y.op == OpNot && y.a[0] == x) {
		return c.tTrue
	}
	if x.id > y.id {
		x, y = y, x
	}
	return c.mk(OpOr, 0, 0, 0, "", x, y)
}

// AndN builds a balanced conjunction.
func (c *Ctx) AndN(ts []*Term) *Term {
	switch len(ts) {
	case 0:
		return c.tTrue
	case 1:
		return ts[0]
	}
	m := len(ts) / 2
	l := c.AndN(ts[:m])
	if l.isFalse() {
		return l
	}
	return c.And(l, c.AndN(ts[m:]))
}

func (c *Ctx) Ite(cond, x, y *Term) *Term {
	if cond.op == OpConst {
		if cond.c == 1 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if cond.op == OpNot {
		return c.Ite(cond.a[0], y, x)
	}
	if x.w == 0 {
		if x.isTrue() {
			return c.Or(cond, y)
		}
		if x.isFalse() {
			return c.And(c.Not(cond), y)
		}
		if y.isTrue() {
			return c.Or(c.Not(cond), x)
		}
		if y.isFalse() {
			return c.And(cond, x)
		}
	}
	return c.mk(OpIte, x.w, 0, 0, "", cond, x, y)
}

func allConstIte(t *Term, depth int) bool {
	if t.op == OpConst {
		return true
	}
	if t.op == OpIte && depth > 0 {
		return allConstIte(t.a[1], depth-1) && allConstIte(t.a[2], depth-1)
	}
	return false
}

func (c *Ctx) Eq(x, y *Term) *Term {
	if x == y {
		return c.tTrue
	}
	if x.op == OpConst && y.op == OpConst {
		return c.Bool(x.c == y.c)
	}
	if x.w == 0 {
		if x.op == OpConst {
			x, y = y, x
		}
		if y.op == OpConst {
			if y.c == 1 {
				return x
			}
			return c.Not(x)
		}
		if x.id > y.id {
			x, y = y, x
		}
		return c.mk(OpEq, 0, 0, 0, "", x, y)
	}
	if x.umax < y.umin || y.umax < x.umin {
		return c.tFalse
	}
	if x.op == OpConst {
		x, y = y, x
	}
	if y.op == OpConst {
		switch x.op {
		case OpIte:
			if allConstIte(x, 6) {
				return c.Ite(x.a[0], c.Eq(x.a[1], y), c.Eq(x.a[2], y))
			}
		case OpConcat:
			r := c.tTrue
			pos := x.w
			for _, p := range x.a {
				pos -= p.w
				r = c.And(r, c.Eq(p, c.BV(p.w, y.c>>pos)))
				if r.isFalse() {
					return r
				}
			}
			return r
		case OpAdd:
			if x.a[1].op == OpConst {
				return c.Eq(x.a[0], c.BV(x.w, y.c-x.a[1].c))
			}
		case OpBNot:
			return c.Eq(x.a[0], c.BV(x.w, ^y.c))
		case OpNeg:
			return c.Eq(x.a[0], c.BV(x.w, -y.c))
		case OpBXor:
			if x.a[1].op == OpConst {
				return c.Eq(x.a[0], c.BV(x.w, x.a[1].c^y.c))
			}
		case OpSExt:
			n := x.a[0].w
			low := y.c & mask(n)
			if sext(low, n)&mask(x.w) != y.c {
				return c.tFalse
			}
			return c.Eq(x.a[0], c.BV(n, low))
		}
	} else if x.op == OpConcat || y.op == OpConcat {
		// split along common boundaries
		bx, by := boundaries(x), boundaries(y)
		common := bx & by
		if common != 0 {
			r := c.tTrue
			hi := x.w
			for pos := int(x.w) - 1; pos >= 0; pos-- {
				if pos == 0 || common&(1<<uint(pos)) != 0 {
					r = c.And(r, c.Eq(c.Extract(x, hi-1, uint8(pos)), c.Extract(y, hi-1, uint8(pos))))
					if r.isFalse() {
						return r
					}
					hi = uint8(pos)
				}
			}
			return r
		}
	} else if x.op == OpSExt && y.op == OpSExt && x.a[0].w == y.a[0].w {
		return c.Eq(x.a[0], y.a[0])
	} else if x.op == OpAdd && y.op == OpAdd && x.a[1] == y.a[1] {
		return c.Eq(x.a[0], y.a[0])
	}
	if x.id > y.id {
		x, y = y, x
	}
	return c.mk(OpEq, 0, 0, 0, "", x, y)
}

func boundaries(t *Term) uint64 {
	if t.op != OpConcat {
		return 0
	}
	var r uint64
	pos := t.w
	for _, p := range t.a[:len(t.a)-1] {
		pos -= p.w
		r |= 1 << pos
	}
	return r
}

func sext(v uint64, w uint8) uint64 {
	if w >= 64 {
		return v
	}
	if v&(1<<(w-1)) != 0 {
		return v | ^mask(w)
	}
	return v
}

func (c *Ctx) Ult(x, y *Term) *Term {
	if x == y {
		return c.tFalse
	}
	if x.umax < y.umin {
		return c.tTrue
	}
	if x.umin >= y.umax {
		return c.tFalse
	}
	// strip common zero high bits
	mx := max(x.umax, y.umax)
	n := uint8(bits.Len64(mx))
	if n == 0 {
		n = 1
	}
	if n < x.w && (x.op == OpConcat || y.op == OpConcat) {
		okx := x.op == OpConst || x.op == OpConcat
		oky := y.op == OpConst || y.op == OpConcat
		if okx && oky {
			return c.Ult(c.Extract(x, n-1, 0), c.Extract(y, n-1, 0))
		}
	}
	if y.op == OpConst && y.c == 1 {
		return c.Eq(x, c.BV(x.w, 0))
	}
	if x.op == OpConst && x.c == 0 {
		return c.Not(c.Eq(y, c.BV(y.w, 0)))
	}
	if x.op == OpIte && y.op == OpConst && allConstIte(x, 6) {
		return c.Ite(x.a[0], c.Ult(x.a[1], y), c.Ult(x.a[2], y))
	}
	if y.op == OpIte && x.op == OpConst && allConstIte(y, 6) {
		return c.Ite(y.a[0], c.Ult(x, y.a[1]), c.Ult(x, y.a[2]))
	}
	return c.mk(OpUlt, 0, 0, 0, "", x, y)
}

func (c *Ctx) Ule(x, y *Term) *Term { return c.Not(c.Ult(y, x)) }

func (c *Ctx) Slt(x, y *Term) *Term {
	if x == y {
		return c.tFalse
	}
	if x.op == OpConst && y.op == OpConst {
		return c.Bool(int64(sext(x.c, x.w)) < int64(sext(y.c, y.w)))
	}
	half := uint64(1) << (x.w - 1)
	xn, yn := x.umax < half, y.umax < half       // non-negative
	xneg, yneg := x.umin >= half, y.umin >= half // negative
	if (xn && yn) || (xneg && yneg) {
		return c.Ult(x, y)
	}
	if xneg && yn {
		return c.tTrue
	}
	if xn && yneg {
		return c.tFalse
	}
	// narrow sign extensions
	if x.op == OpSExt {
		n := x.a[0].w
		if y.op == OpSExt && y.a[0].w == n {
			return c.Slt(x.a[0], y.a[0])
		}
		if y.op == OpConst {
			v := int64(sext(y.c, y.w))
			lo, hi := -(int64(1) << (n - 1)), int64(1)<<(n-1)-1
			if v > hi {
				return c.tTrue
			}
			if v <= lo {
				return c.tFalse
			}
			return c.Slt(x.a[0], c.BV(n, uint64(v)))
		}
	} else if y.op == OpSExt && x.op == OpConst {
		n := y.a[0].w
		v := int64(sext(x.c, x.w))
		lo, hi := -(int64(1) << (n - 1)), int64(1)<<(n-1)-1
		if v < lo {
			return c.tTrue
		}
		if v >= hi {
			return c.tFalse
		}
		return c.Slt(c.BV(n, uint64(v)), y.a[0])
	}
	// x < 0  <=> sign bit
	if y.op == OpConst && y.c == 0 && x.op == OpConcat {
		return c.Eq(c.Extract(x, x.w-1, x.w-1), c.BV(1, 1))
	}
	if x.op == OpIte && y.op == OpConst && allConstIte(x, 6) {
		return c.Ite(x.a[0], c.Slt(x.a[1], y), c.Slt(x.a[2], y))
	}
	return c.mk(OpSlt, 0, 0, 0, "", x, y)
}

func (c *Ctx) Sle(x, y *Term) *Term { return c.Not(c.Slt(y, x)) }

func (c *Ctx) Extract(x *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if lo == 0 && w == x.w {
		return x
	}
	switch x.op {
	case OpConst:
		return c.BV(w, x.c>>lo)
	case OpExtract:
		return c.Extract(x.a[0], x.lo+hi, x.lo+lo)
	case OpConcat:
		var parts []*Term
		pos := x.w
		for _, p := range x.a {
			top := pos // exclusive
			pos -= p.w
			if pos > hi {
				continue
			}
			if top <= lo {
				break
			}
			h, l := min(top-1, hi)-pos, uint8(0)
			if lo > pos {
				l = lo - pos
			}
			parts = append(parts, c.Extract(p, h, l))
		}
		return c.Concat(parts...)
	case OpSExt:
		n := x.a[0].w
		if hi < n {
			return c.Extract(x.a[0], hi, lo)
		}
		if lo == 0 && hi >= n {
			return c.SExt(x.a[0], w)
		}
	case OpIte:
		if allConstIte(x, 4) {
			return c.Ite(x.a[0], c.Extract(x.a[1], hi, lo), c.Extract(x.a[2], hi, lo))
		}
	case OpBAnd, OpBOr, OpBXor:
		a, b := c.Extract(x.a[0], hi, lo), c.Extract(x.a[1], hi, lo)
		switch x.op {
		case OpBAnd:
			return c.BAnd(a, b)
		case OpBOr:
			return c.BOr(a, b)
		default:
			return c.BXor(a, b)
		}
	case OpBNot:
		return c.BNot(c.Extract(x.a[0], hi, lo))
	case OpAdd, OpMul:
		if lo == 0 {
			a, b := c.Extract(x.a[0], hi, 0), c.Extract(x.a[1], hi, 0)
			if x.op == OpAdd {
				return c.Add(a, b)
			}
			return c.Mul(a, b)
		}
	}
	if x.umax>>lo == 0 {
		return c.BV(w, 0)
	}
	if n := uint8(bits.Len64(x.umax)); n <= hi && n > lo && n < x.w {
		// known zero top part
		return c.Concat(c.BV(hi-n+1, 0), c.mkExtract(x, n-1, lo))
	}
	return c.mkExtract(x, hi, lo)
}

func (c *Ctx) mkExtract(x *Term, hi, lo uint8) *Term {
	if lo == 0 && hi == x.w-1 {
		return x
	}
	return c.mk(OpExtract, hi-lo+1, lo, 0, "", x)
}

// Concat takes parts from high to low.
func (c *Ctx) Concat(parts ...*Term) *Term {
	var flat []*Term
	add := func(p *Term) {
		if len(flat) > 0 {
			q := flat[len(flat)-1]
			if q.op == OpConst && p.op == OpConst {
				flat[len(flat)-1] = c.BV(q.w+p.w, q.c<<p.w|p.c)
				return
			}
			if q.op == OpExtract && p.op == OpExtract && q.a[0] == p.a[0] && q.lo == p.lo+p.w {
				flat[len(flat)-1] = c.mkExtract(p.a[0], q.lo+q.w-1, p.lo)
				return
			}
			if q.op == OpBNot && p.op == OpBNot {
				q, p := q.a[0], p.a[0]
				if q.op == OpExtract && p.op == OpExtract && q.a[0] == p.a[0] && q.lo == p.lo+p.w {
					flat[len(flat)-1] = c.BNot(c.mkExtract(p.a[0], q.lo+q.w-1, p.lo))
					return
				}
			}
			// top piece directly followed by an extract of the same base's lower bits is handled
			// above; a whole base has no lower neighbour.
		}
		flat = append(flat, p)
	}
	for _, p := range parts {
		if p.op == OpConcat {
			for _, q := range p.a {
				add(q)
			}
		} else {
			add(p)
		}
	}
	if len(flat) == 1 {
		return flat[0]
	}
	var w uint8
	for _, p := range flat {
		w += p.w
	}
	return c.mk(OpConcat, w, 0, 0, "", flat...)
}

func (c *Ctx) ZExt(x *Term, w uint8) *Term {
	if w == x.w {
		return x
	}
	return c.Concat(c.BV(w-x.w, 0), x)
}

func (c *Ctx) SExt(x *Term, w uint8) *Term {
	if w == x.w {
		return x
	}
	if x.op == OpConst {
		return c.BV(w, sext(x.c, x.w))
	}
	if x.umax < uint64(1)<<(x.w-1) {
		return c.ZExt(x, w)
	}
	if x.op == OpSExt {
		return c.SExt(x.a[0], w)
	}
	if x.op == OpIte && allConstIte(x, 4) {
		return c.Ite(x.a[0], c.SExt(x.a[1], w), c.SExt(x.a[2], w))
	}
	return c.mk(OpSExt, w, 0, 0, "", x)
}

func (c *Ctx) Add(x, y *Term) *Term {
	if x.op == OpConst {
		x, y = y, x
	}
	if y.op == OpConst {
		if y.c == 0 {
			return x
		}
		if x.op == OpConst {
			return c.BV(x.w, x.c+y.c)
		}
		if x.op == OpAdd && x.a[1].op == OpConst {
			return c.Add(x.a[0], c.BV(x.w, x.a[1].c+y.c))
		}
		if x.op == OpIte && allConstIte(x, 4) {
			return c.Ite(x.a[0], c.Add(x.a[1], y), c.Add(x.a[2], y))
		}
	} else {
		if x.op == OpAdd && x.a[1].op == OpConst {
			return c.Add(c.Add(x.a[0], y), x.a[1])
		}
		if y.op == OpAdd && y.a[1].op == OpConst {
			return c.Add(c.Add(x, y.a[0]), y.a[1])
		}
		if y.op == OpNeg && y.a[0] == x || x.op == OpNeg && x.a[0] == y {
			return c.BV(x.w, 0)
		}
		// (a+b) + (-b) => a
		if y.op == OpNeg && x.op == OpAdd {
			if x.a[0] == y.a[0] {
				return x.a[1]
			}
			if x.a[1] == y.a[0] {
				return x.a[0]
			}
		}
		if m := c.mergeDisjoint(x, y); m != nil {
			return m
		}
		if x.id > y.id {
			x, y = y, x
		}
	}
	return c.mk(OpAdd, x.w, 0, 0, "", x, y)
}

func (c *Ctx) Neg(x *Term) *Term {
	if x.op == OpConst {
		return c.BV(x.w, -x.c)
	}
	if x.op == OpNeg {
		return x.a[0]
	}
	if x.op == OpAdd && x.a[1].op == OpConst {
		return c.Add(c.Neg(x.a[0]), c.BV(x.w, -x.a[1].c))
	}
	return c.mk(OpNeg, x.w, 0, 0, "", x)
}

func (c *Ctx) Sub(x, y *Term) *Term { return c.Add(x, c.Neg(y)) }

func (c *Ctx) Mul(x, y *Term) *Term {
	if x.op == OpConst {
		x, y = y, x
	}
	if y.op == OpConst {
		if x.op == OpConst {
			return c.BV(x.w, x.c*y.c)
		}
		switch {
		case y.c == 0:
			return y
		case y.c == 1:
			return x
		case y.c&(y.c-1) == 0:
			return c.Shl(x, c.BV(x.w, uint64(bits.TrailingZeros64(y.c))))
		}
		if x.op == OpMul && x.a[1].op == OpConst {
			return c.Mul(x.a[0], c.BV(x.w, x.a[1].c*y.c))
		}
	} else if x.id > y.id {
		x, y = y, x
	}
	return c.mk(OpMul, x.w, 0, 0, "", x, y)
}

// mulNoOvf reports whether a*b as unsigned cannot wrap.
func mulNoOvf(t *Term) bool {
	h, l := bits.Mul64(t.a[0].umax, t.a[1].umax)
	return h == 0 && l <= mask(t.w)
}

func (c *Ctx) UDiv(x, y *Term) *Term {
	if y.op == OpConst && y.c != 0 {
		if x.op == OpConst {
			return c.BV(x.w, x.c/y.c)
		}
		if y.c == 1 {
			return x
		}
		if y.c&(y.c-1) == 0 {
			return c.LShr(x, c.BV(x.w, uint64(bits.TrailingZeros64(y.c))))
		}
		if x.umax < y.c {
			return c.BV(x.w, 0)
		}
		if x.op == OpMul && x.a[1].op == OpConst && mulNoOvf(x) {
			k := x.a[1].c
			if k%y.c == 0 {
				return c.Mul(x.a[0], c.BV(x.w, k/y.c))
			}
			if y.c%k == 0 {
				return c.UDiv(x.a[0], c.BV(x.w, y.c/k))
			}
		}
		// (a*k + b) / k with b < k, no overflow
		if x.op == OpAdd {
			for i := 0; i < 2; i++ {
				m, r := x.a[i], x.a[1-i]
				if m.op == OpMul && m.a[1].op == OpConst && m.a[1].c == y.c && mulNoOvf(m) && r.umax < y.c {
					if s, cy := bits.Add64(m.umax, r.umax, 0); cy == 0 && s <= mask(x.w) {
						return m.a[0]
					}
				}
				if m.op == OpMul && m.a[1].op == OpConst && m.a[1].c == y.c && mulNoOvf(m) && r.op == OpConst {
					if s, cy := bits.Add64(m.umax, r.umax, 0); cy == 0 && s <= mask(x.w) {
						return c.Add(m.a[0], c.BV(x.w, r.c/y.c))
					}
				}
			}
		}
	}
	return c.mk(OpUDiv, x.w, 0, 0, "", x, y)
}

func (c *Ctx) URem(x, y *Term) *Term {
	if y.op == OpConst && y.c != 0 {
		if x.op == OpConst {
			return c.BV(x.w, x.c%y.c)
		}
		if y.c&(y.c-1) == 0 {
			n := uint8(bits.TrailingZeros64(y.c))
			if n == 0 {
				return c.BV(x.w, 0)
			}
			return c.ZExt(c.Extract(x, n-1, 0), x.w)
		}
		if x.umax < y.c {
			return x
		}
	}
	return c.mk(OpURem, x.w, 0, 0, "", x, y)
}

func (c *Ctx) SDiv(x, y *Term) *Term {
	half := uint64(1) << (x.w - 1)
	if x.umax < half && y.umax < half {
		return c.UDiv(x, y)
	}
	if x.op == OpConst && y.op == OpConst && y.c != 0 {
		return c.BV(x.w, uint64(goSDiv(int64(sext(x.c, x.w)), int64(sext(y.c, y.w)))))
	}
	if x.op == OpMul && y.op == OpConst && x.a[1].op == OpConst && x.a[1].c == y.c && x.a[0].op == OpSExt {
		// (sext(a)*k)/k, no overflow if the widths allow
		if int(x.a[0].a[0].w)+bits.Len64(y.c) < int(x.w) {
			return x.a[0]
		}
	}
	return c.mk(OpSDiv, x.w, 0, 0, "", x, y)
}

func goSDiv(a, b int64) int64 {
	if b == -1 {
		return -a
	}
	return a / b
}
func goSRem(a, b int64) int64 {
	if b == -1 {
		return 0
	}
	return a % b
}

func (c *Ctx) SRem(x, y *Term) *Term {
	half := uint64(1) << (x.w - 1)
	if x.umax < half && y.umax < half {
		return c.URem(x, y)
	}
	if x.op == OpConst && y.op == OpConst && y.c != 0 {
		return c.BV(x.w, uint64(goSRem(int64(sext(x.c, x.w)), int64(sext(y.c, y.w)))))
	}
	return c.mk(OpSRem, x.w, 0, 0, "", x, y)
}

func (c *Ctx) BNot(x *Term) *Term {
	if x.op == OpConst {
		return c.BV(x.w, ^x.c)
	}
	if x.op == OpBNot {
		return x.a[0]
	}
	if x.op == OpConcat {
		ps := make([]*Term, len(x.a))
		for i, p := range x.a {
			ps[i] = c.BNot(p)
		}
		return c.Concat(ps...)
	}
	return c.mk(OpBNot, x.w, 0, 0, "", x)
}

// maskRuns splits constant k into runs of equal bits and combines them with x's bits.
func (c *Ctx) maskRuns(x *Term, k uint64, on1, on0 func(p *Term) *Term) *Term {
	var parts []*Term
	hi := int(x.w) - 1
	for hi >= 0 {
		bit := k >> uint(hi) & 1
		lo := hi
		for lo > 0 && k>>uint(lo-1)&1 == bit {
			lo--
		}
		p := c.Extract(x, uint8(hi), uint8(lo))
		if bit == 1 {
			parts = append(parts, on1(p))
		} else {
			parts = append(parts, on0(p))
		}
		hi = lo - 1
	}
	return c.Concat(parts...)
}

func constRuns(k uint64, w uint8) int {
	n := 1
	for i := uint8(1); i < w; i++ {
		if (k>>i)&1 != (k>>(i-1))&1 {
			n++
		}
	}
	return n
}

func ident(p *Term) *Term { return p }

func (c *Ctx) BAnd(x, y *Term) *Term {
	if x == y {
		return x
	}
	if x.op == OpConst {
		x, y = y, x
	}
	if y.op == OpConst {
		if x.op == OpConst {
			return c.BV(x.w, x.c&y.c)
		}
		if y.c == 0 {
			return y
		}
		if y.c == mask(y.w) {
			return x
		}
		if constRuns(y.c, y.w) <= 4 {
			return c.maskRuns(x, y.c, ident, func(p *Term) *Term { return c.BV(p.w, 0) })
		}
	} else {
		if r := c.alignedBitop(x, y, c.BAnd); r != nil {
			return r
		}
		if x.id > y.id {
			x, y = y, x
		}
	}
	return c.mk(OpBAnd, x.w, 0, 0, "", x, y)
}

// mergeDisjoint merges two terms when in every aligned piece one of them is constant zero.
func (c *Ctx) mergeDisjoint(x, y *Term) *Term {
	if x.op != OpConcat && y.op != OpConcat {
		return nil
	}
	bs := boundaries(x) | boundaries(y)
	var parts []*Term
	hi := x.w
	for pos := int(x.w) - 1; pos >= 0; pos-- {
		if pos != 0 && bs&(1<<uint(pos)) == 0 {
			continue
		}
		a, b := c.Extract(x, hi-1, uint8(pos)), c.Extract(y, hi-1, uint8(pos))
		switch {
		case b.op == OpConst && b.c == 0:
			parts = append(parts, a)
		case a.op == OpConst && a.c == 0:
			parts = append(parts, b)
		default:
			return nil
		}
		hi = uint8(pos)
	}
	return c.Concat(parts...)
}

// alignedBitop applies a bitwise op piecewise when at least one operand is a concat.
func (c *Ctx) alignedBitop(x, y *Term, f func(a, b *Term) *Term) *Term {
	if x.op != OpConcat && y.op != OpConcat {
		return nil
	}
	bs := boundaries(x) | boundaries(y)
	var parts []*Term
	hi := x.w
	for pos := int(x.w) - 1; pos >= 0; pos-- {
		if pos != 0 && bs&(1<<uint(pos)) == 0 {
			continue
		}
		parts = append(parts, f(c.Extract(x, hi-1, uint8(pos)), c.Extract(y, hi-1, uint8(pos))))
		hi = uint8(pos)
	}
	return c.Concat(parts...)
}

func (c *Ctx) BOr(x, y *Term) *Term {
	if x == y {
		return x
	}
	if x.op == OpConst {
		x, y = y, x
	}
	if y.op == OpConst {
		if x.op == OpConst {
			return c.BV(x.w, x.c|y.c)
		}
		if y.c == 0 {
			return x
		}
		if y.c == mask(y.w) {
			return y
		}
		if constRuns(y.c, y.w) <= 4 {
			return c.maskRuns(x, y.c, func(p *Term) *Term { return c.BV(p.w, mask(p.w)) }, ident)
		}
	} else {
		if r := c.alignedBitop(x, y, c.BOr); r != nil {
			return r
		}
		if x.id > y.id {
			x, y = y, x
		}
	}
	return c.mk(OpBOr, x.w, 0, 0, "", x, y)
}

func (c *Ctx) BXor(x, y *Term) *Term {
	if x == y {
		return c.BV(x.w, 0)
	}
	if x.op == OpConst {
		x, y = y, x
	}
	if y.op == OpConst {
		if x.op == OpConst {
			return c.BV(x.w, x.c^y.c)
		}
		if y.c == 0 {
			return x
		}
		if y.c == mask(y.w) {
			return c.BNot(x)
		}
		if constRuns(y.c, y.w) <= 4 {
			return c.maskRuns(x, y.c, c.BNot, ident)
		}
	} else {
		if r := c.alignedBitop(x, y, c.BXor); r != nil {
			return r
		}
		if x.id > y.id {
			x, y = y, x
		}
	}
	return c.mk(OpBXor, x.w, 0, 0, "", x, y)
}

// Shl, LShr, AShr take a shift amount of the same width as x (already saturated by the caller).
func (c *Ctx) Shl(x, n *Term) *Term {
	if n.op == OpConst {
		if n.c == 0 {
			return x
		}
		if n.c >= uint64(x.w) {
			return c.BV(x.w, 0)
		}
		k := uint8(n.c)
		return c.Concat(c.Extract(x, x.w-1-k, 0), c.BV(k, 0))
	}
	return c.mk(OpShl, x.w, 0, 0, "", x, n)
}

func (c *Ctx) LShr(x, n *Term) *Term {
	if n.op == OpConst {
		if n.c == 0 {
			return x
		}
		if n.c >= uint64(x.w) {
			return c.BV(x.w, 0)
		}
		k := uint8(n.c)
		return c.Concat(c.BV(k, 0), c.Extract(x, x.w-1, k))
	}
	return c.mk(OpLShr, x.w, 0, 0, "", x, n)
}

func (c *Ctx) AShr(x, n *Term) *Term {
	if x.umax < uint64(1)<<(x.w-1) {
		return c.LShr(x, n)
	}
	if n.op == OpConst {
		k := n.c
		if k == 0 {
			return x
		}
		if k >= uint64(x.w) {
			k = uint64(x.w - 1)
		}
		if x.op == OpConst {
			return c.BV(x.w, uint64(int64(sext(x.c, x.w))>>k))
		}
		return c.SExt(c.Extract(x, x.w-1, uint8(k)), x.w)
	}
	return c.mk(OpAShr, x.w, 0, 0, "", x, n)
}

// CRCStep is one byte step of a reflected table-driven CRC-32 with the given polynomial.
func (c *Ctx) CRCStep(poly uint32, crc, b *Term) *Term {
	if crc.op == OpConst && b.op == OpConst {
		return c.BV(32, uint64(crcStep(poly, uint32(crc.c), byte(b.c))))
	}
	c.hasUF = true
	return c.mk(OpUF, 32, 0, uint64(poly), fmt.Sprintf("crcstep_%08x", poly), crc, b)
}

var crcTabs = map[uint32]*crc32.Table{
	crc32.IEEE: crc32.MakeTable(crc32.IEEE), crc32.Castagnoli: crc32.MakeTable(crc32.Castagnoli), crc32.Koopman: crc32.MakeTable(crc32.Koopman),
}

func crcStep(poly, crc uint32, b byte) uint32 {
	t := crcTabs[poly]
	return t[byte(crc)^b] ^ (crc >> 8)
}

// ---------------------------------------------------------------- evaluation

type Model map[*Term]uint64

func (m Model) clone() Model {
	r := make(Model, len(m)+8)
	for k, v := range m {
		r[k] = v
	}
	return r
}

type evalMemo map[*Term]uint64

func (m Model) Eval(t *Term, memo evalMemo) uint64 {
	switch t.op {
	case OpConst:
		return t.c
	case OpVar:
		return m[t] // default 0
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	ev := func(i int) uint64 { return m.Eval(t.a[i], memo) }
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OpNot:
		r = 1 - ev(0)
	case OpAnd:
		r = ev(0)
		if r == 1 {
			r = ev(1)
		}
	case OpOr:
		r = ev(0)
		if r == 0 {
			r = ev(1)
		}
	case OpEq:
		r = b2u(ev(0) == ev(1))
	case OpIte:
		if ev(0) == 1 {
			r = ev(1)
		} else {
			r = ev(2)
		}
	case OpUlt:
		r = b2u(ev(0) < ev(1))
	case OpSlt:
		w := t.a[0].w
		r = b2u(int64(sext(ev(0), w)) < int64(sext(ev(1), w)))
	case OpAdd:
		r = ev(0) + ev(1)
	case OpMul:
		r = ev(0) * ev(1)
	case OpUDiv:
		if d := ev(1); d == 0 {
			r = mask(t.w)
		} else {
			r = ev(0) / d
		}
	case OpURem:
		if d := ev(1); d == 0 {
			r = ev(0)
		} else {
			r = ev(0) % d
		}
	case OpSDiv:
		a, b := int64(sext(ev(0), t.w)), int64(sext(ev(1), t.w))
		if b == 0 {
			if a < 0 {
				r = 1
			} else {
				r = mask(t.w)
			}
		} else {
			r = uint64(goSDiv(a, b))
		}
	case OpSRem:
		a, b := int64(sext(ev(0), t.w)), int64(sext(ev(1), t.w))
		if b == 0 {
			r = uint64(a)
		} else {
			r = uint64(goSRem(a, b))
		}
	case OpBAnd:
		r = ev(0) & ev(1)
	case OpBOr:
		r = ev(0) | ev(1)
	case OpBXor:
		r = ev(0) ^ ev(1)
	case OpBNot:
		r = ^ev(0)
	case OpNeg:
		r = -ev(0)
	case OpShl:
		if n := ev(1); n < uint64(t.w) {
			r = ev(0) << n
		}
	case OpLShr:
		if n := ev(1); n < uint64(t.w) {
			r = ev(0) >> n
		}
	case OpAShr:
		n := ev(1)
		if n >= uint64(t.w) {
			n = uint64(t.w - 1)
		}
		r = uint64(int64(sext(ev(0), t.w)) >> n)
	case OpConcat:
		for i := range t.a {
			r = r<<t.a[i].w | ev(i)
		}
	case OpExtract:
		r = ev(0) >> t.lo
	case OpSExt:
		r = sext(ev(0), t.a[0].w)
	case OpUF:
		r = uint64(crcStep(uint32(t.c), uint32(ev(0)), byte(ev(1))))
	}
	if t.w > 0 {
		r &= mask(t.w)
	}
	memo[t] = r
	return r
}

// ---------------------------------------------------------------- SMT-LIB printing

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constSMT(t *Term) string {
	if t.w == 0 {
		if t.c == 1 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(t.w/4), t.c)
	}
	return fmt.Sprintf("#b%0*b", int(t.w), t.c)
}

var opSMT = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite", OpUlt: "bvult", OpSlt: "bvslt",
	OpAdd: "bvadd", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem",
	OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot", OpNeg: "bvneg",
	OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr", OpConcat: "concat",
}
