package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Term is a node of the symbolic expression DAG. Width 0 is a boolean, otherwise a
// bit-vector of that width (1..64). Terms are hash-consed per worker (see Builder).
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLShr
	OAShr
	ONeg
	OUlt
	OUle
	OSlt
	OSle
	OExtract // c = lo; width = result width
	OZExt
	OSExt
	OFLt
	OFLe
	OFEq
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFNaN
	OFToF  // float -> float of width w
	OSIToF // signed int -> float
	OUIToF
	OFToSI
	OFToUI
)

type Term struct {
	h    uint64 // structural hash: orders operands the same way in every builder
	op   Op
	w    uint8
	c    uint64
	a    [3]*Term
	id   int32
	name string
	vidx int
}

type tkey struct {
	op Op
	w  uint8
	c  uint64
	a  [3]int32
}

type ckey struct {
	w uint8
	c uint64
}

// Builder hash-conses terms for one worker.
type Builder struct {
	tab    map[tkey]*Term
	consts map[ckey]*Term
	vars   map[string]*Term
	nextID int32
}

func NewBuilder() *Builder {
	return &Builder{tab: map[tkey]*Term{}, consts: map[ckey]*Term{}, vars: map[string]*Term{}}
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (b *Builder) Const(w uint8, c uint64) *Term {
	c &= mask(w)
	k := ckey{w, c}
	if t, ok := b.consts[k]; ok {
		return t
	}
	b.nextID++
	t := &Term{op: OConst, w: w, c: c, id: b.nextID, h: mix(mix(uint64(w)+1, c), 7)}
	b.consts[k] = t
	return t
}

func (b *Builder) Bool(v bool) *Term {
	if v {
		return b.Const(0, 1)
	}
	return b.Const(0, 0)
}

func (b *Builder) Var(idx int, w uint8) *Term {
	n := fmt.Sprintf("v%d_%d", idx, w)
	if t, ok := b.vars[n]; ok {
		return t
	}
	b.nextID++
	t := &Term{op: OVar, w: w, id: b.nextID, name: n, vidx: idx, h: mix(mix(uint64(w)+1, uint64(idx)), 11)}
	b.vars[n] = t
	return t
}

func mix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + h<<6 + h>>2
	h *= 0xff51afd7ed558ccd
	return h ^ h>>32
}

// after orders the operands of commutative operations.
func after(x, y *Term) bool {
	if x.h != y.h {
		return x.h > y.h
	}
	return x.id > y.id
}

func (b *Builder) mk(op Op, w uint8, c uint64, a0, a1, a2 *Term) *Term {
	k := tkey{op: op, w: w, c: c}
	if a0 != nil {
		k.a[0] = a0.id
	}
	if a1 != nil {
		k.a[1] = a1.id
	}
	if a2 != nil {
		k.a[2] = a2.id
	}
	if t, ok := b.tab[k]; ok {
		return t
	}
	b.nextID++
	t := &Term{op: op, w: w, c: c, a: [3]*Term{a0, a1, a2}, id: b.nextID}
	t.h = mix(mix(uint64(op)<<8|uint64(w), c), 13)
	for _, x := range t.a {
		if x != nil {
			t.h = mix(t.h, x.h)
		}
	}
	b.tab[k] = t
	return t
}

func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.c == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.c == 0 }

func (b *Builder) Not(x *Term) *Term {
	if x.op == OConst {
		return b.Bool(x.c == 0)
	}
	if x.op == ONot {
		return x.a[0]
	}
	return b.mk(ONot, 0, 0, x, nil, nil)
}

func (b *Builder) And(x, y *Term) *Term {
	if x.op == OConst {
		if x.c == 0 {
			return x
		}
		return y
	}
	if y.op == OConst {
		if y.c == 0 {
			return y
		}
		return x
	}
	if x == y {
		return x
	}
	if b.Not(x) == y {
		return b.Bool(false)
	}
	if after(x, y) {
		x, y = y, x
	}
	return b.mk(OAnd, 0, 0, x, y, nil)
}

func (b *Builder) Or(x, y *Term) *Term {
	if x.op == OConst {
		if x.c == 1 {
			return x
		}
		return y
	}
	if y.op == OConst {
		if y.c == 1 {
			return y
		}
		return x
	}
	if x == y {
		return x
	}
	if b.Not(x) == y {
		return b.Bool(true)
	}
	if after(x, y) {
		x, y = y, x
	}
	return b.mk(OOr, 0, 0, x, y, nil)
}

func (b *Builder) Eq(x, y *Term) *Term {
	if x == y {
		return b.Bool(true)
	}
	if x.op == OConst && y.op == OConst {
		return b.Bool(x.c == y.c)
	}
	if x.w == 0 {
		if x.op == OConst {
			x, y = y, x
		}
		if y.op == OConst {
			if y.c == 1 {
				return x
			}
			return b.Not(x)
		}
	}
	if x.op == OConst {
		x, y = y, x
	}
	// ite(c, k1, k2) == k
	if y.op == OConst && x.op == OIte {
		t, e := x.a[1], x.a[2]
		if t.op == OConst || e.op == OConst {
			return b.Ite(x.a[0], b.Eq(t, y), b.Eq(e, y))
		}
	}
	if y.op == OConst && (x.op == OZExt) {
		if y.c&^mask(x.a[0].w) != 0 {
			return b.Bool(false)
		}
		return b.Eq(x.a[0], b.Const(x.a[0].w, y.c))
	}
	if y.op != OConst && after(x, y) {
		x, y = y, x
	}
	return b.mk(OEq, 0, 0, x, y, nil)
}

func (b *Builder) Ite(c, x, y *Term) *Term {
	if c.op == OConst {
		if c.c == 1 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if x.w == 0 {
		if x.op == OConst {
			if x.c == 1 {
				return b.Or(c, y)
			}
			return b.And(b.Not(c), y)
		}
		if y.op == OConst {
			if y.c == 1 {
				return b.Or(b.Not(c), x)
			}
			return b.And(c, x)
		}
	}
	if c.op == ONot {
		return b.Ite(c.a[0], y, x)
	}
	return b.mk(OIte, x.w, 0, c, x, y)
}

// evalOp computes an operation on concrete operands. ok=false if undefined here.
func evalOp(op Op, w uint8, c uint64, aw uint8, x, y, z uint64) uint64 {
	bl := func(v bool) uint64 {
		if v {
			return 1
		}
		return 0
	}
	switch op {
	case ONot:
		return x ^ 1
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OEq:
		return bl(x == y)
	case OIte:
		if x == 1 {
			return y
		}
		return z
	case OAdd:
		return (x + y) & mask(w)
	case OSub:
		return (x - y) & mask(w)
	case OMul:
		return (x * y) & mask(w)
	case OUDiv:
		if y == 0 {
			return mask(w)
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return mask(w)
		}
		if sy == -1 {
			return uint64(-sx) & mask(w)
		}
		return uint64(sx/sy) & mask(w)
	case OSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & mask(w)
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OBNot:
		return ^x & mask(w)
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & mask(w)
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		sx := sext(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx>>y) & mask(w)
	case ONeg:
		return (-x) & mask(w)
	case OUlt:
		return bl(x < y)
	case OUle:
		return bl(x <= y)
	case OSlt:
		return bl(sext(x, aw) < sext(y, aw))
	case OSle:
		return bl(sext(x, aw) <= sext(y, aw))
	case OExtract:
		return (x >> c) & mask(w)
	case OZExt:
		return x
	case OSExt:
		return uint64(sext(x, aw)) & mask(w)
	case OFLt:
		return bl(fl(x, aw) < fl(y, aw))
	case OFLe:
		return bl(fl(x, aw) <= fl(y, aw))
	case OFEq:
		return bl(fl(x, aw) == fl(y, aw))
	case OFNaN:
		f := fl(x, aw)
		return bl(f != f)
	case OFAdd:
		return flop(x, y, w, '+')
	case OFSub:
		return flop(x, y, w, '-')
	case OFMul:
		return flop(x, y, w, '*')
	case OFDiv:
		return flop(x, y, w, '/')
	case OFNeg:
		return x ^ (uint64(1) << (w - 1))
	case OFToF:
		return unfl(fl(x, aw), w)
	case OSIToF:
		if w == 32 {
			return uint64(math.Float32bits(float32(sext(x, aw))))
		}
		return math.Float64bits(float64(sext(x, aw)))
	case OUIToF:
		if w == 32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return math.Float64bits(float64(x))
	case OFToSI:
		return uint64(int64(fl(x, aw))) & mask(w)
	case OFToUI:
		return uint64(fl(x, aw)) & mask(w)
	}
	panic(fmt.Sprintf("evalOp %d", op))
}

func fl(x uint64, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(x)))
	}
	return math.Float64frombits(x)
}
func unfl(f float64, w uint8) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}
func flop(x, y uint64, w uint8, op byte) uint64 {
	if w == 32 {
		a, b := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
		var r float32
		switch op {
		case '+':
			r = a + b
		case '-':
			r = a - b
		case '*':
			r = a * b
		case '/':
			r = a / b
		}
		return uint64(math.Float32bits(r))
	}
	a, b := math.Float64frombits(x), math.Float64frombits(y)
	var r float64
	switch op {
	case '+':
		r = a + b
	case '-':
		r = a - b
	case '*':
		r = a * b
	case '/':
		r = a / b
	}
	return math.Float64bits(r)
}

// Bin builds a binary operation with folding and light simplification.
func (b *Builder) Bin(op Op, w uint8, x, y *Term) *Term {
	if x.op == OConst && y.op == OConst {
		return b.Const(w, evalOp(op, w, 0, x.w, x.c, y.c, 0))
	}
	switch op {
	case OAnd:
		return b.And(x, y)
	case OOr:
		return b.Or(x, y)
	case OEq:
		return b.Eq(x, y)
	case OAdd:
		if x.op == OConst {
			x, y = y, x
		}
		if y.op == OConst && y.c == 0 {
			return x
		}
		if y.op == OConst && x.op == OAdd && x.a[1].op == OConst {
			return b.Bin(OAdd, w, x.a[0], b.Const(w, x.a[1].c+y.c))
		}
	case OSub:
		if y.op == OConst {
			return b.Bin(OAdd, w, x, b.Const(w, -y.c))
		}
		if x == y {
			return b.Const(w, 0)
		}
	case OMul:
		if x.op == OConst {
			x, y = y, x
		}
		if y.op == OConst && y.c == 1 {
			return x
		}
		if y.op == OConst && y.c == 0 {
			return y
		}
	case OBAnd:
		if x.op == OConst {
			x, y = y, x
		}
		if y.op == OConst && y.c == 0 {
			return y
		}
		if y.op == OConst && y.c == mask(w) {
			return x
		}
	case OBOr, OBXor, OShl, OLShr, OAShr:
		if y.op == OConst && y.c == 0 {
			return x
		}
	case OUlt, OSlt, OFLt:
		if x == y {
			return b.Bool(false)
		}
		if op == OUlt && y.op == OConst && y.c == 0 {
			return b.Bool(false)
		}
	case OUle, OSle:
		if x == y {
			return b.Bool(true)
		}
	}
	return b.mk(op, w, 0, x, y, nil)
}

func (b *Builder) Un(op Op, w uint8, c uint64, x *Term) *Term {
	if x.op == OConst {
		return b.Const(w, evalOp(op, w, c, x.w, x.c, 0, 0))
	}
	switch op {
	case ONot:
		return b.Not(x)
	case OZExt, OSExt:
		if x.w == w {
			return x
		}
	case OExtract:
		if c == 0 && x.w == w {
			return x
		}
		if (x.op == OZExt || x.op == OSExt) && c == 0 {
			if x.a[0].w == w {
				return x.a[0]
			}
			if x.a[0].w < w {
				return b.Un(x.op, w, 0, x.a[0])
			}
			return b.Un(OExtract, w, 0, x.a[0])
		}
	case OFToF:
		if x.w == w {
			return x
		}
	}
	return b.mk(op, w, c, x, nil, nil)
}

// ---- evaluation under a model ----

type Model []uint64 // by variable index; missing = 0

type Evaluator struct {
	m    Model
	memo map[*Term]uint64
}

func (e *Evaluator) Eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.c
	case OVar:
		if t.vidx < len(e.m) {
			return e.m[t.vidx] & mask(t.w)
		}
		return 0
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case OAnd:
		r = e.Eval(t.a[0])
		if r == 1 {
			r = e.Eval(t.a[1])
		}
	case OOr:
		r = e.Eval(t.a[0])
		if r == 0 {
			r = e.Eval(t.a[1])
		}
	case OIte:
		if e.Eval(t.a[0]) == 1 {
			r = e.Eval(t.a[1])
		} else {
			r = e.Eval(t.a[2])
		}
	default:
		var x, y uint64
		x = e.Eval(t.a[0])
		if t.a[1] != nil {
			y = e.Eval(t.a[1])
		}
		r = evalOp(t.op, t.w, t.c, t.a[0].w, x, y, 0)
	}
	e.memo[t] = r
	return r
}

// ---- SMT-LIB printing ----

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(w uint8, c uint64) string {
	if w == 0 {
		if c == 1 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, c)
	}
	return fmt.Sprintf("#b%0*b", w, c)
}

func toFP(s string, w uint8) string {
	if w == 32 {
		return "((_ to_fp 8 24) " + s + ")"
	}
	return "((_ to_fp 11 53) " + s + ")"
}

// fpOf prints a bit pattern as the floating-point number it encodes.
func fpOf(t *Term, n func(*Term) string) string {
	if t.op == OFToF {
		if t.w == 64 {
			return "((_ to_fp 11 53) RNE " + fpOf(t.a[0], n) + ")"
		}
		return "((_ to_fp 8 24) RNE " + fpOf(t.a[0], n) + ")"
	}
	return toFP(n(t), t.w)
}

var smtOps = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OBNot: "bvnot", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", ONeg: "bvneg", OUlt: "bvult", OUle: "bvule",
	OSlt: "bvslt", OSle: "bvsle",
}

// body prints a term's top node, with children given by name.
func (t *Term) body(n func(*Term) string) string {
	if s, ok := smtOps[t.op]; ok {
		var sb strings.Builder
		sb.WriteString("(" + s)
		for _, a := range t.a {
			if a != nil {
				sb.WriteString(" " + n(a))
			}
		}
		sb.WriteString(")")
		return sb.String()
	}
	x := n(t.a[0])
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.c+uint64(t.w)-1, t.c, x)
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a[0].w, x)
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, x)
	case OFLt:
		return "(fp.lt " + fpOf(t.a[0], n) + " " + fpOf(t.a[1], n) + ")"
	case OFLe:
		return "(fp.leq " + fpOf(t.a[0], n) + " " + fpOf(t.a[1], n) + ")"
	case OFEq:
		return "(fp.eq " + fpOf(t.a[0], n) + " " + fpOf(t.a[1], n) + ")"
	case OFNaN:
		return "(fp.isNaN " + fpOf(t.a[0], n) + ")"
	case OFToF:
		return "(fp.to_ieee_bv " + fpOf(t, n) + ")"
	}
	panic(unsupported(fmt.Sprintf("symbolic floating-point arithmetic (op %d)", t.op)))
}

var _ = bits.Len
