package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Op is a term constructor. Width 0 means Bool.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	ONeg
	OBNot
	OZExt
	OSExt
	OTrunc
)

var opSMT = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", ONeg: "bvneg", OBNot: "bvnot"}

// Term is an immutable, hash-consed (non-constant) bit-vector or Boolean term.
type Term struct {
	op   Op
	w    uint8
	id   uint32
	val  uint64
	a, b *Term
	c    *Term
	name string
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }

var (
	tTrue  = &Term{op: OConst, w: 0, val: 1}
	tFalse = &Term{op: OConst, w: 0, val: 0}
)

var smallConst [65][]*Term

func init() {
	for _, w := range []int{8, 16, 32, 64} {
		smallConst[w] = make([]*Term, 1280)
		for i := range smallConst[w] {
			v := uint64(i-256) & mask(uint8(w))
			smallConst[w][i] = &Term{op: OConst, w: uint8(w), val: v}
		}
	}
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func bconst(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func iconst(w uint8, v uint64) *Term {
	if w == 0 {
		return bconst(v&1 == 1)
	}
	v &= mask(w)
	if sc := smallConst[w]; sc != nil {
		sv := sext64(v, w)
		if sv >= -256 && sv < 1024 {
			return sc[sv+256]
		}
	}
	return &Term{op: OConst, w: w, val: v}
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (t *Term) sval() int64 { return sext64(t.val, t.w) }

type termKey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c uint64
}

// Pool hash-conses the terms of one path.
type Pool struct {
	tab  map[termKey]*Term
	next uint32
	vars []*Term
}

func NewPool() *Pool { return &Pool{tab: map[termKey]*Term{}, next: 1} }

func keyOf(t *Term) uint64 {
	if t == nil {
		return 0
	}
	if t.op == OConst {
		// constants: fold width and a mix of the value; collisions are resolved by eqTerm below.
		return 1<<63 | (t.val*0x9E3779B97F4A7C15)>>1 ^ uint64(t.w)
	}
	return uint64(t.id)
}

func same(a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	return a.op == OConst && b.op == OConst && a.w == b.w && a.val == b.val
}

func (p *Pool) mk(op Op, w uint8, val uint64, a, b, c *Term) *Term {
	k := termKey{op, w, val, keyOf(a), keyOf(b), keyOf(c)}
	if t, ok := p.tab[k]; ok && same(t.a, a) && same(t.b, b) && same(t.c, c) {
		return t
	}
	t := &Term{op: op, w: w, val: val, a: a, b: b, c: c, id: p.next}
	p.next++
	p.tab[k] = t
	return t
}

func (p *Pool) Var(name string, w uint8) *Term {
	t := &Term{op: OVar, w: w, id: p.next, name: name}
	p.next++
	p.vars = append(p.vars, t)
	return t
}

func (p *Pool) Not(a *Term) *Term {
	if a.isConst() {
		return bconst(a.val == 0)
	}
	if a.op == ONot {
		return a.a
	}
	switch a.op { // push negation into comparisons
	case OUlt:
		return p.Ule(a.b, a.a)
	case OUle:
		return p.Ult(a.b, a.a)
	case OSlt:
		return p.Sle(a.b, a.a)
	case OSle:
		return p.Slt(a.b, a.a)
	}
	return p.mk(ONot, 0, 0, a, nil, nil)
}

func (p *Pool) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return tFalse
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if p.Not(a) == b {
		return tFalse
	}
	return p.mk(OAnd, 0, 0, a, b, nil)
}

func (p *Pool) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return tTrue
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if p.Not(a) == b {
		return tTrue
	}
	return p.mk(OOr, 0, 0, a, b, nil)
}

func (p *Pool) Implies(a, b *Term) *Term { return p.Or(p.Not(a), b) }

func (p *Pool) Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if same(a, b) {
		return a
	}
	if a.w == 0 {
		if a.isTrue() && b.isFalse() {
			return c
		}
		if a.isFalse() && b.isTrue() {
			return p.Not(c)
		}
		if a.isTrue() {
			return p.Or(c, b)
		}
		if a.isFalse() {
			return p.And(p.Not(c), b)
		}
		if b.isTrue() {
			return p.Or(p.Not(c), a)
		}
		if b.isFalse() {
			return p.And(c, a)
		}
	}
	if c.op == ONot {
		return p.Ite(c.a, b, a)
	}
	return p.mk(OIte, a.w, 0, c, a, b)
}

func urange(t *Term) (lo, hi uint64) {
	switch t.op {
	case OConst:
		return t.val, t.val
	case OZExt:
		return urange(t.a)
	case OIte:
		l1, h1 := urange(t.b)
		l2, h2 := urange(t.c)
		return min(l1, l2), max(h1, h2)
	case OURem:
		if t.b.isConst() && t.b.val > 0 {
			return 0, t.b.val - 1
		}
	case OBAnd:
		if t.b.isConst() {
			return 0, t.b.val
		}
	case OLShr:
		if t.b.isConst() && t.b.val < 64 {
			return 0, mask(t.w) >> t.b.val
		}
	}
	return 0, mask(t.w)
}

func (p *Pool) Eq(a, b *Term) *Term {
	if same(a, b) {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		return bconst(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return p.Not(a)
		}
	} else if b.isConst() {
		if lo, hi := urange(a); b.val < lo || b.val > hi {
			return tFalse
		}
		switch a.op {
		case OZExt:
			return p.Eq(a.a, iconst(a.a.w, b.val))
		case OSExt:
			tv := iconst(a.a.w, b.val)
			if uint64(tv.sval())&mask(a.w) == b.val {
				return p.Eq(a.a, tv)
			}
			return tFalse
		case OIte:
			if a.b.isConst() || a.c.isConst() {
				return p.Ite(a.a, p.Eq(a.b, b), p.Eq(a.c, b))
			}
		case OAdd:
			if a.b.isConst() {
				return p.Eq(a.a, iconst(a.w, b.val-a.b.val))
			}
		case OSub:
			if a.b.isConst() {
				return p.Eq(a.a, iconst(a.w, b.val+a.b.val))
			}
		}
	} else {
		if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w || a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
			return p.Eq(a.a, b.a)
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return p.mk(OEq, 0, 0, a, b, nil)
}

func (p *Pool) Ult(a, b *Term) *Term {
	if same(a, b) {
		return tFalse
	}
	if a.isConst() && b.isConst() {
		return bconst(a.val < b.val)
	}
	la, ha := urange(a)
	lb, hb := urange(b)
	if ha < lb {
		return tTrue
	}
	if la >= hb {
		return tFalse
	}
	if b.isConst() && a.op == OIte && (a.b.isConst() || a.c.isConst()) {
		return p.Ite(a.a, p.Ult(a.b, b), p.Ult(a.c, b))
	}
	if a.op == OZExt && b.isConst() {
		return p.Ult(a.a, iconst(a.a.w, b.val))
	}
	if b.op == OZExt && a.isConst() {
		return p.Ult(iconst(b.a.w, a.val), b.a)
	}
	return p.mk(OUlt, 0, 0, a, b, nil)
}

func (p *Pool) Ule(a, b *Term) *Term {
	if same(a, b) {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		return bconst(a.val <= b.val)
	}
	la, ha := urange(a)
	lb, hb := urange(b)
	if ha <= lb {
		return tTrue
	}
	if la > hb {
		return tFalse
	}
	if b.isConst() && a.op == OIte && (a.b.isConst() || a.c.isConst()) {
		return p.Ite(a.a, p.Ule(a.b, b), p.Ule(a.c, b))
	}
	if a.op == OZExt && b.isConst() {
		return p.Ule(a.a, iconst(a.a.w, b.val))
	}
	if b.op == OZExt && a.isConst() {
		return p.Ule(iconst(b.a.w, a.val), b.a)
	}
	return p.mk(OUle, 0, 0, a, b, nil)
}

func nonneg(t *Term) bool {
	_, hi := urange(t)
	return hi <= mask(t.w)>>1
}

func (p *Pool) Slt(a, b *Term) *Term {
	if same(a, b) {
		return tFalse
	}
	if a.isConst() && b.isConst() {
		return bconst(a.sval() < b.sval())
	}
	na, nb := nonneg(a), nonneg(b)
	if na && nb {
		return p.Ult(a, b)
	}
	if na && b.isConst() && b.sval() < 0 {
		return tFalse
	}
	if nb && a.isConst() && a.sval() < 0 {
		return tTrue
	}
	if b.isConst() && a.op == OIte && (a.b.isConst() || a.c.isConst()) {
		return p.Ite(a.a, p.Slt(a.b, b), p.Slt(a.c, b))
	}
	return p.mk(OSlt, 0, 0, a, b, nil)
}

func (p *Pool) Sle(a, b *Term) *Term {
	if same(a, b) {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		return bconst(a.sval() <= b.sval())
	}
	na, nb := nonneg(a), nonneg(b)
	if na && nb {
		return p.Ule(a, b)
	}
	if na && b.isConst() && b.sval() < 0 {
		return tFalse
	}
	if nb && a.isConst() && a.sval() < 0 {
		return tTrue
	}
	if b.isConst() && a.op == OIte && (a.b.isConst() || a.c.isConst()) {
		return p.Ite(a.a, p.Sle(a.b, b), p.Sle(a.c, b))
	}
	return p.mk(OSle, 0, 0, a, b, nil)
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	var r uint64
	sx, sy := sext64(x, w), sext64(y, w)
	switch op {
	case OAdd:
		r = x + y
	case OSub:
		r = x - y
	case OMul:
		r = x * y
	case OUDiv:
		if y == 0 {
			r = ^uint64(0)
		} else {
			r = x / y
		}
	case OURem:
		if y == 0 {
			r = x
		} else {
			r = x % y
		}
	case OSDiv:
		if y == 0 {
			if sx < 0 {
				r = 1
			} else {
				r = ^uint64(0)
			}
		} else if sy == -1 {
			r = uint64(-sx)
		} else {
			r = uint64(sx / sy)
		}
	case OSRem:
		if y == 0 {
			r = x
		} else if sy == -1 {
			r = 0
		} else {
			r = uint64(sx % sy)
		}
	case OBAnd:
		r = x & y
	case OBOr:
		r = x | y
	case OBXor:
		r = x ^ y
	case OShl:
		if y >= uint64(w) {
			r = 0
		} else {
			r = x << y
		}
	case OLShr:
		if y >= uint64(w) {
			r = 0
		} else {
			r = x >> y
		}
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		r = uint64(sx >> y)
	default:
		panic("evalBin")
	}
	return r & mask(w)
}

func (p *Pool) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch op %d: %d %d", op, a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return iconst(w, evalBin(op, w, a.val, b.val))
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.isConst() || (!b.isConst() && a.id > b.id) {
			a, b = b, a
		}
	}
	if b.isConst() {
		k := b.val
		switch op {
		case OAdd:
			if k == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return p.Bin(OAdd, a.a, iconst(w, a.b.val+k))
			}
			if a.op == OSub && a.b.isConst() {
				return p.Bin(OAdd, a.a, iconst(w, k-a.b.val))
			}
		case OSub:
			if k == 0 {
				return a
			}
			return p.Bin(OAdd, a, iconst(w, -k))
		case OBOr, OBXor, OShl, OLShr, OAShr:
			if k == 0 {
				return a
			}
			if op == OBOr && k == mask(w) {
				return b
			}
		case OMul:
			if k == 0 {
				return b
			}
			if k == 1 {
				return a
			}
		case OBAnd:
			if k == 0 {
				return b
			}
			if k == mask(w) {
				return a
			}
			if _, hi := urange(a); bits.OnesCount64(k+1) == 1 && hi <= k {
				return a
			}
		case OUDiv, OSDiv:
			if k == 1 {
				return a
			}
		}
		if op == OURem && k != 0 {
			if _, hi := urange(a); hi < k {
				return a
			}
		}
	}
	if a == b {
		switch op {
		case OSub, OBXor:
			return iconst(w, 0)
		case OBAnd, OBOr:
			return a
		}
	}
	return p.mk(op, w, 0, a, b, nil)
}

func (p *Pool) Neg(a *Term) *Term {
	if a.isConst() {
		return iconst(a.w, -a.val)
	}
	return p.mk(ONeg, a.w, 0, a, nil, nil)
}

func (p *Pool) BNot(a *Term) *Term {
	if a.isConst() {
		return iconst(a.w, ^a.val)
	}
	return p.mk(OBNot, a.w, 0, a, nil, nil)
}

func (p *Pool) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return iconst(w, a.val)
	}
	if a.op == OZExt {
		return p.ZExt(a.a, w)
	}
	if a.op == OIte && a.b.isConst() && a.c.isConst() {
		return p.Ite(a.a, iconst(w, a.b.val), iconst(w, a.c.val))
	}
	return p.mk(OZExt, w, 0, a, nil, nil)
}

func (p *Pool) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return iconst(w, uint64(a.sval()))
	}
	if nonneg(a) {
		return p.ZExt(a, w)
	}
	return p.mk(OSExt, w, 0, a, nil, nil)
}

func (p *Pool) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return iconst(w, a.val)
	}
	if a.op == OZExt || a.op == OSExt {
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return p.Trunc(a.a, w)
		}
		if a.op == OZExt {
			return p.ZExt(a.a, w)
		}
		return p.SExt(a.a, w)
	}
	if a.op == OIte && a.b.isConst() && a.c.isConst() {
		return p.Ite(a.a, iconst(w, a.b.val), iconst(w, a.c.val))
	}
	return p.mk(OTrunc, w, 0, a, nil, nil)
}

// Model maps variables (by term) to values.
type Model map[*Term]uint64

// Eval evaluates t under m with absent variables read as 0.
func Eval(t *Term, m Model, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return m[t]
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case ONot:
		r = 1 ^ Eval(t.a, m, memo)
	case OAnd:
		r = Eval(t.a, m, memo) & Eval(t.b, m, memo)
	case OOr:
		r = Eval(t.a, m, memo) | Eval(t.b, m, memo)
	case OIte:
		if Eval(t.a, m, memo) == 1 {
			r = Eval(t.b, m, memo)
		} else {
			r = Eval(t.c, m, memo)
		}
	case OEq, OUlt, OUle, OSlt, OSle:
		x, y := Eval(t.a, m, memo), Eval(t.b, m, memo)
		var b bool
		switch t.op {
		case OEq:
			b = x == y
		case OUlt:
			b = x < y
		case OUle:
			b = x <= y
		case OSlt:
			b = sext64(x, t.a.w) < sext64(y, t.a.w)
		case OSle:
			b = sext64(x, t.a.w) <= sext64(y, t.a.w)
		}
		if b {
			r = 1
		}
	case ONeg:
		r = -Eval(t.a, m, memo) & mask(t.w)
	case OBNot:
		r = ^Eval(t.a, m, memo) & mask(t.w)
	case OZExt:
		r = Eval(t.a, m, memo)
	case OSExt:
		r = uint64(sext64(Eval(t.a, m, memo), t.a.w)) & mask(t.w)
	case OTrunc:
		r = Eval(t.a, m, memo) & mask(t.w)
	default:
		r = evalBin(t.op, t.w, Eval(t.a, m, memo), Eval(t.b, m, memo))
	}
	memo[t] = r
	return r
}

func smtConst(t *Term) string {
	if t.w == 0 {
		if t.val == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
}

func smtRef(t *Term) string {
	switch t.op {
	case OConst:
		return smtConst(t)
	case OVar:
		return fmt.Sprintf("v%d", t.id)
	}
	return fmt.Sprintf("t%d", t.id)
}

func smtBody(t *Term) string {
	switch t.op {
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, smtRef(t.a))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, smtRef(t.a))
	case OTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, smtRef(t.a))
	}
	var sb strings.Builder
	sb.WriteString("(" + opSMT[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteString(" " + smtRef(x))
		}
	}
	sb.WriteString(")")
	return sb.String()
}

func smtSort(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) String() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return smtConst(t)
		}
		return fmt.Sprintf("%d:%d", t.sval(), t.w)
	case OVar:
		return t.name
	}
	return smtBody(t)
}
