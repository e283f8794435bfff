package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Run-time values of the symbolic machine:
//
//	*Term        integers and booleans
//	float64      floats
//	string       concrete strings; *SymStr strings with symbolic content
//	*any         pointers
//	Struct/Array aggregates by value; SliceV slices (share their backing array)
//	*MapV, Iface, *Closure, *ssa.Function, *ssa.Builtin, *NativeFn, *ChanV, Tuple, Native, UnsafePtr
type (
	Struct []any
	Array  []any
	SliceV []any
	Tuple  []any
	Iface  struct {
		t types.Type
		v any
	}
	Closure struct {
		fn  *ssa.Function
		env []any
	}
	NativeFn struct {
		name string
		f    func(m *Machine, args []any) any
	}
	Native    struct{ v any }
	UnsafePtr struct{ v any }
	SymStr    struct {
		b   []*Term
		num *Term // lazily expanded decimal rendering of a signed 64-bit value
	}
	mapEnt struct {
		k, v    any
		deleted bool
	}
	MapV struct {
		ents []*mapEnt
		idx  map[any]*mapEnt
		nsym int
		live int
		lazy func() // fills the map on first use (imported maps)
	}
)

var nilFunc = (*Closure)(nil)

func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// zero returns a fresh zero value of t.
func zero(t types.Type) any {
	switch t := t.(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UnsafePointer:
			return UnsafePtr{}
		case t.Kind() == types.UntypedNil:
			return nil
		case t.Info()&types.IsString != 0:
			return ""
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		}
		w, _, _ := intInfo(t)
		return iconst(w, 0)
	case *types.Pointer:
		return (*any)(nil)
	case *types.Slice:
		return SliceV(nil)
	case *types.Array:
		a := make(Array, t.Len())
		for i := range a {
			a[i] = zero(t.Elem())
		}
		return a
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return nilFunc
	case *types.Interface:
		return Iface{}
	case *types.Named:
		return zero(t.Underlying())
	case *types.Alias:
		return zero(types.Unalias(t))
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(Tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.TypeParam:
		panic(unsupported("zero of type parameter " + t.String()))
	}
	panic(unsupported(fmt.Sprintf("zero of %T", t)))
}

func constValue(c *ssa.Const) any {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return bconst(constant.BoolVal(c.Value))
		case b.Info()&types.IsString != 0:
			return constant.StringVal(c.Value)
		case b.Info()&types.IsFloat != 0:
			return c.Float64()
		case b.Info()&types.IsComplex != 0:
			return c.Complex128()
		case b.Info()&types.IsInteger != 0:
			w, signed, _ := intInfo(t)
			if signed {
				return iconst(w, uint64(c.Int64()))
			}
			return iconst(w, c.Uint64())
		}
	}
	panic(unsupported("constant " + c.String()))
}

func copyVal(v any) any {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	}
	return v
}

func (m *Machine) force(p *any) any {
	if l, ok := (*p).(*lazyNat); ok {
		*p = nil
		*p = m.importValue(l.rv, l.t)
	}
	return *p
}

func (m *Machine) load(p *any) any {
	if p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	v := m.force(p)
	switch v.(type) {
	case Struct, Array:
		return copyVal(v)
	}
	return v
}

func (m *Machine) store(p *any, v any) {
	if p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	switch v := v.(type) {
	case Struct:
		if old, ok := m.force(p).(Struct); ok && len(old) == len(v) {
			for i := range v {
				m.store(&old[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	case Array:
		if old, ok := m.force(p).(Array); ok && len(old) == len(v) {
			for i := range v {
				m.store(&old[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

// ---------- strings ----------

func mkStr(b []*Term) any {
	for _, t := range b {
		if !t.isConst() {
			return &SymStr{b: b}
		}
	}
	var sb strings.Builder
	for _, t := range b {
		sb.WriteByte(byte(t.val))
	}
	return sb.String()
}

func (m *Machine) strBytes(v any) []*Term {
	switch v := v.(type) {
	case string:
		b := make([]*Term, len(v))
		for i := range b {
			b[i] = iconst(8, uint64(v[i]))
		}
		return b
	case *SymStr:
		if v.num != nil && v.b == nil {
			v.b = m.expandNum(v.num)
		}
		return v.b
	}
	panic(unsupported(fmt.Sprintf("string bytes of %T", v)))
}

func (m *Machine) strLen(v any) int {
	if s, ok := v.(string); ok {
		return len(s)
	}
	return len(m.strBytes(v))
}

func (m *Machine) concat(x, y any) any {
	xs, ok1 := x.(string)
	ys, ok2 := y.(string)
	if ok1 && ok2 {
		return xs + ys
	}
	if ok1 && xs == "" {
		return y
	}
	if ok2 && ys == "" {
		return x
	}
	a, b := m.strBytes(x), m.strBytes(y)
	r := make([]*Term, 0, len(a)+len(b))
	r = append(append(r, a...), b...)
	return mkStr(r)
}

func (m *Machine) substr(v any, lo, hi int) any {
	if s, ok := v.(string); ok {
		return s[lo:hi]
	}
	b := m.strBytes(v)
	return mkStr(b[lo:hi:hi])
}

func (m *Machine) strEq(x, y any) *Term {
	xs, ok1 := x.(string)
	ys, ok2 := y.(string)
	if ok1 && ok2 {
		return bconst(xs == ys)
	}
	if ok1 {
		return m.strEq(y, x)
	}
	xx := x.(*SymStr)
	if xx.num != nil {
		if ok2 {
			n, err := strconv.ParseInt(ys, 10, 64)
			if err != nil || strconv.FormatInt(n, 10) != ys {
				return tFalse
			}
			return m.tp.Eq(xx.num, iconst(64, uint64(n)))
		}
		if yy := y.(*SymStr); yy.num != nil {
			return m.tp.Eq(xx.num, yy.num)
		}
	}
	a, b := m.strBytes(x), m.strBytes(y)
	if len(a) != len(b) {
		return tFalse
	}
	r := tTrue
	for i := range a {
		r = m.tp.And(r, m.tp.Eq(a[i], b[i]))
		if r.isFalse() {
			return r
		}
	}
	return r
}

// strLess is the byte-wise order as one term.
func (m *Machine) strLess(x, y any) *Term {
	xs, ok1 := x.(string)
	ys, ok2 := y.(string)
	if ok1 && ok2 {
		return bconst(xs < ys)
	}
	a, b := m.strBytes(x), m.strBytes(y)
	n := min(len(a), len(b))
	r := bconst(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		r = m.tp.Ite(m.tp.Eq(a[i], b[i]), r, m.tp.Ult(a[i], b[i]))
	}
	return r
}

// expandNum renders a signed 64-bit term in decimal; the number of digits is decided by branching.
func (m *Machine) expandNum(n *Term) []*Term {
	if n.isConst() {
		return m.strBytes(strconv.FormatInt(n.sval(), 10))
	}
	if b, ok := m.numMemo[n]; ok {
		return b
	}
	tp := m.tp
	neg := m.branch(tp.Slt(n, iconst(64, 0)))
	abs := n
	if neg {
		abs = tp.Neg(n)
	}
	k, p := 1, uint64(10)
	for k < 19 && !m.branch(tp.Ult(abs, iconst(64, p))) {
		k++
		p *= 10
	}
	if k == 19 && !m.branch(tp.Ule(abs, iconst(64, 9223372036854775807))) {
		// the minimum of int64
		k = 19
	}
	var out []*Term
	if neg {
		out = append(out, iconst(8, '-'))
	}
	sum := iconst(64, 0)
	av := Eval(abs, m.model, map[*Term]uint64{})
	digs := make([]*Term, k)
	for i := k - 1; i >= 0; i-- {
		d := m.auxVar("digit", 8, av%10)
		av /= 10
		digs[i] = d
	}
	pw := uint64(1)
	for i := k - 1; i >= 0; i-- {
		m.addPC(tp.Ule(digs[i], iconst(8, 9)))
		sum = tp.Bin(OAdd, sum, tp.Bin(OMul, tp.ZExt(digs[i], 64), iconst(64, pw)))
		pw *= 10
	}
	m.addPC(tp.Eq(abs, sum))
	for _, d := range digs {
		out = append(out, tp.Bin(OAdd, d, iconst(8, '0')))
	}
	m.numMemo[n] = out
	m.numRev[termsKey(out)] = n
	return out
}

func termsKey(b []*Term) string {
	var sb strings.Builder
	for _, t := range b {
		if t.isConst() {
			fmt.Fprintf(&sb, "c%d,", t.val)
		} else {
			fmt.Fprintf(&sb, "%d,", t.id)
		}
	}
	return sb.String()
}

// itoa is the decimal rendering of a signed 64-bit term.
func (m *Machine) itoa(t *Term) any {
	if t.isConst() {
		return strconv.FormatInt(t.sval(), 10)
	}
	return &SymStr{num: t}
}

// numOf returns the term a string is known to render.
func (m *Machine) numOf(v any) *Term {
	if s, ok := v.(*SymStr); ok {
		if s.num != nil {
			return s.num
		}
		if n, ok := m.numRev[termsKey(s.b)]; ok {
			return n
		}
	}
	return nil
}

// ---------- equality and maps ----------

func (m *Machine) eq(x, y any) *Term {
	switch x := x.(type) {
	case *Term:
		return m.tp.Eq(x, y.(*Term))
	case string, *SymStr:
		return m.strEq(x, y)
	case float64:
		return bconst(x == y.(float64))
	case complex128:
		return bconst(x == y.(complex128))
	case *any:
		return bconst(x == y.(*any))
	case *MapV:
		return bconst(x == y.(*MapV))
	case *ChanV:
		return bconst(x == y.(*ChanV))
	case SliceV: // only comparable with nil
		yy := y.(SliceV)
		return bconst(x == nil && yy == nil)
	case *Closure, *ssa.Function, *ssa.Builtin, *NativeFn:
		return bconst(isNilFunc(x) && isNilFunc(y))
	case UnsafePtr:
		return bconst(x.v == y.(UnsafePtr).v)
	case Native:
		return bconst(x.v == y.(Native).v)
	case Struct:
		yy := y.(Struct)
		r := tTrue
		for i := range x {
			r = m.tp.And(r, m.eq(m.force(&x[i]), m.force(&yy[i])))
		}
		return r
	case Array:
		yy := y.(Array)
		r := tTrue
		for i := range x {
			r = m.tp.And(r, m.eq(m.force(&x[i]), m.force(&yy[i])))
		}
		return r
	case Iface:
		yy, ok := y.(Iface)
		if !ok {
			panic(unsupported(fmt.Sprintf("iface compared with %T", y)))
		}
		if x.t == nil || yy.t == nil {
			return bconst(x.t == nil && yy.t == nil)
		}
		if !sameType(x.t, yy.t) {
			return tFalse
		}
		if _, nt := x.t.(*nativeType); !nt && !types.Comparable(x.t) {
			m.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return m.eq(x.v, yy.v)
	case nil:
		return bconst(y == nil)
	}
	panic(unsupported(fmt.Sprintf("equality of %T", x)))
}

func isNilFunc(x any) bool {
	c, ok := x.(*Closure)
	return ok && c == nil || x == nil
}

func sameType(a, b types.Type) bool {
	if a == b {
		return true
	}
	if _, ok := a.(*nativeType); ok {
		return false
	}
	if _, ok := b.(*nativeType); ok {
		return false
	}
	return types.Identical(a, b)
}

type ifKey struct {
	t string
	v any
}

// mapKey returns a comparable Go key for a concrete value.
func (m *Machine) mapKey(v any) (any, bool) {
	switch v := v.(type) {
	case *Term:
		if v.isConst() {
			return v.val, true
		}
		return nil, false
	case string:
		return v, true
	case *SymStr:
		return nil, false
	case float64, *any, *ChanV, Native:
		return v, true
	case Iface:
		if v.t == nil {
			return ifKey{"nil", nil}, true
		}
		k, ok := m.mapKey(v.v)
		if !ok {
			return nil, false
		}
		return ifKey{m.typeKey(v.t), k}, true
	case Struct:
		return m.aggKey([]any(v))
	case Array:
		return m.aggKey([]any(v))
	case SliceV, *MapV, *Closure, *ssa.Function:
		m.rtPanic("hash of unhashable type")
	}
	panic(unsupported(fmt.Sprintf("map key %T", v)))
}

func (m *Machine) aggKey(v []any) (any, bool) {
	var sb strings.Builder
	for i := range v {
		k, ok := m.mapKey(m.force(&v[i]))
		if !ok {
			return nil, false
		}
		s := fmt.Sprintf("%T:%v", k, k)
		fmt.Fprintf(&sb, "%d:%s", len(s), s)
	}
	return sb.String(), true
}

func (m *Machine) newMap() *MapV { return &MapV{idx: map[any]*mapEnt{}} }

func (mv *MapV) fill() {
	if mv.lazy != nil {
		f := mv.lazy
		mv.lazy = nil
		f()
	}
}

func (m *Machine) mapFind(mv *MapV, k any) *mapEnt {
	if mv == nil {
		if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
			m.rtPanic("hash of unhashable type")
		}
		return nil
	}
	mv.fill()
	hk, ok := m.mapKey(k)
	if ok {
		if e := mv.idx[hk]; e != nil {
			return e
		}
		if mv.nsym == 0 {
			return nil
		}
	}
	for _, e := range mv.ents {
		if e.deleted {
			continue
		}
		if ok {
			if _, c := m.mapKey(e.k); c {
				continue
			}
		}
		if m.branch(m.eq(k, e.k)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mv *MapV, k, v any) {
	if mv == nil {
		m.rtPanic("assignment to entry in nil map")
	}
	if e := m.mapFind(mv, k); e != nil {
		e.v = copyVal(v)
		return
	}
	e := &mapEnt{k: copyVal(k), v: copyVal(v)}
	mv.ents = append(mv.ents, e)
	mv.live++
	if hk, ok := m.mapKey(k); ok {
		mv.idx[hk] = e
	} else {
		mv.nsym++
	}
}

func (m *Machine) mapDelete(mv *MapV, k any) {
	if e := m.mapFind(mv, k); e != nil {
		e.deleted = true
		mv.live--
		if hk, ok := m.mapKey(e.k); ok {
			delete(mv.idx, hk)
		} else {
			mv.nsym--
		}
		for i, x := range mv.ents {
			if x == e {
				mv.ents = append(mv.ents[:i:i], mv.ents[i+1:]...)
				break
			}
		}
	}
}

func (m *Machine) mapLen(mv *MapV) int {
	if mv == nil {
		return 0
	}
	mv.fill()
	return mv.live
}
