package main

import (
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"github.com/ccojocar/zxcvbn-go"

	"golang.org/x/tools/go/ssa"
)

// SymF is the float64 nearest to n / 10^dec, times 2^exp, for a number n of few digits: what parsing a decimal text
// and halving or doubling it gives. Comparisons with known numbers are comparisons of n, exactly.
type SymF struct {
	n        *Term // 64 bits, 0 <= n <= max
	max      uint64
	dec, exp int
}

func (f *SymF) at(n uint64) float64 {
	return math.Ldexp(float64(n)/math.Pow(10, float64(f.dec)), f.exp)
}

// atLeast is the condition f >= c (strict: f > c).
func (m *Machine) symfAtLeast(f *SymF, c float64, strict bool) *Term {
	if math.IsNaN(c) {
		return tFalse
	}
	lo, hi := uint64(0), f.max+1 // the least n that satisfies it
	for lo < hi {
		mid := (lo + hi) / 2
		if v := f.at(mid); v > c || !strict && v == c {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	return m.tp.Ule(iconst(64, lo), f.n)
}

func (m *Machine) symfOp(op token.Token, x, y any) any {
	a, ok := x.(*SymF)
	if !ok {
		switch op { // c op f
		case token.LSS:
			return m.symfOp(token.GTR, y, x)
		case token.LEQ:
			return m.symfOp(token.GEQ, y, x)
		case token.GTR:
			return m.symfOp(token.LSS, y, x)
		case token.GEQ:
			return m.symfOp(token.LEQ, y, x)
		case token.MUL:
			return m.symfOp(op, y, x)
		}
		panic(unsupported("operation on a symbolic float"))
	}
	if b, ok := y.(*SymF); ok {
		if a.dec != b.dec || a.exp != b.exp {
			panic(unsupported("comparison of symbolic floats of different scale"))
		}
		switch op {
		case token.LSS:
			return m.tp.Ult(a.n, b.n)
		case token.LEQ:
			return m.tp.Ule(a.n, b.n)
		case token.GTR:
			return m.tp.Ult(b.n, a.n)
		case token.GEQ:
			return m.tp.Ule(b.n, a.n)
		}
		panic(unsupported("operation on symbolic floats"))
	}
	c := y.(float64)
	switch op {
	case token.GEQ:
		return m.symfAtLeast(a, c, false)
	case token.GTR:
		return m.symfAtLeast(a, c, true)
	case token.LSS:
		if math.IsNaN(c) {
			return tFalse
		}
		return m.tp.Not(m.symfAtLeast(a, c, false))
	case token.LEQ:
		if math.IsNaN(c) {
			return tFalse
		}
		return m.tp.Not(m.symfAtLeast(a, c, true))
	case token.MUL, token.QUO:
		fr, e := math.Frexp(c)
		if fr != 0.5 {
			panic(unsupported("symbolic float times a number that is no power of two"))
		}
		r := *a
		if op == token.MUL {
			r.exp += e - 1
		} else {
			r.exp -= e - 1
		}
		return &r
	}
	panic(unsupported("operation on a symbolic float"))
}

var (
	entropyMu    sync.Mutex
	entropyCache = map[string]float64{}
)

func init() {
	defSym("strconv.ParseFloat", func(m *Machine, a []any) any {
		b := m.strBytes(a[0])
		if len(b) == 0 || len(b) > 12 {
			return nil
		}
		f := &SymF{n: iconst(64, 0)}
		pow := uint64(1)
		point := false
		for _, t := range b {
			if t.isConst() && t.val == '.' && !point {
				point = true
				continue
			}
			digit := m.tp.And(m.tp.Ule(iconst(8, '0'), t), m.tp.Ule(t, iconst(8, '9')))
			if !m.branch(digit) {
				return nil // the interpreted body deals with it
			}
			f.n = m.tp.Bin(OAdd, m.tp.Bin(OMul, f.n, iconst(64, 10)), m.tp.ZExt(m.tp.Bin(OSub, t, iconst(8, '0')), 64))
			pow *= 10
			if point {
				f.dec++
			}
		}
		f.max = pow - 1
		return Tuple{f, Iface{}}
	})
	intrinsics["github.com/ccojocar/zxcvbn-go.PasswordStrength"] = func(m *Machine, fr *frame, fn *ssa.Function, args []any) (any, bool) {
		s, ok := args[0].(string)
		if !ok {
			panic(unsupported("entropy of a symbolic string"))
		}
		entropyMu.Lock()
		e, ok := entropyCache[s]
		if !ok {
			e = zxcvbn.PasswordStrength(s, nil).Entropy
			entropyCache[s] = e
		}
		entropyMu.Unlock()
		rt := fn.Signature.Results().At(0).Type()
		r := zero(rt).(Struct)
		st := rt.Underlying().(*types.Struct)
		for i := range r {
			if strings.EqualFold(st.Field(i).Name(), "Entropy") {
				r[i] = e
			}
		}
		return r, true
	}
}
