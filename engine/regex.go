package main

import (
	"fmt"
	"regexp"
	"regexp/syntax"
	"sync"
)

type reProg struct {
	prog *syntax.Prog
	ncap int
	ab   bool // anchored at the beginning
}

var reMu sync.Mutex
var reCache = map[string]*reProg{}

func getProg(re *regexp.Regexp) *reProg {
	reMu.Lock()
	defer reMu.Unlock()
	s := re.String()
	if p := reCache[s]; p != nil {
		return p
	}
	r, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		panic(unsupported("regexp " + s))
	}
	nc := r.MaxCap()
	p, err := syntax.Compile(r.Simplify())
	if err != nil {
		panic(unsupported("regexp " + s))
	}
	rp := &reProg{prog: p, ncap: nc}
	reCache[s] = rp
	return rp
}

// byteCond is the condition that byte t matches a rune instruction (ASCII text).
func (m *Machine) byteCond(in *syntax.Inst, t *Term) *Term {
	if t.isConst() {
		return bconst(in.MatchRune(rune(t.val)))
	}
	r := tFalse
	lo := -1
	for c := 0; c <= 256; c++ {
		ok := c < 128 && in.MatchRune(rune(c))
		if c >= 128 && c < 256 && (in.Op == syntax.InstRuneAny || in.Op == syntax.InstRuneAnyNotNL) {
			ok = true
		}
		if ok && lo < 0 {
			lo = c
		}
		if !ok && lo >= 0 {
			r = m.tp.Or(r, m.tp.And(m.tp.Ule(iconst(8, uint64(lo)), t), m.tp.Ule(t, iconst(8, uint64(c-1)))))
			lo = -1
		}
	}
	return r
}

func (m *Machine) isWord(t *Term) *Term {
	tp := m.tp
	rng := func(a, b byte) *Term {
		return tp.And(tp.Ule(iconst(8, uint64(a)), t), tp.Ule(t, iconst(8, uint64(b))))
	}
	return tp.Or(tp.Or(rng('a', 'z'), rng('A', 'Z')), tp.Or(rng('0', '9'), tp.Eq(t, iconst(8, '_'))))
}

func (m *Machine) emptyCond(op syntax.EmptyOp, s []*Term, i int) *Term {
	tp := m.tp
	r := tTrue
	nl := iconst(8, '\n')
	if op&syntax.EmptyBeginText != 0 {
		r = tp.And(r, bconst(i == 0))
	}
	if op&syntax.EmptyEndText != 0 {
		r = tp.And(r, bconst(i == len(s)))
	}
	if op&syntax.EmptyBeginLine != 0 && i > 0 {
		r = tp.And(r, tp.Eq(s[i-1], nl))
	}
	if op&syntax.EmptyEndLine != 0 && i < len(s) {
		r = tp.And(r, tp.Eq(s[i], nl))
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		a, b := tFalse, tFalse
		if i > 0 {
			a = m.isWord(s[i-1])
		}
		if i < len(s) {
			b = m.isWord(s[i])
		}
		x := tp.Not(tp.Eq(a, b))
		if op&syntax.EmptyWordBoundary != 0 {
			r = tp.And(r, x)
		}
		if op&syntax.EmptyNoWordBoundary != 0 {
			r = tp.And(r, tp.Not(x))
		}
	}
	return r
}

// reMatchTerm is the condition that the regexp matches somewhere in s, without branching.
func (m *Machine) reMatchTerm(re *regexp.Regexp, s []*Term) *Term {
	p := getProg(re).prog
	tp := m.tp
	matched := tFalse
	cur := map[uint32]*Term{}
	for i := 0; i <= len(s); i++ {
		next := map[uint32]*Term{}
		var order []uint32
		var add func(pc uint32, c *Term, vis map[uint32]bool)
		set := map[uint32]*Term{}
		add = func(pc uint32, c *Term, vis map[uint32]bool) {
			if c.isFalse() || vis[pc] {
				return
			}
			vis[pc] = true
			defer delete(vis, pc)
			in := &p.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				add(in.Out, c, vis)
				add(in.Arg, c, vis)
			case syntax.InstCapture, syntax.InstNop:
				add(in.Out, c, vis)
			case syntax.InstEmptyWidth:
				add(in.Out, tp.And(c, m.emptyCond(syntax.EmptyOp(in.Arg), s, i)), vis)
			case syntax.InstMatch:
				matched = tp.Or(matched, c)
			case syntax.InstFail:
			default:
				if o, ok := set[pc]; ok {
					set[pc] = tp.Or(o, c)
				} else {
					set[pc] = c
					order = append(order, pc)
				}
			}
		}
		for _, pc := range sortedPCs(cur) {
			add(pc, cur[pc], map[uint32]bool{})
		}
		add(uint32(p.Start), tTrue, map[uint32]bool{})
		if matched.isTrue() {
			return tTrue
		}
		if i < len(s) {
			for _, pc := range order {
				in := &p.Inst[pc]
				c := tp.And(set[pc], m.byteCond(in, s[i]))
				if c.isFalse() {
					continue
				}
				if o, ok := next[in.Out]; ok {
					next[in.Out] = tp.Or(o, c)
				} else {
					next[in.Out] = c
				}
			}
		}
		cur = next
	}
	return matched
}

func sortedPCs(mp map[uint32]*Term) []uint32 {
	var r []uint32
	for pc := range mp {
		r = append(r, pc)
	}
	for i := range r {
		for j := i; j > 0 && r[j] < r[j-1]; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

// reFind returns the capture positions of the leftmost-first match at or after pos, branching on the text.
func (m *Machine) reFind(re *regexp.Regexp, s []*Term, pos int) []int {
	rp := getProg(re)
	p := rp.prog
	for st := pos; st <= len(s); st++ {
		caps := make([]int, 2*(rp.ncap+1))
		for i := range caps {
			caps[i] = -1
		}
		vis := map[[2]int]bool{}
		var res []int
		var bt func(pc uint32, i int) bool
		bt = func(pc uint32, i int) bool {
			for {
				k := [2]int{int(pc), i}
				if vis[k] {
					return false
				}
				vis[k] = true
				in := &p.Inst[pc]
				switch in.Op {
				case syntax.InstAlt, syntax.InstAltMatch:
					if bt(in.Out, i) {
						return true
					}
					pc = in.Arg
				case syntax.InstNop:
					pc = in.Out
				case syntax.InstCapture:
					if int(in.Arg) < len(caps) {
						old := caps[in.Arg]
						caps[in.Arg] = i
						if bt(in.Out, i) {
							return true
						}
						caps[in.Arg] = old
						return false
					}
					pc = in.Out
				case syntax.InstEmptyWidth:
					if !m.branch(m.emptyCond(syntax.EmptyOp(in.Arg), s, i)) {
						return false
					}
					pc = in.Out
				case syntax.InstMatch:
					caps[0], caps[1] = st, i
					res = append([]int(nil), caps...)
					return true
				case syntax.InstFail:
					return false
				default:
					if i >= len(s) || !m.branch(m.byteCond(in, s[i])) {
						return false
					}
					i++
					pc = in.Out
				}
			}
		}
		if bt(uint32(p.Start), st) {
			return res
		}
	}
	return nil
}

func (m *Machine) regexOf(v any) *regexp.Regexp {
	p := v.(*any)
	if p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference (nil regexp)")
	}
	n, ok := m.force(p).(Native)
	if !ok {
		panic(unsupported(fmt.Sprintf("regexp receiver %T", m.force(p))))
	}
	return n.v.(*regexp.Regexp)
}

func mkRegex(re *regexp.Regexp) *any {
	var v any = Native{re}
	return &v
}

var reComp sync.Map

func init() {
	comp := func(m *Machine, s string) (*regexp.Regexp, error) {
		if r, ok := reComp.Load(s); ok {
			return r.(*regexp.Regexp), nil
		}
		r, err := regexp.Compile(s)
		if err == nil {
			reComp.Store(s, r)
		}
		return r, err
	}
	def("regexp.MustCompile", func(m *Machine, a []any) any {
		re, err := comp(m, m.cstr(a[0]))
		if err != nil {
			m.rtPanic("regexp: " + err.Error())
		}
		return mkRegex(re)
	})
	def("regexp.Compile", func(m *Machine, a []any) any {
		re, err := comp(m, m.cstr(a[0]))
		if err != nil {
			return Tuple{(*any)(nil), m.mkError(err.Error())}
		}
		return Tuple{mkRegex(re), Iface{}}
	})
	def("regexp.QuoteMeta", func(m *Machine, a []any) any { return regexp.QuoteMeta(m.cstr(a[0])) })
	def("regexp.MatchString", func(m *Machine, a []any) any {
		re, err := comp(m, m.cstr(a[0]))
		if err != nil {
			return Tuple{tFalse, m.mkError(err.Error())}
		}
		if s, ok := a[1].(string); ok {
			return Tuple{bconst(re.MatchString(s)), Iface{}}
		}
		return Tuple{m.reMatchTerm(re, m.strBytes(a[1])), Iface{}}
	})
	ms := func(m *Machine, a []any) any {
		re := m.regexOf(a[0])
		if s, ok := a[1].(string); ok {
			return bconst(re.MatchString(s))
		}
		return m.reMatchTerm(re, m.toBytes(a[1]))
	}
	def("(*regexp.Regexp).MatchString", ms)
	def("(*regexp.Regexp).Match", ms)
	def("(*regexp.Regexp).String", func(m *Machine, a []any) any { return m.regexOf(a[0]).String() })
	def("(*regexp.Regexp).SubexpIndex", func(m *Machine, a []any) any { return ci(m.regexOf(a[0]).SubexpIndex(m.cstr(a[1]))) })
	def("(*regexp.Regexp).SubexpNames", func(m *Machine, a []any) any {
		var r SliceV
		for _, n := range m.regexOf(a[0]).SubexpNames() {
			r = append(r, n)
		}
		return r
	})
	def("(*regexp.Regexp).NumSubexp", func(m *Machine, a []any) any { return ci(m.regexOf(a[0]).NumSubexp()) })
	sub := func(s any, m *Machine, lo, hi int) any {
		if lo < 0 {
			return ""
		}
		return m.substr(s, lo, hi)
	}
	def("(*regexp.Regexp).FindString", func(m *Machine, a []any) any {
		re := m.regexOf(a[0])
		if s, ok := a[1].(string); ok {
			return re.FindString(s)
		}
		if c := m.reFind(re, m.strBytes(a[1]), 0); c != nil {
			return sub(a[1], m, c[0], c[1])
		}
		return ""
	})
	def("(*regexp.Regexp).FindStringIndex", func(m *Machine, a []any) any {
		if c := m.reFind(m.regexOf(a[0]), m.strBytes(a[1]), 0); c != nil {
			return SliceV{ci(c[0]), ci(c[1])}
		}
		return SliceV(nil)
	})
	def("(*regexp.Regexp).FindStringSubmatch", func(m *Machine, a []any) any {
		re := m.regexOf(a[0])
		c := m.reFind(re, m.strBytes(a[1]), 0)
		if c == nil {
			return SliceV(nil)
		}
		var r SliceV
		for i := 0; i+1 < len(c); i += 2 {
			r = append(r, sub(a[1], m, c[i], c[i+1]))
		}
		return r
	})
	all := func(m *Machine, re *regexp.Regexp, s any, n int) [][]int {
		bs := m.strBytes(s)
		var out [][]int
		prevEnd := -1
		for pos := 0; pos <= len(bs) && (n < 0 || len(out) < n); {
			c := m.reFind(re, bs, pos)
			if c == nil {
				break
			}
			accept := true
			if c[1] == pos && c[1] == c[0] {
				if c[0] == prevEnd {
					accept = false
				}
				pos++
			} else if c[1] > pos {
				pos = c[1]
			} else {
				pos++
			}
			if c[1] == c[0] && c[0] == prevEnd {
				accept = false
			}
			prevEnd = c[1]
			if accept {
				out = append(out, c)
			}
		}
		return out
	}
	def("(*regexp.Regexp).FindAllStringSubmatch", func(m *Machine, a []any) any {
		var r SliceV
		for _, c := range all(m, m.regexOf(a[0]), a[1], m.conc(a[2])) {
			var e SliceV
			for i := 0; i+1 < len(c); i += 2 {
				e = append(e, sub(a[1], m, c[i], c[i+1]))
			}
			r = append(r, e)
		}
		return r
	})
	def("(*regexp.Regexp).FindAllString", func(m *Machine, a []any) any {
		var r SliceV
		for _, c := range all(m, m.regexOf(a[0]), a[1], m.conc(a[2])) {
			r = append(r, sub(a[1], m, c[0], c[1]))
		}
		return r
	})
	def("(*regexp.Regexp).Split", func(m *Machine, a []any) any {
		re := m.regexOf(a[0])
		n := m.conc(a[2])
		if s, ok := a[1].(string); ok {
			var r SliceV
			for _, x := range re.Split(s, n) {
				r = append(r, x)
			}
			return r
		}
		if n == 0 {
			return SliceV(nil)
		}
		s := m.strBytes(a[1])
		if re.String() != "" && len(s) == 0 {
			return SliceV{""}
		}
		var r SliceV
		beg, end := 0, 0
		for _, c := range all(m, re, a[1], n) {
			if n > 0 && len(r) == n-1 {
				break
			}
			end = c[0]
			if c[1] != 0 {
				r = append(r, m.substr(a[1], beg, end))
			}
			beg = c[1]
		}
		if end != len(s) {
			r = append(r, m.substr(a[1], beg, len(s)))
		}
		return r
	})
	def("(*regexp.Regexp).ReplaceAllString", func(m *Machine, a []any) any {
		re := m.regexOf(a[0])
		if s, ok := a[1].(string); ok {
			return re.ReplaceAllString(s, m.cstr(a[2]))
		}
		rep := m.cstr(a[2])
		for i := 0; i < len(rep); i++ {
			if rep[i] == '$' {
				panic(unsupported("ReplaceAllString with template on symbolic text"))
			}
		}
		var out any = ""
		last := 0
		for _, c := range all(m, re, a[1], -1) {
			out = m.concat(out, m.concat(m.substr(a[1], last, c[0]), rep))
			last = c[1]
		}
		return m.concat(out, m.substr(a[1], last, m.strLen(a[1])))
	})
}
