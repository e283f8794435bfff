package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// The harness API: package verifsym, executed natively during replay and modelled here during symbolic execution.

type vfd struct {
	name string
	f    *vfile
	pos  int
}

type vfile struct {
	data any
	dir  bool // a directory that was opened
	full bool // a device without room
}

func symName(s string) string { return modPath + "/verifsym." + s }

func (m *Machine) input(name, kind string, t *Term) *Term {
	m.inputs = append(m.inputs, Input{Name: name, Kind: kind, T: t})
	return t
}

func (m *Machine) rangeInput(a []any, w uint8, signed bool) any {
	t := m.newVar(m.cstr(a[0]), w)
	m.input(m.cstr(a[0]), "int", t)
	if len(a) == 3 {
		lo, hi := a[1].(*Term), a[2].(*Term)
		if signed {
			m.assume(m.tp.Sle(lo, t))
			m.assume(m.tp.Sle(t, hi))
		} else {
			m.assume(m.tp.Ule(lo, t))
			m.assume(m.tp.Ule(t, hi))
		}
	}
	return t
}

func charsetTerm(m *Machine, t *Term, cs string) *Term {
	r := tFalse
	var tab [256]bool
	for i := 0; i < len(cs); i++ {
		if i+2 < len(cs) && cs[i+1] == '-' && cs[i] < cs[i+2] {
			for c := int(cs[i]); c <= int(cs[i+2]); c++ {
				tab[c] = true
			}
			i += 2
			continue
		}
		tab[cs[i]] = true
	}
	for lo := 0; lo < 256; lo++ {
		if !tab[lo] {
			continue
		}
		hi := lo
		for hi+1 < 256 && tab[hi+1] {
			hi++
		}
		if lo == hi {
			r = m.tp.Or(r, m.tp.Eq(t, iconst(8, uint64(lo))))
		} else {
			r = m.tp.Or(r, m.tp.And(m.tp.Ule(iconst(8, uint64(lo)), t), m.tp.Ule(t, iconst(8, uint64(hi)))))
		}
		lo = hi
	}
	return r
}

func init() {
	d := func(name string, f func(m *Machine, a []any) any) { def(symName(name), f) }
	d("Int", func(m *Machine, a []any) any { return m.rangeInput(a, 64, true) })
	d("Int64", func(m *Machine, a []any) any { return m.rangeInput(a, 64, true) })
	d("Uint64", func(m *Machine, a []any) any { return m.rangeInput(a, 64, false) })
	d("Byte", func(m *Machine, a []any) any { return m.rangeInput(a, 8, false) })
	d("Bool", func(m *Machine, a []any) any {
		return m.input(m.cstr(a[0]), "bool", m.newVar(m.cstr(a[0]), 0))
	})
	d("Choose", func(m *Machine, a []any) any {
		n := m.conc(a[1])
		k := m.choose(n)
		m.inputs = append(m.inputs, Input{Name: m.cstr(a[0]), Kind: "choose", N: k})
		return ci(k)
	})
	d("Str", func(m *Machine, a []any) any {
		name, n, cs := m.cstr(a[0]), m.conc(a[1]), m.cstr(a[2])
		in := Input{Name: name, Kind: "string"}
		bs := make([]*Term, n)
		for i := range bs {
			bs[i] = m.newVar(fmt.Sprintf("%s[%d]", name, i), 8)
			in.S = append(in.S, bs[i])
			m.assume(charsetTerm(m, bs[i], cs))
		}
		m.inputs = append(m.inputs, in)
		return mkStr(bs)
	})
	d("Assume", func(m *Machine, a []any) any { m.assume(a[0].(*Term)); return nil })
	d("Assert", func(m *Machine, a []any) any { m.assert(a[0].(*Term), m.cstr(a[1])); return nil })
	d("Observe", func(m *Machine, a []any) any {
		if i := a[1].(Iface); i.t != nil {
			m.obs = append(m.obs, obsItem{m.cstr(a[0]), copyVal(i.v)})
		} else {
			m.obs = append(m.obs, obsItem{m.cstr(a[0]), nil})
		}
		return nil
	})
	d("Reach", func(m *Machine, a []any) any {
		m.x.mu.Lock()
		m.x.notes["reach:"+m.cstr(a[0])]++
		m.x.mu.Unlock()
		return nil
	})
	d("Tier", func(m *Machine, a []any) any { return ci(m.x.tier) })
	d("Native", constF(tFalse))
	d("MapOrders", func(m *Machine, a []any) any {
		m.mapOrders = a[0].(*Term).isTrue()
		m.mapPkgs = nil
		for _, p := range a[1].(SliceV) {
			m.mapPkgs = append(m.mapPkgs, m.cstr(p))
		}
		return nil
	})
	d("Schedules", func(m *Machine, a []any) any {
		m.sched, m.preempt, m.race = a[0].(*Term).isTrue(), -1, nil
		if m.sched {
			m.race = &races{cells: map[any]*raceCell{}, sync: map[any]vclock{}}
			for _, g := range m.gs {
				g.vc = nil
			}
		}
		return nil
	})
	d("Preemptions", func(m *Machine, a []any) any { m.preempt = int(m.conc(a[0])); return nil })
	d("Idle", func(m *Machine, a []any) any {
		m.sched = false
		g := m.cur
		m.wait("the other goroutines", func() bool {
			for _, o := range m.gs {
				if o != g && !o.done && (o.ready == nil || o.ready()) {
					return false
				}
			}
			return true
		})
		for _, o := range m.gs {
			if o != g && !o.done {
				return tFalse
			}
		}
		return tTrue
	})
	d("Yield", func(m *Machine, a []any) any { m.yieldPoint("yield"); return nil })
	d("Terminates", func(m *Machine, a []any) any { m.state["termination"] = true; return nil })
	d("Concrete", func(m *Machine, a []any) any { return iconst(64, m.concretize(a[0].(*Term))) })
	d("And", func(m *Machine, a []any) any {
		r := tTrue
		for _, x := range a[0].(SliceV) {
			r = m.tp.And(r, x.(*Term))
		}
		return r
	})
	d("Or", func(m *Machine, a []any) any {
		r := tFalse
		for _, x := range a[0].(SliceV) {
			r = m.tp.Or(r, x.(*Term))
		}
		return r
	})
	d("Implies", func(m *Machine, a []any) any { return m.tp.Implies(a[0].(*Term), a[1].(*Term)) })
	d("Ite", func(m *Machine, a []any) any { return m.tp.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term)) })
	d("StrEq", func(m *Machine, a []any) any { return m.strEq(a[0], a[1]) })
	d("CatchExit", func(m *Machine, a []any) any { return m.catchExit(a[0]) })
	d("Panics", func(m *Machine, a []any) any {
		r := tFalse
		cur, depth, top := m.cur, m.cur.depth, m.cur.top
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(*targetPanic); ok && !m.killing {
						r = tTrue
						m.cur = cur
						cur.depth, cur.top = depth, top
						return
					}
					panic(e)
				}
			}()
			m.call(nil, a[0], nil)
		}()
		return r
	})
	d("Stdout", func(m *Machine, a []any) any {
		if s := m.state["stdout"]; s != nil {
			return s
		}
		return ""
	})
	d("LoadProgram", func(m *Machine, a []any) any {
		return m.loadProgram("example.com/work", []string{"/work/main.go"}, []string{m.cstr(a[0])}, a[1].(SliceV))
	})
	d("LoadFiles", func(m *Machine, a []any) any {
		dir := fmt.Sprintf("/verif-work/%d/", len(m.fs))
		var names, srcs []string
		for _, f := range a[1].(SliceV) {
			names = append(names, dir+m.cstr(f.(Struct)[0]))
			srcs = append(srcs, m.cstr(f.(Struct)[1]))
		}
		r := m.loadProgram(m.cstr(a[0]), names, srcs, a[2].(SliceV))
		for i, n := range names {
			m.fs[n] = &vfile{data: m.fillHoles(srcs[i])}
		}
		return r
	})
}

// loadProgram imports the template program src with symbolic literals.
func (m *Machine) loadProgram(pkgPath string, names, srcs []string, holes SliceV) any {
	e := m.x.template(pkgPath, names, srcs)
	if e.err != nil {
		panic(unsupported("template does not type-check: " + e.err.Error() + "\n" + strings.Join(srcs, "\n")))
	}
	m.holes = nil
	for _, h := range holes {
		s := h.(Struct) // Text, Lit string; Val int64; Str string; IsStr bool
		hh := &hole{text: m.cstr(s[0]), lit: s[1], val: s[2].(*Term)}
		if s[4].(*Term).isTrue() {
			hh.s, _ = strconv.Unquote(hh.text)
			hh.sv = s[3]
		} else if n, err := strconv.ParseInt(hh.text, 0, 64); err == nil {
			hh.isInt = true
			hh.c = n
		}
		m.holes = append(m.holes, hh)
	}
	return m.importPtrTo(e.pkg)
}

// fillHoles is the text of a template file with the current contents of the holes.
func (m *Machine) fillHoles(src string) any {
	parts := []any{src}
	for _, h := range m.holes {
		var next []any
		for _, p := range parts {
			s, ok := p.(string)
			if !ok {
				next = append(next, p)
				continue
			}
			for i, t := range strings.Split(s, h.text) {
				if i > 0 {
					next = append(next, h.lit)
				}
				next = append(next, t)
			}
		}
		parts = next
	}
	var b []*Term
	for _, p := range parts {
		b = append(b, m.strBytes(p)...)
	}
	return mkStr(b)
}

var _ = packages.NeedName
var _ = reflect.TypeOf
var _ = types.Universe
var _ ssa.Value
var _ = strings.Fields

// catchExit calls f and catches the end of the process.
func (m *Machine) catchExit(f any) Tuple {
	code, exited := 0, false
	cur, depth, top := m.cur, m.cur.depth, m.cur.top
	func() {
		defer func() {
			if e := recover(); e != nil {
				if pe, ok := e.(pathEnd); ok && pe.kind == "exit" && !m.killing {
					code, exited = pe.code, true
					m.cur = cur
					cur.depth, cur.top = depth, top
					return
				}
				panic(e)
			}
		}()
		m.call(nil, f, nil)
	}()
	return Tuple{ci(code), bconst(exited)}
}
