package main

import (
	"errors"
	"fmt"
	"go/types"
	htmltemplate "html/template"
	"io"
	"sort"
	"strings"
	"text/template/parse"
)

// Model of text/template: templates are parsed natively and evaluated over symbolic values, in documents of
// html/template with the escaping functions which that package adds.

type tmplV struct {
	name  string
	funcs map[string]Iface
	tree  *parse.Tree
	text  string
	html  bool

	escaped *parse.Tree
}

// tval is a value during evaluation: the slot it is in and its type.
type tval struct {
	p    *any
	t    types.Type
	addr bool
}

type tmplExec struct {
	m    *Machine
	t    *tmplV
	w    Iface
	vars []tmplVar
}

type tmplVar struct {
	name string
	v    tval
}

type tmplCtl string

var tmplBuiltins = map[string]any{"and": 1, "or": 1, "not": 1, "len": 1, "index": 1, "slice": 1, "print": 1, "printf": 1, "println": 1, "html": 1, "js": 1, "urlquery": 1, "call": 1, "eq": 1, "ne": 1, "lt": 1, "le": 1, "gt": 1, "ge": 1}

func (x *tmplExec) fail(format string, a ...any) {
	panic(codecErr{"template: " + fmt.Sprintf(format, a...)})
}

func (x *tmplExec) val(v any, t types.Type) tval { return tval{p: &v, t: t} }

// concrete unwraps interfaces.
func (x *tmplExec) concrete(v tval) tval {
	for v.t != nil {
		if _, ok := v.t.Underlying().(*types.Interface); !ok {
			break
		}
		i, ok := x.m.force(v.p).(Iface)
		if !ok || i.t == nil {
			return tval{}
		}
		v = x.val(i.v, i.t)
	}
	return v
}

func (x *tmplExec) truth(v tval) bool {
	v = x.concrete(v)
	if v.t == nil {
		return false
	}
	if _, ok := v.t.Underlying().(*types.Struct); ok {
		return true
	}
	return !x.m.emptyValue(x.m.force(v.p), v.t, false)
}

func (x *tmplExec) iface(v tval) Iface {
	v = x.concrete(v)
	if v.t == nil {
		return Iface{}
	}
	return Iface{t: v.t, v: x.m.load(v.p)}
}

func (x *tmplExec) print(v tval) {
	m := x.m
	v = x.concrete(v)
	if v.t == nil {
		m.write(x.w, "<no value>")
		return
	}
	if pt, ok := v.t.Underlying().(*types.Pointer); ok && !hasMethod(v.t, "Error") && !hasMethod(v.t, "String") {
		if q, _ := m.force(v.p).(*any); q == nil {
			m.write(x.w, "<nil>")
			return
		} else {
			v = tval{p: q, t: pt.Elem(), addr: true}
		}
	}
	if !hasMethod(v.t, "Error") && !hasMethod(v.t, "String") && v.addr {
		if pt := canonPtr(types.NewPointer(v.t)); hasMethod(pt, "Error") || hasMethod(pt, "String") {
			v = x.val(v.p, pt)
		}
	}
	r := m.write(x.w, m.sprint(SliceV{x.iface(v)}, false)).(Tuple)
	if e := r[1].(Iface); e.t != nil {
		panic(codecErr{e})
	}
}

func (x *tmplExec) walk(dot tval, n parse.Node) {
	m := x.m
	switch n := n.(type) {
	case nil:
	case *parse.ListNode:
		if n != nil {
			for _, c := range n.Nodes {
				x.walk(dot, c)
			}
		}
	case *parse.TextNode:
		r := m.write(x.w, string(n.Text)).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			panic(codecErr{e})
		}
	case *parse.CommentNode:
	case *parse.ActionNode:
		v := x.pipe(dot, n.Pipe)
		if len(n.Pipe.Decl) == 0 {
			x.print(v)
		}
	case *parse.IfNode:
		x.cond(dot, n.Pipe, n.List, n.ElseList, false)
	case *parse.WithNode:
		x.cond(dot, n.Pipe, n.List, n.ElseList, true)
	case *parse.RangeNode:
		x.rng(dot, n)
	case *parse.BreakNode:
		panic(tmplCtl("break"))
	case *parse.ContinueNode:
		panic(tmplCtl("continue"))
	default:
		panic(unsupported(fmt.Sprintf("template node %T", n)))
	}
}

func (x *tmplExec) cond(dot tval, p *parse.PipeNode, list, els *parse.ListNode, with bool) {
	k := len(x.vars)
	defer func() { x.vars = x.vars[:k] }()
	v := x.pipe(dot, p)
	if x.truth(v) {
		if with {
			dot = v
		}
		x.walk(dot, list)
	} else if els != nil {
		x.walk(dot, els)
	}
}

func (x *tmplExec) rng(dot tval, n *parse.RangeNode) {
	m := x.m
	k := len(x.vars)
	defer func() { x.vars = x.vars[:k] }()
	v := x.concrete(x.pipe(dot, n.Pipe))
	mark := len(x.vars)
	one := func(idx, elem tval) (stop bool) {
		defer func() {
			x.vars = x.vars[:mark]
			if e := recover(); e != nil {
				c, ok := e.(tmplCtl)
				if !ok {
					panic(e)
				}
				stop = c == "break"
			}
		}()
		if d := n.Pipe.Decl; len(d) == 1 {
			x.set(d[0].Ident[0], elem)
		} else if len(d) > 1 {
			x.set(d[0].Ident[0], idx)
			x.set(d[1].Ident[0], elem)
		}
		x.walk(elem, n.List)
		return false
	}
	if v.t != nil {
		if pt, ok := v.t.Underlying().(*types.Pointer); ok {
			if q, _ := m.force(v.p).(*any); q != nil {
				v = tval{p: q, t: pt.Elem(), addr: true}
			}
		}
		switch u := v.t.Underlying().(type) {
		case *types.Slice:
			s, _ := m.force(v.p).(SliceV)
			for i := range s {
				if one(x.val(ci(i), types.Typ[types.Int]), tval{p: &s[i], t: u.Elem(), addr: true}) {
					return
				}
			}
			if len(s) > 0 {
				return
			}
		case *types.Map:
			mv, _ := m.force(v.p).(*MapV)
			if m.mapLen(mv) > 0 {
				var ents []*mapEnt
				for _, e := range mv.ents {
					if !e.deleted {
						ents = append(ents, e)
					}
				}
				for i := 1; i < len(ents); i++ {
					for j := i; j > 0; j-- {
						less := tFalse
						if isString(u.Key()) {
							less = m.strLess(ents[j].k, ents[j-1].k)
						} else if w, signed, ok := intInfo(u.Key()); ok && w > 0 {
							if signed {
								less = m.tp.Slt(ents[j].k.(*Term), ents[j-1].k.(*Term))
							} else {
								less = m.tp.Ult(ents[j].k.(*Term), ents[j-1].k.(*Term))
							}
						}
						if !m.branch(less) {
							break
						}
						ents[j], ents[j-1] = ents[j-1], ents[j]
					}
				}
				for _, e := range ents {
					if one(x.val(e.k, u.Key()), x.val(e.v, u.Elem())) {
						return
					}
				}
				return
			}
		default:
			x.fail("range can't iterate over %s", v.t)
		}
	}
	if n.ElseList != nil {
		x.walk(dot, n.ElseList)
	}
}

func (x *tmplExec) set(name string, v tval) { x.vars = append(x.vars, tmplVar{name, v}) }

func (x *tmplExec) pipe(dot tval, p *parse.PipeNode) (v tval) {
	final := (*tval)(nil)
	for _, c := range p.Cmds {
		v = x.command(dot, c, final)
		final = &v
	}
	for _, d := range p.Decl {
		if p.IsAssign {
			for i := len(x.vars) - 1; i >= 0; i-- {
				if x.vars[i].name == d.Ident[0] {
					x.vars[i].v = v
					break
				}
			}
		} else {
			x.set(d.Ident[0], v)
		}
	}
	return v
}

func (x *tmplExec) command(dot tval, c *parse.CommandNode, final *tval) tval {
	switch n := c.Args[0].(type) {
	case *parse.FieldNode:
		return x.chain(dot, dot, n.Ident, c.Args, final)
	case *parse.ChainNode:
		return x.chain(dot, x.arg(dot, n.Node), n.Field, c.Args, final)
	case *parse.IdentifierNode:
		return x.function(dot, n.Ident, c.Args[1:], final)
	case *parse.PipeNode:
		return x.pipe(dot, n)
	case *parse.VariableNode:
		v := x.variable(n.Ident[0])
		if len(n.Ident) == 1 {
			return v
		}
		return x.chain(dot, v, n.Ident[1:], c.Args, final)
	}
	return x.arg(dot, c.Args[0])
}

func (x *tmplExec) variable(name string) tval {
	for i := len(x.vars) - 1; i >= 0; i-- {
		if x.vars[i].name == name {
			return x.vars[i].v
		}
	}
	x.fail("undefined variable: %s", name)
	return tval{}
}

func (x *tmplExec) arg(dot tval, n parse.Node) tval {
	switch n := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.NilNode:
		return tval{}
	case *parse.BoolNode:
		return x.val(bconst(n.True), types.Typ[types.Bool])
	case *parse.StringNode:
		return x.val(n.Text, types.Typ[types.String])
	case *parse.NumberNode:
		if n.IsInt {
			return x.val(iconst(64, uint64(n.Int64)), types.Typ[types.Int])
		}
		return x.val(n.Float64, types.Typ[types.Float64])
	case *parse.FieldNode:
		return x.chain(dot, dot, n.Ident, []parse.Node{n}, nil)
	case *parse.VariableNode:
		v := x.variable(n.Ident[0])
		if len(n.Ident) == 1 {
			return v
		}
		return x.chain(dot, v, n.Ident[1:], []parse.Node{n}, nil)
	case *parse.ChainNode:
		return x.chain(dot, x.arg(dot, n.Node), n.Field, []parse.Node{n}, nil)
	case *parse.PipeNode:
		return x.pipe(dot, n)
	case *parse.IdentifierNode:
		return x.function(dot, n.Ident, nil, nil)
	}
	panic(unsupported(fmt.Sprintf("template argument %T", n)))
}

func (x *tmplExec) chain(dot, v tval, names []string, args []parse.Node, final *tval) tval {
	for i, n := range names {
		if i == len(names)-1 {
			return x.field(dot, v, n, args[1:], final)
		}
		v = x.field(dot, v, n, nil, nil)
	}
	return v
}

func (x *tmplExec) field(dot, v tval, name string, args []parse.Node, final *tval) tval {
	m := x.m
	v = x.concrete(v)
	if v.t == nil {
		x.fail("nil data; no entry for key %q", name)
	}
	// methods
	recv, rt := any(nil), v.t
	if hasAny(v.t, name) {
		recv = m.load(v.p)
	} else if v.addr && hasAny(types.NewPointer(v.t), name) {
		recv, rt = v.p, canonPtr(types.NewPointer(v.t))
	}
	if recv != nil {
		sel := types.NewMethodSet(rt).Lookup(nil, name)
		if q, ok := recv.(*any); ok && q == nil {
			if _, ptrRecv := sel.Obj().(*types.Func).Type().(*types.Signature).Recv().Type().Underlying().(*types.Pointer); !ptrRecv {
				x.fail("nil pointer evaluating %s.%s", rt, name)
			}
		}
		fn := m.lookupMethod(rt, sel.Obj().(*types.Func))
		sig := sel.Obj().(*types.Func).Type().(*types.Signature)
		return x.callFn(dot, fn, sig, []any{recv}, args, final)
	}
	t, p, addr := v.t, v.p, v.addr
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		q, _ := m.force(p).(*any)
		if q == nil {
			x.fail("nil pointer evaluating %s.%s", t, name)
		}
		t, p, addr = pt.Elem(), q, true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				if !u.Field(i).Exported() {
					x.fail("%s is an unexported field", name)
				}
				return tval{p: &m.force(p).(Struct)[i], t: u.Field(i).Type(), addr: addr}
			}
		}
	case *types.Map:
		mv, _ := m.force(p).(*MapV)
		if e := m.mapFind(mv, name); e != nil {
			return x.val(e.v, u.Elem())
		}
		return tval{}
	}
	x.fail("can't evaluate field %s in type %s", name, t)
	return tval{}
}

func (x *tmplExec) callFn(dot tval, fn any, sig *types.Signature, args []any, nodes []parse.Node, final *tval) tval {
	var vals []tval
	for _, n := range nodes {
		vals = append(vals, x.arg(dot, n))
	}
	if final != nil {
		vals = append(vals, *final)
	}
	n := sig.Params().Len()
	var rest SliceV
	for i, v := range vals {
		var pt types.Type
		variadic := sig.Variadic() && i >= n-1
		switch {
		case variadic:
			pt = sig.Params().At(n - 1).Type().(*types.Slice).Elem()
		case i < n:
			pt = sig.Params().At(i).Type()
		default:
			x.fail("wrong number of args")
		}
		var a any
		if _, ok := pt.Underlying().(*types.Interface); ok {
			a = x.iface(v)
		} else {
			v = x.concrete(v)
			switch {
			case v.t == nil:
				a = zero(pt)
			case types.AssignableTo(v.t, pt):
				a = x.m.load(v.p)
			case v.addr && types.AssignableTo(types.NewPointer(v.t), pt):
				a = v.p
			default:
				if ptr, ok := v.t.Underlying().(*types.Pointer); ok && types.AssignableTo(ptr.Elem(), pt) {
					a = x.m.load(x.m.force(v.p).(*any))
				} else {
					x.fail("wrong type for value; expected %s; got %s", pt, v.t)
				}
			}
		}
		if variadic {
			rest = append(rest, a)
		} else {
			args = append(args, a)
		}
	}
	if sig.Variadic() {
		args = append(args, rest)
	}
	r := x.m.call(nil, fn, args)
	if tu, ok := r.(Tuple); ok && sig.Results().Len() == 2 {
		if e := tu[1].(Iface); e.t != nil {
			panic(codecErr{e})
		}
		r = tu[0]
	}
	return x.val(r, sig.Results().At(0).Type())
}

func (x *tmplExec) function(dot tval, name string, nodes []parse.Node, final *tval) tval {
	m := x.m
	if f, ok := x.t.funcs[name]; ok {
		return x.callFn(dot, f.v, f.t.Underlying().(*types.Signature), nil, nodes, final)
	}
	var a []tval
	get := func(i int) tval {
		for len(a) <= i {
			k := len(a)
			if k < len(nodes) {
				a = append(a, x.arg(dot, nodes[k]))
			} else {
				a = append(a, *final)
			}
		}
		return a[i]
	}
	n := len(nodes)
	if final != nil {
		n++
	}
	boolV := func(t *Term) tval { return x.val(t, types.Typ[types.Bool]) }
	switch name {
	case "and", "or":
		var v tval
		for i := 0; i < n; i++ {
			v = get(i)
			if x.truth(v) == (name == "or") {
				break
			}
		}
		return v
	case "not":
		return boolV(bconst(!x.truth(get(0))))
	case "eq", "ne":
		r := tFalse
		for i := 1; i < n; i++ {
			r = m.tp.Or(r, x.equal(get(0), get(i)))
		}
		if name == "ne" {
			r = m.tp.Not(r)
		}
		return boolV(r)
	case "lt", "le", "gt", "ge":
		p, q := x.concrete(get(0)), x.concrete(get(1))
		if name == "gt" || name == "ge" {
			p, q = q, p
		}
		u, ok1 := m.load(p.p).(*Term)
		w, ok2 := m.load(q.p).(*Term)
		if !ok1 || !ok2 {
			panic(unsupported("template comparison"))
		}
		u, w = m.tp.SExt(u, 64), m.tp.SExt(w, 64)
		if name == "lt" || name == "gt" {
			return boolV(m.tp.Slt(u, w))
		}
		return boolV(m.tp.Sle(u, w))
	case "len":
		v := x.concrete(get(0))
		switch y := m.load(v.p).(type) {
		case SliceV:
			return x.val(ci(len(y)), types.Typ[types.Int])
		case *MapV:
			return x.val(ci(m.mapLen(y)), types.Typ[types.Int])
		case string, *SymStr:
			return x.val(ci(m.strLen(y)), types.Typ[types.Int])
		}
	case "print", "println", "printf":
		var s SliceV
		for i := 0; i < n; i++ {
			s = append(s, x.iface(get(i)))
		}
		if name == "printf" {
			return x.val(m.sprintf(s[0].(Iface).v, s[1:]), types.Typ[types.String])
		}
		return x.val(m.sprint(s, name == "println"), types.Typ[types.String])
	}
	if e, ok := strings.CutPrefix(name, "_html_template_"); ok && n == 1 {
		return x.val(x.escape(e, get(0)), types.Typ[types.String])
	}
	if name == "_eval_args_" && n == 1 {
		return x.val(m.sprint(SliceV{x.iface(get(0))}, false), types.Typ[types.String])
	}
	panic(unsupported("template function " + name))
}

func (x *tmplExec) equal(a, b tval) *Term {
	m := x.m
	a, b = x.concrete(a), x.concrete(b)
	if a.t == nil || b.t == nil {
		return bconst(a.t == nil && b.t == nil)
	}
	u, v := m.load(a.p), m.load(b.p)
	if p, ok := u.(*Term); ok {
		q, ok := v.(*Term)
		if !ok {
			x.fail("incompatible types for comparison")
		}
		if p.w > 0 && q.w > 0 {
			p, q = m.tp.SExt(p, 64), m.tp.SExt(q, 64)
		}
		return m.tp.Eq(p, q)
	}
	return m.eq(u, v)
}

// document evaluates an HTML document. html/template itself finds the context of every action and adds the escaping
// functions to the parsed template, which is then evaluated like any other.
func (x *tmplExec) document(dot tval) {
	if x.t.tree == nil {
		panic(unsupported("HTML document without a tree"))
	}
	if x.t.escaped == nil {
		stubs := htmltemplate.FuncMap{}
		for n := range x.t.funcs {
			stubs[n] = func(...any) any { return nil }
		}
		t, err := htmltemplate.New(x.t.name).Funcs(stubs).Parse(x.t.text)
		if err != nil {
			panic(unsupported("HTML document: " + err.Error()))
		}
		err = t.Execute(io.Discard, nil)
		var bad *htmltemplate.Error
		if errors.As(err, &bad) {
			panic(codecErr{err.Error()})
		}
		x.t.escaped = t.Tree
	}
	x.walk(dot, x.t.escaped.Root)
}

// escape is a function that html/template adds.
func (x *tmplExec) escape(name string, v tval) any {
	m := x.m
	v = x.concrete(v)
	typed := ""
	if n, ok := types.Unalias(v.t).(*types.Named); ok && v.t != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "html/template" {
		typed = n.Obj().Name()
	}
	text := func() any {
		if v.t == nil {
			return ""
		}
		if b, ok := v.t.Underlying().(*types.Basic); ok && b.Kind() == types.String && !hasMethod(v.t, "Error") && !hasMethod(v.t, "String") {
			return m.load(v.p)
		}
		return m.sprint(SliceV{x.iface(v)}, false)
	}
	switch name {
	case "jsvalescaper":
		switch {
		case typed == "JS":
			return m.load(v.p)
		case typed == "JSStr":
			return m.concat(m.concat("\"", m.load(v.p)), "\"")
		case v.t != nil && !hasMethod(v.t, "MarshalJSON") && hasMethod(v.t, "String"):
			r, _ := m.callMethod(x.iface(v), "String")
			v = x.val(r, types.Typ[types.String])
		}
		j, err := m.tree(x.iface(v), false)
		if err.t != nil {
			panic(codecErr{err})
		}
		var b byteBuf
		m.jsonText(&b, j, "", "", false, 0, true)
		word := func(t *Term) bool {
			c := byte(m.conc(t))
			return c == '$' || c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		}
		r := mkStr(b.b)
		if word(b.b[0]) || word(b.b[len(b.b)-1]) {
			r = m.concat(m.concat(" ", r), " ")
		}
		return r
	case "commentescaper":
		return ""
	case "htmlescaper", "attrescaper", "rcdataescaper":
		if typed == "HTML" {
			if name == "htmlescaper" {
				return m.load(v.p)
			}
			panic(unsupported("template function " + name + " of HTML"))
		}
		var b byteBuf
		for _, c := range m.strBytes(text()) {
			repl := ""
			for _, e := range []struct {
				c byte
				s string
			}{{0, "\ufffd"}, {'"', "&#34;"}, {'&', "&amp;"}, {'\'', "&#39;"}, {'+', "&#43;"}, {'<', "&lt;"}, {'>', "&gt;"}} {
				if m.branch(m.tp.Eq(c, iconst(8, uint64(e.c)))) {
					repl = e.s
					break
				}
			}
			if repl != "" {
				b.str(repl)
			} else {
				b.b = append(b.b, c)
			}
		}
		return mkStr(b.b)
	}
	panic(unsupported("template function " + name))
}

func init() {
	for _, pkg := range []string{"text/template", "html/template"} {
		html := pkg == "html/template"
		get := func(m *Machine, v any) *tmplV {
			p, _ := v.(*any)
			if p == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			return (*p).(Native).v.(*tmplV)
		}
		def(pkg+".New", func(m *Machine, a []any) any {
			x := any(Native{&tmplV{name: m.cstr(a[0]), funcs: map[string]Iface{}, html: html}})
			return &x
		})
		def(pkg+".Must", func(m *Machine, a []any) any {
			if e := a[1].(Iface); e.t != nil {
				m.rtPanic("template.Must")
			}
			return a[0]
		})
		def("(*"+pkg+".Template).Funcs", func(m *Machine, a []any) any {
			t := get(m, a[0])
			mv, _ := a[1].(*MapV)
			if mv != nil {
				mv.fill()
				for _, e := range mv.ents {
					if !e.deleted {
						t.funcs[m.cstr(e.k)] = e.v.(Iface)
					}
				}
			}
			return a[0]
		})
		def("(*"+pkg+".Template).Parse", func(m *Machine, a []any) any {
			t := get(m, a[0])
			names := map[string]any{}
			for n := range t.funcs {
				names[n] = 1
			}
			t.text = m.cstr(a[1])
			trees, err := parse.Parse(t.name, t.text, "{{", "}}", names, tmplBuiltins)
			if err != nil {
				return Tuple{(*any)(nil), m.mkError(err.Error())}
			}
			if len(trees) > 1 {
				panic(unsupported("nested templates"))
			}
			t.tree = trees[t.name]
			return Tuple{a[0], Iface{}}
		})
		def("(*"+pkg+".Template).Execute", func(m *Machine, a []any) any {
			t := get(m, a[0])
			w, data := a[1].(Iface), a[2].(Iface)
			x := &tmplExec{m: m, t: t, w: w}
			dot := tval{}
			if data.t != nil {
				dot = x.val(data.v, data.t)
			}
			x.set("$", dot)
			if t.html {
				return m.catchCodec(func() { x.document(dot) })
			}
			return m.catchCodec(func() { x.walk(dot, t.tree.Root) })
		})
	}
	_ = sort.Strings
}
