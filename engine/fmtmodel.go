package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fmtInt renders an integer in the given base; symbolic values branch on the number of digits.
func (m *Machine) fmtInt(t *Term, signed bool, base int) any {
	if t.isConst() {
		if signed {
			return strconv.FormatInt(t.sval(), base)
		}
		return strconv.FormatUint(t.val, base)
	}
	tp := m.tp
	if base == 10 {
		if signed {
			return m.itoa(tp.SExt(t, 64))
		}
		if t.w < 64 {
			return m.itoa(tp.ZExt(t, 64))
		}
		if m.branch(tp.Ult(t, iconst(64, 1<<63))) {
			return m.itoa(t)
		}
		return strconv.FormatUint(m.concretize(t), 10)
	}
	var x *Term
	neg := false
	if signed {
		x = tp.SExt(t, 64)
		if m.branch(tp.Slt(x, iconst(64, 0))) {
			neg = true
			x = tp.Neg(x)
		}
	} else {
		x = tp.ZExt(t, 64)
	}
	sh := map[int]uint64{2: 1, 8: 3, 16: 4}[base]
	if sh == 0 {
		panic(unsupported(fmt.Sprintf("base %d", base)))
	}
	k := 1
	for uint64(k)*sh < 64 && !m.branch(tp.Ult(x, iconst(64, 1<<(uint64(k)*sh)))) {
		k++
	}
	var out []*Term
	if neg {
		out = append(out, iconst(8, '-'))
	}
	for i := k - 1; i >= 0; i-- {
		d := tp.Trunc(tp.Bin(OBAnd, tp.Bin(OLShr, x, iconst(64, uint64(i)*sh)), iconst(64, 1<<sh-1)), 8)
		out = append(out, tp.Ite(tp.Ult(d, iconst(8, 10)), tp.Bin(OAdd, d, iconst(8, '0')), tp.Bin(OAdd, d, iconst(8, 'a'-10))))
	}
	return mkStr(out)
}

type fspec struct {
	verb                           byte
	plus, minus, sharp, space, zro bool
	wid, prec                      int
	hasW, hasP                     bool
}

func (m *Machine) sprintf(format any, args SliceV) any {
	f, ok := format.(string)
	if !ok {
		// a symbolic format: its bytes must not be verbs
		bs := m.strBytes(format)
		var out []*Term
		for i, t := range bs {
			if m.branch(m.tp.Eq(t, iconst(8, '%'))) {
				_ = i
				panic(unsupported("symbolic verb in format"))
			}
			out = append(out, t)
		}
		return m.concat(mkStr(out), m.extraArgs(args, 0))
	}
	var out any = ""
	argi := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = m.concat(out, f[i:])
			break
		}
		out = m.concat(out, f[i:i+j])
		i += j + 1
		var s fspec
	flags:
		for ; i < len(f); i++ {
			switch f[i] {
			case '+':
				s.plus = true
			case '-':
				s.minus = true
			case '#':
				s.sharp = true
			case ' ':
				s.space = true
			case '0':
				s.zro = true
			default:
				break flags
			}
		}
		if i < len(f) && f[i] == '*' {
			s.wid, s.hasW = m.conc(args[argi].(Iface).v), true
			argi++
			i++
		}
		for ; i < len(f) && f[i] >= '0' && f[i] <= '9'; i++ {
			s.wid, s.hasW = s.wid*10+int(f[i]-'0'), true
		}
		if i < len(f) && f[i] == '.' {
			s.hasP = true
			for i++; i < len(f) && f[i] >= '0' && f[i] <= '9'; i++ {
				s.prec = s.prec*10 + int(f[i]-'0')
			}
		}
		if i < len(f) && f[i] == '[' {
			k := strings.IndexByte(f[i:], ']')
			n, _ := strconv.Atoi(f[i+1 : i+k])
			argi = n - 1
			i += k + 1
		}
		if i >= len(f) {
			out = m.concat(out, "%!(NOVERB)")
			break
		}
		s.verb = f[i]
		i++
		if s.verb == '%' {
			out = m.concat(out, "%")
			continue
		}
		if argi >= len(args) {
			out = m.concat(out, "%!"+string(s.verb)+"(MISSING)")
			continue
		}
		out = m.concat(out, m.pad(m.fmtArg(args[argi].(Iface), s), s))
		argi++
	}
	return m.concat(out, m.extraArgs(args, argi))
}

func (m *Machine) extraArgs(args SliceV, n int) any {
	if n >= len(args) {
		return ""
	}
	var out any = "%!(EXTRA "
	for i := n; i < len(args); i++ {
		if i > n {
			out = m.concat(out, ", ")
		}
		a := args[i].(Iface)
		if a.t == nil {
			out = m.concat(out, "<nil>")
			continue
		}
		out = m.concat(out, typeName(a.t)+"=")
		out = m.concat(out, m.fmtArg(a, fspec{verb: 'v'}))
	}
	return m.concat(out, ")")
}

func (m *Machine) pad(v any, s fspec) any {
	if !s.hasW {
		return v
	}
	n := len(m.runes(v))
	if n >= s.wid {
		return v
	}
	if s.minus {
		return m.concat(v, strings.Repeat(" ", s.wid-n))
	}
	if s.zro {
		if strings.ContainsRune("dxXobc", rune(s.verb)) {
			if bs := m.strBytes(v); len(bs) > 0 && bs[0].isConst() && bs[0].val == '-' {
				return m.concat("-", m.concat(strings.Repeat("0", s.wid-n), mkStr(bs[1:])))
			}
			return m.concat(strings.Repeat("0", s.wid-n), v)
		}
	}
	return m.concat(strings.Repeat(" ", s.wid-n), v)
}

func (m *Machine) fmtArg(a Iface, s fspec) any {
	if s.verb == 'T' {
		if a.t == nil {
			return "<nil>"
		}
		return typeName(a.t)
	}
	if a.t == nil {
		if s.verb == 'v' {
			return "<nil>"
		}
		return "%!" + string(s.verb) + "(<nil>)"
	}
	return m.fmtValue(a, s, 0)
}

func (m *Machine) fmtValue(a Iface, s fspec, depth int) any {
	if a.t == nil {
		return "<nil>"
	}
	switch s.verb {
	case 'v', 's', 'q', 'x', 'X':
		if !(s.verb == 'v' && s.sharp) {
			for _, meth := range []string{"Error", "String"} {
				if p, ok := a.v.(*any); ok && p == nil {
					// fmt prints <nil> when a method on a nil receiver panics
					if _, isPtr := a.t.Underlying().(*types.Pointer); isPtr && hasMethod(a.t, meth) {
						return "<nil>"
					}
				}
				if !hasMethod(a.t, meth) {
					continue
				}
				if r, ok := m.callMethod(a, meth); ok {
					switch r.(type) {
					case string, *SymStr:
						return m.fmtString(r, s)
					}
				}
			}
		}
	}
	if _, ok := a.t.(*nativeType); ok {
		return m.fmtString(a.t.String(), s)
	}
	switch u := a.t.Underlying().(type) {
	case *types.Basic:
		switch v := a.v.(type) {
		case string, *SymStr:
			return m.fmtString(v, s)
		case float64:
			return m.fmtFloat(v, s)
		case *Term:
			if v.w == 0 {
				if v.isConst() {
					return strconv.FormatBool(v.val == 1)
				}
				if m.branch(v) {
					return "true"
				}
				return "false"
			}
			_, signed, _ := intInfo(u)
			var r any
			switch s.verb {
			case 'd', 'v':
				r = m.fmtInt(v, signed, 10)
			case 'x':
				r = m.fmtInt(v, signed, 16)
				if s.sharp {
					r = m.concat("0x", r)
				}
			case 'X':
				r = strings.ToUpper(m.cstr(m.fmtInt(v, signed, 16)))
			case 'o':
				r = m.fmtInt(v, signed, 8)
				if s.sharp {
					bs := m.strBytes(r)
					if len(bs) == 0 || !m.branch(m.tp.Eq(bs[0], iconst(8, '0'))) {
						r = m.concat("0", r)
					}
				}
			case 'O':
				r = m.concat("0o", m.fmtInt(v, signed, 8))
			case 'b':
				r = m.fmtInt(v, signed, 2)
			case 'c':
				r = m.runesToStr(SliceV{m.tp.Trunc(m.tp.ZExt(v, 64), 32)})
			case 'q':
				r = strconv.QuoteRune(rune(m.concretize(v)))
			default:
				return m.concat("%!"+string(s.verb)+"("+typeName(a.t)+"=", m.concat(m.fmtInt(v, signed, 10), ")"))
			}
			if s.plus && signed {
				if m.branch(m.tp.Sle(iconst(v.w, 0), v)) {
					r = m.concat("+", r)
				}
			}
			return r
		}
	case *types.Pointer:
		p, _ := a.v.(*any)
		if p == nil {
			return "<nil>"
		}
		if depth == 0 && s.verb != 'p' {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Array, *types.Slice, *types.Map:
				return m.concat("&", m.fmtValue(Iface{t: u.Elem(), v: m.force(p)}, s, depth+1))
			}
		}
		return "0xc000012345"
	case *types.Struct:
		st, ok := a.v.(Struct)
		if !ok {
			return "{?}"
		}
		var out any = "{"
		for i := range st {
			if i > 0 {
				out = m.concat(out, " ")
			}
			if s.plus || s.sharp {
				out = m.concat(out, u.Field(i).Name()+":")
			}
			out = m.concat(out, m.fmtField(u.Field(i), st[i], s, depth+1))
		}
		return m.concat(out, "}")
	case *types.Slice, *types.Array:
		var el types.Type
		var vals []any
		switch v := a.v.(type) {
		case SliceV:
			vals = v
			el = u.(*types.Slice).Elem()
		case Array:
			vals = v
			el = u.(*types.Array).Elem()
		}
		if b, ok := el.Underlying().(*types.Basic); ok && b.Kind() == types.Byte && (s.verb == 's' || s.verb == 'q' || s.verb == 'x') {
			return m.fmtString(mkStr(m.toBytes(SliceV(vals))), s)
		}
		var out any = "["
		for i := range vals {
			if i > 0 {
				out = m.concat(out, " ")
			}
			out = m.concat(out, m.fmtElem(el, vals[i], s, depth+1))
		}
		return m.concat(out, "]")
	case *types.Map:
		mv, _ := a.v.(*MapV)
		if mv == nil {
			return "map[]"
		}
		mv.fill()
		ents := append([]*mapEnt(nil), mv.ents...)
		sort.SliceStable(ents, func(i, j int) bool { return m.concreteText(ents[i].k) < m.concreteText(ents[j].k) })
		var out any = "map["
		for i, e := range ents {
			if i > 0 {
				out = m.concat(out, " ")
			}
			out = m.concat(out, m.concat(m.fmtElem(u.Key(), e.k, s, depth+1), m.concat(":", m.fmtElem(u.Elem(), e.v, s, depth+1))))
		}
		return m.concat(out, "]")
	case *types.Signature, *types.Chan:
		return "0xc000012345"
	}
	return fmt.Sprintf("%%!%c(%s)", s.verb, typeName(a.t))
}

func (m *Machine) fmtField(f *types.Var, v any, s fspec, depth int) any {
	if !f.Exported() {
		// fmt does not call methods on unexported fields
		if i, ok := v.(Iface); ok {
			return m.fmtElem(f.Type(), i, s, depth)
		}
	}
	return m.fmtElem(f.Type(), v, s, depth)
}

func (m *Machine) fmtElem(t types.Type, v any, s fspec, depth int) any {
	if i, ok := v.(Iface); ok {
		if _, isI := t.Underlying().(*types.Interface); isI {
			return m.fmtValue(i, s, depth)
		}
	}
	return m.fmtValue(Iface{t: t, v: v}, s, depth)
}

var hasMethMu = map[string]bool{}

func hasMethod(t types.Type, name string) bool {
	if nt, ok := t.(*nativeType); ok {
		return nt.has(name)
	}
	methMu.Lock()
	defer methMu.Unlock()
	sel := types.NewMethodSet(t).Lookup(nil, name)
	if sel == nil {
		return false
	}
	sig := sel.Obj().(*types.Func).Type().(*types.Signature)
	return sig.Params().Len() == 0 && sig.Results().Len() == 1 && isString(sig.Results().At(0).Type())
}

func (m *Machine) fmtString(v any, s fspec) any {
	switch s.verb {
	case 'q':
		if c, ok := v.(string); ok {
			return strconv.Quote(c)
		}
		// quote symbolic printable ASCII; other bytes are concretised
		var out any = "\""
		for _, t := range m.strBytes(v) {
			plain := m.tp.And(m.tp.And(m.tp.Ule(iconst(8, 0x20), t), m.tp.Ult(t, iconst(8, 0x7f))),
				m.tp.And(m.tp.Not(m.tp.Eq(t, iconst(8, '"'))), m.tp.Not(m.tp.Eq(t, iconst(8, '\\')))))
			if m.branch(plain) {
				out = m.concat(out, mkStr([]*Term{t}))
			} else {
				q := strconv.Quote(string([]byte{byte(m.concretize(t))}))
				out = m.concat(out, q[1:len(q)-1])
			}
		}
		return m.concat(out, "\"")
	case 'x':
		return fmt.Sprintf("%x", m.cstr(v))
	case 's', 'v':
		if s.verb == 'v' && s.sharp {
			return strconv.Quote(m.cstr(v))
		}
		if s.hasP {
			if n := m.strLen(v); n > s.prec {
				return m.substr(v, 0, s.prec)
			}
		}
		return v
	}
	return m.concat("%!"+string(s.verb)+"(string=", m.concat(v, ")"))
}

func (m *Machine) fmtFloat(v float64, s fspec) any {
	f := "%"
	if s.plus {
		f += "+"
	}
	if s.hasP {
		f += "." + strconv.Itoa(s.prec)
	}
	return fmt.Sprintf(f+string(s.verb), v)
}

func (m *Machine) sprint(args SliceV, ln bool) any {
	var out any = ""
	prevStr := false
	for i, a := range args {
		ai := a.(Iface)
		isStr := ai.t != nil && isString(ai.t) && types.Identical(ai.t, types.Typ[types.String])
		if i > 0 && (ln || !isStr && !prevStr) {
			out = m.concat(out, " ")
		}
		out = m.concat(out, m.fmtArg(ai, fspec{verb: 'v'}))
		prevStr = isStr
	}
	if ln {
		out = m.concat(out, "\n")
	}
	return out
}

// write calls w.Write with the bytes of s.
func (m *Machine) write(w Iface, s any) any {
	n := m.strLen(s)
	if w.t == nil {
		m.rtPanic("invalid memory address or nil pointer dereference (nil writer)")
	}
	bs := m.strBytes(s)
	b := make(SliceV, n)
	for i := range bs {
		b[i] = bs[i]
	}
	r, ok := m.callMethod(w, "Write", b)
	if !ok {
		panic(unsupported("Write on " + w.t.String()))
	}
	return r
}

// concreteText renders a value under the current model, for reports and observations.
func (m *Machine) concreteText(v any) string {
	memo := map[*Term]uint64{}
	var r func(v any, d int) string
	r = func(v any, d int) string {
		if d > 6 {
			return "..."
		}
		switch v := v.(type) {
		case *Term:
			x := Eval(v, m.model, memo)
			if v.w == 0 {
				return strconv.FormatBool(x == 1)
			}
			return strconv.FormatInt(sext64(x, v.w), 10)
		case string:
			return strconv.Quote(v)
		case *SymStr:
			if v.num != nil && v.b == nil {
				return strconv.Quote(strconv.FormatInt(int64(Eval(v.num, m.model, memo)), 10))
			}
			var sb strings.Builder
			for _, t := range v.b {
				sb.WriteByte(byte(Eval(t, m.model, memo)))
			}
			return strconv.Quote(sb.String())
		case Iface:
			if v.t == nil {
				return "nil"
			}
			if hasMethod(v.t, "Error") && m.inInit == 0 {
				if p, ok := v.v.(*any); ok && p != nil {
					if s, ok := m.force(p).(Struct); ok && len(s) > 0 {
						return "error " + r(s[0], d+1)
					}
				}
			}
			return r(v.v, d+1)
		case SliceV:
			s := "["
			for i, e := range v {
				if i > 0 {
					s += " "
				}
				s += r(e, d+1)
			}
			return s + "]"
		case Array:
			return r(SliceV(v), d)
		case Struct:
			s := "{"
			for i, e := range v {
				if i > 0 {
					s += " "
				}
				s += r(e, d+1)
			}
			return s + "}"
		case *any:
			if v == nil {
				return "nil"
			}
			return "&" + r(m.force(v), d+1)
		case *MapV:
			if v == nil {
				return "map[]"
			}
			v.fill()
			var ks []string
			for _, e := range v.ents {
				ks = append(ks, r(e.k, d+1)+":"+r(e.v, d+1))
			}
			sort.Strings(ks)
			return "map[" + strings.Join(ks, " ") + "]"
		case float64:
			return strconv.FormatFloat(v, 'g', -1, 64)
		case nil:
			return "nil"
		}
		return fmt.Sprintf("<%T>", v)
	}
	return r(v, 0)
}

func init() {
	def("fmt.Sprintf", func(m *Machine, a []any) any { return m.sprintf(a[0], a[1].(SliceV)) })
	def("fmt.Sprint", func(m *Machine, a []any) any { return m.sprint(a[0].(SliceV), false) })
	def("fmt.Sprintln", func(m *Machine, a []any) any { return m.sprint(a[0].(SliceV), true) })
	def("fmt.Fprintf", func(m *Machine, a []any) any { return m.write(a[0].(Iface), m.sprintf(a[1], a[2].(SliceV))) })
	def("fmt.Fprint", func(m *Machine, a []any) any { return m.write(a[0].(Iface), m.sprint(a[1].(SliceV), false)) })
	def("fmt.Fprintln", func(m *Machine, a []any) any { return m.write(a[0].(Iface), m.sprint(a[1].(SliceV), true)) })
	for _, n := range []string{"Printf", "Print", "Println"} {
		n := n
		def("fmt."+n, func(m *Machine, a []any) any {
			var s any
			switch n {
			case "Printf":
				s = m.sprintf(a[0], a[1].(SliceV))
			default:
				s = m.sprint(a[0].(SliceV), n == "Println")
			}
			m.stdout(s)
			return Tuple{ci(0), Iface{}}
		})
	}
	intrinsics["fmt.Errorf"] = func(m *Machine, fr *frame, fn *ssa.Function, a []any) (any, bool) {
		args := a[1].(SliceV)
		f, _ := a[0].(string)
		msg := m.sprintf(strings.ReplaceAll(f, "%w", "%v"), args)
		if k := strings.Index(f, "%w"); k >= 0 {
			n := strings.Count(strings.ReplaceAll(f[:k], "%%", ""), "%")
			if n < len(args) {
				if e, ok := args[n].(Iface); ok && e.t != nil {
					t := canonPtr(types.NewPointer(m.w.Types["fmt"].Scope().Lookup("wrapError").Type()))
					var v any = Struct{msg, e}
					return Iface{t: t, v: &v}, true
				}
			}
		}
		return m.mkError(msg), true
	}
}

func (m *Machine) stdout(s any) {
	o, _ := m.state["stdout"]
	if o == nil {
		o = ""
	}
	m.state["stdout"] = m.concat(o, s)
}
