package main

import (
	"fmt"
	"go/types"
	"math"
	"path"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// intrinsic models one function; ok=false falls through to the function's own body.
type intrinsic func(m *Machine, fr *frame, fn *ssa.Function, args []any) (any, bool)

var intrinsics = map[string]intrinsic{}

func lookupIntrinsic(name string) intrinsic {
	if f, ok := intrinsics[name]; ok {
		return f
	}
	// log.Logger and friends: output has no effect on any property
	if strings.HasPrefix(name, "(*log.Logger).") {
		short := strings.TrimPrefix(name, "(*log.Logger).")
		switch short {
		case "Print", "Printf", "Println", "SetOutput", "SetFlags", "SetPrefix", "output", "Output":
			return constIntr(nil)
		case "Fatal", "Fatalf", "Fatalln":
			return func(m *Machine, fr *frame, fn *ssa.Function, args []any) (any, bool) {
				panic(pathEnd{kind: "exit", code: 1, msg: "log.Fatal"})
			}
		}
	}
	if _, ok := nativeFuncs[name]; ok {
		return func(m *Machine, fr *frame, fn *ssa.Function, args []any) (any, bool) {
			return m.nativeCall(name, fn, args)
		}
	}
	return nil
}

func constIntr(v any) intrinsic {
	return func(m *Machine, fr *frame, fn *ssa.Function, args []any) (any, bool) { return v, true }
}

type nativeType struct {
	name    string
	methods map[string]func(m *Machine, args []any) any
}

func (n *nativeType) Underlying() types.Type { return n }
func (n *nativeType) String() string         { return n.name }
func (n *nativeType) has(s string) bool      { return n.methods[s] != nil }
func (n *nativeType) call(m *Machine, meth string, args []any) any {
	f := n.methods[meth]
	if f == nil {
		panic(unsupported("method " + meth + " of " + n.name + "\n" + m.stack()))
	}
	return f(m, args)
}

var rtypeT *nativeType

type rtype struct{ key string }

var rtypeOf = map[string]types.Type{}

func init() {
	rtypeT = &nativeType{name: "*reflect.rtype", methods: map[string]func(m *Machine, args []any) any{
		"Kind": func(m *Machine, args []any) any {
			typeMu.Lock()
			defer typeMu.Unlock()
			k := reflect.Invalid
			switch t := rtypeOf[args[0].(Native).v.(rtype).key].Underlying().(type) {
			case *types.Basic:
				if t.Kind() >= types.Bool && t.Kind() <= types.Uintptr {
					k = reflect.Kind(t.Kind()) // in the same order
				} else if t.Kind() == types.String {
					k = reflect.String
				} else {
					panic(unsupported("kind of " + t.String()))
				}
			case *types.Map:
				k = reflect.Map
			case *types.Slice:
				k = reflect.Slice
			case *types.Struct:
				k = reflect.Struct
			case *types.Pointer:
				k = reflect.Pointer
			case *types.Interface:
				k = reflect.Interface
			default:
				panic(unsupported("kind of " + t.String()))
			}
			return iconst(64, uint64(k))
		},
		"String": func(m *Machine, args []any) any {
			typeMu.Lock()
			defer typeMu.Unlock()
			return typeName(rtypeOf[args[0].(Native).v.(rtype).key])
		},
	}}
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (m *Machine) reflectType(t types.Type) Iface {
	k := m.typeKey(t)
	typeMu.Lock()
	rtypeOf[k] = t
	typeMu.Unlock()
	return Iface{t: rtypeT, v: Native{rtype{k}}}
}

// nativeFuncs are pure functions run natively when all their arguments are concrete.
var nativeFuncs = map[string]any{
	"strings.Contains": strings.Contains, "strings.ContainsRune": strings.ContainsRune, "strings.ContainsAny": strings.ContainsAny, "strings.HasPrefix": strings.HasPrefix,
	"strings.HasSuffix": strings.HasSuffix, "strings.Index": strings.Index, "strings.IndexByte": strings.IndexByte, "strings.IndexAny": strings.IndexAny, "strings.LastIndex": strings.LastIndex, "strings.LastIndexByte": strings.LastIndexByte,
	"strings.Count": strings.Count, "strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.Fields": strings.Fields, "strings.Join": strings.Join,
	"strings.Repeat": strings.Repeat, "strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper,
	"strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
	"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.EqualFold": strings.EqualFold, "strings.Compare": strings.Compare,
	"strings.Title": strings.Title, "strings.IndexRune": strings.IndexRune, "strings.SplitAfter": strings.SplitAfter, "strings.Cut": strings.Cut, "strings.CutPrefix": strings.CutPrefix, "strings.CutSuffix": strings.CutSuffix,
	"strconv.Itoa": strconv.Itoa, "strconv.Atoi": strconv.Atoi, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatUint": strconv.FormatUint, "strconv.ParseInt": strconv.ParseInt,
	"strconv.ParseUint": strconv.ParseUint, "strconv.ParseBool": strconv.ParseBool, "strconv.ParseFloat": strconv.ParseFloat, "strconv.Quote": strconv.Quote, "strconv.Unquote": strconv.Unquote,
	"strconv.FormatFloat": strconv.FormatFloat, "strconv.QuoteRune": strconv.QuoteRune, "strconv.FormatBool": strconv.FormatBool,
	"path.Base": path.Base, "path.Join": path.Join, "path.Clean": path.Clean, "path.Dir": path.Dir, "path.Ext": path.Ext,
	"path/filepath.Base": filepath.Base, "path/filepath.Join": filepath.Join, "path/filepath.Clean": filepath.Clean, "path/filepath.Dir": filepath.Dir, "path/filepath.Ext": filepath.Ext,
	"path/filepath.Rel": filepath.Rel, "path/filepath.ToSlash": filepath.ToSlash, "path/filepath.IsAbs": filepath.IsAbs, "path/filepath.Match": filepath.Match,
	"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsSpace": unicode.IsSpace,
	"unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper, "unicode.IsPunct": unicode.IsPunct, "unicode.IsControl": unicode.IsControl, "unicode.IsPrint": unicode.IsPrint, "unicode.IsGraphic": unicode.IsGraphic,
	"unicode.SimpleFold":             unicode.SimpleFold,
	"unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.DecodeRuneInString": utf8.DecodeRuneInString, "unicode/utf8.ValidString": utf8.ValidString, "unicode/utf8.RuneLen": utf8.RuneLen,
	"unicode/utf8.DecodeLastRuneInString": utf8.DecodeLastRuneInString,
	"math.Log2":                           math.Log2, "math.Log": math.Log, "math.Pow": math.Pow, "math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Abs": math.Abs, "math.Sqrt": math.Sqrt, "math.Max": math.Max, "math.Min": math.Min,
	"math.Log10": math.Log10, "math.IsNaN": math.IsNaN, "math.IsInf": math.IsInf, "math.Inf": math.Inf, "math.Trunc": math.Trunc, "math.Float64bits": math.Float64bits, "math.Float64frombits": math.Float64frombits, "math.Float32bits": math.Float32bits,
}

// toNative converts a fully concrete value for a native call.
func (m *Machine) toNative(v any, t reflect.Type) (reflect.Value, bool) {
	r := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		s, ok := v.(string)
		if !ok {
			return r, false
		}
		r.SetString(s)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x, ok := v.(*Term)
		if !ok || !x.isConst() {
			return r, false
		}
		r.SetInt(x.sval())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x, ok := v.(*Term)
		if !ok || !x.isConst() {
			return r, false
		}
		r.SetUint(x.val)
	case reflect.Bool:
		x, ok := v.(*Term)
		if !ok || !x.isConst() {
			return r, false
		}
		r.SetBool(x.val == 1)
	case reflect.Float64, reflect.Float32:
		x, ok := v.(float64)
		if !ok {
			return r, false
		}
		r.SetFloat(x)
	case reflect.Slice:
		s, ok := v.(SliceV)
		if !ok {
			return r, false
		}
		if s == nil {
			return r, true
		}
		r.Set(reflect.MakeSlice(t, len(s), len(s)))
		for i := range s {
			e, ok := m.toNative(s[i], t.Elem())
			if !ok {
				return r, false
			}
			r.Index(i).Set(e)
		}
	default:
		return r, false
	}
	return r, true
}

func (m *Machine) fromNative(r reflect.Value) any {
	switch r.Kind() {
	case reflect.String:
		return r.String()
	case reflect.Int, reflect.Int64:
		return iconst(64, uint64(r.Int()))
	case reflect.Int32:
		return iconst(32, uint64(r.Int()))
	case reflect.Int16:
		return iconst(16, uint64(r.Int()))
	case reflect.Int8:
		return iconst(8, uint64(r.Int()))
	case reflect.Uint, reflect.Uint64:
		return iconst(64, r.Uint())
	case reflect.Uint32:
		return iconst(32, r.Uint())
	case reflect.Uint8:
		return iconst(8, r.Uint())
	case reflect.Bool:
		return bconst(r.Bool())
	case reflect.Float64, reflect.Float32:
		return r.Float()
	case reflect.Slice:
		if r.IsNil() {
			return SliceV(nil)
		}
		s := make(SliceV, r.Len())
		for i := range s {
			s[i] = m.fromNative(r.Index(i))
		}
		return s
	}
	panic(unsupported("fromNative " + r.Type().String()))
}

var errorType = reflect.TypeOf((*error)(nil)).Elem()

func (m *Machine) nativeCall(name string, fn *ssa.Function, args []any) (any, bool) {
	nf, ok := nativeFuncs[name]
	if !ok {
		return nil, false
	}
	rv := reflect.ValueOf(nf)
	rt := rv.Type()
	in := make([]reflect.Value, len(args))
	for i := range args {
		v, ok := m.toNative(args[i], rt.In(i))
		if !ok {
			return nil, false
		}
		in[i] = v
	}
	var out []reflect.Value
	bad := false
	func() {
		defer func() {
			if recover() != nil {
				bad = true
			}
		}()
		if rt.IsVariadic() {
			out = rv.CallSlice(in)
		} else {
			out = rv.Call(in)
		}
	}()
	if bad {
		return nil, false
	}
	res := make(Tuple, len(out))
	for i, o := range out {
		if o.Type() == errorType {
			if !o.IsNil() {
				return nil, false // let the interpreted body build the error value
			}
			res[i] = Iface{}
			continue
		}
		res[i] = m.fromNative(o)
	}
	switch len(res) {
	case 0:
		return nil, true
	case 1:
		return res[0], true
	}
	return res, true
}

func (m *Machine) mkError(msg any) Iface {
	p := m.w.Types["errors"]
	t := types.NewPointer(p.Scope().Lookup("errorString").Type())
	var v any = Struct{msg}
	return Iface{t: canonPtr(t), v: &v}
}

var ptrCache = map[types.Type]types.Type{}

func canonPtr(t types.Type) types.Type {
	p, ok := t.(*types.Pointer)
	if !ok {
		return t
	}
	typeMu.Lock()
	defer typeMu.Unlock()
	if c, ok := ptrCache[p.Elem()]; ok {
		return c
	}
	ptrCache[p.Elem()] = t
	return t
}

// callMethod calls a method by name if the dynamic type has it.
func (m *Machine) callMethod(v Iface, name string, args ...any) (any, bool) {
	if v.t == nil {
		return nil, false
	}
	if nt, ok := v.t.(*nativeType); ok {
		if nt.has(name) {
			return nt.call(m, name, append([]any{v.v}, args...)), true
		}
		return nil, false
	}
	methMu.Lock()
	sel := types.NewMethodSet(v.t).Lookup(nil, name)
	methMu.Unlock()
	if sel == nil {
		return nil, false
	}
	f := m.lookupMethod(v.t, sel.Obj().(*types.Func))
	return m.call(nil, f, append([]any{v.v}, args...)), true
}

func allConcrete(args ...any) bool {
	for _, a := range args {
		switch a := a.(type) {
		case *Term:
			if !a.isConst() {
				return false
			}
		case *SymStr:
			return false
		case SliceV:
			for _, e := range a {
				if !allConcrete(e) {
					return false
				}
			}
		}
	}
	return true
}

func (m *Machine) reg(f func(m *Machine, args []any) any) {}

func def(name string, f func(m *Machine, args []any) any) {
	intrinsics[name] = func(m *Machine, fr *frame, fn *ssa.Function, args []any) (any, bool) { return f(m, args), true }
}

// defSym models a string function for symbolic arguments only; concrete calls run natively.
func defSym(name string, f func(m *Machine, args []any) any) {
	intrinsics[name] = func(m *Machine, fr *frame, fn *ssa.Function, args []any) (any, bool) {
		if r, ok := m.nativeCall(name, fn, args); ok {
			return r, true
		}
		r := f(m, args)
		if r == nil {
			return nil, false
		}
		return r, true
	}
}

func (m *Machine) conc(v any) int { return int(int64(m.concretize(v.(*Term)))) }

func (m *Machine) cstr(v any) string {
	switch v := v.(type) {
	case string:
		return v
	case *SymStr:
		var sb strings.Builder
		for _, t := range m.strBytes(v) {
			sb.WriteByte(byte(m.concretize(t)))
		}
		m.unsound = append(m.unsound, "string concretised")
		return sb.String()
	}
	panic(unsupported(fmt.Sprintf("string expected, got %T", v)))
}

func ci(n int) *Term { return iconst(64, uint64(int64(n))) }

func (m *Machine) matchAt(s, sub []*Term, i int) *Term {
	r := tTrue
	for k := range sub {
		r = m.tp.And(r, m.tp.Eq(s[i+k], sub[k]))
	}
	return r
}

// numFree reports whether a lazily rendered number cannot contain sub (without expanding it).
func (m *Machine) numFree(s, sub any) bool {
	x, ok := s.(*SymStr)
	c, ok2 := sub.(string)
	if !ok || !ok2 || x.num == nil || c == "" {
		return false
	}
	for i := 0; i < len(c); i++ {
		if (c[i] < '0' || c[i] > '9') && !(c[i] == '-' && i == 0) {
			return true
		}
	}
	if c[0] == '-' {
		if !m.branch(m.tp.Slt(x.num, iconst(64, 0))) {
			return true
		}
	}
	return false
}

func (m *Machine) toBytes(v any) []*Term {
	if s, ok := v.(SliceV); ok {
		r := make([]*Term, len(s))
		for i := range s {
			r[i] = s[i].(*Term)
		}
		return r
	}
	return m.strBytes(v)
}

func (m *Machine) indexOf(s, sub []*Term) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if m.branch(m.matchAt(s, sub, i)) {
			return i
		}
	}
	return -1
}

func (m *Machine) lastIndexOf(s, sub []*Term) int {
	for i := len(s) - len(sub); i >= 0; i-- {
		if m.branch(m.matchAt(s, sub, i)) {
			return i
		}
	}
	return -1
}

func (m *Machine) lowerT(t *Term, lo, hi byte, delta int) *Term {
	if t.isConst() {
		c := byte(t.val)
		if c >= lo && c <= hi {
			c = byte(int(c) + delta)
		}
		return iconst(8, uint64(c))
	}
	in := m.tp.And(m.tp.Ule(iconst(8, uint64(lo)), t), m.tp.Ule(t, iconst(8, uint64(hi))))
	return m.tp.Ite(in, m.tp.Bin(OAdd, t, iconst(8, uint64(uint8(delta)))), t)
}

func (m *Machine) asciiOnly(bs []*Term) bool {
	for _, t := range bs {
		if !m.branch(m.tp.Ult(t, iconst(8, 0x80))) {
			return false
		}
	}
	return true
}

func init() {
	defSym("strings.HasPrefix", func(m *Machine, a []any) any {
		if n := m.numFree(a[0], a[1]); n {
			return tFalse
		}
		s, p := m.strBytes(a[0]), m.strBytes(a[1])
		if len(s) < len(p) {
			return tFalse
		}
		return m.matchAt(s, p, 0)
	})
	defSym("strings.HasSuffix", func(m *Machine, a []any) any {
		s, p := m.strBytes(a[0]), m.strBytes(a[1])
		if len(s) < len(p) {
			return tFalse
		}
		return m.matchAt(s, p, len(s)-len(p))
	})
	defSym("strings.TrimPrefix", func(m *Machine, a []any) any {
		s, p := m.strBytes(a[0]), m.strBytes(a[1])
		if len(s) < len(p) || !m.branch(m.matchAt(s, p, 0)) {
			return a[0]
		}
		return mkStr(s[len(p):])
	})
	defSym("strings.TrimSuffix", func(m *Machine, a []any) any {
		s, p := m.strBytes(a[0]), m.strBytes(a[1])
		if len(s) < len(p) || !m.branch(m.matchAt(s, p, len(s)-len(p))) {
			return a[0]
		}
		return mkStr(s[:len(s)-len(p)])
	})
	defSym("strings.Contains", func(m *Machine, a []any) any {
		if m.numFree(a[0], a[1]) {
			return tFalse
		}
		s, p := m.strBytes(a[0]), m.strBytes(a[1])
		r := tFalse
		for i := 0; i+len(p) <= len(s); i++ {
			r = m.tp.Or(r, m.matchAt(s, p, i))
		}
		return r
	})
	idx := func(m *Machine, a []any) any {
		if m.numFree(a[0], a[1]) {
			return ci(-1)
		}
		return ci(m.indexOf(m.toBytes(a[0]), m.toBytes(a[1])))
	}
	defSym("strings.Index", idx)
	def("internal/bytealg.IndexString", idx)
	def("internal/bytealg.Index", idx)
	defSym("strings.LastIndex", func(m *Machine, a []any) any {
		return ci(m.lastIndexOf(m.strBytes(a[0]), m.strBytes(a[1])))
	})
	idxb := func(m *Machine, a []any) any {
		c := a[1].(*Term)
		return ci(m.indexOf(m.toBytes(a[0]), []*Term{c}))
	}
	defSym("strings.IndexByte", idxb)
	def("internal/bytealg.IndexByteString", idxb)
	def("internal/stringslite.IndexByte", idxb)
	def("internal/bytealg.IndexByte", idxb)
	def("bytes.IndexByte", idxb)
	lidxb := func(m *Machine, a []any) any {
		return ci(m.lastIndexOf(m.toBytes(a[0]), []*Term{a[1].(*Term)}))
	}
	defSym("strings.LastIndexByte", lidxb)
	def("internal/bytealg.LastIndexByteString", lidxb)
	def("internal/bytealg.LastIndexByte", lidxb)
	cnt := func(m *Machine, a []any) any {
		r := iconst(64, 0)
		for _, t := range m.toBytes(a[0]) {
			r = m.tp.Bin(OAdd, r, m.tp.Ite(m.tp.Eq(t, a[1].(*Term)), iconst(64, 1), iconst(64, 0)))
		}
		return ci(int(m.concretize(r)))
	}
	def("internal/bytealg.CountString", cnt)
	def("internal/bytealg.Count", cnt)
	def("internal/bytealg.Equal", func(m *Machine, a []any) any { return m.bytesEq(a[0], a[1]) })
	def("bytes.Equal", func(m *Machine, a []any) any { return m.bytesEq(a[0], a[1]) })
	cmpf := func(m *Machine, a []any) any {
		x, y := mkStr(m.toBytes(a[0])), mkStr(m.toBytes(a[1]))
		tp := m.tp
		return tp.Ite(m.strLess(x, y), ci(-1), tp.Ite(m.strEq(x, y), ci(0), ci(1)))
	}
	def("internal/bytealg.Compare", cmpf)
	def("internal/bytealg.CompareString", cmpf)
	def("strings.Compare", cmpf)
	def("bytes.Compare", cmpf)
	intrinsics["cmp.Compare"] = func(m *Machine, fr *frame, fn *ssa.Function, args []any) (any, bool) {
		switch x := args[0].(type) {
		case *Term:
			t := fn.Signature.Params().At(0).Type()
			_, signed, _ := intInfo(t)
			y := args[1].(*Term)
			lt := m.tp.Ult(x, y)
			if signed {
				lt = m.tp.Slt(x, y)
			}
			return m.tp.Ite(lt, ci(-1), m.tp.Ite(m.tp.Eq(x, y), ci(0), ci(1))), true
		case string, *SymStr:
			return cmpf(m, args), true
		}
		return nil, false
	}
	defSym("strings.ToLower", func(m *Machine, a []any) any {
		bs := m.strBytes(a[0])
		if !m.asciiOnly(bs) {
			return nil
		}
		r := make([]*Term, len(bs))
		for i := range bs {
			r[i] = m.lowerT(bs[i], 'A', 'Z', 32)
		}
		return mkStr(r)
	})
	defSym("strings.ToUpper", func(m *Machine, a []any) any {
		bs := m.strBytes(a[0])
		if !m.asciiOnly(bs) {
			return nil
		}
		r := make([]*Term, len(bs))
		for i := range bs {
			r[i] = m.lowerT(bs[i], 'a', 'z', -32)
		}
		return mkStr(r)
	})
	defSym("strings.EqualFold", func(m *Machine, a []any) any {
		x, y := m.strBytes(a[0]), m.strBytes(a[1])
		if !m.asciiOnly(x) || !m.asciiOnly(y) {
			return nil
		}
		if len(x) != len(y) {
			return tFalse
		}
		r := tTrue
		for i := range x {
			r = m.tp.And(r, m.tp.Eq(m.lowerT(x[i], 'A', 'Z', 32), m.lowerT(y[i], 'A', 'Z', 32)))
		}
		return r
	})
	defSym("strings.Split", func(m *Machine, a []any) any {
		if m.numFree(a[0], a[1]) {
			return SliceV{a[0]}
		}
		sep := m.strBytes(a[1])
		if len(sep) == 0 {
			return nil
		}
		return m.split(m.strBytes(a[0]), sep, -1)
	})
	defSym("strings.SplitN", func(m *Machine, a []any) any {
		n := m.conc(a[2])
		sep := m.strBytes(a[1])
		if len(sep) == 0 || n == 0 {
			return nil
		}
		if m.numFree(a[0], a[1]) {
			return SliceV{a[0]}
		}
		return m.split(m.strBytes(a[0]), sep, n)
	})
	defSym("strings.Join", func(m *Machine, a []any) any {
		s := a[0].(SliceV)
		var r any = ""
		if len(s) == 1 {
			return s[0]
		}
		for i, e := range s {
			if i > 0 {
				r = m.concat(r, a[1])
			}
			r = m.concat(r, e)
		}
		return r
	})
	defSym("strings.ReplaceAll", func(m *Machine, a []any) any { return m.replace(a[0], a[1], a[2], -1) })
	defSym("strings.Replace", func(m *Machine, a []any) any { return m.replace(a[0], a[1], a[2], m.conc(a[3])) })
	trim := func(left, right bool) func(m *Machine, a []any) any {
		return func(m *Machine, a []any) any {
			bs := m.strBytes(a[0])
			cut := " \t\n\v\f\r"
			if len(a) > 1 {
				c, ok := a[1].(string)
				if !ok {
					return nil
				}
				cut = c
			}
			in := func(t *Term) *Term {
				r := tFalse
				for i := 0; i < len(cut); i++ {
					r = m.tp.Or(r, m.tp.Eq(t, iconst(8, uint64(cut[i]))))
				}
				return r
			}
			for i := 0; i < len(cut); i++ {
				if cut[i] >= 0x80 {
					return nil
				}
			}
			lo, hi := 0, len(bs)
			if left {
				for lo < hi && m.branch(in(bs[lo])) {
					lo++
				}
			}
			if right {
				for hi > lo && m.branch(in(bs[hi-1])) {
					hi--
				}
			}
			// non-ASCII space is not modelled for symbolic text
			if len(a) == 1 {
				for _, k := range []int{lo, hi - 1} {
					if k >= 0 && k < len(bs) && !bs[k].isConst() {
						m.assumeASCII(bs[k])
					}
				}
			}
			return mkStr(bs[lo:hi])
		}
	}
	defSym("strings.TrimSpace", trim(true, true))
	defSym("strings.Trim", trim(true, true))
	defSym("strings.TrimLeft", trim(true, false))
	defSym("strings.TrimRight", trim(false, true))
	itoa := func(m *Machine, t *Term) any { return m.itoa(t) }
	defSym("strconv.Itoa", func(m *Machine, a []any) any { return itoa(m, a[0].(*Term)) })
	defSym("strconv.FormatInt", func(m *Machine, a []any) any {
		if b := a[1].(*Term); b.isConst() && b.val == 10 {
			return itoa(m, a[0].(*Term))
		}
		return m.fmtInt(a[0].(*Term), true, m.conc(a[1]))
	})
	defSym("strconv.Atoi", func(m *Machine, a []any) any {
		if n := m.numOf(a[0]); n != nil {
			return Tuple{n, Iface{}}
		}
		return nil
	})
	rangeErr := func(m *Machine) Iface { return m.mkError("value out of range") }
	defSym("strconv.ParseInt", func(m *Machine, a []any) any {
		base, ok := a[1].(*Term)
		if n := m.numOf(a[0]); n != nil && ok && base.isConst() && (base.val == 10 || base.val == 0) {
			bs := m.conc(a[2])
			if bs == 64 || bs == 0 {
				return Tuple{n, Iface{}}
			}
			if bs > 0 && bs < 64 {
				lo, hi := -int64(1)<<(bs-1), int64(1)<<(bs-1)-1
				if m.branch(m.tp.Slt(n, iconst(64, uint64(lo)))) {
					return Tuple{iconst(64, uint64(lo)), rangeErr(m)}
				}
				if m.branch(m.tp.Slt(iconst(64, uint64(hi)), n)) {
					return Tuple{iconst(64, uint64(hi)), rangeErr(m)}
				}
				return Tuple{n, Iface{}}
			}
		}
		return nil
	})
	defSym("strconv.ParseUint", func(m *Machine, a []any) any {
		base, ok := a[1].(*Term)
		if n := m.numOf(a[0]); n != nil && ok && base.isConst() && (base.val == 10 || base.val == 0) {
			bs := m.conc(a[2])
			if bs < 0 || bs > 64 {
				return nil
			}
			if m.branch(m.tp.Slt(n, iconst(64, 0))) {
				return Tuple{iconst(64, 0), m.mkError("invalid syntax")}
			}
			if bs > 0 && bs < 64 {
				hi := uint64(1)<<bs - 1
				if m.branch(m.tp.Ult(iconst(64, hi), n)) {
					return Tuple{iconst(64, hi), rangeErr(m)}
				}
			}
			return Tuple{n, Iface{}}
		}
		return nil
	})

	// unicode on symbolic runes: ASCII classes as terms
	uni := func(name string, f func(rune) bool) {
		defSym(name, func(m *Machine, a []any) any {
			t := a[0].(*Term)
			if !m.branch(m.tp.Ult(t, iconst(32, 128))) {
				return bconst(f(rune(int32(m.concretize(t)))))
			}
			r := tFalse
			for lo := 0; lo < 128; lo++ {
				if !f(rune(lo)) {
					continue
				}
				hi := lo
				for hi+1 < 128 && f(rune(hi+1)) {
					hi++
				}
				r = m.tp.Or(r, m.tp.And(m.tp.Ule(iconst(32, uint64(lo)), t), m.tp.Ule(t, iconst(32, uint64(hi)))))
				lo = hi
			}
			return r
		})
	}
	uni("unicode.IsUpper", unicode.IsUpper)
	uni("unicode.IsLower", unicode.IsLower)
	uni("unicode.IsLetter", unicode.IsLetter)
	uni("unicode.IsDigit", unicode.IsDigit)
	uni("unicode.IsSpace", unicode.IsSpace)
	uni("unicode.IsPunct", unicode.IsPunct)
	uni("unicode.IsControl", unicode.IsControl)
	uni("unicode.IsPrint", unicode.IsPrint)
	defSym("unicode/utf8.DecodeRuneInString", func(m *Machine, a []any) any {
		bs := m.strBytes(a[0])
		if len(bs) == 0 {
			return Tuple{iconst(32, utf8.RuneError), ci(0)}
		}
		r, n := m.decodeRune(bs)
		return Tuple{r, ci(n)}
	})
	defSym("unicode/utf8.RuneCountInString", func(m *Machine, a []any) any { return ci(len(m.runes(a[0]))) })
	def("internal/bytealg.MakeNoZero", func(m *Machine, a []any) any {
		n := m.conc(a[0])
		s := make(SliceV, n)
		for i := range s {
			s[i] = iconst(8, 0)
		}
		return s
	})
	def("(*strings.Builder).copyCheck", func(m *Machine, a []any) any { return nil })
	def("(*strings.Builder).Grow", func(m *Machine, a []any) any { return nil })
	def("(*strings.Builder).grow", func(m *Machine, a []any) any { return nil })
	def("strings.Clone", func(m *Machine, a []any) any { return a[0] })
	def("internal/stringslite.Clone", func(m *Machine, a []any) any { return a[0] })
	def("(*bytes.Buffer).String", func(m *Machine, a []any) any {
		p := a[0].(*any)
		if p == nil {
			return "<nil>"
		}
		s := m.force(p).(Struct)
		buf := s[0].(SliceV)
		off := m.conc(s[1])
		return mkStr(m.toBytes(buf[off:]))
	})

	// reflect
	tyOf := func(m *Machine, a []any) any {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return m.reflectType(i.t)
	}
	def("reflect.TypeOf", tyOf)
	def("internal/reflectlite.TypeOf", tyOf)
	def("internal/reflectlite.Swapper", swapper)
	def("reflect.Swapper", swapper)
	def("internal/reflectlite.ValueOf", func(m *Machine, a []any) any { return Native{a[0]} })
	def("(internal/reflectlite.Value).Len", func(m *Machine, a []any) any {
		return ci(len(a[0].(Native).v.(Iface).v.(SliceV)))
	})

	// errors
	def("errors.New", func(m *Machine, a []any) any { return m.mkError(a[0]) })
	def("errors.Is", func(m *Machine, a []any) any {
		err, target := a[0].(Iface), a[1].(Iface)
		return bconst(m.errIs(err, target))
	})
	intrinsics["errors.As"] = func(m *Machine, fr *frame, fn *ssa.Function, a []any) (any, bool) {
		err, target := a[0].(Iface), a[1].(Iface)
		tt := deref(target.t)
		for err.t != nil {
			if it, ok := tt.Underlying().(*types.Interface); ok {
				if m.implements(err.t, it) {
					m.store(target.v.(*any), err)
					return tTrue, true
				}
			} else if sameType(err.t, tt) {
				m.store(target.v.(*any), err.v)
				return tTrue, true
			}
			n, ok := m.callMethod(err, "Unwrap")
			if !ok {
				break
			}
			e, ok := n.(Iface)
			if !ok {
				break
			}
			err = e
		}
		return tFalse, true
	}

	// sync
	lock := func(m *Machine, a []any) any {
		p := a[0].(*any)
		if p == nil {
			m.rtPanic("nil mutex")
		}
		k := lockKey{p}
		m.yieldPoint("lock")
		if m.lockState(k) != 0 {
			m.wait("mutex", func() bool { return m.lockState(k) == 0 })
		}
		m.state[k.str()] = -1
		m.acquire(a[0])
		return nil
	}
	unlock := func(m *Machine, a []any) any {
		k := lockKey{a[0].(*any)}
		if m.lockState(k) == 0 {
			m.rtPanic("unlock of unlocked mutex")
		}
		m.state[k.str()] = 0
		m.release(a[0])
		m.yieldPoint("unlock")
		return nil
	}
	def("(*sync.Mutex).Lock", lock)
	def("(*sync.Mutex).Unlock", unlock)
	def("(*sync.Mutex).TryLock", func(m *Machine, a []any) any {
		k := lockKey{a[0].(*any)}
		if m.lockState(k) != 0 {
			return tFalse
		}
		m.state[k.str()] = -1
		m.acquire(a[0])
		return tTrue
	})
	def("(*sync.RWMutex).Lock", lock)
	def("(*sync.RWMutex).Unlock", unlock)
	def("(*sync.RWMutex).RLock", func(m *Machine, a []any) any {
		k := lockKey{a[0].(*any)}
		m.yieldPoint("rlock")
		if m.lockState(k) < 0 {
			m.wait("rwmutex", func() bool { return m.lockState(k) >= 0 })
		}
		m.state[k.str()] = m.lockState(k) + 1
		m.acquire(a[0])
		return nil
	})
	def("(*sync.RWMutex).RUnlock", func(m *Machine, a []any) any {
		k := lockKey{a[0].(*any)}
		m.state[k.str()] = m.lockState(k) - 1
		m.release(a[0])
		return nil
	})
	def("(*sync.WaitGroup).Add", func(m *Machine, a []any) any {
		k := "wg" + lockKey{a[0].(*any)}.str()
		n, _ := m.state[k].(int)
		n += m.conc(a[1])
		if n < 0 {
			m.rtPanic("sync: negative WaitGroup counter")
		}
		m.state[k] = n
		return nil
	})
	def("(*sync.WaitGroup).Done", func(m *Machine, a []any) any {
		k := "wg" + lockKey{a[0].(*any)}.str()
		n, _ := m.state[k].(int)
		if n <= 0 {
			m.rtPanic("sync: negative WaitGroup counter")
		}
		m.state[k] = n - 1
		m.release(a[0])
		m.yieldPoint("wg.Done")
		return nil
	})
	def("(*sync.WaitGroup).Wait", func(m *Machine, a []any) any {
		k := "wg" + lockKey{a[0].(*any)}.str()
		m.wait("WaitGroup", func() bool { n, _ := m.state[k].(int); return n == 0 })
		m.acquire(a[0])
		return nil
	})
	def("(*sync.Once).Do", func(m *Machine, a []any) any {
		k := "once" + lockKey{a[0].(*any)}.str()
		if m.state[k] == nil {
			m.state[k] = true
			m.call(nil, a[1], nil)
		}
		return nil
	})
	def("(*sync.Once).doSlow", func(m *Machine, a []any) any {
		k := "once" + lockKey{a[0].(*any)}.str()
		if m.state[k] == nil {
			m.state[k] = true
			m.call(nil, a[1], nil)
		}
		return nil
	})
	def("(*sync.Pool).Get", func(m *Machine, a []any) any {
		s := m.force(a[0].(*any)).(Struct)
		f := s[len(s)-1]
		if isNilFunc(f) {
			return Iface{}
		}
		return m.call(nil, f, nil)
	})
	def("(*sync.Pool).Put", func(m *Machine, a []any) any { return nil })
	syncMap := func(m *Machine, p *any) *MapV {
		k := "syncmap" + lockKey{p}.str()
		mv, _ := m.state[k].(*MapV)
		if mv == nil {
			mv = m.newMap()
			m.state[k] = mv
		}
		return mv
	}
	def("(*sync.Map).Load", func(m *Machine, a []any) any {
		if e := m.mapFind(syncMap(m, a[0].(*any)), a[1]); e != nil {
			return Tuple{e.v, tTrue}
		}
		return Tuple{Iface{}, tFalse}
	})
	def("(*sync.Map).Store", func(m *Machine, a []any) any { m.mapSet(syncMap(m, a[0].(*any)), a[1], a[2]); return nil })
	def("(*sync.Map).LoadOrStore", func(m *Machine, a []any) any {
		mv := syncMap(m, a[0].(*any))
		if e := m.mapFind(mv, a[1]); e != nil {
			return Tuple{e.v, tTrue}
		}
		m.mapSet(mv, a[1], a[2])
		return Tuple{a[2], tFalse}
	})
	for _, w := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}} {
		n := w.n
		def("sync/atomic.Load"+n, func(m *Machine, a []any) any { return m.load(a[0].(*any)) })
		def("sync/atomic.Store"+n, func(m *Machine, a []any) any { m.store(a[0].(*any), a[1]); return nil })
		def("sync/atomic.Add"+n, func(m *Machine, a []any) any {
			v := m.tp.Bin(OAdd, m.load(a[0].(*any)).(*Term), a[1].(*Term))
			m.store(a[0].(*any), v)
			return v
		})
		def("sync/atomic.CompareAndSwap"+n, func(m *Machine, a []any) any {
			if m.branch(m.tp.Eq(m.load(a[0].(*any)).(*Term), a[1].(*Term))) {
				m.store(a[0].(*any), a[2])
				return tTrue
			}
			return tFalse
		})
		// typed atomics: the value is the last field
		cell := func(m *Machine, p any) *any {
			s := m.force(p.(*any)).(Struct)
			return &s[len(s)-1]
		}
		def("(*sync/atomic."+n+").Load", func(m *Machine, a []any) any { return *cell(m, a[0]) })
		def("(*sync/atomic."+n+").Store", func(m *Machine, a []any) any { *cell(m, a[0]) = a[1]; return nil })
		def("(*sync/atomic."+n+").Add", func(m *Machine, a []any) any {
			c := cell(m, a[0])
			*c = m.tp.Bin(OAdd, (*c).(*Term), a[1].(*Term))
			return *c
		})
	}
	def("(*sync/atomic.Bool).Load", func(m *Machine, a []any) any {
		s := m.force(a[0].(*any)).(Struct)
		return m.tp.Not(m.tp.Eq(s[len(s)-1].(*Term), iconst(32, 0)))
	})
	def("(*sync/atomic.Bool).Store", func(m *Machine, a []any) any {
		s := m.force(a[0].(*any)).(Struct)
		s[len(s)-1] = m.tp.Ite(a[1].(*Term), iconst(32, 1), iconst(32, 0))
		return nil
	})
	def("(*sync/atomic.Pointer[T]).Load", func(m *Machine, a []any) any {
		s := m.force(a[0].(*any)).(Struct)
		if u, ok := s[len(s)-1].(UnsafePtr); ok {
			if u.v == nil {
				return (*any)(nil)
			}
			return u.v
		}
		return s[len(s)-1]
	})
	def("(*sync/atomic.Pointer[T]).Store", func(m *Machine, a []any) any {
		s := m.force(a[0].(*any)).(Struct)
		s[len(s)-1] = UnsafePtr{a[1]}
		return nil
	})
	def("runtime.GC", constF(nil))
	def("runtime.Gosched", func(m *Machine, a []any) any { m.yieldPoint("gosched"); return nil })
	def("runtime.NumCPU", constF(ci(4)))
	def("runtime.GOMAXPROCS", constF(ci(4)))
	def("runtime.KeepAlive", constF(nil))
	def("runtime.SetFinalizer", constF(nil))
	def("internal/godebug.New", constF((*any)(nil)))
	def("(*internal/godebug.Setting).Value", constF(""))
	def("(*internal/godebug.Setting).IncNonDefault", constF(nil))
	def("internal/godebug.setUpdate", constF(nil))
	def("log.New", func(m *Machine, a []any) any { var v any = Native{"logger"}; return &v })
	for _, n := range []string{"log.Print", "log.Printf", "log.Println"} {
		def(n, constF(nil))
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln"} {
		def(n, func(m *Machine, a []any) any { panic(pathEnd{kind: "exit", code: 1, msg: n}) })
	}
	def("os.Exit", func(m *Machine, a []any) any {
		panic(pathEnd{kind: "exit", code: m.conc(a[0]), msg: "os.Exit"})
	})
	def("runtime.Callers", constF(ci(0)))
}

func constF(v any) func(m *Machine, args []any) any {
	return func(m *Machine, args []any) any { return v }
}

type lockKey struct{ p *any }

func (k lockKey) str() string { return fmt.Sprintf("%p", k.p) }

func (m *Machine) lockState(k lockKey) int {
	n, _ := m.state[k.str()].(int)
	return n
}

func (m *Machine) bytesEq(a, b any) *Term {
	x, y := m.toBytes(a), m.toBytes(b)
	if len(x) != len(y) {
		return tFalse
	}
	return m.matchAt(x, y, 0)
}

func (m *Machine) assumeASCII(t *Term) { m.assume(m.tp.Ult(t, iconst(8, 0x80))) }

func (m *Machine) split(s, sep []*Term, n int) any {
	var r SliceV
	for n < 0 || len(r) < n-1 {
		i := m.indexOf(s, sep)
		if i < 0 {
			break
		}
		r = append(r, mkStr(s[:i:i]))
		s = s[i+len(sep):]
	}
	return append(r, mkStr(s))
}

func (m *Machine) replace(s, old, nw any, n int) any {
	ob := m.strBytes(old)
	if len(ob) == 0 {
		return nil
	}
	if m.numFree(s, old) {
		return s
	}
	sb, nb := m.strBytes(s), m.strBytes(nw)
	var out []*Term
	for n != 0 {
		i := m.indexOf(sb, ob)
		if i < 0 {
			break
		}
		out = append(append(out, sb[:i]...), nb...)
		sb = sb[i+len(ob):]
		n--
	}
	return mkStr(append(out, sb...))
}

func swapper(m *Machine, a []any) any {
	i := a[0].(Iface)
	s := i.v.(SliceV)
	return &NativeFn{name: "swapper", f: func(m *Machine, args []any) any {
		x, y := m.conc(args[0]), m.conc(args[1])
		s[x], s[y] = s[y], s[x]
		return nil
	}}
}

func (m *Machine) errIs(err, target Iface) bool {
	for err.t != nil {
		if target.t != nil && sameType(err.t, target.t) && m.branch(m.eq(err, target)) {
			return true
		}
		if r, ok := m.callMethod(err, "Is", target); ok {
			if b, ok := r.(*Term); ok && m.branch(b) {
				return true
			}
		}
		n, ok := m.callMethod(err, "Unwrap")
		if !ok {
			return false
		}
		e, ok := n.(Iface)
		if !ok {
			return false
		}
		err = e
	}
	return target.t == nil
}
