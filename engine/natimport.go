package main

import (
	"errors"
	"fmt"
	"go/ast"
	"go/build"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/scanner"
	"go/token"
	"go/types"
	"math/big"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unsafe"

	"golang.org/x/tools/go/analysis"
	"golang.org/x/tools/go/analysis/passes/buildssa"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Native object graphs (parsed, type-checked and SSA-built template programs) are imported into the symbolic heap on
// demand: a pointer becomes a slot that is converted when it is first dereferenced.

type natKey struct {
	p unsafe.Pointer
	t reflect.Type
}

type natRef struct{ rv reflect.Value }

type lazyNat struct {
	rv reflect.Value
	t  types.Type
}

// hole is a literal of a template whose value is symbolic.
type hole struct {
	text  string // spelling in the template source
	lit   any    // string value replacing the spelling
	isInt bool
	c     int64
	val   *Term  // 64-bit value of an integer hole
	s     string // content of a string hole
	sv    any
}

var rtMu sync.Mutex
var rtCache = map[reflect.Type]types.Type{}

func (m *Machine) typeOfNative(rt reflect.Type) types.Type {
	rtMu.Lock()
	defer rtMu.Unlock()
	return m.typeOfNativeL(rt)
}

func (m *Machine) typeOfNativeL(rt reflect.Type) types.Type {
	if t, ok := rtCache[rt]; ok {
		return t
	}
	var t types.Type
	if rt.Name() != "" && rt.PkgPath() != "" {
		p := m.w.Types[rt.PkgPath()]
		if p == nil {
			return nil
		}
		if o := p.Scope().Lookup(rt.Name()); o != nil {
			t = o.Type()
		}
	} else {
		switch rt.Kind() {
		case reflect.Pointer:
			if e := m.typeOfNativeL(rt.Elem()); e != nil {
				t = canonPtr(types.NewPointer(e))
			}
		case reflect.Slice:
			if e := m.typeOfNativeL(rt.Elem()); e != nil {
				t = types.NewSlice(e)
			}
		case reflect.String:
			t = types.Typ[types.String]
		case reflect.Bool:
			t = types.Typ[types.Bool]
		case reflect.Int:
			t = types.Typ[types.Int]
		case reflect.Int64:
			t = types.Typ[types.Int64]
		case reflect.Int32:
			t = types.Typ[types.Int32]
		case reflect.Uint8:
			t = types.Typ[types.Uint8]
		case reflect.Float64:
			t = types.Typ[types.Float64]
		case reflect.Uint64:
			t = types.Typ[types.Uint64]
		case reflect.Interface:
			if rt.NumMethod() == 0 {
				t = types.NewInterfaceType(nil, nil)
			} else if rt == errorType {
				t = types.Universe.Lookup("error").Type()
			}
		case reflect.Map:
			k, e := m.typeOfNativeL(rt.Key()), m.typeOfNativeL(rt.Elem())
			if k != nil && e != nil {
				t = types.NewMap(k, e)
			}
		}
	}
	if t != nil {
		rtCache[rt] = t
	}
	return t
}

func clean(rv reflect.Value) reflect.Value {
	if rv.CanAddr() {
		return reflect.NewAt(rv.Type(), unsafe.Pointer(rv.UnsafeAddr())).Elem()
	}
	return rv
}

// addressable copies a value obtained from an interface into addressable storage.
func addressable(rv reflect.Value) reflect.Value {
	if rv.CanAddr() {
		return clean(rv)
	}
	n := reflect.New(rv.Type()).Elem()
	n.Set(rv)
	return n
}

var regexpT = reflect.TypeOf((*regexp.Regexp)(nil))
var bigIntT = reflect.TypeOf((*big.Int)(nil))

// importValue converts a native value; t is its static type in the loaded program.
func (m *Machine) importValue(rv reflect.Value, t types.Type) any {
	rv = clean(rv)
	switch rv.Kind() {
	case reflect.Bool:
		return bconst(rv.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		w, _, ok := intInfo(t)
		if !ok {
			w = 64
		}
		return iconst(w, uint64(rv.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		w, _, ok := intInfo(t)
		if !ok {
			w = 64
		}
		return iconst(w, rv.Uint())
	case reflect.Float64, reflect.Float32:
		return rv.Float()
	case reflect.Complex128, reflect.Complex64:
		return rv.Complex()
	case reflect.String:
		return rv.String()
	case reflect.Pointer:
		return m.importPtr(rv, t)
	case reflect.Slice:
		if rv.IsNil() {
			return SliceV(nil)
		}
		et := t.Underlying().(*types.Slice).Elem()
		s := make(SliceV, rv.Len())
		for i := range s {
			s[i] = m.importValue(rv.Index(i), et)
		}
		return s
	case reflect.Array:
		et := t.Underlying().(*types.Array).Elem()
		s := make(Array, rv.Len())
		for i := range s {
			s[i] = m.importValue(rv.Index(i), et)
		}
		return s
	case reflect.Struct:
		return m.importStruct(rv, t)
	case reflect.Map:
		return m.importMap(rv, t)
	case reflect.Interface:
		if rv.IsNil() {
			return Iface{}
		}
		return m.importIface(rv.Elem())
	case reflect.Func:
		if rv.IsNil() {
			return nilFunc
		}
		return &NativeFn{name: "imported func", f: func(m *Machine, args []any) any { panic(unsupported("call of imported function value")) }}
	case reflect.Chan:
		return (*ChanV)(nil)
	case reflect.UnsafePointer:
		return UnsafePtr{}
	}
	panic(unsupported("import of " + rv.Type().String()))
}

func (m *Machine) importIface(e reflect.Value) Iface {
	rt := e.Type()
	t := m.typeOfNative(rt)
	if t == nil {
		// a type the program does not know: opaque
		return Iface{t: &nativeType{name: rt.String()}, v: Native{fmt.Sprintf("%p", &rt)}}
	}
	if rt.PkgPath() == "go/constant" || rt.Kind() == reflect.Pointer && rt.Elem().PkgPath() == "go/constant" {
		if v, ok := m.importConst(e, t); ok {
			return Iface{t: t, v: v}
		}
	}
	return Iface{t: t, v: m.importValue(addressable(e), t)}
}

// importConst replaces the constants of holes by their symbolic values.
func (m *Machine) importConst(e reflect.Value, t types.Type) (any, bool) {
	switch e.Type().String() {
	case "constant.int64Val":
		for _, h := range m.holes {
			if h.isInt && h.c == e.Int() {
				return h.val, true
			}
			if h.isInt && h.c == -e.Int() {
				return m.tp.Neg(h.val), true
			}
		}
	case "*constant.stringVal":
		// struct { mu; s string; l, r }
		s := constant.StringVal(toConstant(e))
		sv := m.substContents(s)
		st := zero(deref(t)).(Struct)
		fs := deref(t).Underlying().(*types.Struct)
		for i := 0; i < fs.NumFields(); i++ {
			if fs.Field(i).Name() == "s" {
				st[i] = sv
			}
		}
		var v any = st
		return &v, true
	}
	return nil, false
}

func toConstant(e reflect.Value) constant.Value {
	// e comes from an interface element possibly reached through unexported fields
	p := reflect.New(e.Type())
	p.Elem().Set(cleanCopy(e))
	return p.Elem().Interface().(constant.Value)
}

func cleanCopy(e reflect.Value) reflect.Value {
	if e.CanInterface() {
		return e
	}
	if e.Kind() == reflect.Pointer {
		return reflect.NewAt(e.Type().Elem(), e.UnsafePointer())
	}
	return e
}

func (m *Machine) importPtr(rv reflect.Value, t types.Type) any {
	if rv.IsNil() {
		return (*any)(nil)
	}
	k := natKey{rv.UnsafePointer(), rv.Type()}
	if p, ok := m.natMemo[k]; ok {
		return p
	}
	p := new(any)
	m.natMemo[k] = p
	rv = cleanCopy(rv)
	m.natBack[p] = natRef{rv}
	switch rv.Type() {
	case regexpT:
		*p = Native{rv.Interface().(*regexp.Regexp)}
		return p
	case bigIntT:
		*p = Native{rv.Interface().(*big.Int)}
		return p
	}
	et := deref(t)
	if et == t { // pointer typed through an interface or opaque
		et = m.typeOfNative(rv.Type().Elem())
	}
	if et == nil {
		*p = Native{rv}
		return p
	}
	*p = &lazyNat{rv.Elem(), et}
	return p
}

func (m *Machine) importStruct(rv reflect.Value, t types.Type) any {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(unsupported(fmt.Sprintf("import struct %s as %s", rv.Type(), t)))
	}
	rt := rv.Type()
	if st.NumFields() != rt.NumField() {
		panic(unsupported(fmt.Sprintf("layout of %s differs from %s\n%s", rt, t, m.stack())))
	}
	pkg := rt.PkgPath()
	if pkg == "sync" || pkg == "sync/atomic" && !strings.HasPrefix(rt.Name(), "Pointer") {
		s := zero(t)
		if pkg == "sync/atomic" {
			// typed atomics keep their value in the last field
			l := rt.NumField() - 1
			s.(Struct)[l] = m.importValue(rv.Field(l), st.Field(l).Type())
		}
		return s
	}
	s := make(Struct, st.NumFields())
	for i := range s {
		f := st.Field(i)
		if f.Name() != rt.Field(i).Name {
			panic(unsupported(fmt.Sprintf("field order of %s differs", rt)))
		}
		s[i] = m.importField(rv.Field(i), f.Type())
	}
	if len(m.holes) > 0 && pkg == "go/types" && rt.Name() == "Array" {
		for i := range s {
			if st.Field(i).Name() == "len" {
				for _, h := range m.holes {
					if h.isInt && h.c == rv.Field(i).Int() {
						s[i] = h.val
					}
				}
			}
		}
	}
	if len(m.holes) > 0 && pkg == "go/ast" && rt.Name() == "BasicLit" {
		bl := rv.Addr().Interface().(*ast.BasicLit)
		for _, h := range m.holes {
			if h.text == bl.Value {
				for i := range s {
					if st.Field(i).Name() == "Value" {
						s[i] = h.lit
					}
				}
			}
		}
	}
	if len(m.holes) > 0 && pkg == "go/ast" && rt.Name() == "Comment" {
		c := rv.Addr().Interface().(*ast.Comment)
		if v, ok := m.substHoles(c.Text); ok {
			for i := range s {
				if st.Field(i).Name() == "Text" {
					s[i] = v
				}
			}
		}
	}
	if len(m.holes) > 0 && pkg == "go/ast" && rt.Name() == "Ident" {
		id := rv.Addr().Interface().(*ast.Ident)
		for _, h := range m.holes {
			if h.text == id.Name {
				for i := range s {
					if st.Field(i).Name() == "Name" {
						s[i] = h.lit
					}
				}
			}
		}
	}
	if len(m.holes) > 0 {
		field := identFields[pkg+"."+rt.Name()]
		for i := range s {
			if n := st.Field(i).Name(); n == field && field != "" {
				for _, h := range m.holes {
					if h.text == rv.Field(i).String() {
						s[i] = h.lit
					}
				}
			}
		}
	}
	return s
}

// identFields are the fields that hold the spelling of an identifier.
var identFields = map[string]string{"go/ast.Object": "Name", "go/types.object": "name", "go/types.Package": "name", "golang.org/x/tools/go/packages.Package": "Name"}

func (m *Machine) importField(rv reflect.Value, t types.Type) any {
	rv = clean(rv)
	if rv.Kind() == reflect.Struct && strings.HasPrefix(rv.Type().Name(), "Pointer[") && rv.Type().PkgPath() == "sync/atomic" {
		// atomic.Pointer[T]: { _ [0]*T; _ noCopy; v unsafe.Pointer }
		z := zero(t).(Struct)
		up := rv.Field(rv.NumField() - 1)
		up = clean(up)
		if ptr := up.UnsafePointer(); ptr != nil {
			et := rv.Field(0).Type().Elem() // *T
			z[len(z)-1] = UnsafePtr{m.importPtr(reflect.NewAt(et.Elem(), ptr), types.NewPointer(t.(*types.Named).TypeArgs().At(0)))}
		}
		return z
	}
	return m.importValue(rv, t)
}

type mapOrder struct{ keys []reflect.Value }

var mapOrdMu sync.Mutex
var mapOrd = map[unsafe.Pointer][]reflect.Value{}

// orderedKeys gives the keys of a native map in an order that is stable within the process.
func orderedKeys(rv reflect.Value) []reflect.Value {
	mapOrdMu.Lock()
	defer mapOrdMu.Unlock()
	p := rv.UnsafePointer()
	if k, ok := mapOrd[p]; ok && len(k) == rv.Len() {
		return k
	}
	keys := rv.MapKeys()
	rank := func(v reflect.Value) (int, string) {
		if v.Kind() == reflect.Interface {
			v = v.Elem()
		}
		if v.CanInterface() {
			switch n := v.Interface().(type) {
			case ast.Node:
				if v.Kind() == reflect.Pointer && !v.IsNil() {
					return int(n.Pos())*4096 + int(n.End()-n.Pos())&4095, fmt.Sprintf("%T", n)
				}
			case string:
				return 0, n
			case fmt.Stringer:
				return 0, "" // arbitrary but fixed for this process
			}
		}
		if v.Kind() == reflect.String {
			return 0, v.String()
		}
		return 0, ""
	}
	sort.SliceStable(keys, func(i, j int) bool {
		a, s := rank(keys[i])
		b, t := rank(keys[j])
		if a != b {
			return a < b
		}
		return s < t
	})
	mapOrd[p] = keys
	return keys
}

func (m *Machine) importMap(rv reflect.Value, t types.Type) any {
	if rv.IsNil() {
		return (*MapV)(nil)
	}
	k := natKey{rv.UnsafePointer(), rv.Type()}
	if p, ok := m.natMemo[k]; ok {
		return (*p).(*MapV)
	}
	mv := m.newMap()
	var slot any = mv
	m.natMemo[k] = &slot
	mt := t.Underlying().(*types.Map)
	mv.lazy = func() {
		for _, key := range orderedKeys(rv) {
			kk := m.importValue(addressable(key), mt.Key())
			vv := m.importValue(addressable(rv.MapIndex(key)), mt.Elem())
			m.mapSet(mv, kk, vv)
		}
	}
	return mv
}

// nativeOf maps an imported pointer back to its native object.
func (m *Machine) nativeOf(v any) (any, bool) {
	if i, ok := v.(Iface); ok {
		v = i.v
	}
	p, ok := v.(*any)
	if !ok || p == nil {
		return nil, false
	}
	r, ok := m.natBack[p]
	if !ok {
		return nil, false
	}
	return r.rv.Interface(), true
}

// ---------- template programs ----------

type tmplEntry struct {
	pkg  *packages.Package
	err  error
	errs []error // parse and type errors
	ssa  *buildssa.SSA
}

var srcImp types.Importer
var srcImpMu sync.Mutex
var impFset = token.NewFileSet()

type lockedImporter struct{ program string }

// vendored is the path under which a program of a GOPATH sees a third-party package.
func vendored(program, path string) string {
	switch {
	case program == "gopath/app":
		return "gopath/app/vendor/" + path
	case program == "gopath/nested":
		return "gopath/nested/vendor/lib/vendor/" + path
	case strings.HasPrefix(program, "vendor/"):
		return "vendor/" + path
	}
	return path
}

func (l lockedImporter) Import(path string) (*types.Package, error) {
	srcImpMu.Lock()
	defer srcImpMu.Unlock()
	if srcImp == nil {
		build.Default.CgoEnabled = false
		build.Default.GOROOT = goroot()
		srcImp = importer.ForCompiler(impFset, "source", nil)
	}
	if src, ok := stubPkgs[path]; ok {
		path = vendored(l.program, path)
		if p, ok := stubDone[path]; ok {
			return p, nil
		}
		f, err := parser.ParseFile(impFset, path+"/stub.go", src, 0)
		if err != nil {
			return nil, err
		}
		p, err := (&types.Config{Importer: innerImporter{}}).Check(path, impFset, []*ast.File{f}, nil)
		if err == nil {
			stubDone[path] = p
		}
		return p, err
	}
	return srcImp.Import(path)
}

type innerImporter struct{}

func (innerImporter) Import(path string) (*types.Package, error) { return srcImp.Import(path) }

var stubDone = map[string]*types.Package{}

// stubPkgs are third-party packages some rules know by path (harness/verifsym/stubs.go).
var stubPkgs = map[string]string{}

func loadStubs() error {
	f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(verifDir, "harness/verifsym/stubs.go"), nil, 0)
	if err != nil {
		return err
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if kv, ok := n.(*ast.KeyValueExpr); ok {
			k, _ := strconv.Unquote(kv.Key.(*ast.BasicLit).Value)
			v, _ := strconv.Unquote(kv.Value.(*ast.BasicLit).Value)
			stubPkgs[k] = v
		}
		return true
	})
	return nil
}

func (x *Explorer) template(pkgPath string, names, srcs []string) *tmplEntry {
	e := x.templateErrs(pkgPath, names, srcs)
	if e.err == nil && len(e.errs) > 0 {
		e.err = e.errs[0]
	}
	return e
}

// templateErrs also gives the partial package of files with errors.
func (x *Explorer) templateErrs(pkgPath string, names, srcs []string) *tmplEntry {
	x.natMu.Lock()
	defer x.natMu.Unlock()
	key := strings.Join(append(append([]string{pkgPath}, names...), srcs...), "\x00")
	if e, ok := x.tmplC[key]; ok {
		return e
	}
	e := &tmplEntry{}
	x.tmplC[key] = e
	fset := token.NewFileSet()
	var files []*ast.File
	var perrs []packages.Error
	for i, name := range names {
		f, err := parser.ParseFile(fset, name, srcs[i], parser.ParseComments|parser.AllErrors)
		if err != nil {
			e.errs = append(e.errs, err)
			if l, ok := err.(scanner.ErrorList); ok {
				for _, se := range l {
					perrs = append(perrs, packages.Error{Pos: se.Pos.String(), Msg: se.Msg, Kind: packages.ParseError})
				}
			}
		}
		if f != nil {
			files = append(files, f)
		}
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{},
		Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{}}
	sizes := types.SizesFor("gc", "amd64")
	conf := &types.Config{Importer: lockedImporter{pkgPath}, Sizes: sizes, Error: func(err error) {
		e.errs = append(e.errs, err)
		if te, ok := err.(types.Error); ok {
			perrs = append(perrs, packages.Error{Pos: te.Fset.Position(te.Pos).String(), Msg: te.Msg, Kind: packages.TypeError})
		}
	}}
	tp, _ := conf.Check(pkgPath, fset, files, info)
	if tp == nil {
		e.err = fmt.Errorf("no package: %v", e.errs)
		return e
	}
	if len(perrs) > 0 {
		// what the go command itself says about the package
		perrs = append([]packages.Error{{Msg: "# " + pkgPath, Kind: packages.ListError}}, perrs...)
	}
	e.pkg = &packages.Package{ID: pkgPath, Name: tp.Name(), PkgPath: pkgPath, GoFiles: names, CompiledGoFiles: names,
		Types: tp, Fset: fset, Syntax: files, TypesInfo: info, TypesSizes: sizes, Errors: perrs, IllTyped: len(perrs) > 0}
	return e
}

var errSSAPanic = errors.New("building SSA")

func (x *Explorer) templateSSA(pkg *types.Package) (*buildssa.SSA, error) {
	x.natMu.Lock()
	defer x.natMu.Unlock()
	for _, e := range x.tmplC {
		if e.pkg != nil && e.pkg.Types == pkg {
			if e.ssa == nil {
				p := e.pkg
				pass := &analysis.Pass{Analyzer: buildssa.Analyzer, Fset: p.Fset, Files: p.Syntax, Pkg: p.Types, TypesInfo: p.TypesInfo, TypesSizes: p.TypesSizes}
				var r any
				var err error
				func() {
					defer func() {
						if x := recover(); x != nil {
							err = fmt.Errorf("%w: %v", errSSAPanic, x)
						}
					}()
					r, err = buildssa.Analyzer.Run(pass)
				}()
				if err != nil {
					return nil, err
				}
				e.ssa = r.(*buildssa.SSA)
			}
			return e.ssa, nil
		}
	}
	return nil, fmt.Errorf("no such template")
}

func (m *Machine) importPtrTo(v any) any {
	rv := reflect.ValueOf(v)
	t := m.typeOfNative(rv.Type())
	if t == nil {
		panic(unsupported("type " + rv.Type().String() + " is not part of the loaded program"))
	}
	return m.importPtr(rv, t)
}

// nativeGlobals gives package variables of go/types the identity of the native ones, so that imported graphs agree with
// the interpreted package.
func (m *Machine) nativeGlobals(p *ssa.Package) {
	switch p.Pkg.Path() {
	case "go/types":
		set := func(name string, v any, slicePtr bool) {
			g, ok := p.Members[name].(*ssa.Global)
			if !ok {
				return
			}
			rv := reflect.New(reflect.TypeOf(v)).Elem()
			rv.Set(reflect.ValueOf(v))
			*m.globals[g] = m.importValue(rv, deref(g.Type()))
		}
		setI := func(name string, v any) {
			g, ok := p.Members[name].(*ssa.Global)
			if !ok {
				return
			}
			if _, isI := deref(g.Type()).Underlying().(*types.Interface); isI {
				*m.globals[g] = m.importIface(reflect.ValueOf(v))
			} else {
				rv := reflect.ValueOf(v)
				*m.globals[g] = m.importPtr(rv, deref(g.Type()))
			}
		}
		set("Universe", types.Universe, false)
		set("Unsafe", types.Unsafe, false)
		set("Typ", types.Typ, true)
		setI("universeByte", types.Universe.Lookup("byte").Type())
		setI("universeRune", types.Universe.Lookup("rune").Type())
		setI("universeError", types.Universe.Lookup("error").Type())
		setI("universeComparable", types.Universe.Lookup("comparable"))
		setI("universeAnyAlias", types.Universe.Lookup("any"))
	case "go/build":
		if g, ok := p.Members["Default"].(*ssa.Global); ok {
			*m.globals[g] = m.importValue(reflect.ValueOf(&build.Default).Elem(), deref(g.Type()))
		}
	case "os":
		if g, ok := p.Members["Args"].(*ssa.Global); ok {
			*m.globals[g] = SliceV{"gosec"}
		}
		for _, n := range []string{"Stdout", "Stderr", "Stdin"} {
			if g, ok := p.Members[n].(*ssa.Global); ok {
				var v any = Native{&vfd{name: n}}
				*m.globals[g] = &v
			}
		}
	case "golang.org/x/tools/go/analysis/passes/buildssa":
	}
}

// skipInit lists packages whose variables are modelled or irrelevant.
func skipInit(path string) bool {
	if strings.HasPrefix(path, "github.com/ccojocar/zxcvbn-go") {
		return true
	}
	switch path {
	case "os", "reflect", "runtime", "syscall", "go/build", "time", "net", "sync", "unsafe", "internal/godebug", "internal/cpu", "internal/bytealg", "regexp/syntax", "crypto/rand", "net/http", "encoding/json", "text/template", "html/template", "log/slog", "internal/poll", "os/exec":
		return true
	}
	return false
}

func init() {
	def("golang.org/x/tools/go/analysis/passes/buildssa.run", func(m *Machine, a []any) any {
		pass := m.force(a[0].(*any)).(Struct)
		pt := m.w.Types["golang.org/x/tools/go/analysis"].Scope().Lookup("Pass").Type().Underlying().(*types.Struct)
		for i := range pass {
			if pt.Field(i).Name() == "Pkg" {
				n, ok := m.nativeOf(pass[i])
				if !ok {
					panic(unsupported("buildssa on a package that is not a template"))
				}
				r, err := m.x.templateSSA(n.(*types.Package))
				if errors.Is(err, errSSAPanic) {
					m.rtPanic(err.Error())
				}
				if err != nil {
					return Tuple{Iface{}, m.mkError(err.Error())}
				}
				rv := reflect.ValueOf(r)
				return Tuple{m.importIface(rv), Iface{}}
			}
		}
		panic(unsupported("buildssa pass"))
	})
	_ = strconv.Itoa
}

// substContents replaces the contents of string holes that a constant is composed of.
func (m *Machine) substContents(s string) any {
	for _, h := range m.holes {
		if !h.isInt && h.s == s {
			return h.sv
		}
	}
	var r any = ""
	for {
		at, which := -1, (*hole)(nil)
		for _, h := range m.holes {
			// Short contents could be there by chance.
			if h.isInt || len(h.s) < 4 {
				continue
			}
			if k := strings.Index(s, h.s); k >= 0 && (at < 0 || k < at) {
				at, which = k, h
			}
		}
		if at < 0 {
			return m.concat(r, s)
		}
		r = m.concat(r, m.concat(s[:at], which.sv))
		s = s[at+len(which.s):]
	}
}

// substHoles replaces the holes that occur in a text.
func (m *Machine) substHoles(text string) (any, bool) {
	var r any = ""
	found := false
	for {
		at, which := -1, (*hole)(nil)
		for _, h := range m.holes {
			if k := strings.Index(text, h.text); k >= 0 && (at < 0 || k < at) {
				at, which = k, h
			}
		}
		if at < 0 {
			return m.concat(r, text), found
		}
		found = true
		r = m.concat(r, m.concat(text[:at], which.lit))
		text = text[at+len(which.text):]
	}
}
