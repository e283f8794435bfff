package main

import (
	"fmt"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"io/fs"
	"path"
	"reflect"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Directories, file information and package loading over the in-memory file system.

func (m *Machine) cwd() string {
	if d, ok := m.state["cwd"].(string); ok {
		return d
	}
	return "/work"
}

func (m *Machine) absPath(name string) string {
	if !strings.HasPrefix(name, "/") {
		name = m.cwd() + "/" + name
	}
	return path.Clean(name)
}

// entries lists the names in a directory; ok is false if there is no such directory.
func (m *Machine) entries(dir string) (names []string, ok bool) {
	dir = m.absPath(dir)
	seen := map[string]bool{}
	for f := range m.fs {
		if rest, in := strings.CutPrefix(f, strings.TrimSuffix(dir, "/")+"/"); in {
			ok = true
			n, _, _ := strings.Cut(rest, "/")
			if n != "" && !seen[n] {
				seen[n] = true
				names = append(names, n)
			}
		}
	}
	sort.Strings(names)
	return names, ok || dir == "/" || dir == m.cwd()
}

// finfo is the native file information of an entry.
type finfo struct {
	name string
	size int64
	dir  bool
}

func (f finfo) Name() string { return f.name }
func (f finfo) Size() int64  { return f.size }
func (f finfo) Mode() fs.FileMode {
	if f.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}
func (f finfo) ModTime() time.Time { return time.Time{} }
func (f finfo) IsDir() bool        { return f.dir }
func (f finfo) Sys() any           { return nil }

func (m *Machine) statFile(name string) (finfo, bool) {
	p := m.absPath(name)
	if f, ok := m.fs[p]; ok {
		return finfo{name: path.Base(p), size: int64(m.strLenConc(f.data))}, true
	}
	if _, ok := m.entries(p); ok {
		return finfo{name: path.Base(p), dir: true}, true
	}
	return finfo{}, false
}

func (m *Machine) strLenConc(v any) int { return len(m.strBytes(v)) }

var fileInfoT *nativeType

// fileText is the concrete content of a file.
func (m *Machine) fileText(f *vfile) string { return m.cstr(f.data) }

// fs2 is the native view of the file system.
func (m *Machine) buildContext(tags []string) *build.Context {
	c := build.Default
	c.BuildTags = tags
	c.CgoEnabled = false
	c.JoinPath = path.Join
	c.IsAbsPath = path.IsAbs
	c.HasSubdir = func(root, dir string) (string, bool) { return "", false }
	c.IsDir = func(p string) bool { f, ok := m.statFile(p); return ok && f.dir }
	c.ReadDir = func(dir string) ([]fs.FileInfo, error) {
		names, ok := m.entries(dir)
		if !ok {
			return nil, fs.ErrNotExist
		}
		var r []fs.FileInfo
		for _, n := range names {
			f, _ := m.statFile(dir + "/" + n)
			r = append(r, f)
		}
		return r, nil
	}
	c.OpenFile = func(p string) (io.ReadCloser, error) {
		f, ok := m.fs[m.absPath(p)]
		if !ok {
			return nil, fs.ErrNotExist
		}
		return io.NopCloser(strings.NewReader(m.fileText(f))), nil
	}
	return &c
}

func fieldNo(t types.Type, name string) int {
	st := deref(t).Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	panic(unsupported("no field " + name + " in " + t.String()))
}

func (m *Machine) strSlice(v any) []string {
	var r []string
	for _, s := range v.(SliceV) {
		r = append(r, m.cstr(s))
	}
	return r
}

func init() {
	fm := map[string]func(m *Machine, args []any) any{}
	for n, f := range map[string]func(m *Machine, f finfo) any{
		"Name":  func(m *Machine, f finfo) any { return f.name },
		"Size":  func(m *Machine, f finfo) any { return iconst(64, uint64(f.size)) },
		"IsDir": func(m *Machine, f finfo) any { return bconst(f.dir) },
		"Mode":  func(m *Machine, f finfo) any { return iconst(32, uint64(f.Mode())) },
		"Sys":   func(m *Machine, f finfo) any { return Iface{} },
	} {
		fm[n] = func(m *Machine, args []any) any { return f(m, args[0].(Native).v.(finfo)) }
	}
	fileInfoT = &nativeType{name: "*os.fileStat", methods: fm}
	stat := func(op string) func(m *Machine, a []any) any {
		return func(m *Machine, a []any) any {
			name := m.cstr(a[0])
			f, ok := m.statFile(name)
			if !ok {
				return Tuple{Iface{}, m.pathError(op, name)}
			}
			return Tuple{Iface{t: fileInfoT, v: Native{f}}, Iface{}}
		}
	}
	def("os.Stat", stat("stat"))
	def("os.Lstat", stat("lstat"))
	def("os.IsNotExist", func(m *Machine, a []any) any {
		i := a[0].(Iface)
		return bconst(i.t != nil && strings.HasSuffix(i.t.String(), "io/fs.PathError"))
	})
	def("os.Getwd", func(m *Machine, a []any) any { return Tuple{m.cwd(), Iface{}} })
	def("path/filepath.readDirNames", func(m *Machine, a []any) any {
		names, ok := m.entries(m.cstr(a[0]))
		if !ok {
			return Tuple{SliceV(nil), m.pathError("open", a[0])}
		}
		r := SliceV{}
		for _, n := range names {
			r = append(r, n)
		}
		return Tuple{r, Iface{}}
	})
	def("(*go/build.Context).ImportDir", func(m *Machine, a []any) any {
		cp := a[0].(*any)
		ctxT := m.w.Types["go/build"].Scope().Lookup("Context").Type()
		c := m.force(cp).(Struct)
		tags := m.strSlice(c[fieldNo(ctxT, "BuildTags")])
		p, err := m.buildContext(tags).ImportDir(m.cstr(a[1]), build.ImportMode(m.conc(a[2])))
		r := m.importPtrTo(p)
		if ng, ok := err.(*build.NoGoError); ok {
			return Tuple{r, m.importIface(reflect.ValueOf(ng))}
		}
		if err != nil {
			return Tuple{r, m.mkError(err.Error())}
		}
		return Tuple{r, Iface{}}
	})
	def("golang.org/x/tools/go/packages.Load", func(m *Machine, a []any) any {
		m.yieldPoint("packages.Load")
		var names, srcs []string
		var missing []string
		cfgT := m.w.Types["golang.org/x/tools/go/packages"].Scope().Lookup("Config").Type()
		cfg := m.force(a[0].(*any)).(Struct)
		if n := len(cfg[fieldNo(cfgT, "BuildFlags")].(SliceV)); n > 0 {
			panic(unsupported("packages.Load with build flags"))
		}
		for _, n := range m.strSlice(a[1]) {
			f, ok := m.fs[m.absPath(n)]
			if !ok {
				missing = append(missing, n)
				continue
			}
			names = append(names, m.absPath(n))
			srcs = append(srcs, m.fileText(f))
		}
		if len(missing) > 0 || len(names) == 0 {
			panic(unsupported(fmt.Sprintf("packages.Load of %v", missing)))
		}
		load := func(p string, names, srcs []string) any {
			e := m.x.templateErrs(p, names, srcs)
			if e.err != nil {
				panic(unsupported("packages.Load: " + e.err.Error()))
			}
			return m.importPtrTo(e.pkg)
		}
		// test files go to an extended variant of the package and to an external test package
		pkgName := func(src string) string {
			f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, parser.PackageClauseOnly)
			if err != nil {
				panic(unsupported("packages.Load: " + err.Error()))
			}
			return f.Name.Name
		}
		var r SliceV
		var n0, s0, n1, s1, n2, s2 []string
		for i, n := range names {
			switch {
			case !strings.HasSuffix(n, "_test.go"):
				n0, s0 = append(n0, n), append(s0, srcs[i])
			case strings.HasSuffix(pkgName(srcs[i]), "_test"):
				n2, s2 = append(n2, n), append(s2, srcs[i])
			default:
				n1, s1 = append(n1, n), append(s1, srcs[i])
			}
		}
		if len(n1)+len(n2) > 0 && !cfg[fieldNo(cfgT, "Tests")].(*Term).isTrue() {
			panic(unsupported("packages.Load of test files without tests"))
		}
		if len(n0) > 0 {
			r = append(r, load("command-line-arguments", n0, s0))
		}
		if len(n1) > 0 {
			r = append(r, load("command-line-arguments", append(append([]string{}, n0...), n1...), append(append([]string{}, s0...), s1...)))
		}
		if len(n2) > 0 {
			r = append(r, load("command-line-arguments_test", n2, s2))
		}
		m.yieldPoint("packages.Load")
		return Tuple{r, Iface{}}
	})
	def("(*go/build.NoGoError).Error", func(m *Machine, a []any) any {
		return m.concat("no buildable Go source files in ", m.force(a[0].(*any)).(Struct)[0])
	})
	d := func(name string, f func(m *Machine, a []any) any) { def(symName(name), f) }
	d("Dir", func(m *Machine, a []any) any {
		k, _ := m.state["dirs"].(int)
		m.state["dirs"] = k + 1
		dir := fmt.Sprintf("/verif-dir/%d", k)
		for _, f := range a[0].(SliceV) {
			m.fs[path.Clean(dir+"/"+m.cstr(f.(Struct)[0]))] = &vfile{data: f.(Struct)[1]}
		}
		return dir
	})
	d("Chdir", func(m *Machine, a []any) any { m.state["cwd"] = m.absPath(m.cstr(a[0])); return nil })
	d("ReadFile", func(m *Machine, a []any) any {
		f, ok := m.fs[m.absPath(m.cstr(a[0]))]
		if !ok {
			return Tuple{"", tFalse}
		}
		return Tuple{f.data, tTrue}
	})
	d("Command", func(m *Machine, a []any) any {
		// a process of its own: fresh package variables
		globals, inited := m.globals, m.inited
		m.globals, m.inited = map[*ssa.Global]*any{}, map[*ssa.Package]int{}
		defer func() { m.globals, m.inited = globals, inited }()
		m.state["stdout"] = nil
		args := SliceV{"gosec"}
		args = append(args, a[1].(SliceV)...)
		p := m.w.Pkgs["os"]
		m.initPkg(p)
		*m.global(p.Members["Args"].(*ssa.Global)) = args
		t := m.catchExit(a[0])
		out := m.state["stdout"]
		if out == nil {
			out = ""
		}
		return Tuple{t[0], t[1], out}
	})
}
