package main

import (
	"fmt"
	"go/types"
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Files, environment and standard streams: a per-path in-memory file system.

func (m *Machine) pathError(op string, name any) Iface {
	p := m.w.Types["io/fs"]
	t := types.NewPointer(p.Scope().Lookup("PathError").Type())
	var v any = Struct{op, name, m.mkError("no such file or directory")}
	return Iface{t: canonPtr(t), v: &v}
}

func (m *Machine) fileOf(v any) *vfd {
	p, ok := v.(*any)
	if !ok || p == nil {
		return nil
	}
	if n, ok := (*p).(Native); ok {
		if fd, ok := n.v.(*vfd); ok {
			return fd
		}
	}
	return nil
}

func (m *Machine) ioEOF() Iface {
	return m.load(m.global(m.w.Pkgs["io"].Members["EOF"].(*ssa.Global))).(Iface)
}

func bytesVal(b []*Term) SliceV {
	r := make(SliceV, len(b))
	for i := range b {
		r[i] = b[i]
	}
	return r
}

func init() {
	open := func(m *Machine, a []any) any {
		name := m.cstr(a[0])
		f, ok := m.fs[m.absPath(name)]
		if !ok {
			if _, dir := m.entries(name); !dir {
				return Tuple{(*any)(nil), m.pathError("open", name)}
			}
			f = &vfile{data: "", dir: true}
		}
		var v any = Native{&vfd{name: name, f: f}}
		return Tuple{&v, Iface{}}
	}
	// create opens an empty file in a directory that exists; /dev/full can be opened, but takes nothing.
	create := func(m *Machine, a []any) any {
		name := m.cstr(a[0])
		abs := m.absPath(name)
		f := &vfile{data: ""}
		if abs == "/dev/full" {
			f.full = true
		} else {
			if _, dir := m.entries(name); dir {
				return Tuple{(*any)(nil), m.pathError("open", name)}
			}
			if _, dir := m.entries(path.Dir(abs)); !dir {
				return Tuple{(*any)(nil), m.pathError("open", name)}
			}
			m.fs[abs] = f
		}
		var v any = Native{&vfd{name: name, f: f}}
		return Tuple{&v, Iface{}}
	}
	def("os.Open", open)
	def("os.OpenFile", func(m *Machine, a []any) any {
		if m.conc(a[1])&3 == 0 {
			return open(m, a)
		}
		return create(m, a)
	})
	def("os.Create", create)
	def("flag.PrintDefaults", constF(nil)) // standard error is not observed
	def("os.ReadFile", func(m *Machine, a []any) any {
		name := m.cstr(a[0])
		f, ok := m.fs[m.absPath(name)]
		if !ok {
			return Tuple{SliceV(nil), m.pathError("open", name)}
		}
		return Tuple{bytesVal(m.strBytes(f.data)), Iface{}}
	})
	// Commands: only the query for the version of the main module, which is that of the code under test.
	def("os/exec.Command", func(m *Machine, a []any) any {
		args := []string{m.cstr(a[0])}
		for _, x := range a[1].(SliceV) {
			args = append(args, m.cstr(x))
		}
		if strings.Join(args, " ") != "go list -m -json" {
			panic(unsupported("command " + strings.Join(args, " ")))
		}
		var v any = Native{"go list -m -json"}
		return &v
	})
	output := func(m *Machine, a []any) any {
		out := "{\"Path\":\"github.com/securego/gosec/v2\",\"Main\":true,\"GoVersion\":\"1.23.0\"}\n"
		return Tuple{bytesVal(m.strBytes(out)), Iface{}}
	}
	def("(*os/exec.Cmd).CombinedOutput", output)
	def("(*os/exec.Cmd).Output", output)
	def("os.Getenv", func(m *Machine, a []any) any {
		if v, ok := m.state["env:"+m.cstr(a[0])]; ok {
			return v
		}
		return ""
	})
	def("os.LookupEnv", func(m *Machine, a []any) any {
		if v, ok := m.state["env:"+m.cstr(a[0])]; ok {
			return Tuple{v, tTrue}
		}
		return Tuple{"", tFalse}
	})
	def("(*os.File).Close", constF(Iface{}))
	def("(*os.File).Name", func(m *Machine, a []any) any { return m.fileOf(a[0]).name })
	def("(*os.File).Fd", constF(iconst(64, 3)))
	def("(*os.File).Read", func(m *Machine, a []any) any {
		fd := m.fileOf(a[0])
		if fd == nil || fd.f == nil {
			return Tuple{ci(0), m.mkError("invalid argument")}
		}
		if fd.f.dir {
			return Tuple{ci(0), m.mkError("is a directory")}
		}
		b := m.strBytes(fd.f.data)
		dst := a[1].(SliceV)
		if fd.pos >= len(b) {
			return Tuple{ci(0), m.ioEOF()}
		}
		n := 0
		for n < len(dst) && fd.pos < len(b) {
			dst[n] = b[fd.pos]
			n++
			fd.pos++
		}
		return Tuple{ci(n), Iface{}}
	})
	wr := func(m *Machine, fdv any, s any) any {
		fd := m.fileOf(fdv)
		if fd == nil {
			return Tuple{ci(0), m.mkError("invalid argument")}
		}
		if fd.f != nil && fd.f.full && m.strLen(s) > 0 {
			return Tuple{ci(0), m.mkError("no space left on device")}
		}
		if fd.f != nil {
			fd.f.data = m.concat(fd.f.data, s)
		} else {
			if fd.name == "Stdout" {
				m.stdout(s)
			}
		}
		return Tuple{ci(m.strLen(s)), Iface{}}
	}
	def("(*os.File).Write", func(m *Machine, a []any) any { return wr(m, a[0], mkStr(m.toBytes(a[1]))) })
	def("(*os.File).WriteString", func(m *Machine, a []any) any { return wr(m, a[0], a[1]) })
	d := func(name string, f func(m *Machine, a []any) any) { def(symName(name), f) }
	d("File", func(m *Machine, a []any) any {
		n := fmt.Sprintf("/verif-files/%d/%s", len(m.fs), m.cstr(a[0]))
		m.fs[n] = &vfile{data: a[1]}
		return n
	})
	d("Setenv", func(m *Machine, a []any) any { m.state["env:"+m.cstr(a[0])] = a[1]; return nil })
}
