//verif:pkg verifh
//verif:prop C28
package verifh

import (
	"strings"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/verifsym"
)

const vErrDecls = `package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
)

type mine struct{}

func (mine) Error() string { return "" }

type alias = error

type own interface{ error }

type S struct {
	buf  bytes.Buffer
	ptr  *strings.Builder
	f    func() error
	many []bytes.Buffer
}

func (s *S) run() error       { return nil }
func (s S) quiet() int        { return 1 }
func buffer() *bytes.Buffer   { return nil }
func builder() strings.Builder { return strings.Builder{} }

func ee() error                    { return nil }
func ie() (int, error)             { return 1, nil }
func ei() (error, int)             { return nil, 1 }
func tri() (int, int, error)       { return 1, 1, nil }
func two() (error, error)          { return nil, nil }
func mid() (int, error, alias)     { return 1, nil, nil }
func i() int                       { return 1 }
func ii() (int, int)               { return 1, 1 }
func n()                           {}
func a() alias                     { return nil }
func ia() (int, alias)             { return 1, nil }
func m() mine                      { return mine{} }
func o() own                       { return nil }
func g[T any](t T) (T, error)      { return t, nil }

var _, _, _, _ = errors.New, fmt.Print, io.EOF, os.Args

var all bytes.Buffer

`

// vDropped has statements that call a function for its effects; bad says whether they drop an error. The name nnnn is written where a variable is used that other files declare.
var vDropped = []struct {
	stmt string
	bad  bool
}{
	{"ee()", true},
	{"ie()", true},
	{"ei()", true},
	{"tri()", true},
	{"two()", true},
	{"mid()", true},
	{"i()", false},
	{"ii()", false},
	{"n()", false},
	{"a()", true},
	{"ia()", true},
	{"m()", false},
	{"o()", false},
	{"g(1)", true},
	{"g[string](\"\")", true},
	{"s.run()", true},
	{"s.quiet()", false},
	{"s.f()", true},
	{"(ee())", true},
	{"(ee)()", true},
	{"func() error { return nil }()", true},
	{"func() { _ = 1 }()", false},
	{"if err := ee(); err != nil {\nreturn\n}", false},
	{"os.Remove(\"x\")", true},
	{"os.Unsetenv(\"x\")", false},
	{"fmt.Println(1)", false},
	{"fmt.Sscan(\"\")", true},
	{"fmt.Fprintf(io.Discard, \"\")", false},
	{"io.WriteString(io.Discard, \"\")", true},
	{"var b bytes.Buffer\nb.WriteString(\"\")", false},
	{"b := &bytes.Buffer{}\nb.WriteByte(1)", false},
	{"var b strings.Builder\n(&b).WriteString(\"\")", false},
	{"var b bytes.Buffer\nb.ReadByte()", true},
	{"s.buf.Write(nil)", false},
	{"s.ptr.WriteRune('a')", false},
	{"s.many[0].Write(nil)", false},
	{"buffer().Write(nil)", false},
	{"new(bytes.Buffer).Write(nil)", false},
	{"all.Write(nil)", false},
	{"other.Write(nil)", false},
	{"others[1].WriteByte(1)", false},
	{"otherFile.Write(nil)", true},
	{"(*s.ptr).WriteString(\"\")", false},
	{"any(&all).(*bytes.Buffer).Write(nil)", false},
	{"var w io.Writer = &all\nw.Write(nil)", true},
	{"func(b *bytes.Buffer) { b.Write(nil) }(nil)", false},
	{"go ee()", false},
	{"defer ee()", false},
}

// vAssigned has assignments; bad says whether they give up an error.
var vAssigned = []struct {
	stmt string
	bad  bool
}{
	{"_ = ee()", true},
	{"err := ee()\n_ = err", false},
	{"_, _ = ie()", true},
	{"x, _ := ie()\n_ = x", true},
	{"_, err := ie()\n_ = err", false},
	{"_, x := ei()\n_ = x", true},
	{"err, _ := ei()\n_ = err", false},
	{"_ = i()", false},
	{"_, _ = ii()", false},
	{"x, y, _ := tri()\n_, _ = x, y", true},
	{"_, _, err := tri()\n_ = err", false},
	{"x, _ := 1, ee()\n_ = x", true},
	{"_, err := 1, ee()\n_ = err", false},
	{"_, err := i(), ee()\n_ = err", false},
	{"x, _ := i(), ee()\n_ = x", true},
	{"_, _ = i(), ee()", true},
	{"err, _ := two()\n_ = err", true},
	{"_, err := two()\n_ = err", true},
	{"err, more := two()\n_, _ = err, more", false},
	{"_, _ = two()", true},
	{"_, err, more := mid()\n_, _ = err, more", false},
	{"_, err, _ := mid()\n_ = err", true},
	{"x, _, err := mid()\n_, _ = x, err", true},
	{"err, _ := ee(), i()\n_ = err", false},
	{"_, err := ee(), ee()\n_ = err", true},
	{"err, _ := ee(), ee()\n_ = err", true},
	{"x, err := ee(), ee()\n_, _ = x, err", false},
	{"_ = (ee())", true},
	{"_ = a()", true},
	{"_, _ = ia()", true},
	{"_ = m()", false},
	{"_ = os.Remove(\"x\")", true},
	{"_ = os.Unsetenv(\"x\")", false},
	{"_, _ = fmt.Println()", false},
	{"var b bytes.Buffer\n_, _ = b.WriteString(\"\")", false},
	{"_, err := fmt.Println()\n_ = err", false},
	{"var x [2]error\nx[0], x[1] = ee(), ee()\n_ = x", false},
	{"var x [2]error\nx[0], _ = ee(), ee()\n_ = x", true},
	{"_ = any(nil).(error)", false},
	{"_ = errors.New(\"x\")", true},
}

func vErrProgram(conf gosec.Config, stmt string) []string {
	src := vErrDecls + "func f(s *S) {\n" + stmt + "\n}\n"
	p := verifsym.LoadFiles("example.com/work", []verifsym.Src{{Name: "a.go", Text: src}, {Name: "b.go", Text: "package main\n\nimport (\n\t\"bytes\"\n\t\"os\"\n)\n\nvar other bytes.Buffer\n\nvar others [2]*bytes.Buffer\n\nvar otherFile *os.File\n"}}, nil)
	var lines []string
	for _, i := range vScan(vAnalyzer(conf, "G104"), p) {
		verifsym.Assert(strings.HasSuffix(i.File, "/a.go"), "found in the file with the statement")
		lines = append(lines, i.Line)
	}
	return lines
}

func vAudit(conf gosec.Config, on bool) {
	if on {
		conf.SetGlobal(gosec.Audit, "true")
	}
}

// vExempt configures an arbitrary function of the scanned package as exempt and tells whether a statement is, because it calls that one.
func vExempt(conf gosec.Config, stmt string) bool {
	name := verifsym.Str("exempt", 2, "a-zA-Z0-9_")
	conf.Set("G104", map[string]any{"main": []any{name}})
	exempt := false
	for _, fn := range []string{"ee", "ie", "ei", "ia"} {
		called := strings.Contains(stmt, fn+"()") || strings.Contains(stmt, "("+fn+")()")
		exempt = verifsym.Or(exempt, verifsym.And(called, verifsym.StrEq(name, fn)))
	}
	return exempt
}

// Verif_C28_dropped: a call statement is reported exactly when it drops an error and its function is not exempt.
//
//verif:bounds 46 statements: all numbers and kinds of results, functions, methods, generic functions and literals, exempt and other methods on every form of receiver; an arbitrary two-character name of an exempt function of the scanned package; with and without the audit mode
func Verif_C28_dropped() {
	d := vDropped[verifsym.Choose("statement", len(vDropped))]
	conf := gosec.NewConfig()
	vAudit(conf, verifsym.Bool("audit"))
	exempt := vExempt(conf, d.stmt)
	got := vErrProgram(conf, d.stmt)
	want := verifsym.Ite(verifsym.And(d.bad, !exempt), 1, 0)
	verifsym.Assert(len(got) == want, "reported exactly when an error is dropped: "+d.stmt)
}

// Verif_C28_assigned: in audit mode an assignment is reported exactly when it gives up an error, and otherwise never.
//
//verif:bounds 33 assignments of results, one and several on either side; an arbitrary two-character name of an exempt function of the scanned package; with and without the audit mode
func Verif_C28_assigned() {
	d := vAssigned[verifsym.Choose("statement", len(vAssigned))]
	audit := verifsym.Bool("audit")
	conf := gosec.NewConfig()
	vAudit(conf, audit)
	exempt := vExempt(conf, d.stmt)
	got := vErrProgram(conf, d.stmt)
	want := verifsym.Ite(verifsym.And(d.bad, audit, !exempt), 1, 0)
	verifsym.Assert(len(got) == want, "reported exactly when an error is given up: "+d.stmt)
}

// Verif_C28_exempt: the configured exemptions apply to the functions they name, and to no others.
//
//verif:bounds every two-character function name in a configured exemption, with the package's name, its path or the type as the selector; five calls
func Verif_C28_exempt() {
	calls := []struct{ stmt, fn, short, long string }{
		{"other.Do()", "Do", "other", "example.com/other"},
		{"os.Remove(\"x\")", "Remove", "os", "os"},
		{"os.Chdir(\"x\")", "Chdir", "os", "os"},
		{"var s os.File\ns.Sync()", "Sync", "os.File", "*os.File"},
		{"s := &os.File{}\ns.Sync()", "Sync", "os.File", "*os.File"},
		{"io.WriteString(nil, \"\")", "WriteString", "io", "io"},
		{"x.Rename(\"\", \"\")", "Rename", "os", "os"},
	}
	c := calls[1+verifsym.Choose("call", len(calls)-1)]
	k := verifsym.Choose("selector", 3)
	selector := []string{c.short, c.long, "x"}[k]
	fn := c.fn
	hit := true
	if verifsym.Bool("arbitrary") {
		// the name differs in two characters
		tail := verifsym.Str("name", 2, "a-zA-Z")
		hit = verifsym.StrEq(tail, fn[len(fn)-2:])
		fn = fn[:len(fn)-2] + tail
	}
	if k == 2 || selector == "*os.File" && strings.HasPrefix(c.stmt, "var") {
		hit = false
	}
	conf := gosec.NewConfig()
	conf.Set("G104", map[string]any{selector: []any{"Other", fn}, "y": []any{c.fn}})
	src := "package main\n\nimport (\n\t\"io\"\n\t\"os\"\n\tx \"os\"\n)\n\nvar _, _, _ = io.EOF, os.Args, x.Args\n\nfunc f() {\n" + c.stmt + "\n}\n"
	p := verifsym.LoadProgram(src, nil)
	got := len(vScan(vAnalyzer(conf, "G104"), p))
	verifsym.Assert(got == verifsym.Ite(hit, 0, 1), "exempt exactly when named")
}
