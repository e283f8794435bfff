//verif:pkg verifh
//verif:prop C31
package verifh

import (
	"strconv"
	"strings"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/verifsym"
)

// vWay is a way of writing a string: EXPR stands for it where decl is in the file, other in another file, and stmt in front of the use.
type vWay struct {
	decl, other, stmt, expr string
	variable                bool
}

// vWays write the text whose halves are "lit0A" and "lit0B" and which is "lit00" as a whole. BAD is a text with another meaning.
var vWays = []vWay{
	{expr: `"lit00"`},
	{expr: "`lit00`"},
	{expr: `("lit00")`},
	{expr: `"lit0A" + "lit0B"`},
	{expr: `("lit0A" + ("lit0B"))`},
	{stmt: `const ccc = "lit00"`, expr: "ccc"},
	{decl: `const ccc = "lit00"`, expr: "ccc"},
	{other: `const ccc = "lit00"`, expr: "ccc"},
	{other: `const ccc = "lit0A"`, expr: `ccc + "lit0B"`},
	{decl: `const bbb, ccc = "BAD", "lit00"`, expr: "ccc"},
	{decl: `const ccc = "BAD"`, stmt: `const ccc = "lit00"`, expr: "ccc"},
	{decl: `type txt string` + "\n" + `const ccc txt = "lit00"`, expr: "string(ccc)"},
	{stmt: `vvv := "lit00"`, expr: "vvv", variable: true},
	{stmt: `var vvv = "lit00"`, expr: "(vvv)", variable: true},
	{stmt: `bbb, vvv := "BAD", "lit00"` + "\nuse(bbb)", expr: "vvv", variable: true},
	{stmt: `vvv, bbb := "lit00", "BAD"` + "\nuse(bbb)", expr: "vvv", variable: true},
	{decl: `var vvv, bbb = "lit00", "BAD"`, expr: "vvv", variable: true},
	{decl: `var bbb, vvv string = "BAD", "lit0A" + "lit0B"`, expr: "vvv", variable: true},
}

// vWriting is a program with the given imports and statements; EXPR is the text s.
func vWriting(rule string, conf gosec.Config, imports, body, bad, s string, cut int, w vWay) int {
	imps := "import (\n"
	for _, i := range strings.Fields(imports) {
		imps += "\t" + strings.ReplaceAll(i, "=", " ") + "\n"
	}
	text := func(t string) string { return strings.ReplaceAll(t, "BAD", bad) }
	src := "package main\n\n" + imps + ")\n\n" + text(w.decl) + "\n\nfunc use(...any) {}\n\nfunc split(a string) (string, string) { return a, a }\n\nfunc f(x string, n int) (any, error) {\n" + text(w.stmt) + "\n" + strings.ReplaceAll(body, "EXPR", w.expr) + "\nreturn nil, nil\n}\n"
	other := "package main\n\n" + text(w.other) + "\n"
	lit := func(text, s string) verifsym.Hole {
		return verifsym.Hole{Text: text, Lit: text[:1] + s + text[:1], Str: s, IsStr: true}
	}
	holes := []verifsym.Hole{lit(`"lit00"`, s), lit("`lit00`", s), lit(`"lit0A"`, s[:cut]), lit(`"lit0B"`, s[cut:])}
	var used []verifsym.Hole
	for _, h := range holes {
		if strings.Contains(src+other, h.Text) {
			used = append(used, h)
		}
	}
	p := verifsym.LoadFiles("example.com/work", []verifsym.Src{{Name: "a.go", Text: src}, {Name: "b.go", Text: other}}, used)
	return len(vScan(vAnalyzer(conf, rule), p))
}

// vStarts says whether s starts with prefix and then ends or goes on with next (0: with anything).
func vStarts(s, prefix string, next byte) bool {
	if len(s) < len(prefix) {
		return false
	}
	r := verifsym.StrEq(s[:len(prefix)], prefix)
	if len(s) > len(prefix) && next != 0 {
		r = verifsym.And(r, s[len(prefix)] == next)
	}
	return r
}

// vCalls listen: ADDR is the address. Some are no listeners for a network.
var vListens = []struct {
	imports, text string
	listed        bool
}{
	{`"net"`, "return net.Listen(\"tcp\", EXPR)", true},
	{`"net"`, "l, err := net.Listen(\"tcp4\", EXPR)\nuse(l, err)", true},
	{`nn="net"`, "if l, err := nn.Listen(x, EXPR); err != nil {\nuse(l)\n}", true},
	{`"crypto/tls"`, "return tls.Listen(\"tcp\", EXPR, nil)", true},
	{`.="net"`, "go Listen(\"tcp\", EXPR)", true},
	{`"net"`, "return net.Listen(split(EXPR))", true},
	{`"net"`, "return net.Dial(\"tcp\", EXPR)", false},
	{`"net"`, "return net.Listen(EXPR, x)", false},
	{`"net"`, "return net.Listen(\"tcp\", x+EXPR)", false},
	{`"net"`, "use(EXPR)\nreturn net.Listen(\"tcp\", x)", false},
	{`"net"`, "return net.ResolveTCPAddr(\"tcp\", EXPR)", false},
}

// Verif_C31_address: listening is reported exactly when the address has no host or the one that stands for every interface.
//
//verif:bounds every text of 1, 4, 6, 8 or 10 characters of 0, 1, colon, dot, brackets and a letter; 18 ways of writing it; eleven calls, with renamed and dot imports
//verif:quick 100s
func Verif_C31_address() {
	n := []int{8, 1, 4, 6, 10}[verifsym.Choose("length", 5)]
	s := verifsym.Str("address", n, "01:.[]a")
	w := vWays[verifsym.Choose("way", len(vWays))]
	k := 0
	if n == 8 {
		k = verifsym.Choose("call", len(vListens))
	}
	c := vListens[k]
	got := vWriting("G102", gosec.NewConfig(), c.imports, c.text, ":99", s, n/2, w)
	want := verifsym.And(c.listed, verifsym.Or(s[0] == ':', vStarts(s, "0.0.0.0", ':'), vStarts(s, "[::]", ':')))
	verifsym.Assert(got == verifsym.Ite(want, 1, 0), "reported exactly when every interface is meant: "+c.text)
}

// vCreates create files; PATH is the path.
var vCreates = []struct {
	imports, text string
	listed        bool
}{
	{`"os"`, "return os.Create(PATH)", true},
	{`"os"`, "return nil, os.WriteFile(PATH, nil, 0600)", true},
	{`"io/ioutil"`, "if err := ioutil.WriteFile(PATH, []byte(x), 0600); err != nil {\nreturn nil, err\n}", true},
	{`o="os"`, "fff, err := o.Create(PATH)\nuse(fff, err)", true},
	{`"os"`, "return os.Open(PATH)", false},
	{`"os"`, "return os.CreateTemp(PATH, x)", false},
	{`"os"`, "return nil, os.WriteFile(x, []byte(PATH), 0600)", false},
}

// vPaths are paths made with the text EXPR: dir is set if the text is where the path starts.
var vPaths = []struct {
	imports, text string
	dir, always   bool
}{
	{"", "EXPR", true, false},
	{"", "(EXPR)", true, false},
	{"", "EXPR + x", true, false},
	{"", "EXPR + \"/y/\" + x", true, false},
	{"", "x + EXPR", false, false},
	{"", "x", false, false},
	{`"path"`, "path.Join(EXPR, x)", true, false},
	{`"path/filepath"`, "filepath.Join(EXPR, \"y\", x)", true, false},
	{`"path/filepath"`, "filepath.Join(x, EXPR)", false, false},
	{`"path/filepath"`, "filepath.Join(EXPR + x, \"y\")", true, false},
	{`"path/filepath"`, "filepath.Join(filepath.Join(EXPR, x), x)", true, false},
	{`os2="os"`, "os2.TempDir() + EXPR", false, true},
	{`os2="os"` + " " + `"path/filepath"`, "filepath.Join(os2.TempDir(), EXPR)", false, true},
	{`os2="os"`, "os2.Getenv(EXPR)", false, false},
	{`os2="os"` + " " + `"path"`, "path.Join(x, os2.TempDir(), EXPR)", false, false},
}

// Verif_C31_temporary: creating a file is reported exactly when its path starts in a directory for temporary files.
//
//verif:bounds every text of 4, 5, 8 or 9 characters of slash, t, m, p, u, s, r, v, a; 12 ways of writing it; 15 ways of making a path of it; seven calls
//verif:quick 100s
func Verif_C31_temporary() {
	n := []int{5, 4, 8, 9}[verifsym.Choose("length", 4)]
	s := verifsym.Str("path", n, "/tmpusrva")
	k, p, w := 0, 0, 0
	switch verifsym.Choose("vary", 3) {
	case 0:
		k = verifsym.Choose("call", len(vCreates))
	case 1:
		p = verifsym.Choose("path", len(vPaths))
	case 2:
		w = verifsym.Choose("way", 12)
	}
	c, q := vCreates[k], vPaths[p]
	got := vWriting("G303", gosec.NewConfig(), c.imports+" "+q.imports, strings.ReplaceAll(c.text, "PATH", q.text), "/tmp/x", s, 2, vWays[w])
	tmp := verifsym.Or(vStarts(s, "/tmp", '/'), vStarts(s, "/usr/tmp", '/'), vStarts(s, "/var/tmp", '/'))
	want := verifsym.And(c.listed, verifsym.Or(q.always, verifsym.And(q.dir, tmp)))
	verifsym.Assert(got == verifsym.Ite(want, 1, 0), "reported exactly in a directory for temporary files: "+c.text+" "+q.text)
}

// Verif_C31_directory: serving a directory is reported exactly when it is the root, or the configured one.
//
//verif:bounds every text of one or two characters of slash, dot and a letter; 12 ways of writing it; renamed and dot imports; a configured pattern
//verif:quick 60s
func Verif_C31_directory() {
	n := 1 + verifsym.Choose("length", 2)
	s := verifsym.Str("path", n, "/.a")
	w := vWays[verifsym.Choose("way", 12)]
	conf := gosec.NewConfig()
	want := false
	if verifsym.Bool("configured") {
		conf["G111"] = map[string]interface{}{"pattern": `http\.Dir\("a[^"]*"\)`}
		want = s[0] == 'a'
	} else if n == 1 {
		want = s[0] == '/'
	}
	c := []struct {
		imports, text string
		listed        bool
	}{
		{`"net/http"`, "return http.Dir(EXPR), nil", true},
		{`h="net/http"`, "return h.FileServer(h.Dir(EXPR)), nil", true},
		{`.="net/http"`, "return Dir(EXPR), nil", true},
		{`http="os"`, "return http.DirFS(EXPR), nil", false},
		{`http="path/filepath"`, "return http.Dir(EXPR), nil", false},
		{`"net/http"`, "return http.Dir(x), http.ListenAndServe(EXPR, nil)", false},
	}[verifsym.Choose("call", 6)]
	got := vWriting("G111", conf, c.imports, c.text, "/", s, n/2, w)
	verifsym.Assert(got == verifsym.Ite(verifsym.And(c.listed, want), 1, 0), "reported exactly for the root: "+c.text)
}

// Verif_C31_server: a server is reported exactly when it has no limit for reading the header.
//
//verif:bounds nine ways of writing a literal, with no, one or two of six fields, one of them of arbitrary length
//verif:quick 60s
func Verif_C31_server() {
	c := []struct {
		imports, decl, text string
		server              bool
	}{
		{`"net/http"`, "", "return http.Server{FIELDS}, nil", true},
		{`"net/http"`, "", "return &http.Server{FIELDS}, nil", true},
		{`h="net/http"`, "", "return (&h.Server{FIELDS}).Addr, nil", true},
		{`.="net/http"`, "", "return &Server{FIELDS}, nil", true},
		{`"net/http"`, "type S = http.Server", "return &S{FIELDS}, nil", true},
		{`"net/http"`, "", "return []http.Server{{FIELDS}}, nil", true},
		{`"net/http"`, "", "return map[string]*http.Server{\"a\": {FIELDS}}, nil", true},
		{`"net/http"`, "type S struct {\n\tin http.Server\n}", "return S{in: http.Server{FIELDS}}, nil", true},
		{`"net/http"`, "type Server struct {\n\tAddr, ErrorLog, Handler string\n\tReadTimeout, ReadHeaderTimeout, WriteTimeout, IdleTimeout int\n}", "return &Server{FIELDS}, http.ErrBodyNotAllowed", false},
		{`"net/http"`, "", "return []*http.Server{}, nil", false},
	}[verifsym.Choose("literal", 10)]
	d := verifsym.Int("duration", 1, 1000000)
	fields := []string{"", "Addr: \"x\"", "ReadTimeout: 7711", "ReadHeaderTimeout: 7711", "WriteTimeout: 7711", "IdleTimeout: 7711"}
	i := verifsym.Choose("first", len(fields))
	j := verifsym.Choose("second", len(fields))
	if i == j && i != 0 || i == 0 && j != 0 {
		verifsym.Assume(false)
	}
	text := fields[i]
	if j != 0 {
		text += ", " + fields[j]
	}
	limited := i == 2 || i == 3 || j == 2 || j == 3
	src := "package main\n\nimport " + strings.ReplaceAll(c.imports, "=", " ") + "\n\n" + c.decl + "\n\nfunc f() (any, error) {\n" + strings.Replace(c.text, "FIELDS", text, 1) + "\n}\n"
	var holes []verifsym.Hole
	if strings.Contains(src, "7711") {
		holes = append(holes, verifsym.Hole{Text: "7711", Lit: strconv.Itoa(d), Val: int64(d)})
	}
	p := verifsym.LoadProgram(src, holes)
	got := len(vScan(vAnalyzer(gosec.NewConfig(), "G112"), p))
	verifsym.Assert(got == verifsym.Ite(c.server && !limited, 1, 0), "reported exactly without a limit: "+c.text+" "+text)
}
