//verif:pkg verifh
//verif:prop C20
package verifh

import (
	"strconv"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/verifsym"
)

// vListed are the listed functions of a package with arguments which get them reported, one call to a line.
var vListed = []struct {
	Rule, Path string
	Calls      []string
}{
	{"G401", "crypto/md5", []string{"New()", "Sum(b)"}},
	{"G401", "crypto/sha1", []string{"New()", "Sum(b)"}},
	{"G405", "crypto/des", []string{"NewCipher(b)", "NewTripleDESCipher(b)"}},
	{"G405", "crypto/rc4", []string{"NewCipher(b)"}},
	{"G406", "golang.org/x/crypto/md4", []string{"New()"}},
	{"G406", "golang.org/x/crypto/ripemd160", []string{"New()"}},
	{"G404", "math/rand", []string{"New(nil)", "Read(b)", "Float32()", "Float64()", "Int()", "Int31()", "Int31n(7)", "Int63()", "Int63n(7)", "Intn(7)", "NormFloat64()", "Uint32()", "Uint64()"}},
	{"G404", "math/rand/v2", []string{"New(nil)", "Float32()", "Float64()", "Int()", "Int32()", "Int32N(7)", "Int64()", "Int64N(7)", "IntN(7)", "N(7)", "N[int](7)", "NormFloat64()", "Uint32()", "Uint32N(7)", "Uint64()", "Uint64N(7)", "UintN(7)"}},
	{"G103", "unsafe", []string{"Pointer(&b)", "String(&b[0], 1)", "StringData(v)", "Slice(&b[0], 1)", "SliceData(b)"}},
	{"G106", "golang.org/x/crypto/ssh", []string{"InsecureIgnoreHostKey()"}},
	{"G107", "net/http", []string{"Get(v)", "Head(v)", "Post(v, v, nil)", "PostForm(v, nil)"}},
	{"G114", "net/http", []string{"ListenAndServe(v, nil)", "ListenAndServeTLS(v, v, v, nil)", "Serve(nil, nil)", "ServeTLS(nil, nil, v, v)"}},
	{"G203", "html/template", []string{"CSS(v)", "HTML(v)", "HTMLAttr(v)", "JS(v)", "JSStr(v)", "Srcset(v)", "URL(v)"}},
	{"G304", "os", []string{"ReadFile(v)", "Open(v)", "OpenFile(v, 0, 0600)", "Create(v)"}},
	{"G304", "io/ioutil", []string{"ReadFile(v)"}},
	{"G204", "os/exec", []string{"Command(v)", "CommandContext(nil, v)"}},
	{"G204", "syscall", []string{"Exec(v, nil, nil)", "ForkExec(v, nil, nil)", "StartProcess(v, nil, nil)"}},
	{"G204", "golang.org/x/sys/execabs", []string{"Command(v)", "CommandContext(nil, v)"}},
	{"G102", "net", []string{`Listen("tcp", ":80")`}},
	{"G102", "crypto/tls", []string{`Listen("tcp", ":80", nil)`}},
	{"G303", "os", []string{`Create("/tmp/x")`, `WriteFile("/tmp/x", b, 0)`}},
	{"G303", "io/ioutil", []string{`WriteFile("/tmp/x", b, 0)`}},
	{"G301", "os", []string{"Mkdir(v, 0777)", "MkdirAll(v, 0777)"}},
	{"G302", "os", []string{"OpenFile(v, 0, 0777)", "Chmod(v, 0777)"}},
	{"G306", "os", []string{"WriteFile(v, b, 0777)"}},
	{"G306", "io/ioutil", []string{"WriteFile(v, b, 0777)"}},
}

// Verif_C20_listed: every listed function of a package is reported, each call once, whatever the package is imported as.
//
//verif:bounds all 82 listed (one also with an explicit type argument) functions of the rules which judge a call by its name and simple arguments; an arbitrary three-character alias or the default name
//verif:quick 60s
func Verif_C20_listed() {
	l := vListed[verifsym.Choose("package", len(vListed))]
	alias := vName("alias")
	src := "package p\nimport aaa \"" + l.Path + "\"\nfunc f(b []byte, v string) {\n"
	for _, c := range l.Calls {
		if l.Path == "html/template" || l.Path == "unsafe" {
			src += "\t_ = "
		}
		src += "\taaa." + c + "\n"
	}
	src += "}\n"
	if l.Rule == "G107" || l.Rule == "G204" || l.Rule == "G304" {
		src = "package p\nimport aaa \"" + l.Path + "\"\nfunc g() string\nfunc f(b []byte) {\n\tv := g()\n" + src[len("package p\nimport aaa \""+l.Path+"\"\nfunc f(b []byte, v string) {\n"):]
	}
	first := 4
	if l.Rule == "G107" || l.Rule == "G204" || l.Rule == "G304" {
		first = 6
	}
	issues := vScan(vAnalyzer(gosec.NewConfig(), l.Rule), verifsym.LoadProgram(src, []verifsym.Hole{{Text: "aaa", Lit: alias}}))
	verifsym.Assert(len(issues) == len(l.Calls), "each call to a listed function")
	for k, i := range issues {
		verifsym.Assert(i.RuleID == l.Rule && i.Line == strconv.Itoa(first+k), "at its line")
	}
}

// Verif_C20_pprof: the import which exposes the profiling endpoint is reported wherever it stands.
//
//verif:bounds net/http/pprof imported for its side effect, alone or among others before and after it, interpreted or raw
//verif:quick 30s
func Verif_C20_pprof() {
	quote := []string{"\"", "`"}[verifsym.Choose("quote", 2)]
	imp := "_ " + quote + "net/http/pprof" + quote
	line := "2"
	switch verifsym.Choose("place", 4) {
	case 0:
		imp = "import " + imp
	case 1:
		imp, line = "import (\n\t\"fmt\"\n\t"+imp+"\n)\nvar _ = fmt.Sprint()", "4"
	case 2:
		imp, line = "import (\n\t"+imp+"\n\t\"fmt\"\n)\nvar _ = fmt.Sprint()", "3"
	case 3:
		imp, line = "import \"fmt\"\nimport "+imp+"\nvar _ = fmt.Sprint()", "3"
	}
	pkg := vName("package")
	issues := vScan(vAnalyzer(gosec.NewConfig(), "G108"), verifsym.LoadProgram("package ppp\n"+imp+"\n", []verifsym.Hole{{Text: "ppp", Lit: pkg}}))
	verifsym.Assert(len(issues) == 1 && issues[0].RuleID == "G108" && issues[0].Line == line, "the exposed endpoint is reported at the import")
}

// Verif_C20_vendored: the listed functions of packages outside of the standard library are found as well when the package is a vendored copy.
//
//verif:bounds the seven listed functions of such packages, and the quoting of identifiers for queries; a vendored copy in the GOPATH, one below another one, or at its root; an arbitrary three-character alias or the default name
//verif:quick 30s
func Verif_C20_vendored() {
	program := []string{"gopath/app", "gopath/nested", "vendor/app", "example.com/app"}[verifsym.Choose("place", 4)]
	calls := []struct{ Rule, Path, Name, Call string }{
		{"G406", "golang.org/x/crypto/md4", "md4", "New()"},
		{"G406", "golang.org/x/crypto/ripemd160", "ripemd160", "New()"},
		{"G106", "golang.org/x/crypto/ssh", "ssh", "InsecureIgnoreHostKey()"},
		{"G204", "golang.org/x/sys/execabs", "execabs", "Command(v)"},
		{"G204", "golang.org/x/sys/execabs", "execabs", "CommandContext(nil, v)"},
		{"G506", "golang.org/x/crypto/md4", "md4", "New()"},
		{"G507", "golang.org/x/crypto/ripemd160", "ripemd160", "New()"},
		{"G201", "github.com/lib/pq", "pq", "QuoteIdentifier(v)"},
	}
	c := calls[verifsym.Choose("call", len(calls))]
	var holes []verifsym.Hole
	imp, name := "\""+c.Path+"\"", c.Name
	if verifsym.Bool("alias") {
		alias := vName("alias")
		holes = append(holes, verifsym.Hole{Text: "aaa", Lit: alias})
		imp, name = "aaa "+imp, "aaa"
	}
	src := "package p\nimport " + imp + "\nimport \"database/sql\"; import \"fmt\"; var _ = fmt.Sprint\nfunc g() string\nfunc f(db *sql.DB) {\n\tv := g()\n\t_, _ = v, db\n\t_ = "
	if c.Rule == "G201" {
		src += "0\n\tdb.Query(fmt.Sprintf(\"SELECT * FROM %s\", " + name + "." + c.Call + "))\n\tdb.Query(fmt.Sprintf(\"SELECT * FROM %s\", v))\n}\n"
	} else {
		src += name + "." + c.Call + "\n}\n"
	}
	issues := vScan(vAnalyzer(gosec.NewConfig(), c.Rule), verifsym.LoadFiles(program, []verifsym.Src{{Name: "main.go", Text: src}}, holes))
	line := "8"
	if c.Rule == "G201" {
		line = "10"
	} else if c.Rule[:2] == "G5" {
		line = "2"
	}
	verifsym.Assert(len(issues) == 1 && issues[0].RuleID == c.Rule && issues[0].Line == line, "exactly the call of the listed function")
}
