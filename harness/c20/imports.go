//verif:pkg verifh
//verif:prop C20
package verifh

import (
	"strconv"
	"strings"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/verifsym"
)

// vCall is a call to a listed function of a listed package: Args use only the variables of the template.
type vCall struct{ Rule, Path, Fn, Args string }

var vCalls = []vCall{
	{"G401", "crypto/md5", "New", ""},
	{"G401", "crypto/sha1", "Sum", "b"},
	{"G404", "math/rand", "Int63n", "7"},
	{"G404", "math/rand/v2", "IntN", "7"},
	{"G204", "os/exec", "Command", "v + \"x\""},
	{"G304", "os", "Open", "v"},
	{"G403", "crypto/rsa", "GenerateKey", "nil, 1024"},
	{"G405", "crypto/des", "NewTripleDESCipher", "b"},
	{"G405", "crypto/rc4", "NewCipher", "b"},
	{"G107", "net/http", "Get", "v"},
	{"G114", "net/http", "ListenAndServe", "v, nil"},
	{"G102", "net", "Listen", "\"tcp\", \"0.0.0.0:80\""},
	{"G106", "golang.org/x/crypto/ssh", "InsecureIgnoreHostKey", ""},
	{"G203", "html/template", "HTML", "v"},
	{"G303", "os", "Create", "\"/tmp/x\""},
	{"G301", "os", "MkdirAll", "v, 0777"},
	{"G302", "os", "Chmod", "v, 0777"},
	{"G306", "io/ioutil", "WriteFile", "v, b, 0777"},
	{"G406", "golang.org/x/crypto/md4", "New", ""},
	{"G103", "unsafe", "Pointer", "&b"},
	{"G204", "syscall", "Exec", "v + \"x\", nil, nil"},
	{"G204", "golang.org/x/sys/execabs", "Command", "v + \"x\""},
	{"G304", "io/ioutil", "ReadFile", "v"},
	{"G404", "math/rand", "New", "nil"},
	{"G102", "crypto/tls", "Listen", "\"tcp\", \":80\", nil"},
	{"G303", "io/ioutil", "WriteFile", "\"/var/tmp/x\", b, 0"},
}

// vName is an arbitrary identifier of three characters that means nothing else in the templates.
func vName(name string) string {
	s := verifsym.Str(name, 3, "a-z0-9")
	verifsym.Assume(s[0] >= 'a')
	for _, k := range []string{"var", "for", "map", "int", "len", "new", "cap", "any", "max", "min", "nil", "dec", "own", "use"} {
		verifsym.Assume(!verifsym.StrEq(s, k))
	}
	return s
}

// Verif_C20_calls: a call to a listed function is found exactly where the called name refers to the listed package.
//
//verif:bounds 26 listed functions of all call-based rules; imported with the default name, under an arbitrary three-character alias, with a raw-string path, or with a dot; next to it a method call on a variable with an arbitrary name (possibly the alias) and a call of a function of the scanned package itself, whose name is arbitrary (possibly the alias)
//verif:quick 60s
func Verif_C20_calls() {
	c := vCalls[verifsym.Choose("call", len(vCalls))]
	style := verifsym.Choose("style", 4)
	variable, pkg := vName("variable"), vName("package")
	holes := []verifsym.Hole{{Text: "vvv", Lit: variable}, {Text: "ppp", Lit: pkg}}
	imp, call := "", c.Fn
	base := c.Path[strings.LastIndex(c.Path, "/")+1:]
	if base == "v2" {
		base = "rand"
	}
	switch style {
	case 0:
		alias := vName("alias")
		holes = append(holes, verifsym.Hole{Text: "aaa", Lit: alias})
		imp, call = "aaa \""+c.Path+"\"", "aaa."+c.Fn
	case 1:
		imp, call = "\""+c.Path+"\"", base+"."+c.Fn
	case 2:
		imp, call = "`"+c.Path+"`", base+"."+c.Fn
	case 3:
		imp = ". \"" + c.Path + "\""
	}
	lines := []string{"package ppp", "import " + imp, "type dec struct{}", "func (dec) " + c.Fn + "(a ...any) int { return 0 }"}
	if style != 3 {
		lines = append(lines, "func "+c.Fn+"(a ...any) int { return 0 }", "func own(v string, b []byte) {", "\t_ = "+c.Fn+"("+c.Args+")", "}")
	}
	lines = append(lines, "func use(vvv dec, v string, b []byte) {", "\t_ = vvv."+c.Fn+"("+c.Args+")", "}", "func main(v string, b []byte) {", "\t"+call+"("+c.Args+")", "}")
	if c.Fn == "HTML" || c.Fn == "Pointer" {
		lines[len(lines)-2] = "\t_ = " + call + "(" + c.Args + ")"
	}
	src := strings.Replace(strings.Join(lines, "\n"), "func main(", "func man(", 1) + "\n"
	issues := vScan(vAnalyzer(gosec.NewConfig(), c.Rule), verifsym.LoadProgram(src, holes))
	verifsym.Assert(len(issues) == 1, "exactly the call of the listed function is reported")
	verifsym.Assert(issues[0].RuleID == c.Rule && issues[0].Line == strconv.Itoa(len(lines)-1), "at its line")
}

// Verif_C20_exempt: the calls whose errors may be ignored are recognised by their package as well.
//
//verif:bounds fmt.Println and os.Unsetenv under the default name and an arbitrary alias, next to a package of another name imported under an arbitrary alias
//verif:quick 30s
func Verif_C20_exempt() {
	style := verifsym.Choose("style", 2)
	other := vName("other")
	holes := []verifsym.Hole{{Text: "ooo", Lit: other}}
	imp, name := "\"os\"", "os"
	if style == 1 {
		alias := vName("alias")
		verifsym.Assume(!verifsym.StrEq(alias, other))
		holes = append(holes, verifsym.Hole{Text: "aaa", Lit: alias})
		imp, name = "aaa \"os\"", "aaa"
	} else {
		verifsym.Assume(!verifsym.StrEq(other, "os"))
	}
	src := "package main\nimport " + imp + "\nimport ooo \"syscall\"\nfunc f(v string) {\n\t" + name + ".Unsetenv(v)\n\t" + name + ".Setenv(v, v)\n\tooo.Unsetenv(v)\n}\n"
	issues := vScan(vAnalyzer(gosec.NewConfig(), "G104"), verifsym.LoadProgram(src, holes))
	verifsym.Assert(len(issues) == 2, "unhandled errors except those of exempt calls")
	verifsym.Assert(issues[0].Line == "6" && issues[1].Line == "7", "at their lines")
}

var vBlocked = [][2]string{{"G501", "crypto/md5"}, {"G502", "crypto/des"}, {"G503", "crypto/rc4"}, {"G504", "net/http/cgi"}, {"G505", "crypto/sha1"}, {"G506", "golang.org/x/crypto/md4"}, {"G507", "golang.org/x/crypto/ripemd160"}}

// Verif_C20_imports: a blocklisted import is reported however it is written.
//
//verif:bounds the seven blocklisted imports; default, blank, dot and arbitrarily named; interpreted and raw path
//verif:quick 30s
func Verif_C20_imports() {
	b := vBlocked[verifsym.Choose("import", len(vBlocked))]
	quote := []string{"\"", "`"}[verifsym.Choose("quote", 2)]
	imp := quote + b[1] + quote
	var holes []verifsym.Hole
	alias := vName("alias")
	switch verifsym.Choose("style", 3) {
	case 0:
		imp = "_ " + imp
	case 1:
		// an unused import does not compile, hence the use of an exported function
		use := map[string]string{"net/http/cgi": "Serve(nil)", "golang.org/x/crypto/md4": "New()", "golang.org/x/crypto/ripemd160": "New()", "crypto/des": "NewCipher(nil)", "crypto/rc4": "NewCipher(nil)"}[b[1]]
		if use == "" {
			use = "New()"
		}
		imp = "aaa " + imp + "\nfunc f() { aaa." + use + " }"
		holes = append(holes, verifsym.Hole{Text: "aaa", Lit: alias})
	case 2:
		imp = "(\n\t\"fmt\"\n\t_ " + imp + "\n)\nfunc f() { fmt.Println() }"
	}
	issues := vScan(vAnalyzer(gosec.NewConfig(), "G501", "G502", "G503", "G504", "G505", "G506", "G507"), verifsym.LoadProgram("package main\nimport "+imp+"\n", holes))
	verifsym.Assert(len(issues) == 1 && issues[0].RuleID == b[0], "the blocklisted import is reported once, by its own rule")
}

// Verif_C20_context: the context argument of a command is never an argument of the command.
//
//verif:bounds exec.CommandContext of os/exec and execabs under the default name and an arbitrary alias; the context and the command held in variables, the command resolvable or not
//verif:quick 30s
func Verif_C20_context() {
	path := []string{"os/exec", "golang.org/x/sys/execabs"}[verifsym.Choose("path", 2)]
	imp, name := "\""+path+"\"", path[strings.LastIndex(path, "/")+1:]
	var holes []verifsym.Hole
	if verifsym.Choose("style", 2) == 1 {
		alias := vName("alias")
		verifsym.Assume(!verifsym.StrEq(alias, "ctx") && !verifsym.StrEq(alias, "cmd"))
		holes = append(holes, verifsym.Hole{Text: "aaa", Lit: alias})
		imp, name = "aaa \""+path+"\"", "aaa"
	}
	value, want := "\"ls\"", 0
	if verifsym.Choose("tainted", 2) == 1 {
		value, want = "g()", 1
	}
	src := "package main\nimport (\n\t\"context\"\n\t" + imp + "\n)\nfunc g() string\nfunc f() {\n\tctx := context.Background()\n\tcmd := " + value + "\n\t" + name + ".CommandContext(ctx, cmd)\n}\n"
	issues := vScan(vAnalyzer(gosec.NewConfig(), "G204"), verifsym.LoadProgram(src, holes))
	verifsym.Assert(len(issues) == want, "reported exactly when the command is not constant")
}
