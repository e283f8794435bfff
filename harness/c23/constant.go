//verif:pkg verifh
//verif:prop C23
package verifh

import (
	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/verifsym"
)

// vTerm is an expression of a template program.
type vTerm struct {
	Text    string
	Tainted bool // not made of constants
	TVar    bool // contains a variable that is not made of constants
	NonCon  bool // contains something that is not a constant
	Ident   bool
	Binary  bool
}

// the variables of the template: each way of declaring them, with constant and other values
const vEnv = `
const K = "k"

var P = "p"
var Q = g()
var R, S = "r", g()

func g() string { return "" }
`

const vLocals = `	const L = "l"
	a := "a"
	b, c := "b", g()
	var d string = K + a
	var e, h = g(), ("h")
	i := (d + P) + ("x" + h)
	t := c + "x"
	var u = "u" + (a + t)
	_, _, _, _, _, _, _, _, _, _ = L, a, b, c, d, e, h, i, t, u
`

var vAtoms = []vTerm{
	{Text: `"z"`}, {Text: "K"}, {Text: "L"}, {Text: "os.DevNull"},
	{Text: "a", NonCon: true, Ident: true}, {Text: "b", NonCon: true, Ident: true}, {Text: "h", NonCon: true, Ident: true}, {Text: "i", NonCon: true, Ident: true}, {Text: "R", NonCon: true, Ident: true},
	{Text: "c", NonCon: true, Ident: true, Tainted: true, TVar: true}, {Text: "e", NonCon: true, Ident: true, Tainted: true, TVar: true}, {Text: "u", NonCon: true, Ident: true, Tainted: true, TVar: true},
	{Text: "Q", NonCon: true, Ident: true, Tainted: true, TVar: true}, {Text: "S", NonCon: true, Ident: true, Tainted: true, TVar: true},
	{Text: "g()", NonCon: true, Tainted: true},
}

func vTermOf(name string, depth int) vTerm {
	k := 0
	if depth > 0 {
		k = verifsym.Choose(name+"k", 2)
	}
	if k == 0 {
		return vAtoms[verifsym.Choose(name, len(vAtoms))]
	}
	return vConcat(vTermOf(name+"l", depth-1), vTermOf(name+"r", depth-1))
}

func vConcat(x, y vTerm) vTerm {
	if y.Binary {
		y.Text = "(" + y.Text + ")"
	}
	return vTerm{x.Text + " + " + y.Text, x.Tainted || y.Tainted, x.TVar || y.TVar, x.NonCon || y.NonCon, false, true}
}

func vConstProg(imports, body string) string {
	return "package main\n\nimport (\n" + imports + ")\n" + vEnv + "\nfunc f() {\n" + vLocals + body + "}\n"
}

// Verif_C23_command: a subprocess launch is reported exactly when an argument is not made of constants.
//
//verif:bounds 15 kinds of operands (literals, constants of this and another package, variables in each declaration form at both levels with constant or other values, calls), concatenations of up to two of them per argument (thorough: three), a second argument of four kinds, parentheses around the first
//verif:quick 90s
func Verif_C23_command() {
	x := vTermOf("cmd", 1+verifsym.Tier())
	paren := verifsym.Choose("paren", 2) == 1
	y := vAtoms[[]int{0, 4, 9, 14}[verifsym.Choose("arg", 4)]]
	fn := []string{"exec.Command(", "exec.CommandContext(context.TODO(), "}[verifsym.Choose("fn", 2)]
	text := x.Text
	if paren {
		text = "(" + text + ")"
	}
	src := vConstProg("\t\"context\"\n\t\"os\"\n\t\"os/exec\"\n", "\t_, _ = context.TODO, os.DevNull\n\t"+fn+text+", "+y.Text+")\n")
	n := vCount(vScan(vAnalyzer(gosec.NewConfig(), "G204"), verifsym.LoadProgram(src, nil)), "G204")
	want := 0
	if x.Tainted || y.Tainted {
		want = 1
	}
	verifsym.Observe("n", n)
	verifsym.Assert(n == want, "a launch is reported exactly when an argument is not made of constants")
}

// Verif_C23_path: a file access is reported exactly when its path depends on an unresolved variable.
//
//verif:bounds operands and concatenations as Verif_C23_command; five file functions; the path given directly, joined or cleaned before
//verif:quick 90s
func Verif_C23_path() {
	x := vTermOf("path", 1+verifsym.Tier())
	call := []string{"os.Open(%)", "os.ReadFile(%)", "ioutil.ReadFile(%)", "os.OpenFile(%, len(c), os.FileMode(len(e)))", "os.Create(%)"}[verifsym.Choose("fn", 5)]
	want := 0
	body := ""
	arg := x.Text
	switch verifsym.Choose("how", 4) {
	case 0:
		if x.TVar && (x.Ident || x.Binary) {
			want = 1
		}
	case 1:
		arg = "filepath.Join(K, " + x.Text + ")"
		if x.TVar && (x.Ident || x.Binary) {
			want = 1
		}
	case 2:
		arg = "filepath.Join(" + x.Text + ", c)"
		want = 1
	case 3:
		body = "\tfilepath.Clean(" + x.Text + ")\n"
		if x.TVar && x.Binary {
			want = 1
		}
	}
	for i := 0; i < len(call); i++ {
		if call[i] == '%' {
			call = call[:i] + arg + call[i+1:]
			break
		}
	}
	src := vConstProg("\t\"io/ioutil\"\n\t\"os\"\n\t\"path/filepath\"\n", "\t_, _, _ = ioutil.Discard, os.DevNull, filepath.Join\n"+body+"\t"+call+"\n")
	n := vCount(vScan(vAnalyzer(gosec.NewConfig(), "G304"), verifsym.LoadProgram(src, nil)), "G304")
	verifsym.Observe("n", n)
	verifsym.Assert(n == want, "an access is reported exactly when its path depends on an unresolved variable")
}

// Verif_C23_url: a request is reported exactly when its address is a package variable or an unresolved one.
//
//verif:bounds the single operands of Verif_C23_command, also a local variable with the name of a function of the package
//verif:quick 30s
func Verif_C23_url() {
	k := verifsym.Choose("url", len(vAtoms)+1)
	x := vTerm{Text: "g", Ident: true, NonCon: true}
	body := "\tg := \"http://localhost\"\n"
	if k < len(vAtoms) {
		x, body = vAtoms[k], ""
	}
	want := 0
	if x.TVar || x.Text == "R" {
		want = 1
	}
	src := vConstProg("\t\"net/http\"\n\t\"os\"\n", "\t_ = os.DevNull\n"+body+"\thttp.Get("+x.Text+")\n")
	n := vCount(vScan(vAnalyzer(gosec.NewConfig(), "G107"), verifsym.LoadProgram(src, nil)), "G107")
	verifsym.Assert(n == want, "a request is reported exactly when its address can vary")
}

// Verif_C23_sql: a query built by concatenation is reported exactly when an operand is not constant.
//
//verif:bounds a first literal of five arbitrary characters of a set that contains a query keyword in both cases and white space, concatenated with one operand or the concatenation of two; passed directly or through a variable declared in four ways; four query functions
//verif:quick 120s
func Verif_C23_sql() {
	sql := verifsym.Str("sql", 5, "FROMm \tf")
	x := vTermOf("term", 1)
	head := vTerm{Text: `"sql00"`}
	lower := func(c byte, l byte) bool { return verifsym.Or(c == l, c == l-32) }
	isSQL := verifsym.And(lower(sql[0], 'f'), lower(sql[1], 'r'), lower(sql[2], 'o'), lower(sql[3], 'm'), verifsym.Or(sql[4] == ' ', sql[4] == '\t'))
	q := vConcat(head, x)
	decl, arg, pkg := "", "q", ""
	switch verifsym.Choose("how", 5) {
	case 0:
		arg = q.Text
	case 1:
		decl = "\tq := " + q.Text + "\n"
	case 2:
		decl = "\tvar q string = (" + q.Text + ")\n"
	case 3:
		decl = "\tq, r := " + q.Text + ", c + e\n\t_ = r\n"
	case 4:
		decl = "\tvar r, q = \"SELECT x\" + e, " + q.Text + "\n\t_ = r\n"
	}
	call := []string{"db.Query(", "_, _ = db.Exec(", "row := db.QueryRowContext(nil, ", "_, err := db.PrepareContext(nil, "}[verifsym.Choose("fn", 4)]
	tail := ""
	if call[0] == 'r' {
		tail = "\t_ = row\n"
	}
	if len(call) > 6 && call[3] == 'e' {
		tail = "\t_ = err\n"
	}
	src := vConstProg("\t\"database/sql\"\n\t\"os\"\n", "\t_ = os.DevNull\n\tvar db *sql.DB\n"+decl+"\t"+call+arg+")\n"+tail) + pkg
	issues := vScan(vAnalyzer(gosec.NewConfig(), "G202"), verifsym.LoadProgram(src, []verifsym.Hole{{Text: `"sql00"`, Lit: "\"" + sql + "\"", Str: sql, IsStr: true}}))
	n := vCount(issues, "G202")
	verifsym.Observe("n", n)
	verifsym.Assert((n == 1) == verifsym.And(isSQL, x.NonCon), "a query is reported exactly when an operand is not constant")
	verifsym.Assert(n <= 1, "once")
}

// Verif_C23_sqlcalls: the query is found in the right argument of each query method of a database and of a transaction.
//
//verif:bounds all eight query methods of *sql.DB and *sql.Tx; the query as Verif_C23_sql, with one operand; the receiver a variable, a field or a parameter; arguments before and behind the query
//verif:quick 90s
func Verif_C23_sqlcalls() {
	x := vAtoms[[]int{0, 1, 4, 9, 14}[verifsym.Choose("term", 5)]]
	typ := []string{"sql.DB", "sql.Tx"}[verifsym.Choose("type", 2)]
	ctx := verifsym.Choose("ctx", 2) == 1
	m := verifsym.Choose("fn", 4)
	fn := []string{"Exec", "Query", "QueryRow", "Prepare"}[m]
	if ctx {
		fn += "Context"
	}
	recv := []string{"db", "s.db", "p"}[verifsym.Choose("recv", 3)]
	decl, q := "", "\"select x from y where z = \" + "+x.Text
	if verifsym.Choose("how", 2) == 1 {
		decl, q = "\tq := "+q+"\n", "q"
	}
	if ctx {
		q = "context.Background(), " + q
	}
	if m < 3 && verifsym.Choose("more", 2) == 1 {
		q += ", c, e + \"from \" + c"
	}
	body := "\t_, _ = context.Background, os.DevNull\n\tvar db *" + typ + "\n\tvar s struct{ db *" + typ + " }\n\tp := new(" + typ + ")\n\t_, _, _ = db, s, p\n" + decl + "\t" + recv + "." + fn + "(" + q + ")\n"
	src := vConstProg("\t\"context\"\n\t\"database/sql\"\n\t\"os\"\n", body)
	n := vCount(vScan(vAnalyzer(gosec.NewConfig(), "G202"), verifsym.LoadProgram(src, nil)), "G202")
	verifsym.Observe("n", n)
	want := 0
	if x.NonCon {
		want = 1
	}
	verifsym.Assert(n == want, "a query is found in the argument that holds it")
}

// Verif_C23_many: several operands, arguments and elements count like one: the access or launch is reported exactly when any of them is unresolved.
//
//verif:bounds one to four operands, each a literal, a constant variable, or one of two other variables; concatenated as a path, given as the elements joined to a path, or as the elements of a list of arguments (slice or array, at both levels) of a launch
//verif:quick 60s
func Verif_C23_many() {
	n := 1 + verifsym.Choose("n", 4)
	any := false
	var terms []vTerm
	for i := 0; i < n; i++ {
		t := vAtoms[[]int{0, 4, 9, 11}[verifsym.Choose("t"+string(rune('0'+i)), 4)]]
		any = any || t.TVar
		terms = append(terms, t)
	}
	list := func(sep string) string {
		s := ""
		for i, t := range terms {
			if i > 0 {
				s += sep
			}
			s += t.Text
		}
		return s
	}
	body, rule := "", "G304"
	switch verifsym.Choose("how", 6) {
	case 0:
		body = "os.Open(" + list(" + ") + ")"
	case 1:
		body = "os.Open(filepath.Join(" + list(", ") + "))"
	case 2:
		body = "os.Open(filepath.Join(" + list(" + ") + "))"
	case 3:
		rule, body = "G204", "args := []string{"+list(", ")+"}\n\texec.Command(\"ls\", args...)"
	case 4:
		rule, body = "G204", "var args = ([]string{"+list(", ")+"})\n\texec.Command(\"ls\", args...)"
	case 5:
		rule, body = "G204", "exec.Command("+list(", ")+")"
	}
	src := vConstProg("\t\"os\"\n\t\"os/exec\"\n\t\"path/filepath\"\n", "\t_, _, _ = os.DevNull, filepath.Join, exec.Command\n\t"+body+"\n")
	got := vCount(vScan(vAnalyzer(gosec.NewConfig(), rule), verifsym.LoadProgram(src, nil)), rule)
	verifsym.Observe("n", got)
	verifsym.Assert((got == 1) == any, "reported exactly when an operand, argument or element is unresolved")
}
