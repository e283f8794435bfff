//verif:pkg verifh
//verif:prop C30
package verifh

import (
	"strings"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/verifsym"
)

const vSQLHead = `package main

import (
	"context"
	"database/sql"
	"fmt"
	"os"

	"github.com/lib/pq"
)

const num, text = 5, "x"

type S struct {
	db  *sql.DB
	dbs []*sql.DB
	in  struct{ tx *sql.Tx }
}

func (s *S) get() *sql.DB     { return s.db }
func getDB() *sql.DB          { return nil }
func getTx() (t *sql.Tx)      { return }
func use(...any) string       { return os.DevNull }

var local *sql.DB

var _, _, _ = context.TODO, fmt.Sprint, pq.QuoteIdentifier

`

const vSQLOther = "package main\n\nimport \"database/sql\"\n\nvar other *sql.DB\n\nvar otherTx, _ = other.Begin()\n"

func vSQLFindings(rule, decls, body string, holes []verifsym.Hole) int {
	src := vSQLHead + decls + "\nfunc f(s *S, p *sql.DB, x string, ctx context.Context) (any, error) {\n" + body + "\nreturn nil, nil\n}\n"
	p := verifsym.LoadFiles("example.com/work", []verifsym.Src{{Name: "a.go", Text: src}, {Name: "b.go", Text: vSQLOther}}, holes)
	return len(vScan(vAnalyzer(gosec.NewConfig(), rule), p))
}

// vVerb says whether a format has a verb that does not print a number.
func vVerb(f string) bool {
	r := false
	for i := 0; i+1 < len(f); i++ {
		num := false
		for _, c := range []byte("bdoxXfFp") {
			num = verifsym.Or(num, f[i+1] == c)
		}
		r = verifsym.Or(r, verifsym.And(f[i] == '%', !num))
	}
	return r
}

// vKeyword says whether a text has an SQL keyword with white space behind it.
func vKeyword(f string) bool {
	r := false
	for _, k := range []string{"select", "delete", "insert", "update", "into", "from", "where"} {
		for i := 0; i+len(k) < len(f); i++ {
			c := f[i+len(k)]
			m := verifsym.Or(c == ' ', c == '\t', c == '\n', c == '\r')
			for j := 0; j < len(k); j++ {
				m = verifsym.And(m, verifsym.Or(f[i+j] == k[j], f[i+j] == k[j]-'a'+'A'))
			}
			r = verifsym.Or(r, m)
		}
	}
	return r
}

// vFormatArgs are arguments of a format; safe ones are constant or quoted.
var vFormatArgs = []struct {
	text string
	safe bool
}{
	{"x", false},
	{"num", true},
	{"text", true},
	{"\"lit\"", true},
	{"7", true},
	{"text + \"y\"", true},
	{"pq.QuoteIdentifier(x)", true},
	{"os.Args[0]", false},
	{"use(x)", false},
	{"text + x", false},
	{"local", false},
	{"fmt.Sprint(1)", false},
}

// Verif_C30_verbs: formatted SQL is reported exactly when it has a keyword, a verb that is not one for numbers, and an argument that is neither constant nor quoted.
//
//verif:bounds "SELECT a" or "Slect a" with five (thorough: six) arbitrary characters of a set with all parts of verbs behind it; one or two of 12 kinds of arguments
//verif:quick 100s
func Verif_C30_verbs() {
	head := []string{"SELECT a", "Slect a"}[verifsym.Choose("head", 2)]
	tail := verifsym.Str("format", 5+verifsym.Tier(), "%sdvxbBoqTpXfFgc5+.# -")
	i := verifsym.Choose("argument", len(vFormatArgs))
	args, safe := vFormatArgs[i].text, vFormatArgs[i].safe
	if verifsym.Bool("two") {
		k := verifsym.Choose("other argument", 3)
		args += ", " + vFormatArgs[k].text
		safe = safe && vFormatArgs[k].safe
	}
	f := head + tail
	holes := []verifsym.Hole{{Text: `"fmt00"`, Lit: "\"" + f + "\"", Str: f, IsStr: true}}
	got := vSQLFindings("G201", "", "q := fmt.Sprintf(\"fmt00\", "+args+")\n_, _ = p.Query(q)", holes)
	want := verifsym.And(vKeyword(f), vVerb(f), !safe)
	verifsym.Assert(got == verifsym.Ite(want, 1, 0), "reported exactly when unsafe")
}

// Verif_C30_keywords: whatever the case of the keyword and its place.
//
//verif:bounds all texts of 8 (thorough: 9) letters and blanks before a verb for strings
//verif:quick 100s
func Verif_C30_keywords() {
	tail := verifsym.Str("format", 8+verifsym.Tier(), "a-zA-Z \t")
	f := tail + "%s"
	holes := []verifsym.Hole{{Text: `"fmt00"`, Lit: "\"" + f + "\"", Str: f, IsStr: true}}
	got := vSQLFindings("G201", "", "q := fmt.Sprintf(\"fmt00\", x)\n_, _ = p.Query(q)", holes)
	verifsym.Assert(got == verifsym.Ite(vKeyword(f), 1, 0), "reported exactly with a keyword")
}

// vSQLPlaces are the places where a query can be made: CALL is the call.
var vSQLPlaces = []string{
	"_, _ = CALL",
	"CALL",
	"r, err := CALL\n_, _ = r, err",
	"var r, err = CALL\n_, _ = r, err",
	"return CALL",
	"if r, err := CALL; err != nil {\n_ = r\n}",
	"func() { CALL }()",
	"go CALL",
	"defer CALL",
	"use(CALL)",
	"switch r, err := CALL; err {\ndefault:\n_ = r\n}",
}

// vSQLReceivers are expressions for a database or transaction.
var vSQLReceivers = []string{"p", "local", "other", "otherTx", "s.db", "s.dbs[0]", "s.in.tx", "s.get()", "getDB()", "getTx()", "(p)", "(*&p)", "any(p).(*sql.DB)", "func() *sql.DB { return p }()", "map[int]*sql.DB{}[1]", "v", "w"}

// Verif_C30_queries: a query is checked wherever it is made and however the database and the text are given.
//
//verif:bounds formatted and concatenated queries; 11 places of the call; 17 forms of the receiver (variables of any scope and file, fields, elements, results, assertions); the text given directly, in parentheses or by a variable declared in five ways, with a harmless value declared before or behind it or not (for the first place or the first receiver, thorough: for all); an arbitrary three-character name of that variable
//verif:quick 150s
func Verif_C30_queries() {
	concat := verifsym.Bool("concatenated")
	rule, expr := "G201", "fmt.Sprintf(\"SELECT %s\", x)"
	if concat {
		rule, expr = "G202", "\"SELECT \" + x"
	}
	safe := verifsym.Bool("safe")
	if safe {
		expr = strings.Replace(expr, "x", "text", 1)
		if !concat {
			expr = "fmt.Sprintf(\"SELECT %s\", text)"
		}
	}
	place := verifsym.Choose("place", len(vSQLPlaces))
	recv := verifsym.Choose("receiver", len(vSQLReceivers))
	form := 0
	if place == 0 || recv == 0 || verifsym.Tier() > 0 {
		form = verifsym.Choose("form", 9)
	}
	decls, pre, arg := "", "", "qqq"
	switch form {
	case 0:
		arg = expr
	case 1:
		arg = "(" + expr + ")"
	case 2:
		pre = "qqq := " + expr
	case 3:
		pre = "var qqq = " + expr
	case 4:
		pre = "var qqq string = " + expr
	case 5:
		pre = "a, qqq := \"SELECT 1\", " + expr + "\nuse(a)"
	case 6:
		pre = "qqq, a := " + expr + ", \"SELECT 1\"\nuse(a)"
	case 7: // the other one is the query
		pre = "qqq, a := " + expr + ", \"SELECT 1\"\nuse(qqq)"
		arg = "a"
		safe = true
	case 8:
		pre = "var a, qqq = \"SELECT 1\", " + expr + "\nuse(a)"
	}
	pre += "\n"
	r := vSQLReceivers[recv]
	switch r {
	case "v":
		pre += "v, _ := sql.Open(\"\", \"\")\n"
	case "w":
		pre += "w, _ := p.Begin()\n"
	}
	call := r + ".Query(" + arg + ")"
	name := verifsym.Str("variable", 3, "a-z0-9_")
	verifsym.Assume(verifsym.And(name[0] >= 't', !verifsym.StrEq(name, "var"), !verifsym.StrEq(name, "use")))
	got := vSQLFindings(rule, decls, pre+strings.ReplaceAll(vSQLPlaces[place], "CALL", call), []verifsym.Hole{{Text: "qqq", Lit: name}})
	want := 1
	if safe {
		want = 0
	}
	verifsym.Assert(got == want, "checked: "+vSQLPlaces[place]+" on "+r)
}

// Verif_C30_formats: the format is found however it is written.
//
//verif:bounds eight ways of writing the format (literal, concatenation, constants), four format functions
func Verif_C30_formats() {
	forms := []string{"\"SELECT %s\"", "`SELECT %s`", "\"SEL\" + \"ECT %s\"", "form", "form + \"\"", "\"\" + form", "(\"SELECT %s\")", "\"SELECT \" + (\"%\" + \"s\")"}
	k := verifsym.Choose("format", len(forms))
	decls := "const form = \"SELECT %s\"\n"
	text := forms[k]
	if verifsym.Bool("harmless") {
		decls = strings.Replace(decls, "%s", "%d", 1)
		text = strings.Replace(text, "%s", "%d", 1)
		text = strings.Replace(text, "+ \"s\"", "+ \"d\"", 1)
		verifsym.Assert(vSQLFindings("G201", decls, "_, _ = p.Query(fmt.Sprintf("+text+", len(x)))\n_ = form", nil) == 0, "numbers are harmless")
		return
	}
	verifsym.Assert(vSQLFindings("G201", decls, "_, _ = p.Query(fmt.Sprintf("+text+", x))\n_ = form", nil) == 1, "format found: "+text)
}
