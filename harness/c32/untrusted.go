//verif:pkg verifh
//verif:prop C32
package verifh

import (
	"strings"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/verifsym"
)

// vProgram is the number of findings of a rule in a function f with the given statements.
func vProgram(rule, imports, decls, body string, holes ...verifsym.Hole) int {
	src := "package main\n\nimport (\n"
	for _, i := range strings.Fields(imports) {
		src += "\t" + strings.ReplaceAll(i, "=", " ") + "\n"
	}
	src += ")\n\n" + decls + "\n\nfunc use(...any) string { return \"\" }\n\nfunc f(x string, n int) (any, error) {\n" + body + "\nreturn nil, nil\n}\n"
	other := "package main\n\nconst other = \"con00\"\n\nvar otherVar = \"con00\"\n"
	var used []verifsym.Hole
	for _, h := range holes {
		if strings.Contains(src+other, h.Text) {
			used = append(used, h)
		}
	}
	p := verifsym.LoadFiles("example.com/work", []verifsym.Src{{Name: "a.go", Text: src}, {Name: "b.go", Text: other}}, used)
	return len(vScan(vAnalyzer(gosec.NewConfig(), rule), p))
}

// vTexts are texts; constant ones are the same in every run.
var vTexts = []struct {
	stmt, expr string
	constant   bool
}{
	{"", "\"con00\"", true},
	{"", "`con00`", true},
	{"", "(\"con00\")", true},
	{"", "\"con00\" + \"a\"", true},
	{"", "other", true},
	{"const ccc = \"con00\"", "ccc", true},
	{"const ccc = \"con00\"", "ccc + other", true},
	{"", "x", false},
	{"", "otherVar", false},
	{"vvv := \"con00\"", "vvv", false},
	{"", "\"con00\" + x", false},
	{"", "use(\"con00\")", false},
	{"", "string(x)", false},
	{"vvv := []string{\"con00\"}", "vvv[0]", false},
	{"const other = 5\nvvv := x", "vvv", false},
}

// Verif_C32_template: text is taken as trusted in a template with a report exactly when it is not constant.
//
//verif:bounds the seven types for trusted text, one other type and one function; all named types of 2 or 3 letters besides; 15 kinds of text of two arbitrary letters; renamed and dot imports
//verif:quick 60s
func Verif_C32_template() {
	s := verifsym.Str("text", 2, "a-z<>&")
	t := vTexts[verifsym.Choose("text", len(vTexts))]
	names := []string{"CSS", "HTML", "HTMLAttr", "JS", "JSStr", "Srcset", "URL", "HTMLEscapeString", "New"}
	k := verifsym.Choose("type", len(names))
	form := 0
	if k == 1 || k == 7 {
		form = verifsym.Choose("form", 5)
	}
	c := []struct{ imports, decls, call string }{
		{"\"html/template\"", "", "template."},
		{"t=\"html/template\"", "", "t."},
		{".=\"html/template\"", "", ""},
		{"template=\"text/template\"", "type HTML string", "template."},
		{"\"html/template\"", "type page struct{}\n\nfunc (page) HTML(s string) string { return s }\n\nfunc (page) HTMLEscapeString(s string) string { return s }\n\nvar _ template.FuncMap\n\nvar p page", "p."},
	}[form]
	if form == 3 && k != 7 {
		verifsym.Assume(false)
	}
	got := vProgram("G203", c.imports, c.decls, t.stmt+"\nreturn "+c.call+names[k]+"("+t.expr+"), nil",
		verifsym.Hole{Text: "\"con00\"", Lit: "\"" + s + "\"", Str: s, IsStr: true}, verifsym.Hole{Text: "`con00`", Lit: "`" + s + "`", Str: s, IsStr: true})
	want := k < 7 && form < 3 && !t.constant
	verifsym.Assert(got == verifsym.Ite(want, 1, 0), "reported exactly when not constant: "+c.call+names[k]+"("+t.expr+")")
}

// vEntries are values of which a path can be made; those of an entry are text that comes from the archive.
var vEntries = []struct {
	imports, stmt, expr string
	entry               bool
}{
	{"zip", "", "zf.Name", true},
	{"zip", "", "zf.Comment", true},
	{"zip", "", "(zf.Name)", true},
	{"zip", "", "(zf).Name", true},
	{"zip", "", "zf.FileHeader.Name", true},
	{"zip", "", "zr.File[0].Name", true},
	{"zip", "zv := *zf", "zv.Name", true},
	{"zip", "vvv := zf.Name", "vvv", true},
	{"zip", "var vvv = zf.Name", "vvv", true},
	{"zip", "var vvv string = (zf.Name)", "vvv", true},
	{"zip", "a, vvv := x, zf.Name\nuse(a)", "vvv", true},
	{"zip", "vvv, a := zf.Name, x\nuse(a)", "vvv", true},
	{"zip", "a, vvv := zf.Name, x\nuse(a)", "vvv", false},
	{"zip", "vvv, a := x, zf.Name\nuse(a)", "vvv", false},
	{"zip", "var a, vvv = zf.Name, x\nuse(a)", "vvv", false},
	{"zip", "", "x", false},
	{"zip", "", "\"con00\"", false},
	{"zip", "", "other", false},
	{"zip", "e := entry{}", "e.Name", false},
	{"zip", "", "zr.Comment", false},
	{"zip", "vvv := entry{}.Name", "vvv", false},
	{"zip", "for _, e := range zr.File {\nx = e.Name\n}", "x", false},
	{"tar", "", "th.Name", true},
	{"tar", "", "th.Linkname", true},
	{"tar", "tv := *th", "tv.Name", true},
	{"tar", "vvv := th.Name", "vvv", true},
	{"tar", "h, err := tr.Next()\nuse(err)", "h.Name", true},
	{"tar", "vvv := th\nuse(vvv.Name)", "x", false},
	{"tar", "vvv := use(th.Name)", "vvv", false},
}

// Verif_C32_entry: joining a path is reported exactly when one of its parts is a text of an archive entry.
//
//verif:bounds 29 kinds of values, next to one or two arbitrary other parts; both packages for paths, other functions of the same names; variables with arbitrary names of three letters
//verif:quick 60s
func Verif_C32_entry() {
	e := vEntries[verifsym.Choose("entry", len(vEntries))]
	s := verifsym.Str("text", 2, "a-z/.")
	name := verifsym.Str("name", 3, "p-z")
	calls := []struct {
		imports, text string
		listed        bool
	}{
		{"\"path/filepath\"", "return filepath.Join(x, EXPR), nil", true},
		{"\"path/filepath\"", "return filepath.Join(EXPR), nil", true},
		{"\"path\"", "vv2 := path.Join(\"con00\", EXPR, x)\nuse(vv2)", true},
		{"p=\"path\"", "use(p.Join(other, EXPR))", true},
		{"\"path\"", "use(path.Base(EXPR))", false},
		{"\"path/filepath\"", "return filepath.Rel(x, EXPR)", false},
		{"path=\"strings\"", "return path.Join([]string{EXPR}, x), nil", false},
		{"\"path\"", "use(EXPR)\nreturn path.Join(x), nil", false},
	}
	k := verifsym.Choose("call", len(calls))
	c := calls[k]
	imports, decls := "\"archive/zip\"", "var zf *zip.File\n\nvar zr *zip.Reader"
	if e.imports == "tar" {
		imports, decls = "\"archive/tar\"", "var th *tar.Header\n\nvar tr *tar.Reader"
	}
	decls += "\n\ntype entry struct{ Name string }"
	stmt := e.stmt
	for _, v := range []string{"vvv"} {
		if strings.Contains(stmt, v) {
			stmt += "\nuse(" + v + ")"
		}
	}
	got := vProgram("G305", imports+" "+c.imports, decls, stmt+"\n"+strings.ReplaceAll(c.text, "EXPR", e.expr),
		verifsym.Hole{Text: "\"con00\"", Lit: "\"" + s + "\"", Str: s, IsStr: true}, verifsym.Hole{Text: "vvv", Lit: name, Str: name, IsStr: true})
	verifsym.Assert(got == verifsym.Ite(c.listed && e.entry, 1, 0), "reported exactly for a text of an entry: "+e.stmt+" "+e.expr+" in "+c.text)
}
