//verif:pkg verifh
//verif:prop C06
package verifh

import (
	"go/ast"
	"go/token"
	"strconv"
	"strings"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/analyzers"
	"github.com/securego/gosec/v2/cwe"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/rules"
	"github.com/securego/gosec/v2/verifsym"
)

// Verif_C06_identity: each check reports its findings under its own ID, with its catalogued weakness, and with every other field filled in.
//
//verif:bounds one program for each check, as each of three files of a package, of the rule and analyzer tables (G307 and G601 have none: see Verif_C06_cwe)
//verif:quick 90s
func Verif_C06_identity() {
	s := vSamples[verifsym.Choose("sample", len(vSamples))]
	k := verifsym.Choose("file", 3)
	files := []verifsym.Src{{Name: "a.go", Text: "package main\n\n// nothing\nfunc a() {}\n"}, {Name: "b.go", Text: "package main\n\nimport \"fmt\"\n\nfunc b() { fmt.Println() }\n"}}
	files = append(files[:k:k], append([]verifsym.Src{{Name: "main.go", Text: s.source()}}, files[k:]...)...)
	p := verifsym.LoadFiles("example.com/work", files, nil)
	issues := vScan(vAnalyzer(gosec.NewConfig(), s.Rule), p)
	verifsym.Assert(len(issues) == 1, "one finding for "+s.Rule)
	for _, i := range issues {
		verifsym.Assert(i.RuleID == s.Rule, "own ID: "+s.Rule)
		vWhole(i, p.GoFiles[k])
	}
}

// vWhole asserts that a finding has all its parts.
func vWhole(i *issue.Issue, file string) {
	verifsym.Assert(i.Cwe != nil && i.Cwe.ID != "" && i.Cwe == cwe.Get(i.Cwe.ID), "weakness from the catalogue")
	verifsym.Assert(i.File == file, "file")
	verifsym.Assert(i.What != "", "text")
	l, err := strconv.Atoi(strings.Split(i.Line, "-")[0])
	verifsym.Assert(err == nil && l > 0, "line")
	c, err := strconv.Atoi(i.Col)
	verifsym.Assert(err == nil && c > 0, "column")
	verifsym.Assert(strings.Contains(i.Code, strconv.Itoa(l)+": "), "snippet has the line")
	verifsym.Assert(i.Severity >= issue.Low && i.Severity <= issue.High && i.Confidence >= issue.Low && i.Confidence <= issue.High, "severity and confidence")
}

// Verif_C06_cwe: every check has a weakness of the catalogue and nothing else has one.
//
//verif:bounds every identifier of a letter and three digits
func Verif_C06_cwe() {
	known := map[string]bool{}
	for id := range rules.Generate(false).Rules {
		known[id] = true
	}
	for id := range analyzers.Generate(false).Analyzers {
		known[id] = true
	}
	verifsym.Assert(len(known) >= 40, "tables are filled")
	ids := make([]string, 0, len(known))
	for id := range known {
		ids = append(ids, id)
	}
	id := verifsym.Str("id", 4, "G0-9")
	verifsym.Assume(verifsym.And(id[0] == 'G', id[1] != 'G', id[2] != 'G', id[3] != 'G'))
	w := issue.GetCweByRule(id)
	is := false
	for _, k := range ids {
		is = verifsym.Or(is, verifsym.StrEq(id, k))
	}
	verifsym.Assert(verifsym.Implies(is, w != nil), "each check has a weakness")
	if w != nil {
		verifsym.Assert(cwe.Get(w.ID) == w && w.Name != "" && w.Description != "" && w.ID != "", "catalogued")
		verifsym.Assert(w.SprintID() == "CWE-"+w.ID && w.SprintURL() == "https://cwe.mitre.org/data/definitions/"+w.ID+".html", "link")
	}
}

// Verif_C06_location: a finding names the lines and the column of its node, and its snippet consists of those lines and one around them.
//
//verif:bounds every file of 8 (thorough: 11) bytes of a, space and line breaks; every node in it
//verif:quick 120s
func Verif_C06_location() {
	n := 8 + 3*verifsym.Tier()
	content := verifsym.Str("content", n, "a\n ")
	name := verifsym.File("x.go", content)
	fobj := token.NewFileSet().AddFile(name, -1, n)
	fobj.SetLinesForContent([]byte(content))
	start := verifsym.Choose("start", n)
	end := start + 1 + verifsym.Choose("len", n-start)
	verifsym.Assume(verifsym.And(content[start] != '\n', content[end-1] != '\n'))
	node := &ast.BasicLit{ValuePos: fobj.Pos(start), Value: strings.Repeat("a", end-start)}
	i := issue.New(fobj, node, "G401", "what", issue.High, issue.Low)
	vPlace(i, content, start, end)
	verifsym.Assert(i.File == name && i.RuleID == "G401" && i.What == "what" && i.Severity == issue.High && i.Confidence == issue.Low && i.Cwe == cwe.Get("328"), "fields")
	verifsym.Assert(!i.NoSec && len(i.Suppressions) == 0 && i.Autofix == "", "nothing else")
}

// vPlace compares the place and the snippet of a finding with the text from start to end of the content.
func vPlace(i *issue.Issue, content string, start, end int) {
	first, last, col := 1, 1, 1
	for k := 0; k < end; k++ {
		if content[k] == '\n' {
			if k < start {
				first++
				col = 0
			}
			last++
		}
		if k < start {
			col++
		}
	}
	line := strconv.Itoa(first)
	if last != first {
		line += "-" + strconv.Itoa(last)
	}
	verifsym.Assert(i.Line == line, "lines")
	verifsym.Assert(i.Col == strconv.Itoa(col), "column")
	code, num := "", 1
	from := 0
	for k := 0; k <= len(content); k++ {
		if k < len(content) && content[k] != '\n' {
			continue
		}
		if k == len(content) && from == k {
			break // the file ends in a line break
		}
		if num >= first-1 && num <= last+1 {
			code += strconv.Itoa(num) + ": " + content[from:k] + "\n"
		}
		num++
		from = k + 1
	}
	verifsym.Assert(verifsym.StrEq(i.Code, code), "snippet")
}

// Verif_C06_scan: the place of a scan's finding is that of the code, wherever it stands in the file.
//
//verif:bounds a rule and an analyzer finding on one or two lines, at an arbitrary indentation of 0-3 characters; 0-2 lines of arbitrary text above, 0-2 lines of arbitrary text below, with or without a line break at the end of the file
//verif:quick 60s
func Verif_C06_scan() {
	w := verifsym.Str("text", 3, "a-z{}\" ")
	pre := strings.Repeat("// XYZ\n", verifsym.Choose("above", 3))
	post := strings.Repeat("// XYZ\n", verifsym.Choose("below", 3))
	indent := []string{"", "\t", "  ", " \t "}[verifsym.Choose("indent", 4)]
	kind := verifsym.Choose("kind", 4)
	var id, head, code string
	switch kind {
	case 0:
		id, head, code = "G401", "import \"crypto/md5\"\n"+pre+"var _ =\n"+indent, "md5.New()"
	case 1:
		id, head, code = "G401", "import \"crypto/md5\"\n"+pre+"var _ =\n"+indent, "md5.Sum(\n\tnil)"
	case 2:
		id, head, code = "G115", pre+"func f(x uint32) int32 {\n"+indent+"return ", "int32(x)"
	case 3:
		id, head, code = "G115", pre+"func f(x uint32) int32 {\n"+indent+"return ", "int32(\nx)"
	}
	tail := "\n"
	if kind >= 2 {
		tail = "\n}\n"
	}
	src := "package main\n" + head + code + tail + post
	if verifsym.Choose("cut", 2) == 1 {
		src = src[:len(src)-1]
	}
	start := len("package main\n" + head)
	end := start + len(code)
	issues := vScan(vAnalyzer(gosec.NewConfig(), id), verifsym.LoadFiles("example.com/work", []verifsym.Src{{Name: "main.go", Text: src}}, []verifsym.Hole{{Text: "XYZ", Lit: w}}))
	verifsym.Assert(len(issues) == 1, "one finding")
	content := strings.ReplaceAll(src, "XYZ", w)
	if kind >= 2 {
		// analyzers know the position of the opening parenthesis only
		start += len("int32")
		end = start
	}
	vPlace(issues[0], content, start, end)
}

// Verif_C06_far: the same holds far down in a file, far to the right and for long code.
//
//verif:bounds 0 to 70000 lines above, 0 to 5000 characters to the left, also ones of several bytes, 1 to 300 lines of code (one of the three varied at a time), for a rule and an analyzer
//verif:quick 60s
func Verif_C06_far() {
	lines, left, long := 0, "", 1
	switch verifsym.Choose("vary", 3) {
	case 0:
		lines = []int{5, 7, 8, 9, 95, 96, 97, 98, 126, 127, 253, 254, 255, 997, 9996, 9998, 32767, 65535, 70000}[verifsym.Choose("above", 19)]
	case 1:
		n := []int{8, 9, 80, 99, 126, 127, 128, 254, 255, 256, 999, 5000}[verifsym.Choose("left", 12)]
		left = strings.Repeat(" ", n)
		if verifsym.Bool("comment") {
			left = "/* \u00e4\u20ac\U0001f600" + strings.Repeat("x", n) + " */"
		}
	case 2:
		long = []int{2, 3, 5, 10, 11, 64, 100, 128, 256, 300}[verifsym.Choose("long", 10)]
	}
	head, code, tail, id := "import \"crypto/md5\"\n", "md5.Sum("+strings.Repeat("\n", long-1)+"nil)", "\n", "G401"
	if verifsym.Bool("analyzer") {
		head, code, tail, id = "func f(x uint32) int32 {\n", "int32("+strings.Repeat("\n", long-1)+"x)", "\n}\n", "G115"
	}
	before := "package main\n"
	if id == "G401" {
		before += head + strings.Repeat("//\n", lines) + "var _ =\n" + left
	} else {
		before += strings.Repeat("//\n", lines) + head + left + "return "
	}
	content := before + code + tail
	issues := vScan(vAnalyzer(gosec.NewConfig(), id), verifsym.LoadFiles("example.com/work", []verifsym.Src{{Name: "main.go", Text: content}}, nil))
	verifsym.Assert(len(issues) == 1, "one finding")
	start := len(before)
	end := start + len(code)
	if id == "G115" {
		start += len("int32")
		end = start
	}
	vPlace(issues[0], content, start, end)
}
