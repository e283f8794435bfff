//verif:pkg cmd/gosec
//verif:prop C02
package main

import (
	"path/filepath"
	"strconv"

	"github.com/securego/gosec/v2/verifsym"
)

// Verif_C02_report: the command reports every finding, as often as it was made, in descending order of severity, description, file and line.
//
//verif:bounds two files with two (thorough: three) statements each, every one of six with none, one or two findings, some at the same place
//verif:quick 100s
func Verif_C02_report() {
	stmts := []struct {
		code, rule string
		n          int
	}{
		{"println()", "", 0},
		{"println(rand.Int())", "G404", 1},
		{"println(rand.Int(), rand.Int())", "G404", 2},
		{"println(md5.New())", "G401", 1},
		{"os.Chdir(\"x\"); os.Chdir(\"x\")", "G104", 2},
		{"println(rand.Int()); os.Chdir(\"x\") // #nosec G104", "G404", 1},
	}
	want := map[string]int{}
	total := 0
	var files []verifsym.Src
	for _, f := range []string{"a", "b"} {
		s := "package main\n\nimport (\n\t\"crypto/md5\"\n\t\"math/rand\"\n\t\"os\"\n)\n\nvar _, _, _ = md5.New, rand.Int, os.Args\n\nfunc " + f + "() {\n"
		for j := 0; j < 2+verifsym.Tier(); j++ {
			c := stmts[verifsym.Choose(f+strconv.Itoa(j), len(stmts))]
			s += "\t" + c.code + "\n"
			if c.n > 0 {
				want[c.rule+" "+f+".go "+strconv.Itoa(12+j)] += c.n
				total += c.n
			}
		}
		files = append(files, verifsym.Src{Name: f + ".go", Text: s + "}\n"})
	}
	_, r, ok := vcRun(verifsym.Dir(files), "-include=G404,G401,G104")
	verifsym.Assert(ok, "a report")
	verifsym.Assert(len(r.Issues) == total && r.Stats.Found == total, "every finding, as often as it was made")
	rank := map[string]int{"HIGH": 3, "MEDIUM": 2, "LOW": 1}
	for i, is := range r.Issues {
		want[is.RuleID+" "+filepath.Base(is.File)+" "+is.Line]--
		if i == 0 {
			continue
		}
		p := r.Issues[i-1]
		a, _ := strconv.Atoi(p.Line)
		b, _ := strconv.Atoi(is.Line)
		switch {
		case p.Severity != is.Severity:
			verifsym.Assert(rank[p.Severity] > rank[is.Severity], "higher severity first")
		case p.Details != is.Details:
			verifsym.Assert(p.Details > is.Details, "then by description, later ones first")
		case p.File != is.File:
			verifsym.Assert(p.File > is.File, "then by file, later ones first")
		default:
			verifsym.Assert(a >= b, "then by line, later ones first")
		}
	}
	for k, n := range want {
		verifsym.Assert(n == 0, "exactly the findings made: "+k)
	}
}
