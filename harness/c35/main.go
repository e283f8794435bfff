//verif:pkg cmd/gosec
//verif:prop C35
package main

import (
	"strconv"
	"strings"

	"github.com/securego/gosec/v2/verifsym"
)

// Verif_C35_command: the errors of the scanned code are in the report of the run, in the order of their lines, and the findings in the code are reported as well.
//
//verif:bounds a file with a finding and an undefined name at any three of five lines, next to one without errors or with an error of its own; the file in one of three directories, one with a colon in its name; with or without findings, quiet, and not to fail
//verif:quick 60s
func Verif_C35_command() {
	lines := []string{"package p", "", `import "math/rand"`, "", "func F() int {", "", "", "", "", "", "\treturn rand.Int()", "}", ""}
	var want []int
	for k := 6; k <= 10; k++ {
		if verifsym.Bool("error at " + strconv.Itoa(k)) {
			if k%2 == 0 {
				lines[k-1] = "\tundefined" + strconv.Itoa(k) + "()"
			} else {
				lines[k-1] = "\tvar _ int = \"text\""
			}
			want = append(want, k)
		}
	}
	verifsym.Assume(len(want) <= 3)
	place := []string{"pkg", "a:b", "c d"}[verifsym.Choose("directory", 3)]
	other := "package p\n\nfunc G() {}\n"
	bad := verifsym.Bool("another file with an error")
	if bad {
		other = "package p\n\nfunc G() { undefined() }\n"
	}
	dir := verifsym.Dir([]verifsym.Src{{Name: place + "/a.go", Text: strings.Join(lines, "\n")}, {Name: place + "/b.go", Text: other}})
	// a run without failure or findings reports the errors as well
	args, fails, findings := []string{"-include=G404"}, 1, 1
	if len(want) > 0 || bad {
		switch verifsym.Choose("flags", 4) {
		case 1:
			args, findings = []string{"-include=G401", "-quiet"}, 0
		case 2:
			args, fails, findings = []string{"-include=G401", "-quiet", "-no-fail"}, 0, 0
		case 3:
			args, fails = []string{"-include=G404", "-no-fail"}, 0
		}
	}
	code, r, ok := vcRunPaths(dir+"/report.json", args, dir+"/"+place)
	verifsym.Assert(ok && code == fails, "a report and a failure")
	verifsym.Assert(len(r.Issues) == findings && (findings == 0 || r.Issues[0].Line == "11"), "the finding")
	own := 0
	for file, list := range r.Errors {
		switch {
		case file == dir+"/"+place+"/a.go":
			verifsym.Assert(len(list) == len(want), "every error of the file")
			for k, e := range list {
				verifsym.Assert(int(e.(map[string]interface{})["line"].(float64)) == want[k], "at its line, in their order")
			}
			own++
		case file == dir+"/"+place+"/b.go":
			verifsym.Assert(bad && len(list) == 1 && int(list[0].(map[string]interface{})["line"].(float64)) == 3, "the error of the other file")
			own++
		}
	}
	files := 0
	if len(want) > 0 {
		files++
	}
	if bad {
		files++
	}
	verifsym.Assert(own == files, "every file with errors")
}
