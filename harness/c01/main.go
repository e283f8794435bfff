//verif:pkg cmd/gosec
//verif:prop C01
package main

import (
	"strings"

	"github.com/securego/gosec/v2/verifsym"
)

// vcFinding is a statement with one finding.
type vcFinding struct {
	id        string
	code      string
	sev, conf int
}

var vcFindings = []vcFinding{
	{"G404", "println(rand.Int())", 2, 1},
	{"G104", "os.Chdir(\"x\")", 0, 2},
	{"G401", "println(md5.New())", 1, 2},
	{"G101", "password := \"f62e5bcda4fae4f82370da0c6f20697b8f8447ef\"; println(password)", 2, 0},
	{"G115", "println(int8(len(os.Args)))", 2, 1},
	{"G306", "_ = os.WriteFile(\"x\", nil, 0o777)", 1, 2},
}

const vcAll = "G104,G101,G115,G306,G401,G404"

// vcProgram is a program with the given findings; those of nosec carry a directive.
func vcProgram(on, nosec func(i int) bool) string {
	s := "package main\n\nimport (\n\t\"crypto/md5\"\n\t\"math/rand\"\n\t\"os\"\n)\n\nvar _, _, _ = md5.New, rand.Int, os.Args\n\nfunc main() {\n"
	for i, f := range vcFindings {
		if !on(i) {
			s += "\n"
			continue
		}
		s += "\t" + f.code
		if nosec(i) {
			s += " // #nosec"
		}
		s += "\n"
	}
	return s + "}\n"
}

var vcLevels = []string{"LOW", "MEDIUM", "HIGH"}

// Verif_C01_verdict: exit status, listed findings and their number follow from the findings, the directives and the flags.
//
//verif:bounds two findings, each absent, present or with a directive; plain, nosec, show-ignored, track-suppressions, both, a check excluded, excluded and tracked; no-fail, quiet; without and with a package that does not type-check or parse
//verif:quick 100s
func Verif_C01_verdict() {
	a, b := verifsym.Choose("first", 3), verifsym.Choose("second", 3)
	on := func(i int) bool { return i == 0 && a > 0 || i == 1 && b > 0 }
	nosec := func(i int) bool { return i == 0 && a > 1 || i == 1 && b > 1 }
	mode := verifsym.Choose("mode", 7)
	args := [][]string{{}, {"-nosec"}, {"-show-ignored"}, {"-track-suppressions"}, {"-track-suppressions", "-show-ignored"}, {"-exclude=G404"}, {"-exclude=G404", "-track-suppressions"}}[mode]
	args = append([]string{"-include=" + vcAll}, args...)
	broken := verifsym.Choose("broken", 3)
	src := vcProgram(on, nosec)
	switch broken {
	case 1:
		src += "\nvar x int = \"text\"\n"
	case 2:
		src += "\nfunc g() {\n"
	}
	noFail, quiet := verifsym.Bool("no-fail"), verifsym.Bool("quiet")
	if noFail {
		args = append(args, "-no-fail")
	}
	if quiet {
		args = append(args, "-quiet")
	}
	code, r, ok := vcRun(verifsym.Dir([]verifsym.Src{{Name: "main.go", Text: src}}), args...)
	open, listed := 0, 0
	shown := make([]bool, 2)
	for i := 0; i < 2; i++ {
		excluded := mode >= 5 && i == 0
		suppressed := nosec(i) && mode != 1
		if !on(i) {
			continue
		}
		switch {
		case excluded:
			shown[i] = mode == 6
		case suppressed:
			shown[i] = mode == 2 || mode == 3 || mode == 4 || mode == 6
		default:
			shown[i] = true
			open++
		}
		if shown[i] {
			listed++
		}
	}
	want := 0
	if (open > 0 || broken > 0) && !noFail {
		want = 1
	}
	verifsym.Observe("code", code)
	verifsym.Assert(code == want, "exit status")
	if quiet && listed == 0 && broken == 0 {
		// nothing to report; other checks may have suppressed findings
		return
	}
	verifsym.Assert(ok, "a report")
	for _, is := range r.Issues {
		verifsym.Assert(strings.Contains(vcAll, is.RuleID) || len(is.Suppressions) > 0, "no finding of checks that were not requested, unless marked")
	}
	verifsym.Assert(r.Stats.Found == open, "number of found issues")
	verifsym.Assert((len(r.Errors) > 0) == (broken > 0), "errors in the report")
	for i := 0; i < 2; i++ {
		n := 0
		for _, is := range r.Issues {
			if is.RuleID == vcFindings[i].id {
				n++
				verifsym.Assert(is.NoSec == (nosec(i) && (mode == 2 || mode == 4)), "marked as ignored")
			}
		}
		verifsym.Assert((n == 1) == shown[i] && n <= 1, "listed")
	}
}

// Verif_C01_thresholds: exactly the findings that meet both thresholds count and are listed.
//
//verif:bounds six findings of different severity and confidence; every severity and confidence threshold in three spellings and unset; each finding with or without a directive (those of one other finding fixed); tracking on and off
//verif:quick 100s
func Verif_C01_thresholds() {
	levels := []string{"", "low", "medium", "high", "Low", "MEDIUM", "hIgh"}
	s, c := verifsym.Choose("severity", len(levels)), verifsym.Choose("confidence", len(levels))
	k := verifsym.Choose("directive", len(vcFindings)+1)
	track := verifsym.Bool("track")
	var args []string
	rank := []int{0, 0, 1, 2, 0, 1, 2}
	if s > 0 {
		args = append(args, "-severity="+levels[s])
	}
	if c > 0 {
		args = append(args, "-confidence", levels[c])
	}
	if track {
		args = append(args, "-track-suppressions")
	}
	args = append(args, "-include", vcAll)
	src := vcProgram(func(i int) bool { return true }, func(i int) bool { return i == k })
	code, r, ok := vcRun(verifsym.Dir([]verifsym.Src{{Name: "main.go", Text: src}}), args...)
	verifsym.Assert(ok, "a report")
	open := 0
	for i, f := range vcFindings {
		meets := f.sev >= rank[s] && f.conf >= rank[c]
		n := 0
		for _, is := range r.Issues {
			if is.RuleID == f.id {
				n++
				verifsym.Assert((len(is.Suppressions) > 0) == (i == k), "suppressions")
				verifsym.Assert(is.Severity == vcLevels[f.sev], "severity of the finding")
			}
		}
		want := meets && (i != k || track)
		verifsym.Assert(n <= 1 && (n == 1) == want, "listed exactly when it meets the thresholds: "+f.id)
		if meets && i != k {
			open++
		}
	}
	verifsym.Assert(r.Stats.Found == open, "number of found issues")
	verifsym.Assert(code == min(open, 1), "exit status")
}

// Verif_C01_words: a threshold is one of the three words in any case, and anything else fails the command.
//
//verif:bounds every text of 3, 4 and 6 letters for either threshold
//verif:quick 60s
func Verif_C01_words() {
	n := []int{3, 4, 6}[verifsym.Choose("size", 3)]
	w := verifsym.Str("word", n, "a-zA-Z")
	flags := []string{"-severity", "-confidence"}
	f := verifsym.Choose("flag", 2)
	src := vcProgram(func(i int) bool { return true }, func(i int) bool { return false })
	code, r, ok := vcRun(verifsym.Dir([]verifsym.Src{{Name: "main.go", Text: src}}), "-include="+vcAll, flags[f], w)
	rank := -1
	for i, l := range []string{"low", "medium", "high"} {
		if len(l) == n && vcFold(w, l) {
			rank = i
		}
	}
	if rank < 0 {
		verifsym.Assert(code == 1 && !ok, "an unknown level fails the command")
		return
	}
	verifsym.Assert(code == 1 && ok, "a report")
	for _, x := range vcFindings {
		n := 0
		for _, is := range r.Issues {
			if is.RuleID == x.id {
				n++
			}
		}
		level := x.sev
		if f == 1 {
			level = x.conf
		}
		verifsym.Assert((n == 1) == (level >= rank), "listed exactly when it meets the threshold: "+x.id)
	}
}

// vcFold compares with a lower-case word, ignoring case.
func vcFold(s, word string) bool {
	r := true
	for i := 0; i < len(word); i++ {
		r = verifsym.And(r, verifsym.Or(s[i] == word[i], s[i] == word[i]-32))
	}
	return r
}
