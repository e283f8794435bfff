//verif:pkg cmd/gosec
//verif:prop C02
package main

import (
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/verifsym"
)

// vcLine is an arbitrary line text: a one- or two-digit line or a range; it also gives the number of its first line.
func vcLine(name string, forms int) (string, int) {
	switch verifsym.Choose(name+".form", forms) {
	case 0:
		s := verifsym.Str(name, 1, "1-9")
		return s, int(s[0] - '0')
	case 1:
		s := verifsym.Str(name, 2, "0-9")
		verifsym.Assume(s[0] != '0')
		return s, int(s[0]-'0')*10 + int(s[1]-'0')
	default:
		s := verifsym.Str(name, 1, "1-9")
		e := verifsym.Str(name+".end", 2, "0-9")
		return s + "-" + e, int(s[0] - '0')
	}
}

// Verif_C02_order: the report lists issues by severity, then message, file and first line, all descending, and is a permutation of its input.
//
//verif:bounds 3 issues (quick) or 4 (thorough); every severity; messages and file names of one arbitrary letter (message pairs also of different lengths); line texts of 1-2 digits or ranges d-dd
//verif:quick 40s
func Verif_C02_order() {
	n := 3
	forms := 2
	if verifsym.Tier() == 1 {
		n, forms = 4, 3
	}
	var in []*issue.Issue
	num := map[*issue.Issue]int{}
	for i := 0; i < n; i++ {
		k := string(rune('0' + i))
		sev := verifsym.Int("sev"+k, 0, 2)
		line, first := vcLine("line"+k, forms)
		is := &issue.Issue{Severity: issue.Score(sev), What: verifsym.Str("what"+k, 1, "a-z"), File: verifsym.Str("file"+k, 1, "A-Z"), Line: line, RuleID: "G" + k, Col: k}
		num[is] = first
		in = append(in, is)
	}
	out := append([]*issue.Issue(nil), in...)
	sortIssues(out)
	verifsym.Assert(len(out) == n, "no finding is lost or added")
	for _, a := range in {
		c := 0
		for _, b := range out {
			if a == b {
				c++
			}
		}
		verifsym.Assert(c == 1, "every finding appears exactly once")
	}
	for i := 0; i+1 < n; i++ {
		a, b := out[i], out[i+1]
		verifsym.Assert(a.Severity >= b.Severity, "severity descending")
		sameSev := a.Severity == b.Severity
		verifsym.Assert(verifsym.Or(!sameSev, a.What[0] >= b.What[0]), "then message")
		same2 := verifsym.And(sameSev, a.What[0] == b.What[0])
		verifsym.Assert(verifsym.Or(!same2, a.File[0] >= b.File[0]), "then file")
		same3 := verifsym.And(same2, a.File[0] == b.File[0])
		verifsym.Assert(verifsym.Or(!same3, num[a] >= num[b]), "then line")
	}
	verifsym.Observe("first", out[0].RuleID)
}

// Verif_C02_lines: of issues that are otherwise alike, the one with the higher line number comes first, whatever the size of the numbers.
//
//verif:bounds 2 issues; line numbers of 1 to 7 arbitrary digits each, one of them possibly as a range
//verif:quick 60s
func Verif_C02_lines() {
	number := func(name string) (string, int) {
		s := verifsym.Str(name, 1+verifsym.Choose(name+".len", 7), "0-9")
		verifsym.Assume(s[0] != '0')
		v := 0
		for i := 0; i < len(s); i++ {
			v = v*10 + int(s[i]-'0')
		}
		return s, v
	}
	l1, n1 := number("a")
	l2, n2 := number("b")
	if verifsym.Choose("range", 2) == 1 {
		l1 += "-" + l1
	}
	out := []*issue.Issue{{What: "w", File: "f", Line: l1, Col: "1"}, {What: "w", File: "f", Line: l2, Col: "2"}}
	sortIssues(out)
	verifsym.Assert(out[0].Col != out[1].Col, "permutation")
	verifsym.Assert(verifsym.Or(n1 == n2, (out[0].Col == "1") == (n1 > n2)), "higher line first")
}
