//verif:pkg verifh
//verif:prop C17
package verifh

import (
	"strconv"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/verifsym"
)

var vFormats = []string{"json", "sarif", "yaml", "csv", "junit-xml", "text", "golint", "sonarqube", "html", "unknown"}

// Verif_C17_pairs: a report is the same whether or not another was rendered from the same findings before.
//
//verif:bounds every pair of formats; three findings of which any subset is suppressed, with arbitrary severity and one arbitrary byte of description
//verif:quick 90s
func Verif_C17_pairs() {
	first := vFormats[verifsym.Choose("first", len(vFormats))]
	second := vFormats[verifsym.Choose("second", len(vFormats))]
	mask := verifsym.Choose("suppressed", 8)
	what := "w" + verifsym.Str("what", 1, "a-z")
	sev := issue.Score(verifsym.Int("severity", 0, 2))
	make3 := func() *gosec.ReportInfo {
		var issues []*issue.Issue
		for k := 0; k < 3; k++ {
			i := vPlain(k)
			if k == 1 {
				i.What, i.Severity = what, sev
			}
			if mask>>k&1 == 1 {
				i.NoSec = k == 2
				i.Suppressions = []issue.SuppressionInfo{{Kind: "inSource", Justification: "because " + strconv.Itoa(k)}}
			}
			issues = append(issues, i)
		}
		errs := map[string][]gosec.Error{"/src/bad.go": {{Line: 3, Column: 4, Err: "bad"}}}
		return gosec.NewReportInfo(issues, &gosec.Metrics{NumFiles: 1, NumLines: 2, NumNosec: 3, NumFound: 4}, errs).WithVersion("v2.9")
	}
	roots := []string{"/src"}
	alone := vRendered(second, roots, make3())
	data := make3()
	issues := data.Issues
	vRendered(first, roots, data)
	after := vRendered(second, roots, data)
	if second != "html" {
		verifsym.Assert(alone == after, "the second report is the one produced alone")
	}
	fresh := make3()
	verifsym.Assert(len(data.Issues) == 3 && len(issues) == 3, "the findings are still there")
	for k, i := range issues {
		g, w := data.Issues[k], fresh.Issues[k]
		verifsym.Assert(g == i, "the findings are still in order")
		verifsym.Assert(i.RuleID == w.RuleID && i.What == w.What && i.File == w.File && i.Line == w.Line && i.Col == w.Col && i.Code == w.Code, "the findings are unchanged")
		verifsym.Assert(i.Severity == w.Severity && i.Confidence == w.Confidence && i.NoSec == w.NoSec && i.Autofix == w.Autofix && i.Cwe == w.Cwe, "the findings are unchanged")
		verifsym.Assert(len(i.Suppressions) == len(w.Suppressions), "the suppressions are unchanged")
		for q := range w.Suppressions {
			verifsym.Assert(i.Suppressions[q] == w.Suppressions[q], "the suppressions are unchanged")
		}
	}
	m := data.Stats
	verifsym.Assert(m.NumFiles == 1 && m.NumLines == 2 && m.NumNosec == 3 && m.NumFound == 4 && data.GosecVersion == "v2.9" && len(data.Errors) == 1, "the statistics are unchanged")
}
