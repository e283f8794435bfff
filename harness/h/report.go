//verif:helper verifh
package verifh

import (
	"bytes"
	"encoding/xml"
	"strconv"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/report"
	"github.com/securego/gosec/v2/verifsym"
)

// vRendered is the document written for the findings.
func vRendered(format string, roots []string, data *gosec.ReportInfo) string {
	var buf bytes.Buffer
	err := report.CreateReport(&buf, format, false, roots, data)
	verifsym.Assert(err == nil, "a report is written: "+format)
	return buf.String()
}

var vReportRules = []string{"G404", "G101", "G602"}

// vPlain is the finding number k with fixed data of its own.
func vPlain(k int) *issue.Issue {
	n := strconv.Itoa(10 * (k + 1))
	id := vReportRules[k%3]
	return &issue.Issue{
		Severity: issue.Score(k % 3), Confidence: issue.Score((k + 1) % 3), Cwe: issue.GetCweByRule(id), RuleID: id,
		What: "Finding " + strconv.Itoa(k), File: "/src/f" + strconv.Itoa(k) + ".go",
		Code: n + ": x := " + strconv.Itoa(k) + "\n", Line: n, Col: strconv.Itoa(k + 1),
	}
}

// vAny is the finding number k with arbitrary texts, code, scores or position: the description and the code have n bytes of
// the character set.
func vAny(k, n int, charset string) *issue.Issue {
	i := vPlain(k)
	switch verifsym.Choose("arbitrary part", 4) {
	case 0:
		i.What = "W" + verifsym.Str("what", n, charset) + "."
		i.File = "/src/" + verifsym.Str("file", 1, "a-z") + "x.go"
		i.Autofix = "Fix " + verifsym.Str("autofix", 1, "a-z")
	case 1:
		i.Code = i.Line + ": " + verifsym.Str("code", n, charset) + "\n"
	case 2:
		i.Severity = issue.Score(verifsym.Int("severity", 0, 2))
		i.Confidence = issue.Score(verifsym.Int("confidence", 0, 2))
	default:
		i.Line = verifsym.Str("line", 2, "1-9")
		i.Code = i.Line + ": x\n"
		if verifsym.Bool("several lines") {
			i.Line += "-" + verifsym.Str("end", 3, "1-9")
		}
		i.Col = verifsym.Str("column", 2, "1-9")
	}
	return i
}

// vFindings are n findings of which one has an arbitrary part and some, given by the bits of mask, are suppressed. Of three
// findings the last is found twice, or has only another arbitrary part, unless it is the arbitrary one itself.
func vFindings(n, mask, size int, charset string) []*issue.Issue {
	any := verifsym.Choose("arbitrary finding", n)
	var r []*issue.Issue
	for k := 0; k < n; k++ {
		i := vPlain(k)
		if k == 2 && any < 2 {
			i = vPlain(1)
		}
		if k == any {
			i = vAny(k, size, charset)
		}
		if mask>>k&1 == 1 {
			i.Suppressions = []issue.SuppressionInfo{{Kind: "inSource", Justification: "because " + strconv.Itoa(k)}}
		}
		// ignored findings are marked if they are to be shown, and then they are shown without tracking suppressions too
		i.NoSec = (len(i.Suppressions) > 0) != (k == 1)
		r = append(r, i)
	}
	return r
}

func vOpen(issues []*issue.Issue) []*issue.Issue {
	r := []*issue.Issue{}
	for _, i := range issues {
		if len(i.Suppressions) == 0 {
			r = append(r, i)
		}
	}
	return r
}

func vInfo(issues []*issue.Issue) *gosec.ReportInfo {
	m := &gosec.Metrics{NumFiles: verifsym.Int("files", 0, 9), NumLines: verifsym.Int("lines", 100, 999), NumNosec: verifsym.Int("nosec", 0, 9), NumFound: verifsym.Int("found", 0, 9)}
	errs := map[string][]gosec.Error{"/src/bad.go": {{Line: 3, Column: verifsym.Int("error column", 10, 99), Err: "bad " + verifsym.Str("error", 1, "a-z")}}}
	return gosec.NewReportInfo(issues, m, errs).WithVersion("v2.9")
}

// vScore is the name of a score.
func vScore(s issue.Score) string {
	switch int(s) {
	case 0:
		return "LOW"
	case 1:
		return "MEDIUM"
	}
	return "HIGH"
}

// vRange gives the lines of a finding.
func vRange(i *issue.Issue) (int, int) {
	lo := int(vDigits(i.Line[:2], 10))
	if len(i.Line) > 2 {
		return lo, int(vDigits(i.Line[3:], 10))
	}
	return lo, lo
}

func vAttr(e xml.StartElement, name string) string {
	for _, a := range e.Attr {
		if a.Name.Local == name {
			return a.Value
		}
	}
	return ""
}
