//verif:pkg verifh
//verif:prop C38
package verifh

import (
	"bytes"
	"encoding/json"
	"strings"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/report"
	"github.com/securego/gosec/v2/verifsym"
)

type vPageData struct {
	Errors map[string][]struct {
		Line   int    `json:"line"`
		Column int    `json:"column"`
		Err    string `json:"error"`
	} `json:"Golang errors"`
	Issues []struct {
		Severity   string              `json:"severity"`
		Confidence string              `json:"confidence"`
		Cwe        struct{ ID string } `json:"cwe"`
		RuleID     string              `json:"rule_id"`
		Details    string              `json:"details"`
		File       string              `json:"file"`
		Code       string              `json:"code"`
		Line       string              `json:"line"`
		Column     string              `json:"column"`
		NoSec      bool                `json:"nosec"`
	}
	Stats struct {
		Files int `json:"files"`
		Lines int `json:"lines"`
		Nosec int `json:"nosec"`
		Found int `json:"found"`
	}
	GosecVersion string
}

// vPage is the page for the findings.
func vPage(info *gosec.ReportInfo) string {
	var buf bytes.Buffer
	verifsym.Assert(report.CreateReport(&buf, "html", false, nil, info) == nil, "the page is written")
	return buf.String()
}

// vAround gives what is before and behind the data in the page without findings.
func vAround() (head, tail string) {
	page := vPage(gosec.NewReportInfo(nil, &gosec.Metrics{}, nil))
	start := strings.Index(page, `{"Golang errors":`)
	verifsym.Assert(start >= 0, "the page has the data")
	depth := 0
	for i := start; ; i++ {
		switch page[i] {
		case '{':
			depth++
		case '}':
			if depth--; depth == 0 {
				return page[:start], page[i+1:]
			}
		}
	}
}

// vInert tells whether a text within a script can neither end it nor be taken for anything but data.
func vInert(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		ok = verifsym.And(ok, s[i] != '<', s[i] != '>', s[i] != '&', s[i] >= ' ')
		if i+2 < len(s) {
			// the line separators of Unicode end a string of a script
			ok = verifsym.And(ok, verifsym.Or(s[i] != 0xe2, s[i+1] != 0x80, s[i+2]&0xfe != 0xa8))
		}
	}
	return ok
}

func vSamePage(issues []*issue.Issue, info *gosec.ReportInfo) {
	page := vPage(info)
	head, tail := vAround()
	verifsym.Assert(len(page) > len(head)+len(tail) && page[:len(head)] == head && page[len(page)-len(tail):] == tail, "the page around the data is the same for all findings")
	data := page[len(head) : len(page)-len(tail)]
	verifsym.Assert(vInert(data), "the data is nothing but data")
	var got vPageData
	verifsym.Assert(json.Unmarshal([]byte(data), &got) == nil, "the data is decoded")
	want := vOpen(issues)
	verifsym.Assert(len(got.Issues) == len(want), "every finding that is not suppressed")
	for k, i := range want {
		g := got.Issues[k]
		verifsym.Assert(g.Details == i.What, "the description")
		verifsym.Assert(g.Code == i.Code, "the code")
		verifsym.Assert(g.File == i.File, "the file")
		verifsym.Assert(verifsym.And(g.Line == i.Line, g.Column == i.Col), "the position")
		verifsym.Assert(verifsym.And(g.RuleID == i.RuleID, g.Cwe.ID == i.Cwe.ID), "the rule and weakness")
		verifsym.Assert(verifsym.And(g.Severity == vScore(i.Severity), g.Confidence == vScore(i.Confidence), g.NoSec == i.NoSec), "the scores")
	}
	verifsym.Assert(verifsym.And(got.Stats.Files == info.Stats.NumFiles, got.Stats.Lines == info.Stats.NumLines, got.Stats.Nosec == info.Stats.NumNosec, got.Stats.Found == info.Stats.NumFound), "the statistics")
	e := got.Errors["/src/bad.go"]
	want1 := info.Errors["/src/bad.go"]
	verifsym.Assert(len(got.Errors) == len(info.Errors) && len(e) == len(want1), "the errors")
	for k := range e {
		verifsym.Assert(verifsym.And(e[k].Line == want1[k].Line, e[k].Column == want1[k].Column, e[k].Err == want1[k].Err), "the errors")
	}
	verifsym.Assert(got.GosecVersion == info.GosecVersion, "the version")
}

// Verif_C38_findings: the page shows the findings that are not suppressed, in their order and each with its own data.
//
//verif:bounds up to three findings, any of them suppressed, one with arbitrary text of two bytes, position or scores; arbitrary statistics; an error of one arbitrary byte
//verif:quick 60s
func Verif_C38_findings() {
	n := verifsym.Choose("findings", 4)
	var issues []*issue.Issue
	if n > 0 {
		issues = vFindings(n, verifsym.Choose("suppressed", 1<<n), 2, "a-z")
	}
	vSamePage(issues, vInfo(issues))
}

// Verif_C38_text: no text of a finding or an error, whatever its characters, is anything but data in the page.
//
//verif:bounds descriptions, code, paths, suggested fixes, error texts and paths of errors of up to three (thorough: four) arbitrary characters out of those that mean something in HTML and scripts, and the parts of the encodings of characters beyond ASCII; in a finding beside another
//verif:quick 90s
func Verif_C38_text() {
	text := []string{"</script", "x", "<!--", "{{.}}", ""}[verifsym.Choose("before", 5)] + verifsym.Str("text", 3+verifsym.Tier(), "<>/&'\"`\\\n{}a=-")
	i := vPlain(1)
	errs := map[string][]gosec.Error{}
	switch verifsym.Choose("where", 6) {
	case 0:
		i.What = text
	case 1:
		i.Code = "10: " + text
	case 2:
		i.File = text
	case 3:
		i.Autofix = text
	case 4:
		errs["/src/bad.go"] = []gosec.Error{{Line: 1, Column: 2, Err: text}}
	case 5:
		errs[text] = []gosec.Error{{Line: 1, Column: 2, Err: "bad"}}
	}
	issues := []*issue.Issue{vPlain(0), i}
	vSamePage(issues, gosec.NewReportInfo(issues, &gosec.Metrics{NumFiles: 1}, errs))
}

// Verif_C38_unicode: the same for characters beyond ASCII and control characters.
//
//verif:bounds a description, code or path with one of ten characters, among them the line separators of Unicode
//verif:quick 30s
func Verif_C38_unicode() {
	c := []string{"\u2028", "\u2029", "\u00e9", "\u2027", "\U0001f600", "\x00", "\r", "\x1b", "\x7f", "\ufeff"}[verifsym.Choose("char", 10)]
	i := vPlain(1)
	switch verifsym.Choose("where", 3) {
	case 0:
		i.What = "x" + c + "y"
	case 1:
		i.Code = c
	case 2:
		i.File = c + c
	}
	issues := []*issue.Issue{vPlain(0), i}
	vSamePage(issues, gosec.NewReportInfo(issues, &gosec.Metrics{NumFiles: 1}, nil))
}
