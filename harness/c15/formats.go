//verif:pkg verifh
//verif:prop C15
package verifh

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"encoding/xml"
	"strconv"
	"strings"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/verifsym"
	"github.com/gookit/color"
	"github.com/securego/gosec/v2/report"
	"gopkg.in/yaml.v3"
)

type vSuppression struct {
	Kind          string `json:"kind" yaml:"kind"`
	Justification string `json:"justification" yaml:"justification"`
}

type vJSONError struct {
	Line   int    `json:"line" yaml:"line"`
	Column int    `json:"column" yaml:"column"`
	Err    string `json:"error" yaml:"err"`
}

type vJSON struct {
	Errors map[string][]vJSONError `json:"Golang errors"`
	Issues []struct {
		Severity     string                   `json:"severity"`
		Confidence   string                   `json:"confidence"`
		Cwe          struct{ ID, URL string } `json:"cwe"`
		RuleID       string                   `json:"rule_id"`
		Details      string                   `json:"details"`
		File         string                   `json:"file"`
		Code         string                   `json:"code"`
		Line         string                   `json:"line"`
		Column       string                   `json:"column"`
		NoSec        bool                     `json:"nosec"`
		Suppressions []vSuppression           `json:"suppressions"`
		Autofix      string                   `json:"autofix"`
	}
	Stats        struct{ Files, Lines, Nosec, Found int }
	GosecVersion string
}

// Verif_C15_json: the JSON report decodes to the findings, suppressed ones included, in their order, to the statistics and to the errors.
//
//verif:bounds up to three findings of which any subset is suppressed and one has arbitrary scores, an arbitrary position or arbitrary texts of one byte (two in the thorough tier; printable ASCII, newline, tab, NUL); one error; counts up to three digits
//verif:quick 60s
func Verif_C15_json() {
	n := verifsym.Choose("findings", 3) + 1
	issues := vFindings(n, verifsym.Choose("suppressed", 1<<n), 1+verifsym.Tier(), " -~\n\t\x00")
	data := vInfo(issues)
	doc := vRendered("json", nil, data)
	vJSONDoc(doc, issues, data)
}

func vJSONDoc(doc string, issues []*issue.Issue, data *gosec.ReportInfo) {
	var r vJSON
	verifsym.Assert(json.Unmarshal([]byte(doc), &r) == nil, "JSON is well formed")
	verifsym.Assert(len(r.Issues) == len(issues), "every finding once")
	for k, i := range issues {
		g := r.Issues[k]
		verifsym.Assert(verifsym.And(g.Severity == vScore(i.Severity), g.Confidence == vScore(i.Confidence)), "severity and confidence")
		verifsym.Assert(g.RuleID == i.RuleID && g.Cwe.ID == i.Cwe.ID && g.Cwe.URL == i.Cwe.SprintURL(), "rule and weakness")
		verifsym.Assert(g.Details == i.What, "description")
		verifsym.Assert(g.File == i.File, "file")
		verifsym.Assert(g.Code == i.Code, "code")
		verifsym.Assert(g.Line == i.Line, "line")
		verifsym.Assert(g.Column == i.Col, "column")
		verifsym.Assert(g.NoSec == i.NoSec && g.Autofix == i.Autofix, "suppressed, fix")
		verifsym.Assert(len(g.Suppressions) == len(i.Suppressions), "suppressions")
		for q, s := range i.Suppressions {
			verifsym.Assert(g.Suppressions[q].Kind == s.Kind && g.Suppressions[q].Justification == s.Justification, "suppression")
		}
	}
	m := data.Stats
	verifsym.Assert(verifsym.And(r.Stats.Files == m.NumFiles, r.Stats.Lines == m.NumLines, r.Stats.Nosec == m.NumNosec, r.Stats.Found == m.NumFound), "statistics")
	verifsym.Assert(r.GosecVersion == data.GosecVersion, "version")
	vErrors(r.Errors, data)
}

func vErrors(got map[string][]vJSONError, data *gosec.ReportInfo) {
	verifsym.Assert(len(got) == len(data.Errors), "errors")
	for f, es := range data.Errors {
		verifsym.Assert(len(got[f]) == len(es), "errors of a file")
		for q, e := range es {
			g := got[f][q]
			verifsym.Assert(g.Line == e.Line && g.Column == e.Column && g.Err == e.Err, "error")
		}
	}
}

type vYAML struct {
	Errors map[string][]vJSONError
	Issues []struct {
		Severity   int
		Confidence int
		Cwe        struct{ ID, Description, Name string }
		RuleID     string
		What       string
		File       string
		Code       string
		Line       string
		Col        string
		NoSec      bool
		Autofix    string
	}
	Stats        struct{ NumFiles, NumLines, NumNosec, NumFound int }
	GosecVersion string
}

// Verif_C15_yaml: the YAML report decodes to the findings that are not suppressed, in their order, to the statistics and to the errors.
//
//verif:bounds up to three findings of which any subset is suppressed and one has arbitrary scores, an arbitrary position or arbitrary texts of up to three bytes; one error; counts up to three digits. The YAML document itself is opaque: the encoder and the decoder of yaml.v3 are taken to be inverse
//verif:quick 60s
func Verif_C15_yaml() {
	n := verifsym.Choose("findings", 3) + 1
	issues := vFindings(n, verifsym.Choose("suppressed", 1<<n), 2, " -~")
	want := vOpen(issues)
	data := vInfo(issues)
	doc := vRendered("yaml", nil, data)
	var r vYAML
	verifsym.Assert(yaml.Unmarshal([]byte(doc), &r) == nil, "YAML is well formed")
	verifsym.Assert(len(r.Issues) == len(want), "every open finding once")
	for k, i := range want {
		g := r.Issues[k]
		verifsym.Assert(verifsym.And(g.Severity == int(i.Severity), g.Confidence == int(i.Confidence)), "severity and confidence")
		verifsym.Assert(g.RuleID == i.RuleID && g.Cwe.ID == i.Cwe.ID, "rule and weakness")
		verifsym.Assert(g.What == i.What, "description")
		verifsym.Assert(g.File == i.File && g.Code == i.Code, "file, code")
		verifsym.Assert(g.Line == i.Line && g.Col == i.Col, "line, column")
		verifsym.Assert(g.NoSec == i.NoSec && g.Autofix == i.Autofix, "ignored, fix")
	}
	m := data.Stats
	verifsym.Assert(verifsym.And(r.Stats.NumFiles == m.NumFiles, r.Stats.NumLines == m.NumLines, r.Stats.NumNosec == m.NumNosec, r.Stats.NumFound == m.NumFound), "statistics")
	vErrors(r.Errors, data)
}

// Verif_C15_csv: the CSV report has one record for every finding that is not suppressed, in their order.
//
//verif:bounds up to three findings of which any subset is suppressed and one has arbitrary scores, an arbitrary position or arbitrary texts of one byte (two in the thorough tier) (letters, quotes, commas, blanks, newlines)
//verif:quick 90s
func Verif_C15_csv() {
	n := verifsym.Choose("findings", 3) + 1
	issues := vFindings(n, verifsym.Choose("suppressed", 1<<n), 1+verifsym.Tier(), "ab\", \n")
	want := vOpen(issues)
	doc := vRendered("csv", nil, vInfo(issues))
	recs, err := csv.NewReader(strings.NewReader(doc)).ReadAll()
	verifsym.Assert(err == nil, "CSV is well formed")
	verifsym.Assert(len(recs) == len(want), "every open finding once")
	for k, i := range want {
		g := recs[k]
		verifsym.Assert(len(g) == 7, "fields")
		verifsym.Assert(g[0] == i.File && g[1] == i.Line && g[2] == i.What, "file, line, description")
		verifsym.Assert(g[3] == vScore(i.Severity) && g[4] == vScore(i.Confidence), "severity and confidence")
		verifsym.Assert(g[5] == i.Code && g[6] == "CWE-"+i.Cwe.ID, "code, weakness")
	}
}

// Verif_C15_golint: the golint report has one line for every finding that is not suppressed, in their order.
//
//verif:bounds up to three findings of which any subset is suppressed and one has arbitrary scores, an arbitrary position or arbitrary texts of up to three printable bytes, with or without a weakness
//verif:quick 60s
func Verif_C15_golint() {
	n := verifsym.Choose("findings", 3) + 1
	issues := vFindings(n, verifsym.Choose("suppressed", 1<<n), 3, " -~")
	if verifsym.Bool("no weakness") {
		issues[0].Cwe = nil
	}
	want := vOpen(issues)
	doc := vRendered("golint", nil, vInfo(issues))
	lines := strings.SplitAfter(doc, "\n")
	verifsym.Assert(len(lines) == len(want)+1 && lines[len(want)] == "", "every open finding once")
	for k, i := range want {
		w := ""
		if i.Cwe != nil {
			w = "[CWE-" + i.Cwe.ID + "] "
		}
		first := i.Line
		if len(first) > 2 {
			first = first[:2]
		}
		verifsym.Assert(lines[k] == i.File+":"+first+":"+i.Col+": "+w+i.What+" (Rule:"+i.RuleID+", Severity:"+vScore(i.Severity)+", Confidence:"+vScore(i.Confidence)+")\n", "own data")
	}
}

// Verif_C15_text: the text report has one heading for every finding that is not suppressed, in their order, followed by its code, and its summary gives the statistics.
//
//verif:bounds up to three findings of which any subset is suppressed and one has arbitrary scores, an arbitrary position or arbitrary texts of up to three printable bytes, with or without a weakness; one error; without colours
//verif:quick 90s
func Verif_C15_text() {
	n := verifsym.Choose("findings", 3) + 1
	issues := vFindings(n, verifsym.Choose("suppressed", 1<<n), 3, "0-z")
	if verifsym.Bool("no weakness") {
		issues[0].Cwe = nil
	}
	want := vOpen(issues)
	data := vInfo(issues)
	doc := vRendered("text", nil, data)
	var heads, code []string
	for _, l := range strings.Split(doc, "\n") {
		switch {
		case strings.HasPrefix(l, "[/src/"):
			heads = append(heads, l)
		case strings.HasPrefix(l, "    ") || strings.HasPrefix(l, "  > ") && !strings.HasPrefix(l, "  > [line"):
			code = append(code, l[4:])
			verifsym.Assert(l[2] == '>', "the lines of the finding are marked")
		}
	}
	verifsym.Assert(len(heads) == len(want) && len(code) == len(want), "every open finding once")
	for k, i := range want {
		w := "CWE"
		if i.Cwe != nil {
			w = "CWE-" + i.Cwe.ID
		}
		mark := ""
		if i.NoSec {
			mark = " (NoSec)"
		}
		verifsym.Assert(heads[k] == "["+i.File+":"+i.Line+"] - "+i.RuleID+mark+" ("+w+"): "+i.What+" (Confidence: "+vScore(i.Confidence)+", Severity: "+vScore(i.Severity)+")", "own data")
		verifsym.Assert(code[k]+"\n" == i.Code, "own code")
	}
	e := data.Errors["/src/bad.go"][0]
	verifsym.Assert(strings.Contains(doc, "Golang errors in file: [/src/bad.go]:\n\n  > [line 3 : column "+strconv.Itoa(e.Column)+"] - "+e.Err+"\n"), "errors")
	m := data.Stats
	verifsym.Assert(strings.Contains(doc, "  Gosec  : v2.9\n  Files  : "+strconv.Itoa(m.NumFiles)+"\n  Lines  : "+strconv.Itoa(m.NumLines)+"\n  Nosec  : "+strconv.Itoa(m.NumNosec)+"\n  Issues : "+strconv.Itoa(m.NumFound)+"\n"), "statistics")
}

// Verif_C15_colours: with colours the text report says the same.
//
//verif:bounds as for the text report, with up to two findings; the terminal may show colours or not
//verif:quick 60s
func Verif_C15_colours() {
	n := verifsym.Choose("findings", 2) + 1
	issues := vFindings(n, verifsym.Choose("suppressed", 1<<n), 3, "0-z")
	data := vInfo(issues)
	if verifsym.Bool("nothing found") {
		data.Stats.NumFound = 0
	}
	plain := vRendered("text", nil, data)
	old := color.Enable
	color.Enable = true
	level := color.ForceSetColorLevel([]color.Level{color.LevelNo, color.Level16, color.LevelRgb}[verifsym.Choose("terminal", 3)])
	var buf bytes.Buffer
	err := report.CreateReport(&buf, "text", true, nil, data)
	color.ForceSetColorLevel(level)
	color.Enable = old
	verifsym.Assert(err == nil, "a report is written")
	text := ""
	for i, p := range strings.Split(buf.String(), "\x1b[") {
		if i > 0 {
			_, p, _ = strings.Cut(p, "m")
		}
		text += p
	}
	verifsym.Assert(text == plain, "the same text")
}

// Verif_C15_sonar: the SonarQube report has one issue for every finding that is not suppressed, in their order.
//
//verif:bounds up to three findings of which any subset is suppressed and one has arbitrary scores, an arbitrary position or arbitrary texts of one byte (two in the thorough tier; printable ASCII, newline)
//verif:quick 60s
func Verif_C15_sonar() {
	n := verifsym.Choose("findings", 3) + 1
	issues := vFindings(n, verifsym.Choose("suppressed", 1<<n), 1+verifsym.Tier(), " -~\n")
	want := vOpen(issues)
	doc := vRendered("sonarqube", []string{"/src"}, vInfo(issues))
	var r struct {
		Issues []struct {
			EngineID        string
			RuleID          string
			Severity        string
			Type            string
			PrimaryLocation struct {
				Message   string
				FilePath  string
				TextRange struct{ StartLine, EndLine int }
			}
		}
	}
	verifsym.Assert(json.Unmarshal([]byte(doc), &r) == nil, "JSON is well formed")
	verifsym.Assert(len(r.Issues) == len(want), "every open finding once")
	for k, i := range want {
		g := r.Issues[k]
		verifsym.Assert(g.RuleID == i.RuleID && g.EngineID == "gosec" && g.Type == "VULNERABILITY", "rule")
		verifsym.Assert(g.PrimaryLocation.Message == i.What, "description")
		verifsym.Assert(g.PrimaryLocation.FilePath == i.File[len("/src/"):], "file")
		sev := map[string]string{"LOW": "MINOR", "MEDIUM": "MAJOR", "HIGH": "BLOCKER"}[vScore(i.Severity)]
		verifsym.Assert(g.Severity == sev, "severity")
		lo, hi := vRange(i)
		verifsym.Assert(verifsym.And(g.PrimaryLocation.TextRange.StartLine == lo, g.PrimaryLocation.TextRange.EndLine == hi), "lines")
	}
}

// Verif_C15_junit: the JUnit report has one failed test case for every finding that is not suppressed, in the suite of its description.
//
//verif:bounds three findings of which any subset is suppressed, two with the same or different descriptions, of arbitrary severity and confidence
//verif:quick 60s
func Verif_C15_junit() {
	issues := vFindings(3, verifsym.Choose("suppressed", 8), 1, "a-z")
	if verifsym.Bool("same description") {
		issues[2].What = issues[0].What
	}
	want := vOpen(issues)
	doc := vRendered("junit-xml", nil, vInfo(issues))
	type testcase struct{ file, text string }
	suites := map[string][]testcase{}
	counts := map[string]string{}
	suite, file, text, in := "", "", "", false
	d := xml.NewDecoder(strings.NewReader(doc))
	for {
		t, err := d.Token()
		if t == nil {
			verifsym.Assert(err != nil && err.Error() == "EOF", "XML is well formed")
			break
		}
		switch t := t.(type) {
		case xml.StartElement:
			switch t.Name.Local {
			case "testsuite":
				suite = vAttr(t, "name")
				counts[suite] += vAttr(t, "tests")
			case "testcase":
				file = vAttr(t, "name")
			case "failure":
				in, text = true, ""
			}
		case xml.CharData:
			if in {
				text += string(t)
			}
		case xml.EndElement:
			if t.Name.Local == "failure" {
				in = false
				suites[suite] = append(suites[suite], testcase{file, text})
			}
		}
	}
	per := map[string][]*issue.Issue{}
	for _, i := range want {
		per[i.What] = append(per[i.What], i)
	}
	verifsym.Assert(len(per) == len(suites), "a suite for each description")
	for what, is := range per {
		verifsym.Assert(len(suites[what]) == len(is) && counts[what] == strconv.Itoa(len(is)), "every open finding once")
		for k, i := range is {
			g := suites[what][k]
			verifsym.Assert(g.file == i.File, "file")
			verifsym.Assert(g.text == "Results:\n["+i.File+":"+i.Line+"] - "+i.What+" (Confidence: "+strconv.Itoa(int(i.Confidence))+", Severity: "+strconv.Itoa(int(i.Severity))+", CWE: "+i.Cwe.ID+")\n> "+i.Code+"\n Autofix: "+i.Autofix, "own data")
		}
	}
}

// Verif_C15_html: the page shows the unsuppressed findings in their order, the statistics and the errors: its
// data is a value of JavaScript that nothing in the findings can end or escape from.
//
//verif:bounds as for JSON, including the characters < > & " ' \ / and newline, with the beginning of "</script>" and of "<!--" around them
//verif:assume the page's own script, which shows the data in the browser, is not executed
//verif:quick 60s
func Verif_C15_html() {
	markup, n := verifsym.Choose("markup", 4), 1
	if markup == 0 {
		n = 2
	}
	issues := vFindings(n, verifsym.Choose("suppressed", n+1), 1+verifsym.Tier(), " -~\n\t\x00")
	switch markup {
	case 1:
		issues[0].What = "</script" + issues[0].What
	case 2:
		issues[0].Code += "<!--" + verifsym.Str("comment", 1, " -~") + "-->"
	case 3:
		issues[0].File = "/src/]]><script" + verifsym.Str("tag", 1, " -~") + ".go"
	}
	data := vInfo(issues)
	doc := vRendered("html", nil, data)
	from := strings.Index(doc, "var data = ")
	verifsym.Assert(from > 0 && strings.LastIndex(doc[:from], "<script>") > strings.LastIndex(doc[:from], "</script>"), "the data is in a script")
	doc = doc[from+len("var data = "):]
	to := strings.Index(doc, "<")
	verifsym.Assert(to > 0 && doc[to:to+len("</script")] == "</script", "the script ends after the data")
	doc = doc[:to]
	for doc[len(doc)-1] == ' ' || doc[len(doc)-1] == '\n' {
		doc = doc[:len(doc)-1]
	}
	verifsym.Assert(doc[len(doc)-1] == ';', "the statement ends")
	doc = doc[:len(doc)-1]
	vJSONDoc(doc, vOpen(issues), data)
}
