//verif:pkg verifh
//verif:prop C13
package verifh

import (
	"encoding/json"
	"strconv"
	"strings"

	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/verifsym"
)

type vSarifText struct{ Text, Markdown string }

type vSarifRule struct {
	ID                   string
	GUID                 string
	FullDescription      vSarifText
	DefaultConfiguration struct{ Level string }
	Relationships        []*struct {
		Kinds  []string
		Target *struct {
			ID, GUID      string
			Index         int
			ToolComponent struct{ Name, GUID string }
		}
	}
}

type vSarifResult struct {
	RuleID       string
	RuleIndex    int
	Level        string
	Message      vSarifText
	Suppressions []*struct{ Kind, Justification string }
	Fixes        []*struct{ Description vSarifText }
	Locations    []*struct {
		PhysicalLocation struct {
			ArtifactLocation struct{ URI string }
			Region           struct {
				StartLine, EndLine, StartColumn, EndColumn int
				Snippet                                    vSarifText
			}
		}
	}
}

type vSarifTool struct {
	Name, GUID          string
	Rules               []*vSarifRule
	Taxa                []*vSarifRule
	SupportedTaxonomies []*struct{ Name, GUID string }
}

type vSarifRun struct {
	Tool       struct{ Driver vSarifTool }
	Results    []*vSarifResult
	Taxonomies []*vSarifTool
}

type vSarif struct {
	Version string
	Runs    []*vSarifRun
}

// vSarifOf renders and decodes the SARIF report of the findings.
func vSarifOf(issues []*issue.Issue) *vSarifRun {
	doc := vRendered("sarif", []string{"/src"}, vInfo(issues))
	var r vSarif
	verifsym.Assert(json.Unmarshal([]byte(doc), &r) == nil, "JSON is well formed")
	verifsym.Assert(len(r.Runs) == 1 && r.Version == "2.1.0", "one run")
	verifsym.Assert(len(r.Runs[0].Results) == len(issues), "every finding once")
	return r.Runs[0]
}

// vSarifSound asserts that all references within the report resolve, and resolve to what they stand for.
func vSarifSound(r *vSarifRun, issues []*issue.Issue) {
	rules := r.Tool.Driver.Rules
	seen := map[string]bool{}
	for _, d := range rules {
		verifsym.Assert(!seen[d.ID], "one descriptor for each rule")
		seen[d.ID] = true
	}
	taxa := map[string]string{}
	verifsym.Assert(len(r.Taxonomies) == 1 && r.Taxonomies[0].Name == "CWE", "one taxonomy")
	for _, t := range r.Taxonomies[0].Taxa {
		_, dup := taxa[t.ID]
		verifsym.Assert(!dup, "one entry for each weakness")
		taxa[t.ID] = t.GUID
	}
	for _, s := range r.Tool.Driver.SupportedTaxonomies {
		verifsym.Assert(s.Name == r.Taxonomies[0].Name && s.GUID == r.Taxonomies[0].GUID, "supported taxonomy")
	}
	used := map[string]bool{}
	for k, i := range issues {
		g := r.Results[k]
		verifsym.Assert(g.RuleID == i.RuleID, "the rule of the finding, by identifier")
		verifsym.Assert(g.RuleIndex >= 0 && g.RuleIndex < len(rules) && rules[g.RuleIndex].ID == i.RuleID, "the rule of the finding, by index")
		used[i.RuleID] = true
		if i.Cwe != nil {
			verifsym.Assert(taxa[i.Cwe.ID] != "", "the weakness of the finding is listed")
		}
	}
	verifsym.Assert(len(used) == len(rules), "only rules with findings")
	for _, d := range rules {
		for _, l := range d.Relationships {
			verifsym.Assert(l != nil && l.Target != nil, "a relationship has a target")
			guid, ok := taxa[l.Target.ID]
			verifsym.Assert(ok && guid == l.Target.GUID, "a weakness reference resolves")
			verifsym.Assert(l.Target.ToolComponent.Name == r.Taxonomies[0].Name && l.Target.ToolComponent.GUID == r.Taxonomies[0].GUID, "in the taxonomy")
			verifsym.Assert(l.Target.ID == issue.GetCweByRule(d.ID).ID, "the weakness of the rule")
		}
	}
}

var vSarifLevels = map[string]string{"LOW": "warning", "MEDIUM": "error", "HIGH": "error"}

// Verif_C13_rules: every reference within the report resolves, in whatever order the rules of the findings come.
//
//verif:bounds up to four findings (five in the thorough tier) of any of four checks, one without weakness, in any order
//verif:quick 60s
func Verif_C13_rules() {
	n := verifsym.Choose("findings", 5+verifsym.Tier())
	var issues []*issue.Issue
	for k := 0; k < n; k++ {
		i := vPlain(k)
		i.RuleID = []string{"G404", "G101", "G602", "G999"}[verifsym.Choose("rule "+strconv.Itoa(k), 4)]
		i.Cwe = issue.GetCweByRule(i.RuleID)
		issues = append(issues, i)
	}
	r := vSarifOf(issues)
	vSarifSound(r, issues)
	for k, i := range issues {
		verifsym.Assert(r.Results[k].Message.Text == i.What, "the order of the findings")
	}
}

// Verif_C13_many: the same for reports with the findings of many rules.
//
//verif:bounds 5 to 45 findings of as many or fewer rules in 18 orders, with repetitions
//verif:quick 60s
func Verif_C13_many() {
	n := []int{5, 9, 17, 33, 45}[verifsym.Choose("findings", 5)]
	start, stride := 7*verifsym.Choose("start", 6), []int{1, 5, 2*len(vSamples) - 1}[verifsym.Choose("stride", 3)]
	var issues []*issue.Issue
	for k := 0; k < n; k++ {
		i := vPlain(k)
		i.RuleID = vSamples[(start+k*stride)%len(vSamples)].Rule
		i.Cwe = issue.GetCweByRule(i.RuleID)
		issues = append(issues, i)
	}
	r := vSarifOf(issues)
	vSarifSound(r, issues)
	for k, i := range issues {
		verifsym.Assert(r.Results[k].Message.Text == i.What, "the order of the findings")
	}
}

// Verif_C13_weaknesses: the weakness of every check is listed.
//
//verif:bounds a finding of every check of the table together with one of two others, in either order
//verif:quick 60s
func Verif_C13_weaknesses() {
	a, b := vPlain(0), vPlain(1)
	a.RuleID = vSamples[verifsym.Choose("rule", len(vSamples))].Rule
	a.Cwe = issue.GetCweByRule(a.RuleID)
	issues := []*issue.Issue{a, b}
	if verifsym.Bool("second") {
		issues = []*issue.Issue{b, a}
	}
	vSarifSound(vSarifOf(issues), issues)
}

// Verif_C13_data: each result has the level, message, location, fix and suppressions of its finding, at its place.
//
//verif:bounds up to three findings of which any subset is suppressed and one has arbitrary scores, an arbitrary position or arbitrary texts of one byte (two in the thorough tier)
//verif:quick 90s
func Verif_C13_data() {
	n := verifsym.Choose("findings", 3) + 1
	issues := vFindings(n, verifsym.Choose("suppressed", 1<<n), 1+verifsym.Tier(), "a-z<\"\n")
	again := verifsym.Choose("again", n+1)
	for k, i := range issues {
		if len(i.Suppressions) > 0 && again >= k+1 {
			more := []issue.SuppressionInfo{{Kind: "external", Justification: "globally"}, {Kind: "inSource", Justification: "as well"}}
			if k%2 == 0 {
				i.Suppressions = append(i.Suppressions, more...)
			} else {
				i.Suppressions = append(more, i.Suppressions...)
			}
		}
	}
	r := vSarifOf(issues)
	vSarifSound(r, issues)
	for k, i := range issues {
		g := r.Results[k]
		verifsym.Assert(g.Message.Text == i.What, "message")
		verifsym.Assert(g.Level == vSarifLevels[vScore(i.Severity)], "level")
		verifsym.Assert(len(g.Locations) == 1, "location")
		at := g.Locations[0].PhysicalLocation
		verifsym.Assert(at.ArtifactLocation.URI == i.File[len("/src/"):], "file")
		lo, hi := vRange(i)
		verifsym.Assert(verifsym.And(at.Region.StartLine == lo, at.Region.EndLine == hi), "lines")
		c := int(vDigits(i.Col, 10))
		verifsym.Assert(verifsym.And(at.Region.StartColumn == c, at.Region.EndColumn == c), "column")
		verifsym.Assert(len(g.Suppressions) == len(i.Suppressions), "suppressions")
		for q, s := range i.Suppressions {
			verifsym.Assert(g.Suppressions[q].Kind == s.Kind && g.Suppressions[q].Justification == s.Justification, "suppression")
		}
		if i.Autofix == "" {
			verifsym.Assert(len(g.Fixes) == 0, "no fix")
		} else {
			verifsym.Assert(len(g.Fixes) == 1 && g.Fixes[0].Description.Markdown == i.Autofix, "fix")
		}
	}
}

// Verif_C13_snippet: the snippet of a result is the flagged code without its numbering and surrounding blanks.
//
//verif:bounds one to three flagged lines out of three to five consecutive ones around lines 8 to 101, of up to two arbitrary bytes of letters, digits, colons and blanks each
//verif:quick 60s
func Verif_C13_snippet() {
	i := vPlain(0)
	first := []int{1, 8, 9, 10, 99, 100}[verifsym.Choose("first", 6)]
	n := verifsym.Choose("flagged lines", 3) + 1
	from := first - 1
	if from == 0 {
		from = 1
	}
	i.Line = strconv.Itoa(first)
	if n > 1 {
		i.Line += "-" + strconv.Itoa(first+n-1)
	}
	i.Code = ""
	want := ""
	any := verifsym.Choose("arbitrary line", n+2)
	for l := from; l <= first+n; l++ {
		text := "\tx" + strconv.Itoa(l) + " := 1 "
		if l-from == any {
			text = verifsym.Str("text", 2, "a9: \t")
		}
		i.Code += strconv.Itoa(l) + ": " + text + "\n"
		if l >= first && l < first+n {
			want += strings.TrimSpace(text)
			if n > 1 {
				want += "\n"
			}
		}
	}
	r := vSarifOf([]*issue.Issue{i})
	verifsym.Assert(r.Results[0].Locations[0].PhysicalLocation.Region.Snippet.Text == want, "snippet")
}
