//verif:pkg verifh
//verif:prop C03
package verifh

import (
	"strconv"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/analyzers"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/rules"
	"github.com/securego/gosec/v2/verifsym"
	"golang.org/x/tools/go/packages"
)

const vSupSrc = `package main

import (
	"crypto/md5"
	_ "crypto/md5"
)

/*0*/
func f() {
	/*1*/
	if true {
		/*2*/
		md5.New() /*3*/
		md5.New()
	}
	/*4*/
	s := md5.Sum(
		/*5*/
		[]byte("x"),
	)
	_ = s
}

func g() {
	md5.New() /*6*/
}
`

// vLayoutSrc has findings which share a line with the annotated syntax without lying in it, or only its first or last line.
const vLayoutSrc = `package main

import (
	"crypto/md5"
	_ "crypto/md5"
)

func use(...any) any { return nil }

var table = []any{
	/*0*/
	[]any{
		1,
	}, md5.Sum(
		[]byte("b"),
	), []any{
		/*1*/
		2,
	},
}

func f() {
	/*2*/
	use(md5.New(),
		/*3*/
		1,
	)
	/*4*/
	use(
		1, md5.New())
	/*5*/
	for use(1,
		2) == nil {
		use(md5.New()); use(
			3,
		)
	}
}
`

// vLayout is a program with places for directives.
type vLayout struct {
	src      string
	slots    [][2]int // the lines of the syntax the directive in each place annotates
	findings []vSupFinding
}

type vSupFinding struct {
	id       string
	from, to int
	line     string
}

var vSupLayout = &vLayout{
	vSupSrc,
	[][2]int{{9, 22}, {11, 15}, {13, 13}, {13, 13}, {17, 20}, {19, 19}, {25, 25}},
	[]vSupFinding{{"G401", 13, 13, "13"}, {"G401", 14, 14, "14"}, {"G401", 17, 20, "17-20"}, {"G401", 25, 25, "25"}},
}

var vEdgeLayout = &vLayout{
	vLayoutSrc,
	[][2]int{{12, 14}, {18, 18}, {24, 27}, {26, 26}, {29, 30}, {32, 37}},
	[]vSupFinding{{"G401", 14, 16, "14-16"}, {"G401", 24, 24, "24"}, {"G401", 30, 30, "30"}, {"G401", 34, 34, "34"}},
}

// vDirective is a suppression comment in one of the slots.
type vDirective struct {
	slot  int
	lines [2]int
	notes bool // whether there are other comments
	all   bool
	rule  string // when not all
	rule2 string
	just  string
	text  string
	holes []verifsym.Hole
}

func vRuleID(name string) string { return "G" + verifsym.Str(name, 3, "0-9") }

func (l *vLayout) directive(k, slot int, rich bool) *vDirective {
	n := strconv.Itoa(k)
	d := &vDirective{slot: slot, lines: l.slots[slot], just: "why" + n}
	forms := 2
	if rich {
		forms = 4
	}
	switch verifsym.Choose("form"+n, forms) {
	case 0:
		d.rule = vRuleID("rule" + n)
		d.text = "// #nosec G9" + n + "1 -- " + d.just
		d.holes = []verifsym.Hole{{Text: "G9" + n + "1", Lit: d.rule, Str: d.rule, IsStr: true}}
	case 1:
		d.all = true
		d.text = "// #nosec -- " + d.just
	case 2:
		d.rule = vRuleID("rule" + n)
		d.text = "//gosec:disable G9" + n + "1 -- " + d.just
		d.holes = []verifsym.Hole{{Text: "G9" + n + "1", Lit: d.rule, Str: d.rule, IsStr: true}}
	case 3:
		d.rule = vRuleID("rule" + n)
		d.rule2 = vRuleID("second" + n)
		d.text = "// #nosec G9" + n + "1 G9" + n + "2 -- " + d.just
		d.holes = []verifsym.Hole{{Text: "G9" + n + "1", Lit: d.rule, Str: d.rule, IsStr: true}, {Text: "G9" + n + "2", Lit: d.rule2, Str: d.rule2, IsStr: true}}
	}
	return d
}

// applies is the specification: the ranges are nested and the rule is named, or none is.
func (d *vDirective) applies(from, to int, id string) bool {
	r := d.lines
	if !(r[0] <= from && to <= r[1] || from <= r[0] && r[1] <= to) {
		return false
	}
	if d.all {
		return true
	}
	named := verifsym.StrEq(d.rule, id)
	if d.rule2 != "" {
		named = verifsym.Or(named, verifsym.StrEq(d.rule2, id))
	}
	return named
}

func (l *vLayout) program(ds []*vDirective) (string, []verifsym.Hole) {
	var holes []verifsym.Hole
	out := ""
	// The other places may hold comments which are no directives.
	note := ""
	if len(ds) == 1 && verifsym.Bool("notes") {
		note = "// see below"
		ds[0].notes = true
	}
	for i := 0; i < len(l.src); i++ {
		if l.src[i] == '/' && i+4 < len(l.src) && l.src[i+1] == '*' {
			slot := int(l.src[i+2] - '0')
			text := note
			for _, d := range ds {
				if d.slot == slot {
					text = d.text
					holes = append(holes, d.holes...)
				}
			}
			out += text
			i += 4
			continue
		}
		out += l.src[i : i+1]
	}
	return out, holes
}

func vSupAnalyzer(conf gosec.Config, track bool) *gosec.Analyzer {
	a := gosec.NewAnalyzer(conf, false, false, track, 1, vLogger())
	a.LoadRules(rules.Generate(false, rules.NewRuleFilter(false, "G401")).RulesInfo())
	a.LoadAnalyzers(analyzers.Generate(false, analyzers.NewAnalyzerFilter(false, "G401")).AnalyzersInfo())
	return a
}

func vFind(issues []*issue.Issue, id, line string) *issue.Issue {
	var r *issue.Issue
	for _, i := range issues {
		if i.RuleID == id && i.Line == line {
			r = i
		}
	}
	return r
}

// vPickSlots chooses which slots hold a directive.
func (l *vLayout) pick() []*vDirective {
	var ds []*vDirective
	m := len(l.slots)
	k := verifsym.Choose("pair", m*m)
	a, b := k/m, k%m
	if a > b {
		verifsym.Assume(false)
	}
	ds = append(ds, l.directive(0, a, true))
	if b > a {
		ds = append(ds, l.directive(1, b, false))
	}
	if verifsym.Tier() == 1 && b > a && b < m-1 {
		ds = append(ds, l.directive(2, b+1+verifsym.Choose("third", m-1-b), false))
	}
	return ds
}

// Verif_C03_tracked: with suppression tracking every finding stays and carries exactly the records of the directives that apply to it.
//
//verif:bounds one file with seven places for directives (before a function, before a nested statement, before and behind a call, before a multi-line literal, inside it, in another function); one or two directives (thorough: three), each bare, naming one arbitrary rule ID, two arbitrary rule IDs, or in the gosec:disable form; plain comments in the other places if there is one directive; four findings; every order of comment discovery
//verif:quick 60s
//verif:tries 5
func Verif_C03_tracked() { vSupTracked(vSupLayout) }

// Verif_C03_edges: as Verif_C03_tracked, where findings share a line with the annotated syntax without lying in it, or
// are its first or last line.
//
//verif:bounds one file with six places for directives (in a table before and behind a finding which starts and ends on lines of its neighbours, before calls whose first or last line has a finding, before a loop with a multi-line condition); directives as in Verif_C03_tracked; four findings
//verif:quick 60s
//verif:tries 5
func Verif_C03_edges() {
	if verifsym.Bool("tracked") {
		vSupTracked(vEdgeLayout)
	} else {
		vSupDropped(vEdgeLayout)
	}
}

func vSupTracked(l *vLayout) {
	ds := l.pick()
	src, holes := l.program(ds)
	a := vSupAnalyzer(gosec.NewConfig(), true)
	p := verifsym.LoadProgram(src, holes)
	verifsym.MapOrders(!ds[0].notes, "github.com/securego/gosec/v2")
	a.CheckRules(p)
	verifsym.MapOrders(false)
	issues := vScan(a, &packages.Package{Fset: p.Fset, Types: p.Types, TypesInfo: p.TypesInfo, TypesSizes: p.TypesSizes})
	verifsym.Assert(len(issues) == len(l.findings), "every finding stays in the report")
	for _, f := range l.findings {
		is := vFind(issues, f.id, f.line)
		verifsym.Assert(is != nil, "finding at "+f.line)
		if is == nil {
			continue
		}
		total := 0
		for _, d := range ds {
			n := 0
			for _, s := range is.Suppressions {
				if s.Justification == d.just && s.Kind == "inSource" {
					n++
				}
			}
			total += n
			verifsym.Assert((n >= 1) == d.applies(f.from, f.to, f.id), "record of a directive on lines "+strconv.Itoa(d.lines[0])+" for the finding at "+f.line)
			verifsym.Assert(n <= 1, "one record per directive")
		}
		verifsym.Assert(len(is.Suppressions) == total, "no other record")
	}
}

// Verif_C03_dropped: without tracking exactly the findings covered by an applicable directive disappear; none does when
// directives are switched off; all stay but are marked when suppressed findings are shown.
//
//verif:bounds as Verif_C03_tracked; plain, nosec and show-ignored configurations
//verif:quick 60s
//verif:tries 5
func Verif_C03_dropped() { vSupDropped(vSupLayout) }

func vSupDropped(l *vLayout) {
	ds := l.pick()
	mode := verifsym.Choose("mode", 3)
	conf := gosec.NewConfig()
	switch mode {
	case 1:
		conf.SetGlobal(gosec.Nosec, "true")
	case 2:
		conf.SetGlobal(gosec.ShowIgnored, "true")
	}
	src, holes := l.program(ds)
	issues := vScan(vSupAnalyzer(conf, false), verifsym.LoadProgram(src, holes))
	left := 0
	for _, f := range l.findings {
		is := vFind(issues, f.id, f.line)
		suppressed := false
		if mode != 1 {
			for _, d := range ds {
				suppressed = verifsym.Or(suppressed, d.applies(f.from, f.to, f.id))
			}
		}
		where := " for the finding at " + f.line + " mode " + strconv.Itoa(mode)
		if mode == 2 {
			verifsym.Assert(is != nil && is.NoSec == suppressed, "marked exactly when suppressed"+where)
		} else {
			verifsym.Assert((is == nil) == suppressed, "dropped exactly when suppressed"+where)
		}
		if is != nil {
			left++
		}
	}
	verifsym.Assert(len(issues) == left, "no other finding")
}
