//verif:pkg verifh
//verif:prop C05
package verifh

import (
	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/analyzers"
	"github.com/securego/gosec/v2/rules"
	"github.com/securego/gosec/v2/verifsym"
)

// vListed states that id is among the first n ids.
func vListed(id string, ids []string) bool {
	r := false
	for _, i := range ids {
		r = verifsym.Or(r, verifsym.StrEq(i, id))
	}
	return r
}

// vFilters builds the include and exclude lists: arbitrary rule IDs.
func vFilters() (inc, exc []string, rf []rules.RuleFilter, af []analyzers.AnalyzerFilter) {
	shapes := 4
	if verifsym.Tier() > 0 {
		shapes = 6
	}
	k := verifsym.Choose("lists", shapes)
	ni, ne := []int{0, 1, 0, 1, 2, 0}[k], []int{0, 0, 1, 1, 0, 2}[k]
	for i := 0; i < ni; i++ {
		inc = append(inc, "G"+verifsym.Str("inc"+string(rune('0'+i)), 3, "0-9"))
	}
	for i := 0; i < ne; i++ {
		exc = append(exc, "G"+verifsym.Str("exc"+string(rune('0'+i)), 3, "0-9"))
	}
	order := 0
	if ni+ne > 1 {
		order = verifsym.Choose("order", 2)
	}
	add := func(inclusive bool) {
		if inclusive && len(inc) > 0 {
			rf = append(rf, rules.NewRuleFilter(false, inc...))
			af = append(af, analyzers.NewAnalyzerFilter(false, inc...))
		}
		if !inclusive && len(exc) > 0 {
			rf = append(rf, rules.NewRuleFilter(true, exc...))
			af = append(af, analyzers.NewAnalyzerFilter(true, exc...))
		}
	}
	add(order == 0)
	add(order == 1)
	return
}

// Verif_C05_lists: the selected checks are the included ones without the excluded ones.
//
//verif:bounds include and exclude filters with arbitrary three-digit rule IDs (none, one included, one excluded, one of each in either order; thorough: also two included, two excluded); every built-in rule and analyzer; with and without suppression tracking
//verif:quick 150s
func Verif_C05_lists() {
	inc, exc, rf, af := vFilters()
	track := verifsym.Choose("track", 2) == 1
	all := rules.Generate(false)
	got := rules.Generate(track, rf...)
	builders, marks := got.RulesInfo()
	n := 0
	for id, def := range all.Rules {
		want := verifsym.And(verifsym.Or(len(inc) == 0, vListed(id, inc)), !vListed(id, exc))
		_, on := builders[id]
		if on {
			n++
			verifsym.Assert(got.Rules[id].ID == id, "definition keeps its identity")
			verifsym.Assert(builders[id] != nil, "builder")
			verifsym.Assert(got.Rules[id].Description == def.Description, "description")
		}
		verifsym.Assert(on == verifsym.Or(want, track), "rule is loaded exactly when selected (or tracked)")
		verifsym.Assert(marks[id] == !want, "rule is marked exactly when not selected")
	}
	verifsym.Assert(len(builders) == n, "no other rule")
	allA := analyzers.Generate(false)
	gotA := analyzers.Generate(track, af...)
	defs, marksA := gotA.AnalyzersInfo()
	n = 0
	for id := range allA.Analyzers {
		want := verifsym.And(verifsym.Or(len(inc) == 0, vListed(id, inc)), !vListed(id, exc))
		d, on := defs[id]
		if on {
			n++
			verifsym.Assert(d.ID == id, "analyzer keeps its identity")
		}
		verifsym.Assert(on == verifsym.Or(want, track), "analyzer is loaded exactly when selected (or tracked)")
		verifsym.Assert(marksA[id] == !want, "analyzer is marked exactly when not selected")
	}
	verifsym.Assert(len(defs) == n, "no other analyzer")
}

const vSelectSrc = `package main

import (
	"crypto/md5"
	"os"
)

func sink(v int8) {}

func f(x int) {
	md5.New()
	sink(int8(x))
	os.Mkdir("x", 0o777)
	s := make([]int, 3)
	println(s[7])
}
`

var vSelectIDs = []string{"G104", "G115", "G301", "G401", "G501", "G602"}

// Verif_C05_scan: a scan reports the findings of the selected checks; with tracking the others are there too, marked as
// externally suppressed.
//
//verif:bounds a program that violates six checks (four rules, two analyzers); filters as Verif_C05_lists; with and without tracking
//verif:quick 60s
func Verif_C05_scan() {
	inc, exc, rf, af := vFilters()
	track := verifsym.Choose("track", 2) == 1
	a := gosec.NewAnalyzer(gosec.NewConfig(), false, false, track, 1, vLogger())
	a.LoadRules(rules.Generate(track, rf...).RulesInfo())
	a.LoadAnalyzers(analyzers.Generate(track, af...).AnalyzersInfo())
	issues := vScan(a, verifsym.LoadProgram(vSelectSrc, nil))
	seen := 0
	for _, id := range vSelectIDs {
		want := verifsym.And(verifsym.Or(len(inc) == 0, vListed(id, inc)), !vListed(id, exc))
		n := 0
		for _, is := range issues {
			if is.RuleID != id {
				continue
			}
			n++
			if track {
				verifsym.Assert((len(is.Suppressions) == 0) == want, "suppressed exactly when not selected: "+id)
				for _, s := range is.Suppressions {
					verifsym.Assert(s.Kind == "external", "kind of the suppression")
				}
				verifsym.Assert(len(is.Suppressions) <= 1, "one record")
			}
		}
		seen += n
		if track {
			verifsym.Assert(n > 0, "finding is kept: "+id)
		} else {
			verifsym.Assert((n > 0) == want, "finding exactly when selected: "+id)
		}
	}
	verifsym.Assert(len(issues) == seen, "no finding of another check")
}
