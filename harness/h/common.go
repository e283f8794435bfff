//verif:helper verifh
package verifh

import (
	"io"
	"log"
	"strconv"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/analyzers"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/rules"
	"github.com/securego/gosec/v2/verifsym"
	"golang.org/x/tools/go/packages"
)

func vLogger() *log.Logger { return log.New(io.Discard, "", 0) }

// vAnalyzer is a scanner with exactly the given checks.
func vAnalyzer(conf gosec.Config, ids ...string) *gosec.Analyzer {
	a := gosec.NewAnalyzer(conf, false, false, false, 1, vLogger())
	a.LoadRules(rules.Generate(false, rules.NewRuleFilter(false, ids...)).RulesInfo())
	a.LoadAnalyzers(analyzers.Generate(false, analyzers.NewAnalyzerFilter(false, ids...)).AnalyzersInfo())
	return a
}

// vScan runs the scanner over one package and returns its findings.
func vScan(a *gosec.Analyzer, p *packages.Package) []*issue.Issue {
	a.CheckRules(p)
	a.CheckAnalyzers(p)
	issues, _, _ := a.Report()
	return issues
}

func vCount(issues []*issue.Issue, id string) int {
	n := 0
	for _, i := range issues {
		if i.RuleID == id {
			n++
		}
	}
	return n
}

func vInt(text string, v int64) verifsym.Hole {
	return verifsym.Hole{Text: text, Lit: strconv.FormatInt(v, 10), Val: v}
}

var vIntTypes = []string{"int8", "int16", "int32", "int64", "int", "uint8", "uint16", "uint32", "uint64", "uint"}

func vBounds(t string) (lo int64, hi uint64) {
	switch t {
	case "int8":
		return -1 << 7, 1<<7 - 1
	case "int16":
		return -1 << 15, 1<<15 - 1
	case "int32":
		return -1 << 31, 1<<31 - 1
	case "int64", "int":
		return -1 << 63, 1<<63 - 1
	case "uint8":
		return 0, 1<<8 - 1
	case "uint16":
		return 0, 1<<16 - 1
	case "uint32":
		return 0, 1<<32 - 1
	}
	return 0, 1<<64 - 1
}

// vFits states, without branching, that the value v fits type t.
func vFits(v int64, t string) bool {
	lo, hi := vBounds(t)
	return verifsym.And(v >= lo, verifsym.Or(v < 0, uint64(v) <= hi))
}

// vDigits is the value of a number written with decimal digits only, in the given base.
func vDigits(s string, base int64) int64 {
	var v int64
	for i := 0; i < len(s); i++ {
		d := int64(s[i] - '0')
		v = v*base + d
	}
	return v
}

// vLoad gives a scanner exactly the given checks.
func vLoad(a *gosec.Analyzer, ids ...string) {
	if len(ids) == 0 {
		a.LoadRules(rules.Generate(false).RulesInfo())
		a.LoadAnalyzers(analyzers.Generate(false).AnalyzersInfo())
		return
	}
	a.LoadRules(rules.Generate(false, rules.NewRuleFilter(false, ids...)).RulesInfo())
	a.LoadAnalyzers(analyzers.Generate(false, analyzers.NewAnalyzerFilter(false, ids...)).AnalyzersInfo())
}
