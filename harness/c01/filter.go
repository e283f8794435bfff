//verif:pkg cmd/gosec
//verif:prop C01
package main

import (
	"strconv"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/verifsym"
)

// Verif_C01_filter: the thresholds keep exactly the findings that meet both, in order, and count those not suppressed; the
// process fails exactly when one of these or an error is left and no-fail is not set.
//
//verif:bounds 3 (thorough: 4) findings with any severity, confidence, ignored mark and 0-2 suppressions; any thresholds; 0-1 files with errors; no-fail
//verif:quick 60s
func Verif_C01_filter() {
	n := 3 + verifsym.Tier()
	var in []*issue.Issue
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		is := &issue.Issue{Severity: issue.Score(verifsym.Int("severity"+k, 0, 2)), Confidence: issue.Score(verifsym.Int("confidence"+k, 0, 2)), NoSec: verifsym.Bool("nosec" + k)}
		for j := verifsym.Choose("suppressions"+k, 3); j > 0; j-- {
			is.Suppressions = append(is.Suppressions, issue.SuppressionInfo{Kind: "inSource"})
		}
		in = append(in, is)
	}
	sev, conf := issue.Score(verifsym.Int("severity", 0, 2)), issue.Score(verifsym.Int("confidence", 0, 2))
	out, found := filterIssues(in, sev, conf)
	k, open := 0, 0
	for i, is := range in {
		meets := verifsym.And(is.Severity >= sev, is.Confidence >= conf)
		if meets {
			verifsym.Assert(k < len(out) && out[k] == is, "a finding that meets the thresholds is kept: "+strconv.Itoa(i))
			k++
			if !is.NoSec && len(is.Suppressions) == 0 {
				open++
			}
		}
	}
	verifsym.Assert(k == len(out), "no other finding is kept")
	verifsym.Assert(found == open, "the open findings are counted")
	errs := map[string][]gosec.Error{}
	for e := verifsym.Choose("errors", 2); e > 0; e-- {
		errs["f"] = append(errs["f"], gosec.Error{Err: "x"})
	}
	noFail := verifsym.Bool("no-fail")
	code, exited := verifsym.CatchExit(func() { exit(out, errs, noFail) })
	want := 0
	if (open > 0 || len(errs) > 0) && !noFail {
		want = 1
	}
	verifsym.Assert(exited && code == want, "exit status")
}
