//verif:helper cmd/gosec
package main

import (
	"encoding/json"

	"github.com/securego/gosec/v2/verifsym"
)

type vcReport struct {
	Errors map[string][]interface{} `json:"Golang errors"`
	Issues []vcIssue
	Stats  struct{ Files, Nosec, Found int }
}

type vcIssue struct {
	RuleID       string        `json:"rule_id"`
	Severity     string        `json:"severity"`
	File         string        `json:"file"`
	Line         string        `json:"line"`
	Details      string        `json:"details"`
	Autofix      string        `json:"autofix"`
	NoSec        bool          `json:"nosec"`
	Suppressions []interface{} `json:"suppressions"`
}

// vcRun runs the command on a directory and reads its report; ok tells whether there is one.
func vcRun(dir string, args ...string) (code int, r vcReport, ok bool) {
	return vcRunPaths(dir+"/report.json", args, dir)
}

// vcRunPaths runs the command on the given paths.
func vcRunPaths(out string, args []string, paths ...string) (code int, r vcReport, ok bool) {
	args = append(append(args, "-fmt=json", "-out="+out), paths...)
	code, exited, _ := verifsym.Command(main, args...)
	verifsym.Assert(exited, "the command ends with an exit status")
	text, ok := verifsym.ReadFile(out)
	if ok {
		verifsym.Assert(json.Unmarshal([]byte(text), &r) == nil, "the report is a document")
	}
	return code, r, ok
}
