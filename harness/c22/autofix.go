//verif:pkg verifh
//verif:prop C22
package verifh

import (
	"fmt"
	"strconv"

	"github.com/securego/gosec/v2/autofix"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/verifsym"
)

// Verif_C22_solutions: every finding gets the suggestion generated for its own description, each description is asked for once.
//
//verif:bounds 0-4 findings (thorough: 5) with arbitrary descriptions of up to 1 character of 4; the requests answered by a text, an empty text, an error, no candidate, no content or no parts; the deadline of the requests never passes
//verif:quick 60s
func Verif_C22_solutions() { vSolutions(verifsym.Choose("findings", 5+verifsym.Tier()), 1) }

// Verif_C22_descriptions: as above, for longer descriptions.
//
//verif:bounds 2 findings with arbitrary descriptions of up to 3 characters (thorough: 4) of 4
//verif:quick 60s
func Verif_C22_descriptions() { vSolutions(2, 3+verifsym.Tier()) }

func vSolutions(n, length int) {
	var issues []*issue.Issue
	var whats []string
	for i := 0; i < n; i++ {
		id := strconv.Itoa(i)
		w := verifsym.Str("what"+id, verifsym.Choose("length"+id, length+1), "aA \"")
		whats = append(whats, w)
		issues = append(issues, &issue.Issue{What: w, RuleID: "G" + id})
	}
	var prompts []string
	failed := false
	url := verifsym.Gemini(func(key, prompt string) (int, string) {
		i := len(prompts)
		prompts = append(prompts, prompt)
		verifsym.Assert(key == "the key", "the given key is used")
		kind := verifsym.Choose("answer"+strconv.Itoa(i), 6)
		if kind > 0 {
			failed = true
		}
		if kind == 5 {
			return 0, ""
		}
		return kind, "fix" + strconv.Itoa(i) + " %d\n"
	})
	err := autofix.GenerateSolution(autofix.GeminiProvider, "the key", url, issues)
	verifsym.Assert((err != nil) == failed, "a failed request is an error")
	for i, p := range prompts {
		for j := range prompts[:i] {
			verifsym.Assert(p != prompts[j], "a description is asked for once")
		}
	}
	for i, is := range issues {
		verifsym.Assert(is.What == whats[i] && is.RuleID == "G"+strconv.Itoa(i), "the finding is left as it is")
		want, fail := "", false
		for j, p := range prompts {
			if p == fmt.Sprintf(autofix.AIPrompt, whats[i]) {
				want, fail = "fix"+strconv.Itoa(j)+" %d\n", failed && j == len(prompts)-1
			}
		}
		if want == "" || fail {
			verifsym.Assert(is.Autofix == "", "no other suggestion is attached")
			verifsym.Assert(failed, "every description is asked for")
		} else {
			verifsym.Assert(is.Autofix == want || failed && is.Autofix == "", "the finding has its own suggestion")
		}
	}
}
