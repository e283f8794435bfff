//verif:pkg cmd/gosec
//verif:prop C22
package main

import (
	"fmt"
	"strconv"

	"github.com/securego/gosec/v2/autofix"
	"github.com/securego/gosec/v2/verifsym"
)

// Verif_C22_command: suggestions are asked for exactly when a provider and a key are given, and a failing service changes neither the findings nor the exit status.
//
//verif:bounds three findings with two descriptions; with and without a provider (known or not) and a key (as a flag, in the environment, or both); the requests answered by a text, an empty text, an error, no candidate, no content or no parts
//verif:quick 60s
func Verif_C22_command() {
	src := "package main\n\nimport (\n\t\"crypto/md5\"\n\t\"math/rand\"\n)\n\nfunc main() {\n\tprintln(rand.Int())\n\tmd5.New()\n\tprintln(rand.Int())\n}\n"
	dir := verifsym.Dir([]verifsym.Src{{Name: "main.go", Text: src}})
	args := []string{"-include=G404,G401", "-quiet"}
	provider := verifsym.Choose("provider", 3)
	if provider > 0 {
		args = append(args, "-ai-api-provider="+[]string{"", "gemini", "other"}[provider])
	}
	keys := verifsym.Choose("key", 4)
	key := ""
	if keys&1 != 0 {
		key = "flag key"
		args = append(args, "-ai-api-key="+key)
	}
	env := ""
	if keys&2 != 0 {
		env, key = "env key", "env key"
	}
	verifsym.Setenv("GOSEC_AI_API_KEY", env)
	var prompts []string
	failed := false
	url := verifsym.Gemini(func(k, prompt string) (int, string) {
		i := len(prompts)
		prompts = append(prompts, prompt)
		verifsym.Assert(k == key, "the given key is used")
		kind := verifsym.Choose("answer"+strconv.Itoa(i), 6)
		failed = failed || kind > 0
		if kind == 5 {
			return 0, ""
		}
		return kind, "fix" + strconv.Itoa(i)
	})
	code, r, ok := vcRun(dir, append(args, "-ai-endpoint="+url)...)
	verifsym.Assert(ok && code == 1 && len(r.Issues) == 3, "the findings are reported")
	asked := provider == 1 && key != ""
	verifsym.Assert(asked == (len(prompts) > 0), "suggestions are asked for when requested")
	verifsym.Assert(len(prompts) <= 2, "a description is asked for once")
	for _, is := range r.Issues {
		want, fail := "", false
		for j, p := range prompts {
			if p == fmt.Sprintf(autofix.AIPrompt, is.Details) {
				want, fail = "fix"+strconv.Itoa(j), failed && j == len(prompts)-1
			}
		}
		if want == "" || fail {
			verifsym.Assert(is.Autofix == "" && (failed || !asked), "no other suggestion is attached")
		} else {
			verifsym.Assert(is.Autofix == want || failed && is.Autofix == "", "the finding has its own suggestion")
		}
	}
}
