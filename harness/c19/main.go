//verif:pkg cmd/gosec
//verif:prop C19
package main

import (
	"strings"

	"github.com/securego/gosec/v2/verifsym"
)

const vcOptionsSrc = `package main

import (
	"math/rand"
	"os"
)

func main() {
	println(rand.Int())
	println(rand.Int()) // #nosec
	println(rand.Int()) // #own
	println(rand.Int()) // #other
	_ = os.Remove("x")
	println(os.Mkdir("x", 0o755))
}
`

// Verif_C19_command: a switch given by a flag or in the configuration file has the effect that it has by either way, and the flag comes first.
//
//verif:bounds nosec, show-ignored, audit mode and the tag of directives, each unset, given by a flag or in the file (also switched off there, or with another tag than the flag gives), together with a section for a check or without
//verif:quick 100s
func Verif_C19_command() {
	var args, globals, sections []string
	on := func(name, flag string, off bool) bool {
		n := 3
		if off {
			n = 4
		}
		switch verifsym.Choose(name, n) {
		case 1:
			args = append(args, flag)
			return true
		case 2:
			globals = append(globals, `"`+name+`": "`+[]string{"true", "enabled"}[len(globals)%2]+`"`)
			return true
		case 3:
			globals = append(globals, `"`+name+`": "false"`)
		}
		return false
	}
	all := on("nosec", "-nosec", true)
	shown := on("show-ignored", "-show-ignored", false)
	audit := on("audit", "-enable-audit", false)
	tag := ""
	switch verifsym.Choose("tag", 5) {
	case 1:
		args, tag = append(args, "-nosec-tag=own"), "own"
	case 2:
		globals, tag = append(globals, `"#nosec": "own"`), "own"
	case 3:
		globals, tag = append(globals, `"#nosec": "other"`), "other"
	case 4:
		args, tag = append(args, "-nosec-tag=own"), "own"
		globals = append(globals, `"#nosec": "other"`)
	}
	lax := verifsym.Bool("section")
	if lax {
		sections = append(sections, `"G301": "0755"`)
	}
	if len(globals) > 0 {
		sections = append(sections, `"global": {`+strings.Join(globals, ", ")+`}`)
	}
	dir := verifsym.Dir([]verifsym.Src{{Name: "main.go", Text: vcOptionsSrc}, {Name: "conf.json", Text: "{" + strings.Join(sections, ", ") + "}"}})
	if len(sections) > 0 {
		args = append(args, "-conf="+dir+"/conf.json")
	}
	code, r, ok := vcRun(dir, append(args, "-include=G404,G104,G301", "-sort=false")...)
	verifsym.Assert(ok && code == 1, "the findings fail the command")
	got := map[string]bool{}
	for _, i := range r.Issues {
		key := i.RuleID + ":" + i.Line
		_, twice := got[key]
		verifsym.Assert(!twice, "each finding once")
		got[key] = i.NoSec
	}
	want, open := 0, 0
	expect := func(key string, there, ignored bool) {
		marked, found := got[key]
		if ignored && !shown {
			there = false
		}
		verifsym.Assert(found == there && marked == (there && ignored), "the finding "+key)
		if there {
			want++
			if !ignored {
				open++
			}
		}
	}
	expect("G404:9", true, false)
	expect("G404:10", true, !all)
	expect("G404:11", true, !all && tag == "own")
	expect("G404:12", true, !all && tag == "other")
	expect("G104:13", audit, false)
	expect("G301:14", !lax, false)
	verifsym.Assert(len(r.Issues) == want, "and no other")
	verifsym.Assert(r.Stats.Found == open, "the count of open findings")
}
