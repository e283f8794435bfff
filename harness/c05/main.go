//verif:pkg cmd/gosec
//verif:prop C05
package main

import (
	"strings"

	"github.com/securego/gosec/v2/verifsym"
)

// vcSelectIDs are the checks that vcSelectSrc violates: two rules, two analyzers and an import.
var vcSelectIDs = []string{"G104", "G115", "G401", "G501", "G602"}

const vcSelectSrc = `package main

import (
	"crypto/md5"
	"os"
)

func main() {
	os.Chdir("x")
	println(md5.New(), int8(len(os.Args)))
	s := make([]int, 3)
	println(s[7])
}
`

func vcListed(id string, ids []string) bool {
	r := false
	for _, i := range ids {
		r = verifsym.Or(r, verifsym.StrEq(i, id))
	}
	return r
}

// Verif_C05_command: the flags, or else the configuration file, select the checks that a run reports.
//
//verif:bounds lists of no, one (arbitrary digits) or two checks to include and to exclude, each given by a flag, in the configuration file, or by both with another list there; with and without tracking; a program that violates five checks
//verif:quick 100s
func Verif_C05_command() {
	id := "G" + verifsym.Str("id", 3, "0-9")
	var args, fileParts []string
	wants := [2][]string{}
	lists := [][]string{nil, {id}, {"G115", id}, {"G401", "G104"}, {"G602"}}
	places := verifsym.Choose("place", 4)
	k := verifsym.Choose("lists", len(lists)*len(lists))
	for i, kind := range []string{"include", "exclude"} {
		list := lists[[]int{k / len(lists), k % len(lists)}[i]]
		wants[i] = list
		if list == nil {
			continue
		}
		text := strings.Join(list, ",")
		inFile := places == 1 || places == 2 && i == 0
		if inFile {
			fileParts = append(fileParts, "\""+kind+"\": \""+text+"\"")
		} else {
			args = append(args, "-"+kind+"="+text)
			if places == 3 {
				fileParts = append(fileParts, "\""+kind+"\": \"G104,G501\"")
			}
		}
	}
	if places != 0 && len(fileParts) == 0 {
		verifsym.Assume(false)
	}
	track := verifsym.Bool("track")
	if track {
		args = append(args, "-track-suppressions")
	}
	dir := verifsym.Dir([]verifsym.Src{{Name: "main.go", Text: vcSelectSrc}, {Name: "conf.json", Text: "{\"global\": {" + strings.Join(fileParts, ", ") + "}}"}})
	if places != 0 {
		args = append(args, "-conf="+dir+"/conf.json")
	}
	code, r, ok := vcRun(dir, args...)
	any := false
	seen := 0
	for _, c := range vcSelectIDs {
		want := verifsym.And(verifsym.Or(len(wants[0]) == 0, vcListed(c, wants[0])), !vcListed(c, wants[1]))
		any = verifsym.Or(any, want)
		n := 0
		for _, is := range r.Issues {
			if is.RuleID != c {
				continue
			}
			n++
			if track {
				verifsym.Assert((len(is.Suppressions) == 0) == want, "suppressed exactly when not selected: "+c)
			}
		}
		seen += n
		if track {
			verifsym.Assert(n > 0, "finding is kept: "+c)
		} else {
			verifsym.Assert((n > 0) == want, "finding exactly when selected: "+c)
		}
	}
	verifsym.Assert(len(r.Issues) == seen, "no finding of another check")
	// Without any check there is no run.
	verifsym.Assert(verifsym.Or(!any, ok), "a report")
	verifsym.Assert(verifsym.Or(!any, code == 1), "exit status")
	verifsym.Assert(verifsym.Or(any, !ok, code == 0), "exit status without findings")
}
