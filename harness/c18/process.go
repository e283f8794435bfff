//verif:pkg verifh
//verif:prop C18
package verifh

import (
	"strconv"
	"strings"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/rules"
	"github.com/securego/gosec/v2/verifsym"
)

// The kinds of packages: how many findings with and without the build tag, and how many files with errors.
var vKinds = []struct {
	name  string
	files []verifsym.Src
	plain int
	tags  int
	errs  int
}{
	{"tagged", []verifsym.Src{{Name: "a.go", Text: "package p\n\nimport \"math/rand\"\n\nfunc F() int { return rand.Int() }\n"}, {Name: "t.go", Text: "//go:build special\n\npackage p\n\nimport \"math/rand\"\n\nfunc G() int { return rand.Int() }\n"}}, 1, 2, 0},
	{"untagged", []verifsym.Src{{Name: "a.go", Text: "package p\n\nimport \"math/rand\"\n\nfunc F() int { return rand.Int() + rand.Int() }\n"}, {Name: "t.go", Text: "//go:build !special\n\npackage p\n\nimport \"math/rand\"\n\nfunc G() int { return rand.Int() }\n"}}, 3, 2, 0},
	{"type error", []verifsym.Src{{Name: "a.go", Text: "package p\n\nimport \"math/rand\"\n\nvar x int = \"a\"\n\nfunc F() int { return rand.Int() }\n"}}, 1, 1, 1},
	{"clauses", []verifsym.Src{{Name: "a.go", Text: "package p\n"}, {Name: "b.go", Text: "package q\n"}}, 0, 0, 1},
	{"gone", nil, 0, 0, 0},
	{"excluded", []verifsym.Src{{Name: "a.go", Text: "//go:build never\n\npackage p\n"}}, 0, 0, 0},
}

func vProcess(workers int, tags []string, kinds []int, schedules bool) (*gosec.Analyzer, error, []string) {
	var src []verifsym.Src
	for i, k := range kinds {
		for _, f := range vKinds[k].files {
			src = append(src, verifsym.Src{Name: "p" + strconv.Itoa(i) + "/" + f.Name, Text: f.Text})
		}
	}
	root := verifsym.Dir(src)
	var paths []string
	for i := range kinds {
		paths = append(paths, root+"/p"+strconv.Itoa(i))
	}
	a := gosec.NewAnalyzer(gosec.NewConfig(), false, false, false, workers, vLogger())
	a.LoadRules(rules.Generate(false, rules.NewRuleFilter(false, "G404")).RulesInfo())
	verifsym.Schedules(schedules)
	verifsym.Preemptions(1 + verifsym.Tier())
	err := a.Process(tags, paths...)
	verifsym.Schedules(false)
	return a, err, paths
}

func vCheckProcess(a *gosec.Analyzer, paths, tags []string, kinds []int) {
	issues, stats, errs := a.Report()
	total, files, broken := 0, 0, 0
	for i, k := range kinds {
		n, e := 0, 0
		for _, is := range issues {
			if strings.HasPrefix(is.File, paths[i]+"/") {
				n++
			}
		}
		for f, l := range errs {
			if f == paths[i] || strings.HasPrefix(f, paths[i]+"/") {
				e++
				verifsym.Assert(len(l) == 1, "an error is recorded once")
			}
		}
		if vKinds[k].name == "type error" {
			broken++
		}
		want := vKinds[k].plain
		if len(tags) > 0 {
			want = vKinds[k].tags
		}
		total += want
		files += e
		verifsym.Assert(n == want, "each finding of package "+strconv.Itoa(i)+" is recorded once")
		verifsym.Assert(e == vKinds[k].errs, "errors of package "+strconv.Itoa(i)+" are recorded")
	}
	verifsym.Assert(len(issues) == total && stats.NumFound == total, "nothing else is recorded")
	// errors the go command reports without a position
	verifsym.Assert(len(errs[""]) == broken, "an error without a position is recorded once")
	verifsym.Assert(len(errs) == files+min(broken, 1), "no other error is recorded")
}

// Verif_C18_schedules: whatever the order in which the workers run, every package is analysed once with the build tags.
//
//verif:bounds 6 pairs of kinds of packages (thorough: all 36), 2 workers (thorough: 2-3), with a build tag, all interleavings at channel, lock, wait and load operations with at most 1 (thorough: 2) preemptions
//verif:concurrent
//verif:quick 100s
func Verif_C18_schedules() {
	verifsym.Terminates()
	k := verifsym.Choose("kind", len(vKinds))
	kinds := []int{k, (k + 1) % len(vKinds)}
	if verifsym.Tier() > 0 {
		kinds[1] = verifsym.Choose("other kind", len(vKinds))
	}
	workers := 2 + verifsym.Choose("more workers", 1+verifsym.Tier())
	tags := []string{"special"}
	a, err, paths := vProcess(workers, tags, kinds, true)
	verifsym.Assert(err == nil, "the scan ends without an error")
	vCheckProcess(a, paths, tags, kinds)
	verifsym.Assert(verifsym.Idle(), "no goroutine is left behind")
}

// Verif_C18_stops: a scan that is given up ends, and leaves nothing running.
//
//verif:bounds 2-3 packages (thorough: 3-4), one of them with an error that makes the scan end early, 2 workers (thorough: 2-3), all interleavings at channel, lock, wait and load operations with at most 1 preemption
//verif:concurrent
//verif:quick 60s
func Verif_C18_stops() {
	verifsym.Terminates()
	n := 2 + verifsym.Tier() + verifsym.Choose("packages", 2)
	bad := verifsym.Choose("bad", n)
	workers := 2 + verifsym.Choose("more workers", 1+verifsym.Tier())
	var src []verifsym.Src
	var dirs []string
	for i := 0; i < n; i++ {
		dir, decl := "p"+strconv.Itoa(i), "var x int"
		if i == bad {
			// the go command's message has a colon too many
			dir, decl = dir+":q", "var x int = \"a\""
		}
		dirs = append(dirs, dir)
		src = append(src, verifsym.Src{Name: dir + "/a.go", Text: "package p\n\n" + decl + "\n"})
	}
	root := verifsym.Dir(src)
	for i := range dirs {
		dirs[i] = root + "/" + dirs[i]
	}
	a := gosec.NewAnalyzer(gosec.NewConfig(), false, false, false, workers, vLogger())
	a.LoadRules(rules.Generate(false, rules.NewRuleFilter(false, "G404")).RulesInfo())
	verifsym.Schedules(true)
	verifsym.Preemptions(1)
	a.Process(nil, dirs...)
	verifsym.Schedules(false)
	verifsym.Assert(verifsym.Idle(), "no goroutine is left behind")
}

// Verif_C18_workers: the number of workers does not matter.
//
//verif:bounds 0-4 packages of six kinds (the same two kinds alternating), -1 to 6 workers, with and without a build tag; one schedule
//verif:quick 60s
func Verif_C18_workers() {
	verifsym.Terminates()
	n := verifsym.Choose("packages", 5)
	k1, k2 := verifsym.Choose("kind", len(vKinds)), verifsym.Choose("other kind", len(vKinds))
	var kinds []int
	for i := 0; i < n; i++ {
		kinds = append(kinds, []int{k1, k2}[i%2])
	}
	workers := verifsym.Choose("workers", 8) - 1
	var tags []string
	if verifsym.Bool("tags") {
		tags = []string{"special"}
	}
	a, err, paths := vProcess(workers, tags, kinds, false)
	verifsym.Assert(err == nil, "the scan ends without an error")
	vCheckProcess(a, paths, tags, kinds)
}
