//verif:pkg cmd/gosec
//verif:prop C25
package main

import (
	"strings"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/verifsym"
)

// vcFile is a file with one finding and the conditions under which it belongs to a scan.
type vcFile struct {
	name      string
	head      string
	pkg       string
	test, gen bool
	tag       string // build tag it needs
	never     bool   // never part of the build
}

var vcFiles = []vcFile{
	{name: "main.go", pkg: "main"},
	{name: "sub/b.go", pkg: "sub"},
	{name: "sub/deep/c.go", pkg: "deep"},
	{name: "sub/b_test.go", pkg: "sub", test: true},
	{name: "sub/x_test.go", pkg: "sub_test", test: true},
	{name: "sub/gen.go", pkg: "sub", head: "// Code generated by x. DO NOT EDIT.\n\n", gen: true},
	{name: "sub/special.go", pkg: "sub", head: "//go:build special\n\n", tag: "special"},
	{name: "sub/windows.go", pkg: "sub"},
	{name: "sub/x_windows.go", pkg: "sub", never: true},
	{name: "sub/ignored.go", pkg: "main", head: "//go:build ignore\n\n", never: true},
	{name: "sub/deeper/d.go", pkg: "deeper"},
	{name: "only/o_test.go", pkg: "only", test: true},
	{name: "vendor/v/v.go", pkg: "v"},
	{name: "vendored/v.go", pkg: "vendored"},
	{name: "a.git/v.go", pkg: "agit"},
}

func vcTree() string {
	var src []verifsym.Src
	for _, f := range vcFiles {
		text := f.head + "package " + f.pkg + "\n\nimport \"math/rand\"\n\n"
		switch {
		case f.pkg == "main":
			text += "func main() { println(rand.Int()) }\n"
		default:
			n := strings.NewReplacer("/", "", ".", "", "_", "").Replace(f.name)
			text += "func F" + n + "() { println(rand.Int()) }\n"
		}
		src = append(src, verifsym.Src{Name: f.name, Text: text})
	}
	return verifsym.Dir(src)
}

// vcIn tells whether a file is in a directory, or below it.
func vcIn(name, dir string, deep bool) bool {
	d := ""
	if i := strings.LastIndex(name, "/"); i >= 0 {
		d = name[:i]
	}
	return d == dir || deep && (dir == "" || strings.HasPrefix(d, dir+"/"))
}

type vcPath struct {
	arg  string
	dir  string
	deep bool
}

var vcPaths = []vcPath{{"/...", "", true}, {"", "", false}, {"/sub", "sub", false}, {"/sub/...", "sub", true}, {"/sub/deep", "sub/deep", false}, {"/vendor/v", "vendor/v", false}, {"/sub/../sub/", "sub", false}, {"/only/...", "only", true}}

// Verif_C25_files: a scan reports each file of the requested directories exactly once, and no other file.
//
//verif:bounds a tree of 15 files: plain, test, external test, generated, tagged, for other systems, ignored, vendored and alike; one requested path of eight, or two of them (the second one of five); tests, generated files, build tags; no excluded directory or one of six
//verif:quick 100s
func Verif_C25_files() {
	paths := []vcPath{vcPaths[verifsym.Choose("path", len(vcPaths))]}
	tests, gen := verifsym.Bool("tests"), verifsym.Bool("exclude-generated")
	var args []string
	tag, excl := "", ""
	switch k := verifsym.Choose("other", 14); k {
	case 1, 2:
		tag = []string{"special", "other,special"}[k-1]
		args = append(args, "-tags="+tag)
	case 3, 4, 5, 6, 7, 8:
		excl = []string{"sub", "deep", "sub/deep", "vendored", "dee", "de.*"}[k-3]
		args = append(args, "-exclude-dir="+excl)
	case 9, 10, 11, 12, 13:
		paths = append(paths, vcPaths[k-9])
	}
	if tests {
		args = append(args, "-tests")
	}
	if gen {
		args = append(args, "-exclude-generated")
	}
	root := vcTree()
	var list []string
	for _, p := range paths {
		list = append(list, root+p.arg)
	}
	verifsym.Setenv("GOFLAGS", "-mod=mod")
	code, r, ok := vcRunPaths(root+"/report.json", append(args, "-include=G404", "-show-ignored"), list...)
	want := 0
	for _, f := range vcFiles {
		in := false
		for _, p := range paths {
			// excluded directories concern only the search for directories
			in = in || vcIn(f.name, p.dir, p.deep) && !(strings.HasSuffix(p.arg, "...") && vcExcluded(f.name, excl))
		}
		in = in && !f.never && (tests || !f.test) && !(gen && f.gen) && (f.tag == "" || strings.HasSuffix(tag, f.tag))
		n := 0
		for _, is := range r.Issues {
			if is.File == root+"/"+f.name {
				n++
			}
		}
		if in {
			want++
		}
		verifsym.Assert(n <= 1, "a file is reported once: "+f.name)
		verifsym.Assert((n == 1) == in, "a file is reported exactly when it is requested: "+f.name)
	}
	if !ok {
		// nothing to scan at all
		verifsym.Assert(want == 0 && code == 1, "no report without files only")
		return
	}
	verifsym.Assert(len(r.Issues) == want, "no other file is reported")
	verifsym.Assert(code == min(want, 1) && len(r.Errors) == 0, "exit status")
}

// vcExcluded tells whether a directory of the path is excluded, by default or by the given name.
func vcExcluded(name, excl string) bool {
	l := strings.Split(name, "/")
	for i, d := range l[:len(l)-1] {
		if d == "vendor" || d == ".git" || d == excl {
			return true
		}
		if excl == "de.*" && strings.HasPrefix(d, "de") {
			return true
		}
		if excl == "sub/deep" && i > 0 && l[i-1] == "sub" && d == "deep" {
			return true
		}
	}
	return false
}

// Verif_C25_excluded: a directory is excluded exactly when its path has the excluded components.
//
//verif:bounds paths of up to seven (thorough: nine) characters a, b, slash and dot; five excluded names, three of them of two components or with a slash at an end
//verif:quick 60s
func Verif_C25_excluded() {
	ex := []string{"ab", "a/b", "ab/", "a", "/ab"}
	e := ex[verifsym.Choose("excluded", len(ex))]
	n := 1 + verifsym.Choose("size", 7+2*verifsym.Tier())
	p := verifsym.Str("path", n, "ab/.")
	rs := gosec.ExcludedDirsRegExp([]string{e})
	w := strings.Trim(e, "/")
	want := false
	for i := 0; i+len(w) <= n; i++ {
		m := true
		for k := 0; k < len(w); k++ {
			m = verifsym.And(m, p[i+k] == w[k])
		}
		if i > 0 {
			m = verifsym.And(m, p[i-1] == '/')
		}
		if i+len(w) < n {
			m = verifsym.And(m, p[i+len(w)] == '/')
		}
		want = verifsym.Or(want, m)
	}
	verifsym.Assert(len(rs) == 1 && rs[0].MatchString(p) == want, "excluded exactly by its components")
}
