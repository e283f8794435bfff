//verif:pkg cmd/gosec
//verif:prop C14
package main

import (
	"strings"

	"github.com/securego/gosec/v2/verifsym"
)

// Verif_C14_command: paths in a report are relative to the innermost requested directory that contains the file.
//
//verif:bounds one or two requested paths out of eight, relative and absolute, with and without dots, or up to two out of four which go up from a subdirectory; the flag for all packages below; formats sonarqube and sarif
//verif:quick 90s
func Verif_C14_command() {
	files := []string{"pkg/a.go", "pkg/sub/b.go", "pkgs/c.go"}
	var src []verifsym.Src
	for _, f := range files {
		src = append(src, verifsym.Src{Name: f, Text: "package p\n\nimport \"math/rand\"\n\nfunc F() int { return rand.Int() }\n"})
	}
	dir := verifsym.Dir(src)
	verifsym.Chdir(dir)
	// the path, its directory, and whether it covers what is below
	type arg struct {
		text, dir string
		deep      bool
	}
	all := []arg{{"./...", "", true}, {"pkg", "pkg", false}, {"./pkg/...", "pkg", true}, {"pkg/sub/", "pkg/sub", false}, {dir + "/pkgs", "pkgs", false}, {"./pkg/../pkgs/...", "pkgs", true}, {dir + "/...", "", true}}
	here := ""
	if verifsym.Choose("from below", 2) == 1 {
		here = "pkg/sub"
		verifsym.Chdir(dir + "/pkg/sub")
		all = []arg{{"..", "pkg", false}, {"../...", "pkg", true}, {"../../...", "", true}, {"./../../pkgs", "pkgs", false}}
	}
	var args []string
	var asked []arg
	switch k := verifsym.Choose("first", len(all)+1); k {
	case len(all):
		args, asked = append(args, "-r"), append(asked, arg{"", here, true})
	default:
		args, asked = append(args, all[k].text), append(asked, all[k])
		if k := verifsym.Choose("second", len(all)+1); k < len(all) {
			args, asked = append(args, all[k].text), append(asked, all[k])
		}
	}
	format := []string{"sonarqube", "sarif"}[verifsym.Choose("format", 2)]
	args = append([]string{"-include=G404", "-quiet", "-fmt=" + format}, args...)
	_, exited, out := verifsym.Command(main, args...)
	verifsym.Assert(exited, "the command ends with an exit status")
	key := map[string]string{"sonarqube": `"filePath": "`, "sarif": `"uri": "`}[format]
	for _, f := range files {
		d := f[:strings.LastIndex(f, "/")]
		in, root := false, ""
		for _, a := range asked {
			if d == a.dir || a.dir == "" || strings.HasPrefix(d, a.dir+"/") {
				if d == a.dir || a.deep {
					in = true
				}
				if len(a.dir) > len(root) {
					root = a.dir
				}
			}
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(f, root), "/")
		n := strings.Count(out, key+rel+`"`)
		want := 0
		if in {
			want = 1
		}
		verifsym.Assert(n == want, "the path of "+f)
	}
}
