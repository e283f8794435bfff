//verif:pkg verifh
//verif:prop C34
package verifh

import (
	"strings"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/verifsym"
)

var vCommentable = []string{
	"package main", "import \"crypto/md5\"", "type T struct {", "\tA int", "}", "var x = []int{", "\t1,", "}",
	"func f(", "\ta int,", ") {", "\tmd5.New()", "\tfor a > x[0] {", "\t\ta++", "\t}", "\tswitch {", "\tdefault:", "\t}", "\tfunc() {", "\t}()", "}", "func g() {}", "",
}

// vLines is the number of lines of a text, of which the last may end without a newline.
func vLines(s string) int {
	n := strings.Count(s, "\n")
	if !strings.HasSuffix(s, "\n") {
		n++
	}
	return n
}

// vTag states that the text of a line comment begins with the tag.
func vTag(s string) bool {
	at := func(i int) bool {
		r := true
		for k := 0; k < 6; k++ {
			r = verifsym.And(r, s[i+k] == "#nosec"[k])
		}
		return r
	}
	return verifsym.Or(at(0), verifsym.And(s[0] == ' ', at(1)))
}

// Verif_C34_file: the statistics count the file, its lines and every comment that is a directive, wherever it is, once.
//
//verif:bounds one file with two comments behind any two of 23 lines, one with arbitrary text of seven characters of "#nosec ", the other a directive (with a rule or none, as a line or a block comment) or not; up to two empty lines, ends with and without a newline, both kinds of line ends; directives in force or not; suppressions tracked or not
//verif:quick 100s
func Verif_C34_file() {
	n := len(vCommentable)
	i := verifsym.Choose("place", n)
	var j int
	if verifsym.Tier() == 1 {
		j = (i + 1 + verifsym.Choose("other place", n-1)) % n
	} else {
		j = (i + []int{1, 7, 18}[verifsym.Choose("other place", 3)]) % n
	}
	s := verifsym.Str("text", 7, "#nosec ")
	others := []string{" //#nosec", " // #nosec G401 -- because", " /* #nosec */", " // see #nosec", " // nosec", " //gosec:disable G401", " // plain"}
	k := (i + j) % len(others)
	kinds := 1
	if verifsym.Tier() == 1 {
		k, kinds = 0, len(others)
	}
	k += verifsym.Choose("other", kinds)
	lines := append([]string{}, vCommentable...)
	lines[i] += " //TEXTTXT"
	lines[j] += others[k]
	end := (i + 2*j) % 4
	nl := "\n"
	if end >= 2 {
		nl = "\r\n"
	}
	src := strings.Join(lines, nl)
	if end%2 == 1 {
		src += strings.Repeat(nl, 1+i%3)
	}
	conf := gosec.NewConfig()
	counted := i%4 > 0 || verifsym.Choose("mode", 2) == 0
	if !counted {
		conf.SetGlobal(gosec.Nosec, "true")
	}
	a := gosec.NewAnalyzer(conf, false, false, j%2 == 0, 1, vLogger())
	vLoad(a, "G401")
	vScan(a, verifsym.LoadProgram(src, []verifsym.Hole{{Text: "TEXTTXT", Lit: s, Str: s, IsStr: true}}))
	_, m, _ := a.Report()
	want := 0
	if counted {
		switch k {
		case 0, 1, 2, 5:
			want = 1
		}
		want = verifsym.Ite(vTag(s), want+1, want)
	}
	verifsym.Assert(m.NumFiles == 1, "one file")
	verifsym.Assert(m.NumLines == vLines(src), "lines")
	verifsym.Assert(m.NumNosec == want, "directives")
}

// Verif_C34_package: the statistics of a package are those of its files that are analysed.
//
//verif:bounds packages of one to four files in any order of kinds: with findings, without, empty but for the package clause, generated; directives in each or not; generated files left out or not; one or two packages with one scanner
//verif:quick 60s
func Verif_C34_package() {
	type kind struct {
		text      string
		generated bool
	}
	kinds := []kind{
		{"package work\n\nimport \"crypto/md5\"\n\nfunc XXX() {\n\t_ = md5.New() DDD\n}\n", false},
		{"package work\n\nfunc XXX() {} DDD\n", false},
		{"package work DDD", false},
		{"// Code generated by a tool. DO NOT EDIT.\n\npackage work\n\nfunc XXX() {} DDD\n", true},
		{"package work\n\n// Code generated by a tool. DO NOT EDIT.\n\nfunc XXX() {} DDD\n", false},
		{"package work\n\n// Code generated by hand. DO NOT EDIT\n\nfunc XXX() {} DDD\n", false},
	}
	exclude := verifsym.Choose("exclude generated", 2) == 1
	a := gosec.NewAnalyzer(gosec.NewConfig(), false, exclude, false, 1, vLogger())
	vLoad(a, "G401", "G602")
	files, lines, nosec := 0, 0, 0
	for p, pn := 0, verifsym.Choose("packages", 2)+1; p < pn; p++ {
		var srcs []verifsym.Src
		n := 2
		if verifsym.Tier() == 1 {
			n = 3
		}
		if p == 0 || verifsym.Tier() == 1 {
			n = verifsym.Choose("files", n) + 1
		}
		var holes []verifsym.Hole
		for f := 0; f < n; f++ {
			c := 3*p + f
			if p == 0 || verifsym.Tier() == 1 {
				c = verifsym.Choose("kind", len(kinds))
			}
			k := kinds[c]
			d := (f + p + n) % 3
			text := strings.ReplaceAll(k.text, "XXX", "f"+string(rune('a'+f)))
			text = strings.ReplaceAll(text, "DDD", []string{"// #nosec", "// none", "//TEXTTXT"}[d])
			srcs = append(srcs, verifsym.Src{Name: string(rune('a'+f)) + ".go", Text: text})
			s := ""
			if d == 2 && len(holes) == 0 {
				s = "#nose" + verifsym.Str("text", 1, "a-z") + " "
				holes = append(holes, verifsym.Hole{Text: "TEXTTXT", Lit: s, Str: s, IsStr: true})
			}
			if exclude && k.generated {
				continue
			}
			files++
			lines += vLines(text)
			if d == 0 {
				nosec++
			}
			if s != "" {
				nosec = verifsym.Ite(vTag(s), nosec+1, nosec)
			}
		}
		vScan(a, verifsym.LoadFiles("example.com/work"+string(rune('a'+p)), srcs, holes))
	}
	_, m, _ := a.Report()
	verifsym.Assert(m.NumFiles == files, "files")
	verifsym.Assert(m.NumLines == lines, "lines")
	verifsym.Assert(m.NumNosec == nosec, "directives")
}
