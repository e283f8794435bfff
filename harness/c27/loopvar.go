//verif:pkg verifh
//verif:prop C27
package verifh

import (
	"strings"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/verifsym"
)

// vLoops has functions over s []int, t []T and u []*T that take addresses; bad says which lines of the body (from 1) take the address of a variable that all iterations share.
var vLoops = []struct {
	body string
	bad  string
}{
	{"for _, vvv := range s {\nuse(&vvv)\n}\n", "2"},
	{"for i, vvv := range s {\nuse(&i)\nuse(&vvv)\n}\n", "3"},
	{"for _, vvv := range s {\nvvv := vvv\nuse(&vvv)\n}\n", ""},
	{"for _, vvv := range s {\nx := vvv\nuse(&x)\nuse(&vvv)\n}\n", "4"},
	{"for _, vvv := range s {\nfunc() { use(&vvv) }()\n}\n", "2"},
	{"for _, vvv := range s {\nfor _, w := range s {\nuse(&w)\n}\nuse(&vvv)\n}\n", "3 5"},
	{"for _, vvv := range s {\nuse(&vvv)\n}\nfor _, w := range s {\nuse(&w)\n}\n", "2 5"},
	{"vvv := 1\nuse(&vvv)\nfor _, vvv := range s {\n_ = vvv\n}\nuse(&vvv)\n", ""},
	{"for _, vvv := range s {\n_ = vvv\n}\nfor _, vvv := range s {\nvvv := vvv\nuse(&vvv)\n}\n", ""},
	{"for _, vvv := range t {\nuse(&vvv.n)\n}\n", "2"},
	{"for _, vvv := range t {\nuse(&vvv.in.n)\n}\n", "2"},
	{"for _, vvv := range u {\nuse(&vvv.n)\n}\n", ""},
	{"for _, vvv := range u {\nuse(&vvv)\n}\n", "2"},
	{"for i := range s {\nuse(&s[i])\n}\n", ""},
	{"for _, vvv := range s {\nif vvv > 1 {\nuse(&vvv)\nbreak\n}\n}\n", "3"},
	{"for _, vvv := range s {\nm := map[string]*int{\"a\": &vvv}\nuse(m)\n}\n", "2"},
	{"for _, vvv := range s {\nx := -vvv\nuse(&x)\n}\n", ""},
	{"for range s {\nx := 1\nuse(&x)\n}\n", ""},
	{"for _, vvv := range s {\np := &vvv\nuse(p)\n}\n", "2"},
	{"var p *int\nfor _, vvv := range s {\np = &vvv\n}\nuse(p)\n", "3"},
	{"for _, vvv := range s {\ndefer use(&vvv)\n}\nx := 1\nuse(&x)\n", "2"},
	{"for _, vvv := range s {\ndefer use(&vvv)\n}\nfor vvv := 0; vvv < 2; vvv++ {\nuse(&vvv)\n}\n", "2"},
	{"for _, vvv := range s {\nuse([]any{&vvv, &s})\n}\n", "2"},
}

func vLoopProgram(body string) string {
	return "package main\n\ntype I struct{ n int }\n\ntype T struct {\n\tn int\n\tin I\n}\n\nfunc use(any) {}\n\nfunc f(s []int, t []T, u []*T) {\n" + body + "}\n"
}

// vLoopLine is the line before the first one of a body.
const vLoopLine = 13

// Verif_C27_versions: references are reported for the versions of Go whose iterations share their variables, and not for others.
//
//verif:bounds every version 1.N with N from 0 to 199, with and without the prefix "go" and with an arbitrary patch level or a release candidate, beta or toolchain suffix, or nothing behind it
func Verif_C27_versions() {
	digits := 1 + verifsym.Choose("digits", 3)
	minor := verifsym.Str("minor", digits, "0-9")
	verifsym.Assume(digits == 1 || minor[0] != '0')
	verifsym.Assume(digits < 3 || minor[0] == '1')
	n := vDigits(minor, 10)
	version := []string{"", "go"}[verifsym.Choose("prefix", 2)] + "1." + minor
	switch verifsym.Choose("suffix", 6) {
	case 1:
		version += "." + verifsym.Str("patch", 2, "0-9")
	case 2:
		version += "rc" + verifsym.Str("patch", 1, "0-9")
	case 3:
		version += "beta" + verifsym.Str("patch", 1, "0-9")
	case 4:
		version += ".1-custom" + verifsym.Str("patch", 1, "0-9")
	case 5:
		version += " X:boringcrypto"
	}
	verifsym.Setenv("GOSECGOVERSION", version)
	p := verifsym.LoadProgram(vLoopProgram(vLoops[0].body), nil)
	got := len(vScan(vAnalyzer(gosec.NewConfig(), "G601"), p))
	verifsym.Assert(got == verifsym.Ite(n < 22, 1, 0), "reported before Go 1.22 only")
}

// Verif_C27_references: with shared variables, exactly the references to a variable of a range loop are reported.
//
//verif:bounds 23 loop bodies, alone and followed by another one; an arbitrary three-character name of the variable; Go 1.21 or 1.22
func Verif_C27_references() {
	old := verifsym.Bool("old")
	verifsym.Setenv("GOSECGOVERSION", map[bool]string{true: "go1.21.3", false: "go1.22.0"}[old])
	first := verifsym.Choose("first", len(vLoops))
	body, want := "", map[int]bool{}
	add := func(k int) {
		base := vLoopLine + strings.Count(body, "\n")
		for _, l := range strings.Fields(vLoops[k].bad) {
			want[base+int(l[0]-'0')] = old
		}
		body += "{\n" + vLoops[k].body + "}\n"
	}
	add(first)
	if verifsym.Bool("two") {
		add(verifsym.Choose("second", len(vLoops)))
	}
	name := verifsym.Str("variable", 3, "a-z0-9_")
	verifsym.Assume(verifsym.And(name[0] >= 'v', !verifsym.StrEq(name, "var")))
	p := verifsym.LoadProgram(vLoopProgram(body), []verifsym.Hole{{Text: "vvv", Lit: name}})
	got := map[int]bool{}
	for _, i := range vScan(vAnalyzer(gosec.NewConfig(), "G601"), p) {
		n := int(vDigits(i.Line, 10))
		verifsym.Assert(!got[n], "reported once")
		verifsym.Assert(want[n], "only references to shared variables are reported")
		got[n] = true
	}
	for n, w := range want {
		verifsym.Assert(got[n] == w, "all references to shared variables are reported")
	}
}

// Verif_C27_returned: a reference that the function returns is the only one it makes.
//
//verif:bounds five forms of returning the address of a loop variable
func Verif_C27_returned() {
	verifsym.Setenv("GOSECGOVERSION", "go1.20")
	forms := []struct {
		result, ret string
		want        int
	}{
		{"*int", "&v", 0},
		{"(*int, error)", "&v, nil", 0},
		{"(error, *int)", "nil, &v", 0},
		{"(*int, *int)", "&v, &v", 0},
		{"[]*int", "[]*int{&v}", 1},
	}
	f := forms[verifsym.Choose("form", len(forms))]
	after := verifsym.Bool("used before")
	use := ""
	if after {
		use = "\t\tuse(&v)\n"
		f.want++
	}
	p := verifsym.LoadProgram("package main\n\nfunc use(any) {}\n\nfunc f(s []int) "+f.result+" {\n\tfor _, v := range s {\n"+use+"\t\treturn "+f.ret+"\n\t}\n\tpanic(0)\n}\n", nil)
	verifsym.Assert(len(vScan(vAnalyzer(gosec.NewConfig(), "G601"), p)) == f.want, "returned references are not reported")
}
