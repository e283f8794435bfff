//verif:pkg verifh
//verif:prop C04
package verifh

import (
	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/verifsym"
)

func vHole(text, lit string) verifsym.Hole {
	return verifsym.Hole{Text: text, Lit: lit, Str: lit, IsStr: true}
}

// vCommented scans a call that is reported as G401, annotated with a comment; it returns the finding.
func vCommented(conf gosec.Config, comment string, holes ...verifsym.Hole) *issue.Issue {
	src := "package main\n\nimport \"crypto/md5\"\n\nfunc f() {\n\t" + comment + "\n\tmd5.New()\n}\n"
	p := verifsym.LoadProgram(src, holes)
	a := gosec.NewAnalyzer(conf, false, false, true, 1, vLogger())
	vLoad(a, "G401")
	issues := vScan(a, p)
	verifsym.Assert(len(issues) == 1, "exactly one finding")
	return issues[0]
}

// vArgs is the specification of the text behind a tag: does it suppress id, and does it name any rule?
func vArgs(b string, id string) bool {
	named, hit, before := false, false, true
	for i := 0; i < len(b); i++ {
		if i+1 < len(b) {
			before = verifsym.And(before, !verifsym.And(b[i] == '-', b[i+1] == '-'))
		}
		if i+4 <= len(b) {
			m, h := b[i] == 'G', b[i] == id[0]
			for k := 1; k < 4; k++ {
				m = verifsym.And(m, b[i+k] >= '0', b[i+k] <= '9')
				h = verifsym.And(h, b[i+k] == id[k])
			}
			named = verifsym.Or(named, verifsym.And(before, m))
			hit = verifsym.Or(hit, verifsym.And(before, h))
		}
	}
	return verifsym.Or(!named, hit)
}

// Verif_C04_args: behind a tag, exactly the rules named before a double dash are suppressed, or all if none is.
//
//verif:bounds every text of 7 (thorough: 9) characters of G, 4, 0, 1, -, space behind #nosec or gosec:disable
//verif:quick 60s
func Verif_C04_args() {
	n := 7
	if verifsym.Tier() == 1 {
		n = 9
	}
	var s string
	var is *issue.Issue
	if verifsym.Choose("tag", 2) == 0 {
		s = verifsym.Str("args", n, "G401\\- ")
		is = vCommented(gosec.NewConfig(), "//#nosec ARGUMENTS.", vHole("ARGUMENTS", s))
	} else {
		s = verifsym.Str("args", n, "G401\\- ")
		is = vCommented(gosec.NewConfig(), "//gosec:disable ARGUMENTS.", vHole("ARGUMENTS", s))
	}
	verifsym.Assert((len(is.Suppressions) > 0) == vArgs(s, "G401"), "rules named before the dashes")
	verifsym.Assert(len(is.Suppressions) <= 1, "one record")
}

// Verif_C04_place: a comment is a directive exactly when the tag is at its start or at the start of one of its lines.
//
//verif:bounds line and block comments of one or two lines with one arbitrary letter or space before the tag and one arbitrary character behind it; default, replaced and alternative tags
func Verif_C04_place() {
	conf := gosec.NewConfig()
	tags := []string{"#nosec"}
	none := "#mynosec"
	switch verifsym.Choose("tags", 4) {
	case 1:
		conf.SetGlobal(gosec.NoSecAlternative, "mynosec")
		tags, none = []string{"#nosec", "#mynosec"}, "#other"
	case 2:
		conf.SetGlobal(gosec.Nosec, "mynosec")
		tags, none = []string{"#mynosec"}, "#nosec"
	case 3:
		conf.SetGlobal(gosec.NoSecAlternative, "c++")
		tags, none = []string{"#nosec", "#c++"}, "#c"
	}
	k := verifsym.Choose("tag", len(tags)+1)
	active := k < len(tags)
	tag := none
	if active {
		tag = tags[k]
	}
	c := verifsym.Str("before", 1, "a-z ")
	e := verifsym.Str("after", 1, "a-z0-9 ")
	start := c[0] == ' '
	forms := []struct {
		text  string
		after bool // the tag is where the arbitrary letter is in front of it
	}{
		{"//XX" + tag + "YY", true},
		{"// XX" + tag + "YY", true},
		{"//" + tag + "YY XX", false},
		{"// text XX" + tag + "YY", true},
		{"// text\n\t// XX" + tag + "YY", true},
		{"// XX" + tag + "YY\n\t// text", true},
		{"/*XX" + tag + "YY*/", true},
		{"/* text\n  XX" + tag + "YY\n text */", true},
		{"/* text XX" + tag + "YY\n text */", true},
	}
	f := verifsym.Choose("form", len(forms))
	expect := active && (f == 2 || (f != 3 && f != 8))
	if f == 2 {
		start = true
	}
	is := vCommented(conf, forms[f].text, vHole("XX", c), vHole("YY", e))
	verifsym.Assert((len(is.Suppressions) > 0) == verifsym.And(expect, start), "directive recognised exactly at the start of a line: "+forms[f].text)
}

// Verif_C04_disable: the gosec:disable form is a directive exactly without text in front of or directly behind it.
//
//verif:bounds one arbitrary character in front of or behind the word, alone and before a rule list, and other comments in front of it
func Verif_C04_disable() {
	e := verifsym.Str("after", 1, "a-z0-9 ")
	c := verifsym.Str("before", 1, "a-z ")
	switch verifsym.Choose("form", 8) {
	case 5:
		is := vCommented(gosec.NewConfig(), "//XX//gosec:disable G401", vHole("XX", c))
		verifsym.Assert(len(is.Suppressions) == 0, "behind text on the same line")
	case 6:
		is := vCommented(gosec.NewConfig(), "//XXgosec:disable G401", vHole("XX", c))
		verifsym.Assert(len(is.Suppressions) == 0, "character in front")
	case 7:
		is := vCommented(gosec.NewConfig(), "/*gosec:disable G401*/")
		verifsym.Assert(len(is.Suppressions) == 0, "block comment")
	case 0:
		is := vCommented(gosec.NewConfig(), "//gosec:disable")
		verifsym.Assert(len(is.Suppressions) == 1, "bare form")
	case 1:
		is := vCommented(gosec.NewConfig(), "//gosec:disableYYG401", vHole("YY", e))
		verifsym.Assert((len(is.Suppressions) == 1) == (e[0] == ' '), "rule list is separated by a space")
	case 2:
		is := vCommented(gosec.NewConfig(), "// gosec:disable G401")
		verifsym.Assert(len(is.Suppressions) == 0, "no space in front")
	case 3:
		is := vCommented(gosec.NewConfig(), "// text\n\t//gosec:disable G401")
		verifsym.Assert(len(is.Suppressions) == 1, "behind other text")
	case 4:
		is := vCommented(gosec.NewConfig(), "//gosec:enable G401")
		verifsym.Assert(len(is.Suppressions) == 0, "other directive")
	}
}

// Verif_C04_justification: the text behind the dashes is kept as it is; rule IDs in it change nothing.
//
//verif:bounds 2-4 dashes; rule lists of none, one or two rules with arbitrary digits; justification of two words of 2 arbitrary letters, a single dash and a rule ID with arbitrary digits, and further double dashes; both directive forms and a block comment
//verif:quick 60s
func Verif_C04_justification() {
	r1, r2, r3 := vRuleDigits("r1"), vRuleDigits("r2"), vRuleDigits("r3")
	w1, w2 := verifsym.Str("w1", 2, "a-zA-F"), verifsym.Str("w2", 2, "a-z0-9")
	dashes := []string{"--", "---", "----"}[verifsym.Choose("dashes", 3)]
	list := []string{"", " R11R", " R11R R22R", " R11R, R22R", "R11R"}[verifsym.Choose("list", 5)]
	sp := []string{" ", ""}[verifsym.Choose("space", 2)]
	more := []string{"", " -- W1W", " --- R33R"}[verifsym.Choose("more", 3)]
	text := list + sp + dashes + sp + "W1W R33R - W2W" + more
	var comment string
	switch verifsym.Choose("form", 3) {
	case 0:
		comment = "// #nosec" + text
	case 1:
		comment = "//gosec:disable " + text
	case 2:
		comment = "/* #nosec" + text + " */"
	}
	is := vCommented(gosec.NewConfig(), comment, vHole("R11R", r1), vHole("R22R", r2), vHole("R33R", r3), vHole("W1W", w1), vHole("W2W", w2))
	hit := true
	switch len(list) {
	case 4, 5:
		hit = verifsym.StrEq(r1, "G401")
	case 10, 11:
		hit = verifsym.Or(verifsym.StrEq(r1, "G401"), verifsym.StrEq(r2, "G401"))
	}
	verifsym.Assert((len(is.Suppressions) == 1) == hit, "rule list decides: "+comment)
	if len(is.Suppressions) == 1 {
		verifsym.Assert(verifsym.StrEq(is.Suppressions[0].Justification, w1+" "+r3+" - "+w2+[]string{"", " -- " + w1, " --- " + r3}[len(more)/4]), "justification is kept")
		verifsym.Assert(is.Suppressions[0].Kind == "inSource", "kind")
	}
}

func vRuleDigits(name string) string { return "G" + verifsym.Str(name, 3, "0-9") }
