//verif:pkg verifh
//verif:prop C12
package verifh

import (
	"go/ast"
	"strconv"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/rules"
	"github.com/securego/gosec/v2/verifsym"
)

type vProfile struct {
	name       string
	make       func(id string, c gosec.Config) (gosec.Rule, []ast.Node)
	floor, top int64
}

var vProfiles = []vProfile{
	{"intermediate", nil, 0x0303, 0x0304},
	{"modern", rules.NewModernTLSCheck, 0x0304, 0x0304},
	{"old", rules.NewOldTLSCheck, 0x0301, 0x0304},
}

func vTLSAnalyzer(p vProfile) *gosec.Analyzer {
	if p.make == nil {
		return vAnalyzer(gosec.NewConfig(), "G402")
	}
	a := gosec.NewAnalyzer(gosec.NewConfig(), false, false, false, 1, vLogger())
	a.LoadRules(map[string]gosec.RuleBuilder{"G402": p.make}, map[string]bool{"G402": false})
	return a
}

// vVersion is a version field of a configuration literal: absent, or any number in decimal or hexadecimal notation.
type vVersion struct {
	text string // in the program
	val  int64
	hole []verifsym.Hole
	form string
}

func vMkVersion(name, field, text string, named bool) vVersion {
	n := 3
	if named {
		n = 4
	}
	switch verifsym.Choose(name+".form", n) {
	case 0:
		return vVersion{form: "-"}
	case 1:
		v := int64(verifsym.Int(name, 0, 65535))
		return vVersion{field + ": " + text + ", ", v, []verifsym.Hole{vInt(text, v)}, "n"}
	case 2:
		s := verifsym.Str(name, 4, "0-9")
		v := vDigits(s, 16)
		return vVersion{field + ": " + text + ", ", v, []verifsym.Hole{{Text: text, Lit: "0x" + s, Val: v}}, "x"}
	default:
		k := verifsym.Choose(name+".const", 4)
		return vVersion{field + ": tls.VersionTLS1" + strconv.Itoa(k) + ", ", int64(0x0301 + k), nil, "const"}
	}
}

// vBadVersions is the specification: unset versions count as 0; a maximum of 0 is no limit.
func vBadVersions(p vProfile, lo, hi int64) bool {
	return verifsym.Or(lo < p.floor, verifsym.And(hi != 0, hi < p.top))
}

func vAt(issues []*issue.Issue, line string) int {
	n := 0
	for _, i := range issues {
		if i.RuleID == "G402" && i.Line == line {
			n++
		}
	}
	return n
}

// Verif_C12_versions: a literal is reported for its versions exactly when its floor or ceiling is too low, whatever came before.
//
//verif:bounds the three profiles; one or two literals in either order of fields; versions absent, any number 0..65535 in decimal, four hexadecimal digits, or the tls constants; before it nothing, another literal, an assignment of a version, or a literal that is reported for another setting
//verif:quick 120s
func Verif_C12_versions() {
	np := 1
	if verifsym.Tier() == 1 {
		np = 3
	}
	p := vProfiles[verifsym.Choose("profile", np)]
	before := verifsym.Choose("before", 5)
	var holes []verifsym.Hole
	pre := "\tprintln()"
	preBad := false
	switch before {
	case 1:
		v := vMkVersion("pmin", "MinVersion", "722", false)
		w := vMkVersion("pmax", "MaxVersion", "733", false)
		pre = "\tuse(tls.Config{" + v.text + w.text + "})"
		holes = append(append(holes, v.hole...), w.hole...)
		preBad = vBadVersions(p, v.val, w.val)
	case 2:
		v := vMkVersion("pmin", "MinVersion", "722", false)
		w := vMkVersion("pmax", "MaxVersion", "733", false)
		pre = "\tuse(tls.Config{" + v.text + w.text + "InsecureSkipVerify: true})"
		holes = append(append(holes, v.hole...), w.hole...)
		preBad = true
	case 3:
		pre = "\tc.MinVersion = 722"
		holes = append(holes, vInt("722", int64(verifsym.Int("pmin", 0, 65535))))
	case 4:
		pre = "\tc.MaxVersion = 722"
		holes = append(holes, vInt("722", int64(verifsym.Int("pmin", 0, 65535))))
	}
	lo := vMkVersion("min", "MinVersion", "744", true)
	hi := vMkVersion("max", "MaxVersion", "755", true)
	holes = append(append(holes, lo.hole...), hi.hole...)
	fields := lo.text + hi.text
	if verifsym.Choose("order", 2) == 1 {
		fields = hi.text + lo.text
	}
	prog := "package main\n\nimport \"crypto/tls\"\n\nfunc use(c tls.Config) {}\n\nfunc f(c *tls.Config) {\n" + pre + "\n\tuse(tls.Config{" + fields + "})\n}\n"
	issues := vScan(vTLSAnalyzer(p), verifsym.LoadProgram(prog, holes))
	what := p.name + " min=" + lo.form + " max=" + hi.form + " before=" + strconv.Itoa(before)
	verifsym.Assert((vAt(issues, "8") == 1) == preBad, "first literal "+what)
	verifsym.Assert((vAt(issues, "9") == 1) == vBadVersions(p, lo.val, hi.val), "literal "+what)
	verifsym.Assert(len(issues) == vAt(issues, "8")+vAt(issues, "9"), "no other report")
}

// Verif_C12_settings: verification skipping, the preference for server cipher suites and weak cipher suites are reported in
// literals and in assignments; nothing else is.
//
//verif:bounds settings true, false; approved and unapproved cipher suites alone or after an approved one; literal and assignment; plain and aliased import
func Verif_C12_settings() {
	type setting struct {
		field, value string
		bad          bool
	}
	settings := []setting{
		{"InsecureSkipVerify", "true", true},
		{"InsecureSkipVerify", "false", false},
		{"InsecureSkipVerify", "dyn()", true},
		{"PreferServerCipherSuites", "true", false},
		{"PreferServerCipherSuites", "false", true},
		{"CipherSuites", "[]uint16{tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256}", false},
		{"CipherSuites", "[]uint16{tls.TLS_RSA_WITH_RC4_128_SHA}", true},
		{"CipherSuites", "[]uint16{tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256, tls.TLS_RSA_WITH_3DES_EDE_CBC_SHA}", true},
		{"ServerName", "\"x\"", false},
	}
	s := settings[verifsym.Choose("setting", len(settings))]
	name, spec := "tls", ""
	value := s.value
	if verifsym.Choose("alias", 2) == 1 {
		name, spec = "zz", "zz "
		value = ""
		for i := 0; i < len(s.value); i++ {
			if i+4 <= len(s.value) && s.value[i:i+4] == "tls." {
				value += "zz."
				i += 3
			} else {
				value += s.value[i : i+1]
			}
		}
	}
	v := int64(verifsym.Int("min", 0, 65535))
	var stmt string
	bad := s.bad
	lit := verifsym.Choose("literal", 2) == 1
	if lit {
		stmt = "\tuse(" + name + ".Config{MinVersion: 744, " + s.field + ": " + value + "})"
		bad = verifsym.Or(bad, v < 0x0303)
	} else {
		stmt = "\tc." + s.field + " = " + value
	}
	param := []string{"c " + name + ".Config", "c *" + name + ".Config"}[verifsym.Choose("pointer", 2)]
	prog := "package main\n\nimport " + spec + "\"crypto/tls\"\n\nfunc dyn() bool { return false }\nfunc use(c any) {}\n\nfunc f(" + param + ") {\n\tprintln()\n" + stmt + "\n\tuse(c)\n}\n"
	issues := vScan(vTLSAnalyzer(vProfiles[0]), verifsym.LoadProgram(prog, []verifsym.Hole{vInt("744", v)}))
	verifsym.Assert((vAt(issues, "10") == 1) == bad, s.field+" "+s.value)
	verifsym.Assert(len(issues) == vAt(issues, "10"), "no other report")
}

// Verif_C12_forms: a configuration is judged in whatever form it is written, and by the value of what it is set to.
//
//verif:bounds configurations elided in slices, arrays, maps and behind pointers, of an alias type, nested in a structure, in parentheses; versions by constants declared alone or among others, by initialised variables of the function and of the package, in parentheses, by conversion, as sums; one symbolic number 0..65535 for the floor or for the ceiling; look-alike types of the program itself
//verif:quick 60s
func Verif_C12_forms() {
	field, bad := "MinVersion", false
	v := int64(verifsym.Int("version", 0, 65535))
	rest := ""
	if verifsym.Choose("ceiling", 2) == 1 {
		field, rest = "MaxVersion", "MinVersion: tls.VersionTLS12, "
		bad = verifsym.And(v != 0, v < 0x0304)
	} else {
		bad = v < 0x0303
	}
	values := []string{"744", "(744)", "uint16(744)", "one", "two", "local", "global", "second", "744 + 0"}
	value := values[verifsym.Choose("value", len(values))]
	set := "{" + rest + field + ": " + value + "}"
	forms := []string{
		"tls.Config" + set, "&tls.Config" + set, "(&(tls.Config" + set + "))",
		"[]tls.Config{" + set + "}", "[]*tls.Config{" + set + "}", "[1]tls.Config{0: " + set + "}",
		"map[string]tls.Config{\"a\": " + set + "}", "map[string]*tls.Config{\"a\": " + set + "}",
		"alias" + set, "[]alias{" + set + "}", "[][]*alias{{" + set + "}}",
		"server{conf: tls.Config" + set + "}", "server{ptr: &tls.Config" + set + "}",
		"Config" + set, "[]*Config{" + set + "}",
	}
	f := verifsym.Choose("form", len(forms))
	if f >= 13 {
		bad = false // a type of the program itself
	}
	prog := "package main\n\nimport \"crypto/tls\"\n\ntype alias = tls.Config\n\ntype Config struct{ MinVersion, MaxVersion uint16 }\n\ntype server struct {\n\tconf tls.Config\n\tptr  *tls.Config\n}\n\n" +
		"const one = 744\n\nconst (\n\tfirst = 772\n\ttwo   = 744\n)\n\nvar global uint16 = 744\n\nvar other, second uint16 = 772, 744\n\nfunc use(c any) {}\n\n" +
		"func f() {\n\tvar local uint16 = 744\n\tuse(" + forms[f] + ")\n\tprintln(local, global, second, other, first)\n}\n"
	issues := vScan(vTLSAnalyzer(vProfiles[0]), verifsym.LoadProgram(prog, []verifsym.Hole{vInt("744", v)}))
	verifsym.Assert((len(issues) == 1) == bad, field+" as "+value+" in "+forms[f])
	verifsym.Assert(vAt(issues, "29") == len(issues), "at the literal "+forms[f])
}

// Verif_C12_values: a setting is judged in whatever form its value is written, wherever it is set.
//
//verif:bounds constants true and false by name, in parentheses, negated; suites in parentheses, with an index, by a dot import; set in a literal, an elided literal, through a variable, a pointer, a field, an element, or among other assignments; look-alike types and fields of the program itself
func Verif_C12_values() {
	type setting struct {
		field, value string
		bad          bool
	}
	settings := []setting{
		{"InsecureSkipVerify", "yes", true}, {"InsecureSkipVerify", "no", false}, {"InsecureSkipVerify", "(true)", true}, {"InsecureSkipVerify", "!true", false}, {"InsecureSkipVerify", "!no", true},
		{"InsecureSkipVerify", "1 < 2", true}, {"InsecureSkipVerify", "dyn()", true},
		{"PreferServerCipherSuites", "yes", false}, {"PreferServerCipherSuites", "no", true}, {"PreferServerCipherSuites", "(false)", true}, {"PreferServerCipherSuites", "!true", true}, {"PreferServerCipherSuites", "dyn()", true},
		{"CipherSuites", "[]uint16{(tls.TLS_RSA_WITH_RC4_128_SHA)}", true}, {"CipherSuites", "[]uint16{0: tls.TLS_RSA_WITH_RC4_128_SHA}", true},
		{"CipherSuites", "[]uint16{1: tls.TLS_AES_128_GCM_SHA256, 0: tls.TLS_RSA_WITH_RC4_128_SHA}", true}, {"CipherSuites", "[]uint16{0: tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256}", false},
		{"CipherSuites", "[]uint16{TLS_RSA_WITH_RC4_128_SHA}", true}, {"CipherSuites", "[]uint16{TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256}", false},
	}
	s := settings[verifsym.Choose("setting", len(settings))]
	lit := "{MinVersion: tls.VersionTLS13, " + s.field + ": " + s.value + "}"
	eq := "." + s.field + " = " + s.value
	type place struct {
		text  string
		judge bool
	}
	places := []place{
		{"use(tls.Config" + lit + ")", true}, {"use([]*tls.Config{" + lit + "})", true}, {"use(alias" + lit + ")", true},
		{"v" + eq, true}, {"p" + eq, true}, {"(*p)" + eq, true}, {"(v)" + eq, true}, {"s.conf" + eq, true}, {"s.ptr" + eq, true}, {"list[0]" + eq, true}, {"table[\"a\"]" + eq, true}, {"get()" + eq, true}, {"a" + eq, true},
		{"n, v." + s.field + " = 1, " + s.value, true}, {"p." + s.field + ", n = " + s.value + ", 1", true}, {"v.ServerName, p." + s.field + " = \"x\", " + s.value, true},
		{"own" + eq, false}, {"use(Config{" + s.field + ": " + s.value + "})", false},
	}
	pl := places[verifsym.Choose("place", len(places))]
	prog := "package main\n\nimport (\n\t\"crypto/tls\"\n\t. \"crypto/tls\"\n)\n\nvar _ = VersionTLS13\n\nconst yes, no = true, false\n\ntype alias = tls.Config\n\ntype holder struct {\n\tconf tls.Config\n\tptr  *tls.Config\n}\n\nfunc use(c any) {}\n\nfunc dyn() bool { return n > 1 }\n\nvar n int\n\nfunc get() *tls.Config { return nil }\n\n" +
		"func f(v tls.Config, p *tls.Config, s holder, list []tls.Config, table map[string]*tls.Config, a *alias) {\n\ttype Config struct {\n\t\tInsecureSkipVerify, PreferServerCipherSuites bool\n\t\tCipherSuites []uint16\n\t}\n\tvar own Config\n\t" + pl.text + "\n\tuse(v)\n\tuse(own)\n}\n"
	issues := vScan(vTLSAnalyzer(vProfiles[0]), verifsym.LoadProgram(prog, nil))
	bad := s.bad && pl.judge
	verifsym.Assert((len(issues) == 1) == bad, s.field+" "+s.value+" at "+pl.text)
	verifsym.Assert(vAt(issues, "33") == len(issues), "at the setting "+pl.text)
}
