//verif:pkg verifh
//verif:prop C10
package verifh

import (
	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/verifsym"
)

type vPermCall struct{ rule, pkg, imp, call string }

var vPermCalls = []vPermCall{
	{"G301", "os", "os", "os.Mkdir(p, 711)"},
	{"G301", "os", "os", "os.MkdirAll(p, 711)"},
	{"G302", "os", "os", "os.OpenFile(p, 1, 711)"},
	{"G302", "os", "os", "os.Chmod(p, 711)"},
	{"G306", "os", "os", "os.WriteFile(p, nil, 711)"},
	{"G306", "ioutil", "io/ioutil", "ioutil.WriteFile(p, nil, 711)"},
}

// vModeLit is an arbitrary permission literal in one of the integer notations of Go.
func vModeLit(name string) (string, int64, string) {
	switch f := verifsym.Choose(name+".form", 6); f {
	case 0:
		s := verifsym.Str(name, 3, "0-7")
		return "0" + s, vDigits(s, 8), "0nnn"
	case 1:
		s := verifsym.Str(name, 3, "0-7")
		return "0o" + s, vDigits(s, 8), "0onnn"
	case 2:
		v := verifsym.Int(name, 1, 4095)
		h := vInt("", int64(v))
		return h.Lit, int64(v), "decimal"
	case 3:
		s := verifsym.Str(name, 9, "01")
		return "0b" + s, vDigits(s, 2), "binary"
	case 4:
		s := verifsym.Str(name, 3, "0-7")
		return "0_" + s, vDigits(s, 8), "0_nnn"
	default:
		s := verifsym.Str(name, 2, "0-9")
		return "0x" + s, vDigits(s, 16), "hexadecimal"
	}
}

// vLimit configures a rule with an arbitrary limit, or leaves it at its default.
func vLimit(conf gosec.Config, rule string, def int64) (int64, string) {
	switch verifsym.Choose("limit.form", 5) {
	case 0:
		return def, "default limit"
	case 1:
		v := int64(verifsym.Int("limit", 0, 4095))
		conf.Set(rule, v)
		return v, "numeric limit"
	case 2:
		s := verifsym.Str("limit", 3, "0-7")
		conf.Set(rule, "0"+s)
		return vDigits(s, 8), "text limit"
	case 4:
		v := verifsym.Choose("limit.json", 4)
		conf.Set(rule, []float64{0, 384, 420, 511}[v])
		return []int64{0, 384, 420, 511}[v], "numeric limit of a configuration document"
	default:
		s := verifsym.Str("limit", 3, "0-7")
		conf.Set(rule, "0o"+s)
		return vDigits(s, 8), "text limit 0o"
	}
}

func vPermProgram(c vPermCall, alias, tail string) string {
	pkg := c.pkg
	spec := "\"" + c.imp + "\""
	call := c.call
	if alias != "" {
		spec = alias + " " + spec
		call = alias + call[len(pkg):]
	}
	return "package main\n\nimport " + spec + "\n\nfunc f(p string) {\n\t" + call + "\n}\n" + tail
}

// Verif_C10_literal: a literal mode is reported exactly when it grants a bit that the limit does not grant.
//
//verif:bounds the six permission-taking calls; modes in six integer notations (3 octal digits, 9 binary digits, 2 hex digits without letters, decimal up to 4095); default limit, every numeric limit up to 4095, every 3-digit octal limit text; plain and aliased imports
//verif:quick 60s
func Verif_C10_literal() {
	c := vPermCalls[verifsym.Choose("call", len(vPermCalls))]
	conf := gosec.NewConfig()
	def := int64(0o600)
	if c.rule == "G301" {
		def = 0o750
	}
	limit, lname := vLimit(conf, c.rule, def)
	lit, mode, form := vModeLit("mode")
	alias := ""
	if verifsym.Choose("alias", 2) == 1 {
		alias = "zz"
	}
	p := verifsym.LoadProgram(vPermProgram(c, alias, ""), []verifsym.Hole{{Text: "711", Lit: lit, Val: mode}})
	n := vCount(vScan(vAnalyzer(conf, c.rule), p), c.rule)
	verifsym.Observe("reported", n)
	exceeds := mode&^limit != 0
	verifsym.Assert((n == 1) == exceeds, c.call+" "+form+", "+lname)
	verifsym.Assert(n <= 1, "at most one report")
}

// Verif_C10_modeperm: os.ModePerm stands for 0777.
//
//verif:bounds the six permission-taking calls, plain and aliased imports, every limit
func Verif_C10_modeperm() {
	c := vPermCalls[verifsym.Choose("call", len(vPermCalls)-1)]
	conf := gosec.NewConfig()
	def := int64(0o600)
	if c.rule == "G301" {
		def = 0o750
	}
	limit, lname := vLimit(conf, c.rule, def)
	alias, perm := "", "os.ModePerm"
	if verifsym.Choose("alias", 2) == 1 {
		alias, perm = "zz", "zz.ModePerm"
	}
	c.call = c.call[:len(c.call)-4] + perm + ")"
	p := verifsym.LoadProgram(vPermProgram(c, alias, ""), nil)
	n := vCount(vScan(vAnalyzer(conf, c.rule), p), c.rule)
	verifsym.Observe("reported", n)
	verifsym.Assert((n == 1) == (0o777&^limit != 0), c.call+", "+lname)
}

// Verif_C10_create: os.Create is reported exactly when the limit does not grant 0666.
//
//verif:bounds every limit, plain and aliased imports
func Verif_C10_create() {
	conf := gosec.NewConfig()
	limit, lname := vLimit(conf, "G307", 0o666)
	alias := ""
	if verifsym.Choose("alias", 2) == 1 {
		alias = "zz"
	}
	p := verifsym.LoadProgram(vPermProgram(vPermCall{"G307", "os", "os", "os.Create(p)"}, alias, ""), nil)
	n := vCount(vScan(vAnalyzer(conf, "G307"), p), "G307")
	verifsym.Observe("reported", n)
	verifsym.Assert((n == 1) == (0o666&^limit != 0), "os.Create, "+lname)
}
