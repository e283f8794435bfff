//verif:pkg verifh
//verif:prop C08
package verifh

import (
	"strconv"
	"strings"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/verifsym"
)

var vOps = []string{"<", "<=", ">", ">=", "==", "!="}

// vHolds states "a op b" on values of a source type, without branching.
func vHolds(op string, a, b int64, unsigned bool) bool {
	lt := a < b
	if unsigned {
		lt = uint64(a) < uint64(b)
	}
	switch op {
	case "<":
		return lt
	case "<=":
		return verifsym.Or(lt, a == b)
	case ">":
		return verifsym.And(!lt, a != b)
	case ">=":
		return !lt
	case "==":
		return a == b
	}
	return a != b
}

func vUnsigned(t string) bool { return t[0] == 'u' }

// vFitsFrom states that the value x of type src fits dst.
func vFitsFrom(x int64, src, dst string) bool {
	lo, hi := vBounds(dst)
	if vUnsigned(src) {
		return uint64(x) <= hi
	}
	return verifsym.And(x >= lo, verifsym.Or(x < 0, uint64(x) <= hi))
}

func vIn(x int64, t string) bool {
	if t == "uint64" || t == "uint" {
		return true
	}
	lo, hi := vBounds(t)
	return verifsym.And(x >= lo, x <= int64(hi))
}

func vGuardProgram(src, dst, guard string) string {
	return "package main\n\nfunc sink(v " + dst + ") {}\n\nfunc f(x " + src + ") {\n" + guard + "}\n"
}

func vIsReported(prog string, holes ...verifsym.Hole) bool {
	p := verifsym.LoadProgram(prog, holes)
	n := vCount(vScan(vAnalyzer(gosec.NewConfig(), "G115"), p), "G115")
	verifsym.Observe("reported", n)
	return n > 0
}

var vSrcTypes = []string{"int", "int16", "uint32", "uint64"}
var vDstTypes = []string{"int8", "uint8", "int32", "uint32", "uint64", "int64"}

// vGuard is a comparison of x with a constant.
type vGuard struct {
	op   string
	flip bool
	neg  bool // the constant is negated
	text string
	c    int64
}

func (g vGuard) cond() string {
	t := g.text
	if g.neg {
		t = "-" + t
	}
	if g.flip {
		return t + " " + g.op + " x"
	}
	return "x " + g.op + " " + t
}

func (g vGuard) value() int64 {
	if g.neg {
		return -g.c
	}
	return g.c
}

func (g vGuard) holds(x int64, src string) bool {
	if g.flip {
		return vHolds(g.op, g.value(), x, vUnsigned(src))
	}
	return vHolds(g.op, x, g.value(), vUnsigned(src))
}

// vAnyUnfit states that some value of type src that satisfies reach does not fit dst (an end of one of the intervals that
// the constants cut out is such a value), or that no value at all reaches the conversion.
func vAnyUnfit(src, dst string, reach func(x int64) bool, gs ...vGuard) bool {
	lo, hi := vBounds(src)
	cand := []int64{lo, int64(hi)}
	for _, g := range gs {
		v := g.value()
		cand = append(cand, v-1, v, v+1)
	}
	r, any := false, false
	for _, w := range cand {
		in := verifsym.And(vIn(w, src), reach(w))
		any = verifsym.Or(any, in)
		r = verifsym.Or(r, verifsym.And(in, !vFitsFrom(w, src, dst)))
	}
	return verifsym.Or(r, !any)
}

func vMkGuard(name, text, src string) vGuard {
	g := vGuard{op: vOps[verifsym.Choose(name+".op", len(vOps))], text: text}
	g.c = verifsym.Int64(name)
	verifsym.Assume(g.c >= 0)
	if !vUnsigned(src) {
		g.neg = verifsym.Choose(name+".neg", 2) == 1
	}
	verifsym.Assume(vIn(g.value(), src))
	return g
}

func vJudge(src, dst, shape, body string, reach func(x int64) bool, exact bool, gs ...vGuard) {
	x := verifsym.Int64("x")
	verifsym.Assume(vIn(x, src))
	var holes []verifsym.Hole
	for _, g := range gs {
		holes = append(holes, vInt(g.text, g.c))
	}
	rep := vIsReported(vGuardProgram(src, dst, body), holes...)
	what := src + "->" + dst + " " + shape
	if !rep {
		verifsym.Assert(verifsym.Implies(reach(x), vFitsFrom(x, src, dst)), "missed "+what)
	} else if exact {
		verifsym.Assert(vAnyUnfit(src, dst, reach, gs...), "spurious "+what)
	}
}

// Verif_C08_single: one comparison of the converted variable with a constant guards the conversion.
//
//verif:bounds source types int, int16, uint32, uint64; targets int8, uint8, int32, uint32, uint64, int64; six operators; both operand orders; positive and negative constants; conversion in the true branch, in the false branch, after the join, or with the condition negated; every constant (below 2^63) and every run-time value
//verif:quick 60s
func Verif_C08_single() {
	src := vSrcTypes[verifsym.Choose("src", len(vSrcTypes))]
	dst := vDstTypes[verifsym.Choose("dst", len(vDstTypes))]
	where := verifsym.Choose("where", 4)
	g := vMkGuard("c", "117", src)
	g.flip = verifsym.Choose("flip", 2) == 1
	conv := "\tsink(" + dst + "(x))\n"
	var body string
	var reach func(x int64) bool
	exact := true
	switch where {
	case 0:
		body = "\tif " + g.cond() + " {\n" + conv + "\t}\n"
		reach = func(x int64) bool { return g.holds(x, src) }
		exact = g.op != "!="
	case 1:
		body = "\tif " + g.cond() + " {\n\t\treturn\n\t}\n" + conv
		reach = func(x int64) bool { return !g.holds(x, src) }
		exact = g.op != "=="
	case 2:
		body = "\tif " + g.cond() + " {\n\t\tprintln(1)\n\t}\n" + conv
		reach = func(x int64) bool { return true }
	case 3:
		body = "\tif !(" + g.cond() + ") {\n" + conv + "\t}\n"
		reach = func(x int64) bool { return !g.holds(x, src) }
		exact = g.op != "=="
	}
	vJudge(src, dst, "where="+strconv.Itoa(where)+" "+g.cond(), body, reach, exact, g)
}

var vPairs = [][2]string{{"int64", "int8"}, {"int", "uint32"}, {"uint64", "int64"}, {"int16", "uint8"}, {"uint32", "int32"}, {"int64", "uint64"}}

// Verif_C08_double: two comparisons guard the conversion.
//
//verif:bounds conversions int64->int8, int->uint32, uint64->int64, int16->uint8 (thorough: also uint32->int32, int64->uint64); two comparisons with any operators and constants, joined by && or || or nested or in sequence, with the conversion in the true branch, the false branch or after both; every constant (below 2^63) and every run-time value
//verif:quick 90s
func Verif_C08_double() {
	n := 4
	if verifsym.Tier() == 1 {
		n = len(vPairs)
	}
	pr := vPairs[verifsym.Choose("types", n)]
	src, dst := pr[0], pr[1]
	g := vMkGuard("c", "117", src)
	h := vMkGuard("d", "119", src)
	if verifsym.Tier() == 1 {
		h.flip = verifsym.Choose("flip", 2) == 1
	}
	conv := "\tsink(" + dst + "(x))\n"
	exit := " {\n\t\treturn\n\t}\n"
	var body string
	var reach func(x int64) bool
	exact := g.op != "!=" && h.op != "!="
	exactNot := g.op != "==" && h.op != "=="
	shape := verifsym.Choose("shape", 6)
	switch shape {
	case 0:
		body = "\tif " + g.cond() + " && " + h.cond() + " {\n" + conv + "\t}\n"
		reach = func(x int64) bool { return verifsym.And(g.holds(x, src), h.holds(x, src)) }
	case 1:
		body = "\tif " + g.cond() + " || " + h.cond() + exit + conv
		reach = func(x int64) bool { return verifsym.And(!g.holds(x, src), !h.holds(x, src)) }
		exact = exactNot
	case 2:
		body = "\tif " + g.cond() + exit + "\tif " + h.cond() + exit + conv
		reach = func(x int64) bool { return verifsym.And(!g.holds(x, src), !h.holds(x, src)) }
		exact = exactNot
	case 3:
		body = "\tif " + g.cond() + " {\n\tif " + h.cond() + " {\n" + conv + "\t}\n\t}\n"
		reach = func(x int64) bool { return verifsym.And(g.holds(x, src), h.holds(x, src)) }
	case 4:
		body = "\tif " + g.cond() + " || " + h.cond() + " {\n" + conv + "\t}\n"
		reach = func(x int64) bool { return verifsym.Or(g.holds(x, src), h.holds(x, src)) }
		exact = g.op == "==" && h.op == "=="
	case 5:
		body = "\tif " + g.cond() + " && " + h.cond() + exit + conv
		reach = func(x int64) bool { return !verifsym.And(g.holds(x, src), h.holds(x, src)) }
		exact = false
	}
	vJudge(src, dst, "shape="+strconv.Itoa(shape)+" "+g.cond()+" ; "+h.cond(), body, reach, exact, g, h)
}

// Verif_C08_parsed: the converted value was parsed from a string with a constant bit size.
//
//verif:bounds ParseInt and ParseUint, every bit size 0..64, every integer target type; the value used directly or chosen between two parsed values; strconv imported under any name, or functions and methods with the same names
//verif:quick 30s
func Verif_C08_parsed() {
	signed := verifsym.Choose("signed", 2) == 1
	dst := vIntTypes[verifsym.Choose("dst", len(vIntTypes))]
	n := verifsym.Int("bits", 0, 64)
	m := n
	fn := "ParseUint"
	if signed {
		fn = "ParseInt"
	}
	two := verifsym.Choose("two", 2) == 1
	own, decl, call := false, "import \"strconv\"", "strconv."+fn+"(s, 10, "
	if !two {
		typ := strings.ToLower(fn[5:]) + "64"
		switch verifsym.Choose("callee", 5) {
		case 1:
			decl, call = "import other \"strconv\"", "other."+fn+"(s, 10, "
		case 2:
			decl, call = "import . \"strconv\"", fn+"(s, 10, "
		case 3:
			own, decl, call = true, "func "+fn+"(s string, base, bits int) ("+typ+", error) { return 0, nil }", fn+"(s, 10, "
		case 4:
			own, decl, call = true, "type parser int\n\nfunc (parser) "+fn+"(base, bits int) ("+typ+", error) { return 0, nil }", "parser(1)."+fn+"(10, "
		}
	}
	body := "\tx, err := " + call + "117)\n\tif err != nil {\n\t\treturn\n\t}\n"
	holes := []verifsym.Hole{vInt("117", int64(n))}
	if two {
		m = verifsym.Int("bits2", 0, 64)
		body += "\tif len(s) > 2 {\n\t\tx, err = strconv." + fn + "(s, 10, 119)\n\t}\n"
		holes = append(holes, vInt("119", int64(m)))
	}
	prog := "package main\n\n" + decl + "\n\nfunc sink(v " + dst + ") {}\n\nfunc f(s string) {\n" + body + "\tsink(" + dst + "(x))\n}\n"
	rep := vIsReported(prog, holes...)
	unfit := false
	for _, k := range []int{n, m} {
		k = verifsym.Ite(verifsym.Or(k == 0, own), 64, k)
		// the range of a k-bit number fits when the type has at least as many bits, or one more where the sign is added
		lo, hi := vBounds(dst)
		size := 0
		for b := hi; b > 0; b >>= 1 {
			size++
		}
		if signed {
			unfit = verifsym.Or(unfit, lo == 0, k-1 > size)
		} else {
			unfit = verifsym.Or(unfit, k > size)
		}
	}
	verifsym.Assert(rep == unfit, "parsed "+fn+"->"+dst)
}

// vShape is a function in which SRC is the source type, DST the target and COND a comparison of the value name with a constant;
// guard says what it tells about the converted value: it holds there (1), it does not (2), or nothing (0). If exact is set, the
// conversion must not be reported when it is safe.
type vShape struct {
	decl, params, name, body string
	guard                    int
	exact                    bool
}

var vShapes = []vShape{
	{"", "x SRC", "x", "println(COND)\nsink(DST(x))", 0, true},
	{"", "x, y SRC", "y", "if COND {\nsink(DST(x))\n}", 0, true},
	{"", "x, y SRC", "y", "if COND {\ny = x\nsink(DST(y))\n}", 0, true},
	{"", "x SRC", "x", "for ; COND; x++ {\nsink(DST(x))\n}", 1, true},
	{"", "x SRC", "x", "for {\nif COND {\nbreak\n}\nsink(DST(x))\nx++\n}", 2, true},
	{"", "x SRC", "x", "switch {\ncase COND:\nsink(DST(x))\n}", 1, true},
	{"", "x SRC", "x", "switch {\ncase COND:\ndefault:\nsink(DST(x))\n}", 2, true},
	{"", "x SRC, b bool", "x", "switch {\ncase b:\ncase COND:\nsink(DST(x))\n}", 1, true},
	{"", "x SRC, b bool", "x", "switch {\ncase b, COND:\nsink(DST(x))\n}", 0, true},
	{"", "x SRC, b bool", "x", "switch {\ncase COND:\nfallthrough\ncase b:\nsink(DST(x))\n}", 0, true},
	{"", "x SRC, b bool", "x", "if COND && b {\nsink(DST(x))\n}", 1, true},
	{"", "x SRC, b bool", "x", "if b && COND {\nsink(DST(x))\n}", 1, true},
	{"", "x SRC, b bool", "x", "if b || COND {\nsink(DST(x))\n}", 0, true},
	{"", "x SRC, b bool", "x", "if COND || b {\nsink(DST(x))\n}", 0, true},
	{"", "x SRC, b bool", "x", "if COND || b {\nreturn\n}\nsink(DST(x))", 2, true},
	{"", "x SRC, b bool", "x", "if COND && b {\nreturn\n}\nsink(DST(x))", 0, true},
	{"", "x SRC, b bool", "x", "if COND {\nif b {\nprintln(b)\n}\nfor b {\n}\nsink(DST(x))\n}", 1, true},
	{"", "x SRC, b bool", "x", "if COND {\nprintln(b)\n} else if b {\nreturn\n}\nsink(DST(x))", 0, true},
	{"", "x SRC", "x", "ok := COND\nif ok {\nsink(DST(x))\n}", 1, true},
	{"", "x SRC", "x", "if COND {\ngoto end\n}\nsink(DST(x))\nend:\nprintln()", 2, true},
	{"", "x SRC", "x", "if COND {\npanic(x)\n}\nsink(DST(x))", 2, true},
	{"", "x SRC", "x", "if COND {\nfunc() { sink(DST(x)) }()\n}", 1, false},
	{"", "x SRC", "x", "defer func() { sink(DST(x)) }()\nif COND {\nreturn\n}\nx = 0", 0, false},
	{"", "x, y SRC", "x", "z := y\nif COND {\nz = x\n}\nsink(DST(z))", 0, false},
	{"", "x, y SRC", "x", "z := x\nif y != 0 {\nz = y\n}\nif COND {\nsink(DST(z))\n}", 0, false},
	{"", "x SRC", "(x + 1)", "if COND {\nsink(DST(x))\n}", 0, false},
	{"type rec struct{ a, b SRC }", "p *rec", "p.a", "if COND {\nsink(DST(p.a))\n}", 1, true},
	{"type rec struct{ a, b SRC }", "p *rec", "p.b", "if COND {\nsink(DST(p.a))\n}", 0, true},
	{"type rec struct{ a, b SRC }", "p, q *rec", "q.a", "if COND {\nsink(DST(p.a))\n}", 0, true},
	{"type rec struct{ a, b SRC }", "p, q rec", "q.a", "if COND {\nsink(DST(p.a))\n}", 0, true},
	{"type rec struct{ a, b SRC }", "p rec", "p.b", "if COND {\nsink(DST(p.a))\n}", 0, true},
	{"type in struct{ a, b SRC }\ntype rec struct{ l, r in }", "p *rec", "p.r.a", "if COND {\nsink(DST(p.l.a))\n}", 0, true},
	{"", "p [2]SRC", "p[1]", "if COND {\nsink(DST(p[0]))\n}", 0, true},
	{"", "p []SRC", "p[1]", "if COND {\nsink(DST(p[0]))\n}", 0, true},
	{"", "p *SRC", "*p", "if COND {\nsink(DST(*p))\n}", 1, true},
	{"", "p, q *SRC", "*q", "if COND {\nsink(DST(*p))\n}", 0, true},
	{"var glo, bal SRC", "", "bal", "if COND {\nsink(DST(glo))\n}", 0, true},
	{"", "m map[string]SRC", `m["b"]`, "if COND {\nsink(DST(m[\"a\"]))\n}", 0, true},
	{"type num SRC", "x num", "x", "if COND {\nsink(DST(x))\n}", 1, false},
	{"func g() SRC { return 0 }", "", "g()", "if COND {\nsink(DST(g()))\n}", 0, true},
}

// Verif_C08_shapes: the comparison counts exactly when it is made on the converted value and on every way to the conversion.
//
//verif:bounds forty forms of functions with one comparison of the converted or another value, in branches, loops, switches, closures, on fields, elements, pointers and globals; conversions int64->int8, int->uint16, uint64->int32 (thorough: also int32->uint64); every operator and constant (below 2^63) and every run-time value
//verif:quick 100s
func Verif_C08_shapes() {
	pr := [][2]string{{"int64", "int8"}, {"int", "uint16"}, {"uint64", "int32"}, {"int32", "uint64"}}[verifsym.Choose("types", 3+verifsym.Tier())]
	src, dst := pr[0], pr[1]
	s := vShapes[verifsym.Choose("shape", len(vShapes))]
	g := vMkGuard("c", "117", src)
	x := verifsym.Int64("x")
	verifsym.Assume(vIn(x, src))
	cond := strings.ReplaceAll(g.cond(), "x ", s.name+" ")
	text := func(t string) string {
		return strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(t, "COND", cond), "SRC", src), "DST", dst)
	}
	prog := "package main\n\n" + text(s.decl) + "\n\nfunc sink(v " + dst + ") {}\n\nfunc f(" + text(s.params) + ") {\n" + text(s.body) + "\n}\n"
	rep := vIsReported(prog, vInt(g.text, g.c))
	reach := func(v int64) bool {
		switch s.guard {
		case 1:
			return g.holds(v, src)
		case 2:
			return !g.holds(v, src)
		}
		return true
	}
	exact := s.exact && !(s.guard == 1 && g.op == "!=") && !(s.guard == 2 && g.op == "==")
	if !rep {
		verifsym.Assert(verifsym.Implies(reach(x), vFitsFrom(x, src, dst)), "missed: "+s.params+": "+s.name+": "+s.body)
	} else if exact {
		verifsym.Assert(vAnyUnfit(src, dst, reach, g), "spurious: "+s.params+": "+s.name+": "+s.body)
	}
}
