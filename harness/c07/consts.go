//verif:pkg verifh
//verif:prop C07
package verifh

import (
	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/verifsym"
)

// Verif_C07_constant: converting a variable that holds a constant is reported exactly when the constant does not fit.
//
//verif:bounds all 100 ordered pairs of the ten integer types; every constant value of the source type up to 2^63-1
//verif:assume constants of uint/uint64 at or above 2^63 are outside the claim
//verif:quick 60s
func Verif_C07_constant() {
	src := vIntTypes[verifsym.Choose("src", len(vIntTypes))]
	dst := vIntTypes[verifsym.Choose("dst", len(vIntTypes))]
	v := verifsym.Int64("v")
	verifsym.Assume(vFits(v, src))
	text := "package main\n\nfunc sink(v " + dst + ") {}\n\nfunc f() {\n\tx := " + src + "(117)\n\tsink(" + dst + "(x))\n}\n"
	p := verifsym.LoadProgram(text, []verifsym.Hole{vInt("117", v)})
	n := vCount(vScan(vAnalyzer(gosec.NewConfig(), "G115"), p), "G115")
	verifsym.Observe("reported", n)
	verifsym.Assert(n <= 1, "reported at most once")
	verifsym.Assert(verifsym.Implies(vFits(v, dst), n == 0), "silent when the value fits: "+src+" to "+dst)
	verifsym.Assert(verifsym.Implies(!vFits(v, dst), n == 1), "reported when the value does not fit: "+src+" to "+dst)
}
