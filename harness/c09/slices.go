//verif:pkg verifh
//verif:prop C09
package verifh

import (
	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/verifsym"
)

// Verif_C09_access: an access to a slice of constant length with constant bounds is reported exactly when it is out of range.
//
//verif:bounds ten program shapes (index, the three re-slicing forms, index of a re-slice, index of a whole-array slice, index in a called function, index guarded by a length equality, make with capacity, several accesses); every length, index and bound in 1..999
//verif:quick 60s
func Verif_C09_access() {
	shape := verifsym.Choose("shape", 11)
	n := verifsym.Int("n", 1, 999)
	i := verifsym.Int("i", 1, 999)
	l := verifsym.Int("l", 1, 999)
	h := verifsym.Int("h", 1, 999)
	pre := "\ts := make([]int, 711)\n"
	var body, extra, name string
	var out bool
	switch shape {
	case 0:
		name, body, out = "index", "\tprintln(s[722])\n", i >= n
	case 1:
		name, body, out = "slice to", "\tprintln(s[:744])\n", h > n
	case 2:
		name, body, out = "slice from", "\tprintln(s[733:])\n", l > n
	case 3:
		verifsym.Assume(l <= h)
		name, body, out = "slice from to", "\tprintln(s[733:744])\n", h > n
	case 4:
		verifsym.Assume(l < h)
		verifsym.Assume(h <= n)
		name, body, out = "index of re-slice", "\tt := s[733:744]\n\tprintln(t[722])\n", i >= h-l
	case 5:
		verifsym.Assume(l < n)
		name, body, out = "index of tail", "\tt := s[733:]\n\tprintln(t[722])\n", i >= n-l
	case 6:
		verifsym.Assume(h <= n)
		name, body, out = "index of head", "\tt := s[:744]\n\tprintln(t[722])\n", i >= h
	case 7:
		name, pre, body, out = "index of array slice", "\tvar a [711]int\n\ts := a[:]\n", "\tprintln(s[722])\n", i >= n
	case 8:
		name, body, out = "index in callee", "\tg(s)\n", i >= n
		extra = "func g(p []int) {\n\tprintln(p[722])\n}\n"
	case 9:
		verifsym.Assume(n <= h)
		name, pre, body, out = "index with capacity", "\ts := make([]int, 711, 744)\n", "\tprintln(s[722])\n", i >= n
	case 10:
		verifsym.Assume(h == n)
		name, body, out = "index under length equality", "\tif len(s) == 744 {\n\t\tprintln(s[722])\n\t}\n", i >= n
	}
	text := "package main\n\n" + extra + "\nfunc f() {\n" + pre + body + "}\n"
	p := verifsym.LoadProgram(text, []verifsym.Hole{vInt("711", int64(n)), vInt("722", int64(i)), vInt("733", int64(l)), vInt("744", int64(h))})
	c := vCount(vScan(vAnalyzer(gosec.NewConfig(), "G602"), p), "G602")
	verifsym.Observe("reported", c)
	verifsym.Assert(c <= 1, "reported at most once: "+name)
	verifsym.Assert(verifsym.Implies(out, c == 1), "out-of-range access is reported: "+name)
	verifsym.Assert(verifsym.Implies(!out, c == 0), "in-range access is silent: "+name)
}
