//verif:pkg verifh
//verif:prop C35
package verifh

import (
	"errors"
	"go/build"
	"strconv"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/verifsym"
	"golang.org/x/tools/go/packages"
)

// vNumber is an arbitrary number of n digits.
func vNumber(name string, n int) string {
	s := verifsym.Str(name, n, "0-9")
	verifsym.Assume(s[0] != '0')
	return s
}

// Verif_C35_positions: every error of a package is kept with the file, the line and the column that it is at.
//
//verif:bounds one to three errors at positions with a line and a column, a line only, a path only or none; paths of up to four (thorough: five) arbitrary characters (letters, colons, blanks, dots, slashes) and a suffix, or with a colon and a digit at the end; messages of several lines and with colons; lines of one to three digits, columns of one or two; all in one file or the last one in another
//verif:quick 60s
func Verif_C35_positions() {
	n := verifsym.Choose("errors", 3) + 1
	length := verifsym.Choose("length", 6+verifsym.Tier())
	paths := []string{"/x:7", "/other/y.go"}
	if length > 0 {
		paths[0] = "/" + verifsym.Str("path", length-1, "ab: ./") + "/x.go"
	}
	var all []packages.Error
	type at struct {
		file         string
		line, column int
		msg          string
	}
	var want []at
	for k := 0; k < n; k++ {
		w := at{file: paths[0], msg: "message " + strconv.Itoa(k) + []string{"", "\n\thave (int)\n\twant ()", ": x.go:1:2: text"}[k]}
		if k == 2 && verifsym.Bool("another file") {
			w.file = paths[1]
		}
		pos := w.file
		form := 0
		if k == 0 && length > 0 {
			form = verifsym.Choose("form", 4)
		}
		digits := 2 + k%2
		if k == 0 {
			digits = 1 + verifsym.Choose("digits", 3)
		}
		line, column := vNumber("line", digits), vNumber("column", 1+k%2)
		switch form {
		case 0:
			pos += ":" + line + ":" + column
			w.line, w.column = int(vDigits(line, 10)), int(vDigits(column, 10))
		case 1:
			pos += ":" + line
			w.line = int(vDigits(line, 10))
		case 2:
			w.file, pos = "", ""
		case 3:
			w.file, pos = "-", "-"
		}
		all = append(all, packages.Error{Pos: pos, Msg: w.msg, Kind: packages.TypeError})
		want = append(want, w)
	}
	a := vAnalyzer(gosec.NewConfig(), "G101")
	verifsym.Assert(a.ParseErrors(&packages.Package{Errors: all}) == nil, "positions are understood")
	_, _, errs := a.Report()
	total := 0
	for _, e := range errs {
		total += len(e)
	}
	verifsym.Assert(total == n, "every error once")
	next := map[string]int{}
	for _, w := range want {
		e := errs[w.file]
		k := next[w.file]
		next[w.file]++
		verifsym.Assert(k < len(e), "in its file")
		verifsym.Assert(verifsym.And(e[k].Line == w.line, e[k].Column == w.column), "at its line and column")
		verifsym.Assert(e[k].Err == w.msg, "with its message")
	}
}

// Verif_C35_order: the errors of a file, however many and whenever they are found, are all reported, in the order of their lines and columns.
//
//verif:bounds up to three errors of the code at arbitrary lines and columns of one or two digits, and up to two errors of loading the same path, some of them about a directory without files, which is none
//verif:quick 30s
func Verif_C35_order() {
	a := vAnalyzer(gosec.NewConfig(), "G101")
	n := verifsym.Choose("errors", 4)
	var pos []int
	for k := 0; k < n; k++ {
		w := 1 + verifsym.Choose("digits", 2)
		line, column := vNumber("line", w), vNumber("column", 1+k%2)
		pos = append(pos, int(vDigits(line, 10))*100+int(vDigits(column, 10)))
		verifsym.Assert(a.ParseErrors(&packages.Package{Errors: []packages.Error{{Pos: "/src:" + line + ":" + column, Msg: "message " + strconv.Itoa(k)}}}) == nil, "positions are understood")
	}
	loading := verifsym.Choose("loading", 3)
	for k := 0; k < loading; k++ {
		a.AppendError("/src", errors.New("loading "+strconv.Itoa(k)))
		if verifsym.Bool("empty") {
			a.AppendError("/src", &build.NoGoError{Dir: "/src"})
		}
	}
	verifsym.Assert(a.Process(nil) == nil, "nothing more to do")
	_, _, errs := a.Report()
	list := errs["/src"]
	verifsym.Assert(len(list) == n+loading, "every error")
	found, loaded := make([]bool, n), make([]bool, loading)
	for k, e := range list {
		if k > 0 {
			p := list[k-1]
			verifsym.Assert(verifsym.Or(p.Line < e.Line, verifsym.And(p.Line == e.Line, p.Column <= e.Column)), "in their order")
		}
		i := int(e.Err[len(e.Err)-1] - '0')
		if e.Err[0] == 'l' {
			loaded[i] = true
			verifsym.Assert(e.Line == 0 && e.Column == 0, "an error without a position")
		} else {
			found[i] = true
			verifsym.Assert(e.Line*100+e.Column == pos[i], "at its line and column")
		}
	}
	for _, ok := range append(found, loaded...) {
		verifsym.Assert(ok, "each of them")
	}
}
