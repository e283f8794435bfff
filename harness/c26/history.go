//verif:pkg verifh
//verif:prop C26
package verifh

import (
	"strconv"
	"strings"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/verifsym"
	"golang.org/x/tools/go/packages"
)

// vStateful has programs with the constructs for which some check remembers what it has seen; 7711 and 7722 are arbitrary numbers.
var vStateful = []vSample{
	{"", "\"os\"\n\t\"path/filepath\"", "func f(s string) {\n\ts = filepath.Clean(s)\n\t_, _ = os.Open(s)\n}\n"},
	{"", "\"os\"\n\t\"path/filepath\"", "func f(s string) {\n\t_ = filepath.Clean(s)\n\t_, _ = os.Open(s)\n}\n"},
	{"", "\"os\"", "func f(s string) {\n\t_, _ = os.Open(s)\n}\n"},
	{"", "\"crypto/tls\"", "var c = &tls.Config{MinVersion: 7711, MaxVersion: 7722}\n"},
	{"", "\"crypto/tls\"", "var c = &tls.Config{MinVersion: 7711}\n"},
	{"", "\"crypto/tls\"", "var c = &tls.Config{MaxVersion: 7722}\n"},
	{"", "\"crypto/tls\"", "func f(c *tls.Config) {\n\tc.MinVersion = 7711\n}\n"},
	{"", "\"crypto/tls\"", "func f(c *tls.Config) {\n\tc.MaxVersion = 7722\n}\n"},
	{"", "\"crypto/tls\"", "var c = &tls.Config{}\n"},
	{"", "\"compress/flate\"\n\t\"io\"", "func f(b io.Reader, w io.Writer) {\n\tr := flate.NewReader(b)\n\t_, _ = io.Copy(w, r)\n}\n"},
	{"", "\"io\"", "func f(r io.Reader, w io.Writer) {\n\t_, _ = io.Copy(w, r)\n}\n"},
	{"", "\"strconv\"", "func f(s string) int32 {\n\tv, _ := strconv.Atoi(s)\n\treturn int32(v)\n}\n"},
	{"", "", "func f(v int8) int32 {\n\treturn int32(v)\n}\n"},
	{"", "", "func f(s []int) (p []*int) {\n\tk, v := 0, 0\n\tfor k, v = range s {\n\t}\n\t_ = k\n\treturn append(p, &v)\n}\n"},
	{"", "", "func f(s []int) (p []*int) {\n\tfor _, v := range s {\n\t\tp = append(p, &v)\n\t}\n\treturn p\n}\n"},
	{"", "", "// Some text moves the loop to a later position than the others have.\n// Some text moves the loop to a later position than the others have.\n// Some text moves the loop to a later position than the others have.\nfunc f(s []int) (p []*int) {\n\tfor _, v := range s {\n\t\tp = append(p, &v)\n\t}\n\treturn p\n}\n"},
	{"", "", "func f(s []int) *int {\n\tfor _, v := range s {\n\t\treturn &v\n\t}\n\treturn nil\n}\n"},
	{"", "\"math/rand\"", "// #nosec\nvar _ = rand.Int()\n"},
	{"", "\"math/rand\"", "var _ = rand.Int()\n\nvar _ = rand.Int() // #nosec G401\n"},
	{"", "rand \"crypto/rand\"", "var _, _ = rand.Read(nil)\n"},
	{"", "", "var key = \"\"\n"},
	{"", "\"crypto/cipher\"", "var n = []byte(\"0123456789abcdef\")\n\nfunc f(b cipher.Block) cipher.Stream {\n\treturn cipher.NewCTR(b, n)\n}\n"},
	{"", "\"net/http\"\n\t_ \"net/http/pprof\"", "func f() {\n\t_ = http.ListenAndServe(\"x\", nil)\n}\n"},
}

// vHoled is the package of a program under a name of its own, with its arbitrary numbers.
func vHoled(k int, s vSample, holes []verifsym.Hole) *packages.Package {
	return verifsym.LoadFiles("example.com/p"+strconv.Itoa(k), []verifsym.Src{{Name: "p" + strconv.Itoa(k) + ".go", Text: s.source()}}, holes)
}

func vNumbers(i int) []verifsym.Hole {
	n := strconv.Itoa(i)
	return []verifsym.Hole{vInt("7711", int64(verifsym.Int("min"+n, 0, 0x305))), vInt("7722", int64(verifsym.Int("max"+n, 0, 0x305)))}
}

// vEvery is a scanner with all checks.
func vEvery() *gosec.Analyzer {
	a := gosec.NewAnalyzer(gosec.NewConfig(), false, false, false, 1, vLogger())
	vLoad(a)
	return a
}

// vSame asserts that two lists have the same findings in the same order.
func vSame(got, want []*issue.Issue, label string) {
	verifsym.Assert(len(got) == len(want), label+": as many findings")
	for i := range got {
		g, w := got[i], want[i]
		verifsym.Assert(g.RuleID == w.RuleID && g.File == w.File && g.Line == w.Line && g.Col == w.Col && g.Severity == w.Severity && g.Confidence == w.Confidence && g.What == w.What && g.Code == w.Code && g.NoSec == w.NoSec && len(g.Suppressions) == len(w.Suppressions), label+": the same findings")
	}
}

// Verif_C26_pairs: the findings of a package are the same whatever package was scanned before it.
//
//verif:bounds all ordered pairs of 23 programs with every construct for which a check remembers something (thorough: all ordered triples of the kind "x, y, x"), TLS versions arbitrary, all checks, loop variables shared by the iterations (Go 1.21) or not
//verif:quick 100s
func Verif_C26_pairs() {
	if verifsym.Bool("old") {
		verifsym.Setenv("GOSECGOVERSION", "go1.21")
	} else {
		verifsym.Setenv("GOSECGOVERSION", "go1.22")
	}
	i := verifsym.Choose("first", len(vStateful))
	j := verifsym.Choose("second", len(vStateful))
	p := vHoled(1, vStateful[i], vNumbers(1))
	q := vHoled(2, vStateful[j], vNumbers(2))
	a := vEvery()
	n := len(vScan(a, p))
	_, stats, _ := a.Report()
	before := *stats
	both := vScan(a, q)
	fresh := vEvery()
	alone := vScan(fresh, q)
	_, own, _ := fresh.Report()
	vSame(both[n:], alone, "after another package")
	verifsym.Assert(*stats == gosec.Metrics{NumFiles: before.NumFiles + own.NumFiles, NumLines: before.NumLines + own.NumLines, NumNosec: before.NumNosec + own.NumNosec, NumFound: before.NumFound + own.NumFound}, "statistics add up")
	if verifsym.Tier() > 0 {
		all := vScan(a, p)
		vSame(all[len(both):], both[:n], "scanned again")
	}
}

// Verif_C26_all: the findings of a package are the same after many others.
//
//verif:bounds the programs of all checks and the 23 with remembered constructs, scanned in both orders by one scanner with all checks, so that each one follows every other
//verif:quick 100s
func Verif_C26_all() {
	if verifsym.Bool("old") {
		verifsym.Setenv("GOSECGOVERSION", "go1.21")
	} else {
		verifsym.Setenv("GOSECGOVERSION", "go1.22")
	}
	progs := append(append([]vSample{}, vSamples...), vStateful...)
	backwards := verifsym.Bool("backwards")
	holes := []verifsym.Hole{vInt("7711", 0x303), vInt("7722", 0x303)}
	a := vEvery()
	n := 0
	for k := range progs {
		if backwards {
			k = len(progs) - 1 - k
		}
		p := vHoled(k, progs[k], holes)
		all := vScan(a, p)
		vSame(all[n:], vScan(vEvery(), p), "after others: "+strconv.Itoa(k))
		n = len(all)
	}
}

// Verif_C26_reset: after a reset the scanner is as good as new.
//
//verif:bounds as Verif_C26_pairs; between the two packages the scanner is reset and gets its checks again; the first one has errors
//verif:quick 60s
func Verif_C26_reset() {
	verifsym.Setenv("GOSECGOVERSION", "go1.21")
	i := verifsym.Choose("first", len(vStateful))
	j := (i + verifsym.Choose("second", 2+verifsym.Tier()*(len(vStateful)-2))) % len(vStateful)
	p := vHoled(1, vStateful[i], vNumbers(1))
	p.Errors = []packages.Error{{Pos: "/x.go:1:2", Msg: "one"}}
	q := vHoled(2, vStateful[j], vNumbers(2))
	q.Errors = []packages.Error{{Pos: "/y.go:1:2", Msg: "two"}}
	a := vEvery()
	verifsym.Assert(a.ParseErrors(p) == nil, "error recorded")
	vScan(a, p)
	a.Reset()
	issues, stats, errs := a.Report()
	verifsym.Assert(len(issues) == 0 && *stats == gosec.Metrics{}, "nothing found after a reset")
	verifsym.Assert(len(errs) == 0, "no errors after a reset")
	vLoad(a)
	verifsym.Assert(a.ParseErrors(q) == nil, "error recorded")
	again := vScan(a, q)
	_, stats, errs = a.Report()
	fresh := vEvery()
	verifsym.Assert(fresh.ParseErrors(q) == nil, "error recorded")
	alone := vScan(fresh, q)
	_, stats2, errs2 := fresh.Report()
	vSame(again, alone, "after a reset")
	verifsym.Assert(*stats == *stats2, "statistics after a reset")
	verifsym.Assert(len(errs) == len(errs2) && len(errs["/y.go"]) == 1, "errors after a reset")
}

// Verif_C26_files: the order of the files of a package does not matter.
//
//verif:bounds two of the 23 programs, with their functions renamed, as the two files of a package in both orders (quick: a program and one of the next three; thorough: all pairs); TLS versions arbitrary
//verif:quick 100s
func Verif_C26_files() {
	verifsym.Setenv("GOSECGOVERSION", "go1.21")
	i := verifsym.Choose("one", len(vStateful))
	d := 1 + verifsym.Choose("other", 3+verifsym.Tier()*(len(vStateful)-4))
	j := (i + d) % len(vStateful)
	one := vStateful[i].source()
	other := vStateful[j].source()
	for _, n := range []string{"f", "c", "n", "key"} {
		other = strings.ReplaceAll(other, "func "+n+"(", "func "+n+"2(")
		other = strings.ReplaceAll(other, "var "+n+" ", "var "+n+"2 ")
	}
	other = strings.ReplaceAll(other, "(b, n)", "(b, n2)")
	holes := vNumbers(1)
	p := verifsym.LoadFiles("example.com/p", []verifsym.Src{{Name: "a.go", Text: one}, {Name: "b.go", Text: other}}, holes)
	q := verifsym.LoadFiles("example.com/p", []verifsym.Src{{Name: "a.go", Text: other}, {Name: "b.go", Text: one}}, holes)
	x := vScan(vEvery(), p)
	y := vScan(vEvery(), q)
	verifsym.Assert(len(x) == len(y), "as many findings")
	used := make([]bool, len(y))
	for _, s := range x {
		found := false
		for k, t := range y {
			if !used[k] && s.RuleID == t.RuleID && s.Line == t.Line && s.Col == t.Col && s.What == t.What && s.Code == t.Code && s.Severity == t.Severity &&
				strings.HasSuffix(s.File, "/a.go") == strings.HasSuffix(t.File, "/b.go") {
				used[k], found = true, true
				break
			}
		}
		verifsym.Assert(found, "the same findings")
	}
}

// vShared are declarations, and two parts of a program that use what is declared in files of their own.
var vShared = []struct{ decl, declImports, one, oneImports, two, twoImports string }{
	{"var v int\n", "", "func f(s string) {\n\tv, _ = strconv.Atoi(s)\n}\n", "\"strconv\"", "func g() int32 {\n\treturn int32(v)\n}\n", ""},
	{"var r io.Reader\n", "\"io\"", "func f(b io.Reader) {\n\tr = flate.NewReader(b)\n}\n", "\"io\"\n\t\"compress/flate\"", "func g(w io.Writer) {\n\t_, _ = io.Copy(w, r)\n}\n", "\"io\""},
	{"var s string\n", "", "func f() {\n\t_ = filepath.Clean(s)\n}\n", "\"path/filepath\"", "func g() {\n\t_, _ = os.Open(s)\n}\n", "\"os\""},
	{"var c tls.Config\n", "\"crypto/tls\"", "func f() {\n\tc.MinVersion = 7711\n}\n", "", "func g() {\n\tc.MaxVersion = 7722\n}\n", ""},
	{"var v int\n", "", "func f(s []int) {\n\tfor _, v = range s {\n\t}\n}\n", "", "func g() *int {\n\tp := &v\n\treturn p\n}\n", ""},
	{"var q = \"select * from x where y = \" + z\n\nvar z string\n", "", "func f(s string) {\n\tz = s\n}\n", "", "func g(db *sql.DB) {\n\t_, _ = db.Query(q)\n\t_, _ = db.Query(\"select * from \" + z)\n}\n", "\"database/sql\""},
	{"var u = \"http://localhost\"\n", "", "func f(s string) {\n\tu = s\n}\n", "", "func g() {\n\t_, _ = http.Get(u)\n\t_ = exec.Command(u)\n}\n", "\"net/http\"\n\t\"os/exec\""},
	{"var n = []byte(\"0123456789abcdef\")\n", "", "func f() {\n\t_, _ = rand.Read(n)\n}\n", "\"crypto/rand\"", "func g(b cipher.Block) cipher.Stream {\n\treturn cipher.NewCTR(b, n)\n}\n", "\"crypto/cipher\""},
	{"type T struct{ password string }\n\nvar password string\n", "", "func f() {\n\tpassword = \"hunter2 hunter2\"\n}\n", "", "func g() T {\n\treturn T{password: password}\n}\n", ""},
	{"func h() error { return nil }\n", "", "func f() {\n\th()\n}\n", "", "func g() {\n\t_ = h()\n}\n", ""},
	{"var s = make([]int, 3)\n", "", "func f() {\n\ts = make([]int, 2)\n}\n", "", "func g() int {\n\treturn s[5]\n}\n", ""},
	{"const mode = 0o777\n\nvar perm os.FileMode = mode\n", "\"os\"", "func f() {\n\t_ = os.Chmod(\"x\", mode)\n}\n", "\"os\"", "func g() {\n\t_ = os.Chmod(\"x\", perm)\n\t_ = os.Chmod(\"x\", 0o777)\n}\n", "\"os\""},
}

// Verif_C26_shared: nor does it matter when the files use the same variables and functions.
//
//verif:bounds 12 programs of which one file sets or uses what the other one uses as well, which either of them or a third one declares; the files in every order; all checks, TLS versions arbitrary, loop variables shared
//verif:quick 60s
func Verif_C26_shared() {
	verifsym.Setenv("GOSECGOVERSION", "go1.21")
	s := vShared[verifsym.Choose("program", len(vShared))]
	imports := func(a, b string) string {
		for _, l := range strings.Split(b, "\n\t") {
			if !strings.Contains(a, l) {
				a += "\n\t" + l
			}
		}
		return a
	}
	one, two := s.oneImports, s.twoImports
	oneText, twoText := s.one, s.two
	decl := verifsym.Choose("declaration", 3)
	switch decl {
	case 0:
		one, oneText = imports(one, s.declImports), s.decl+"\n"+oneText
	case 1:
		two, twoText = imports(two, s.declImports), s.decl+"\n"+twoText
	}
	texts := []string{vSample{"", one, oneText}.source(), vSample{"", two, twoText}.source()}
	orders := [][]int{{0, 1}, {1, 0}}
	if decl == 2 {
		texts = append(texts, vSample{"", s.declImports, s.decl}.source())
		orders = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	}
	holes := vNumbers(1)
	scan := func(order []int) []*issue.Issue {
		var files []verifsym.Src
		for k, i := range order {
			files = append(files, verifsym.Src{Name: string(rune('a'+k)) + ".go", Text: texts[i]})
		}
		return vScan(vEvery(), verifsym.LoadFiles("example.com/p", files, holes))
	}
	other := orders[1+verifsym.Choose("order", len(orders)-1)]
	x, y := scan(orders[0]), scan(other)
	verifsym.Assert(len(x) == len(y), "as many findings")
	index := func(order []int, i *issue.Issue) int { return order[i.File[len(i.File)-4]-'a'] }
	used := make([]bool, len(y))
	for _, s := range x {
		found := false
		for k, t := range y {
			if !used[k] && s.RuleID == t.RuleID && s.Line == t.Line && s.Col == t.Col && s.What == t.What && s.Code == t.Code && s.Severity == t.Severity && index(orders[0], s) == index(other, t) {
				used[k], found = true, true
				break
			}
		}
		verifsym.Assert(found, "the same findings")
	}
}
