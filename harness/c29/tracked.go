//verif:pkg verifh
//verif:prop C29
package verifh

import (
	"strings"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/verifsym"
)

// vSources are the calls whose result is dangerous to the sinks of a check. Some are harmless.
var vSources = []struct {
	rule, imp, call string
	results         int
	bad             bool
}{
	{"G109", "strconv", "strconv.Atoi(\"1\")", 2, true},
	{"G109", "strconv", "strconv.ParseInt(\"1\", 10, 32)", 2, false},
	{"G109", "strings", "strings.Count(\"1\", \"2\")", 1, false},
	{"G110", "compress/gzip", "gzip.NewReader(in)", 2, true},
	{"G110", "compress/zlib", "zlib.NewReader(in)", 2, true},
	{"G110", "compress/zlib", "zlib.NewReaderDict(in, nil)", 2, true},
	{"G110", "compress/bzip2", "bzip2.NewReader(in)", 1, true},
	{"G110", "compress/flate", "flate.NewReader(in)", 1, true},
	{"G110", "compress/flate", "flate.NewReaderDict(in, nil)", 1, true},
	{"G110", "compress/lzw", "lzw.NewReader(in, lzw.LSB, 8)", 1, true},
	{"G110", "archive/tar", "tar.NewReader(in)", 1, true},
	{"G110", "archive/zip", "(&zip.File{}).Open()", 2, true},
	{"G110", "archive/zip", "zf.Open()", 2, true},
	{"G110", "bufio", "bufio.NewReader(in)", 1, false},
	{"G110", "strings", "strings.NewReader(\"\")", 1, false},
	{"G110", "os", "os.Open(\"x\")", 2, false},
}

// vSinks use the variable VV.
var vSinks = map[string][]struct {
	text string
	bad  bool
}{
	"G109": {{"_ = int32(VV)", true}, {"_ = int16(VV)", true}, {"_ = int64(VV)", false}, {"_ = int(VV) + 1", false}, {"use(int32(VV))", true}, {"_ = int32(1) + int32(VV)", true}, {"_ = uint64(VV)", false}, {"use(VV)", false}},
	"G110": {{"io.Copy(out, VV)", true}, {"_, _ = io.CopyBuffer(out, VV, nil)", true}, {"_, _ = io.CopyN(out, VV, 1)", false}, {"_, _ = io.Copy(out, io.LimitReader(VV, 1))", false}, {"if _, err := io.Copy(out, VV); err != nil {\nreturn\n}", true}, {"_, _ = io.Copy(VV2, in)", false}, {"use(VV)", false}, {"_, _ = VV.Read(nil)", false}},
}

// vTracked is a program in which v gets the result of the source in the given way and the sink uses the variable use: v, or an unrelated one of the same type.
func vTracked(k, form, sink int, use string) (files []verifsym.Src, want int, ok bool) {
	s := vSources[k]
	sk := vSinks[s.rule][sink]
	text := strings.ReplaceAll(sk.text, "VV2", "out")
	text = strings.ReplaceAll(text, "VV", use)
	rest := ""
	if s.results == 2 {
		rest = ", _"
	}
	assign := ""
	switch form {
	case 0: // new variable
		assign = "vvv" + rest + " := " + s.call
	case 1: // variable declared before
		assign = "var vvv = typ()\nvvv" + rest + " = " + s.call
	case 2: // several values
		if s.results == 2 {
			return nil, 0, false
		}
		assign = "a, vvv := 1, " + s.call + "\nuse(a)"
	case 3:
		if s.results == 2 {
			return nil, 0, false
		}
		assign = "vvv, a := " + s.call + ", 1\nuse(a)"
	case 4: // variable of the package
		assign = "vvv" + rest + " = " + s.call
	case 5: // variable of the package, declared in another file
		assign = "vvv" + rest + " = " + s.call
	case 6: // declaration
		assign = "var vvv" + rest + " = " + s.call
	case 7: // condition
		assign = "if vvv" + rest + " := " + s.call + "; true {\nuse(vvv)"
		text += "\n}"
	}
	if sk.bad && s.bad && use == "vvv" {
		want = 1
	}
	pkgvar := ""
	inner := "www := typ()\n"
	typ := "io.ReadCloser"
	switch {
	case s.rule == "G109" && strings.Contains(s.call, "ParseInt"):
		typ = "int64"
	case s.rule == "G109":
		typ = "int"
	case strings.Contains(s.call, "gzip."):
		typ = "*gzip.Reader"
	case strings.Contains(s.call, "tar."):
		typ = "*tar.Reader"
	case strings.Contains(s.call, "bufio."):
		typ = "*bufio.Reader"
	case strings.Contains(s.call, "strings."):
		typ = "*strings.Reader"
	case strings.Contains(s.call, "os."):
		typ = "*os.File"
	case strings.Contains(s.call, "bzip2."):
		typ = "io.Reader"
	}
	if form == 4 {
		pkgvar = "var vvv, www T\n\n"
		inner = ""
	}
	other := "package main\n"
	if form == 5 {
		other += "\nvar vvv, www T\n"
		inner = ""
	}
	main := "package main\n\nimport (\n\t\"io\"\n\t\"" + s.imp + "\"\n)\n\ntype T = " + typ + "\n\nfunc typ() (r T) { return }\n\n" + pkgvar + "func use(...any) {}\n\nfunc f(in io.Reader, out io.Writer) {\n"
	if strings.HasPrefix(s.call, "zf.") {
		main += "zf := &zip.File{}\n"
	}
	main += inner + assign + "\n" + text + "\nuse(vvv, www, in, out)\n}\n"
	if form == 7 {
		main = strings.Replace(main, "use(vvv, www, in, out)", "use(www, in, out)", 1)
	}
	return []verifsym.Src{{Name: "a.go", Text: main}, {Name: "b.go", Text: other}}, want, true
}

// vVarName is an arbitrary name of a variable that means nothing else in the programs.
func vVarName(name string) string {
	s := verifsym.Str(name, 3, "a-z0-9_")
	verifsym.Assume(verifsym.And(s[0] >= 'v', !verifsym.StrEq(s, "var")))
	return s
}

// Verif_C29_tracked: a sink is reported exactly when its operand is a variable that was assigned the result of a source.
//
//verif:bounds 16 sources (4 of them harmless), 8 ways of assigning the result, 8 uses (some harmless) for each of the two checks, of that variable or of another one of the same type declared with it
//verif:quick 60s
func Verif_C29_tracked() {
	k := verifsym.Choose("source", len(vSources))
	form := verifsym.Choose("form", 8)
	sink := verifsym.Choose("sink", 8)
	use := []string{"vvv", "www"}[verifsym.Choose("variable", 2)]
	files, want, ok := vTracked(k, form, sink, use)
	verifsym.Assume(ok)
	v, w := vVarName("assigned"), vVarName("other")
	verifsym.Assume(!verifsym.StrEq(v, w))
	p := verifsym.LoadFiles("example.com/work", files, []verifsym.Hole{{Text: "vvv", Lit: v}, {Text: "www", Lit: w}})
	got := len(vScan(vAnalyzer(gosec.NewConfig(), vSources[k].rule), p))
	verifsym.Assert(got == want, "reported exactly when the variable has the result")
}
