//verif:pkg verifh
//verif:prop C11
package verifh

import (
	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/verifsym"
)

// vSizeLit is an arbitrary key size in one of the integer notations of Go.
func vSizeLit() (string, int64, string) {
	switch verifsym.Choose("form", 6) {
	case 0:
		v := verifsym.Int("bits", 1, 1<<31-1)
		return vInt("", int64(v)).Lit, int64(v), "decimal"
	case 1:
		s := verifsym.Str("bits", 4, "0-9")
		return "0x" + s, vDigits(s, 16), "hexadecimal"
	case 2:
		s := verifsym.Str("bits", 5, "0-7")
		return "0" + s, vDigits(s, 8), "octal"
	case 3:
		s := verifsym.Str("bits", 5, "0-7")
		return "0o" + s, vDigits(s, 8), "octal 0o"
	case 4:
		s := verifsym.Str("bits", 12, "01")
		return "0b" + s, vDigits(s, 2), "binary"
	default:
		s := verifsym.Str("hi", 1, "1-9")
		r := verifsym.Str("lo", 3, "0-9")
		return s + "_" + r, vDigits(s+r, 10), "with underscore"
	}
}

// Verif_C11_size: RSA key generation is reported exactly below 2048 bits.
//
//verif:bounds every size up to 2^31-1 in decimal, sizes of 4 hex, 5 octal, 12 binary digits or n_nnn; plain, aliased (any name of 3 letters) and dot-less imports next to an import of another package of the same name; call as statement, in an assignment, nested in a call, in a package-level variable
//verif:quick 40s
func Verif_C11_size() {
	lit, bits, form := vSizeLit()
	alias, spec := "rsa", "\"crypto/rsa\""
	switch verifsym.Choose("import", 3) {
	case 1:
		alias, spec = "zzz", "zzz \"crypto/rsa\""
	case 2:
		alias, spec = "zzz", "rsa \"crypto/dsa\"\nimport zzz \"crypto/rsa\"\n\nvar _ = rsa.L1024N160"
	}
	call := alias + ".GenerateKey(rand.Reader, 711)"
	var body string
	where := verifsym.Choose("where", 4)
	switch where {
	case 0:
		body = "func f() {\n\t" + call + "\n}\n"
	case 1:
		body = "func f() {\n\tk, err := " + call + "\n\tprintln(k, err)\n}\n"
	case 2:
		body = "func g(k *" + alias + ".PrivateKey, err error) {}\n\nfunc f() {\n\tg(" + call + ")\n}\n"
	case 3:
		body = "var k, err = " + call + "\n"
	}
	p := verifsym.LoadProgram("package main\n\nimport \"crypto/rand\"\nimport "+spec+"\n\n"+body, []verifsym.Hole{{Text: "711", Lit: lit, Val: bits}})
	n := vCount(vScan(vAnalyzer(gosec.NewConfig(), "G403"), p), "G403")
	verifsym.Observe("reported", n)
	verifsym.Assert((n == 1) == (bits < 2048), "RSA key size "+form)
	verifsym.Assert(n <= 1, "reported once")
}

// Verif_C11_other: a call that is not key generation of crypto/rsa is never reported.
//
//verif:bounds a method, a local function and a function of another package named GenerateKey; every size
func Verif_C11_other() {
	bits := verifsym.Int("bits", 1, 1<<31-1)
	imports := ""
	var body string
	switch verifsym.Choose("what", 4) {
	case 0:
		body = "type r struct{}\n\nfunc (r) GenerateKey(a, n int) {}\n\nfunc f(rsa r) {\n\trsa.GenerateKey(0, 711)\n}\n"
	case 1:
		body = "func GenerateKey(a, n int) {}\n\nfunc f() {\n\tGenerateKey(0, 711)\n}\n"
	case 2:
		body = "var rsa struct{ GenerateKey func(a, n int) }\n\nfunc f() {\n\trsa.GenerateKey(0, 711)\n}\n"
	case 3:
		imports = "import \"crypto/rsa\"\nimport \"crypto/rand\"\n\n"
		body = "func f() {\n\trsa.GenerateMultiPrimeKey(rand.Reader, 3, 711)\n}\n"
	}
	p := verifsym.LoadProgram("package main\n\n"+imports+body, []verifsym.Hole{vInt("711", int64(bits))})
	n := vCount(vScan(vAnalyzer(gosec.NewConfig(), "G403"), p), "G403")
	verifsym.Assert(n == 0, "no report for other functions")
}
