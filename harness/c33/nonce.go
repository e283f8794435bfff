//verif:pkg verifh
//verif:prop C33
package verifh

import (
	"strconv"
	"strings"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/verifsym"
)

const vNonceHead = `package main

import (
	"crypto/cipher"
	"crypto/rand"
	"io"
)

type enc struct{ aead cipher.AEAD }

func (enc) Seal(a, b, c, d []byte) []byte          { return a }
func (enc) NewCTR(b cipher.Block, iv []byte) bool  { return true }
func (e enc) with(b cipher.Block, iv []byte) any   { return cipher.NewCTR(b, iv) }

func NewCTR(b cipher.Block, iv []byte) any { return iv }
func use(...any) []byte                   { return nil }

var global = []byte("text00")

var _, _ = rand.Read, io.ReadFull

func fixed() []byte { return []byte("text00") }

func random() []byte {
	b := make([]byte, 12)
	_, _ = rand.Read(b)
	return b
}

func random2() []byte {
	var b [12]byte
	_, _ = io.ReadFull(rand.Reader, b[:])
	return b[:]
}

func pseudo(r io.Reader) []byte {
	b := make([]byte, 12)
	_, _ = io.ReadFull(r, b)
	return b
}

func vvv(b cipher.Block, iv []byte) any { return cipher.NewCTR(b, iv) }

func outer(iv, text []byte, b cipher.Block) any { return vvv(b, iv) }

func sealed(iv, text []byte, a cipher.AEAD) []byte { return a.Seal(nil, iv, text, nil) }

func www(b cipher.Block, iv []byte) any { return use(b, iv) }

`

const vNonceMain = "var other cipher.Block\n\nfunc main_(block cipher.Block, aead cipher.AEAD, data []byte, r io.Reader) any {\n"

// vNonces are nonces; fixed ones are the same in every run.
var vNonces = []struct {
	stmt, expr string
	fixed      bool
	confidence issue.Score
}{
	{"", "[]byte(\"text00\")", true, issue.High},
	{"", "[]byte{1, 213, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}", true, issue.High},
	{"nonce := []byte(\"text00\")", "nonce", true, issue.High},
	{"var nonce = []byte{213}", "nonce", true, issue.High},
	{"nonce := [12]byte{213}", "nonce[:]", true, issue.High},
	{"nonce := make([]byte, 12)", "nonce", true, issue.High},
	{"nonce := make([]byte, 24)", "nonce[4:16]", true, issue.High},
	{"nonce := make([]byte, 12)\nuse(rand.Read(make([]byte, 12)))", "nonce", true, issue.High},
	{"other := make([]byte, 12)\nnonce := make([]byte, 12)\nuse(rand.Read(other))", "nonce", true, issue.High},
	{"nonce := make([]byte, 12)\nuse(io.ReadFull(r, nonce))", "nonce", true, issue.High},
	{"nonce := make([]byte, 12)\nuse(rand.Read(nonce))", "nonce", false, 0},
	{"nonce := make([]byte, 12)\nif _, err := io.ReadFull(rand.Reader, nonce); err != nil {\nreturn nil\n}", "nonce", false, 0},
	{"nonce := make([]byte, 12)\nuse(io.ReadAtLeast(rand.Reader, nonce, 12))", "nonce", false, 0},
	{"nonce := make([]byte, 12)\nuse(rand.Reader.Read(nonce))", "nonce", false, 0},
	{"nonce := make([]byte, 24)\nuse(rand.Read(nonce))", "nonce[:12]", false, 0},
	{"nonce := make([]byte, 24)\nuse(rand.Read(nonce[:12]))", "nonce[:12]", false, 0},
	{"var nonce [12]byte\nuse(rand.Read(nonce[:]))", "nonce[:]", false, 0},
	{"", "fixed()", true, issue.Medium},
	{"", "pseudo(r)", true, issue.Medium},
	{"nonce := fixed()", "nonce", true, issue.Medium},
	{"", "random()", false, 0},
	{"nonce := random()", "nonce", false, 0},
	{"", "random2()", false, 0},
	{"", "global", true, issue.Low},
	{"", "data", false, 0},
	{"", "data[:12]", false, 0},
	{"nonce := data[:12]", "nonce[2:4]", false, 0},
	{"", "append([]byte(nil), data...)", false, 0},
}

// vEncrypts use the nonce N; listed ones encrypt with it.
var vEncrypts = []struct {
	text   string
	listed bool
}{
	{"cipher.NewCTR(block, N)", true},
	{"cipher.NewOFB(block, N)", true},
	{"cipher.NewCBCEncrypter(block, N)", true},
	{"cipher.NewCFBEncrypter(block, N)", true},
	{"aead.Seal(nil, N, data, nil)", true},
	{"enc{aead}.aead.Seal(data, N, data, data)", true},
	{"vvv(block, N)", true},
	{"outer(N, data, block)", true},
	{"sealed(N, data, aead)", true},
	{"enc{}.with(block, N)", true},
	{"func(iv []byte) any { return cipher.NewCTR(other, iv) }(N)", true},
	{"cipher.NewCBCDecrypter(block, N)", false},
	{"cipher.NewCFBDecrypter(block, N)", false},
	{"aead.Seal(N, data, data, nil)", false},
	{"aead.Seal(nil, data, N, nil)", false},
	{"aead.Seal(nil, data, data, N)", false},
	{"enc{}.Seal(nil, N, data, nil)", false},
	{"enc{}.NewCTR(block, N)", false},
	{"NewCTR(block, N)", false},
	{"www(block, N)", false},
	{"outer(data, N, block)", false},
	{"sealed(data, N, aead)", false},
	{"use(N)", false},
	{"append(N, 1)", false},
}

func vNonceFindings(body string) []*issue.Issue {
	text, b := verifsym.Str("text", 12, "a-z0-9"), verifsym.Int("byte", 0, 255)
	wrapper, decoy := verifsym.Str("wrapper", 3, "g-l"), verifsym.Str("decoy", 3, "p-u")
	src := vNonceHead + vNonceMain + body + "\nreturn nil\n}\n"
	var holes []verifsym.Hole
	for _, h := range []verifsym.Hole{
		{Text: "\"text00\"", Lit: "\"" + text + "\"", Str: text, IsStr: true},
		{Text: "213", Lit: strconv.Itoa(b), Val: int64(b)},
		{Text: "vvv", Lit: wrapper, Str: wrapper, IsStr: true},
		{Text: "www", Lit: decoy, Str: decoy, IsStr: true},
	} {
		if strings.Contains(src, h.Text) {
			holes = append(holes, h)
		}
	}
	return vScan(vAnalyzer(gosec.NewConfig(), "G407"), verifsym.LoadProgram(src, holes))
}

func vLines(s string) int { return strings.Count(s, "\n") }

// Verif_C33_nonce: encrypting is reported exactly when the nonce is fixed, at the call which passes it on.
//
//verif:bounds 28 kinds of nonces, with arbitrary text and bytes, passed to 24 calls, listed ones and others, directly, through wrappers with arbitrary names or only near to them
//verif:quick 100s
func Verif_C33_nonce() {
	i, k := 0, 0
	if verifsym.Bool("calls") {
		k = verifsym.Choose("call", len(vEncrypts))
		i = []int{2, 5, 10, 17, 24}[verifsym.Choose("nonce", 5)]
	} else {
		i = verifsym.Choose("nonce", len(vNonces))
		k = []int{0, 4, 6, 14}[verifsym.Choose("call", 4)]
	}
	n, c := vNonces[i], vEncrypts[k]
	stmt := n.stmt
	if stmt != "" {
		stmt += "\n"
	}
	issues := vNonceFindings(stmt + "use(" + strings.ReplaceAll(strings.ReplaceAll(c.text, "N)", n.expr+")"), "N,", n.expr+",") + ")")
	where := c.text + " with " + n.stmt + " " + n.expr
	if !c.listed || !n.fixed {
		verifsym.Assert(len(issues) == 0, "no finding: "+where)
		return
	}
	verifsym.Assert(len(issues) == 1, "one finding: "+where)
	for _, is := range issues {
		verifsym.Assert(is.Line == strconv.Itoa(vLines(vNonceHead+vNonceMain+stmt)+1), "at the call: "+where)
		verifsym.Assert(is.RuleID == "G407" && is.Severity == issue.High && is.Confidence == n.confidence, "confidence: "+where)
	}
}

// Verif_C33_several: every call with a fixed nonce is reported once, whatever else happens to the nonce.
//
//verif:bounds one fixed nonce, passed to two or three of nine calls
//verif:quick 60s
func Verif_C33_several() {
	nonce := []string{"[]byte(\"text00\")", "[]byte{1, 213}", "fixed()"}[verifsym.Choose("nonce", 3)]
	pick := []int{0, 4, 6, 7, 8, 11, 14, 19, 22}
	body := "nonce := " + nonce
	want := 0
	m := 2 + verifsym.Choose("number", 1+verifsym.Tier())
	for j := 0; j < m; j++ {
		c := vEncrypts[pick[verifsym.Choose("call"+strconv.Itoa(j), len(pick))]]
		text := strings.ReplaceAll(strings.ReplaceAll(c.text, "N)", "nonce)"), "N,", "nonce,")
		body += "\nuse(" + text + ")"
		if c.listed {
			want++
		}
	}
	issues := vNonceFindings(body)
	verifsym.Assert(len(issues) == want, "one finding for each call")
	for a := range issues {
		for b := a + 1; b < len(issues); b++ {
			verifsym.Assert(issues[a].Line != issues[b].Line, "at different calls")
		}
	}
}
