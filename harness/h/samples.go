//verif:helper verifh
package verifh

// vSample is a program with exactly one construct that the rule reports; Line and Col say where, relative to its first line.
type vSample struct {
	Rule    string
	Imports string
	Body    string
}

// vSamples has a program for every check; each is reported once by its own rule.
var vSamples = []vSample{
	{"G101", "", "var password = \"f62e5bcda4fae4f82370da0c6f20697b8f8447ef\"\n"},
	{"G102", "\"net\"", "func f() {\n\tl, err := net.Listen(\"tcp\", \"0.0.0.0:80\")\n\t_, _ = l, err\n}\n"},
	{"G103", "\"unsafe\"", "func f(x *int) unsafe.Pointer {\n\treturn unsafe.Pointer(x)\n}\n"},
	{"G104", "", "func f() {\n\tg()\n}\n\nfunc g() error { return nil }\n"},
	{"G106", "\"golang.org/x/crypto/ssh\"", "var _ = ssh.InsecureIgnoreHostKey()\n"},
	{"G107", "\"net/http\"", "func f(u string) {\n\tr, err := http.Get(v)\n\t_, _ = r, err\n}\n\nvar v = \"x\"\n"},
	{"G108", "_ \"net/http/pprof\"", ""},
	{"G109", "\"strconv\"", "func f() int32 {\n\tv, _ := strconv.Atoi(\"1\")\n\treturn int32(v)\n}\n"},
	{"G110", "\"compress/zlib\"\n\t\"io\"", "func f(b io.Reader, w io.Writer) {\n\tr, _ := zlib.NewReader(b)\n\t_, _ = io.Copy(w, r)\n}\n"},
	{"G111", "\"net/http\"", "var _ = http.Dir(\"/\")\n"},
	{"G112", "\"net/http\"", "var _ = &http.Server{Addr: \"x\"}\n"},
	{"G114", "\"net/http\"", "func f() {\n\t_ = http.ListenAndServe(\"x\", nil)\n}\n"},
	{"G115", "", "func f(x uint32) int32 {\n\treturn int32(x)\n}\n"},
	{"G201", "\"database/sql\"\n\t\"fmt\"", "func f(db *sql.DB, s string) {\n\tq := fmt.Sprintf(\"SELECT * FROM x WHERE y = '%s'\", s)\n\tr, err := db.Query(q)\n\t_, _ = r, err\n}\n"},
	{"G202", "\"database/sql\"", "func f(db *sql.DB, s string) {\n\tr, err := db.Query(\"SELECT * FROM x WHERE y = \" + s)\n\t_, _ = r, err\n}\n"},
	{"G203", "\"html/template\"", "func f(s string) template.HTML {\n\treturn template.HTML(s)\n}\n"},
	{"G204", "\"os/exec\"", "func f(s string) *exec.Cmd {\n\treturn exec.Command(g())\n}\n\nfunc g() string\n"},
	{"G301", "\"os\"", "func f(s string) {\n\t_ = os.Mkdir(s, 0777)\n}\n"},
	{"G302", "\"os\"", "func f(s string) {\n\t_ = os.Chmod(s, 0777)\n}\n"},
	{"G303", "\"os\"", "func f() {\n\t_ = os.WriteFile(\"/tmp/x\", nil, 0600)\n}\n"},
	{"G304", "\"os\"", "func f(s string) {\n\t_, _ = os.Open(s)\n}\n"},
	{"G305", "\"archive/zip\"\n\t\"path/filepath\"", "func f(z *zip.File) string {\n\treturn filepath.Join(\"d\", z.Name)\n}\n"},
	{"G306", "\"os\"", "func f(s string) {\n\t_ = os.WriteFile(s, nil, 0777)\n}\n"},
	{"G401", "\"crypto/md5\"", "var _ = md5.New()\n"},
	{"G402", "\"crypto/tls\"", "var _ = &tls.Config{MinVersion: tls.VersionTLS13, InsecureSkipVerify: true}\n"},
	{"G403", "\"crypto/rsa\"", "var _, _ = rsa.GenerateKey(nil, 1024)\n"},
	{"G404", "\"math/rand\"", "var _ = rand.Int()\n"},
	{"G405", "\"crypto/rc4\"", "var _, _ = rc4.NewCipher(nil)\n"},
	{"G406", "\"golang.org/x/crypto/md4\"", "var _ = md4.New()\n"},
	{"G407", "\"crypto/cipher\"", "func f(b cipher.Block) cipher.Stream {\n\treturn cipher.NewCTR(b, []byte(\"0123456789abcdef\"))\n}\n"},
	{"G501", "_ \"crypto/md5\"", ""},
	{"G502", "_ \"crypto/des\"", ""},
	{"G503", "_ \"crypto/rc4\"", ""},
	{"G504", "_ \"net/http/cgi\"", ""},
	{"G505", "_ \"crypto/sha1\"", ""},
	{"G506", "_ \"golang.org/x/crypto/md4\"", ""},
	{"G507", "_ \"golang.org/x/crypto/ripemd160\"", ""},
	{"G602", "", "func f() int {\n\ts := make([]int, 2)\n\treturn s[3]\n}\n"},
}

func (s vSample) source() string {
	imp := ""
	if s.Imports != "" {
		imp = "import (\n\t" + s.Imports + "\n)\n\n"
	}
	return "package main\n\n" + imp + s.Body
}
