//verif:pkg verifh
//verif:prop C36
package verifh

import (
	"bytes"
	"errors"

	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/report"
	"github.com/securego/gosec/v2/verifsym"
)

// vRoom is a writer which fails once room bytes are written; again is true if it takes what comes after that, part if it takes what there is room for before.
type vRoom struct {
	buf    bytes.Buffer
	room   int
	again  bool
	part   bool
	failed bool
}

func (w *vRoom) Write(p []byte) (int, error) {
	if w.buf.Len()+len(p) > w.room && !(w.failed && w.again) {
		n := 0
		if w.part && !w.failed {
			n = w.room - w.buf.Len()
			w.buf.Write(p[:n])
		}
		w.failed = true
		return n, errors.New("no room")
	}
	return w.buf.Write(p)
}

// Verif_C36_writer: a report that its writer did not take is an error, and only then.
//
//verif:bounds every format and an unknown one, text with colours as well; up to three findings, one with an arbitrary text of two bytes (thorough: three), one error, arbitrary statistics; a writer that fails at the first byte, at any of fifteen places in the report, at its last byte or never, once or for good, with or without a part of what it is given written
//verif:quick 100s
func Verif_C36_writer() {
	formats := []string{"json", "yaml", "csv", "junit-xml", "html", "text", "sonarqube", "golint", "sarif", "other", "text"}
	f := verifsym.Choose("format", len(formats))
	n := verifsym.Choose("findings", 4)
	var issues []*issue.Issue
	for k := 0; k < n; k++ {
		issues = append(issues, vPlain(k))
	}
	if n > 0 {
		issues[n-1].What = verifsym.Str("what", 2+verifsym.Tier(), "a-z,<&")
	}
	data := vInfo(issues)
	roots := []string{"/src"}
	var whole bytes.Buffer
	verifsym.Assert(report.CreateReport(&whole, formats[f], f == 10, roots, data) == nil, "the report is written where there is room")
	size := whole.Len()
	w := &vRoom{}
	switch verifsym.Choose("failure", 3) {
	case 1:
		w.again = true
	case 2:
		w.part = true
	}
	switch k := verifsym.Choose("room", 18); k {
	case 17:
		w.room = size
	case 16:
		w.room = size - 1
	default:
		w.room = size * k / 16
	}
	err := report.CreateReport(w, formats[f], f == 10, roots, data)
	verifsym.Assert((err != nil) == w.failed, "an error exactly when the writer failed")
	if !w.failed {
		verifsym.Assert(w.buf.Len() == size && bytes.Equal(w.buf.Bytes(), whole.Bytes()), "the whole report")
	}
}
