//verif:pkg verifh
//verif:prop C16
package verifh

import (
	"encoding/xml"
	"strings"

	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/verifsym"
)

// vXMLText is the text as far as XML can represent it.
func vXMLText(s string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 && s[i] != '\t' && s[i] != '\n' && s[i] != '\r' {
			r += "\uFFFD"
		} else {
			r += s[i : i+1]
		}
	}
	return r
}

// vCase is what a test case of the report decodes to.
type vCase struct{ suite, name, text string }

// vCases decodes a JUnit report token by token.
func vCases(doc string) []vCase {
	var r []vCase
	var c vCase
	depth, in := 0, false
	d := xml.NewDecoder(strings.NewReader(doc))
	for {
		t, err := d.Token()
		if t == nil {
			verifsym.Assert(err != nil && err.Error() == "EOF", "well formed")
			break
		}
		switch t := t.(type) {
		case xml.StartElement:
			depth++
			switch t.Name.Local {
			case "testsuites":
				verifsym.Assert(depth == 1, "nesting")
			case "testsuite":
				verifsym.Assert(depth == 2, "nesting")
				c.suite = vAttr(t, "name")
			case "testcase":
				verifsym.Assert(depth == 3, "nesting")
				c.name = vAttr(t, "name")
			case "failure":
				verifsym.Assert(depth == 4, "nesting")
				in, c.text = true, ""
			default:
				verifsym.Assert(false, "no other elements")
			}
		case xml.EndElement:
			depth--
			if in {
				r = append(r, c)
			}
			in = false
		case xml.CharData:
			if in {
				c.text += string(t)
			}
		}
	}
	return r
}

// Verif_C16_text: the report is well formed and decodes back to the texts of the finding.
//
//verif:bounds one finding with any one of description, file, code, fix and weakness having one arbitrary byte (two in the thorough tier) of ASCII, control characters included, between two others
//verif:quick 60s
func Verif_C16_text() {
	i := vPlain(0)
	s := verifsym.Str("text", 1+verifsym.Tier(), "\x00-\x7f")
	switch verifsym.Choose("where", 4) {
	case 0:
		i.What = "a" + s + "b"
	case 1:
		i.File = "/src/a" + s + "b.go"
	case 2:
		i.Code = "10: a" + s + "b\n"
	default:
		i.Autofix = "a" + s + "b"
	}
	cs := vCases(vRendered("junit-xml", nil, vInfo([]*issue.Issue{i})))
	verifsym.Assert(len(cs) == 1, "one test case")
	verifsym.Assert(cs[0].suite == vXMLText(i.What), "description")
	verifsym.Assert(cs[0].name == vXMLText(i.File), "file")
	verifsym.Assert(strings.HasPrefix(cs[0].text, "Results:\n["+vXMLText(i.File)+":10] - "+vXMLText(i.What)+" (Confidence: "), "file and description in the text")
	verifsym.Assert(strings.HasSuffix(cs[0].text, ")\n> "+vXMLText(i.Code)+"\n Autofix: "+vXMLText(i.Autofix)), "code and fix in the text")
}

// Verif_C16_markup: markup in the texts is not taken for markup of the report.
//
//verif:bounds up to two findings with any of a list of XML fragments as description, file, code and fix
//verif:quick 60s
func Verif_C16_markup() {
	frags := []string{"</failure>", "<b>", "&lt;", "&", "]]>", "<![CDATA[", "<!--", "--><x/>", "<?a?>", "\"'", "a\r\nb", "\u00e9\u4e16\U0001F600", "&#0;", "\xff", "\ufffe"}
	var issues []*issue.Issue
	for k := 0; k < 2; k++ {
		i := vPlain(k)
		issues = append(issues, i)
	}
	f := frags[verifsym.Choose("fragment", len(frags))]
	i := issues[verifsym.Choose("finding", 2)]
	i.What, i.File, i.Code, i.Autofix = f+"w", f+"f", f+"c", f+"x"
	cs := vCases(vRendered("junit-xml", nil, vInfo(issues)))
	verifsym.Assert(len(cs) == 2, "two test cases")
	want := f
	if f == "\xff" || f == "\ufffe" {
		want = "\ufffd"
	}
	found := false
	for _, c := range cs {
		if c.suite == want+"w" {
			found = true
			verifsym.Assert(c.name == want+"f", "file")
			verifsym.Assert(strings.HasPrefix(c.text, "Results:\n["+want+"f:"+i.Line+"] - "+want+"w (Confidence: "), "file and description in the text")
			verifsym.Assert(strings.HasSuffix(c.text, ")\n> "+want+"c\n Autofix: "+want+"x"), "code and fix in the text")
		}
	}
	verifsym.Assert(found, "description")
}
