//verif:pkg verifh
//verif:prop C19
package verifh

import (
	"bytes"
	"strconv"
	"strings"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/verifsym"
)

var vOptions = []gosec.GlobalOption{gosec.Nosec, gosec.ShowIgnored, gosec.Audit, gosec.NoSecAlternative, gosec.ExcludeRules, gosec.IncludeRules, gosec.SSA, "other"}

// vIsOn is the documented meaning of an option's text.
func vIsOn(s string) bool {
	return verifsym.Or(verifsym.StrEq(s, "true"), verifsym.StrEq(s, "enabled"))
}

// vRead reads a configuration document.
func vRead(doc string) gosec.Config {
	c := gosec.NewConfig()
	_, err := c.ReadFrom(strings.NewReader(doc))
	verifsym.Assert(err == nil, "the document is read")
	return c
}

// Verif_C19_text: an option given as text in a document is enabled exactly for the documented words.
//
//verif:bounds every option; every printable text of up to eight bytes that needs no escape in JSON
//verif:quick 60s
func Verif_C19_text() {
	o := vOptions[verifsym.Choose("option", len(vOptions))]
	s := verifsym.Str("value", verifsym.Choose("size", 9), " !#-[]-~")
	c := vRead(`{"global":{"` + string(o) + `":"` + s + `"}}`)
	on, err := c.IsGlobalEnabled(o)
	verifsym.Assert(err == nil, "the option is set")
	verifsym.Assert(on == vIsOn(s), "enabled exactly for the documented words")
	v, err := c.GetGlobal(o)
	verifsym.Assert(err == nil && v == s, "the value is the one of the document")
	for _, p := range vOptions {
		if p != o {
			on, err := c.IsGlobalEnabled(p)
			verifsym.Assert(!on && err != nil, "other options are not set")
		}
	}
}

// Verif_C19_values: an option given as another value is enabled exactly when it is true.
//
//verif:bounds every option; the JSON values true, false, null, any integer of up to three digits, texts of the words in other spellings, lists and objects of these
//verif:quick 60s
func Verif_C19_values() {
	o := vOptions[verifsym.Choose("option", len(vOptions))]
	vals := []string{"true", "false", "null", "1", "0", strconv.Itoa(verifsym.Int("number", 100, 999)), `"True"`, `"TRUE"`, `"Enabled"`, `"enable"`, `"disabled"`, `"yes"`, `" true"`, `"true\n"`, `["true"]`, `[true]`, `{"true":true}`, `"\u0074rue"`}
	k := verifsym.Choose("value", len(vals))
	c := vRead(`{"G101":{"pattern":"x"},"global":{"` + string(o) + `":` + vals[k] + `}}`)
	on, err := c.IsGlobalEnabled(o)
	verifsym.Assert(err == nil, "the option is set")
	verifsym.Assert(on == (k == 0 || k == len(vals)-1), "enabled exactly when true")
}

// Verif_C19_set: setting an option changes this one only, and an option that was never set is reported as not set.
//
//verif:bounds two options set one after the other to any texts of up to three letters, to true or enabled, by call or by document
//verif:quick 60s
func Verif_C19_set() {
	words := []string{"true", "enabled", "false", verifsym.Str("text", verifsym.Choose("size", 4), "a-z")}
	o := vOptions[verifsym.Choose("option", len(vOptions))]
	p := vOptions[verifsym.Choose("other", len(vOptions))]
	v, w := words[verifsym.Choose("value", len(words))], words[verifsym.Choose("other value", len(words))]
	var c gosec.Config
	if verifsym.Bool("document") {
		c = vRead(`{"global":{"` + string(o) + `":"` + v + `"}}`)
	} else {
		c = gosec.NewConfig()
		c.SetGlobal(o, v)
	}
	c.SetGlobal(p, w)
	for _, q := range vOptions {
		got, err := c.GetGlobal(q)
		on, err2 := c.IsGlobalEnabled(q)
		switch q {
		case p:
			verifsym.Assert(err == nil && got == w && err2 == nil && on == vIsOn(w), "an option set last")
		case o:
			verifsym.Assert(err == nil && got == v && err2 == nil && on == vIsOn(v), "an option set before")
		default:
			verifsym.Assert(err != nil && got == "" && err2 != nil && !on, "an option never set")
		}
	}
}

// Verif_C19_lost: switches set after a document without an object of globals was read are kept.
//
//verif:bounds documents without globals, with globals of any other JSON type, and an empty one
//verif:quick 30s
func Verif_C19_lost() {
	docs := []string{`{}`, `{"global":null}`, `{"global":"nosec"}`, `{"global":[]}`, `{"global":true}`, `{"global":{}}`, `null`}
	c := vRead(docs[verifsym.Choose("document", len(docs))])
	o := vOptions[verifsym.Choose("option", len(vOptions))]
	on, err := c.IsGlobalEnabled(o)
	verifsym.Assert(!on && err != nil, "an option never set")
	c.SetGlobal(o, "true")
	on, err = c.IsGlobalEnabled(o)
	verifsym.Assert(on && err == nil, "an option set after reading")
}

// Verif_C19_sections: the sections of a document are the ones the checks are given.
//
//verif:bounds two sections of any of three shapes with any text of up to three bytes or any of four integers, with or without globals, read directly or written out and read again
//verif:quick 60s
func Verif_C19_sections() {
	s := verifsym.Str("text", verifsym.Choose("size", 4), " !#-[]-~")
	n := []int{0, 7, 80, 65536}[verifsym.Choose("number", 4)]
	doc := `{"G101":{"pattern":"` + s + `","truncate":` + strconv.Itoa(n) + `},"G306":"` + s + `","G201":["` + s + `",true]`
	globals := verifsym.Bool("globals")
	if globals {
		doc += `,"global":{"audit":true}`
	}
	c := vRead(doc + "}")
	if verifsym.Bool("written") {
		var b bytes.Buffer
		_, err := c.WriteTo(&b)
		verifsym.Assert(err == nil, "the configuration is written")
		c = vRead(b.String())
	}
	g, err := c.Get("G101")
	verifsym.Assert(err == nil, "a section of the document")
	m, ok := g.(map[string]interface{})
	verifsym.Assert(ok && len(m) == 2, "an object")
	t, ok := m["pattern"].(string)
	verifsym.Assert(ok && t == s, "text in an object")
	f, ok := m["truncate"].(float64)
	verifsym.Assert(ok && int(f) == n, "number in an object")
	g, err = c.Get("G306")
	t, ok = g.(string)
	verifsym.Assert(err == nil && ok && t == s, "a text")
	g, err = c.Get("G201")
	l, ok := g.([]interface{})
	verifsym.Assert(err == nil && ok && len(l) == 2 && l[1] == true, "a list")
	t, ok = l[0].(string)
	verifsym.Assert(ok && t == s, "text in a list")
	on, _ := c.IsGlobalEnabled(gosec.Audit)
	verifsym.Assert(on == globals, "the options beside the sections")
	_, err = c.Get("G404")
	verifsym.Assert(err != nil, "a section that is not there")
	c.Set("G404", s)
	g, err = c.Get("G404")
	verifsym.Assert(err == nil && g == s, "a section that was set")
}

// Verif_C19_scan: the switches of the document decide how a scan treats directives.
//
//verif:bounds every combination of set, unset and disabled nosec and show-ignored options over one suppressed and one open finding
//verif:quick 60s
func Verif_C19_scan() {
	vals := []string{"", `"nosec":true`, `"nosec":"enabled"`, `"nosec":"false"`, `"nosec":false`, `"nosec":"disabled"`, `"audit":true`}
	k := verifsym.Choose("nosec", len(vals))
	c := vRead(`{"global":{` + vals[k] + `}}`)
	shown := verifsym.Bool("shown")
	if shown {
		c.SetGlobal(gosec.ShowIgnored, "enabled")
	}
	on, _ := c.IsGlobalEnabled(gosec.Nosec)
	verifsym.Assert(on == (k == 1 || k == 2), "nosec is on exactly when enabled")
	p := verifsym.LoadProgram("package main\n\nimport \"math/rand\"\n\nfunc main() {\n\tprintln(rand.Int()) // #nosec\n\tprintln(rand.Int())\n}\n", nil)
	issues := vScan(vAnalyzer(c, "G404"), p)
	switch {
	case on:
		verifsym.Assert(len(issues) == 2 && !issues[0].NoSec && !issues[1].NoSec, "directives are ignored")
	case shown:
		verifsym.Assert(len(issues) == 2 && issues[0].NoSec && !issues[1].NoSec, "suppressed findings are shown as such")
	default:
		verifsym.Assert(len(issues) == 1 && issues[0].Line == "7", "suppressed findings are left out")
	}
}

// Verif_C19_shapes: a section of an unexpected shape leaves the check as it is without the section.
//
//verif:bounds every configurable check with a section of each JSON type, and with each known setting of each JSON type
//verif:quick 60s
func Verif_C19_shapes() {
	vals := []string{`null`, `true`, `"x"`, `-3`, `[]`, `[1,"x"]`, `{}`, `{"x":{"y":[null]}}`}
	ids := []string{"G101", "G104", "G111", "G301", "G302", "G306", "G307", "G404"}
	keys := []string{"", "pattern", "ignore_entropy", "entropy_threshold", "per_char_threshold", "truncate", "os"}
	id := ids[verifsym.Choose("check", len(ids))]
	k := verifsym.Choose("setting", len(keys))
	v := vals[verifsym.Choose("value", len(vals))]
	doc := v
	if k > 0 {
		// texts are patterns and names here
		verifsym.Assume(v != `"x"`)
		doc = `{"` + keys[k] + `":` + v + `}`
	}
	src := "package main\n\nimport (\n\t\"math/rand\"\n\t\"net/http\"\n\t\"os\"\n)\n\nfunc main() {\n\tpassword := \"f62e5bcda4fae4f82370da0c6f20697b8f8447ef\"\n\tos.Remove(password)\n\t_ = http.Dir(\"/\")\n\t_ = os.Mkdir(password, 0o777)\n\t_ = os.Chmod(password, 0o777)\n\t_ = os.WriteFile(password, nil, 0o777)\n\tprintln(rand.Int())\n}\n"
	c := vRead(`{"` + id + `":` + doc + `}`)
	issues := vScan(vAnalyzer(c, ids...), verifsym.LoadProgram(src, nil))
	for i, q := range []string{"G101", "G104", "G111", "G301", "G302", "G306", "G307", "G404"} {
		verifsym.Assert(vCount(issues, q) == []int{1, 1, 1, 1, 1, 1, 0, 1}[i], "the findings of "+q)
	}
}

// Verif_C19_functions: the functions listed in a G104 section, and only these, may be called without looking at their errors.
//
//verif:bounds any two names of five letters (thorough: or four), for two packages and a type, in a document
//verif:quick 60s
func Verif_C19_functions() {
	pkgs := []string{"os", "io", "os.File"}
	calls := []string{"os.Chdir", "os.Mkdir", "os.File.Close", "os.File.Chdir", "os.File.Sync"}
	p := pkgs[verifsym.Choose("package", len(pkgs))]
	s := verifsym.Str("first", 5-verifsym.Choose("size", 1+verifsym.Tier()), "A-Za-z")
	t := verifsym.Str("second", 5-verifsym.Choose("other size", 2), "A-Za-z")
	c := vRead(`{"G104":{"` + p + `":["` + s + `",7,"` + t + `"]}}`)
	src := "package main\n\nimport \"os\"\n\nfunc main() {\n\tvar f os.File\n\tos.Chdir(\"a\")\n\tos.Mkdir(\"a\", 0)\n\tf.Close()\n\tf.Chdir()\n\tf.Sync()\n}\n"
	issues := vScan(vAnalyzer(c, "G104"), verifsym.LoadProgram(src, nil))
	for i, call := range calls {
		n := 0
		for _, is := range issues {
			if is.Line == strconv.Itoa(7+i) {
				n++
			}
		}
		name := call[strings.LastIndex(call, ".")+1:]
		ok := verifsym.And(call == p+"."+name, verifsym.Or(verifsym.StrEq(s, name), verifsym.StrEq(t, name)))
		verifsym.Assert(n <= 1 && (n == 0) == ok, "reported unless listed: "+call)
	}
}
