package main

import (
	"bytes"
	"encoding/xml"
	"go/types"
	"reflect"
	"strings"
)

// Model of the encoder of encoding/xml; the decoder is interpreted.

type xmlEnc struct {
	m              *Machine
	out            byteBuf
	prefix, indent string
	depth          int
	indentedIn     bool
	putNewline     bool
}

type xmlField struct {
	index int
	name  string
	space string
	mode  string
	omit  bool
	path  []string
	ft    types.Type
	isNm  bool
}

func isXMLName(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Name" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/xml"
}

func (e *xmlEnc) fields(st *types.Struct) []xmlField {
	var r []xmlField
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("xml")
		if tag == "-" || !f.Exported() && !f.Embedded() {
			continue
		}
		if f.Embedded() {
			panic(unsupported("XML encoding of embedded fields"))
		}
		x := xmlField{index: i, ft: f.Type(), mode: "element"}
		if sp, rest, ok := strings.Cut(tag, " "); ok {
			x.space, tag = sp, rest
		}
		name, opts, _ := strings.Cut(tag, ",")
		for _, o := range strings.Split(opts, ",") {
			switch o {
			case "attr", "chardata", "cdata", "innerxml", "comment", "any":
				x.mode = o
			case "omitempty":
				x.omit = true
			}
		}
		x.isNm = f.Name() == "XMLName"
		x.name = name
		if k := strings.LastIndex(name, ">"); k >= 0 {
			x.path, x.name = strings.Split(name[:k], ">"), name[k+1:]
		}
		if x.name == "" && !x.isNm {
			x.name = f.Name()
			// the name of the element type wins
			if n := e.typeXMLName(f.Type()); n != "" {
				x.name = n
			}
		}
		r = append(r, x)
	}
	return r
}

func (e *xmlEnc) typeXMLName(t types.Type) string {
	for {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case *types.Slice:
			t = u.Elem()
			continue
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == "XMLName" {
					n, _, _ := strings.Cut(reflect.StructTag(u.Tag(i)).Get("xml"), ",")
					if k := strings.LastIndex(n, " "); k >= 0 {
						n = n[k+1:]
					}
					return n
				}
			}
		}
		return ""
	}
}

func (e *xmlEnc) writeIndent(delta int) {
	if e.prefix == "" && e.indent == "" {
		return
	}
	if delta < 0 {
		e.depth--
		if e.indentedIn {
			e.indentedIn = false
			return
		}
		e.indentedIn = false
	}
	if e.putNewline {
		e.out.str("\n")
	} else {
		e.putNewline = true
	}
	e.out.str(e.prefix + strings.Repeat(e.indent, e.depth))
	if delta > 0 {
		e.depth++
		e.indentedIn = true
	}
}

func (m *Machine) xmlEscape(out *byteBuf, s any) {
	native := func(b []byte) {
		var w bytes.Buffer
		_ = xml.EscapeText(&w, b)
		out.str(w.String())
	}
	if c, ok := s.(string); ok {
		native([]byte(c))
		return
	}
	bs := m.strBytes(s)
	for i := 0; i < len(bs); i++ {
		t := bs[i]
		if t.isConst() {
			var run []byte
			j := i
			for ; j < len(bs) && bs[j].isConst(); j++ {
				run = append(run, byte(bs[j].val))
			}
			native(run)
			i = j - 1
			continue
		}
		if m.branch(m.tp.Or(m.tp.Ult(t, iconst(8, 0x20)), m.oneOf(t, "\"'&<>"))) {
			native([]byte{byte(m.concretize(t))})
			continue
		}
		if m.branch(m.tp.Ule(iconst(8, 0x80), t)) {
			panic(unsupported("XML encoding of symbolic non-ASCII text"))
		}
		out.b = append(out.b, t)
	}
}

// text is the text of a simple value.
func (e *xmlEnc) text(v any, t types.Type) any {
	m := e.m
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		q, _ := v.(*any)
		if q == nil {
			return ""
		}
		v, t = m.force(q), p.Elem()
	}
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			return ""
		}
		return e.text(i.v, i.t)
	}
	if hasAny(t, "MarshalText") || hasAny(t, "MarshalXML") || hasAny(t, "MarshalXMLAttr") {
		panic(unsupported("XML marshaler"))
	}
	u, ok := t.Underlying().(*types.Basic)
	if !ok {
		if s, ok := v.(SliceV); ok {
			return mkStr(m.toBytes(s))
		}
		panic(codecErr{"xml: unsupported type: " + typeName(t)})
	}
	switch {
	case u.Info()&types.IsString != 0:
		return v
	case u.Info()&types.IsInteger != 0:
		_, signed, _ := intInfo(t)
		return m.fmtInt(v.(*Term), signed, 10)
	case u.Info()&types.IsBoolean != 0:
		if m.branch(v.(*Term)) {
			return "true"
		}
		return "false"
	}
	panic(unsupported("XML encoding of " + typeName(t)))
}

func (e *xmlEnc) value(p *any, t types.Type, f *xmlField) {
	m := e.m
	v := m.force(p)
	if f != nil && f.omit && m.emptyValue(v, t, false) {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		q, _ := v.(*any)
		if q == nil {
			return
		}
		e.value(q, u.Elem(), f)
		return
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			return
		}
		x := i.v
		e.value(&x, i.t, f)
		return
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
			s, _ := v.(SliceV)
			for i := range s {
				e.value(&s[i], u.Elem(), f)
			}
			return
		}
	}
	if hasAny(t, "MarshalXML") || hasAny(types.NewPointer(t), "MarshalXML") || hasAny(t, "MarshalText") || hasAny(types.NewPointer(t), "MarshalText") {
		panic(unsupported("XML marshaler"))
	}
	name := ""
	st, isStruct := t.Underlying().(*types.Struct)
	var fs []xmlField
	if isStruct {
		fs = e.fields(st)
		for _, x := range fs {
			if x.space != "" {
				panic(unsupported("XML name spaces"))
			}
			if !x.isNm {
				continue
			}
			name = x.name
			if name == "" && isXMLName(x.ft) {
				name = m.cstr(m.force(p).(Struct)[x.index].(Struct)[1])
			}
		}
	}
	if name == "" && f != nil {
		name = f.name
	}
	if name == "" {
		if n, ok := types.Unalias(t).(*types.Named); ok {
			name = n.Obj().Name()
		}
	}
	if name == "" {
		panic(codecErr{"xml: unsupported type: " + typeName(t)})
	}
	e.writeIndent(1)
	e.out.str("<" + name)
	if isStruct {
		s := m.force(p).(Struct)
		for i := range fs {
			x := &fs[i]
			if x.mode != "attr" || x.isNm {
				continue
			}
			fv := m.force(&s[x.index])
			if x.omit && m.emptyValue(fv, x.ft, false) || isNilValue(fv) {
				continue
			}
			e.out.str(" " + x.name + `="`)
			m.xmlEscape(&e.out, e.text(fv, x.ft))
			e.out.str(`"`)
		}
	}
	e.out.str(">")
	if isStruct {
		s := m.force(p).(Struct)
		for i := range fs {
			x := &fs[i]
			if x.mode == "attr" || x.isNm {
				continue
			}
			if len(x.path) > 0 {
				panic(unsupported("XML parent elements"))
			}
			slot := &s[x.index]
			switch x.mode {
			case "chardata":
				m.xmlEscape(&e.out, e.text(m.force(slot), x.ft))
			case "innerxml":
				e.out.b = append(e.out.b, m.strBytes(e.text(m.force(slot), x.ft))...)
			case "cdata":
				b := m.strBytes(e.text(m.force(slot), x.ft))
				if len(b) == 0 {
					continue
				}
				e.out.str("<![CDATA[")
				end := m.strBytes("]]>")
				for i := 0; i < len(b); i++ {
					if i+3 <= len(b) && m.branch(m.matchAt(b, end, i)) {
						e.out.str("]]]]><![CDATA[>")
						i += 2
						continue
					}
					e.out.b = append(e.out.b, b[i])
				}
				e.out.str("]]>")
			case "comment":
				panic(unsupported("XML comments"))
			default:
				e.value(slot, x.ft, x)
			}
		}
	} else {
		m.xmlEscape(&e.out, e.text(v, t))
	}
	e.writeIndent(-1)
	e.out.str("</" + name + ">")
}

func init() {
	marshal := func(m *Machine, v any, prefix, indent string) (any, Iface) {
		e := &xmlEnc{m: m, prefix: prefix, indent: indent}
		err := m.catchCodec(func() {
			i := v.(Iface)
			if i.t == nil {
				return
			}
			x := i.v
			e.value(&x, i.t, nil)
		})
		if err.t != nil {
			return SliceV(nil), err
		}
		return bytesVal(e.out.b), err
	}
	def("encoding/xml.Marshal", func(m *Machine, a []any) any {
		b, err := marshal(m, a[0], "", "")
		return Tuple{b, err}
	})
	def("encoding/xml.MarshalIndent", func(m *Machine, a []any) any {
		b, err := marshal(m, a[0], m.cstr(a[1]), m.cstr(a[2]))
		return Tuple{b, err}
	})
	str := func(m *Machine, v any) *jsonStream { return (*v.(*any)).(Native).v.(*jsonStream) }
	def("encoding/xml.NewEncoder", func(m *Machine, a []any) any {
		x := any(Native{&jsonStream{w: a[0].(Iface)}})
		return &x
	})
	def("(*encoding/xml.Encoder).Indent", func(m *Machine, a []any) any {
		s := str(m, a[0])
		s.prefix, s.indent = m.cstr(a[1]), m.cstr(a[2])
		return nil
	})
	def("(*encoding/xml.Encoder).Encode", func(m *Machine, a []any) any {
		s := str(m, a[0])
		b, err := marshal(m, a[1], s.prefix, s.indent)
		if err.t != nil {
			return err
		}
		return m.write(s.w, mkStr(m.toBytes(b))).(Tuple)[1]
	})
	def("(*encoding/xml.Encoder).Flush", func(m *Machine, a []any) any { return Iface{} })
	def("(*encoding/xml.Encoder).Close", func(m *Machine, a []any) any { return Iface{} })
}
