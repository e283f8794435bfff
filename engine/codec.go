package main

import (
	"crypto/md5"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"html"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Models of encoding/json and gopkg.in/yaml.v3 over symbolic values. JSON documents are rendered and parsed byte by
// byte, escapes included; YAML documents are opaque tokens that stand for the encoded tree and decode to it.

// jval is a document tree.
type jval struct {
	k    byte // n null, b bool, # number, s string, a array, o object
	b    *Term
	s    any // text of a string or number
	arr  []*jval
	keys []any
}

type codecErr struct{ msg any }

func isNilValue(v any) bool {
	switch v := v.(type) {
	case *any:
		return v == nil
	case *MapV:
		return v == nil
	case SliceV:
		return v == nil
	case Iface:
		return v.t == nil
	case *Closure:
		return v == nil
	}
	return false
}

// ---------- encoding ----------

type treeEnc struct {
	m    *Machine
	yaml bool
	deep int
}

type codecField struct {
	name      string
	index     int
	omitempty bool
	inline    bool
	quoted    bool
	ft        types.Type
}

func codecFields(st *types.Struct, yaml bool) []codecField {
	var fs []codecField
	key := "json"
	if yaml {
		key = "yaml"
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get(key)
		if tag == "-" {
			continue
		}
		name, opts, _ := strings.Cut(tag, ",")
		cf := codecField{name: name, index: i, ft: f.Type()}
		for _, o := range strings.Split(opts, ",") {
			switch o {
			case "omitempty":
				cf.omitempty = true
			case "inline":
				cf.inline = true
			case "string":
				cf.quoted = true
			}
		}
		if f.Embedded() && name == "" && !yaml {
			ft := f.Type()
			if p, ok := ft.Underlying().(*types.Pointer); ok {
				ft = p.Elem()
			}
			if _, ok := ft.Underlying().(*types.Struct); ok {
				cf.inline = true
				fs = append(fs, cf)
				continue
			}
		}
		if !f.Exported() {
			continue
		}
		if cf.name == "" {
			cf.name = f.Name()
			if yaml {
				cf.name = strings.ToLower(cf.name)
			}
		}
		fs = append(fs, cf)
	}
	return fs
}

func (e *treeEnc) fail(format string, a ...any) { panic(codecErr{fmt.Sprintf(format, a...)}) }

func (e *treeEnc) marshaler(p *any, t types.Type, addr bool) (*jval, bool) {
	m := e.m
	names := []string{"MarshalJSON", "MarshalText"}
	if e.yaml {
		names = []string{"MarshalYAML", "MarshalText"}
	}
	for _, n := range names {
		v, vt := any(nil), t
		switch {
		case hasAny(t, n):
			v = m.load(p)
		case addr && hasAny(types.NewPointer(t), n):
			v, vt = p, canonPtr(types.NewPointer(t))
		default:
			continue
		}
		if isNilValue(v) {
			return &jval{k: 'n'}, true
		}
		r, ok := m.callMethod(Iface{t: vt, v: v}, n)
		if !ok {
			continue
		}
		tu := r.(Tuple)
		if err := tu[1].(Iface); err.t != nil {
			panic(codecErr{err})
		}
		switch n {
		case "MarshalJSON":
			d := &jsonDec{m: m, b: m.toBytes(tu[0])}
			j, ok := d.document()
			if !ok {
				e.fail("json: error calling MarshalJSON: invalid output")
			}
			return j, true
		case "MarshalText":
			return &jval{k: 's', s: mkStr(m.toBytes(tu[0]))}, true
		case "MarshalYAML":
			i := tu[0].(Iface)
			if i.t == nil {
				return &jval{k: 'n'}, true
			}
			x := i.v
			return e.enc(&x, i.t, false), true
		}
	}
	return nil, false
}

func (e *treeEnc) enc(p *any, t types.Type, addr bool) *jval {
	m := e.m
	e.deep++
	defer func() { e.deep-- }()
	if e.deep > 200 {
		e.fail("json: unsupported value: encountered a cycle")
	}
	v := m.force(p)
	if j, ok := e.marshaler(p, t, addr); ok {
		return j
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &jval{k: 'b', b: v.(*Term)}
		case u.Info()&types.IsInteger != 0:
			_, signed, _ := intInfo(t)
			return &jval{k: '#', s: m.fmtInt(v.(*Term), signed, 10)}
		case u.Info()&types.IsString != 0:
			return &jval{k: 's', s: v}
		case u.Info()&types.IsFloat != 0:
			f, ok := v.(float64)
			if !ok {
				panic(unsupported("encoding a symbolic float"))
			}
			b, err := json.Marshal(f)
			if err != nil {
				e.fail("%s", err.Error())
			}
			return &jval{k: '#', s: string(b)}
		}
	case *types.Pointer:
		q, _ := v.(*any)
		if q == nil {
			return &jval{k: 'n'}
		}
		return e.enc(q, u.Elem(), true)
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			return &jval{k: 'n'}
		}
		x := i.v
		return e.enc(&x, i.t, false)
	case *types.Struct:
		o := &jval{k: 'o'}
		e.structFields(o, p, u, addr)
		return o
	case *types.Map:
		mv, _ := v.(*MapV)
		if mv == nil && !e.yaml {
			return &jval{k: 'n'}
		}
		o := &jval{k: 'o'}
		if mv == nil {
			return o
		}
		mv.fill()
		for _, en := range mv.ents {
			if en.deleted {
				continue
			}
			k := en.k
			kt := u.Key()
			if i, ok := k.(Iface); ok {
				k, kt = i.v, i.t
			}
			var ks any
			switch {
			case isString(kt):
				ks = k
			default:
				tm, ok := k.(*Term)
				if !ok {
					e.fail("json: unsupported type: %s", t)
				}
				_, signed, _ := intInfo(kt)
				ks = m.fmtInt(tm, signed, 10)
			}
			x := en.v
			o.keys = append(o.keys, ks)
			o.arr = append(o.arr, e.enc(&x, u.Elem(), false))
		}
		for i := 1; i < len(o.keys); i++ { // sorted by key
			for j := i; j > 0 && m.branch(m.strLess(o.keys[j], o.keys[j-1])); j-- {
				o.keys[j], o.keys[j-1] = o.keys[j-1], o.keys[j]
				o.arr[j], o.arr[j-1] = o.arr[j-1], o.arr[j]
			}
		}
		return o
	case *types.Slice:
		s, _ := v.(SliceV)
		if s == nil && !e.yaml {
			return &jval{k: 'n'}
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && !e.yaml {
			raw, ok := m.toNative(s, reflect.TypeOf([]byte(nil)))
			if !ok {
				panic(unsupported("base64 of symbolic bytes"))
			}
			return &jval{k: 's', s: base64.StdEncoding.EncodeToString(raw.Bytes())}
		}
		a := &jval{k: 'a'}
		for i := range s {
			a.arr = append(a.arr, e.enc(&s[i], u.Elem(), true))
		}
		return a
	case *types.Array:
		a := &jval{k: 'a'}
		for i := range v.(Array) {
			a.arr = append(a.arr, e.enc(&v.(Array)[i], u.Elem(), addr))
		}
		return a
	}
	e.fail("json: unsupported type: %s", t)
	return nil
}

func (e *treeEnc) structFields(o *jval, p *any, st *types.Struct, addr bool) {
	m := e.m
	s := m.force(p).(Struct)
	for _, f := range codecFields(st, e.yaml) {
		slot := &s[f.index]
		if f.inline {
			ft, q := f.ft, slot
			if pt, ok := ft.Underlying().(*types.Pointer); ok {
				q, _ = m.force(slot).(*any)
				if q == nil {
					continue
				}
				ft = pt.Elem()
			}
			sub := &jval{k: 'o'}
			e.structFields(sub, q, ft.Underlying().(*types.Struct), addr)
			for i, k := range sub.keys {
				if o.find(k.(string)) == nil {
					o.keys, o.arr = append(o.keys, k), append(o.arr, sub.arr[i])
				}
			}
			continue
		}
		if f.quoted {
			panic(unsupported("the string option of encoding/json"))
		}
		if f.omitempty && m.emptyValue(m.force(slot), f.ft, e.yaml) {
			continue
		}
		j := e.enc(slot, f.ft, addr)
		if old := o.find(f.name); old != nil {
			*old = *j
			continue
		}
		o.keys, o.arr = append(o.keys, any(f.name)), append(o.arr, j)
	}
}

func (m *Machine) emptyValue(v any, t types.Type, yaml bool) bool {
	switch v := v.(type) {
	case *Term:
		if v.w == 0 {
			return !m.branch(v)
		}
		return m.branch(m.tp.Eq(v, iconst(v.w, 0)))
	case float64:
		return v == 0
	case string:
		return v == ""
	case *SymStr:
		return m.strLen(v) == 0
	case SliceV:
		return len(v) == 0
	case *MapV:
		return m.mapLen(v) == 0
	case Array:
		return len(v) == 0
	case Struct:
		if !yaml {
			return false
		}
		st := t.Underlying().(*types.Struct)
		for i := range v {
			if !m.emptyValue(m.force(&v[i]), st.Field(i).Type(), yaml) {
				return false
			}
		}
		return true
	}
	return isNilValue(v)
}

func (j *jval) find(key string) *jval {
	for i, k := range j.keys {
		if s, ok := k.(string); ok && s == key {
			return j.arr[i]
		}
	}
	return nil
}

type byteBuf struct{ b []*Term }

func (b *byteBuf) str(s string) {
	for i := 0; i < len(s); i++ {
		b.b = append(b.b, iconst(8, uint64(s[i])))
	}
}

func (m *Machine) oneOf(t *Term, cs string) *Term {
	r := tFalse
	for i := 0; i < len(cs); i++ {
		r = m.tp.Or(r, m.tp.Eq(t, iconst(8, uint64(cs[i]))))
	}
	return r
}

func (m *Machine) jsonQuote(out *byteBuf, s any, html bool) {
	if c, ok := s.(string); ok {
		b, _ := json.Marshal(c)
		if !html {
			b = []byte(strings.NewReplacer(`\u003c`, "<", `\u003e`, ">", `\u0026`, "&").Replace(string(b)))
		}
		out.str(string(b))
		return
	}
	out.str(`"`)
	bs := m.strBytes(s)
	for i := 0; i < len(bs); i++ {
		t := bs[i]
		if t.isConst() { // a run of known bytes
			j := i
			var run []byte
			for j < len(bs) && bs[j].isConst() {
				run = append(run, byte(bs[j].val))
				j++
			}
			b, _ := json.Marshal(string(run))
			out.str(string(b[1 : len(b)-1]))
			i = j - 1
			continue
		}
		special := m.tp.Or(m.tp.Ult(t, iconst(8, 0x20)), m.tp.Ule(iconst(8, 0x7f), t))
		special = m.tp.Or(special, m.oneOf(t, "\"\\<>&"))
		if !m.branch(special) {
			out.b = append(out.b, t)
			continue
		}
		if m.branch(m.tp.Ule(iconst(8, 0x80), t)) {
			panic(unsupported("JSON encoding of symbolic non-ASCII text"))
		}
		c := byte(m.concretize(t))
		b, _ := json.Marshal(string([]byte{c}))
		out.str(string(b[1 : len(b)-1]))
	}
	out.str(`"`)
}

func (m *Machine) jsonText(out *byteBuf, j *jval, prefix, indent string, pretty bool, depth int, html bool) {
	nl := func(d int) {
		if pretty {
			out.str("\n" + prefix + strings.Repeat(indent, d))
		}
	}
	switch j.k {
	case 'n':
		out.str("null")
	case 'b':
		if m.branch(j.b) {
			out.str("true")
		} else {
			out.str("false")
		}
	case '#':
		out.b = append(out.b, m.strBytes(j.s)...)
	case 's':
		m.jsonQuote(out, j.s, html)
	case 'a':
		out.str("[")
		for i, x := range j.arr {
			if i > 0 {
				out.str(",")
			}
			nl(depth + 1)
			m.jsonText(out, x, prefix, indent, pretty, depth+1, html)
		}
		if len(j.arr) > 0 {
			nl(depth)
		}
		out.str("]")
	case 'o':
		out.str("{")
		for i, x := range j.arr {
			if i > 0 {
				out.str(",")
			}
			nl(depth + 1)
			m.jsonQuote(out, j.keys[i], html)
			out.str(":")
			if pretty {
				out.str(" ")
			}
			m.jsonText(out, x, prefix, indent, pretty, depth+1, html)
		}
		if len(j.arr) > 0 {
			nl(depth)
		}
		out.str("}")
	}
}

// catchCodec runs f and turns its errors into an error value.
func (m *Machine) catchCodec(f func()) (err Iface) {
	defer func() {
		if e := recover(); e != nil {
			ce, ok := e.(codecErr)
			if !ok {
				panic(e)
			}
			if i, ok := ce.msg.(Iface); ok {
				err = i
			} else {
				err = m.mkError(ce.msg)
			}
		}
	}()
	f()
	return Iface{}
}

func (m *Machine) tree(v any, yaml bool) (j *jval, err Iface) {
	err = m.catchCodec(func() {
		i := v.(Iface)
		if i.t == nil {
			j = &jval{k: 'n'}
			return
		}
		x := i.v
		j = (&treeEnc{m: m, yaml: yaml}).enc(&x, i.t, false)
	})
	return
}

// ---------- JSON decoding ----------

type jsonDec struct {
	m    *Machine
	b    []*Term
	i    int
	deep int
}

func (d *jsonDec) is(c byte) bool {
	return d.i < len(d.b) && d.m.branch(d.m.tp.Eq(d.b[d.i], iconst(8, uint64(c))))
}

func (d *jsonDec) ws() {
	for d.i < len(d.b) && d.m.branch(d.m.oneOf(d.b[d.i], " \t\r\n")) {
		d.i++
	}
}

func (d *jsonDec) lit(s string) bool {
	for k := 0; k < len(s); k++ {
		if !d.is(s[k]) {
			return false
		}
		d.i++
	}
	return true
}

func (d *jsonDec) document() (*jval, bool) {
	j, ok := d.value()
	if !ok {
		return nil, false
	}
	d.ws()
	return j, d.i == len(d.b)
}

func (d *jsonDec) value() (*jval, bool) {
	d.deep++
	defer func() { d.deep-- }()
	d.ws()
	if d.i >= len(d.b) || d.deep > 10000 {
		return nil, false
	}
	switch {
	case d.is('"'):
		s, ok := d.str()
		return &jval{k: 's', s: s}, ok
	case d.is('{'):
		d.i++
		o := &jval{k: 'o'}
		d.ws()
		if d.is('}') {
			d.i++
			return o, true
		}
		for {
			d.ws()
			if !d.is('"') {
				return nil, false
			}
			k, ok := d.str()
			if !ok {
				return nil, false
			}
			d.ws()
			if !d.is(':') {
				return nil, false
			}
			d.i++
			v, ok := d.value()
			if !ok {
				return nil, false
			}
			o.keys, o.arr = append(o.keys, k), append(o.arr, v)
			d.ws()
			if d.is(',') {
				d.i++
				continue
			}
			if d.is('}') {
				d.i++
				return o, true
			}
			return nil, false
		}
	case d.is('['):
		d.i++
		a := &jval{k: 'a'}
		d.ws()
		if d.is(']') {
			d.i++
			return a, true
		}
		for {
			v, ok := d.value()
			if !ok {
				return nil, false
			}
			a.arr = append(a.arr, v)
			d.ws()
			if d.is(',') {
				d.i++
				continue
			}
			if d.is(']') {
				d.i++
				return a, true
			}
			return nil, false
		}
	case d.is('t'):
		return &jval{k: 'b', b: tTrue}, d.lit("true")
	case d.is('f'):
		return &jval{k: 'b', b: tFalse}, d.lit("false")
	case d.is('n'):
		return &jval{k: 'n'}, d.lit("null")
	}
	return d.number()
}

func (d *jsonDec) digit() bool {
	return d.i < len(d.b) && d.m.branch(d.m.tp.And(d.m.tp.Ule(iconst(8, '0'), d.b[d.i]), d.m.tp.Ule(d.b[d.i], iconst(8, '9'))))
}

func (d *jsonDec) digits() bool {
	n := d.i
	for d.digit() {
		d.i++
	}
	return d.i > n
}

func (d *jsonDec) number() (*jval, bool) {
	from := d.i
	if d.is('-') {
		d.i++
	}
	if one := d.i+1 >= len(d.b) || d.b[d.i+1].isConst() && (d.b[d.i+1].val < '0' || d.b[d.i+1].val > '9'); !one && d.is('0') {
		d.i++
	} else if !d.digits() {
		return nil, false
	}
	if d.is('.') {
		d.i++
		if !d.digits() {
			return nil, false
		}
	}
	if d.is('e') || d.is('E') {
		d.i++
		if d.is('+') || d.is('-') {
			d.i++
		}
		if !d.digits() {
			return nil, false
		}
	}
	return &jval{k: '#', s: mkStr(d.b[from:d.i])}, true
}

// str parses a string; the opening quote is the current byte.
func (d *jsonDec) str() (any, bool) {
	m := d.m
	d.i++
	var out byteBuf
	for d.i < len(d.b) {
		t := d.b[d.i]
		plain := m.tp.And(m.tp.Ule(iconst(8, 0x20), t), m.tp.Not(m.oneOf(t, `"\`)))
		if m.branch(plain) {
			out.b = append(out.b, t)
			d.i++
			continue
		}
		if d.is('"') {
			d.i++
			r := mkStr(out.b)
			if s, ok := r.(string); ok {
				r = strings.ToValidUTF8(s, "\uFFFD")
			}
			return r, true
		}
		if !d.is('\\') {
			return nil, false // a control character
		}
		d.i++
		if d.i >= len(d.b) {
			return nil, false
		}
		c := byte(m.concretize(d.b[d.i]))
		d.i++
		switch c {
		case '"', '\\', '/':
			out.str(string([]byte{c}))
		case 'b':
			out.str("\b")
		case 'f':
			out.str("\f")
		case 'n':
			out.str("\n")
		case 'r':
			out.str("\r")
		case 't':
			out.str("\t")
		case 'u':
			hex := func() (rune, bool) {
				if d.i+4 > len(d.b) {
					return 0, false
				}
				var h []byte
				for k := 0; k < 4; k++ {
					h = append(h, byte(m.concretize(d.b[d.i+k])))
				}
				n, err := strconv.ParseUint(string(h), 16, 32)
				d.i += 4
				return rune(n), err == nil
			}
			r, ok := hex()
			if !ok {
				return nil, false
			}
			if r >= 0xd800 && r < 0xdc00 && d.i+6 <= len(d.b) && d.b[d.i].isConst() && d.b[d.i].val == '\\' && d.b[d.i+1].isConst() && d.b[d.i+1].val == 'u' {
				save := d.i
				d.i += 2
				if r2, ok := hex(); ok && r2 >= 0xdc00 && r2 < 0xe000 {
					r = (r-0xd800)<<10 | (r2 - 0xdc00) + 0x10000
				} else {
					d.i = save
				}
			}
			out.str(string(r))
		default:
			return nil, false
		}
	}
	return nil, false
}

// ---------- filling values ----------

type treeDec struct {
	m    *Machine
	yaml bool
	err  any // first type mismatch
}

var (
	emptyIfaceT = types.NewInterfaceType(nil, nil)
	genericMapT = types.NewMap(types.Typ[types.String], emptyIfaceT)
	genericArrT = types.NewSlice(emptyIfaceT)
)

func (d *treeDec) mismatch(j *jval, t types.Type) {
	if d.err == nil {
		d.err = fmt.Sprintf("json: cannot unmarshal %s into Go value of type %s", map[byte]string{'n': "null", 'b': "bool", '#': "number", 's': "string", 'a': "array", 'o': "object"}[j.k], typeName(t))
	}
}

func (d *treeDec) generic(j *jval) any {
	m := d.m
	switch j.k {
	case 'n':
		return Iface{}
	case 'b':
		return Iface{t: types.Typ[types.Bool], v: j.b}
	case 's':
		return Iface{t: types.Typ[types.String], v: j.s}
	case '#':
		s, ok := j.s.(string)
		if !ok {
			if d.yaml {
				return Iface{t: types.Typ[types.Int], v: d.integer(j.s, 64)}
			}
			r := intrinsics["strconv.ParseFloat"]
			if v, ok := r(m, nil, nil, []any{j.s, ci(64)}); ok {
				return Iface{t: types.Typ[types.Float64], v: v.(Tuple)[0]}
			}
			panic(unsupported("symbolic number in a generic document"))
		}
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			panic(codecErr{"json: cannot unmarshal number " + s})
		}
		return Iface{t: types.Typ[types.Float64], v: f}
	case 'a':
		s := make(SliceV, len(j.arr))
		for i, x := range j.arr {
			s[i] = d.generic(x)
		}
		return Iface{t: genericArrT, v: s}
	}
	mv := m.newMap()
	for i, k := range j.keys {
		m.mapSet(mv, k, d.generic(j.arr[i]))
	}
	return Iface{t: genericMapT, v: mv}
}

// integer is the value of a decimal text.
func (d *treeDec) integer(s any, w uint8) *Term {
	m := d.m
	if x, ok := s.(*SymStr); ok && x.num != nil {
		return m.tp.Trunc(x.num, w)
	}
	bs := m.strBytes(s)
	neg := false
	if len(bs) > 0 && m.branch(m.tp.Eq(bs[0], iconst(8, '-'))) {
		neg, bs = true, bs[1:]
	}
	r := iconst(64, 0)
	for _, t := range bs {
		if !m.branch(m.tp.And(m.tp.Ule(iconst(8, '0'), t), m.tp.Ule(t, iconst(8, '9')))) {
			return nil
		}
		r = m.tp.Bin(OAdd, m.tp.Bin(OMul, r, iconst(64, 10)), m.tp.ZExt(m.tp.Bin(OSub, t, iconst(8, '0')), 64))
	}
	if neg {
		r = m.tp.Neg(r)
	}
	return m.tp.Trunc(r, w)
}

func (d *treeDec) fill(p *any, t types.Type, j *jval) {
	m := d.m
	v := m.force(p)
	if q, ok := t.Underlying().(*types.Pointer); ok {
		if j.k == 'n' {
			m.store(p, (*any)(nil))
			return
		}
		ptr, _ := v.(*any)
		if ptr == nil {
			ptr = new(any)
			*ptr = zero(q.Elem())
			m.store(p, ptr)
		}
		d.fill(ptr, q.Elem(), j)
		return
	}
	name := "UnmarshalJSON"
	if d.yaml {
		name = "UnmarshalYAML"
	}
	if pt := canonPtr(types.NewPointer(t)); hasAny(pt, name) {
		if d.yaml {
			panic(unsupported("UnmarshalYAML"))
		}
		var out byteBuf
		m.jsonText(&out, j, "", "", false, 0, true)
		r, _ := m.callMethod(Iface{t: pt, v: p}, name, bytesVal(out.b))
		if e := r.(Iface); e.t != nil {
			panic(codecErr{e})
		}
		return
	} else if j.k == 's' && hasAny(pt, "UnmarshalText") {
		r, _ := m.callMethod(Iface{t: pt, v: p}, "UnmarshalText", bytesVal(m.strBytes(j.s)))
		if e := r.(Iface); e.t != nil {
			panic(codecErr{e})
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if u.NumMethods() > 0 {
			d.mismatch(j, t)
			return
		}
		if i := v.(Iface); i.t != nil && j.k != 'n' {
			if pt, ok := i.t.Underlying().(*types.Pointer); ok && !isNilValue(i.v) {
				d.fill(i.v.(*any), pt.Elem(), j)
				return
			}
		}
		m.store(p, d.generic(j))
	case *types.Basic:
		switch {
		case j.k == 'n':
		case u.Info()&types.IsBoolean != 0 && j.k == 'b':
			m.store(p, j.b)
		case u.Info()&types.IsString != 0 && j.k == 's':
			m.store(p, j.s)
		case u.Info()&types.IsInteger != 0 && j.k == '#':
			w, signed, _ := intInfo(t)
			if s, ok := j.s.(string); ok {
				if signed {
					n, err := strconv.ParseInt(s, 10, int(w))
					if err != nil {
						d.mismatch(j, t)
						return
					}
					m.store(p, iconst(w, uint64(n)))
				} else {
					n, err := strconv.ParseUint(s, 10, int(w))
					if err != nil {
						d.mismatch(j, t)
						return
					}
					m.store(p, iconst(w, n))
				}
				return
			}
			n := d.integer(j.s, w)
			if n == nil {
				d.mismatch(j, t)
				return
			}
			m.store(p, n)
		case u.Info()&types.IsFloat != 0 && j.k == '#':
			m.store(p, d.generic(j).(Iface).v)
		default:
			d.mismatch(j, t)
		}
	case *types.Slice:
		if j.k == 'n' {
			m.store(p, SliceV(nil))
			return
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && j.k == 's' {
			s, ok := j.s.(string)
			if !ok {
				panic(unsupported("base64 of symbolic text"))
			}
			raw, err := base64.StdEncoding.DecodeString(s)
			if err != nil {
				panic(codecErr{err.Error()})
			}
			m.store(p, bytesVal(m.strBytes(string(raw))))
			return
		}
		if j.k != 'a' {
			d.mismatch(j, t)
			return
		}
		s := make(SliceV, len(j.arr))
		for i, x := range j.arr {
			s[i] = zero(u.Elem())
			d.fill(&s[i], u.Elem(), x)
		}
		m.store(p, s)
	case *types.Array:
		if j.k != 'a' {
			d.mismatch(j, t)
			return
		}
		a := v.(Array)
		for i := range a {
			if i < len(j.arr) {
				d.fill(&a[i], u.Elem(), j.arr[i])
			} else {
				a[i] = zero(u.Elem())
			}
		}
	case *types.Map:
		if j.k == 'n' {
			m.store(p, (*MapV)(nil))
			return
		}
		if j.k != 'o' {
			d.mismatch(j, t)
			return
		}
		mv, _ := v.(*MapV)
		if mv == nil {
			mv = m.newMap()
			m.store(p, mv)
		}
		for i, k := range j.keys {
			x := zero(u.Elem())
			d.fill(&x, u.Elem(), j.arr[i])
			var key any = k
			if w, _, ok := intInfo(u.Key()); ok {
				n := d.integer(k, w)
				if n == nil {
					d.mismatch(j.arr[i], u.Key())
					continue
				}
				key = n
			} else if _, ok := u.Key().Underlying().(*types.Interface); ok {
				key = Iface{t: types.Typ[types.String], v: k}
			}
			m.mapSet(mv, key, x)
		}
	case *types.Struct:
		if j.k == 'n' {
			return
		}
		if j.k != 'o' {
			d.mismatch(j, t)
			return
		}
		d.fillStruct(p, u, j)
	default:
		d.mismatch(j, t)
	}
}

func (d *treeDec) fillStruct(p *any, st *types.Struct, j *jval) {
	m := d.m
	s := m.force(p).(Struct)
	fs := codecFields(st, d.yaml)
	for i, k := range j.keys {
		best := -1
		for n, f := range fs {
			if f.inline {
				continue
			}
			if m.branch(m.strEq(k, f.name)) {
				best = n
				break
			}
		}
		if c, ok := k.(string); ok && best < 0 && !d.yaml {
			for n, f := range fs {
				if !f.inline && strings.EqualFold(f.name, c) {
					best = n
					break
				}
			}
		}
		if best >= 0 {
			d.fill(&s[fs[best].index], fs[best].ft, j.arr[i])
		}
	}
	for _, f := range fs {
		if !f.inline {
			continue
		}
		q, ft := &s[f.index], f.ft
		if pt, ok := ft.Underlying().(*types.Pointer); ok {
			ptr, _ := m.force(q).(*any)
			if ptr == nil {
				ptr = new(any)
				*ptr = zero(pt.Elem())
				m.store(q, ptr)
			}
			q, ft = ptr, pt.Elem()
		}
		d.fillStruct(q, ft.Underlying().(*types.Struct), j)
	}
}

// into decodes a document tree into the value v points to.
func (m *Machine) into(j *jval, v Iface, yaml bool) Iface {
	p, ok := v.v.(*any)
	pt, isP := any(nil), false
	if v.t != nil {
		pt, isP = v.t.Underlying().(*types.Pointer)
	}
	if !ok || !isP || p == nil {
		return m.mkError("json: Unmarshal(non-pointer)")
	}
	d := &treeDec{m: m, yaml: yaml}
	if err := m.catchCodec(func() { d.fill(p, pt.(*types.Pointer).Elem(), j) }); err.t != nil {
		return err
	}
	if d.err != nil {
		return m.mkError(d.err)
	}
	return Iface{}
}

// ---------- opaque documents ----------

// opaque gives the text that stands for a document: equal trees have equal texts.
func (m *Machine) opaque(kind string, j *jval) any {
	var sb strings.Builder
	var str func(v any)
	str = func(v any) {
		switch v := v.(type) {
		case string:
			sb.WriteString(strconv.Quote(v))
		case *SymStr:
			if v.num != nil && v.b == nil {
				fmt.Fprintf(&sb, "num%p", v.num)
				return
			}
			for _, t := range v.b {
				if t.isConst() {
					fmt.Fprintf(&sb, "%d,", t.val)
				} else {
					fmt.Fprintf(&sb, "%p,", t)
				}
			}
		}
	}
	var walk func(j *jval)
	walk = func(j *jval) {
		sb.WriteByte(j.k)
		if j.b != nil {
			if j.b.isConst() {
				fmt.Fprintf(&sb, "%d", j.b.val)
			} else {
				fmt.Fprintf(&sb, "%p", j.b)
			}
		}
		if j.s != nil {
			str(j.s)
		}
		for i, x := range j.arr {
			if j.keys != nil {
				str(j.keys[i])
			}
			walk(x)
			sb.WriteByte(';')
		}
	}
	walk(j)
	key := kind + sb.String()
	docs, _ := m.state["opaque"].(map[string]int)
	trees, _ := m.state["opaqueTrees"].([]*jval)
	if docs == nil {
		docs = map[string]int{}
		m.state["opaque"] = docs
	}
	n, ok := docs[key]
	if !ok {
		n = len(trees)
		docs[key] = n
		m.state["opaqueTrees"] = append(trees, j)
	}
	return fmt.Sprintf("\x01%s document %d\x02\n", kind, n)
}

func (m *Machine) opaqueTree(kind string, b []*Term) (*jval, bool) {
	s, ok := mkStr(b).(string)
	if !ok {
		return nil, false
	}
	s = strings.TrimSpace(s)
	var n int
	if _, err := fmt.Sscanf(s, "\x01"+kind+" document %d\x02", &n); err != nil {
		return nil, false
	}
	if s != fmt.Sprintf("\x01%s document %d\x02", kind, n) {
		return nil, false
	}
	return m.state["opaqueTrees"].([]*jval)[n], true
}

type jsonStream struct {
	w              Iface
	prefix, indent string
	noHTML         bool
	r              Iface
	buf            []*Term
	read           bool
}

func (m *Machine) readAll(r Iface) []*Term {
	f := m.w.Pkgs["io"].Func("ReadAll")
	t := m.call(nil, f, []any{r}).(Tuple)
	if e := t[1].(Iface); e.t != nil {
		panic(codecErr{e})
	}
	return m.toBytes(t[0])
}

func init() {
	nilBytes := SliceV(nil)
	def("encoding/json.Marshal", func(m *Machine, a []any) any {
		var out byteBuf
		j, err := m.tree(a[0], false)
		if err.t != nil {
			return Tuple{nilBytes, err}
		}
		m.jsonText(&out, j, "", "", false, 0, true)
		return Tuple{bytesVal(out.b), Iface{}}
	})
	def("encoding/json.MarshalIndent", func(m *Machine, a []any) any {
		var out byteBuf
		j, err := m.tree(a[0], false)
		if err.t != nil {
			return Tuple{nilBytes, err}
		}
		m.jsonText(&out, j, m.cstr(a[1]), m.cstr(a[2]), true, 0, true)
		return Tuple{bytesVal(out.b), Iface{}}
	})
	def("encoding/json.Unmarshal", func(m *Machine, a []any) any {
		d := &jsonDec{m: m, b: m.toBytes(a[0])}
		j, ok := d.document()
		if !ok {
			return m.mkError("invalid JSON document")
		}
		return m.into(j, a[1].(Iface), false)
	})
	def("encoding/json.Valid", func(m *Machine, a []any) any {
		_, ok := (&jsonDec{m: m, b: m.toBytes(a[0])}).document()
		return bconst(ok)
	})
	ptr := func(v any) *any { x := any(Native{v}); return &x }
	str := func(m *Machine, v any) *jsonStream { return (*v.(*any)).(Native).v.(*jsonStream) }
	def("encoding/json.NewEncoder", func(m *Machine, a []any) any { return ptr(&jsonStream{w: a[0].(Iface)}) })
	def("(*encoding/json.Encoder).SetIndent", func(m *Machine, a []any) any {
		s := str(m, a[0])
		s.prefix, s.indent = m.cstr(a[1]), m.cstr(a[2])
		return nil
	})
	def("(*encoding/json.Encoder).SetEscapeHTML", func(m *Machine, a []any) any {
		str(m, a[0]).noHTML = !m.branch(a[1].(*Term))
		return nil
	})
	def("(*encoding/json.Encoder).Encode", func(m *Machine, a []any) any {
		s := str(m, a[0])
		var out byteBuf
		j, err := m.tree(a[1], false)
		if err.t != nil {
			return err
		}
		m.jsonText(&out, j, s.prefix, s.indent, s.prefix+s.indent != "", 0, !s.noHTML)
		out.str("\n")
		return m.write(s.w, mkStr(out.b)).(Tuple)[1]
	})
	def("encoding/json.NewDecoder", func(m *Machine, a []any) any { return ptr(&jsonStream{r: a[0].(Iface)}) })
	def("(*encoding/json.Decoder).Decode", func(m *Machine, a []any) any {
		s := str(m, a[0])
		var err Iface
		if !s.read {
			err = m.catchCodec(func() { s.buf = m.readAll(s.r) })
			s.read = true
		}
		if err.t != nil {
			return err
		}
		d := &jsonDec{m: m, b: s.buf}
		d.ws()
		if d.i == len(d.b) {
			return m.ioEOF()
		}
		j, ok := d.value()
		if !ok {
			return m.mkError("invalid JSON document")
		}
		s.buf = d.b[d.i:]
		return m.into(j, a[1].(Iface), false)
	})
	def("gopkg.in/yaml.v3.Marshal", func(m *Machine, a []any) any {
		j, err := m.tree(a[0], true)
		if err.t != nil {
			return Tuple{nilBytes, err}
		}
		return Tuple{bytesVal(m.strBytes(m.opaque("yaml", j))), Iface{}}
	})
	def("gopkg.in/yaml.v3.Unmarshal", func(m *Machine, a []any) any {
		j, ok := m.opaqueTree("yaml", m.toBytes(a[0]))
		if !ok {
			panic(unsupported("YAML text that is not one encoded document"))
		}
		return m.into(j, a[1].(Iface), true)
	})
	def("gopkg.in/yaml.v3.NewEncoder", func(m *Machine, a []any) any { return ptr(&jsonStream{w: a[0].(Iface)}) })
	def("(*gopkg.in/yaml.v3.Encoder).SetIndent", func(m *Machine, a []any) any { return nil })
	def("(*gopkg.in/yaml.v3.Encoder).Close", func(m *Machine, a []any) any { return Iface{} })
	def("(*gopkg.in/yaml.v3.Encoder).Encode", func(m *Machine, a []any) any {
		j, err := m.tree(a[1], true)
		if err.t != nil {
			return err
		}
		return m.write(str(m, a[0]).w, m.opaque("yaml", j)).(Tuple)[1]
	})
	_ = sort.Strings
	var _ *ssa.Function
}

// embedded fills the variables of a package that carry a go:embed directive.
func (m *Machine) embedded(p *ssa.Package) {
	imports := false
	for _, i := range p.Pkg.Imports() {
		imports = imports || i.Path() == "embed"
	}
	if !imports {
		return
	}
	for _, mem := range p.Members {
		g, ok := mem.(*ssa.Global)
		if !ok || !g.Pos().IsValid() {
			continue
		}
		pos := m.w.Fset.Position(g.Pos())
		src, ok := m.w.Overlay[pos.Filename]
		if !ok {
			b, err := os.ReadFile(pos.Filename)
			if err != nil {
				continue
			}
			src = b
		}
		lines := strings.Split(string(src), "\n")
		for i := pos.Line - 2; i >= 0 && strings.HasPrefix(strings.TrimSpace(lines[i]), "//"); i-- {
			name, ok := strings.CutPrefix(strings.TrimSpace(lines[i]), "//go:embed ")
			if !ok {
				continue
			}
			b, err := os.ReadFile(filepath.Join(filepath.Dir(pos.Filename), strings.Trim(strings.TrimSpace(name), "\"`")))
			if err != nil {
				panic(unsupported("embedded file " + name))
			}
			if bt, ok := deref(g.Type()).Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
				var v any = string(b)
				m.globals[g] = &v
			}
		}
	}
}

func init() {
	def("github.com/google/uuid.NewMD5", func(m *Machine, a []any) any {
		var in []byte
		for _, e := range append(append([]any{}, a[0].(Array)...), bytesAny(m.toBytes(a[1]))...) {
			in = append(in, byte(m.concretize(e.(*Term))))
		}
		h := md5.Sum(in)
		h[6] = h[6]&0x0f | 3<<4
		h[8] = h[8]&0x3f | 0x80
		r := make(Array, 16)
		for i := range r {
			r[i] = iconst(8, uint64(h[i]))
		}
		return r
	})
}

func bytesAny(b []*Term) []any {
	r := make([]any, len(b))
	for i := range b {
		r[i] = b[i]
	}
	return r
}

// hasAny reports whether a type has a method of the given name.
func hasAny(t types.Type, name string) bool {
	if nt, ok := t.(*nativeType); ok {
		return nt.has(name)
	}
	methMu.Lock()
	defer methMu.Unlock()
	return types.NewMethodSet(t).Lookup(nil, name) != nil
}

func init() {
	intrinsics["reflect.TypeFor"] = func(m *Machine, fr *frame, fn *ssa.Function, args []any) (any, bool) {
		return m.reflectType(fn.TypeArgs()[0]), true
	}
	once := func(m *Machine, a []any) any {
		var r any
		done := false
		return &NativeFn{name: "once", f: func(m *Machine, _ []any) any {
			if !done {
				r = m.call(nil, a[0], nil)
				done = true
			}
			return r
		}}
	}
	def("sync.OnceFunc", once)
	def("sync.OnceValue", once)
	def("sync.OnceValues", once)
}

func init() {
	def("unicode/utf8.DecodeRune", func(m *Machine, a []any) any {
		b := a[0].(SliceV)
		if len(b) == 0 {
			return Tuple{iconst(32, utf8.RuneError), ci(0)}
		}
		r, n := m.decodeRune(m.toBytes(b[:min(len(b), 4)]))
		return Tuple{r, ci(n)}
	})
}

func init() {
	def("html.EscapeString", func(m *Machine, a []any) any {
		if s, ok := a[0].(string); ok {
			return html.EscapeString(s)
		}
		var out byteBuf
		for _, t := range m.strBytes(a[0]) {
			if !t.isConst() && !m.branch(m.oneOf(t, "&<>\"'")) {
				out.b = append(out.b, t)
				continue
			}
			out.str(html.EscapeString(string([]byte{byte(m.concretize(t))})))
		}
		return mkStr(out.b)
	})
}
