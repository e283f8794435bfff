package main

import (
	"go/token"
	"go/types"
)

// The Gemini service is the fake that a harness registers: it sees the API key and the prompt and decides what happens.
const genaiPkg = "github.com/google/generative-ai-go/genai"
const geminiEndpoint = "http://verif-gemini"

type genaiKey string
type genaiEndpoint string

func init() {
	def(symName("Gemini"), func(m *Machine, a []any) any { m.state["gemini"] = a[0]; return geminiEndpoint })
	named := func(m *Machine, n string) types.Type { return m.w.Types[genaiPkg].Scope().Lookup(n).Type() }
	def("context.WithTimeout", func(m *Machine, a []any) any {
		return Tuple{a[0], &NativeFn{name: "cancel", f: func(m *Machine, args []any) any { return nil }}}
	})
	opt := types.NewNamed(types.NewTypeName(token.NoPos, nil, "clientOption", nil), types.NewStruct(nil, nil), nil)
	def("google.golang.org/api/option.WithAPIKey", func(m *Machine, a []any) any { return Iface{t: opt, v: Native{genaiKey(m.cstr(a[0]))}} })
	def("google.golang.org/api/option.WithEndpoint", func(m *Machine, a []any) any {
		return Iface{t: opt, v: Native{genaiEndpoint(m.cstr(a[0]))}}
	})
	def(genaiPkg+".NewClient", func(m *Machine, a []any) any {
		key, endpoint := "", ""
		if opts, ok := a[1].(SliceV); ok {
			for _, o := range opts {
				switch o := o.(Iface).v.(Native).v.(type) {
				case genaiKey:
					key = string(o)
				case genaiEndpoint:
					endpoint = string(o)
				}
			}
		}
		if key == "" {
			return Tuple{(*any)(nil), m.mkError("You need an auth option")}
		}
		if endpoint != geminiEndpoint {
			panic(unsupported("genai without the harness's service"))
		}
		v := zero(named(m, "Client"))
		m.state["gemini key"] = key
		return Tuple{&v, Iface{}}
	})
	def("(*"+genaiPkg+".Client).Close", func(m *Machine, a []any) any { return Iface{} })
	def("(*"+genaiPkg+".Client).GenerativeModel", func(m *Machine, a []any) any {
		v := zero(named(m, "GenerativeModel"))
		return &v
	})
	def("(*"+genaiPkg+".GenerativeModel).GenerateContent", func(m *Machine, a []any) any {
		parts := a[2].(SliceV)
		if len(parts) != 1 {
			panic(unsupported("genai content of several parts"))
		}
		r := m.call(nil, m.state["gemini"], []any{m.state["gemini key"], parts[0].(Iface).v}).(Tuple)
		kind := m.conc(r[0])
		ptr := func(n string, set func(s Struct, t types.Type)) any {
			t := named(m, n)
			v := zero(t)
			set(v.(Struct), t)
			return &v
		}
		if kind == 1 {
			return Tuple{(*any)(nil), m.mkError("googleapi: Error 400: bad")}
		}
		resp := ptr("GenerateContentResponse", func(s Struct, t types.Type) {
			if kind == 2 {
				return
			}
			s[fieldNo(t, "Candidates")] = SliceV{ptr("Candidate", func(s Struct, t types.Type) {
				if kind == 3 {
					return
				}
				s[fieldNo(t, "Content")] = ptr("Content", func(s Struct, t types.Type) {
					if kind != 4 {
						s[fieldNo(t, "Parts")] = SliceV{Iface{t: named(m, "Text"), v: r[1]}}
					}
				})
			})}
		})
		return Tuple{resp, Iface{}}
	})
}
