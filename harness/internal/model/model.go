// Package model holds an independent description of webrpc schemas: what a
// document says, before it is written as RIDL or JSON and given to webrpc.
package model

import (
	"bytes"
	"encoding/json"
	"strings"
)

// VT is the type of a field, argument or alias.
type VT struct {
	Core string // a core type
	Elem *VT    // list
	Key  *VT    // map
	Val  *VT
	Ref  string // declared type
}

func (t *VT) String() string {
	switch {
	case t == nil:
		return "<nil>"
	case t.Elem != nil:
		return "[]" + t.Elem.String()
	case t.Val != nil:
		return "map<" + t.Key.String() + "," + t.Val.String() + ">"
	case t.Ref != "":
		return t.Ref
	}
	return t.Core
}

// Clone returns a copy which shares nothing with t.
func (t *VT) Clone() *VT {
	if t == nil {
		return nil
	}
	return &VT{Core: t.Core, Ref: t.Ref, Elem: t.Elem.Clone(), Key: t.Key.Clone(), Val: t.Val.Clone()}
}

// Refs calls f for every declared type t mentions.
func (t *VT) Refs(f func(name string)) {
	if t == nil {
		return
	}
	if t.Ref != "" {
		f(t.Ref)
	}
	t.Elem.Refs(f)
	t.Key.Refs(f)
	t.Val.Refs(f)
}

type KV struct{ K, V string }

type Field struct {
	Name     string
	Type     *VT // nil for enum members
	Optional bool
	Value    string // enum members
	Explicit bool   // the value is written
	Meta     []KV
	Comments []string
}

type Type struct {
	Kind     string // alias, enum, struct
	Name     string
	Type     *VT // alias, enum
	Fields   []*Field
	Meta     []KV // alias
	Comments []string
}

type Error struct {
	Code     int
	Name     string
	Message  string
	Status   int
	Explicit bool // the status is written
}

type Arg struct {
	Name     string
	Type     *VT
	Optional bool
}

type Annotation struct {
	Name     string
	Value    string
	HasValue bool
}

type Method struct {
	Name        string
	Annotations []Annotation
	StreamIn    bool
	StreamOut   bool
	Succinct    bool
	In, Out     []*Arg
	Errors      []string
	Comments    []string
	RawSig      string // written instead of the arguments
}

type Service struct {
	Name     string
	Methods  []*Method
	Comments []string
}

// Schema is what a document means. Types are in schema order: aliases, enums,
// structs, unless imports come first.
type Schema struct {
	Name, Version string
	BasePath      string // as written
	Types         []*Type
	Errors        []*Error
	Services      []*Service
}

func (s *Schema) Type(name string) *Type {
	for _, t := range s.Types {
		if t.Name == name {
			return t
		}
	}
	return nil
}

// NormalBasePath is the basepath as webrpc gives it.
func (s *Schema) NormalBasePath() string {
	b := s.BasePath
	if b == "" {
		return ""
	}
	if !strings.HasPrefix(b, "/") {
		b = "/" + b
	}
	if !strings.HasSuffix(b, "/") {
		b += "/"
	}
	return b
}

// The JSON form, in the documented order of keys.
type jsonSchema struct {
	Webrpc   string         `json:"webrpc"`
	Name     string         `json:"name"`
	Version  string         `json:"version"`
	BasePath string         `json:"basepath"`
	Types    []*jsonType    `json:"types"`
	Errors   []*jsonError   `json:"errors"`
	Services []*jsonService `json:"services"`
}

type jsonType struct {
	Kind     string              `json:"kind"`
	Name     string              `json:"name"`
	Type     string              `json:"type,omitempty"`
	Fields   []*jsonField        `json:"fields,omitempty"`
	Meta     []map[string]string `json:"meta,omitempty"`
	Comments []string            `json:"comments,omitempty"`
}

type jsonField struct {
	Comments []string            `json:"comments,omitempty"`
	Name     string              `json:"name"`
	Type     string              `json:"type,omitempty"`
	Optional bool                `json:"optional,omitempty"`
	Value    string              `json:"value,omitempty"`
	Meta     []map[string]string `json:"meta,omitempty"`
}

type jsonError struct {
	Code       int    `json:"code"`
	Name       string `json:"name"`
	Message    string `json:"message"`
	HTTPStatus int    `json:"httpStatus"`
}

type jsonService struct {
	Name     string        `json:"name"`
	Methods  []*jsonMethod `json:"methods"`
	Comments []string      `json:"comments"`
}

type jsonMethod struct {
	Name         string                    `json:"name"`
	Annotations  map[string]jsonAnnotation `json:"annotations"`
	Comments     []string                  `json:"comments"`
	Succinct     bool                      `json:"succinct,omitempty"`
	StreamInput  bool                      `json:"streamInput,omitempty"`
	StreamOutput bool                      `json:"streamOutput,omitempty"`
	Inputs       []*jsonArg                `json:"inputs"`
	Outputs      []*jsonArg                `json:"outputs"`
	Errors       []string                  `json:"errors,omitempty"`
}

type jsonAnnotation struct {
	AnnotationType string `json:"annotationType"`
	Value          string `json:"value"`
}

type jsonArg struct {
	Name     string `json:"name"`
	Type     string `json:"type"`
	Optional bool   `json:"optional"`
}

func jsonMeta(meta []KV) (out []map[string]string) {
	for _, kv := range meta {
		out = append(out, map[string]string{kv.K: kv.V})
	}
	return out
}

func nonNil(s []string) []string { return append([]string{}, s...) }

func typeString(t *VT) string {
	if t == nil {
		return ""
	}
	return t.String()
}

func jsonArgs(args []*Arg) []*jsonArg {
	out := []*jsonArg{}
	for _, a := range args {
		out = append(out, &jsonArg{a.Name, typeString(a.Type), a.Optional})
	}
	return out
}

// JSON returns the JSON form which webrpc is to give for the schema.
func (s *Schema) JSON() string { return s.json(s.NormalBasePath()) }

// JSONRaw is the same with the basepath as written.
func (s *Schema) JSONRaw() string { return s.json(s.BasePath) }

func (s *Schema) json(basePath string) string {
	j := &jsonSchema{
		Webrpc: "v1", Name: s.Name, Version: s.Version, BasePath: basePath,
		Types: []*jsonType{}, Errors: []*jsonError{}, Services: []*jsonService{},
	}
	for _, t := range s.Types {
		jt := &jsonType{Kind: t.Kind, Name: t.Name, Comments: t.Comments, Type: typeString(t.Type), Meta: jsonMeta(t.Meta)}
		for _, f := range t.Fields {
			jt.Fields = append(jt.Fields, &jsonField{
				Comments: f.Comments, Name: f.Name, Type: typeString(f.Type), Optional: f.Optional, Value: f.Value, Meta: jsonMeta(f.Meta),
			})
		}
		j.Types = append(j.Types, jt)
	}
	for _, e := range s.Errors {
		j.Errors = append(j.Errors, &jsonError{e.Code, e.Name, e.Message, e.Status})
	}
	for _, svc := range s.Services {
		js := &jsonService{Name: svc.Name, Methods: []*jsonMethod{}, Comments: nonNil(svc.Comments)}
		for _, m := range svc.Methods {
			jm := &jsonMethod{
				Name: m.Name, Annotations: map[string]jsonAnnotation{}, Comments: nonNil(m.Comments), Succinct: m.Succinct,
				StreamInput: m.StreamIn, StreamOutput: m.StreamOut, Inputs: jsonArgs(m.In), Outputs: jsonArgs(m.Out), Errors: m.Errors,
			}
			for _, a := range m.Annotations {
				jm.Annotations[a.Name] = jsonAnnotation{a.Name, a.Value}
			}
			js.Methods = append(js.Methods, jm)
		}
		j.Services = append(j.Services, js)
	}
	return encode(j)
}

func encode(v any) string {
	var b bytes.Buffer
	enc := json.NewEncoder(&b)
	enc.SetEscapeHTML(false)
	enc.SetIndent("", " ")
	if err := enc.Encode(v); err != nil {
		panic(err)
	}
	return b.String()
}

// Clone returns a copy which shares nothing with s.
func (s *Schema) Clone() *Schema {
	c := *s
	c.Types, c.Errors, c.Services = nil, nil, nil
	for _, t := range s.Types {
		c.Types = append(c.Types, t.Clone())
	}
	for _, e := range s.Errors {
		e := *e
		c.Errors = append(c.Errors, &e)
	}
	for _, svc := range s.Services {
		c.Services = append(c.Services, svc.Clone())
	}
	return &c
}

func (t *Type) Clone() *Type {
	n := *t
	n.Type = t.Type.Clone()
	n.Fields = nil
	n.Meta = append([]KV(nil), t.Meta...)
	n.Comments = append([]string(nil), t.Comments...)
	for _, f := range t.Fields {
		g := *f
		g.Type = f.Type.Clone()
		g.Meta = append([]KV(nil), f.Meta...)
		g.Comments = append([]string(nil), f.Comments...)
		n.Fields = append(n.Fields, &g)
	}
	return &n
}

func (svc *Service) Clone() *Service {
	n := *svc
	n.Methods = nil
	n.Comments = append([]string(nil), svc.Comments...)
	for _, m := range svc.Methods {
		k := *m
		k.Annotations = append([]Annotation(nil), m.Annotations...)
		k.Errors = append([]string(nil), m.Errors...)
		k.Comments = append([]string(nil), m.Comments...)
		k.In, k.Out = nil, nil
		for _, a := range m.In {
			k.In = append(k.In, &Arg{a.Name, a.Type.Clone(), a.Optional})
		}
		for _, a := range m.Out {
			k.Out = append(k.Out, &Arg{a.Name, a.Type.Clone(), a.Optional})
		}
		n.Methods = append(n.Methods, &k)
	}
	return &n
}

// Resolve follows aliases.
func (s *Schema) Resolve(t *VT) *VT {
	for i := 0; t != nil && t.Ref != "" && i <= len(s.Types); i++ {
		d := s.Type(t.Ref)
		if d == nil || d.Kind != "alias" {
			return t
		}
		t = d.Type
	}
	return t
}

var CoreTypes = []string{
	"null", "any", "byte", "bool", "uint", "uint8", "uint16", "uint32", "uint64", "int", "int8", "int16", "int32", "int64",
	"bigint", "float32", "float64", "string", "timestamp",
}

var IntTypes = []string{"uint", "uint8", "uint16", "uint32", "uint64", "int", "int8", "int16", "int32", "int64"}

// Expanded counts, up to a limit, the values shown if every reference to a
// struct, enum or alias is followed, except back to one it is shown within.
func (s *Schema) Expanded(limit int) int {
	types := map[string]*Type{}
	for _, t := range s.Types {
		types[t.Name] = t
	}
	n := 0
	within := map[*Type]bool{}
	var vt func(t *VT)
	decl := func(d *Type) {
		if d == nil || within[d] || n > limit {
			return
		}
		within[d] = true
		n += 1 + len(d.Comments)
		vt(d.Type)
		for _, f := range d.Fields {
			n++
			vt(f.Type)
		}
		delete(within, d)
	}
	vt = func(t *VT) {
		if t == nil || n > limit {
			return
		}
		n++
		if t.Ref != "" {
			decl(types[t.Ref])
		}
		vt(t.Elem)
		vt(t.Key)
		vt(t.Val)
	}
	for _, t := range s.Types {
		decl(t)
	}
	for _, svc := range s.Services {
		for _, m := range svc.Methods {
			for _, args := range [][]*Arg{m.In, m.Out} {
				for _, a := range args {
					n++
					vt(a.Type)
				}
			}
		}
	}
	return n
}
