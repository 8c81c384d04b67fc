// Package sut drives the schema packages under test and compares what they
// return with the model.
package sut

import (
	"fmt"
	"testing/fstest"

	"github.com/webrpc/webrpc/schema"
	"github.com/webrpc/webrpc/schema/ridl"

	"verif/harness/internal/model"
	"verif/harness/internal/vh"
)

// Parse reads a document and what it imports.
func Parse(files map[string]string, main string) (*schema.WebRPCSchema, error) {
	fsys := fstest.MapFS{}
	for name, text := range files {
		fsys[name] = &fstest.MapFile{Data: []byte(text)}
	}
	return ridl.NewParser(fsys, "/", main).Parse()
}

// Parse1 reads a single document.
func Parse1(text string) (*schema.WebRPCSchema, error) {
	return Parse(map[string]string{"main.ridl": text}, "main.ridl")
}

// JSON is the JSON form of s.
func JSON(s *schema.WebRPCSchema) string {
	j, err := s.ToJSON()
	if err != nil {
		return "ToJSON: " + err.Error()
	}
	return j
}

// Accepted parses a document which must be accepted and mean s.
func Accepted(c *vh.Case, text string, s *model.Schema) *schema.WebRPCSchema {
	c.Attach("main.ridl", text)
	got, err := Parse1(text)
	if err != nil {
		c.Failf("rejected", "well-formed document is rejected: %v", err)
		return nil
	}
	if got == nil {
		c.Failf("nothing", "neither schema nor error")
		return nil
	}
	if want, j := s.JSON(), JSON(got); want != j {
		c.Failf("meaning", "the schema is not what the document says: %s", vh.Diff(want, j))
		return nil
	}
	return got
}

// AcceptedJSON is the same for the JSON form.
func AcceptedJSON(c *vh.Case, text string, s *model.Schema) *schema.WebRPCSchema {
	c.Attach("main.json", text)
	got, err := schema.ParseSchemaJSON([]byte(text))
	if err != nil {
		c.Failf("json-rejected", "valid JSON schema is rejected: %v", err)
		return nil
	}
	if want, j := s.JSON(), JSON(got); want != j {
		c.Failf("json-meaning", "the schema is not what the JSON says: %s", vh.Diff(want, j))
		return nil
	}
	return got
}

// Huge tells the few cases with schemas of hundreds of definitions.
func Huge(c *vh.Case) bool {
	if c.Index%700 != 699 {
		return false
	}
	c.Count("huge schemas", 1)
	return true
}

// Sizes picks how large a schema is.
func Sizes(c *vh.Case) model.Options {
	if Huge(c) {
		return model.Options{Types: 20 + c.R.IntN(300), Errors: c.R.IntN(300), Services: c.R.IntN(20), Huge: true}
	}
	switch c.R.IntN(10) {
	case 0:
		return model.Options{Types: 40, Errors: 20, Services: 6}
	case 1, 2, 3:
		return model.Options{Types: 3, Errors: 2, Services: 1}
	}
	return model.Options{Types: 10, Errors: 5, Services: 3}
}

// CountSchema counts what a schema consists of.
func CountSchema(c *vh.Case, s *model.Schema) {
	for _, t := range s.Types {
		c.Count(t.Kind, 1)
		c.Count(t.Kind+" fields", len(t.Fields))
	}
	c.Count("errors", len(s.Errors))
	for _, svc := range s.Services {
		c.Count("services", 1)
		c.Count("methods", len(svc.Methods))
	}
}

// CheckVT compares a resolved type with the model, down to the declared types
// it must point at. It returns the number of nodes it has seen.
func CheckVT(s *schema.WebRPCSchema, m *model.Schema, got *schema.VarType, want *model.VT) (int, error) {
	if got == nil {
		return 0, fmt.Errorf("%s is not resolved", want)
	}
	if got.String() != want.String() {
		return 0, fmt.Errorf("%s is printed as %q", want, got.String())
	}
	declared := func(name string, t *schema.Type) error {
		if t == nil {
			return fmt.Errorf("%s does not point at a type", want)
		}
		if t.Name != want.Ref || name != want.Ref {
			return fmt.Errorf("%s points at %s (%s)", want, t.Name, name)
		}
		for _, x := range s.Types {
			if x == t {
				return nil
			}
		}
		return fmt.Errorf("%s points at a type which is not in the schema", want)
	}
	set := 0
	for _, b := range []bool{got.List != nil, got.Map != nil, got.Struct != nil, got.Enum != nil, got.Alias != nil} {
		if b {
			set++
		}
	}
	switch {
	case want.Elem != nil:
		if got.Type != schema.T_List || got.List == nil || set != 1 {
			return 0, fmt.Errorf("%s is not resolved as a list: %v", want, got.Type)
		}
		n, err := CheckVT(s, m, got.List.Elem, want.Elem)
		return n + 1, err
	case want.Val != nil:
		if got.Type != schema.T_Map || got.Map == nil || set != 1 {
			return 0, fmt.Errorf("%s is not resolved as a map: %v", want, got.Type)
		}
		n, err := checkKey(s, m, got.Map.Key, want.Key)
		if err != nil {
			return n, fmt.Errorf("%w in %s", err, want)
		}
		n2, err := CheckVT(s, m, got.Map.Value, want.Val)
		return n + n2 + 1, err
	case want.Ref != "":
		if set != 1 {
			return 0, fmt.Errorf("%s is resolved as %d things", want, set)
		}
		d := m.Type(want.Ref)
		if d == nil {
			return 0, fmt.Errorf("%s is not declared", want)
		}
		switch d.Kind {
		case "struct":
			if got.Type != schema.T_Struct || got.Struct == nil {
				return 0, fmt.Errorf("%s is not resolved as a struct: %v", want, got.Type)
			}
			return 1, declared(got.Struct.Name, got.Struct.Type)
		case "enum":
			if got.Type != schema.T_Enum || got.Enum == nil {
				return 0, fmt.Errorf("%s is not resolved as an enum: %v", want, got.Type)
			}
			return 1, declared(got.Enum.Name, got.Enum.Type)
		}
		if got.Type != schema.T_Alias || got.Alias == nil {
			return 0, fmt.Errorf("%s is not resolved as an alias: %v", want, got.Type)
		}
		return 1, declared(got.Alias.Name, got.Alias.Type)
	}
	if got.Type.String() != want.Core || set != 0 {
		return 0, fmt.Errorf("%s is resolved as %q", want, got.Type)
	}
	return 1, nil
}

// Keys which are declared types may be resolved as enums or as aliases.
func checkKey(s *schema.WebRPCSchema, m *model.Schema, got *schema.VarType, want *model.VT) (int, error) {
	if want.Ref == "" {
		return CheckVT(s, m, got, want)
	}
	if got == nil || got.String() != want.Ref {
		return 0, fmt.Errorf("key %s is printed as %q", want, got)
	}
	var t *schema.Type
	switch {
	case got.Enum != nil && got.Alias == nil:
		t = got.Enum.Type
	case got.Alias != nil && got.Enum == nil:
		t = got.Alias.Type
	}
	if t == nil || t.Name != want.Ref {
		return 0, fmt.Errorf("key %s does not point at its type", want)
	}
	for _, x := range s.Types {
		if x == t {
			return 1, nil
		}
	}
	return 0, fmt.Errorf("key %s points at a type which is not in the schema", want)
}

// CheckResolved compares every type reference of a schema with the model.
func CheckResolved(s *schema.WebRPCSchema, m *model.Schema) (int, error) {
	n := 0
	check := func(where string, got *schema.VarType, want *model.VT) error {
		k, err := CheckVT(s, m, got, want)
		n += k
		if err != nil {
			return fmt.Errorf("%s: %w", where, err)
		}
		return nil
	}
	if len(s.Types) != len(m.Types) || len(s.Services) != len(m.Services) {
		return 0, fmt.Errorf("%d types, %d services instead of %d, %d", len(s.Types), len(s.Services), len(m.Types), len(m.Services))
	}
	for i, want := range m.Types {
		got := s.Types[i]
		if got.Name != want.Name || len(got.Fields) != len(want.Fields) {
			return n, fmt.Errorf("%s with %d fields instead of %s with %d", got.Name, len(got.Fields), want.Name, len(want.Fields))
		}
		if want.Kind != "struct" {
			if err := check(want.Name, got.Type, want.Type); err != nil {
				return n, err
			}
		}
		if want.Kind == "struct" {
			for j, f := range want.Fields {
				if err := check(want.Name+"."+f.Name, got.Fields[j].Type, f.Type); err != nil {
					return n, err
				}
			}
		}
	}
	for i, want := range m.Services {
		if len(s.Services[i].Methods) != len(want.Methods) {
			return n, fmt.Errorf("%s: %d methods", want.Name, len(s.Services[i].Methods))
		}
		for j, wm := range want.Methods {
			gm := s.Services[i].Methods[j]
			if len(gm.Inputs) != len(wm.In) || len(gm.Outputs) != len(wm.Out) {
				return n, fmt.Errorf("%s.%s: %d inputs, %d outputs", want.Name, wm.Name, len(gm.Inputs), len(gm.Outputs))
			}
			for k, a := range wm.In {
				if err := check(want.Name+"."+wm.Name+"."+a.Name, gm.Inputs[k].Type, a.Type); err != nil {
					return n, err
				}
			}
			for k, a := range wm.Out {
				if err := check(want.Name+"."+wm.Name+"=>"+a.Name, gm.Outputs[k].Type, a.Type); err != nil {
					return n, err
				}
			}
		}
	}
	return n, nil
}
