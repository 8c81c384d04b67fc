package sut

import (
	"fmt"
	"regexp"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/webrpc/webrpc/schema"
)

var validName = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9_]*$`)

func upper(s string) bool {
	r, _ := utf8.DecodeRuneInString(s)
	return unicode.IsUpper(r)
}

// Valid checks that an accepted schema follows every documented rule.
func Valid(s *schema.WebRPCSchema) error {
	if s.WebrpcVersion != "v1" {
		return fmt.Errorf("webrpc version %q", s.WebrpcVersion)
	}
	if len(s.Services) > 0 && s.SchemaVersion == "" {
		return fmt.Errorf("services without a version")
	}
	if b := s.BasePath; b != "" {
		if !strings.HasPrefix(b, "/") || !strings.HasSuffix(b, "/") || strings.ContainsAny(b, " \t\r\n?#") || strings.Contains(b, "://") {
			return fmt.Errorf("basepath %q", b)
		}
	}
	types := map[string]*schema.Type{}
	lower := map[string]bool{}
	for _, t := range s.Types {
		if t == nil {
			return fmt.Errorf("nil type")
		}
		if !upper(t.Name) {
			return fmt.Errorf("type name %q", t.Name)
		}
		if lower[strings.ToLower(t.Name)] {
			return fmt.Errorf("type %q twice", t.Name)
		}
		lower[strings.ToLower(t.Name)] = true
		types[t.Name] = t
	}

	resolve := func(t *schema.Type) *schema.Type {
		for range s.Types {
			if t == nil || t.Kind != "alias" {
				return t
			}
			t = types[t.Type.String()]
		}
		return nil
	}
	isInt := func(name string) bool {
		return strings.HasPrefix(strings.TrimPrefix(name, "u"), "int") && name != "integer"
	}
	var vt func(t *schema.VarType) error
	vt = func(t *schema.VarType) error {
		if t == nil {
			return fmt.Errorf("type is missing")
		}
		expr := t.String()
		set := 0
		for _, b := range []bool{t.List != nil, t.Map != nil, t.Struct != nil, t.Enum != nil, t.Alias != nil} {
			if b {
				set++
			}
		}
		if set > 1 {
			return fmt.Errorf("%q is of several kinds", expr)
		}
		named := func(kind string, x *schema.Type) error {
			if x == nil || x != types[expr] || x.Kind != kind {
				return fmt.Errorf("%q does not point at the %s of that name", expr, kind)
			}
			return nil
		}
		switch {
		case t.List != nil:
			if t.Type != schema.T_List || expr != "[]"+t.List.Elem.String() {
				return fmt.Errorf("list %q of %q", expr, t.List.Elem)
			}
			return vt(t.List.Elem)
		case t.Map != nil:
			k := t.Map.Key
			if t.Type != schema.T_Map || expr != "map<"+k.String()+","+t.Map.Value.String()+">" {
				return fmt.Errorf("map %q of %q, %q", expr, k, t.Map.Value)
			}
			if d := types[k.String()]; d != nil {
				if e := resolve(d); e == nil || e.Kind != "enum" {
					return fmt.Errorf("map key %q", k)
				}
			} else if k.String() != "string" && !isInt(k.String()) {
				return fmt.Errorf("map key %q", k)
			}
			return vt(t.Map.Value)
		case t.Struct != nil:
			return named("struct", t.Struct.Type)
		case t.Enum != nil:
			return named("enum", t.Enum.Type)
		case t.Alias != nil:
			return named("alias", t.Alias.Type)
		}
		if t.Type == schema.T_Unknown || t.Type.String() != expr || t.Type == schema.T_List || t.Type == schema.T_Map {
			return fmt.Errorf("%q is not a core type", expr)
		}
		return nil
	}

	for _, t := range s.Types {
		switch t.Kind {
		case "alias":
			if err := vt(t.Type); err != nil {
				return fmt.Errorf("alias %s: %w", t.Name, err)
			}
			next := t
			for range s.Types {
				next = types[next.Type.String()]
				if next == t {
					return fmt.Errorf("alias %s refers to itself", t.Name)
				}
				if next == nil || next.Kind != "alias" {
					break
				}
			}
			continue
		case "enum":
			if e := t.Type.String(); e != "string" && !isInt(e) {
				return fmt.Errorf("enum %s of %q", t.Name, e)
			}
			if err := vt(t.Type); err != nil {
				return fmt.Errorf("enum %s: %w", t.Name, err)
			}
		case "struct":
		default:
			return fmt.Errorf("type %s is a %q", t.Name, t.Kind)
		}
		names, jsonNames := map[string]bool{}, map[string]bool{}
		for _, f := range t.Fields {
			if !validName.MatchString(f.Name) || names[strings.ToLower(f.Name)] {
				return fmt.Errorf("field %q in %s", f.Name, t.Name)
			}
			names[strings.ToLower(f.Name)] = true
			jsonName := f.Name
			for _, meta := range f.Meta {
				if v, ok := meta["json"]; ok && v != "-" {
					jsonName, _ = v.(string)
				}
			}
			if !validName.MatchString(jsonName) || jsonNames[strings.ToLower(jsonName)] {
				return fmt.Errorf("JSON name %q in %s", jsonName, t.Name)
			}
			jsonNames[strings.ToLower(jsonName)] = true
			if t.Kind == "enum" {
				if f.Value == "" || f.Type != nil {
					return fmt.Errorf("enum member %s.%s: value %q, type %v", t.Name, f.Name, f.Value, f.Type)
				}
				continue
			}
			if err := vt(f.Type); err != nil {
				return fmt.Errorf("field %s.%s: %w", t.Name, f.Name, err)
			}
			if f.Value != "" {
				return fmt.Errorf("field %s.%s has a value", t.Name, f.Name)
			}
		}
	}

	errs := map[string]bool{}
	codes := map[int]bool{}
	lower = map[string]bool{}
	for _, e := range s.Errors {
		if e.Code <= 0 || codes[e.Code] || e.HTTPStatus < 400 || e.HTTPStatus > 599 || e.Message == "" || !upper(e.Name) ||
			lower[strings.ToLower(e.Name)] || strings.HasPrefix(strings.ToLower(e.Name), "webrpc") {
			return fmt.Errorf("error %+v", *e)
		}
		codes[e.Code], errs[e.Name], lower[strings.ToLower(e.Name)] = true, true, true
	}

	lower = map[string]bool{}
	for _, svc := range s.Services {
		if svc.Name == "" || lower[strings.ToLower(svc.Name)] || len(svc.Methods) == 0 {
			return fmt.Errorf("service %q with %d methods", svc.Name, len(svc.Methods))
		}
		lower[strings.ToLower(svc.Name)] = true
		methods := map[string]bool{}
		for _, m := range svc.Methods {
			if m.Name == "" || methods[strings.ToLower(m.Name)] {
				return fmt.Errorf("method %q in %s", m.Name, svc.Name)
			}
			methods[strings.ToLower(m.Name)] = true
			for _, args := range [][]*schema.MethodArgument{m.Inputs, m.Outputs} {
				names := map[string]bool{}
				for _, a := range args {
					if a.Name == "" || names[a.Name] {
						return fmt.Errorf("argument %q of %s.%s", a.Name, svc.Name, m.Name)
					}
					names[a.Name] = true
					if err := vt(a.Type); err != nil {
						return fmt.Errorf("argument %s of %s.%s: %w", a.Name, svc.Name, m.Name, err)
					}
				}
				if m.Succinct && (len(args) != 1 || args[0].Type.Struct == nil) {
					return fmt.Errorf("succinct method %s.%s", svc.Name, m.Name)
				}
			}
			for _, e := range m.Errors {
				if !errs[e] {
					return fmt.Errorf("unknown error %q of %s.%s", e, svc.Name, m.Name)
				}
			}
		}
	}
	return nil
}
