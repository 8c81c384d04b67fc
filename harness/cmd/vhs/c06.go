package main

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"unicode"

	"github.com/webrpc/webrpc/schema"

	"verif/harness/internal/model"
	"verif/harness/internal/sut"
	"verif/harness/internal/vh"
)

var c06 = &vh.Prop{
	ID: "C06", Quick: 16000, Thorough: 400000,
	Rule:    "random valid schemas, with names that only look like clashes, and with exactly one broken naming rule at a random place, as RIDL (also split over files) and JSON; distinct by document",
	Require: map[string]int{"broken names": 3000, "valid schemas": 2000, "broken across files": 200, "near misses": 1000},
	Run: func(c *vh.Case) {
		if c.Index%3 == 0 {
			c06valid(c)
			return
		}
		c06broken(c)
	},
}

// acceptedBoth checks that a schema is accepted in both forms.
func acceptedBoth(c *vh.Case, s *model.Schema) bool {
	text := model.Render(s, nil, model.RandomStyle(c.R))
	c.Distinct(text)
	return sut.Accepted(c, text, s) != nil && sut.AcceptedJSON(c, s.JSON(), s) != nil
}

// rich makes a schema in which every kind of name occurs.
func rich(c *vh.Case) *model.Schema {
	opts := model.Options{MinTypes: 4, Types: 10, Errors: 4, Services: 3}
	if sut.Huge(c) {
		opts = model.Options{MinTypes: 20, Types: 280, Errors: 280, Services: 7, Huge: true}
	}
	for range 1000 {
		s := model.New(c.R, opts)
		structs, enums := 0, 0
		for _, t := range s.Types {
			switch {
			case t.Kind == "struct" && len(t.Fields) > 1:
				structs++
			case t.Kind == "enum" && len(t.Fields) > 1:
				enums++
			}
		}
		methods, args := 0, 0
		for _, svc := range s.Services {
			methods += len(svc.Methods)
			for _, m := range svc.Methods {
				if !m.Succinct && len(m.In) > 0 && len(m.Out) > 0 {
					args++
				}
			}
		}
		if structs > 0 && enums > 0 && methods > 1 && args > 0 && len(s.Services) > 1 && len(s.Errors) > 1 {
			return s
		}
	}
	panic("no schema")
}

// caseOf changes the case of letters of name.
func caseOf(r *rand.Rand, name string) string {
	switch r.IntN(4) {
	case 0:
		return strings.ToUpper(name)
	case 1:
		return strings.ToLower(name)
	case 2:
		return name
	}
	b := []rune(name)
	for i := range b {
		if model.Chance(r, 50) {
			if unicode.IsUpper(b[i]) {
				b[i] = unicode.ToLower(b[i])
			} else {
				b[i] = unicode.ToUpper(b[i])
			}
		}
	}
	return string(b)
}

func upperFirst(s string) string {
	r := []rune(s)
	return strings.ToUpper(string(r[:1])) + string(r[1:])
}

// foreign adds letters outside ASCII to a name.
func foreign(r *rand.Rand, name string) string {
	l := []string{"é", "É", "ñ", "Ж", "ж", "Ω", "ω", "ğ", "ő", "日本", "ü"}
	return name + model.Pick(r, l) + model.Pick(r, []string{"", "x", model.Pick(r, l)})
}

// renameForeign gives some service, method or type a name with letters outside ASCII.
func renameForeign(r *rand.Rand, s *model.Schema) {
	switch r.IntN(3) {
	case 0:
		t := model.Pick(r, s.Types)
		if n := foreign(r, t.Name); s.Type(n) == nil {
			rename(s, t.Name, n)
		}
	case 1:
		svc := model.Pick(r, s.Services)
		svc.Name = foreign(r, svc.Name)
	default:
		m := model.Pick(r, model.Pick(r, s.Services).Methods)
		m.Name = foreign(r, m.Name)
	}
}

// manyArgs gives a method a long list of arguments.
func manyArgs(r *rand.Rand, list *[]*model.Arg) {
	for i := range 4 + r.IntN(30) {
		*list = append(*list, &model.Arg{Name: fmt.Sprintf("more%dArg", i), Type: &model.VT{Core: "int"}})
	}
}

// rename gives a type another name, and all its references.
func rename(s *model.Schema, from, to string) {
	var walk func(t *model.VT)
	walk = func(t *model.VT) {
		if t == nil {
			return
		}
		if t.Ref == from {
			t.Ref = to
		}
		walk(t.Elem)
		walk(t.Key)
		walk(t.Val)
	}
	for _, t := range s.Types {
		walk(t.Type)
		for _, f := range t.Fields {
			walk(f.Type)
		}
	}
	for _, svc := range s.Services {
		for _, m := range svc.Methods {
			for _, a := range append(append([]*model.Arg{}, m.In...), m.Out...) {
				walk(a.Type)
			}
			if m.Succinct {
				for _, a := range append(append([]*model.Arg{}, m.In...), m.Out...) {
					a.Name = model.LowerFirst(a.Type.Ref)
				}
			}
		}
	}
	s.Type(from).Name = to
}

func fieldTypes(s *model.Schema, kind string, n int) (out []*model.Type) {
	for _, t := range s.Types {
		if t.Kind == kind && len(t.Fields) >= n {
			out = append(out, t)
		}
	}
	return out
}

// A JSON name stands in for the name of its field.
func jsonName(f *model.Field) (string, int) {
	name, at := f.Name, -1
	for i, kv := range f.Meta {
		if kv.K == "json" {
			at = i
			if kv.V != "-" {
				name = kv.V
			}
		}
	}
	return name, at
}

func setJSON(f *model.Field, name string) {
	if _, at := jsonName(f); at >= 0 {
		f.Meta[at].V = name
		return
	}
	f.Meta = append(f.Meta, model.KV{K: "json", V: name})
}

func dropJSON(f *model.Field) {
	var meta []model.KV
	for _, kv := range f.Meta {
		if kv.K != "json" {
			meta = append(meta, kv)
		}
	}
	f.Meta = meta
}

// normalMethods are the methods which aren't succinct.
func normalMethods(s *model.Schema) (out []*model.Method) {
	for _, svc := range s.Services {
		for _, m := range svc.Methods {
			if !m.Succinct {
				out = append(out, m)
			}
		}
	}
	return out
}

func c06valid(c *vh.Case) {
	s := rich(c)
	r := c.R
	if model.Chance(r, 30) {
		renameForeign(r, s)
	}
	if ms := normalMethods(s); model.Chance(r, 20) && len(ms) > 0 {
		m := model.Pick(r, ms)
		manyArgs(r, &m.In)
		manyArgs(r, &m.Out)
	}
	// names which only seem to clash
	for range 1 + r.IntN(4) {
		c.Count("near misses", 1)
		switch r.IntN(9) {
		case 0: // JSON names of two fields swapped
			t := model.Pick(r, fieldTypes(s, "struct", 2))
			a, b := t.Fields[0], t.Fields[1]
			for _, f := range t.Fields {
				dropJSON(f)
			}
			setJSON(a, b.Name)
			setJSON(b, a.Name)
		case 1: // the name of an ignored field
			t := model.Pick(r, fieldTypes(s, "struct", 2))
			for _, f := range t.Fields {
				dropJSON(f)
			}
			setJSON(t.Fields[r.IntN(len(t.Fields))], "-")
			if model.Chance(r, 50) {
				setJSON(t.Fields[r.IntN(len(t.Fields))], "-")
				setJSON(t.Fields[r.IntN(len(t.Fields))], "-")
			}
		case 2: // the same field name in another type
			ts := append(fieldTypes(s, "struct", 1), fieldTypes(s, "enum", 1)...)
			a, b := model.Pick(r, ts), model.Pick(r, ts)
			name := "shared_Name"
			has := func(t *model.Type) bool {
				for _, f := range t.Fields {
					if n, _ := jsonName(f); strings.EqualFold(n, name) || strings.EqualFold(f.Name, name) {
						return true
					}
				}
				return false
			}
			if has(a) || has(b) || a == b {
				continue
			}
			for _, t := range []*model.Type{a, b} {
				t.Fields[0].Name = name
				t.Fields[0].Explicit = t.Kind == "enum"
				dropJSON(t.Fields[0])
			}
		case 3: // a method of the same name in another service
			a, b := s.Services[0], s.Services[1]
			a.Methods[0].Name, b.Methods[0].Name = "SameName", "SameName"
		case 4: // an input like an output
			for _, m := range normalMethods(s) {
				if len(m.In) > 0 && len(m.Out) > 0 {
					m.In[0].Name, m.Out[0].Name = "sameArg", "sameArg"
				}
			}
		case 5: // arguments which differ in case only
			for _, m := range normalMethods(s) {
				if len(m.In) > 1 {
					m.In[0].Name, m.In[1].Name = "valueQ_", "ValueQ_"
				}
			}
		case 6: // an error, a service and a type of the same name
			if s.Type("SameThing") == nil {
				rename(s, model.Pick(r, s.Types).Name, "SameThing")
			}
			old := s.Errors[0].Name
			s.Errors[0].Name = "SameThing"
			for _, svc := range s.Services {
				for _, m := range svc.Methods {
					for i, e := range m.Errors {
						if e == old {
							m.Errors[i] = "SameThing"
						}
					}
				}
			}
			s.Services[0].Name = "SameThing"
		case 7: // names with digits and underscores, of one letter
			t := model.Pick(r, append(fieldTypes(s, "struct", 1), fieldTypes(s, "enum", 1)...))
			name := model.Pick(r, []string{"z9_", "Z_9", "q", "a__b", "x0123456789"})
			clash := false
			for _, f := range t.Fields[1:] {
				n, _ := jsonName(f)
				clash = clash || strings.EqualFold(n, name) || strings.EqualFold(f.Name, name)
			}
			if !clash {
				dropJSON(t.Fields[0])
				t.Fields[0].Name = name
				t.Fields[0].Explicit = t.Kind == "enum"
			}
		default: // types named nearly alike
			t := model.Pick(r, s.Types)
			if n := t.Name + "_"; s.Type(n) == nil {
				u := t.Clone()
				u.Name = n
				s.Types = append(s.Types, u)
				sortKinds(s)
			}
		}
	}
	for _, t := range s.Types {
		if t.Kind == "enum" {
			for i, f := range t.Fields {
				if f.Explicit && f.Value == "" {
					f.Value = fmt.Sprint(i)
				}
			}
		}
	}
	c.Count("valid schemas", 1)
	if !acceptedBoth(c, s) {
		return
	}
	if t := model.Pick(r, s.Types); model.Chance(r, 30) {
		// JSON may start names with any upper-case letter
		if n := model.Pick(r, []string{"É", "Ж", "Ω", "Ő"}) + t.Name; s.Type(n) == nil {
			rename(s, t.Name, n)
			sut.AcceptedJSON(c, s.JSON(), s)
		}
	}
}

// sortKinds brings types in the order that RIDL gives them.
func sortKinds(s *model.Schema) {
	var out []*model.Type
	for _, kind := range []string{"alias", "enum", "struct"} {
		for _, t := range s.Types {
			if t.Kind == kind {
				out = append(out, t)
			}
		}
	}
	s.Types = out
}

func insert[T any](r *rand.Rand, list []T, v T) []T {
	i := r.IntN(len(list) + 1)
	return append(append(append([]T{}, list[:i]...), v), list[i:]...)
}

// other picks an element other than list[i].
func other(r *rand.Rand, n, i int) int { return (i + 1 + r.IntN(n-1)) % n }

func c06broken(c *vh.Case) {
	s := rich(c)
	r := c.R
	what, forms := "", "rj"
	if model.Chance(r, 25) {
		renameForeign(r, s)
	}
	switch r.IntN(14) {
	case 0: // type in lower case
		t := model.Pick(r, s.Types)
		n := model.Pick(r, []string{model.LowerFirst(t.Name) + "x", "lower" + t.Name, "_" + t.Name, "9" + t.Name, "ß" + t.Name, "é" + t.Name, "日" + t.Name, "ª" + t.Name, "ǅ" + t.Name, "ʰ" + t.Name, "-" + t.Name, " " + t.Name})
		if n[0] > 127 || n[0] == '-' || n[0] == ' ' {
			forms = "j"
		}
		rename(s, t.Name, n)
		what = "type name " + n
	case 1, 2: // the same type twice
		t := model.Pick(r, s.Types)
		if model.Chance(r, 20) {
			rename(s, t.Name, foreign(r, t.Name))
		}
		n := upperFirst(caseOf(r, t.Name))
		u := &model.Type{Name: n, Kind: model.Pick(r, []string{"alias", "enum", "struct"})}
		switch u.Kind {
		case "alias":
			u.Type = &model.VT{Core: "string"}
		case "enum":
			u.Type = &model.VT{Core: "int"}
			u.Fields = []*model.Field{{Name: "A", Value: "0"}}
		default:
			u.Fields = []*model.Field{{Name: "a", Type: &model.VT{Core: "int"}}}
		}
		if model.Chance(r, 30) {
			// in another file
			c06split(c, s, &model.Schema{Types: []*model.Type{u}}, "type "+n+" declared in two files")
			return
		}
		if model.Chance(r, 25) { // which is the same
			u = t.Clone()
			u.Name = n
		}
		s.Types = insert(r, s.Types, u)
		what = "a second type " + n
	case 3: // field twice
		t := model.Pick(r, append(fieldTypes(s, "struct", 2), fieldTypes(s, "enum", 2)...))
		i := r.IntN(len(t.Fields))
		j := other(r, len(t.Fields), i)
		n := caseOf(r, t.Fields[i].Name)
		t.Fields[j].Name = n
		t.Fields[j].Explicit = t.Kind == "enum"
		if t.Kind == "struct" && model.Chance(r, 70) {
			setJSON(t.Fields[j], "other_json_name")
		} else if t.Kind == "enum" && model.Chance(r, 30) {
			setJSON(t.Fields[j], "other_json_name")
			forms = "j"
		}
		what = fmt.Sprintf("a second field %s in %s", n, t.Name)
	case 4, 5: // invalid name of a field
		t := model.Pick(r, append(fieldTypes(s, "struct", 1), fieldTypes(s, "enum", 1)...))
		f := model.Pick(r, t.Fields)
		bad := []string{"_a", "9a", "a-b", "a.b", "a/b", "é", "aé", "日本", "a'b", "1", "_", "a*", "a@b", "x%"}
		f.Name = model.Pick(r, bad)
		f.Explicit = t.Kind == "enum"
		if f.Name[0] >= 0x80 {
			forms = "j"
		}
		if model.Chance(r, 30) {
			f.Name, forms = model.Pick(r, []string{"", " ", "a b", "a\n", "a ", " a", "a\"b", "a?", "a:b", "a\x00", "a,b", "a#b", "a(b)"}), "j"
		}
		if t.Kind == "struct" && model.Chance(r, 50) {
			setJSON(f, "good_json_name")
		} else {
			dropJSON(f)
		}
		what = fmt.Sprintf("field %q in %s", f.Name, t.Name)
	case 6: // JSON name of two fields
		t := model.Pick(r, fieldTypes(s, "struct", 2))
		i := r.IntN(len(t.Fields))
		j := other(r, len(t.Fields), i)
		if n, at := jsonName(t.Fields[i]); at < 0 && model.Chance(r, 50) {
			setJSON(t.Fields[j], caseOf(r, n))
		} else {
			setJSON(t.Fields[i], "theName")
			setJSON(t.Fields[j], caseOf(r, "theName"))
		}
		what = "a second JSON name in " + t.Name
	case 7: // invalid JSON name
		t := model.Pick(r, fieldTypes(s, "struct", 1))
		f := model.Pick(r, t.Fields)
		setJSON(f, model.Pick(r, []string{"_a", "9a", "a-b", "a.b", "é", "--", "-a", "a,omitempty", "a b", "a\n", "-,"}))
		n, _ := jsonName(f)
		what = fmt.Sprintf("JSON name %q in %s", n, t.Name)
		if model.Chance(r, 20) {
			// which is no name at all
			dropJSON(f)
			setJSON(f, "NO_NAME_AT_ALL")
			value := model.Pick(r, []string{"1", "0", "true", "false", "null", "{}", "[]", `["a"]`, `{"a":"b"}`, "1.5", `""`, `{"json":"a"}`})
			c.Count("broken in its JSON value", 1)
			text := strings.ReplaceAll(s.JSON(), `"NO_NAME_AT_ALL"`, value)
			c.Attach("broken.json", text)
			c.Distinct(text)
			if _, err := schema.ParseSchemaJSON([]byte(text)); err == nil {
				c.Failf("json-accepted", "JSON with the JSON name %s is accepted", value)
			}
			return
		}
		if model.Chance(r, 30) {
			// as the first of two
			f.Meta = append([]model.KV{{K: "json", V: "a-b"}}, f.Meta...)
			setJSON(f, "a-b")
		} else if model.Chance(r, 20) {
			// as one of two
			name := f.Meta
			dropJSON(f)
			for _, kv := range name {
				if kv.K == "json" {
					bad := kv
					good := model.KV{K: "json", V: "good_json_name"}
					f.Meta = insert(r, append(f.Meta, bad), good)
				}
			}
		}
	case 8: // service twice
		svc := model.Pick(r, s.Services)
		if model.Chance(r, 30) {
			svc.Name = foreign(r, svc.Name)
		}
		svc = svc.Clone()
		svc.Name = caseOf(r, svc.Name)
		switch r.IntN(3) { // which doesn't have the same methods
		case 0:
			svc.Methods = svc.Methods[:1+r.IntN(len(svc.Methods))]
		case 1:
			for range 1 + r.IntN(3) {
				svc.Methods = insert(r, svc.Methods, &model.Method{Name: fmt.Sprintf("More%d", len(svc.Methods)*1000+r.IntN(1000))})
			}
		}
		if model.Chance(r, 30) {
			t := svc
			for _, m := range t.Methods {
				m.In, m.Out, m.Errors, m.Succinct = nil, nil, nil, false
			}
			c06split(c, s, &model.Schema{Version: "v1", Services: []*model.Service{t}}, "service "+t.Name+" declared in two files")
			return
		}
		s.Services = insert(r, s.Services, svc)
		what = "a second service " + svc.Name
	case 9: // method twice
		svc := model.Pick(r, s.Services)
		if m := model.Pick(r, svc.Methods); model.Chance(r, 30) {
			m.Name = foreign(r, m.Name)
		}
		m := (&model.Service{Methods: []*model.Method{model.Pick(r, svc.Methods)}}).Clone().Methods[0]
		m.Name = caseOf(r, m.Name)
		if m.Name == "stream" || m.Name == "proxy" {
			return
		}
		if model.Chance(r, 60) { // which is otherwise like another method, or like none
			name := m.Name
			m = (&model.Service{Methods: []*model.Method{model.Pick(r, model.Pick(r, s.Services).Methods)}}).Clone().Methods[0]
			m.Name = name
			if model.Chance(r, 30) {
				m.In, m.Succinct = nil, false
			}
			if model.Chance(r, 30) {
				m.Out, m.Succinct = nil, false
			}
			if model.Chance(r, 30) {
				m.Annotations, m.Comments, m.Errors = nil, nil, nil
			}
			c.Count("second ones with other contents", 1)
		}
		svc.Methods = insert(r, svc.Methods, m)
		what = fmt.Sprintf("a second method %s in %s", m.Name, svc.Name)
	case 10, 11: // argument twice
		var ms []*model.Method
		for _, m := range normalMethods(s) {
			if len(m.In)+len(m.Out) > 0 {
				ms = append(ms, m)
			}
		}
		m := model.Pick(r, ms)
		list := &m.In
		if len(m.In) == 0 || len(m.Out) > 0 && model.Chance(r, 50) {
			list = &m.Out
		}
		if model.Chance(r, 30) {
			manyArgs(r, list)
		}
		if model.Chance(r, 20) {
			x := model.Pick(r, *list)
			x.Name = foreign(r, x.Name)
		}
		a := *model.Pick(r, *list)
		a.Type = a.Type.Clone()
		if model.Chance(r, 50) {
			a.Type = &model.VT{Core: model.Pick(r, []string{"int", "string", "any", "bool", "timestamp"})}
			c.Count("second ones with other contents", 1)
		}
		if model.Chance(r, 50) {
			a.Optional = !a.Optional
		}
		*list = insert(r, *list, &a)
		what = fmt.Sprintf("a second argument %s of %s", a.Name, m.Name)
	case 12: // empty names, which only JSON can hold
		forms = "j"
		switch r.IntN(4) {
		case 0:
			model.Pick(r, s.Services).Name = ""
			what = "an empty service name"
		case 1:
			svc := model.Pick(r, s.Services)
			model.Pick(r, svc.Methods).Name = ""
			what = "an empty method name"
		case 2:
			m := model.Pick(r, normalMethods(s))
			m.In = append(m.In, &model.Arg{Name: "", Type: &model.VT{Core: "int"}})
			what = "an empty input name"
		default:
			m := model.Pick(r, normalMethods(s))
			m.Out = append(m.Out, &model.Arg{Name: "", Type: &model.VT{Core: "int"}})
			what = "an empty output name"
		}
	default: // types of other kinds clash with imported ones
		t := model.Pick(r, s.Types)
		u := &model.Type{Name: upperFirst(caseOf(r, t.Name)), Kind: "struct", Fields: []*model.Field{{Name: "a", Type: &model.VT{Core: "int"}}}}
		c06split(c, s, &model.Schema{Types: []*model.Type{u}}, "type "+u.Name+" declared in two files")
		return
	}
	c.Count("broken names", 1)
	if c.Index < 40 {
		c.Sample(map[string]any{"case": c.Index, "broken": what})
	}
	rejected(c, what, s, forms)
}

// c06split writes two schemas to two files, one of which imports the other.
// Each is valid for itself, but both together are not.
func c06split(c *vh.Case, a, b *model.Schema, what string) {
	if model.Chance(c.R, 50) && len(b.Services) == 0 && len(a.Errors) == 0 {
		a, b = b, a
	}
	a.Version, b.Version = "v1", "v1"
	files := map[string]string{
		"main.ridl":  model.Render(a, []model.Import{{Path: "other.ridl"}}, model.RandomStyle(c.R)),
		"other.ridl": model.Render(b, nil, model.RandomStyle(c.R)),
	}
	for n, text := range files {
		c.Attach(n, text)
	}
	c.Distinct(files["main.ridl"] + files["other.ridl"])
	c.Count("broken across files", 1)
	if _, err := sut.Parse1(files["other.ridl"]); err != nil {
		c.Failf("split-rejected", "imported file alone is rejected: %v", err)
		return
	}
	if _, err := sut.Parse(files, "main.ridl"); err == nil {
		c.Failf("split-accepted", "%s is accepted", what)
	}
	_ = schema.SCHEMA_VERSION
}
