package main

import (
	"fmt"
	"slices"
	"strings"

	"github.com/webrpc/webrpc/schema"

	"verif/harness/internal/model"
	"verif/harness/internal/sut"
	"verif/harness/internal/vh"
)

var c08 = &vh.Prop{
	ID: "C08", Quick: 12000, Thorough: 400000,
	Rule:    "random valid schemas with every form of basepath and succinct methods, and with exactly one broken rule of header, service or method at a random place, as RIDL and JSON; distinct by document",
	Require: map[string]int{"broken rules": 3000, "valid schemas": 2000, "basepaths": 1000},
	Run: func(c *vh.Case) {
		if c.Index%3 == 0 {
			c08valid(c)
			return
		}
		c08broken(c)
	},
}

func c08valid(c *vh.Case) {
	r := c.R
	var s *model.Schema
	if model.Chance(r, 20) {
		// hardly anything at all
		s = &model.Schema{}
		if model.Chance(r, 50) {
			s.Name = "x"
		}
		if model.Chance(r, 50) {
			s.Version = "v1"
		}
	} else {
		s = rich(c)
	}
	if model.Chance(r, 70) {
		var b strings.Builder
		parts := []string{"api", "v1", "rpc", "a.b", "a-b", "x_y", "~me", "é", "a%20b", "a:b", "@x", "*", "1", "A", "a+b", "a=b", "a&b", "(x)", "$", ";v", "webrpc", "a,b", "'q'", ".well-known", "v1.", "..", "...", "a-", "_", "a%2F", "x:", "-", "0"}
		if model.Chance(r, 70) {
			b.WriteString("/")
		}
		for i := range 1 + r.IntN(4) {
			if i > 0 {
				b.WriteString("/")
				if model.Chance(r, 5) {
					b.WriteString("/")
				}
			}
			b.WriteString(model.Pick(r, parts))
		}
		if model.Chance(r, 50) {
			b.WriteString("/")
			if model.Chance(r, 5) {
				b.WriteString("/")
			}
		}
		s.BasePath = strings.ReplaceAll(b.String(), "://", ":/")
		if model.Chance(r, 10) {
			s.BasePath = "/"
		}
		c.Count("basepaths", 1)
	}
	if len(s.Services) > 0 && model.Chance(r, 20) {
		// annotations whose names differ in case are different ones
		m := model.Pick(r, model.Pick(r, s.Services).Methods)
		for range 2 {
			n := caseOf(r, "internalOnly")
			if !slices.ContainsFunc(m.Annotations, func(a model.Annotation) bool { return a.Name == n }) {
				m.Annotations = insert(r, m.Annotations, model.Annotation{Name: n})
			}
		}
	}
	c.Count("valid schemas", 1)
	if acceptedBoth(c, s) {
		sut.AcceptedJSON(c, s.JSONRaw(), s)
	}
}

func c08broken(c *vh.Case) {
	s := rich(c)
	r := c.R
	what, forms := "", "rj"
	ridl := func() string { return model.Render(s, nil, model.RandomStyle(r)) }
	check := func(text string) {
		c.Attach("broken.ridl", text)
		c.Distinct(text)
		if got, err := sut.Parse1(text); err == nil {
			c.Failf("accepted", "RIDL with %s is accepted", what)
		} else if got != nil {
			c.Failf("both", "both a schema and an error: %v", err)
		}
	}
	checkJSON := func(text string) {
		c.Attach("broken.json", text)
		if _, err := schema.ParseSchemaJSON([]byte(text)); err == nil {
			c.Failf("json-accepted", "JSON with %s is accepted", what)
		}
	}
	service := model.Pick(r, s.Services)
	method := model.Pick(r, service.Methods)
	structs := fieldTypes(s, "struct", 0)
	ref := func(t *model.Type) *model.VT { return &model.VT{Ref: t.Name} }
	c.Count("broken rules", 1)
	if c.Index < 60 {
		defer func() { c.Sample(map[string]any{"case": c.Index, "broken": what}) }()
	}

	switch r.IntN(9) {
	case 0: // not webrpc v1
		v := model.Pick(r, []string{"v2", "v0", "1", "v1.0", "V1", "v11", "v1 ", "webrpc", "latest"})
		what = fmt.Sprintf("webrpc %q", v)
		st := model.RandomStyle(r)
		st.SkipHead = true
		text := model.Render(s, nil, st)
		if model.Chance(r, 40) {
			what = "no webrpc version"
			check(text)
			checkJSON(strings.Replace(s.JSON(), "\"webrpc\": \"v1\"", "\"webrpc\": \"\"", 1))
			checkJSON(strings.Replace(s.JSON(), "\"webrpc\": \"v1\",", "", 1))
			return
		}
		if v != "v1 " {
			if model.Chance(r, 50) {
				text = "webrpc = " + v + "\n" + text
			} else {
				text += "\nwebrpc = " + v + "\n"
			}
			check(text)
		}
		checkJSON(strings.Replace(s.JSON(), "\"webrpc\": \"v1\"", "\"webrpc\": \""+v+"\"", 1))
		return
	case 1: // a header entry twice
		kv := map[string]string{"webrpc": "v1", "name": "other", "version": "v9", "basepath": "/other"}
		if s.Name == "" {
			s.Name = "x"
		}
		if s.BasePath == "" {
			s.BasePath = "/x/"
		}
		k := model.Pick(r, []string{"webrpc", "name", "version", "basepath"})
		v := kv[k]
		if model.Chance(r, 30) {
			v = map[string]string{"webrpc": "v1", "name": s.Name, "version": s.Version, "basepath": s.BasePath}[k]
		}
		line := k + " = " + model.Quote(v)
		what = "a second " + line
		if model.Chance(r, 50) {
			check(line + "\n" + ridl())
		} else {
			check(ridl() + "\n" + line)
		}
		return
	case 2:
		s.Version = ""
		what = "services, but no version"
	case 3:
		s.BasePath = model.Pick(r, []string{
			"/a b", "a b", "/a\tb", "/a?b", "/a?", "/a#b", "/#", "http://example.com/rpc", "https://example.com", "/x/http://y", "/%zz", "/a%2", "/a\nb", "ws://h/", " /a", "/a ", "/%", "://", "/\x7f", "/\x01", "%zz", "a%2", "a/%g0/b", "b%", "a\x7f", "%", "é%é", "a:b%",
		})
		what = fmt.Sprintf("basepath %q", s.BasePath)
	case 4:
		service.Methods = nil
		what = "no methods in " + service.Name
	case 5: // an annotation twice
		if len(method.Annotations) == 0 {
			method.Annotations = []model.Annotation{{Name: "auth", Value: "x", HasValue: true}}
		}
		for i := range r.IntN(8) { // in a long list, maybe
			if n := fmt.Sprintf("more%d", i); model.Chance(r, 60) && !slices.ContainsFunc(method.Annotations, func(a model.Annotation) bool { return a.Name == n }) {
				method.Annotations = insert(r, method.Annotations, model.Annotation{Name: n})
			}
		}
		a := model.Pick(r, method.Annotations)
		if model.Chance(r, 50) {
			a.HasValue = !a.HasValue
			a.Value = ""
			if a.HasValue {
				a.Value = "other"
			}
		}
		method.Annotations = insert(r, method.Annotations, a)
		what, forms = "a second annotation @"+a.Name, "r"
	case 6: // succinct on one side
		t := model.Pick(r, structs)
		what = "a succinct form on one side"
		forms = "r"
		method.RawSig = fmt.Sprintf(model.Pick(r, []string{
			"(%s)", "(%s) => ()", "() => (%s)", "(%s) => (x: int)", "(x: int) => (%s)", "(%s) => (x: %[1]s)", "(x: %s) => (%[1]s)", "(%s) => stream (x: int)", "(x: int) => stream (%s)", "(%s) => (a: int, b: int)",
			"(x: int, %s) => (%[1]s)", "(%s) => (x: int, %[1]s)",
		}), t.Name)
	case 7: // succinct with something other than a struct
		var bad []string
		for _, t := range s.Types {
			if t.Kind != "struct" {
				bad = append(bad, t.Name)
			}
		}
		bad = append(bad, "string", "int", "any", "NoSuchType0", "[]"+structs[0].Name, "map<string,"+structs[0].Name+">", "map", "null")
		b := model.Pick(r, bad)
		if s.Type(b) != nil && s.Type(b).Kind == "struct" {
			return
		}
		what = "a succinct form with " + b
		good := model.Pick(r, structs).Name
		method.RawSig = fmt.Sprintf(model.Pick(r, []string{"(%[1]s) => (%[2]s)", "(%[2]s) => (%[1]s)", "(%[1]s) => (%[1]s)", "(%[2]s) => stream (%[1]s)"}), b, good)
		if other := s.Type(b); other == nil && s.Type(b) == nil {
			// a type may be named like it in another case
			for _, t := range s.Types {
				if strings.EqualFold(t.Name, b) {
					return
				}
			}
		}
		method.Succinct = true
		method.In = []*model.Arg{{Name: "a", Type: raw(b)}}
		method.Out = []*model.Arg{{Name: "b", Type: raw(good)}}
		if model.Chance(r, 50) {
			method.In[0].Type, method.Out[0].Type = method.Out[0].Type, method.In[0].Type
		}
		method.StreamIn, method.StreamOut = model.Chance(r, 30), model.Chance(r, 30)
	default: // succinct with other than one argument
		forms = "j"
		t := model.Pick(r, structs)
		method.Succinct = true
		side := func(n int) (args []*model.Arg) {
			args = []*model.Arg{}
			for i := range n {
				args = append(args, &model.Arg{Name: fmt.Sprintf("a%d", i), Type: ref(t)})
			}
			return args
		}
		n := model.Pick(r, []int{0, 2, 3})
		method.In, method.Out = side(1), side(n)
		if model.Chance(r, 50) {
			method.In, method.Out = method.Out, method.In
		}
		method.StreamIn, method.StreamOut = model.Chance(r, 30), model.Chance(r, 30)
		what = fmt.Sprintf("a succinct form with %d arguments", n)
	}
	if strings.Contains(forms, "r") {
		check(ridl())
	}
	if strings.Contains(forms, "j") {
		checkJSON(s.JSONRaw())
	}
}
