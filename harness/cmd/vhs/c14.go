package main

import (
	"fmt"
	"math/rand/v2"
	"slices"
	"strings"

	"github.com/webrpc/webrpc/schema"

	"verif/harness/internal/cli"
	"verif/harness/internal/model"
	"verif/harness/internal/sut"
	"verif/harness/internal/vh"
)

var c14 = &vh.Prop{
	ID: "C14", Quick: 8000, Thorough: 250000,
	Rule:    "random schemas with recursive structs and aliases and long chains of references, every kind of subset of their services, through the library and, for some, the command line; types left are compared with reachability in the model; distinct by schema and services",
	Require: map[string]int{"selections": 8000, "types kept": 10000, "types dropped": 2500, "schemas with cycles": 1000, "types shared by services": 1000, "large schemas": 50, "chains of structs": 400},
	Run:     c14run,
}

// reach returns the names of the types which methods of the services reach.
func reach(s *model.Schema, services map[string]bool) map[string]bool {
	seen := map[string]bool{}
	var visit func(name string)
	visit = func(name string) {
		if seen[name] {
			return
		}
		seen[name] = true
		t := s.Type(name)
		t.Type.Refs(visit)
		for _, f := range t.Fields {
			f.Type.Refs(visit)
		}
	}
	for _, svc := range s.Services {
		if services[svc.Name] {
			for _, m := range svc.Methods {
				for _, a := range m.In {
					a.Type.Refs(visit)
				}
				for _, a := range m.Out {
					a.Type.Refs(visit)
				}
			}
		}
	}
	return seen
}

// chain makes each struct, in some order, the only one which leads to the next.
func chain(r *rand.Rand, s *model.Schema) {
	var structs []*model.Type
	for _, t := range s.Types {
		if t.Kind == "struct" {
			structs = append(structs, t)
		}
	}
	r.Shuffle(len(structs), func(i, j int) { structs[i], structs[j] = structs[j], structs[i] })
	for i, t := range structs {
		t.Fields = []*model.Field{{Name: "end", Type: &model.VT{Core: "int"}}}
		if i+1 < len(structs) {
			t.Fields[0] = &model.Field{Name: "next", Type: wrapped(r, &model.VT{Ref: structs[i+1].Name})}
		}
	}
}

func wrapped(r *rand.Rand, t *model.VT) *model.VT {
	n := r.IntN(3)
	if model.Chance(r, 2) {
		n = 1 + r.IntN(400)
	}
	for range n {
		if model.Chance(r, 50) {
			t = &model.VT{Elem: t}
		} else {
			t = &model.VT{Key: &model.VT{Core: "string"}, Val: t}
		}
	}
	return t
}

// mesh adds structs of which nearly each refers to each other, so that nobody
// can follow all the ways through them.
func mesh(r *rand.Rand, s *model.Schema) (structs []*model.Type) {
	n := 14 + r.IntN(20)
	for i := range n {
		structs = append(structs, &model.Type{Name: fmt.Sprintf("Mesh%d", i), Kind: "struct"})
	}
	for i, t := range structs {
		for j, u := range structs {
			if i != j && model.Chance(r, 90) || j == i+1 {
				f := &model.Field{Name: fmt.Sprintf("to%d", j), Type: &model.VT{Ref: u.Name}}
				if model.Chance(r, 30) {
					f.Type = &model.VT{Elem: f.Type}
				}
				t.Fields = append(t.Fields, f)
			}
		}
	}
	s.Types = append(s.Types, structs...)
	return structs
}

// tangle makes types refer to each other in ways which are hard to follow.
func tangle(r *rand.Rand, s *model.Schema) (cycles bool) {
	var structs, aliases []*model.Type
	for _, t := range s.Types {
		switch t.Kind {
		case "struct":
			structs = append(structs, t)
		case "alias":
			aliases = append(aliases, t)
		}
	}
	if len(structs) > 0 && model.Chance(r, 2) && s.Type("Mesh0") == nil {
		t := model.Pick(r, structs)
		t.Fields = append(t.Fields, &model.Field{Name: "mesh", Type: wrapped(r, &model.VT{Ref: model.Pick(r, mesh(r, s)).Name})})
		cycles = true
	}
	if len(structs) > 1 && model.Chance(r, 50) {
		cycles = true
		for i, t := range structs { // a ring
			next := structs[(i+1)%len(structs)]
			if model.Chance(r, 90) {
				t.Fields = append(t.Fields, &model.Field{Name: "ring", Type: wrapped(r, &model.VT{Ref: next.Name})})
			}
		}
	}
	if len(aliases) > 0 && model.Chance(r, 40) {
		cycles = true
		a, b := model.Pick(r, aliases), model.Pick(r, aliases)
		// lists and maps let aliases refer to themselves; keys must stay what they are
		if !isKey(s, a.Name) && !isKey(s, b.Name) {
			a.Type = &model.VT{Elem: &model.VT{Ref: b.Name}}
			b.Type = &model.VT{Key: &model.VT{Core: "uint8"}, Val: &model.VT{Ref: a.Name}}
			switch r.IntN(3) {
			case 0:
				b.Type = &model.VT{Elem: &model.VT{Ref: a.Name}}
			case 1:
				a.Type = &model.VT{Key: &model.VT{Core: "string"}, Val: &model.VT{Ref: b.Name}}
			}
		}
	}
	return cycles
}

// isKey returns true if the type, or an alias of it, is the key of a map.
func isKey(s *model.Schema, name string) bool {
	used := false
	var walk func(t *model.VT)
	walk = func(t *model.VT) {
		if t == nil {
			return
		}
		if t.Key != nil && t.Key.Ref != "" {
			used = true // any: keep it simple
		}
		walk(t.Elem)
		walk(t.Val)
	}
	for _, t := range s.Types {
		walk(t.Type)
		for _, f := range t.Fields {
			walk(f.Type)
		}
	}
	for _, svc := range s.Services {
		for _, m := range svc.Methods {
			for _, a := range append(append([]*model.Arg{}, m.In...), m.Out...) {
				walk(a.Type)
			}
		}
	}
	return used
}

func c14run(c *vh.Case) {
	var s *model.Schema
	opts := model.Options{MinTypes: 2, Types: 4 + c.R.IntN(20), Errors: 3, Services: 5}
	if c.Index%80 == 79 {
		opts.MinTypes, opts.Types = 40, 160
		c.Count("large schemas", 1)
	}
	if sut.Huge(c) {
		opts.MinTypes, opts.Types, opts.Services, opts.Huge = 100, 500, 60, true
	}
	for s == nil || len(s.Services) < 1 {
		s = model.New(c.R, opts)
	}
	if model.Chance(c.R, 10) {
		chain(c.R, s)
		c.Count("chains of structs", 1)
	}
	if tangle(c.R, s) {
		c.Count("schemas with cycles", 1)
	}
	sparse := model.Chance(c.R, 60)
	if sparse { // fewer references, so that more is dropped
		for _, svc := range s.Services {
			if len(svc.Methods) > 2 {
				svc.Methods = svc.Methods[:2]
			}
		}
	}
	include := map[string]bool{}
	var list []string
	for _, i := range c.R.Perm(len(s.Services)) {
		if model.Chance(c.R, 40) || len(list) == 0 && i == len(s.Services)-1 {
			include[s.Services[i].Name] = true
			list = append(list, s.Services[i].Name)
		}
	}
	if len(list) == 0 {
		list = append(list, s.Services[0].Name)
		include[list[0]] = true
	}
	exclude := map[string]bool{}
	for _, svc := range s.Services {
		if !include[svc.Name] {
			exclude[svc.Name] = true
		}
	}
	unknown := false
	if model.Chance(c.R, 20) {
		list = append(list, list[0])
	}
	if model.Chance(c.R, 20) {
		list = append(list, "NoSuchService")
	}
	if model.Chance(c.R, 20) { // in another case, it is another name
		name := caseOf(c.R, model.Pick(c.R, s.Services).Name)
		if !slices.ContainsFunc(s.Services, func(svc *model.Service) bool { return svc.Name == name }) {
			list = append(list, name)
			unknown = true
			c.Count("names in another case", 1)
		}
	}
	text := model.Render(s, nil, model.RandomStyle(c.R))
	c.Attach("services", strings.Join(list, ","))
	c.Distinct(s.JSON() + strings.Join(list, ","))
	used, other := reach(s, include), reach(s, exclude)
	for n := range used {
		if other[n] {
			c.Count("types shared by services", 1)
		}
	}

	shake, selecting := true, true
	mode := c.R.IntN(4)
	switch mode {
	case 0:
		shake = false
	case 1:
		selecting = false
	}
	got := sut.Accepted(c, text, s)
	if got == nil {
		return
	}
	fromJSON := c.R.IntN(4) == 0
	if fromJSON {
		// where types stand in any order
		s = s.Clone()
		c.R.Shuffle(len(s.Types), func(i, j int) { s.Types[i], s.Types[j] = s.Types[j], s.Types[i] })
		got, _ = schema.ParseSchemaJSON([]byte(s.JSON()))
	}
	again := 1 + c.R.IntN(2)
	for range again {
		if shake && mode == 2 {
			got = schema.MethodTreeShake(got, list)
		}
		if selecting {
			got = schema.MatchServices(got, list)
		}
		if shake && mode != 2 {
			got = schema.MethodTreeShake(got, list)
		}
	}
	if got == nil {
		c.Failf("nothing", "no schema")
		return
	}
	names := map[string]bool{}
	for _, t := range got.Types {
		names[t.Name] = true
	}
	want := expectShaken(c, s, include, used, other, names, shake, selecting)
	if want == nil {
		return
	}
	c.Count("selections", 1)
	if g, w := noNull(sut.JSON(got)), want.JSON(); g != w {
		c.Failf("changed", "services %v: %s", list, vh.Diff(w, g))
		return
	}
	// unless types of services which are still there have been dropped, the schema is valid
	if selecting || !shake {
		if _, err := sut.CheckResolved(got, want); err != nil {
			c.Failf("types", "services %v: %v", list, err)
		}
		if _, err := schema.ParseSchemaJSON([]byte(sut.JSON(got))); err != nil {
			c.Failf("invalid", "services %v: what is left is not valid: %v", list, err)
		}
	}
	if cli.Path() != "" && c.Index%12 == 0 && !fromJSON && selecting && !unknown && !contains(list, "NoSuchService") {
		c14cli(c, s, text, list, include, used, other, shake)
	}
}

func noNull(j string) string {
	for _, k := range []string{"types", "services", "errors"} {
		j = strings.ReplaceAll(j, `"`+k+`": null`, `"`+k+`": []`)
	}
	return j
}

// expectShaken is what must be left. Types which nothing refers to may stay or go.
func expectShaken(c *vh.Case, s *model.Schema, include, used, other, names map[string]bool, shake, selecting bool) *model.Schema {
	want := s.Clone()
	want.Types, want.Services = nil, nil
	for _, t := range s.Types {
		switch {
		case !shake:
		case used[t.Name]:
			c.Count("types kept", 1)
			if !names[t.Name] {
				c.Failf("dropped", "type %s is used but dropped", t.Name)
				return nil
			}
		case other[t.Name]:
			c.Count("types dropped", 1)
			if names[t.Name] {
				c.Failf("kept", "type %s is used only by other services, but kept", t.Name)
				return nil
			}
			continue
		case !names[t.Name]:
			continue
		}
		want.Types = append(want.Types, t)
	}
	for _, svc := range s.Services {
		if !selecting || include[svc.Name] {
			want.Services = append(want.Services, svc)
		}
	}
	return want
}

func c14cli(c *vh.Case, s *model.Schema, text string, list []string, include, used, other map[string]bool, shake bool) {
	dir, done := cli.Dir()
	defer done()
	cli.Write(dir, map[string]string{"main.ridl": text})
	args := []string{"-schema=main.ridl", "-target=json", "-service=" + strings.Join(list, ",")}
	if shake {
		args = append(args, "-methodTreeShake")
	}
	c.R.Shuffle(len(args), func(i, j int) { args[i], args[j] = args[j], args[i] })
	res := cli.Run(dir, nil, args...)
	if res.Code != 0 {
		c.Failf("cli", "%q exits with %d: %s", args, res.Code, res.Err)
		return
	}
	got, err := schema.ParseSchemaJSON([]byte(res.Out))
	if err != nil {
		c.Failf("cli", "%q: the result is not valid: %v", args, err)
		return
	}
	names := map[string]bool{}
	for _, t := range got.Types {
		names[t.Name] = true
	}
	want := expectShaken(c, s, include, used, other, names, shake, true)
	if want == nil {
		return
	}
	if want.BasePath == "" {
		want.BasePath = "/rpc/"
	}
	if g, w := noNull(res.Out), want.JSON()+"\n"; g != w {
		c.Failf("cli", "%q: %s", args, vh.Diff(w, g))
	}
	c.Count("selections on the command line", 1)
}
