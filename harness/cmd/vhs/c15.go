package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/webrpc/webrpc/schema"

	"verif/harness/internal/model"
	"verif/harness/internal/sut"
	"verif/harness/internal/vh"
)

var c15 = &vh.Prop{
	ID: "C15", Quick: 16000, Thorough: 400000,
	Rule:    "random schemas in which few or many fields are bigints, with cyclic graphs of structs, in several orders of declaration; the analysis is compared with reachability in the model; distinct by schema",
	Require: map[string]int{"schemas using bigints": 3000, "schemas without bigints": 1500, "entries": 10000, "nested entries": 3000, "request and response entries": 1000, "cyclic schemas": 1000, "large schemas": 100, "meshes": 50},
	Run:     c15run,
}

func c15run(c *vh.Case) {
	var s *model.Schema
	opts := model.Options{MinTypes: 1, Types: 3 + c.R.IntN(12), Errors: 1, Services: 3}
	if c.Index%80 == 79 { // long ways to a bigint
		opts.MinTypes, opts.Types = 40, 90
		c.Count("large schemas", 1)
	}
	if sut.Huge(c) {
		opts.MinTypes, opts.Types, opts.Services, opts.Huge = 60, 180, 8, true
	}
	for {
		s = model.New(c.R, opts)
		if !strings.Contains(strings.ToLower(strings.Join(names(s), " ")), "bigint") {
			break
		}
	}
	// request and response names of their own
	k := 0
	for _, svc := range s.Services {
		for _, m := range svc.Methods {
			k++
			m.Name = fmt.Sprintf("%s_m%d", m.Name, k)
		}
	}
	if c15shape(c, s) {
		c.Count("cyclic schemas", 1)
	}
	c.Distinct(s.JSON())
	wantUses, want := c15ref(s, "Request", "Response")
	_, wantCompat := c15ref(s, "Args", "Return")
	if wantUses {
		c.Count("schemas using bigints", 1)
	} else {
		c.Count("schemas without bigints", 1)
	}
	for _, l := range want {
		c.Count("entries", len(l))
		for _, x := range l {
			if _, ok := x.([2]string); ok {
				c.Count("nested entries", 1)
			}
		}
	}
	for n := range want {
		if s.Type(n) == nil {
			c.Count("request and response entries", 1)
		}
	}
	for i := range 3 {
		t := s
		if i > 0 {
			t = shuffleTypes(c.R, s)
		}
		var got *schema.WebRPCSchema
		if i == 2 {
			got = sut.AcceptedJSON(c, t.JSON(), t) // any order
		} else {
			sortKinds(t)
			got = sut.Accepted(c, model.Render(t, nil, model.RandomStyle(c.R)), t)
		}
		if got == nil {
			return
		}
		before := sut.JSON(got)
		for range 2 {
			if uses := schema.SchemaUsesBigInts(got); uses != wantUses {
				c.Failf("uses", "SchemaUsesBigInts is %v instead of %v", uses, wantUses)
				return
			}
			for _, mode := range []struct {
				opts []bool
				want map[string][]any
			}{{nil, want}, {[]bool{false}, want}, {[]bool{true}, wantCompat}} {
				m := schema.SchemaBigIntFieldsByType(got, mode.opts...)
				if len(m) == 0 && len(mode.want) == 0 {
					continue
				}
				if !reflect.DeepEqual(m, mode.want) {
					c.Failf("fields", "SchemaBigIntFieldsByType%v: %s", mode.opts, vh.Diff(showBig(mode.want), showBig(m)))
					return
				}
			}
		}
		if after := sut.JSON(got); after != before {
			c.Failf("changed", "the schema changed: %s", vh.Diff(before, after))
		}
		if _, err := sut.CheckResolved(got, t); err != nil {
			c.Failf("changed", "the schema changed: %v", err)
		}
	}
	if schema.SchemaUsesBigInts(nil) {
		c.Failf("uses", "nothing uses bigints")
	}
}

func showBig(m map[string][]any) string {
	var out []string
	for k, v := range m {
		out = append(out, fmt.Sprintf("%s: %v", k, v))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// c15shape decides how many bigints there are, and how structs are linked.
func c15shape(c *vh.Case, s *model.Schema) bool {
	r := c.R
	rate := model.Pick(r, []int{0, 2, 2, 5, 10, 40})
	var structs []*model.Type
	for _, t := range s.Types {
		if t.Kind == "struct" {
			structs = append(structs, t)
		}
	}
	link := model.Pick(r, []int{0, 20, 50})
	vt := func(p **model.VT) {
		switch {
		case model.Chance(r, rate):
			*p = model.Pick(r, []*model.VT{
				{Core: "bigint"}, {Core: "bigint"}, {Elem: &model.VT{Core: "bigint"}},
				// not among the forms
				{Elem: &model.VT{Elem: &model.VT{Core: "bigint"}}}, {Key: &model.VT{Core: "string"}, Val: &model.VT{Core: "bigint"}},
			}).Clone()
		case len(structs) > 0 && model.Chance(r, link):
			ref := &model.VT{Ref: model.Pick(r, structs).Name}
			*p = model.Pick(r, []*model.VT{ref, ref, {Elem: ref}, {Elem: ref}, {Elem: &model.VT{Elem: ref}}, {Key: &model.VT{Core: "string"}, Val: ref}}).Clone()
		case isBig(*p):
			*p = &model.VT{Core: "int"}
		}
	}
	for _, t := range s.Types {
		if t.Kind == "alias" && isBig(t.Type) && rate == 0 {
			t.Type = &model.VT{Core: "int"}
		}
		for _, f := range t.Fields {
			if f.Type != nil {
				vt(&f.Type)
			}
		}
	}
	cyclic := false
	if len(structs) > 1 && model.Chance(r, 50) {
		cyclic = true
		k := 2 + r.IntN(len(structs)-1)
		ring := append([]*model.Type{}, structs...)
		r.Shuffle(len(ring), func(i, j int) { ring[i], ring[j] = ring[j], ring[i] })
		ring = ring[:k]
		for i, t := range ring {
			f := &model.Field{Name: "ring", Type: &model.VT{Ref: ring[(i+1)%k].Name}}
			if model.Chance(r, 30) {
				f.Type = &model.VT{Elem: f.Type}
			}
			at := r.IntN(len(t.Fields) + 1)
			t.Fields = append(t.Fields[:at:at], append([]*model.Field{f}, t.Fields[at:]...)...)
		}
		if model.Chance(r, 70) {
			// a single bigint somewhere
			t := model.Pick(r, structs)
			t.Fields = append(t.Fields, &model.Field{Name: "big", Type: model.Pick(r, []*model.VT{{Core: "bigint"}, {Elem: &model.VT{Core: "bigint"}}})})
		}
	}
	if model.Chance(r, 1) && s.Type("Mesh0") == nil {
		all := mesh(r, s)
		if model.Chance(r, 50) {
			t := model.Pick(r, all)
			t.Fields = append(t.Fields, &model.Field{Name: "big", Type: &model.VT{Core: "bigint"}})
		}
		if len(structs) > 0 {
			t := model.Pick(r, structs)
			t.Fields = append(t.Fields, &model.Field{Name: "mesh", Type: &model.VT{Ref: model.Pick(r, all).Name}})
		}
		cyclic = true
		c.Count("meshes", 1)
	}
	if len(structs) > 0 && model.Chance(r, 2) { // the last of many fields
		t := model.Pick(r, structs)
		for i := range model.Pick(r, []int{130, 260, 600}) {
			t.Fields = append(t.Fields, &model.Field{Name: fmt.Sprintf("wide%d", i), Type: &model.VT{Core: "int"}})
		}
		t.Fields = append(t.Fields, &model.Field{Name: "last", Type: model.Pick(r, []*model.VT{{Core: "bigint"}, {Ref: model.Pick(r, structs).Name}, {Elem: &model.VT{Ref: t.Name}}})})
		c.Count("wide structs", 1)
	}
	for _, svc := range s.Services {
		for _, m := range svc.Methods {
			if m.Succinct {
				continue
			}
			for _, a := range append(append([]*model.Arg{}, m.In...), m.Out...) {
				vt(&a.Type)
			}
		}
	}
	return cyclic
}

func isBig(t *model.VT) bool {
	if t == nil {
		return false
	}
	return t.Core == "bigint" || isBig(t.Elem) || isBig(t.Val)
}

func c15ref(s *model.Schema, req, resp string) (bool, map[string][]any) {
	// structs from which a bigint is found: least fixed point
	has := map[string]bool{}
	form := func(name string, t *model.VT) any {
		list := ""
		if t.Elem != nil {
			list, t = "[]", t.Elem
		}
		switch {
		case t.Core == "bigint":
			return name + list
		case t.Ref != "" && has[t.Ref]:
			return [2]string{name, t.Ref + list}
		}
		return nil
	}
	for again := true; again; {
		again = false
		for _, t := range s.Types {
			if t.Kind != "struct" || has[t.Name] {
				continue
			}
			for _, f := range t.Fields {
				if form(f.Name, f.Type) != nil {
					has[t.Name], again = true, true
					break
				}
			}
		}
	}
	uses := len(has) > 0
	out := map[string][]any{}
	for _, t := range s.Types {
		if t.Kind != "struct" {
			continue
		}
		for _, f := range t.Fields {
			if x := form(f.Name, f.Type); x != nil {
				out[t.Name] = append(out[t.Name], x)
			}
		}
	}
	for _, svc := range s.Services {
		for _, m := range svc.Methods {
			for i, args := range [][]*model.Arg{m.In, m.Out} {
				for _, a := range args {
					if x := form(a.Name, a.Type); x != nil {
						uses = true
						if !m.Succinct {
							n := m.Name + []string{req, resp}[i]
							out[n] = append(out[n], x)
						}
					}
				}
			}
		}
	}
	return uses, out
}
