package main

import (
	"strings"

	"github.com/webrpc/webrpc/schema"

	"verif/harness/internal/cli"
	"verif/harness/internal/model"
	"verif/harness/internal/sut"
	"verif/harness/internal/vh"
)

var c13 = &vh.Prop{
	ID: "C13", Quick: 8000, Thorough: 250000,
	Rule:    "random schemas and sets of filters made from their annotations (exact, other value, other case, without value, unknown), through the library and, for some, the command line; distinct by schema and filters",
	Require: map[string]int{"filters": 10000, "methods matched": 2000, "methods ignored": 2000, "methods with another value": 500},
	Run:     c13run,
}

// annotated gives methods many annotations.
func annotated(c *vh.Case, s *model.Schema) {
	names := []string{"auth", "public", "acl", "a", "A", "deprecated"}
	values := []string{"1", "2", "admin", "ADMIN", "admin user", "a:b", "é", "x"}
	for _, svc := range s.Services {
		for _, m := range svc.Methods {
			m.Annotations = nil
			for _, n := range names {
				if model.Chance(c.R, 60) {
					continue
				}
				a := model.Annotation{Name: n}
				if model.Chance(c.R, 70) {
					a.HasValue, a.Value = true, model.Pick(c.R, values)
				}
				m.Annotations = append(m.Annotations, a)
			}
		}
	}
}

type filter struct{ name, value string }

func (f filter) matches(m *model.Method) bool {
	for _, a := range m.Annotations {
		if a.Name == f.name && (f.value == "" || f.value == a.Value) {
			return true
		}
	}
	return false
}

// filtered is the schema with the methods which match, or the others.
func filtered(s *model.Schema, filters []filter, match bool) *model.Schema {
	w := s.Clone()
	for _, svc := range w.Services {
		var keep []*model.Method
		for _, m := range svc.Methods {
			hit := false
			for _, f := range filters {
				hit = hit || f.matches(m)
			}
			if hit == match {
				keep = append(keep, m)
			}
		}
		svc.Methods = keep
	}
	return w
}

func noNulls(j string) string { return strings.ReplaceAll(j, `"methods": null`, `"methods": []`) }

func c13run(c *vh.Case) {
	opts := model.Options{Types: 5, Errors: 3, Services: 4}
	if sut.Huge(c) {
		opts.Services, opts.Huge = 40, true
	}
	s := model.New(c.R, opts)
	for len(s.Services) == 0 {
		s = model.New(c.R, opts)
	}
	annotated(c, s)
	text := model.Render(s, nil, model.RandomStyle(c.R))
	j := s.JSON()
	c.Attach("main.ridl", text)

	repeated := model.Chance(c.R, 30)
	var filters []filter
	used := map[string]bool{}
	for range c.R.IntN(4) {
		f := filter{name: model.Pick(c.R, []string{"auth", "public", "acl", "a", "A", "deprecated", "unknown", "Auth"})}
		if used[f.name] && !repeated {
			continue
		}
		used[f.name] = true
		if model.Chance(c.R, 60) {
			f.value = model.Pick(c.R, []string{"1", "2", "admin", "ADMIN", "admin user", "a:b", "a", "é", "adm", "user", "x "})
		}
		filters = append(filters, f)
	}
	distinct := len(used) == len(filters)

	var spec []string
	for _, f := range filters {
		a := "@" + f.name
		if f.value != "" {
			a += ":" + f.value
		}
		spec = append(spec, a)
	}
	c.Attach("filters", strings.Join(spec, ","))
	c.Distinct(j + strings.Join(spec, ","))

	for _, match := range []bool{true, false} {
		want := filtered(s, filters, match)
		for _, svc := range want.Services {
			if match {
				c.Count("methods matched", len(svc.Methods))
			} else {
				c.Count("methods ignored", len(svc.Methods))
			}
		}
		name := map[bool]string{true: "match", false: "ignore"}[match]
		if distinct {
			got := sut.Accepted(c, text, s)
			if got == nil {
				return
			}
			annotations := map[string]string{}
			for _, f := range filters {
				annotations[f.name] = f.value
				if f.value != "" {
					c.Count("methods with another value", others(s, f))
				}
			}
			if c.R.IntN(4) == 0 { // from JSON
				got, _ = schema.ParseSchemaJSON([]byte(j))
			}
			for i := range 2 { // filtering again changes nothing
				if match {
					got = schema.MatchMethodsWithAnnotations(got, annotations)
				} else {
					got = schema.IgnoreMethodsWithAnnotations(got, annotations)
				}
				if g := noNulls(sut.JSON(got)); g != noNulls(want.JSON()) {
					c.Failf(name, "%s %s, time %d: %s", name, strings.Join(spec, ","), i+1, vh.Diff(want.JSON(), g))
					return
				}
			}
			if got == nil {
				c.Failf(name, "%s gives no schema", name)
				return
			}
			if n, err := sut.CheckResolved(got, want); err != nil {
				c.Failf(name+"-types", "%s: %v (after %d)", name, err, n)
			}
			c.Count("filters", 1)
		}
		if cli.Path() != "" && c.Index%10 == 0 && len(filters) > 0 {
			c13cli(c, s, text, name, spec, want, distinct)
		}
	}
}

func others(s *model.Schema, f filter) (n int) {
	for _, svc := range s.Services {
		for _, m := range svc.Methods {
			for _, a := range m.Annotations {
				if a.Name == f.name && a.Value != f.value {
					n++
				}
			}
		}
	}
	return n
}

func c13cli(c *vh.Case, s *model.Schema, text, name string, spec []string, want *model.Schema, distinct bool) {
	dir, done := cli.Dir()
	defer done()
	cli.Write(dir, map[string]string{"main.ridl": text})
	w := want.Clone()
	if w.BasePath == "" {
		w.BasePath = "/rpc/"
	}
	arg := "-" + name + "=" + strings.Join(spec, ",")
	res := cli.Run(dir, nil, "-schema=main.ridl", "-target=json", arg)
	if res.Code != 0 {
		c.Failf("cli-"+name, "%s: exits with %d: %s", arg, res.Code, res.Err)
		return
	}
	if got := noNulls(res.Out); got != w.JSON()+"\n" {
		c.Failf("cli-"+name, "%s: %s", arg, vh.Diff(w.JSON()+"\n", got))
		return
	}
	c.Count("filters on the command line", 1)
	if !distinct {
		c.Count("repeated annotations on the command line", 1)
	}
}
