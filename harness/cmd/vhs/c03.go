package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"

	"verif/harness/internal/model"
	"verif/harness/internal/sut"
	"verif/harness/internal/vh"
)

var c03 = &vh.Prop{
	ID: "C03", Quick: 20000, Thorough: 600000,
	Rule:    "random schemas (every feature, reserved and non-ASCII words as names and values) written as RIDL in a random layout; distinct by document",
	Require: map[string]int{"struct": 1000, "enum": 1000, "alias": 1000, "errors": 1000, "methods": 1000},
	Run: func(c *vh.Case) {
		s := model.New(c.R, sut.Sizes(c))
		if c.Index == 77 {
			vast(c, s)
		}
		st := model.RandomStyle(c.R)
		st.Inches = true
		text := model.Render(s, nil, st)
		c.Distinct(text)
		sut.CountSchema(c, s)
		got := sut.Accepted(c, text, s)
		if got == nil {
			return
		}
		// what the JSON form doesn't show
		for i, svc := range got.Services {
			for j, m := range svc.Methods {
				want := s.Services[i].Methods[j]
				if m.Service != svc || svc.Schema != got {
					c.Failf("back-reference", "method %s.%s does not refer to its service and schema", svc.Name, m.Name)
				}
				if m.StreamInput != want.StreamIn || m.StreamOutput != want.StreamOut || m.Succinct != want.Succinct {
					c.Failf("flags", "method %s.%s has the wrong flags", svc.Name, m.Name)
				}
				for _, a := range m.Inputs {
					if !a.InputArg || a.OutputArg {
						c.Failf("back-reference", "input %s of %s.%s is not marked as such", a.Name, svc.Name, m.Name)
					}
				}
				for _, a := range m.Outputs {
					if !a.OutputArg || a.InputArg {
						c.Failf("back-reference", "output %s of %s.%s is not marked as such", a.Name, svc.Name, m.Name)
					}
				}
			}
		}
		if len(text) < 1500 {
			c.Sample(map[string]any{"case": c.Index, "document": text})
		}
	},
}

// vast adds definitions with more parts than 16 bits can count.
func vast(c *vh.Case, s *model.Schema) {
	c.Count("vast schemas", 1)
	enum := &model.Type{Kind: "enum", Name: "VastEnum", Type: raw("uint32")}
	object := &model.Type{Kind: "struct", Name: "VastStruct"}
	method := &model.Method{Name: "VastMethod"}
	for i := range 70000 {
		enum.Fields = append(enum.Fields, &model.Field{Name: fmt.Sprintf("E%d", i), Value: strconv.Itoa(i)})
		object.Fields = append(object.Fields, &model.Field{Name: fmt.Sprintf("f%d", i), Type: raw("int")})
		method.In = append(method.In, &model.Arg{Name: fmt.Sprintf("a%d", i), Type: raw("bool")})
	}
	i := slices.IndexFunc(s.Types, func(t *model.Type) bool { return t.Kind == "struct" })
	if i < 0 {
		i = len(s.Types)
	}
	s.Types = append(slices.Insert(s.Types, i, enum), object)
	if len(s.Services) > 0 {
		s.Services[0].Methods = append(s.Services[0].Methods, method)
	}
}

var c04 = &vh.Prop{
	ID: "C04", Quick: 6000, Thorough: 200000,
	Rule:    "random schemas, each written in several random layouts and orders of declarations, and documents of the repository with changed layout; distinct by schema",
	Require: map[string]int{"pairs of layouts": 5000, "layouts of repository documents": 100},
	Run: func(c *vh.Case) {
		if c.Index%10 == 0 {
			c04repository(c)
			return
		}
		s := model.New(c.R, sut.Sizes(c))
		c.Distinct(s.JSON())
		first := model.Render(s, nil, model.PlainStyle())
		c.Attach("plain.ridl", first)
		a, err := sut.Parse1(first)
		if err != nil {
			c.Failf("rejected", "well-formed document is rejected: %v", err)
			return
		}
		want := sut.JSON(a)
		for range 4 {
			st := model.RandomStyle(c.R)
			text := model.Render(s, nil, st)
			c.Attach("other.ridl", text)
			b, err := sut.Parse1(text)
			if err != nil {
				c.Failf("rejected", "another layout of an accepted document is rejected: %v", err)
				return
			}
			c.Count("pairs of layouts", 1)
			if st.Shuffle {
				c.Count("with declarations moved", 1)
			}
			if j := sut.JSON(b); j != want {
				c.Failf("layout", "the layout changes the schema: %s", vh.Diff(want, j))
				return
			}
		}
		if len(first) < 1000 {
			c.Sample(map[string]any{"case": c.Index, "plain": first, "other": c.Attached()["other.ridl"]})
		}
	},
}

// repositoryDocuments are the RIDL documents which come with webrpc.
func repositoryDocuments() map[string]string {
	docs := map[string]string{}
	_ = filepath.WalkDir("/repo", func(path string, d os.DirEntry, err error) error {
		if err == nil && !d.IsDir() && strings.HasSuffix(path, ".ridl") {
			if b, err := os.ReadFile(path); err == nil {
				docs[strings.TrimPrefix(path, "/repo/")] = string(b)
			}
		}
		return nil
	})
	return docs
}

var leading = regexp.MustCompile(`^[ \t]*`)

func c04repository(c *vh.Case) {
	docs := repositoryDocuments()
	var names []string
	for name := range docs {
		names = append(names, name)
	}
	sort.Strings(names)
	if len(names) == 0 {
		return
	}
	name := model.Pick(c.R, names)
	c.Attach("name", name)
	c.Attach("before", docs[name])
	before, err1 := sut.Parse(docs, name)

	eol := model.Pick(c.R, []string{"\n", "\n", "\r\n"})
	lines := strings.Split(strings.ReplaceAll(docs[name], "\r\n", "\n"), "\n")
	var out []string
	for _, line := range lines {
		code := strings.TrimSpace(line)
		if model.Chance(c.R, 50) {
			line = strings.Repeat(model.Pick(c.R, []string{"", " ", "\t"}), c.R.IntN(5)) + code
		}
		if model.Chance(c.R, 30) {
			line += model.Pick(c.R, []string{" ", "\t", "   "})
		}
		out = append(out, line)
		if code != "" && !strings.HasPrefix(code, "#") && model.Chance(c.R, 20) {
			out = append(out, model.Pick(c.R, []string{"", "\t", " "}))
		}
		if code == "" && model.Chance(c.R, 30) {
			out = append(out, model.Pick(c.R, []string{"", "#! hidden", "\t#! struct X"}))
			out = append(out, "")
		}
	}
	text := strings.Join(out, eol)
	if model.Chance(c.R, 30) {
		text = strings.TrimRight(text, " \t\r\n")
	}
	c.Attach("after", text)
	c.Distinct(text)
	docs[name] = text
	after, err2 := sut.Parse(docs, name)
	c.Count("layouts of repository documents", 1)
	if (err1 == nil) != (err2 == nil) {
		c.Failf("repository-verdict", "%s: %v before, %v with another layout", name, err1, err2)
		return
	}
	if err1 != nil {
		c.Count("rejected repository documents", 1)
		return
	}
	if want, got := sut.JSON(before), sut.JSON(after); want != got {
		c.Failf("repository-layout", "%s: the layout changes the schema: %s", name, vh.Diff(want, got))
	}
}
