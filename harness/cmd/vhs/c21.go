package main

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"github.com/webrpc/webrpc/schema"

	"verif/harness/internal/model"
	"verif/harness/internal/sut"
	"verif/harness/internal/vh"
)

var c21 = &vh.Prop{
	ID: "C21", Quick: 14000, Thorough: 400000,
	Rule:    "random documents with comments above, on and within definitions, annotations and methods, and with decoys that are detached, hidden or stand next to what takes no comments; every comment has a unique token; distinct by document",
	Require: map[string]int{"comments on struct": 2000, "comments on alias": 1000, "comments on struct fields": 2000, "comments on enum members": 1000, "comments on services": 1000, "comments on methods": 2000, "decoys": 10000},
	Run: func(c *vh.Case) {
		switch {
		case c.Index == 0:
			c21enum(c)
		case c.Index%8 == 1:
			c21files(c)
		default:
			c21run(c)
		}
	},
}

// Comments of an enum's declaration.
func c21enum(c *vh.Case) {
	doc := "webrpc = v1\n\n# above one\n# above two\nenum Kind: uint32 # on its line\n  # of A\n  - A\n"
	c.Attach("main.ridl", doc)
	s, err := sut.Parse1(doc)
	if err != nil {
		c.Failf("rejected", "rejected: %v", err)
		return
	}
	if got := strings.Join(s.Types[0].Comments, "|"); got != "above one|above two|on its line" {
		if got == "" {
			c.Failf("enum-declaration-comment", "the comments above and on the line of an enum are dropped")
		} else {
			c.Failf("enum-comment", "an enum has the comments %q", got)
		}
	}
	if got := strings.Join(s.Types[0].Fields[0].Comments, "|"); got != "of A" {
		c.Failf("meaning", "an enum member has the comments %q", got)
	}
}

type commenter struct {
	c *vh.Case
	n int
}

var commentTails = []string{
	"", "", "of it", "# x", "#x", `"q"`, `"unclosed`, "- a: int", "struct X", "@ann", "é 日本", "\\n", "a | b", "=> ( ) < >", "+ json = x", "error 1 A \"b\"", "service X", "!", "#!", "'", "webrpc = v2", "x, y; z.", "x , y", ", x", "a ,y : z", ": x . y", "a ( b ) [ c ] { d }", "x < y > z", "a = b ? c ! d", "x @ y | z + w", "{{.}}", "<b>&amp;</b>", "enum Y: int", "type Z: string", "\x00z", "🦄",
}

func (k *commenter) block(what string, percent int) (out []string) {
	r := k.c.R
	if !model.Chance(r, percent) {
		return nil
	}
	n := model.Pick(r, []int{1, 1, 2, 2, 3, 5})
	if model.Chance(r, 1) {
		n = 1 + r.IntN(150)
	}
	text := r.IntN(n) // a line which isn't empty
	for i := range n {
		if i != text && model.Chance(r, 10) {
			out = append(out, "")
			continue
		}
		if i > 0 && i != text && model.Chance(r, 5) { // a line may be there twice
			out = append(out, out[r.IntN(len(out))])
			continue
		}
		k.n++
		line := strings.TrimSpace(fmt.Sprintf("c%d %s", k.n, model.Pick(r, commentTails)))
		if model.Chance(r, 10) {
			line = model.Pick(r, []string{"#", "##", "#!", "#! ", "# !", "-!", `"`}) + line
		}
		out = append(out, line)
	}
	k.c.Count("comments on "+what, len(out))
	return out
}

func (k *commenter) all(s *model.Schema) {
	p := model.Pick(k.c.R, []int{20, 50, 90})
	for _, t := range s.Types {
		t.Comments = k.block(t.Kind, p)
		for _, f := range t.Fields {
			if t.Kind == "enum" {
				f.Comments = k.block("enum members", p)
			} else {
				f.Comments = k.block("struct fields", p)
			}
			for i := range f.Meta {
				if f.Meta[i].K != "json" && model.Chance(k.c.R, 10) {
					f.Meta[i].V = model.Pick(k.c.R, []string{`5"`, `a"b`, `a"b"c`, `x""`, `it's"`, `=","`})
					k.c.Count("values with quotes inside", 1)
				}
			}
		}
	}
	for _, svc := range s.Services {
		svc.Comments = k.block("services", p)
		for _, m := range svc.Methods {
			m.Comments = k.block("methods", p)
		}
	}
}

func commentStyle(r *rand.Rand, decoys *[]string) model.Style {
	st := model.RandomStyle(r)
	st.Comments, st.Enums, st.Decoys = true, true, decoys
	st.Inches = true
	return st
}

// dropEnumComments leaves out the comments of enums which webrpc leaves out: whether
// it takes them is decided by a case of its own.
func dropEnumComments(want *model.Schema, got *schema.WebRPCSchema) *model.Schema {
	want = want.Clone()
	for i, t := range want.Types {
		if t.Kind == "enum" && i < len(got.Types) && len(got.Types[i].Comments) == 0 {
			t.Comments = nil
		}
	}
	return want
}

func c21run(c *vh.Case) {
	s := model.New(c.R, sut.Sizes(c))
	k := &commenter{c: c}
	k.all(s)
	var decoys []string
	text := model.Render(s, nil, commentStyle(c.R, &decoys))
	if model.Chance(c.R, 15) { // the last line ends with the file
		text = strings.TrimRight(text, " \t\r\n") + model.Pick(c.R, []string{"", " ", "   ", "\t", "\r", "\t "})
	}
	c.Count("decoys", len(decoys))
	c.Attach("main.ridl", text)
	c.Distinct(text)
	got, err := sut.Parse1(text)
	if err != nil {
		c.Failf("rejected", "well-formed document is rejected: %v", err)
		return
	}
	if want, j := dropEnumComments(s, got).JSON(), sut.JSON(got); want != j {
		c.Failf("comments", "comments are not where they belong: %s", vh.Diff(want, j))
	}
}

// Comments of imported definitions.
func c21files(c *vh.Case) {
	k := &commenter{c: c}
	lib := model.New(c.R, model.Options{MinTypes: 1, Types: 6, Errors: 3, Services: 1, CodeBase: 1 << 20, Prefix: "L"})
	main := model.New(c.R, model.Options{Types: 6, Errors: 3, Services: 2, Foreign: lib.Types, ForeignErrors: lib.Errors})
	k.all(lib)
	k.all(main)
	var decoys []string
	if len(lib.Services) > 0 && main.Version == "" {
		main.Version = "v1"
	}
	files := map[string]string{
		"lib.ridl":  model.Render(lib, nil, commentStyle(c.R, &decoys)),
		"main.ridl": model.Render(main, []model.Import{{Path: "lib.ridl"}}, commentStyle(c.R, &decoys)),
	}
	c.Count("decoys", len(decoys))
	attachAll(c, files)
	c.Distinct(files["lib.ridl"] + files["main.ridl"])
	got, err := sut.Parse(files, "main.ridl")
	if err != nil {
		c.Failf("rejected", "well-formed documents are rejected: %v", err)
		return
	}
	all := main.Clone()
	all.Types = append(append([]*model.Type{}, lib.Types...), main.Types...)
	all.Errors = append(append([]*model.Error{}, lib.Errors...), main.Errors...)
	all.Services = append(append([]*model.Service{}, lib.Services...), main.Services...)
	if want, j := dropEnumComments(all, got).JSON(), sut.JSON(got); want != j {
		c.Failf("comments", "comments are not where they belong: %s", vh.Diff(want, j))
	}
}
