package main

import (
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"math/rand/v2"
	"strings"

	"github.com/webrpc/webrpc/schema"

	"verif/harness/internal/cli"
	"verif/harness/internal/model"
	"verif/harness/internal/sut"
	"verif/harness/internal/vh"
)

var c12 = &vh.Prop{
	ID: "C12", Quick: 5000, Thorough: 150000,
	Rule:    "random schemas in several layouts, split over files and as JSON, whose hash must be that of the model's JSON form; and variants of them in which a single attribute differs; distinct by JSON form",
	Require: map[string]int{"equal schemas": 5000, "single differences": 10000, "changes after hashing": 5000},
	Run:     c12run,
}

func refHash(s *model.Schema) string {
	h := sha1.Sum([]byte(s.JSON()))
	return hex.EncodeToString(h[:])
}

func c12run(c *vh.Case) {
	s := model.New(c.R, sut.Sizes(c))
	c12comments(c.R, s)
	j := s.JSON()
	c.Distinct(j)
	want := refHash(s)
	c.Attach("main.json", j)

	hash := func(what string, x *schema.WebRPCSchema) {
		before := sut.JSON(x)
		for i := range 2 {
			h, err := x.SchemaHash()
			if err != nil {
				c.Failf("error", "%s: no hash: %v", what, err)
				return
			}
			if h != want {
				c.Failf("hash", "%s: hash %d is %s instead of %s", what, i+1, h, want)
				return
			}
		}
		if after := sut.JSON(x); after != before {
			c.Failf("changed", "%s: the schema changed: %s", what, vh.Diff(before, after))
		}
		c.Count("equal schemas", 1)
	}
	for range 2 {
		st := model.RandomStyle(c.R)
		st.Comments = true
		x := sut.Accepted(c, model.Render(s, nil, st), s)
		if x == nil {
			return
		}
		hash("RIDL", x)
	}
	x := sut.AcceptedJSON(c, j, s)
	if x == nil {
		return
	}
	hash("JSON", x)
	// the same with other whitespace and with basepath as written
	raw := strings.ReplaceAll(s.JSONRaw(), "\n", "\n\t  ")
	if x := sut.AcceptedJSON(c, raw, s); x != nil {
		hash("JSON with other whitespace", x)
	}
	// the types in a file of their own
	imported := &model.Schema{Types: s.Types, Errors: s.Errors}
	own := &model.Schema{Name: s.Name, Version: s.Version, BasePath: s.BasePath, Services: s.Services}
	st := func() model.Style { st := model.RandomStyle(c.R); st.Comments = true; return st }
	files := map[string]string{
		"main.ridl":    model.Render(own, []model.Import{{Path: "./sub/t.ridl"}}, st()),
		"sub/t.ridl":   model.Render(imported, nil, st()),
		"sub/else.txt": "",
	}
	attachAll(c, files)
	x, err := sut.Parse(files, "main.ridl")
	if err != nil {
		c.Failf("rejected", "split document is rejected: %v", err)
		return
	}
	hash("imports", x)

	c12changed(c, x, want)

	seen := map[string]string{want: "the original"}
	for range 4 {
		m := s.Clone()
		kind := differ(c.R, m)
		if kind == "" || m.JSON() == j {
			continue
		}
		y, err := schema.ParseSchemaJSON([]byte(m.JSON()))
		if err != nil {
			continue // an attribute which breaks a rule
		}
		c.Attach("variant.json", m.JSON())
		h, err := y.SchemaHash()
		if err != nil {
			c.Failf("error", "%s: no hash: %v", kind, err)
			return
		}
		if h == want {
			c.Failf("same", "the hash doesn't tell apart schemas which differ in: %s", kind)
		} else if h != refHash(m) {
			c.Failf("hash", "%s: the hash is not that of the JSON form", kind)
		}
		if prev, ok := seen[h]; ok && prev != m.JSON() && h != want {
			c.Failf("same", "the hash doesn't tell apart two variants: %s", kind)
		}
		seen[h] = m.JSON()
		c.Count("single differences", 1)
		c.Count("difference: "+kind, 1)
	}
	if cli.Path() != "" && c.Index%25 == 0 {
		c12cli(c, s, files)
	}
}

// c12changed compares hashes of a schema which is changed after it had been hashed.
func c12changed(c *vh.Case, x *schema.WebRPCSchema, hashed string) {
	last := hashed
	text := sut.JSON(x)
	check := func(what string, x *schema.WebRPCSchema) {
		now := sut.JSON(x)
		h, err := x.SchemaHash()
		if err != nil {
			c.Failf("error", "%s: no hash: %v", what, err)
			return
		}
		sum := sha1.Sum([]byte(now))
		if want := hex.EncodeToString(sum[:]); h != want {
			c.Failf("changed-later", "%s: the hash is %s instead of %s", what, h, want)
		}
		if (now == text) != (h == last) {
			c.Failf("changed-later", "%s: the hash tells other than the JSON form: %v", what, now == text)
		}
		if now != text {
			c.Count("changes after hashing", 1)
		}
		last, text = h, now
	}
	for range 4 {
		switch c.R.IntN(8) {
		case 0:
			x.SchemaVersion += "1"
			check("version changed", x)
		case 1:
			x.SchemaName += "Q"
			check("name changed", x)
		case 2:
			x = schema.MatchMethodsWithAnnotations(x, map[string]string{"auth": ""})
			check("methods matched", x)
		case 3:
			x = schema.IgnoreMethodsWithAnnotations(x, map[string]string{"auth": ""}, map[string]string{"a": ""})
			check("methods ignored", x)
		case 4:
			if len(x.Services) > 0 {
				x = schema.MatchServices(x, []string{model.Pick(c.R, x.Services).Name})
				check("service matched", x)
			}
		case 5:
			if n := len(x.Errors); n > 0 {
				x.Errors[c.R.IntN(n)].Message += "!"
				check("message changed", x)
			}
		case 6:
			if n := len(x.Services); n > 0 {
				svc := x.Services[c.R.IntN(n)]
				svc.Comments = append(svc.Comments, "later")
				check("comment added", x)
			}
		default:
			if n := len(x.Types); n > 0 {
				if t := x.Types[c.R.IntN(n)]; len(t.Fields) > 0 {
					f := t.Fields[c.R.IntN(len(t.Fields))]
					f.Meta = append(f.Meta, schema.TypeFieldMeta{"later": "1"})
					check("meta added", x)
				}
			}
		}
	}
}

// c12comments adds comments to definitions.
func c12comments(r *rand.Rand, s *model.Schema) {
	text := func() (out []string) {
		if model.Chance(r, 60) {
			return nil
		}
		for range 1 + r.IntN(3) {
			out = append(out, fmt.Sprintf("comment %d %s", r.IntN(1000), model.Pick(r, []string{"é", "<b>", "of it", "\"x\"", "# y"})))
		}
		return out
	}
	for _, t := range s.Types {
		if t.Kind != "enum" {
			t.Comments = text()
		}
		for _, f := range t.Fields {
			f.Comments = text()
		}
	}
	for _, svc := range s.Services {
		svc.Comments = text()
		for _, m := range svc.Methods {
			m.Comments = text()
		}
	}
}

// differ changes a single attribute, which may be one which has to be refused.
func differ(r *rand.Rand, s *model.Schema) string {
	type change struct {
		what string
		f    func()
	}
	var all []change
	add := func(what string, f func()) { all = append(all, change{what, f}) }
	str := func(what string, p *string) {
		add(what, func() {
			switch v := *p; {
			case v == "" || model.Chance(r, 40):
				*p += model.Pick(r, []string{"x", " ", "é", "0", "_", "\r\n", "\n", "\r", "\t", "\\n", "\u2028", "\u200b", "e\u0301", "\u00a0", "<", "\"", "/"})
			case model.Chance(r, 50):
				*p = caseOf(r, v)
			default:
				b := []rune(v)
				*p = string(b[:len(b)-1]) + "Q"
			}
		})
	}
	flag := func(what string, p *bool) { add(what, func() { *p = !*p }) }
	num := func(what string, p *int) { add(what, func() { *p += model.Pick(r, []int{1, -1, 10, 100}) }) }
	vt := func(what string, p **model.VT) {
		if *p != nil {
			add(what, func() {
				*p = model.Pick(r, []*model.VT{{Core: "string"}, {Core: "int64"}, {Elem: (*p).Clone()}, {Key: &model.VT{Core: "string"}, Val: (*p).Clone()}})
			})
		}
	}
	comments := func(what string, p *[]string) {
		add(what+" comment added", func() { *p = append(*p, "one more") })
		if len(*p) > 0 {
			add(what+" comment", func() { (*p)[0] += "!" })
			add(what+" comment removed", func() { *p = (*p)[1:] })
		}
		if len(*p) > 1 {
			add(what+" comment order", func() { (*p)[0], (*p)[1] = (*p)[1], (*p)[0] })
			add(what+" comments joined", func() { *p = append([]string{(*p)[0] + " " + (*p)[1]}, (*p)[2:]...) })
		}
	}
	meta := func(what string, p *[]model.KV) {
		add(what+" meta added", func() { *p = append(*p, model.KV{K: "z.z", V: "1"}) })
		for i := range *p {
			str(what+" meta key", &(*p)[i].K)
			str(what+" meta value", &(*p)[i].V)
			add(what+" meta removed", func() { *p = append((*p)[:i:i], (*p)[i+1:]...) })
		}
		if len(*p) > 1 {
			add(what+" meta order", func() { (*p)[0], (*p)[1] = (*p)[1], (*p)[0] })
		}
	}
	str("schema name", &s.Name)
	str("schema version", &s.Version)
	str("basepath", &s.BasePath)
	for i, t := range s.Types {
		add("type name", func() { rename(s, t.Name, t.Name+"Q") })
		add("type name case", func() { rename(s, t.Name, upperFirst(caseOf(r, t.Name))) })
		comments(t.Kind, &t.Comments)
		meta(t.Kind, &t.Meta)
		vt(t.Kind+" type", &t.Type)
		if i > 0 {
			add("type order", func() { s.Types[i], s.Types[i-1] = s.Types[i-1], s.Types[i] })
		}
		for k, f := range t.Fields {
			str(t.Kind+" field name", &f.Name)
			comments(t.Kind+" field", &f.Comments)
			if t.Kind == "struct" {
				vt("field type", &f.Type)
				flag("field optional", &f.Optional)
				meta("field", &f.Meta)
			} else {
				str("enum value", &f.Value)
			}
			if k > 0 {
				add(t.Kind+" field order", func() { t.Fields[k], t.Fields[k-1] = t.Fields[k-1], t.Fields[k] })
			}
			add(t.Kind+" field removed", func() { t.Fields = append(t.Fields[:k:k], t.Fields[k+1:]...) })
		}
	}
	for i, e := range s.Errors {
		num("error code", &e.Code)
		num("error status", &e.Status)
		str("error message", &e.Message)
		if i > 0 {
			add("error order", func() { s.Errors[i], s.Errors[i-1] = s.Errors[i-1], s.Errors[i] })
		}
		add("error name", func() {
			old := e.Name
			e.Name += "Q"
			for _, svc := range s.Services {
				for _, m := range svc.Methods {
					for k := range m.Errors {
						if m.Errors[k] == old {
							m.Errors[k] = e.Name
						}
					}
				}
			}
		})
	}
	for i, svc := range s.Services {
		str("service name", &svc.Name)
		comments("service", &svc.Comments)
		if i > 0 {
			add("service order", func() { s.Services[i], s.Services[i-1] = s.Services[i-1], s.Services[i] })
		}
		for k, m := range svc.Methods {
			str("method name", &m.Name)
			comments("method", &m.Comments)
			flag("stream input", &m.StreamIn)
			flag("stream output", &m.StreamOut)
			if k > 0 {
				add("method order", func() { svc.Methods[k], svc.Methods[k-1] = svc.Methods[k-1], svc.Methods[k] })
			}
			add("annotation added", func() { m.Annotations = append(m.Annotations, model.Annotation{Name: "zz"}) })
			for n := range m.Annotations {
				str("annotation name", &m.Annotations[n].Name)
				str("annotation value", &m.Annotations[n].Value)
			}
			if len(m.Errors) > 0 {
				add("method error removed", func() { m.Errors = m.Errors[1:] })
			}
			if len(m.Errors) > 1 {
				add("method error order", func() { m.Errors[0], m.Errors[1] = m.Errors[1], m.Errors[0] })
			}
			for _, list := range [][]*model.Arg{m.In, m.Out} {
				for n, a := range list {
					vt("argument type", &a.Type)
					if !m.Succinct {
						str("argument name", &a.Name)
						flag("argument optional", &a.Optional)
					}
					if n > 0 {
						add("argument order", func() { list[n], list[n-1] = list[n-1], list[n] })
					}
				}
			}
		}
	}
	// first the kind, so that rare ones have their turn
	var kinds []string
	by := map[string][]change{}
	for _, ch := range all {
		if by[ch.what] == nil {
			kinds = append(kinds, ch.what)
		}
		by[ch.what] = append(by[ch.what], ch)
	}
	kind := model.Pick(r, kinds)
	model.Pick(r, by[kind]).f()
	return kind
}

// c12cli compares the hash and the header which templates see.
func c12cli(c *vh.Case, s *model.Schema, files map[string]string) {
	dir, done := cli.Dir()
	defer done()
	cli.Write(dir, files)
	cli.Write(dir, map[string]string{"tmpl/main.go.tmpl": `{{define "main"}}{{.SchemaHash}}|{{.WebrpcHeader}}{{end}}`})
	m := s.Clone()
	if m.BasePath == "" && len(m.Services) > 0 {
		m.BasePath = "/rpc/"
	}
	args := []string{"-schema=main.ridl", "-target=./tmpl"}
	if model.Chance(c.R, 50) {
		args = append(args, "-schemaVersion=v7.8.9")
		m.Version = "v7.8.9"
	} else if model.Chance(c.R, 50) {
		args = append(args, "-schemaVersion=")
		m.Version = ""
	}
	res := cli.Run(dir, nil, args...)
	if res.Code != 0 {
		c.Failf("cli", "%q exits with %d: %s", args, res.Code, res.Err)
		return
	}
	hash, header, _ := strings.Cut(strings.TrimSuffix(res.Out, "\n"), "|")
	want := refHash(m)
	if hash != want {
		c.Failf("cli-hash", "%q: templates see the hash %s instead of %s", args, hash, want)
	}
	version := m.Version
	if version == "" {
		version = "v0.0.0-" + want
		c.Count("headers with a hash", 1)
	}
	if tail := ";" + m.Name + "@" + version; !strings.HasSuffix(header, tail) {
		c.Failf("cli-header", "%q: the header %q does not end with %q", args, header, tail)
	}
	c.Count("hashes in templates", 1)
}
