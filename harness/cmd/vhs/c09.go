package main

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/webrpc/webrpc"
	"github.com/webrpc/webrpc/schema"

	"verif/harness/internal/cli"
	"verif/harness/internal/model"
	"verif/harness/internal/sut"
	"verif/harness/internal/vh"
)

var c09 = &vh.Prop{
	ID: "C09", Quick: 6000, Thorough: 200000,
	Rule: "random valid schemas as RIDL and as JSON in many spellings (order of keys, escapes, space), taken through four round trips, with every reachable field of the schemas compared; distinct by document",
	Require: map[string]int{
		"round trips": 20000, "structures compared": 10000, "nodes compared": 1000000, "JSON spellings": 5000, "validated again": 5000, "JSON-only schemas": 500, "files": 300,
	},
	Run: c09run,
}

// dump writes everything that can be reached from a value, in a form in which
// empty lists and maps are the same whether nil or not. Types, services and
// methods which are met again are only named.
func dump(v any) (string, int) {
	var b strings.Builder
	n := 0
	seen := map[any]int{}
	var walk func(path string, v reflect.Value)
	walk = func(path string, v reflect.Value) {
		n++
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() {
				return
			}
			if v.Elem().Kind() == reflect.Struct {
				if at, ok := seen[v.Interface()]; ok {
					fmt.Fprintf(&b, "%s: see %d\n", path, at)
					return
				}
				seen[v.Interface()] = len(seen)
			}
			walk(path, v.Elem())
		case reflect.Struct:
			fmt.Fprintf(&b, "%s: %s\n", path, v.Type().Name())
			for i := range v.NumField() {
				if v.Type().Field(i).IsExported() {
					walk(path+"."+v.Type().Field(i).Name, v.Field(i))
				}
			}
		case reflect.Slice:
			for i := range v.Len() {
				walk(fmt.Sprintf("%s[%d]", path, i), v.Index(i))
			}
		case reflect.Map:
			keys := v.MapKeys()
			sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
			for _, k := range keys {
				walk(fmt.Sprintf("%s[%q]", path, fmt.Sprint(k)), v.MapIndex(k))
			}
		case reflect.Interface:
			if !v.IsNil() {
				walk(path, v.Elem())
			}
		default:
			if !v.IsZero() || !strings.Contains(path, ".") {
				fmt.Fprintf(&b, "%s = %#v\n", path, v.Interface())
			}
		}
	}
	walk("schema", reflect.ValueOf(v))
	return b.String(), n
}

// respell writes JSON in another way: keys in any order, escapes, space.
func respell(r *rand.Rand, text string) string {
	dec := json.NewDecoder(strings.NewReader(text))
	dec.UseNumber()
	var v any
	if err := dec.Decode(&v); err != nil {
		panic(err)
	}
	var b strings.Builder
	pretty := model.Chance(r, 50)
	sp := func() {
		if pretty && model.Chance(r, 50) {
			b.WriteString(model.Pick(r, []string{" ", "\n", "\t", "\r\n", "   "}))
		}
	}
	str := func(s string) {
		b.WriteByte('"')
		for _, c := range s {
			switch {
			case c > 0xffff:
				if model.Chance(r, 50) {
					hi, lo := 0xd800+(c-0x10000)>>10, 0xdc00+(c-0x10000)&0x3ff
					fmt.Fprintf(&b, "\\u%04x\\u%04X", hi, lo)
					continue
				}
				b.WriteRune(c)
			case c == '"' || c == '\\':
				if model.Chance(r, 50) {
					fmt.Fprintf(&b, "\\u%04x", c)
				} else {
					b.WriteByte('\\')
					b.WriteRune(c)
				}
			case c < 0x20 || model.Chance(r, 4):
				if c == '\n' {
					b.WriteString("\\n")
				} else {
					fmt.Fprintf(&b, "\\u%04x", c)
				}
			case c == '/' && model.Chance(r, 30):
				b.WriteString("\\/")
			default:
				b.WriteRune(c)
			}
		}
		b.WriteByte('"')
	}
	var walk func(v any)
	walk = func(v any) {
		sp()
		switch v := v.(type) {
		case map[string]any:
			keys := make([]string, 0, len(v))
			for k := range v {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
			b.WriteByte('{')
			for i, k := range keys {
				if i > 0 {
					b.WriteByte(',')
				}
				sp()
				str(k)
				sp()
				b.WriteByte(':')
				walk(v[k])
			}
			b.WriteByte('}')
		case []any:
			b.WriteByte('[')
			for i, x := range v {
				if i > 0 {
					b.WriteByte(',')
				}
				walk(x)
			}
			b.WriteByte(']')
		case string:
			str(v)
		case nil:
			b.WriteString("null")
		default:
			fmt.Fprint(&b, v)
		}
		sp()
	}
	walk(v)
	return b.String()
}

func c09run(c *vh.Case) {
	if c.Index%10 == 7 {
		c09jsonOnly(c)
		return
	}
	m := model.New(c.R, sut.Sizes(c))
	if model.Chance(c.R, 50) {
		c12comments(c.R, m)
	}
	for _, t := range m.Types {
		if t.Kind == "enum" {
			t.Comments = nil
		}
	}
	text := model.Render(m, nil, styleWithComments(c.R))
	c.Distinct(text)
	want := m.JSON()
	first := sut.Accepted(c, text, m)
	if first == nil {
		return
	}
	reference, n := dump(first)
	c.Count("nodes compared", n)
	hash, err := first.SchemaHash()
	if err != nil {
		c.Failf("hash", "%v", err)
		return
	}

	same := func(what string, s *schema.WebRPCSchema) bool {
		if j := sut.JSON(s); j != want {
			c.Failf("bytes", "%s: the JSON form has changed: %s", what, vh.Diff(want, j))
			return false
		}
		if h, err := s.SchemaHash(); err != nil || h != hash {
			c.Failf("hash", "%s: the hash has changed from %s to %s: %v", what, hash, h, err)
			return false
		}
		d, n := dump(s)
		c.Count("structures compared", 1)
		c.Count("nodes compared", n)
		if d != reference {
			c.Failf("structure", "%s: the schema has changed: %s", what, vh.Diff(reference, d))
			return false
		}
		if _, err := sut.CheckResolved(s, m); err != nil {
			c.Failf("resolved", "%s: %v", what, err)
			return false
		}
		return true
	}
	s := first
	for i := range 4 {
		j := sut.JSON(s)
		if i == 1 {
			j = respell(c.R, j)
			c.Count("JSON spellings", 1)
		}
		c.Attach("main.json", j)
		next, err := schema.ParseSchemaJSON([]byte(j))
		if err != nil {
			c.Failf("json-rejected", "round trip %d: the JSON form is rejected: %v", i+1, err)
			return
		}
		c.Count("round trips", 1)
		if !same(fmt.Sprintf("round trip %d", i+1), next) {
			return
		}
		s = next
	}
	for _, s := range []*schema.WebRPCSchema{first, s} {
		for range 1 + c.R.IntN(3) {
			if err := s.Validate(); err != nil {
				c.Failf("validate", "an accepted schema is rejected when validated again: %v", err)
				return
			}
			c.Count("validated again", 1)
		}
		if !same("validated again", s) {
			return
		}
	}
	if c.Index%12 == 0 {
		c09files(c, m, text, want, same)
	}
}

func styleWithComments(r *rand.Rand) model.Style {
	st := model.RandomStyle(r)
	st.Comments = true
	return st
}

// c09files does the same through files and the command line.
func c09files(c *vh.Case, m *model.Schema, text, want string, same func(string, *schema.WebRPCSchema) bool) {
	dir, done := cli.Dir()
	defer done()
	cli.Write(dir, map[string]string{"a.ridl": text, "a.json": want, "t/main.go.tmpl": dumpAll})
	for _, name := range []string{"a.ridl", "a.json"} {
		s, err := webrpc.ParseSchemaFile(filepath.Join(dir, name))
		if err != nil {
			c.Failf("file", "%s is rejected: %v", name, err)
			return
		}
		c.Count("files", 1)
		if !same("file "+name, s) {
			return
		}
	}
	if cli.Path() == "" || c.Index%60 != 0 {
		return
	}
	for _, target := range []string{"json", "./t", "golang", "typescript"} {
		var out [2]string
		for i, name := range []string{"a.ridl", "a.json"} {
			res := cli.Run(dir, cli.Env(dir), "-schema="+name, "-target="+target)
			if res.Code != 0 && (target == "json" || target == "./t") {
				c.Attach("output", res.Err)
				c.Failf("cli", "webrpc-gen -target=%s fails for %s", target, name)
				return
			}
			// code which cannot be formatted is an error, and written nevertheless
			out[i] = fmt.Sprintf("status %d\n%s", res.Code, res.Out)
		}
		c.Count("generations from both forms", 1)
		if out[0] != out[1] {
			c.Failf("generated", "-target=%s gives other code for the JSON form: %s", target, vh.Diff(out[0], out[1]))
			return
		}
		if target == "json" && m.BasePath != "" && strings.TrimSpace(out[0]) != strings.TrimSpace("status 0\n"+want) {
			c.Failf("generated", "-target=json isn't the JSON form: %s", vh.Diff(want, out[0]))
			return
		}
	}
}

const dumpAll = `{{define "main"}}{{.SchemaName}} {{.SchemaVersion}} {{.SchemaHash}} {{.BasePath}} {{.WebrpcHeader}}
{{range .Types}}{{.Kind}} {{.Name}} {{.Type}} {{range .Comments}}[{{.}}]{{end}}{{range .Fields}}
  {{.Name}} {{.Type}} {{.Optional}} {{.Value}} {{.Meta}} {{range .Comments}}[{{.}}]{{end}}{{end}}
{{end}}{{range .Errors}}{{.Code}} {{.Name}} {{.Message}} {{.HTTPStatus}}
{{end}}{{range .Services}}{{.Name}} {{range .Comments}}[{{.}}]{{end}}{{range .Methods}}
  {{.Name}} {{.Succinct}} {{.StreamInput}} {{.StreamOutput}} {{range $k, $v := .Annotations}}@{{$k}}:{{$v.Value}} {{end}}{{range .Comments}}[{{.}}]{{end}}{{range .Inputs}}
    {{.Name}} {{.Type}} {{.Optional}}{{end}} =>{{range .Outputs}}
    {{.Name}} {{.Type}} {{.Optional}}{{end}} {{.Errors}}{{end}}
{{end}}{{end}}`

// c09jsonOnly takes schemas which only JSON can express through round trips.
func c09jsonOnly(c *vh.Case) {
	m := rich(c)
	r := c.R
	for _, t := range m.Types {
		if model.Chance(r, 30) {
			rename(m, t.Name, t.Name+model.Pick(r, []string{"é", "&x", "'s", "\\n", "-b", ".c", "日本", "\"q\"", "😀", "$"}))
		}
	}
	for _, svc := range m.Services {
		if model.Chance(r, 30) {
			svc.Name += model.Pick(r, []string{"é", "&x", " s", "\\", "\"", "<b>", "/"})
		}
		for _, x := range svc.Methods {
			if model.Chance(r, 30) {
				x.Name += model.Pick(r, []string{"é", "&x", " s", "\\", "\"", "<b>", "/"})
			}
		}
	}
	var v map[string]any
	if err := json.Unmarshal([]byte(m.JSON()), &v); err != nil {
		panic(err)
	}
	// metadata of any kind
	for _, t := range v["types"].([]any) {
		fields, _ := t.(map[string]any)["fields"].([]any)
		for _, f := range fields {
			if model.Chance(r, 30) {
				f.(map[string]any)["meta"] = []any{map[string]any{"x": model.Pick(r, []any{1, 1.5, true, nil, "s", []any{1, "a"}, map[string]any{"b": 1, "a": "<é>"}, 1e21, -0.0}), "y": "z"}}
			}
		}
	}
	b, _ := json.Marshal(v)
	text := respell(r, string(b))
	c.Attach("main.json", text)
	c.Distinct(text)
	c.Count("JSON-only schemas", 1)
	s, err := schema.ParseSchemaJSON([]byte(text))
	if err != nil {
		c.Count("JSON-only schemas rejected", 1)
		return
	}
	want := sut.JSON(s)
	reference, _ := dump(s)
	for i := range 3 {
		next, err := schema.ParseSchemaJSON([]byte(sut.JSON(s)))
		if err != nil {
			c.Attach("form.json", sut.JSON(s))
			c.Failf("json-rejected", "round trip %d: the JSON form is rejected: %v", i+1, err)
			return
		}
		c.Count("round trips", 1)
		if j := sut.JSON(next); j != want {
			c.Failf("bytes", "round trip %d: the JSON form has changed: %s", i+1, vh.Diff(want, j))
			return
		}
		d, n := dump(next)
		c.Count("structures compared", 1)
		c.Count("nodes compared", n)
		if d != reference {
			c.Failf("structure", "round trip %d: the schema has changed: %s", i+1, vh.Diff(reference, d))
			return
		}
		s = next
	}
}
