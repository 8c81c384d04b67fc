package main

import (
	"crypto/sha1"
	"embed"
	_ "embed"
	"encoding/hex"
	"errors"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"io/fs"
	"maps"
	"math/rand/v2"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"

	dart "github.com/webrpc/gen-dart"
	javascript "github.com/webrpc/gen-javascript"
	kotlin "github.com/webrpc/gen-kotlin"
	openapi "github.com/webrpc/gen-openapi"
	"github.com/webrpc/webrpc"
	"github.com/webrpc/webrpc/gen"
	"github.com/webrpc/webrpc/schema"

	"verif/harness/internal/cli"
	"verif/harness/internal/model"
	"verif/harness/internal/sut"
	"verif/harness/internal/vh"
)

var c17 = &vh.Prop{
	ID: "C17", Quick: 8000, Thorough: 160000,
	Rule: "random schemas and options, generated with templates that print everything they are given (as local directory, by name, name with version, import path), with templates of random text, of Go code good and bad, and with broken or missing ones; outputs compared with the model; real embedded targets compared with the same templates read from a directory; distinct by schema, options and templates",
	Require: map[string]int{"dumps of local templates": 1000, "dumps of named targets": 400, "json targets": 300, "debug targets": 300, "formatted": 150, "format errors": 100, "left unformatted": 200, "code of named targets": 100,
		"raw texts": 500, "errors reported": 500, "embedded targets compared": 40},
	Run: func(c *vh.Case) {
		http.DefaultTransport = offline{} // nothing here may be fetched
		switch c.Index % 8 {
		case 0, 1:
			c17local(c)
		case 2:
			c17named(c)
		case 3:
			if c.Index == 3 {
				c17dense(c)
				return
			}
			c17builtin(c)
		case 4:
			c17format(c)
		case 5:
			c17raw(c)
		case 6:
			c17broken(c)
		case 7:
			if c.Index%64 == 7 {
				c17embedded(c)
			} else {
				c17named(c)
			}
		}
	},
}

type offline struct{}

func (offline) RoundTrip(*http.Request) (*http.Response, error) {
	return nil, errors.New("no network")
}

//go:embed dump.tmpl
var dumpTmpl string

// c17schema makes a schema and the model of what generators see of it.
func c17schema(c *vh.Case) (*schema.WebRPCSchema, *model.Schema) {
	m := model.New(c.R, sut.Sizes(c))
	if model.Chance(c.R, 10) && len(m.Services) == 0 {
		m.Version = ""
	}
	var s *schema.WebRPCSchema
	if model.Chance(c.R, 50) {
		s = sut.Accepted(c, model.Render(m, nil, model.RandomStyle(c.R)), m)
	} else {
		s = sut.AcceptedJSON(c, m.JSON(), m)
	}
	m = m.Clone()
	m.BasePath = m.NormalBasePath()
	if m.BasePath == "" && len(m.Services) > 0 {
		m.BasePath = "/rpc/"
		c.Count("default base paths", 1)
	}
	return s, m
}

func c17opts(r *rand.Rand) map[string]any {
	if model.Chance(r, 20) {
		return nil
	}
	opts := map[string]any{}
	for range r.IntN(5) {
		k := model.Pick(r, []string{"client", "server", "pkg", "x-y", "a.b", "É", "_"})
		opts[k] = model.Pick(r, []any{"true", "", "é", true, 3, 1.5, []any{"a"}, map[string]any{"k": "v"}, "a=b", `"`})
	}
	return opts
}

func modelHash(m *model.Schema) string {
	h := sha1.Sum([]byte(m.JSON()))
	return hex.EncodeToString(h[:])
}

type codegen struct{ target, codeGen, name, version string }

func header(m *model.Schema, g codegen) string {
	v := g.version
	if v == "" {
		v = "unknown"
	}
	sv := m.Version
	if sv == "" {
		sv = "v0.0.0-" + modelHash(m)
	}
	return fmt.Sprintf("webrpc@%s;%s@%s;%s@%s", webrpc.VERSION, g.name, v, m.Name, sv)
}

var builtins = []string{
	"0 WebrpcEndpoint endpoint error 400", "-1 WebrpcRequestFailed request failed 400", "-2 WebrpcBadRoute bad route 404", "-3 WebrpcBadMethod bad method 405",
	"-4 WebrpcBadRequest bad request 400", "-5 WebrpcBadResponse bad response 500", "-6 WebrpcServerPanic server panic 500", "-7 WebrpcInternalError internal error 500",
	"-8 WebrpcClientAborted request aborted by client 400", "-9 WebrpcStreamLost stream lost 400", "-10 WebrpcStreamFinished stream finished 200",
}

// wantDump is what the dump template must print.
func wantDump(m *model.Schema, g codegen, opts map[string]any, command string) string {
	var b strings.Builder
	p := func(f string, a ...any) { fmt.Fprintf(&b, f, a...) }
	comments := func(list []string) string {
		out := ""
		for _, x := range list {
			out += "[" + x + "]"
		}
		return out
	}
	meta := func(list []model.KV) string {
		out := ""
		for _, x := range list {
			out += "<" + x.K + "=" + x.V + ">"
		}
		return out
	}
	p("header %s\ncodegen %s|%s|%s\ntarget %s\nversion %s v1\ncommand %s\n", header(m, g), g.codeGen, g.name, g.version, g.target, webrpc.VERSION, command)
	p("schema %s|%s|%s|%s\n", m.Name, m.Version, modelHash(m), m.BasePath)
	for _, k := range slices.Sorted(maps.Keys(opts)) {
		p("opt %s %#v\n", k, opts[k])
	}
	for _, t := range m.Types {
		vt := ""
		if t.Type != nil {
			vt = t.Type.String()
		}
		p("type %s %s %s %s%s required", t.Kind, t.Name, vt, comments(t.Comments), meta(t.Meta))
		for _, f := range t.Fields {
			if !f.Optional {
				p(" %s", f.Name)
			}
		}
		for _, f := range t.Fields {
			v := f.Type.String()
			if t.Kind == "enum" {
				v = f.Value
			}
			p("\n  %s %s %t %s %s", f.Name, v, f.Optional, meta(f.Meta), comments(f.Comments))
		}
		p("\n")
	}
	for _, e := range m.Errors {
		p("error %d %s %s %d\n", e.Code, e.Name, e.Message, e.Status)
	}
	for _, svc := range m.Services {
		p("service %s %s|%s %s", svc.Name, m.Name, m.BasePath, comments(svc.Comments))
		for _, x := range svc.Methods {
			p("\n  %s %s|%s %t %t %t ", x.Name, svc.Name, m.BasePath, x.Succinct, x.StreamIn, x.StreamOut)
			ann := slices.Clone(x.Annotations)
			sort.Slice(ann, func(i, j int) bool { return ann[i].Name < ann[j].Name })
			for _, a := range ann {
				p("@%s:%s:%s ", a.Name, a.Name, a.Value)
			}
			p("%s", comments(x.Comments))
			for _, a := range x.In {
				p("\n    %s %s %t true false", a.Name, a.Type, a.Optional)
			}
			p(" =>")
			for _, a := range x.Out {
				p("\n    %s %s %t false true", a.Name, a.Type, a.Optional)
			}
			for _, e := range x.Errors {
				p(" %s", e)
			}
		}
		p("\n")
	}
	for _, e := range builtins {
		p("builtin %s\n", e)
	}
	return b.String()
}

// command is what a program run with these arguments is called.
func command(args []string) string {
	return strings.Join(append([]string{filepath.Base(args[0])}, args[1:]...), " ")
}

func c17local(c *vh.Case) {
	s, m := c17schema(c)
	if s == nil {
		return
	}
	if len(s.Services) == len(m.Services) && len(s.Services) > 0 && model.Chance(c.R, 10) { // as a filter leaves it
		i := c.R.IntN(len(s.Services))
		s.Services[i].Methods = []*schema.Method{}
		m.Services[i].Methods = nil
		c.Count("services without methods", 1)
	}
	opts := c17opts(c.R)
	dir, done := cli.Dir()
	defer done()
	name := model.Pick(c.R, []string{"tmpl", "gen-x", "a b", "x@v1.2.3", "gen-golang@v9", "x@", "é", "gen@dir", "a.go.tmpl", "x@v1.2.3-rc.1", "gen-y@v0.1-dev+b2", "a@b@c", "_", "-x"})
	g := codegen{target: filepath.Join(dir, name), codeGen: name}
	g.name, g.version, _ = strings.Cut(name, "@")
	files := map[string]string{"main.go.tmpl": `{{define "main"}}{{template "dump" .}}{{if .Opts}}{{set .Opts "pkg" "changed"}}{{set .Opts "more" 1}}{{end}}{{end}}`, model.Pick(c.R, []string{"other", "other", "_other", "0", "-", "é", "Z", ".dump", "a b", "main.go.tmpl", "m@v1"}) + ".go.tmpl": dumpTmpl, "x.tmpl": "{{broken", "sub/y.go.tmpl": "{{broken", "main.go.tmpl.bak": "{{"}
	if model.Chance(c.R, 30) {
		files = map[string]string{"all.go.tmpl": dumpTmpl + `{{define "main"}}{{template "dump" .}}{{end}}`}
	}
	cli.Write(g.target, files)
	if model.Chance(c.R, 20) { // the target is spelt as it is given
		g.target = model.Pick(c.R, []string{dir + "//" + name, dir + "/./" + name, dir + "/x/../" + name, dir + "/" + name + "/../" + name})
		cli.Write(filepath.Join(dir, "x"), map[string]string{"x": ""})
		c.Count("targets in other spellings", 1)
	}
	fmtGo := c.R.IntN(2) == 0 && !strings.HasPrefix(name, "gen-golang")
	c.Distinct(m.JSON() + fmt.Sprint(opts) + name)
	before := sut.JSON(s)
	c17dump(c, s, m, g, opts, fmtGo)
	if after := sut.JSON(s); after != before {
		c.Failf("schema changed", "the generation changes the schema: %s", vh.Diff(before, after))
	}
	c.Count("dumps of local templates", 1)
}

func c17dump(c *vh.Case, s *schema.WebRPCSchema, m *model.Schema, g codegen, opts map[string]any, fmtGo bool) {
	kept := maps.Clone(opts)
	for range 2 {
		out, err := gen.Generate(s, g.target, &gen.Config{TemplateOptions: opts, Format: fmtGo})
		if err != nil {
			c.Failf("generation fails", "target %s: %v", g.target, err)
			return
		}
		want := wantDump(m, g, opts, command(os.Args))
		got := strings.TrimPrefix(out.Code, g.name[min(len("gen-"), len(g.name)):]+"\n")
		if got != want {
			c.Failf("dump", "target %s: the template sees %s", g.target, vh.Diff(want, got))
			return
		}
		if g.target[0] == '/' && out.TmplVersion != g.target {
			c.Failf("source", "target %s is reported as %s", g.target, out.TmplVersion)
		}
		if out.FormatErr != nil || !out.IsLocal || out.CacheRefreshErr != nil {
			c.Failf("source", "target %s: format error %v, local %t, refresh error %v", g.target, out.FormatErr, out.IsLocal, out.CacheRefreshErr)
		}
		if !reflect.DeepEqual(opts, kept) {
			c.Failf("options changed", "the options have changed from %v to %v", kept, opts)
		}
	}
	if len(opts) == 0 {
		c.Count("no options", 1)
	}
	c.Count("options", len(opts))
	sut.CountSchema(c, m)
}

var versionLine = regexp.MustCompile(`(?m)^\s*github\.com/webrpc/gen-(\S+) (\S+)`)

func embeddedVersion(name string) string {
	for _, x := range versionLine.FindAllStringSubmatch(webrpc.GoModFile, -1) {
		if x[1] == name {
			return x[2]
		}
	}
	return ""
}

func spellTarget(r *rand.Rand, name string) string {
	t := name
	if r.IntN(2) == 0 {
		t = "github.com/webrpc/gen-" + name
	}
	if r.IntN(2) == 0 {
		t += "@" + embeddedVersion(name)
	}
	return t
}

// c17named takes targets by name, whose templates are stand-ins which know their name.
func c17named(c *vh.Case) {
	s, m := c17schema(c)
	if s == nil {
		return
	}
	name := model.Pick(c.R, []string{"golang", "typescript"})
	opts := c17opts(c.R)
	if opts == nil {
		opts = map[string]any{}
	}
	opts["dump"] = true
	g := codegen{target: spellTarget(c.R, name), codeGen: "gen-" + name + "@" + embeddedVersion(name), name: "gen-" + name, version: embeddedVersion(name)}
	c.Distinct(m.JSON() + fmt.Sprint(opts) + g.target)
	out, err := gen.Generate(s, g.target, &gen.Config{TemplateOptions: opts, Format: name != "golang" && c.R.IntN(2) == 0})
	if err != nil || !strings.HasPrefix(out.Code, name+"\n") {
		c.Failf("named target", "target %s: %v, %.40q", g.target, err, out.Code)
		return
	}
	c17dump(c, s, m, g, opts, false)
	c.Count("dumps of named targets", 1)
	c.Count("target "+strings.Replace(strings.Replace(g.target, name, "NAME", 1), embeddedVersion(name), "VERSION", 1), 1)
}

// showable is how many values a schema may expand to, for what shows all of them.
const showable = 20000

// c17dense shows how the debug target grows when every struct refers to every other.
func c17dense(c *vh.Case) {
	size := func(n int) int {
		m := &model.Schema{Name: "dense"}
		for i := range n {
			t := &model.Type{Kind: "struct", Name: fmt.Sprintf("T%d", i)}
			for j := range n {
				t.Fields = append(t.Fields, &model.Field{Name: fmt.Sprintf("f%d", j), Type: &model.VT{Ref: fmt.Sprintf("T%d", j)}})
			}
			m.Types = append(m.Types, t)
		}
		text := model.Render(m, nil, model.PlainStyle())
		c.Attach(fmt.Sprintf("dense%d.ridl", n), text)
		s := sut.Accepted(c, text, m)
		if s == nil {
			return 0
		}
		out, err := gen.Generate(s, "debug", &gen.Config{})
		if err != nil {
			c.Failf("builtin target", "debug fails: %v", err)
			return 0
		}
		return len(out.Code)
	}
	if a, b := size(4), size(5); a > 0 && b > 4*a {
		c.Failf("debug-target-expands", "the debug target prints %d bytes for 4 structs which refer to each other, and %d for 5", a, b)
	}
}

func c17builtin(c *vh.Case) {
	s, m := c17schema(c)
	if s == nil {
		return
	}
	c.Distinct(m.JSON())
	opts := c17opts(c.R)
	format := c.R.IntN(2) == 0
	for _, target := range []string{"json", "debug"} {
		if target == "debug" && m.Expanded(showable) > showable {
			c.Count("too dense for the debug target", 1)
			continue
		}
		var outs [2]string
		for i := range 2 {
			out, err := gen.Generate(s, target, &gen.Config{TemplateOptions: opts, Format: format})
			if err != nil || out.FormatErr != nil {
				c.Failf("builtin target", "%s fails: %v", target, err)
				return
			}
			if !out.IsLocal || out.TmplVersion != target || out.CacheRefreshErr != nil {
				c.Failf("source", "target %s: local %t, version %q, refresh error %v", target, out.IsLocal, out.TmplVersion, out.CacheRefreshErr)
			}
			outs[i] = out.Code
		}
		if outs[0] != outs[1] {
			c.Failf("not repeatable", "%s: %s", target, vh.Diff(outs[0], outs[1]))
			return
		}
		if target == "json" {
			if strings.TrimSpace(outs[0]) != strings.TrimSpace(m.JSON()) {
				c.Failf("json target", "%s", vh.Diff(m.JSON(), outs[0]))
				return
			}
			again, err := schema.ParseSchemaJSON([]byte(outs[0]))
			if err != nil || sut.JSON(again) != m.JSON() {
				c.Failf("json target", "its output cannot be loaded as the same schema: %v", err)
				return
			}
			c.Count("json targets", 1)
			continue
		}
		// everything there is can be found in the debug output
		if n := strings.Count(outs[0], "<max depth reached>"); n > strings.Count(m.JSON(), "max depth reached") {
			c.Failf("debug target", "%d parts are left out", n)
			return
		}
		seen := map[string]int{}
		for _, x := range spewString.FindAllString(outs[0], -1) {
			seen[x]++
		}
		want := map[string]int{}
		need := func(s string) {
			if s != "" {
				want[fmt.Sprintf("(len=%d) %q", len(s), s)]++
			}
		}
		need(m.Name)
		need(m.Version)
		need(m.BasePath)
		need(modelHash(m))
		for k := range opts {
			need(k)
		}
		for _, t := range m.Types {
			need(t.Name)
			for _, f := range t.Fields {
				need(f.Name)
				need(f.Value)
			}
			for _, x := range t.Comments {
				need(x)
			}
		}
		for _, e := range m.Errors {
			need(e.Name)
			need(e.Message)
		}
		for _, svc := range m.Services {
			need(svc.Name)
			for _, x := range svc.Methods {
				need(x.Name)
				for _, a := range append(slices.Clone(x.In), x.Out...) {
					need(a.Name)
				}
			}
		}
		for k, n := range want {
			if seen[k] < n {
				c.Failf("debug target", "%s is there %d times instead of %d", k, seen[k], n)
				return
			}
		}
		c.Count("debug targets", 1)
		c.Count("values found in debug output", len(want))
	}
}

var spewString = regexp.MustCompile(`\(len=\d+\) "(?:[^"\\]|\\.)*"`)

// formatting ---------------------------------------------------------------

func c17goCode(r *rand.Rand) (code string, imports []string) {
	sp := func() string { return model.Pick(r, []string{" ", "  ", "\t", "   "}) }
	var b strings.Builder
	fmt.Fprintf(&b, "%spackage%sx\n", model.Pick(r, []string{"", "// generated\n\n", "\n\n"}), sp())
	if model.Chance(r, 50) {
		b.WriteString("\n// doc  comment\n")
	}
	for i := range 1 + r.IntN(6) {
		switch r.IntN(5) {
		case 0:
			fmt.Fprintf(&b, "type%sT%d struct{%s\nA%sint `json:\"a\"`\n   LongName  string // é\n}\n", sp(), i, sp(), sp())
		case 1:
			fmt.Fprintf(&b, "var%sv%d=map[string]int{\"b\":1,\n\"aaa\" : 2}\n", sp(), i)
		case 2:
			fmt.Fprintf(&b, "func%sf%d( a int,b  string )(int,error){\nif a>1{return a+ 1,nil}\n\n\n\nreturn a*(2 +3),nil}\n", sp(), i)
		case 3:
			fmt.Fprintf(&b, "const (\nc%d=iota\n  d%d\n)\n", i, i)
		case 4:
			pkg := model.Pick(r, []string{"fmt", "strings", "errors"})
			imports = append(imports, pkg)
			fmt.Fprintf(&b, "var g%d  = %s\n", i, map[string]string{"fmt": `fmt.Sprint( 1)`, "strings": `strings.ToUpper("a")`, "errors": `errors.New( "x")`}[pkg])
		}
	}
	return b.String(), imports
}

func c17format(c *vh.Case) {
	r := c.R
	code, needed := c17goCode(r)
	valid := true
	if n := 20000; c.Index%3200 == 804 || model.Chance(r, 5) { // up to more than a megabyte
		if c.Index%3200 != 804 {
			n = 1 << r.IntN(12)
		}
		var b strings.Builder
		b.WriteString(code)
		for i := range n {
			fmt.Fprintf(&b, "func   large%d( a int,b  string )(int,error){\nreturn a*(2 +%d),nil}\n", i, i)
		}
		code = b.String()
		c.Count("large Go code", 1)
	}
	if model.Chance(r, 35) {
		valid = false
		switch r.IntN(5) {
		case 0:
			code += model.Pick(r, []string{"func {", "}", "type T struct {", "var = 1", "\"unterminated", "/* open"}) + "\n"
		case 1:
			code = strings.Replace(code, "package", "pakcage", 1)
		case 2:
			code = "text\n" + code
		case 3:
			code = ""
		case 4:
			code = model.Pick(r, []string{"export interface X {}\n", "<html>\n", "\x00", "package", "package x; import", "# nothing\n"})
		}
	} else if model.Chance(r, 40) {
		// imports: needed ones are there or not, others are left over
		var list []string
		for _, p := range slices.Compact(slices.Sorted(slices.Values(needed))) {
			if model.Chance(r, 50) {
				list = append(list, p)
			}
		}
		if model.Chance(r, 50) {
			list = append(list, "bytes")
		}
		if len(list) > 0 {
			i := strings.Index(code, "package")
			i += strings.Index(code[i:], "\n") + 1
			block := "import (\n"
			for _, p := range list {
				block += " \"" + p + "\"\n"
			}
			code = code[:i] + block + ")\n" + code[i:]
		}
	}
	name := model.Pick(r, []string{"gen-golang", "gen-golang@v1.2.3", "my-gen-golang", "gen-golang@x", "golang", "gen-go", "gen-golang2", "ts", "gen-Golang", "x@gen-golang"})
	isGo := strings.HasSuffix(strings.Split(name, "@")[0], "gen-golang")
	format := model.Chance(r, 80)
	dir, done := cli.Dir()
	defer done()
	target := filepath.Join(dir, name)
	if model.Chance(r, 25) { // stand-ins of the embedded templates
		lang := model.Pick(r, []string{"golang", "golang", "typescript"})
		name = spellTarget(r, lang)
		target, isGo = name, lang == "golang"
		c.Count("code of named targets", 1)
	} else {
		cli.Write(target, map[string]string{"main.go.tmpl": `{{define "main"}}{{.Opts.code}}{{end}}`})
	}
	c.Attach("code.go", code)
	c.Attach("target", fmt.Sprintf("%s format=%t", name, format))
	c.Distinct(code + name + fmt.Sprint(format))
	out, err := gen.Generate(emptySchema(), target, &gen.Config{Format: format, TemplateOptions: map[string]any{"code": code}})
	if err != nil {
		c.Failf("generation fails", "%v", err)
		return
	}
	switch {
	case !format || !isGo:
		if out.Code != code || out.FormatErr != nil {
			c.Failf("changed", "the text has changed, or a format error is reported (%v): %s", out.FormatErr, vh.Diff(code, out.Code))
		}
		c.Count("left unformatted", 1)
	case !valid:
		if out.FormatErr == nil {
			c.Failf("format error", "no format error is reported for code which isn't Go; output %q", out.Code)
		} else if out.Code != code {
			c.Failf("raw text", "the raw text isn't kept: %s", vh.Diff(code, out.Code))
		}
		c.Count("format errors", 1)
	default:
		if out.FormatErr != nil {
			c.Failf("format error", "a format error is reported for Go code: %v", out.FormatErr)
			return
		}
		if why := sameGo(code, out.Code, needed); why != "" {
			c.Failf("formatted", "%s:\n%s", why, out.Code)
		}
		c.Count("formatted", 1)
		if len(needed) > 0 {
			c.Count("imports repaired", 1)
		}
	}
}

// sameGo says how formatted code differs from the code it should be.
func sameGo(code, got string, needed []string) string {
	tidy, err := format.Source([]byte(got))
	if err != nil {
		return err.Error()
	}
	if string(tidy) != got {
		return "the output isn't formatted"
	}
	strip := func(src string) (string, []string) {
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
		if err != nil {
			return err.Error(), nil
		}
		var imports []string
		for _, i := range f.Imports {
			p, _ := strconv.Unquote(i.Path.Value)
			imports = append(imports, p)
		}
		var b strings.Builder
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				continue
			}
			_ = format.Node(&b, token.NewFileSet(), d)
			b.WriteString("\n")
		}
		for _, g := range f.Comments {
			b.WriteString(g.Text() + "\n")
		}
		return b.String(), imports
	}
	want, _ := strip(code)
	have, imports := strip(got)
	if want != have {
		return "the output is other code: " + vh.Diff(want, have)
	}
	if w := slices.Compact(slices.Sorted(slices.Values(needed))); !slices.Equal(w, slices.Sorted(slices.Values(imports))) {
		return fmt.Sprintf("the imports are %q instead of %q", imports, w)
	}
	return ""
}

// c17raw takes templates which print random text.
func c17raw(c *vh.Case) {
	r := c.R
	piece := func() string {
		return model.Pick(r, []string{"a", "Z9", " ", "\t", "\n", "\r\n", "é", "語", "🙂", "<b>&amp;", "\"", "\\", "%d%s", "\x00", "\xff", "{", "}", "{ {", "//", "#", "\n\n\n", "package x"})
	}
	text := func() string {
		var b strings.Builder
		for range r.IntN(20) {
			b.WriteString(piece())
		}
		return b.String()
	}
	a, b, x := text(), text(), text()
	if model.Chance(r, 3) {
		x = strings.Repeat(x+"0123456789abcdef", 1<<16)
		c.Count("large outputs", 1)
	}
	tmplText := func(s string) string { return strings.ReplaceAll(s, "{", "(") }
	a, b = tmplText(a), tmplText(b)
	dir, done := cli.Dir()
	defer done()
	files := map[string]string{"main.go.tmpl": `{{define "main"}}` + a + `{{.Opts.x}}{{template "sub" .Opts}}` + `{{end}}`, "sub.go.tmpl": `{{define "sub"}}` + b + `{{.x}}{{end}}`}
	cli.Write(dir, files)
	want := a + x + b + x
	c.Distinct(want)
	out, err := gen.Generate(emptySchema(), dir, &gen.Config{Format: true, TemplateOptions: map[string]any{"x": x}})
	if err != nil {
		c.Attach("main.go.tmpl", files["main.go.tmpl"])
		c.Failf("generation fails", "%v", err)
		return
	}
	if out.Code != want {
		c.Attach("want", want)
		c.Failf("text", "the output isn't what the template printed: %s", vh.Diff(want, out.Code))
	}
	c.Count("raw texts", 1)
}

// c17broken takes targets which cannot work.
func c17broken(c *vh.Case) {
	r := c.R
	s, m := c17schema(c)
	if s == nil {
		return
	}
	dir, done := cli.Dir()
	defer done()
	target := filepath.Join(dir, "t")
	files := map[string]string{}
	kind := r.IntN(9)
	switch kind {
	case 0: // not there
	case 1:
		files["readme.md"] = "no templates"
	case 2:
		files["main.go.tmpl"] = `{{define "mian"}}x{{end}}`
	case 3:
		files["main.go.tmpl"] = `{{define "main"}}x{{end}}`
		files["z.go.tmpl"] = model.Pick(r, []string{"{{", "{{if}}", "{{end}}", "{{nosuch}}", "{{define \"x\"}}", "{{range .X}}", "{{ | .X}}", "{{template}}", "{{\"a}}"})
	case 4:
		files["main.go.tmpl"] = `{{define "main"}}` + model.Pick(r, []string{"{{", "{{if}}", "{{end}}{{end}}", "{{nosuch}}", "{{range .Types}}", "{{1 2}}", "{{.Types.}}", "{{$x}}"}) + `{{end}}`
	case 5:
		files["main.go.tmpl"] = `{{define "main"}}{{range .WebrpcErrors}}{{.Name}}{{end}}` + model.Pick(r, []string{"{{.NoSuch}}", "{{index .Types 100000}}", `{{template "nosuch"}}`, `{{fail "no"}}`, `{{call .SchemaName}}`, `{{.SchemaName.X}}`, `{{first (array)}}`, `{{range .Types}}{{if eq .Kind "struct"}}{{.Type.Expr}}{{end}}{{end}}{{.NoSuch}}`, `{{range .Services}}{{range .Methods}}{{range .Inputs}}{{.Name}}{{.Type.Struct.Name}}{{.Type.List.Elem}}{{end}}{{end}}{{end}}{{.NoSuch}}`, `{{slice "abc" 5}}`}) + `{{end}}`
	case 6:
		target = model.Pick(r, []string{"nosuch", "gen-golang", "golang@v0.0.1", "Golang", "github.com/webrpc/gen-nosuch", "github.com/webrpc/gen-golang@v0.0.1", "github.com/nobody/nothing@v1", "json2", "JSON", "Debug", "typescript@", "golang2", "", " ", "go", "ts", "js", "example.com/x"})
	case 7:
		target = "./" + model.Pick(r, []string{"nosuch", "a/b", "../nosuch/x"})
	case 8:
		files["main.go.tmpl"] = "x"
		target = filepath.Join(dir, "t", "main.go.tmpl") // a file
	}
	cli.Write(filepath.Join(dir, "t"), files)
	if kind == 0 {
		_ = os.RemoveAll(filepath.Join(dir, "t"))
	}
	old := os.Getenv("TMPDIR")
	defer os.Setenv("TMPDIR", old)
	_ = os.Setenv("TMPDIR", filepath.Join(dir, "tmp")) // the cache of remote templates
	c.Attach("target", target)
	for n, t := range files {
		c.Attach(n, t)
	}
	c.Distinct(target[strings.LastIndex(target, "/")+1:] + fmt.Sprint(files) + m.Name)
	out, err := gen.Generate(s, target, &gen.Config{Format: true})
	if err == nil {
		c.Failf("no error", "target %q gives output %.60q", target, out.Code)
		return
	}
	if err.Error() == "" {
		c.Failf("no reason", "no reason is given")
	}
	if out != nil && out.Code != "" {
		c.Failf("output despite error", "%q", out.Code)
	}
	c.Count("errors reported", 1)
	c.Count(fmt.Sprintf("broken target %d", kind), 1)
}

// c17embedded compares the real embedded targets with the same templates in a directory.
func c17embedded(c *vh.Case) {
	s, m := c17schema(c)
	if s == nil || cli.Path() == "" {
		return
	}
	names := []string{"dart", "javascript", "kotlin", "openapi"}
	name := names[(c.Index/64)%len(names)]
	files := map[string]embed.FS{"dart": dart.FS, "javascript": javascript.FS, "kotlin": kotlin.FS, "openapi": openapi.FS}[name]
	dir, done := cli.Dir()
	defer done()
	local := "gen-" + name + "@" + embeddedVersion(name)
	err := fs.WalkDir(files, ".", func(path string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			b, _ := files.ReadFile(path)
			cli.Write(filepath.Join(dir, local), map[string]string{path: string(b)})
		}
		return err
	})
	if err != nil {
		panic(err)
	}
	cli.Write(dir, map[string]string{"a.json": m.JSON()})
	opts := model.Pick(c.R, [][]string{nil, {"-client"}, {"-server"}, {"-client", "-server"}, {"-client=true", "-pkg=x"}})
	if name == "openapi" {
		opts = model.Pick(c.R, [][]string{nil, {"-title=x y"}, {"-serverUrl=http://x"}})
	}
	run := func(target string) cli.Result {
		res := cli.Run(dir, nil, append([]string{"-schema=a.json", "-target=" + target, "-silent"}, opts...)...)
		return res
	}
	want := run("./" + local)
	for _, target := range []string{name, name + "@" + embeddedVersion(name), "github.com/webrpc/gen-" + name, "github.com/webrpc/gen-" + name + "@" + embeddedVersion(name)} {
		got := run(target)
		got.Out, want.Out = stripTarget(got.Out), stripTarget(want.Out)
		if got.Code != want.Code || got.Out != want.Out || (got.Code == 0) != (got.Out != "") {
			c.Failf("embedded target", "target %s exits with %d, templates in a directory with %d: %s %s", target, got.Code, want.Code, vh.Diff(want.Out, got.Out), got.Err)
			return
		}
	}
	c.Distinct(m.JSON() + name)
	c.Count("embedded targets compared", 4)
	c.Count("embedded "+name, 1)
	if want.Code == 0 {
		c.Count("embedded targets with output", 1)
		for _, t := range m.Types {
			if t.Kind == "struct" && !strings.Contains(want.Out, t.Name) {
				c.Failf("embedded target", "%s does not mention %s", name, t.Name)
			}
		}
		if !strings.Contains(want.Out, m.Name) {
			c.Failf("embedded target", "%s does not mention the schema %s", name, m.Name)
		}
	}
}

// stripTarget takes out the target's name, which is the only difference allowed.
func stripTarget(s string) string {
	var b strings.Builder
	for _, l := range strings.SplitAfter(s, "\n") {
		if !strings.Contains(l, "-target=") && !strings.Contains(l, "Code generated by") {
			b.WriteString(l)
		}
	}
	return b.String()
}
