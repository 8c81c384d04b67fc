package main

import (
	"fmt"
	"go/format"
	"io/fs"
	"maps"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/webrpc/webrpc"

	"verif/harness/internal/cli"
	"verif/harness/internal/model"
	"verif/harness/internal/vh"
)

var c18 = &vh.Prop{
	ID: "C18", Quick: 4800, Thorough: 60000,
	Rule: "random command lines for the real binary: valid ones, over all flags, ways to spell them, options, filters and places of output, whose output is compared with the model; ones with one thing wrong, and runs whose output cannot be written; exit status, both streams and every file of the scratch directory are watched; distinct by command line and schema",
	Require: map[string]int{"complete outputs": 500, "failures": 400, "existing files left alone": 100, "existing files replaced": 100, "files which changed in the meantime": 100, "format errors": 60, "formatted": 40, "outputs which cannot be written": 60, "ended by template": 30,
		"versions from the environment": 40, "versions from the flag": 40, "versions from the schema": 100, "help": 20},
	Run: func(c *vh.Case) {
		switch c.Index % 16 {
		case 0, 1, 2, 3, 4, 5, 6:
			c18valid(c)
		case 7, 8, 9, 10, 11:
			c18broken(c)
		case 12, 13:
			c18format(c)
		case 14:
			c18unwritable(c)
		case 15:
			if c.Index%32 == 15 {
				c18template(c)
			} else {
				c18help(c)
			}
		}
	},
}

// snapshot is what a directory holds.
func snapshot(dir string) map[string]string {
	files := map[string]string{}
	_ = filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if err == nil && d.Name() == ".config" {
			return fs.SkipDir // the go command, which looks for imports, writes its counters there
		}
		if err == nil && d.Type().IsRegular() {
			b, _ := os.ReadFile(path)
			rel, _ := filepath.Rel(dir, path)
			files[rel] = string(b)
		}
		return nil
	})
	return files
}

// changes lists the files which differ, except for those named.
func changes(before, after map[string]string, except ...string) (out []string) {
	for f, t := range after {
		if old, ok := before[f]; (!ok || old != t) && !slices.Contains(except, f) {
			out = append(out, f)
		}
	}
	for f := range before {
		if _, ok := after[f]; !ok && !slices.Contains(except, f) {
			out = append(out, "-"+f)
		}
	}
	sort.Strings(out)
	return out
}

type run18 struct {
	c    *vh.Case
	dir  string
	env  []string
	args []string
	done func()
}

func newRun(c *vh.Case) *run18 {
	dir, done := cli.Dir()
	// nothing may be fetched
	env := []string{"HTTPS_PROXY=http://127.0.0.1:1", "HTTP_PROXY=http://127.0.0.1:1"}
	return &run18{c: c, dir: dir, env: env, done: done}
}

func (r *run18) write(files map[string]string) {
	cli.Write(r.dir, files)
	for n, t := range files {
		if !strings.Contains(n, ".go.tmpl") {
			r.c.Attach(n, t)
		}
	}
}

// flag writes a flag in one of its spellings.
func (r *run18) flag(name, value string) {
	dashes := "-"
	if model.Chance(r.c.R, 30) {
		dashes = "--"
	}
	r.args = append(r.args, dashes+name+"="+value)
}

func (r *run18) boolean(name string, v, preset bool) {
	if v == preset && model.Chance(r.c.R, 60) {
		return
	}
	if v && model.Chance(r.c.R, 50) {
		r.args = append(r.args, "-"+name)
		return
	}
	yes, no := []string{"true", "1", "T", "True"}, []string{"false", "0", "F"}
	r.flag(name, model.Pick(r.c.R, pick(v, yes, no)))
}

func (r *run18) shuffle() {
	r.c.R.Shuffle(len(r.args), func(i, j int) { r.args[i], r.args[j] = r.args[j], r.args[i] })
}

func (r *run18) run() (cli.Result, map[string]string, map[string]string) {
	before := snapshot(r.dir)
	res := cli.Run(r.dir, r.env, r.args...)
	r.c.Attach("command", strings.Join(append(slices.Clone(r.env), strconv.Quote(strings.Join(r.args, " "))), "\n"))
	r.c.Attach("stdout", res.Out)
	r.c.Attach("stderr", res.Err)
	if res.Hung || res.Code < 0 {
		r.c.Failf("hang", "webrpc-gen does not end: %s", res.Err)
	}
	return res, before, snapshot(r.dir)
}

// c18model makes a schema with annotations and a method in each service.
func c18model(c *vh.Case) *model.Schema {
	m := model.New(c.R, model.Options{Types: 8, Errors: 4, Services: 3})
	for m.Expanded(showable) > showable {
		m = model.New(c.R, model.Options{Types: 8, Errors: 4, Services: 3})
	}
	for _, svc := range m.Services {
		for _, x := range svc.Methods {
			x.Annotations = nil
			for _, n := range []string{"auth", "public", "acl"} {
				if model.Chance(c.R, 40) {
					a := model.Annotation{Name: n}
					if model.Chance(c.R, 60) {
						a.HasValue, a.Value = true, model.Pick(c.R, []string{"admin", "user", "a b", "ADMIN"})
					}
					x.Annotations = append(x.Annotations, a)
				}
			}
		}
	}
	return m
}

// filter keeps what the flags ask for, or gives nil if that leaves a service empty.
func c18filter(m *model.Schema, services []string, ignore, match []string) *model.Schema {
	w := m.Clone()
	if services != nil {
		w.Services = slices.DeleteFunc(w.Services, func(s *model.Service) bool { return !slices.Contains(services, s.Name) })
	}
	hit := func(x *model.Method, list []string) bool {
		for _, f := range list {
			name, value, _ := strings.Cut(strings.TrimPrefix(f, "@"), ":")
			for _, a := range x.Annotations {
				if a.Name == name && (value == "" || a.Value == value) {
					return true
				}
			}
		}
		return false
	}
	for _, svc := range w.Services {
		svc.Methods = slices.DeleteFunc(slices.Clone(svc.Methods), func(x *model.Method) bool {
			return ignore != nil && hit(x, ignore) || match != nil && !hit(x, match)
		})
		if len(svc.Methods) == 0 {
			return nil
		}
	}
	return w
}

const summaryTitle = "webrpc generated summary"

func c18valid(c *vh.Case) {
	rnd := c.R
	r := newRun(c)
	defer r.done()
	m := c18model(c)
	file, text := "a.ridl", ""
	if model.Chance(rnd, 50) {
		text = model.Render(m, nil, model.RandomStyle(rnd))
	} else {
		file, text = "a.json", m.JSON()
	}
	if model.Chance(rnd, 30) {
		file = model.Pick(rnd, []string{"x/y/", "sp ace/", "é/", "x=y/"}) + file
	}
	r.write(map[string]string{file: text, "t/main.go.tmpl": `{{define "main"}}{{template "dump" .}}{{end}}`, "t/dump.go.tmpl": dumpTmpl})
	schemaArg := file
	if model.Chance(rnd, 30) {
		schemaArg = model.Pick(rnd, []string{"./" + file, filepath.Join(r.dir, file), "t/../" + file})
	}
	r.flag("schema", schemaArg)

	// target
	g := codegen{target: "./t", codeGen: "t", name: "t"}
	prefix := ""
	opts := map[string]any{}
	switch rnd.IntN(5) {
	case 0:
		name := model.Pick(rnd, []string{"golang", "typescript"})
		v := embeddedVersion(name)
		g = codegen{target: spellTarget(rnd, name), codeGen: "gen-" + name + "@" + v, name: "gen-" + name, version: v}
		prefix = name + "\n"
		r.args = append(r.args, "-dump")
		opts["dump"] = ""
	case 1:
		g.target = filepath.Join(r.dir, "t")
	case 2:
		g.target = "./t/../t"
	}
	r.flag("target", g.target)

	// options
	for _, o := range []string{"client", "pkg", "x-y", "a.b", "É", "types", "Schema", "outfile", "fmts", "w", "a-", "x--y", "_", "1", "OUT", "target2"} {
		if !model.Chance(rnd, 20) {
			continue
		}
		switch rnd.IntN(4) {
		case 0:
			r.args = append(r.args, "-"+o)
			opts[o] = ""
		default:
			v := model.Pick(rnd, []string{"", "true", "a=b", "=", "a b", "é", "-x", "--", "\n", "a,b", `"`, "*", "$HOME"})
			r.flag(o, v)
			opts[o] = v
		}
	}

	// filters
	want := m
	var services, ignore, match []string
	if len(m.Services) > 0 && model.Chance(rnd, 40) {
		for _, svc := range m.Services {
			if services == nil || model.Chance(rnd, 40) {
				services = append(services, svc.Name)
			}
		}
		rnd.Shuffle(len(services), func(i, j int) { services[i], services[j] = services[j], services[i] })
	}
	filters := func() (out []string) {
		for range 1 + rnd.IntN(2) {
			out = append(out, model.Pick(rnd, []string{"@auth", "@acl", "@public", "@acl:admin", "@auth:user", "@auth:a b", "@none", "@Auth"}))
		}
		return out
	}
	switch rnd.IntN(4) {
	case 0:
		ignore = filters()
	case 1:
		match = filters()
	}
	if want = c18filter(m, services, ignore, match); want == nil {
		ignore, match = nil, nil
		want = c18filter(m, services, nil, nil)
	}
	if services != nil {
		r.flag("service", strings.Join(services, ","))
		c.Count("services selected", 1)
	}
	if ignore != nil {
		r.flag("ignore", strings.Join(ignore, ","))
		c.Count("methods ignored", 1)
	}
	if match != nil {
		r.flag("match", strings.Join(match, ","))
		c.Count("methods matched", 1)
	}
	want.BasePath = want.NormalBasePath()
	warning := want.BasePath == "" && len(m.Services) > 0
	if warning {
		want.BasePath = "/rpc/"
	}

	// version
	versions := []string{"v9.9.9", "latest", "", "é", "1", " v1 ", "a b", "v1.0.0\t", "v1@2;3"}
	origin := "schema"
	if v := model.Pick(rnd, versions); model.Chance(rnd, 30) {
		r.env = append(r.env, "WEBRPC_SCHEMA_VERSION="+v)
		if v != "" {
			want.Version, origin = v, "environment"
		}
	}
	if model.Chance(rnd, 25) {
		want.Version, origin = model.Pick(rnd, versions), "flag"
		r.flag("schemaVersion", want.Version)
	}
	c.Count("versions from the "+map[string]string{"schema": "schema", "environment": "environment", "flag": "flag"}[origin], 1)

	// output
	if prefix == "golang\n" { // what the stand-in prints isn't Go
		r.boolean("fmt", false, true)
	} else {
		r.boolean("fmt", rnd.IntN(2) == 0, true)
	}
	r.boolean("refreshCache", model.Chance(rnd, 10), false)
	silent := rnd.IntN(2) == 0
	r.boolean("silent", silent, false)
	out, linked := "", ""
	switch rnd.IntN(5) {
	case 0:
	case 1:
		r.flag("out", model.Pick(rnd, []string{"", "stdout"}))
	default:
		out = model.Pick(rnd, []string{"o.txt", "new/dirs/o.go", "t/o.txt", "sp ace.go", "éé", "stdout.go", "t/stdout", "STDOUT", "./stdout", "Stdout", "stderr", "./-", "o=y", "./o2", "a/../o3", ".o4", "..o5", ".../o6", "stdout/o7", "O.TXT", "-o8", "t/../o9.json"})
		if model.Chance(rnd, 50) {
			old := model.Pick(rnd, []string{"", "short", strings.Repeat("old content\n", 10000)})
			cli.Write(r.dir, map[string]string{out: old})
			c.Count("existing files replaced", 1)
		} else if model.Chance(rnd, 20) { // a link to another file
			link := filepath.Join(r.dir, out)
			linked = "elsewhere/file"
			cli.Write(r.dir, map[string]string{linked: "old"})
			_ = os.MkdirAll(filepath.Dir(link), 0o755)
			if err := os.Symlink(filepath.Join(r.dir, linked), link); err != nil {
				panic(err)
			}
			c.Count("links to files", 1)
		}
		if strings.HasPrefix(out, "a/") {
			_ = os.MkdirAll(filepath.Join(r.dir, "a"), 0o755)
		}
		spelt := out
		if model.Chance(rnd, 30) {
			spelt = filepath.Join(r.dir, out)
		} else if model.Chance(rnd, 20) {
			spelt = "../" + filepath.Base(r.dir) + "/" + out
		}
		r.flag("out", spelt)
	}
	if len(r.args) > 0 && model.Chance(rnd, 20) { // the last one of several counts
		r.shuffle()
		r.args = append([]string{"-pkg=first"}, r.args...)
		if _, ok := opts["pkg"]; !ok {
			opts["pkg"] = "first"
		}
	} else {
		r.shuffle()
	}

	res, before, after := r.run()
	c.Distinct(text + strings.Join(r.args, " "))
	if res.Code != 0 {
		c.Failf("exit status", "%q exits with %d: %s", r.args, res.Code, res.Err)
		return
	}
	code := prefix + wantDump(want, g, opts, command(append([]string{"webrpc-gen"}, r.args...)))
	rel := filepath.Clean(out)
	if linked != "" {
		rel = linked
	}
	if out == "" {
		if res.Out != code+"\n" {
			c.Failf("stdout", "%q: %s", r.args, vh.Diff(code+"\n", res.Out))
			return
		}
		if ch := changes(before, after); ch != nil {
			c.Failf("files", "%q changes %q", r.args, ch)
		}
	} else {
		if after[rel] != code {
			c.Failf("file", "%q: %s", r.args, vh.Diff(code, after[rel]))
			return
		}
		if ch := changes(before, after, rel); ch != nil {
			c.Failf("files", "%q changes %q as well", r.args, ch)
		}
		if silent && res.Out != "" || !silent && !strings.Contains(res.Out, summaryTitle) {
			c.Failf("summary", "silent=%t prints %q", silent, res.Out)
		}
		for _, x := range []string{webrpc.VERSION, schemaArg, filepath.Base(out)} {
			if !silent && !strings.Contains(res.Out, x) {
				c.Failf("summary", "it does not say %q: %s", x, res.Out)
			}
		}
		c.Count("output files", 1)
		if model.Chance(rnd, 30) {
			c18again(c, r, rel, code)
		}
	}
	if warning != (res.Err != "") || warning && !strings.Contains(res.Err, "basepath") {
		c.Failf("stderr", "%q prints %q on stderr", r.args, res.Err)
	}
	c.Count("complete outputs", 1)
	c.Count("options", len(opts))
	c.Sample(map[string]any{"args": r.args, "env": r.env[2:], "exit": res.Code, "output bytes": len(code)})
}

// c18again runs the command once more, when the file has changed in the meantime.
func c18again(c *vh.Case, r *run18, rel, code string) {
	old := []byte(code)
	file, what := filepath.Join(r.dir, rel), ""
	switch c.R.IntN(5) {
	case 0:
		what = "has the same size"
		old[c.R.IntN(len(old))] ^= 1
	case 1:
		what = "is cut short"
		old = old[:c.R.IntN(len(old))]
	case 2:
		what = "is longer"
		old = append(old, "more\n"...)
	case 3:
		what = "is as it was"
	case 4:
		what = "is in a directory which is read-only"
		old = []byte("old")
		_ = os.Chmod(filepath.Dir(file), 0o555)
		defer os.Chmod(filepath.Dir(file), 0o755)
	}
	if err := os.WriteFile(file, old, 0o644); err != nil {
		panic(err)
	}
	if model.Chance(c.R, 50) {
		past := time.Now().Add(-48 * time.Hour)
		if model.Chance(c.R, 50) {
			past = time.Now().Add(48 * time.Hour)
		}
		_ = os.Chtimes(file, past, past)
	}
	res, _, after := r.run()
	if res.Code == 0 && after[rel] != code {
		c.Failf("file", "%q run again, when the file %s: %s", r.args, what, vh.Diff(code, after[rel]))
	} else if res.Code != 0 && what[:5] != "is in" {
		c.Failf("exit status", "%q run again, when the file %s, exits with %d: %s", r.args, what, res.Code, res.Err)
	}
	c.Count("files which changed in the meantime", 1)
}

func c18broken(c *vh.Case) {
	rnd := c.R
	r := newRun(c)
	defer r.done()
	m := c18model(c)
	good := model.Render(m, nil, model.RandomStyle(rnd))
	r.write(map[string]string{"a.ridl": good, "t/main.go.tmpl": `{{define "main"}}output{{end}}`})
	flags := map[string]string{"schema": "a.ridl", "target": "./t"}
	if rnd.IntN(2) == 0 {
		flags["target"] = model.Pick(rnd, []string{"json", "debug", "typescript"})
	}
	file := ""
	if model.Chance(rnd, 70) {
		file = model.Pick(rnd, []string{"o.txt", "d/o.txt"})
		flags["out"] = file
	}
	if rnd.IntN(2) == 0 {
		flags["silent"] = "true"
	}
	var extra []string
	status := 0 // any
	kinds := []struct {
		name string
		f    func()
	}{
		{"no schema", func() {
			if rnd.IntN(2) == 0 {
				delete(flags, "schema")
			} else {
				flags["schema"] = ""
			}
		}},
		{"no target", func() {
			if rnd.IntN(2) == 0 {
				delete(flags, "target")
			} else {
				flags["target"] = ""
			}
		}},
		{"missing schema", func() {
			flags["schema"] = model.Pick(rnd, []string{"b.ridl", "b.json", "x/a.ridl", "A.ridl", filepath.Join(r.dir, "nosuch", "a.json")})
		}},
		{"schema is a directory", func() {
			_ = os.MkdirAll(filepath.Join(r.dir, "d.ridl"), 0o755)
			_ = os.MkdirAll(filepath.Join(r.dir, "d.json"), 0o755)
			flags["schema"] = model.Pick(rnd, []string{"d.ridl", "d.json", ".", "t"})
		}},
		{"kind of file", func() {
			n := model.Pick(rnd, []string{"a.txt", "a", "a.yaml", "a.ridl.bak", "ridl", "a.JSON", "a.RIDL"})
			r.write(map[string]string{n: good})
			flags["schema"] = n
		}},
		{"bad RIDL", func() {
			r.write(map[string]string{"a.ridl": model.Pick(rnd, []string{"", good + "\n???\n", good + "\nstruct\n", "name = x\n", strings.Replace(good, "webrpc", "webrcp", 1) + "\nerror", "\x00"})})
		}},
		{"bad JSON", func() {
			r.write(map[string]string{"a.json": model.Pick(rnd, []string{"", "{", "[]", "null", "{}", m.JSON() + "x", `{"webrpc":"v2"}`, good})})
			flags["schema"] = "a.json"
		}},
		{"bad import", func() {
			r.write(map[string]string{"b.ridl": "webrpc = v1\n\nimport\n  - nosuch.ridl\n", "c.ridl": "webrpc = v1\n\nimport\n  - a2.ridl\n", "a2.ridl": "webrpc = v1\nstruct X\n  - a: Nope\n"})
			flags["schema"] = model.Pick(rnd, []string{"b.ridl", "c.ridl"})
		}},
		{"template", func() {
			r.write(map[string]string{"t/main.go.tmpl": model.Pick(rnd, []string{`{{define "main"}}`, `{{define "main"}}x{{fail "no"}}{{end}}`, `{{define "main"}}x{{.Nope}}{{end}}`, `{{define "mani"}}{{end}}`, `{{define "main"}}{{nope}}{{end}}`, `{{define "main"}}{{range .Types}}{{end}}x{{get .Opts "nope"}}{{end}}`, `{{define "main"}}x{{first (array)}}{{end}}`})})
			flags["target"] = "./t"
		}},
		{"target", func() {
			flags["target"] = model.Pick(rnd, []string{"./nosuch", "nosuch", "github.com/nobody/nothing", "/nosuch", "golang@v0.0.1", "./a.ridl", "Json", "../nosuch", "."})
		}},
		{"both filters", func() {
			flags["ignore"] = model.Pick(rnd, []string{"@auth", "@acl", "@auth,@acl", "@acl:x"})
			flags["match"] = model.Pick(rnd, []string{"@auth", "@acl", "@auth,@acl", flags["ignore"]})
		}},
		{"filter", func() {
			flags[model.Pick(rnd, []string{"ignore", "match"})] = model.Pick(rnd, []string{"auth", "auth,acl", "@auth,acl", ",", "@auth,", "acl:admin"})
		}},
		{"argument", func() {
			extra = append(extra, model.Pick(rnd, []string{"a.ridl", "client", "x=y", "=", "", "-", "--", "-=x", "--=x", " -client"}))
		}},
		{"bool", func() {
			flags[model.Pick(rnd, []string{"fmt", "silent", "refreshCache", "methodTreeShake", "version"})] = model.Pick(rnd, []string{"yes", "", "2", "on", "tru", " true"})
		}},
		{"out is a directory", func() {
			_ = os.MkdirAll(filepath.Join(r.dir, "dd"), 0o755)
			flags["out"] = model.Pick(rnd, []string{"dd", "dd/", ".", "t"})
		}},
		{"out below a file", func() { flags["out"] = model.Pick(rnd, []string{"a.ridl/x", "a.ridl/x/y", "t/main.go.tmpl/x"}) }},
	}
	kind := kinds[rnd.IntN(len(kinds))]
	kind.f()
	for _, n := range slices.Sorted(maps.Keys(flags)) {
		r.flag(n, flags[n])
	}
	r.args = append(r.args, extra...)
	r.shuffle()
	if file != "" && model.Chance(rnd, 80) {
		r.write(map[string]string{file: "existing content\n"})
	}
	_ = status
	res, before, after := r.run()
	c.Distinct(good + strings.Join(r.args, " "))
	if res.Code == 0 {
		c.Failf("exit status", "%s: %q exits with 0", kind.name, r.args)
		return
	}
	if strings.TrimSpace(res.Err) == "" {
		c.Failf("no reason", "%s: %q does not say why", kind.name, r.args)
	}
	if res.Out != "" {
		c.Failf("stdout", "%s: %q prints %q", kind.name, r.args, res.Out)
	}
	if ch := changes(before, after); ch != nil {
		c.Failf("files", "%s: %q fails but changes %q", kind.name, r.args, ch)
	}
	if _, ok := before[file]; ok && file != "" {
		c.Count("existing files left alone", 1)
	}
	c.Count("failures", 1)
	c.Count("failure: "+kind.name, 1)
}

// c18format takes code which can and cannot be formatted through all modes.
func c18format(c *vh.Case) {
	rnd := c.R
	r := newRun(c)
	defer r.done()
	code := model.Pick(rnd, []string{"package x\n\nvar  a=1\n", "package   x", "package x\nfunc f( ){\nreturn}\n", "// c\npackage x\nimport (\"os\"\n)\nvar A=os.Args\n"})
	broken := rnd.IntN(2) == 0
	if broken {
		code = model.Pick(rnd, []string{"", "package", "not Go\n", "package x\nfunc {", "package x\n}\n", "package x\nvar s = \"open\n", "<html>\n\n"})
	}
	name := model.Pick(rnd, []string{"gen-golang", "gen-golang@v1", "x-gen-golang", "gen-ts"})
	isGo := !strings.HasPrefix(name, "gen-ts")
	r.write(map[string]string{"a.ridl": "webrpc = v1\n", name + "/main.go.tmpl": `{{define "main"}}{{` + strconv.Quote(code) + `}}{{end}}`})
	r.flag("schema", "a.ridl")
	r.flag("target", "./"+name)
	silent, doFormat := rnd.IntN(2) == 0, model.Chance(rnd, 75)
	r.boolean("silent", silent, false)
	r.boolean("fmt", doFormat, true)
	out := ""
	if rnd.IntN(2) == 0 {
		out = "o.go"
		r.flag("out", out)
		if rnd.IntN(2) == 0 {
			r.write(map[string]string{out: strings.Repeat("old\n", 1000)})
		}
	}
	r.shuffle()
	res, before, after := r.run()
	c.Distinct(code + strings.Join(r.args, " "))
	want, fails := code, false
	if isGo && doFormat {
		if broken {
			fails = true
		} else {
			b, err := format.Source([]byte(code))
			if err != nil {
				panic(err)
			}
			want = string(b)
		}
	}
	got, other := after[out], res.Out
	if out == "" {
		got, other = strings.TrimSuffix(res.Out, "\n"), ""
	}
	if got != want {
		c.Failf("text", "%q: %s", r.args, vh.Diff(want, got))
	}
	if fails != (res.Code != 0) {
		c.Failf("exit status", "%q exits with %d", r.args, res.Code)
	}
	if said := strings.Contains(res.Err+other, "format"); fails != said {
		c.Failf("format error", "%q: the format error is reported: %t; stdout %q stderr %q", r.args, said, other, res.Err)
	}
	if ch := changes(before, after, out); ch != nil {
		c.Failf("files", "%q changes %q", r.args, ch)
	}
	if out != "" && silent && other != "" {
		c.Failf("summary", "%q prints %q", r.args, other)
	}
	switch {
	case fails:
		c.Count("format errors", 1)
	case isGo && doFormat:
		c.Count("formatted", 1)
	default:
		c.Count("left unformatted", 1)
	}
}

// c18unwritable gives output to places which do not take it.
func c18unwritable(c *vh.Case) {
	rnd := c.R
	r := newRun(c)
	defer r.done()
	text := "output\n"
	if rnd.IntN(2) == 0 {
		text = strings.Repeat("output of many lines\n", 1+rnd.IntN(1<<16))
	}
	if model.Chance(rnd, 10) {
		text = ""
	}
	r.write(map[string]string{"a.ridl": "webrpc = v1\n", "t/main.go.tmpl": `{{define "main"}}` + text + `{{end}}`})
	r.flag("schema", "a.ridl")
	r.flag("target", "./t")
	r.boolean("silent", rnd.IntN(2) == 0, false)
	place := model.Pick(rnd, []string{"stdout full", "broken pipe", "stdout read-only", "size limit", "closed fifo", "link to a closed fifo"})
	before := snapshot(r.dir)
	var res cli.Result
	switch place {
	case "stdout full", "stdout read-only":
		mode := os.O_WRONLY
		path := "/dev/full"
		if place == "stdout read-only" {
			mode, path = os.O_RDONLY, filepath.Join(r.dir, "a.ridl")
		} else if info, err := os.Stat(path); err != nil || info.Mode()&os.ModeCharDevice == 0 {
			return // there is no such device here
		}
		f, err := os.OpenFile(path, mode, 0)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		res = cli.Exec(r.dir, r.env, f, cli.Path(), r.args...)
	case "closed fifo", "link to a closed fifo":
		// not /dev/full: the code under test may replace what it is given
		if len(text) < 1<<13 {
			return
		}
		fifo := filepath.Join(r.dir, "fifo")
		if err := syscall.Mkfifo(fifo, 0o600); err != nil {
			panic(err)
		}
		out := "fifo"
		if place != "closed fifo" {
			out = "link"
			if err := os.Symlink("fifo", filepath.Join(r.dir, "link")); err != nil {
				panic(err)
			}
		}
		before = snapshot(r.dir)
		r.flag("out", out)
		res = c18fifo(r, fifo)
		// an implementation may put a file in its place
		if b, err := readRegular(filepath.Join(r.dir, out)); err == nil && string(b) == text && res.Code == 0 {
			return
		}
	case "broken pipe":
		pr, pw, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		pr.Close()
		res = cli.Exec(r.dir, r.env, pw, cli.Path(), r.args...)
		pw.Close()
		res.Err += "ended by the signal"
	case "size limit":
		if len(text) < 4096 {
			return
		}
		r.flag("out", "o.txt")
		res = cli.Exec(r.dir, r.env, nil, "/bin/bash", append([]string{"-c", `ulimit -f 1; exec "$0" "$@"`, cli.Path()}, r.args...)...)
	}
	c.Attach("command", place+": "+strings.Join(r.args, " "))
	c.Attach("stderr", res.Err)
	c.Distinct(place + strings.Join(r.args, " ") + strconv.Itoa(len(text)))
	if res.Hung {
		c.Failf("hang", "%s: webrpc-gen does not end", place)
		return
	}
	if res.Code == 0 {
		c.Failf("exit status", "%s: %q exits with 0, but its output is lost", place, r.args)
		return
	}
	if strings.TrimSpace(res.Err) == "" {
		c.Failf("no reason", "%s: %q does not say why", place, r.args)
	}
	if ch := changes(before, snapshot(r.dir), "o.txt"); ch != nil {
		c.Failf("files", "%s: %q changes %q", place, r.args, ch)
	}
	c.Count("outputs which cannot be written", 1)
	c.Count("place: "+place, 1)
}

// c18template takes templates which print to stderr and end the program.
func c18template(c *vh.Case) {
	rnd := c.R
	r := newRun(c)
	defer r.done()
	status := model.Pick(rnd, []int{0, 1, 2, 3, 42, 100, 125})
	says := model.Pick(rnd, []string{"", "because", "é%d", "a b\n"})
	body := "before{{stderrPrint " + strconv.Quote(says) + " 1}}{{stderrPrintf \"<%s:%d>\" " + strconv.Quote(says) + " 2}}"
	want := says + "1"
	if says == "" {
		want = " 1"
	}
	want = fmt.Sprint(says, 1) + fmt.Sprintf("<%s:%d>", says, 2)
	ends := rnd.IntN(2) == 0
	if ends {
		body += fmt.Sprintf("{{exit %d}}", status)
	}
	r.write(map[string]string{"a.ridl": "webrpc = v1\n", "t/main.go.tmpl": `{{define "main"}}` + body + "after{{end}}"})
	r.flag("schema", "a.ridl")
	r.flag("target", "./t")
	r.boolean("silent", true, false)
	out := ""
	if rnd.IntN(2) == 0 {
		out = "o.txt"
		r.flag("out", out)
		if rnd.IntN(2) == 0 {
			r.write(map[string]string{out: "old"})
		}
	}
	r.shuffle()
	res, before, after := r.run()
	c.Distinct(body + strings.Join(r.args, " "))
	if res.Err != want {
		c.Failf("stderr", "%q prints %q instead of %q on stderr", r.args, res.Err, want)
	}
	if ends {
		if res.Code != status {
			c.Failf("exit status", "%q exits with %d instead of %d", r.args, res.Code, status)
		}
		if ch := changes(before, after); ch != nil || res.Out != "" {
			c.Failf("output", "%q is ended by its template, but changes %q and prints %q", r.args, ch, res.Out)
		}
		c.Count("ended by template", 1)
		return
	}
	got := after[out]
	if out == "" {
		got = strings.TrimSuffix(res.Out, "\n")
	}
	if res.Code != 0 || got != "beforeafter" {
		c.Failf("output", "%q exits with %d and gives %q", r.args, res.Code, got)
	}
	c.Count("messages of templates", 1)
}

func c18help(c *vh.Case) {
	rnd := c.R
	r := newRun(c)
	defer r.done()
	r.write(map[string]string{"a.ridl": "webrpc = v1\n", "o.txt": "old", "t/main.go.tmpl": `{{define "main"}}{{if exists .Opts "help"}}help of {{.WebrpcTarget}}{{else}}code{{end}}{{end}}`})
	if model.Chance(rnd, 30) {
		r.flag("out", "o.txt")
	}
	if rnd.IntN(2) == 0 {
		r.flag("schema", "a.ridl")
	}
	if model.Chance(rnd, 40) { // the version
		if rnd.IntN(2) == 0 {
			r.flag("target", model.Pick(rnd, []string{"./t", "nosuch", "golang"}))
		}
		r.boolean("version", true, false)
		r.shuffle()
		res, before, after := r.run()
		if res.Code != 0 || strings.TrimSpace(res.Out) != "webrpc-gen "+webrpc.VERSION || res.Err != "" || changes(before, after) != nil {
			c.Failf("version", "%q exits with %d and prints %q, %q", r.args, res.Code, res.Out, res.Err)
		}
		c.Count("version", 1)
		c.Distinct(strings.Join(r.args, " "))
		return
	}
	r.shuffle()
	target := model.Pick(rnd, []string{"", "./t", "./nosuch"})
	if target != "" {
		r.args = append(r.args, "-target="+target)
	}
	r.args = append(r.args, model.Pick(rnd, []string{"-h", "-help", "--help"}))
	res, before, after := r.run()
	if res.Out != "" || changes(before, after) != nil {
		c.Failf("help", "%q prints %q and changes %q", r.args, res.Out, changes(before, after))
	}
	for _, f := range []string{"-schema", "-target", "-out", "-fmt", "-refreshCache", "-silent", "-service", "-methodTreeShake", "-ignore", "-match", "-schemaVersion", "-version"} {
		if !strings.Contains(res.Err, f) {
			c.Failf("help", "%q does not mention %s", r.args, f)
		}
	}
	if (target == "./t") != strings.Contains(res.Err, "help of ./t") {
		c.Failf("help", "%q: the target's help is missing or wrong: %s", r.args, res.Err)
	}
	c.Count("help", 1)
	c.Distinct(strings.Join(r.args, " "))
}

// c18fifo runs the command, with a FIFO whose reader goes away once something
// is written to it.
func c18fifo(r *run18, fifo string) cli.Result {
	fd, err := syscall.Open(fifo, syscall.O_RDONLY|syscall.O_NONBLOCK|syscall.O_CLOEXEC, 0)
	if err != nil {
		panic(err)
	}
	const setPipeSize = 1031
	_, _, _ = syscall.Syscall(syscall.SYS_FCNTL, uintptr(fd), setPipeSize, 4096)
	ended, closed := make(chan struct{}), make(chan struct{})
	go func() {
		defer close(closed)
		defer syscall.Close(fd)
		var b [1]byte
		for {
			if n, _ := syscall.Read(fd, b[:]); n > 0 {
				return
			}
			select {
			case <-ended:
				return
			case <-time.After(time.Millisecond):
			}
		}
	}()
	res := cli.Run(r.dir, r.env, r.args...)
	close(ended)
	<-closed
	return res
}

func readRegular(file string) ([]byte, error) {
	info, err := os.Stat(file)
	if err != nil {
		return nil, err
	}
	if !info.Mode().IsRegular() {
		return nil, os.ErrInvalid
	}
	return os.ReadFile(file)
}
