package main

import (
	"fmt"
	"io/fs"
	"maps"
	"math/rand/v2"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing/fstest"
	"time"

	"github.com/webrpc/webrpc"
	"github.com/webrpc/webrpc/gen"
	"github.com/webrpc/webrpc/schema"
	"github.com/webrpc/webrpc/schema/ridl"

	"verif/harness/internal/cli"
	"verif/harness/internal/model"
	"verif/harness/internal/sut"
	"verif/harness/internal/vh"
)

var c11 = &vh.Prop{
	ID: "C11", Quick: 900, Thorough: 20000,
	Rule: "parsers and generators run concurrently under the race detector, on files of the same names with different contents, on schemas and options of their own and shared ones, with pauses at file accesses; sequences of them in one process while the files change; the same run in several processes. Every result is compared with the model's, or else with that of the job run alone. Distinct by the order in which the events of the jobs interleaved, or by inputs",
	Require: map[string]int{"concurrent runs": 5000, "runs overlapping another": 4000, "runs of shared schemas": 800, "steps of histories": 1500, "processes": 300, "runs compared with the model": 5000,
		"job parse": 500, "job parse json": 150, "job reject": 150, "job dump": 150, "job program": 150, "job json": 100, "job debug": 60, "job embedded": 50, "job named": 150, "job go": 100, "job load": 150, "job failing": 100, "failures in histories": 100},
	Run: func(c *vh.Case) {
		http.DefaultTransport = offline{} // nothing here may be fetched
		switch c.Index % 10 {
		case 0:
			c11processes(c)
		case 1, 2:
			c11history(c)
		default:
			c11concurrent(c)
		}
	},
}

// A watcher belongs to one goroutine: it delays accesses and notes when they happen.
// It shares nothing with others, in order not to order what they do.
type watcher struct {
	r      *rand.Rand
	id     int
	events []event
}

type event struct {
	at time.Time
	id int
}

func (w *watcher) pause() {
	w.events = append(w.events, event{time.Now(), w.id})
	switch w.r.IntN(8) {
	case 0:
		time.Sleep(time.Duration(w.r.IntN(300)) * time.Microsecond)
	case 1, 2, 3:
		runtime.Gosched()
	}
}

type slowFS struct {
	fs.FS
	w *watcher
}

func (f slowFS) Open(name string) (fs.File, error) {
	f.w.pause()
	file, err := f.FS.Open(name)
	f.w.pause()
	return file, err
}

// A job can be run any number of times, by any goroutine.
type job struct {
	kind   string
	want   string // what the model says
	alone  bool   // there is no model: the result is that of a run alone
	shared bool
	run    func(w *watcher) string
}

func outcome(m *model.Schema, s *schema.WebRPCSchema, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	h, err := s.SchemaHash()
	if err != nil {
		return "no hash: " + err.Error()
	}
	if _, err := sut.CheckResolved(s, m); err != nil {
		return "not resolved: " + err.Error()
	}
	return h + "\n" + sut.JSON(s)
}

func wantOutcome(m *model.Schema) string { return modelHash(m) + "\n" + m.JSON() }

func produced(out *gen.GenOutput, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	return fmt.Sprintf("%s\n%v\n%s", out.TmplVersion, out.FormatErr, out.Code)
}

// c11files renders a schema as three files which have the same names for every schema.
func c11files(r *rand.Rand, m *model.Schema) map[string]string {
	own := &model.Schema{Name: m.Name, Version: m.Version, BasePath: m.BasePath, Services: m.Services}
	var imports []model.Import
	files := map[string]string{}
	parts := len(m.Types) > 0 && strings.HasPrefix(m.Types[0].Name, "ZzPart")
	if !parts && model.Chance(r, 50) {
		files["main.ridl"] = model.Render(m, nil, model.RandomStyle(r))
		return files
	}
	types := m.Types
	for len(types) > 0 && strings.HasPrefix(types[0].Name, "ZzPart") {
		n := 1
		if len(types) > 1 && strings.HasPrefix(types[1].Name, "ZzPart") && model.Chance(r, 30) {
			n = 2
		}
		name := fmt.Sprintf("part%d.ridl", r.IntN(1e6))
		for files[name] != "" {
			name = "x" + name
		}
		imports = append(imports, model.Import{Path: name})
		files[name] = model.Render(&model.Schema{Types: types[:n]}, nil, model.RandomStyle(r))
		types = types[n:]
	}
	if len(types) > 0 {
		imports = append(imports, model.Import{Path: "types.ridl"})
		files["types.ridl"] = model.Render(&model.Schema{Types: types}, nil, model.RandomStyle(r))
	}
	for i, errs := 0, m.Errors; len(errs) > 0; i++ {
		n := 1 + r.IntN(len(errs))
		name := fmt.Sprintf("sub/errors%d.ridl", 9-i)
		imports = append(imports, model.Import{Path: "./" + name})
		files[name] = model.Render(&model.Schema{Errors: errs[:n]}, nil, model.RandomStyle(r))
		errs = errs[n:]
	}
	files["main.ridl"] = model.Render(own, imports, model.RandomStyle(r))
	return files
}

func c11model(c *vh.Case) *model.Schema {
	m := model.New(c.R, model.Options{Types: 1 + c.R.IntN(8), Errors: 3, Services: 2})
	for m.Expanded(showable) > showable {
		m = model.New(c.R, model.Options{Types: 1 + c.R.IntN(8), Errors: 3, Services: 2})
	}
	if model.Chance(c.R, 50) { // so that schemas differ in little
		m.Name, m.Version = "Same", "v1.0.0"
	}
	if n := c.R.IntN(5) - 1; n > 0 { // types which depend on no others, to be put into files of their own
		var parts []*model.Type
		for i := range n {
			parts = append(parts, &model.Type{Kind: "struct", Name: fmt.Sprintf("ZzPart%d", i), Fields: []*model.Field{{Name: "x", Type: &model.VT{Core: "string"}}}})
		}
		m.Types = append(parts, m.Types...)
	}
	return m
}

func mapFS(files map[string]string) fstest.MapFS {
	fsys := fstest.MapFS{}
	for name, text := range files {
		fsys[name] = &fstest.MapFile{Data: []byte(text)}
	}
	return fsys
}

// defaulted is what generators see of a schema.
func defaulted(m *model.Schema) *model.Schema {
	m = m.Clone()
	m.BasePath = m.NormalBasePath()
	if m.BasePath == "" && len(m.Services) > 0 {
		m.BasePath = "/rpc/"
	}
	return m
}

type c11world struct {
	c       *vh.Case
	dir     string
	n       int
	fsys    fstest.MapFS // shared by some parsers
	schemas []*shared
	configs []*gen.Config
}

type shared struct {
	m *model.Schema
	s *schema.WebRPCSchema
}

// schema is one of its own or one which others use at the same time.
func (w *c11world) schema() (*model.Schema, func() *schema.WebRPCSchema, bool) {
	c := w.c
	if len(w.schemas) > 0 && model.Chance(c.R, 60) {
		sh := model.Pick(c.R, w.schemas)
		return sh.m, func() *schema.WebRPCSchema { return sh.s }, true
	}
	m := c11model(c)
	text := m.JSON()
	return m, func() *schema.WebRPCSchema {
		s, err := schema.ParseSchemaJSON([]byte(text))
		if err != nil {
			return &schema.WebRPCSchema{SchemaName: err.Error()}
		}
		return s
	}, false
}

func (w *c11world) config() *gen.Config {
	c := w.c
	if len(w.configs) > 0 && model.Chance(c.R, 60) {
		return model.Pick(c.R, w.configs)
	}
	return &gen.Config{TemplateOptions: c11opts(c.R)}
}

func c11opts(r *rand.Rand) map[string]any {
	opts := map[string]any{"dump": true}
	for range r.IntN(4) {
		opts[model.Pick(r, []string{"client", "server", "pkg", "x"})] = model.Pick(r, []any{"true", "", "a", "b", true, 3})
	}
	return opts
}

func (w *c11world) path(name string) string {
	w.n++
	return filepath.Join(w.dir, fmt.Sprint(w.n), name)
}

const dumpMain = `{{define "main"}}{{template "dump" .}}{{end}}`

// tagged templates print which they are, through a function of the same name as others'.
func tagged(tag string) map[string]string {
	return map[string]string{"main.go.tmpl": `{{define "main"}}{{template "tag"}}{{template "dump" .}}{{set .Opts "set by a template" ` + strconv.Quote(tag) + `}}{{set .Opts "x" 7}}{{template "tag"}}{{end}}`, "dump.go.tmpl": dumpTmpl, "tag.go.tmpl": `{{define "tag"}}` + tag + "\n{{end}}"}
}

// failing templates print something before they fail.
func failing(r *rand.Rand, tag string) map[string]string {
	fail := model.Pick(r, []string{`{{first (array)}}`, `{{get .Opts "no such option"}}`, `{{dict 1}}`, `{{template "nested" .}}`, `{{.Opts.x.y.z | toUpper}}`})
	return map[string]string{"main.go.tmpl": `{{define "main"}}` + strings.Repeat("PARTIAL "+tag+"\n", 1+r.IntN(3)) + `{{template "dump" .}}` + fail + `{{end}}`, "dump.go.tmpl": dumpTmpl, "n.go.tmpl": `{{define "nested"}}nested{{last (array)}}{{end}}`}
}

func (w *c11world) job() *job {
	c := w.c
	r := c.R
	switch r.IntN(13) {
	case 12: // a template which prints something and fails
		m, s, sh := w.schema()
		dir := w.path("tmpl")
		cli.Write(dir, failing(r, fmt.Sprintf("tag %d", r.IntN(1000))))
		return &job{kind: "failing", alone: true, shared: sh, run: func(wt *watcher) string {
			wt.pause()
			out, err := gen.Generate(s(), dir, &gen.Config{TemplateOptions: map[string]any{"dump": true}})
			wt.pause()
			if err == nil {
				return "no error for " + m.Name + ": " + produced(out, err)
			}
			return err.Error()
		}}
	case 0, 1: // files of the same names
		m := c11model(c)
		files := c11files(r, m)
		fsys := mapFS(files)
		w.attach(m, files)
		return &job{kind: "parse", want: wantOutcome(m), run: func(wt *watcher) string {
			s, err := ridl.NewParser(slowFS{fsys, wt}, "/", "main.ridl").Parse()
			return outcome(m, s, err)
		}}
	case 2: // different files of a shared file system, which import the same one
		m := c11model(c)
		for len(m.Types) > 0 && strings.HasPrefix(m.Types[0].Name, "ZzPart") {
			m.Types = m.Types[1:]
		}
		name := fmt.Sprintf("dir%d/main.ridl", len(w.fsys))
		own := &model.Schema{Name: m.Name, Version: m.Version, BasePath: m.BasePath, Services: m.Services, Types: m.Types, Errors: m.Errors}
		w.fsys[name] = &fstest.MapFile{Data: []byte(model.Render(own, []model.Import{{Path: "../common/c.ridl"}}, model.RandomStyle(r)))}
		want := m.Clone()
		want.Types = append([]*model.Type{{Kind: "struct", Name: "ZzCommon", Fields: []*model.Field{{Name: "x", Type: &model.VT{Core: "string"}}}}}, want.Types...)
		return &job{kind: "parse", want: wantOutcome(want), run: func(wt *watcher) string {
			s, err := ridl.NewParser(slowFS{w.fsys, wt}, "/", name).Parse()
			return outcome(want, s, err)
		}}
	case 3: // from disk
		m := c11model(c)
		path := w.path("main.ridl")
		files := map[string]string{}
		for name, text := range c11files(r, m) {
			files[name] = text
		}
		if model.Chance(r, 30) {
			path = strings.TrimSuffix(path, "ridl") + "json"
			files = map[string]string{"main.json": m.JSON()}
		}
		cli.Write(filepath.Dir(path), files)
		return &job{kind: "load", want: wantOutcome(m), run: func(wt *watcher) string {
			wt.pause()
			s, err := webrpc.ParseSchemaFile(path)
			wt.pause()
			return outcome(m, s, err)
		}}
	case 4:
		m := c11model(c)
		text := m.JSON()
		return &job{kind: "parse json", want: wantOutcome(m), run: func(wt *watcher) string {
			wt.pause()
			s, err := schema.ParseSchemaJSON([]byte(text))
			wt.pause()
			return outcome(m, s, err)
		}}
	case 5: // with a mistake
		m := c11model(c)
		files := c11files(r, m)
		switch r.IntN(4) {
		case 0:
			files["main.ridl"] += "\nstruct Broken\n  - x: Missing" + fmt.Sprint(r.IntN(100)) + "\n"
		case 1:
			files["main.ridl"] += "\nstruct Twice\n  - x: int\nstruct Twice\n  - y: int\n"
		case 2:
			files["main.ridl"] += strings.Repeat("\n", r.IntN(20)) + "\nstruct\n"
		default:
			files["main.ridl"] = strings.Replace(files["main.ridl"], "webrpc", "webrpcx", 1)
		}
		fsys := mapFS(files)
		return &job{kind: "reject", alone: true, run: func(wt *watcher) string {
			s, err := ridl.NewParser(slowFS{fsys, wt}, "/", "main.ridl").Parse()
			if err == nil {
				return "accepted " + sut.JSON(s)
			}
			return err.Error()
		}}
	case 6: // templates in a directory
		m, s, sh := w.schema()
		m = defaulted(m)
		cfg := w.config()
		tag := fmt.Sprintf("tag %d", r.IntN(1000))
		dir := w.path("tmpl")
		cli.Write(dir, tagged(tag))
		g := codegen{target: dir, codeGen: "tmpl", name: "tmpl"}
		want := fmt.Sprintf("%s\n%v\n%s\n%s%s\n", dir, nil, tag, wantDump(m, g, cfg.TemplateOptions, command(os.Args)), tag)
		return &job{kind: "dump", want: want, shared: sh, run: func(wt *watcher) string {
			wt.pause()
			out, err := gen.Generate(s(), dir, cfg)
			wt.pause()
			return produced(out, err)
		}}
	case 7:
		m, s, sh := w.schema()
		m = defaulted(m)
		cfg := w.config()
		name := model.Pick(r, []string{"golang", "typescript"})
		g := codegen{target: spellTarget(r, name), codeGen: "gen-" + name + "@" + embeddedVersion(name), name: "gen-" + name, version: embeddedVersion(name)}
		want := name + "\n" + wantDump(m, g, cfg.TemplateOptions, command(os.Args))
		return &job{kind: "named", want: want, shared: sh, run: func(wt *watcher) string {
			wt.pause()
			out, err := gen.Generate(s(), g.target, cfg)
			wt.pause()
			if err != nil {
				return produced(out, err)
			}
			return out.Code
		}}
	case 8:
		m, s, sh := w.schema()
		m = defaulted(m)
		cfg := w.config()
		if model.Chance(r, 40) {
			return &job{kind: "debug", alone: true, shared: sh, run: func(wt *watcher) string {
				wt.pause()
				return produced(gen.Generate(s(), "debug", cfg))
			}}
		}
		return &job{kind: "json", want: "json\n<nil>\n" + m.JSON(), shared: sh, run: func(wt *watcher) string {
			wt.pause()
			return produced(gen.Generate(s(), "json", cfg))
		}}
	case 9:
		_, text, want, given := c16make(c)
		dir := w.path("prog")
		cli.Write(dir, map[string]string{"main.go.tmpl": text})
		return &job{kind: "program", want: want, run: func(wt *watcher) string {
			opts := copyOpts(given)
			wt.pause()
			out, err := gen.Generate(emptySchema(), dir, &gen.Config{TemplateOptions: opts})
			if err != nil {
				return produced(out, err)
			}
			return strings.TrimRight(out.Code, "\n")
		}}
	case 10: // formatted
		code, _ := c17goCode(r)
		dir := w.path("gen-golang")
		cli.Write(dir, map[string]string{"main.go.tmpl": `{{define "main"}}` + strings.ReplaceAll(code, "{{", `{{"{{"}}`) + `{{end}}`})
		return &job{kind: "go", alone: true, run: func(wt *watcher) string {
			wt.pause()
			return produced(gen.Generate(emptySchema(), dir, &gen.Config{Format: true}))
		}}
	default: // real templates
		m, s, sh := w.schema()
		name := model.Pick(r, []string{"javascript", "kotlin", "dart", "openapi"})
		opts := model.Pick(r, [][]string{nil, {"client"}})
		if name == "openapi" {
			opts = model.Pick(r, [][]string{nil, {"title"}})
		}
		want, ok := w.process(m, name, opts)
		if !ok { // templates may end the process, if they do not support something
			return w.job()
		}
		cfg := &gen.Config{TemplateOptions: map[string]any{}}
		for _, o := range opts {
			cfg.TemplateOptions[o] = ""
		}
		return &job{kind: "embedded", want: want, shared: sh, run: func(wt *watcher) string {
			wt.pause()
			out, err := gen.Generate(s(), name, cfg)
			if err != nil {
				return produced(out, err)
			}
			return strings.TrimSpace(strings.ReplaceAll(out.Code, command(os.Args), "COMMAND"))
		}}
	}
}

// process is what a process of its own generates.
func (w *c11world) process(m *model.Schema, target string, opts []string) (string, bool) {
	path := w.path("a.json")
	cli.Write(filepath.Dir(path), map[string]string{"a.json": m.JSON()})
	args := []string{"-schema=a.json", "-target=" + target}
	for _, o := range opts {
		args = append(args, "-"+o)
	}
	res := cli.Run(filepath.Dir(path), nil, args...)
	return strings.TrimSpace(strings.ReplaceAll(res.Out, "webrpc-gen "+strings.Join(args, " "), "COMMAND")), res.Code == 0
}

func (w *c11world) attach(m *model.Schema, files map[string]string) {
	for name, text := range files {
		w.c.Attach(fmt.Sprintf("%d/%s", w.n, name), text)
	}
}

func c11newWorld(c *vh.Case) (*c11world, func()) {
	dir, done := cli.Dir()
	w := &c11world{c: c, dir: dir, fsys: fstest.MapFS{"common/c.ridl": {Data: []byte("webrpc = v1\n\nstruct ZzCommon\n  - x: string\n")}}}
	for range 1 + c.R.IntN(2) {
		m := c11model(c)
		if model.Chance(c.R, 70) {
			m.BasePath = ""
		}
		s, err := schema.ParseSchemaJSON([]byte(m.JSON()))
		if err != nil {
			panic(err)
		}
		w.schemas = append(w.schemas, &shared{m, s})
		w.configs = append(w.configs, &gen.Config{TemplateOptions: c11opts(c.R)})
	}
	return w, done
}

func c11concurrent(c *vh.Case) {
	w, done := c11newWorld(c)
	defer done()
	var jobs []*job
	for range 4 + c.R.IntN(6) {
		jobs = append(jobs, w.job())
	}
	type run struct {
		job     *job
		w       *watcher
		rounds  int
		got     []string
		started time.Time
		ended   time.Time
	}
	var runs []*run
	for i, j := range jobs {
		for range 1 + c.R.IntN(3) {
			runs = append(runs, &run{job: j, rounds: 1 + c.R.IntN(2), w: &watcher{id: i, r: rand.New(rand.NewPCG(c.R.Uint64(), 11))}})
		}
	}
	before := make([]string, len(w.schemas))
	for i, sh := range w.schemas {
		before[i] = sh.m.JSON()
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for _, x := range runs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			x.started = time.Now()
			for range x.rounds {
				x.got = append(x.got, x.job.run(x.w))
			}
			x.ended = time.Now()
		}()
	}
	close(start)
	wg.Wait()

	for _, j := range jobs {
		alone := j.run(&watcher{r: c.R})
		if j.alone {
			j.want = alone
		} else if alone != j.want {
			c.Failf("alone", "%s, run alone after the others, gives %s", j.kind, vh.Diff(j.want, alone))
		}
		c.Count("job "+j.kind, 1)
	}
	var events []event
	for _, x := range runs {
		events = append(events, x.w.events...)
		for _, got := range x.got {
			if got != x.job.want {
				c.Failf("concurrent", "%s, run with others, gives %s", x.job.kind, vh.Diff(x.job.want, got))
				return
			}
			c.Count("concurrent runs", 1)
			if !x.job.alone {
				c.Count("runs compared with the model", 1)
			}
			if x.job.shared {
				c.Count("runs of shared schemas", 1)
			}
			if slices.ContainsFunc(runs, func(y *run) bool { return y != x && y.started.Before(x.ended) && x.started.Before(y.ended) }) {
				c.Count("runs overlapping another", 1)
			}
		}
	}
	for i, sh := range w.schemas {
		if now := sut.JSON(sh.s); now != before[i] {
			c.Failf("schema changed", "a schema used by several generations has changed: %s", vh.Diff(before[i], now))
		}
	}
	sort.Slice(events, func(i, j int) bool { return events[i].at.Before(events[j].at) })
	var order strings.Builder
	for _, e := range events {
		fmt.Fprintf(&order, "%d ", e.id)
	}
	c.Distinct(fmt.Sprint(c.Index) + order.String())
	c.Sample(map[string]any{"jobs": len(jobs), "goroutines": len(runs), "order of events": order.String()})
}

// c11history runs jobs one after another on files which change in between, and
// comes back to earlier ones. Files keep their names, sizes and times.
func c11history(c *vh.Case) {
	w, done := c11newWorld(c)
	defer done()
	stamp := time.Unix(1700000000, 0)
	put := func(dir string, files map[string]string) {
		_ = os.RemoveAll(dir)
		cli.Write(dir, files)
		for name := range files {
			_ = os.Chtimes(filepath.Join(dir, name), stamp, stamp)
		}
	}
	type state struct {
		m     *model.Schema
		files map[string]string
	}
	var states []state
	for range 3 {
		m := c11model(c)
		states = append(states, state{m, c11files(c.R, m)})
	}
	// of the same size as the first, but for a letter
	m := states[0].m.Clone()
	if m.Name != "" && m.Name[len(m.Name)-1] < 0x80 {
		b := []byte(m.Name)
		b[len(b)-1] = 'Z'
		m.Name = string(b)
		files := maps.Clone(states[0].files)
		if i := strings.Index(files["main.ridl"], states[0].m.Name); i >= 0 {
			text := []byte(files["main.ridl"])
			text[i+len(b)-1] = 'Z'
			files["main.ridl"] = string(text)
			if x, err := sut.Parse(files, "main.ridl"); err == nil && sut.JSON(x) == m.JSON() {
				states = append(states, state{m, files})
				c.Count("files of the same size", 1)
			}
		}
	}
	schemaDir, tmplDir := filepath.Join(w.dir, "schema"), filepath.Join(w.dir, "tmpl")
	var jobs []*job
	for range 3 {
		jobs = append(jobs, w.job())
	}
	aloneWant := map[*job]string{}
	for range 8 + c.R.IntN(6) {
		if model.Chance(c.R, 40) {
			j := model.Pick(c.R, jobs)
			got := j.run(&watcher{r: c.R})
			want, known := j.want, !j.alone
			if j.alone {
				want, known = aloneWant[j], aloneWant[j] != ""
				aloneWant[j] = got
			}
			if known && got != want {
				c.Failf("history", "%s, run again, gives %s", j.kind, vh.Diff(want, got))
				return
			}
			c.Count("job "+j.kind, 1)
			c.Count("steps of histories", 1)
			continue
		}
		st := model.Pick(c.R, states)
		put(schemaDir, st.files)
		if model.Chance(c.R, 20) {
			put(tmplDir, failing(c.R, "before"))
			s, err := webrpc.ParseSchemaFile(filepath.Join(schemaDir, "main.ridl"))
			if err == nil {
				_, err = gen.Generate(s, tmplDir, &gen.Config{TemplateOptions: map[string]any{"dump": true}})
			}
			if err == nil {
				c.Failf("history", "a template which fails gives no error")
				return
			}
			c.Count("failures in histories", 1)
		}
		tag := fmt.Sprintf("tag %d", 1+c.R.IntN(9))
		put(tmplDir, tagged(tag))
		opts := c11opts(c.R)
		want := st.m.Clone()
		s, err := webrpc.ParseSchemaFile(filepath.Join(schemaDir, "main.ridl"))
		if got := outcome(st.m, s, err); got != wantOutcome(st.m) {
			for name, text := range st.files {
				c.Attach(name, text)
			}
			c.Failf("history", "after others, a file is read as %s", vh.Diff(wantOutcome(st.m), got))
			return
		}
		if n := len(want.Services); n > 1 && model.Chance(c.R, 40) {
			k := c.R.IntN(n)
			s = schema.MatchServices(s, []string{want.Services[k].Name})
			want.Services = want.Services[k : k+1]
			c.Count("filtered in histories", 1)
		}
		if model.Chance(c.R, 30) {
			s.SchemaVersion += "x"
			want.Version += "x"
		}
		want = defaulted(want)
		g := codegen{target: tmplDir, codeGen: "tmpl", name: "tmpl"}
		text := fmt.Sprintf("%s\n%v\n%s\n%s%s\n", tmplDir, nil, tag, wantDump(want, g, opts, command(os.Args)), tag)
		if got := produced(gen.Generate(s, tmplDir, &gen.Config{TemplateOptions: opts})); got != text {
			c.Failf("history", "after others, a generation gives %s", vh.Diff(text, got))
			return
		}
		c.Count("steps of histories", 1)
		c.Count("runs compared with the model", 2)
		c.Distinct(text)
	}
}

// c11processes runs the same command in several processes.
func c11processes(c *vh.Case) {
	m := c11model(c)
	files := c11files(c.R, m)
	for name, text := range files {
		c.Attach(name, text)
	}
	seen := defaulted(m)
	target := model.Pick(c.R, []string{"./tmpl", "./tmpl", "./show", "json", "debug", "golang", "javascript", "kotlin", "dart", "openapi"})
	args := []string{"-schema=main.ridl", "-target=" + target}
	if strings.HasPrefix(target, ".") {
		args = append(args, "-x=1", "-client", "-pkg=a b", "-b")
	}
	toFile := model.Chance(c.R, 40)
	if toFile {
		args = append(args, "-out=out/x.txt")
	}
	want := ""
	cmd := "webrpc-gen " + strings.Join(args, " ")
	opts := map[string]any{"x": "1", "client": "", "pkg": "a b", "b": ""}
	switch target {
	case "./tmpl":
		want = wantDump(seen, codegen{target: "./tmpl", codeGen: "tmpl", name: "tmpl"}, opts, cmd)
	case "json":
		want = seen.JSON()
	}
	tmpl := map[string]string{
		"tmpl/main.go.tmpl": dumpMain, "tmpl/dump.go.tmpl": dumpTmpl,
		// everything which has an order or an address
		"show/main.go.tmpl": `{{define "main"}}{{dump .Opts}}{{dump .Types}}{{dump .Errors}}{{range .Services}}{{range .Methods}}{{range $k, $v := .Annotations}}{{$k}}{{$v.Value}}{{end}}{{end}}{{end}}
{{- $d := dict "b" 1 "a" 2 "c" 3 "e" 4 "d" 5 -}}{{set $d "f" "x"}}{{$d}}{{dump $d}}{{join (array "b" "a") ","}}{{join (array $d "-" .Opts) ";"}}{{printf "%v" (sort (array $d .Opts "m"))}}{{hasField $d "a"}}{{range $k, $v := $d}}{{$k}}={{$v}} {{end}}{{.Opts}}{{SchemaBigIntFieldsByType .WebRPCSchema}}{{printf "%v" .WebrpcErrors | len}}{{end}}`,
	}
	type result struct {
		cli.Result
		file string
	}
	results := make([]result, 4)
	run := func(i int, env ...string) {
		dir, done := cli.Dir()
		defer done()
		cli.Write(dir, files)
		cli.Write(dir, tmpl)
		if toFile && i%2 == 1 { // there is something already
			cli.Write(dir, map[string]string{"out/x.txt": strings.Repeat("old\n", 5000)})
		}
		results[i].Result = cli.Run(dir, env, args...)
		b, _ := os.ReadFile(filepath.Join(dir, "out/x.txt"))
		results[i].file = string(b)
		results[i].Err = strings.ReplaceAll(results[i].Err, dir, "DIR")
	}
	run(0)
	run(1, "GOMAXPROCS=1", "GOGC=1", "LANG=C", "TZ=Asia/Tokyo")
	var wg sync.WaitGroup
	for i := range 2 {
		wg.Add(1)
		go func() { defer wg.Done(); run(2+i, "GOMAXPROCS=8", "LANG=de_DE.UTF-8") }()
	}
	wg.Wait()
	first := results[0]
	if first.Code == 0 && toFile == (first.file == "") {
		c.Failf("process", "%q: no output", args)
	}
	text := strings.TrimSuffix(first.Out, "\n")
	if toFile {
		text = first.file
	}
	if want != "" && text != want {
		c.Failf("process", "%q: the output is %s", args, vh.Diff(want, text))
		return
	}
	for i, x := range results[1:] {
		if x.Code != first.Code || x.Out != first.Out || first.Code == 0 && x.file != first.file {
			c.Failf("process", "%q: process %d exits with %d, the first with %d: %s%s %s", args, i+2, x.Code, first.Code, vh.Diff(first.Out, x.Out), vh.Diff(first.file, x.file), x.Err)
			return
		}
	}
	// the debug target shows lengths and capacities, which depend on the command and the build
	if first.Code == 0 && target != "debug" && target != "./tmpl" && target != "json" && target != "./show" {
		c11inProcess(c, files, target, cmd, text)
	}
	c.Count("processes", len(results))
	c.Count(fmt.Sprintf("processes which exit with %d", first.Code), len(results))
	c.Distinct(m.JSON() + target)
}

// c11inProcess compares the output of a process with that of a generation
// in this one, which has seen many others.
func c11inProcess(c *vh.Case, files map[string]string, target, cmd, want string) {
	s, err := sut.Parse(files, "main.ridl")
	if err != nil {
		panic(err)
	}
	out, err := gen.Generate(s, target, &gen.Config{TemplateOptions: map[string]any{}, Format: true})
	if err != nil {
		c.Failf("process", "target %s fails in this process, not in another: %v", target, err)
		return
	}
	got := strings.ReplaceAll(out.Code, command(os.Args), cmd)
	if strings.TrimSpace(got) != strings.TrimSpace(want) {
		c.Failf("process", "target %s gives in this process %s", target, vh.Diff(want, got))
		return
	}
	c.Count("processes compared with this one", 1)
}
