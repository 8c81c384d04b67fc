package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"maps"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"os/exec"
	"os/signal"
	"path"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/webrpc/webrpc"
	"github.com/webrpc/webrpc/gen"

	"verif/harness/internal/cli"
	"verif/harness/internal/model"
	"verif/harness/internal/vh"
)

var c19 = &vh.Prop{
	ID: "C19", Quick: 5000, Thorough: 40000,
	Rule:    "random histories of generations for several remote targets, while a stand-in for the remote publishes new versions, fails (connections, statuses, cut off bodies, at a random request), and caches age, vanish or are damaged; processes killed while they fetch or write the cache; several generations at once, some of which refresh the cache; the requests, the cache directory and the output are compared with a model of the cache; distinct by history",
	Require: map[string]int{"generations": 6000, "fetched": 1500, "served from the cache": 2000, "fetch failed, cache used": 300, "fetch failed, no cache": 300, "refreshes": 300, "cache contents compared": 1500, "interrupted": 40, "cut off downloads": 60, "broken templates": 200, "no place for a cache": 100, "writes cut off": 20, "command line": 10, "concurrent rounds": 300, "rounds with both versions": 50},
	Run: func(c *vh.Case) {
		switch {
		case c.Index%20 == 9:
			c19crash(c)
		case c.Index%80 == 19:
			c19cli(c)
		case c.Index%20 == 4:
			c19concurrent(c)
		default:
			c19history(c)
		}
	},
}

// remote stands in for GitHub.
type remote struct {
	mu       sync.Mutex
	repos    map[string]map[string]map[string]string // owner/repo -> ref -> files
	requests []string
	fault    string
	faultAt  int // the request which fails
	hit      bool
	killAt   int // the request at which the process dies
}

const defaultBranch = "main"

func (r *remote) RoundTrip(req *http.Request) (*http.Response, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := len(r.requests)
	r.requests = append(r.requests, req.URL.String())
	if r.killAt > 0 && n+1 == r.killAt {
		_ = syscall.Kill(os.Getpid(), syscall.SIGKILL)
		time.Sleep(time.Minute)
	}
	status, body := r.serve(req)
	if r.fault != "" && (n == r.faultAt || n > r.faultAt && r.fault == "down") {
		r.hit = true
		switch r.fault {
		case "connection", "down":
			return nil, errors.New("connection refused")
		case "500":
			status, body = 500, "oops"
		case "404":
			status, body = 404, `{"message":"Not Found"}`
		case "403":
			status, body = 403, `{"message":"API rate limit exceeded"}`
		case "400", "401", "429", "503":
			status, _ = strconv.Atoi(r.fault)
			body = model.Pick(rand.New(rand.NewPCG(uint64(n), 1)), []string{"", body, `{"message":"no"}`})
		case "cut":
			resp := response(req, status, body)
			resp.Body = io.NopCloser(io.MultiReader(strings.NewReader(body[:len(body)/2]), broken{}))
			return resp, nil
		}
	}
	return response(req, status, body), nil
}

type broken struct{}

func (broken) Read([]byte) (int, error) { return 0, io.ErrUnexpectedEOF }

func response(req *http.Request, status int, body string) *http.Response {
	return &http.Response{
		Status: fmt.Sprintf("%d %s", status, http.StatusText(status)), StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"application/json"}}, Body: io.NopCloser(strings.NewReader(body)), ContentLength: int64(len(body)), Request: req,
	}
}

func (r *remote) serve(req *http.Request) (int, string) {
	notFound := func() (int, string) { return 404, `{"message":"Not Found"}` }
	js := func(v any) (int, string) {
		var b bytes.Buffer
		_ = json.NewEncoder(&b).Encode(v)
		return 200, b.String()
	}
	p := strings.Split(strings.Trim(req.URL.Path, "/"), "/")
	if req.URL.Host == "raw.githubusercontent.com" && len(p) > 3 { // owner repo ref path
		text, ok := r.repos[p[0]+"/"+p[1]][strings.ReplaceAll(p[2], "%2F", "/")][strings.Join(p[3:], "/")]
		if !ok {
			return notFound()
		}
		return 200, text
	}
	if req.URL.Host != "api.github.com" || len(p) < 3 || p[0] != "repos" {
		return notFound()
	}
	repo, ok := r.repos[p[1]+"/"+p[2]]
	if !ok {
		return notFound()
	}
	switch {
	case len(p) == 3:
		return js(map[string]any{"default_branch": defaultBranch})
	case p[3] == "contents":
		ref := req.URL.Query().Get("ref")
		if ref == "" {
			ref = defaultBranch
		}
		dir := strings.Join(p[4:], "/")
		list := []map[string]any{}
		seen := map[string]bool{}
		for _, name := range slices.Sorted(maps.Keys(repo[ref])) {
			rel := name
			if dir != "" {
				var ok bool
				if rel, ok = strings.CutPrefix(name, dir+"/"); !ok {
					continue
				}
			}
			first, _, deeper := strings.Cut(rel, "/")
			if seen[first] {
				continue
			}
			seen[first] = true
			e := map[string]any{"name": first, "path": path.Join(dir, first), "type": "dir", "size": 0}
			if !deeper {
				e["type"], e["size"] = "file", len(repo[ref][name])
				e["download_url"] = "https://raw.githubusercontent.com/" + p[1] + "/" + p[2] + "/" + ref + "/" + name
			}
			list = append(list, e)
		}
		if len(list) == 0 {
			return notFound()
		}
		return js(list)
	case p[3] == "git" && len(p) > 5 && p[4] == "trees":
		ref := strings.TrimPrefix(strings.TrimPrefix(strings.Join(p[5:], "/"), "heads/"), "tags/")
		entries := []map[string]any{}
		for name, text := range repo[ref] {
			entries = append(entries, map[string]any{"path": name, "type": "blob", "size": len(text), "sha": hex.EncodeToString([]byte(ref + "\x00" + name))})
		}
		return js(map[string]any{"tree": entries})
	case p[3] == "git" && len(p) > 5 && p[4] == "blobs":
		b, _ := hex.DecodeString(p[5])
		ref, name, _ := strings.Cut(string(b), "\x00")
		return js(map[string]any{"encoding": "base64", "content": base64.StdEncoding.EncodeToString([]byte(repo[ref][name]))})
	}
	return notFound()
}

type remoteTarget struct {
	target    string // as given
	repo, ref string
	dir       string
}

var c19targets = []remoteTarget{
	{"github.com/acme/gen-foo", "acme/gen-foo", "main", ""},
	{"github.com/acme/gen-foo@v1.0.0", "acme/gen-foo", "v1.0.0", ""},
	{"github.com/acme/gen-foo@v1.0.1", "acme/gen-foo", "v1.0.1", ""},
	{"github.com/other/gen-foo@v1.0.0", "other/gen-foo", "v1.0.0", ""},
	{"github.com/acme/mono/sub/gen-foo@v2", "acme/mono", "v2", "sub/gen-foo"},
	{"github.com/acme/mono/gen-bar", "acme/mono", "main", "gen-bar"},
	{"github.com/acme/mono/sub/Gen-foo@v2", "acme/mono", "v2", "sub/Gen-foo"},
	{"rust", "webrpc/gen-rust", "main", ""},
	{"go", "webrpc/gen-golang", "v0.6.0", ""},
	{"ts", "webrpc/gen-typescript", "v0.6.0", ""},
	{"js", "webrpc/gen-javascript", "v0.6.0", ""},
	{"Kotlin", "webrpc/gen-kotlin", "main", ""},
	{"dart@v1.2.3", "webrpc/gen-dart", "v1.2.3", ""},
	{"github.com/acme/gen-foo@heads/dev", "acme/gen-foo", "dev", ""},
	{"github.com/acme/gen-foo@tags/dev", "acme/gen-foo", "dev", ""},
}

// about is a template which prints what the templates are told about
// themselves, and what it prints.
func (t remoteTarget) about() (text, output string) {
	_, ref, _ := strings.Cut(t.target, "@")
	if strings.Contains(ref, "/") {
		return "", ""
	}
	if slices.Contains([]string{"go", "ts", "js"}, t.target) {
		ref = t.ref
	}
	name := path.Base(path.Join(t.repo, t.dir))
	full, version := name, ref
	if ref != "" {
		full += "@" + ref
	} else {
		version = "unknown"
	}
	header := fmt.Sprintf("webrpc@%s;%s@%s;", webrpc.VERSION, name, version)
	return fmt.Sprintf("{{.WebrpcTarget}} {{.CodeGen}} {{.CodeGenName}} {{.CodeGenVersion}} {{printf \"%%.%ds\" .WebrpcHeader}}\n", len(header)),
		fmt.Sprintf("%s %s %s %s %s\n", t.target, full, name, ref, header)
}

// version makes the templates of a target: all of them name the version.
func c19version(r *rand.Rand, t remoteTarget, id int, subs int) (files map[string]string, output string) {
	files = map[string]string{}
	mainFile := model.Pick(r, []string{"main.go.tmpl", "a.go.tmpl", "zz.go.tmpl"})
	body, out := fmt.Sprintf("main of %d é\n", id), fmt.Sprintf("main of %d é\n", id)
	aboutText, aboutOut := t.about()
	body, out = body+aboutText, out+aboutOut
	for _, n := range r.Perm(subs + 2)[:subs] {
		name := fmt.Sprintf("s%d.go.tmpl", n)
		text := fmt.Sprintf("%s of %d%s\n", name, id, model.Pick(r, []string{"", " é", strings.Repeat(" long", r.IntN(200))}))
		files[name] = fmt.Sprintf(`{{define "%s"}}%s{{end}}`, name, text)
		body += fmt.Sprintf(`{{template "%s" .}}`, name)
		out += text
	}
	files[mainFile] = `{{define "main"}}` + body + `{{end}}`
	if model.Chance(r, 20) {
		files[model.Pick(r, []string{"empty.go.tmpl", "Zempty.go.tmpl"})] = ""
	}
	return files, out
}

type published struct {
	files  map[string]string
	output string
	broken bool
	empty  bool // there are no templates
}

type cacheModel struct {
	p    published
	age  time.Duration
	dir  string
	live bool
}

// templatesIn lists the templates in a cache directory.
func templatesIn(dir string) map[string]string {
	files := map[string]string{}
	list, _ := filepath.Glob(filepath.Join(dir, "*.go.tmpl"))
	for _, f := range list {
		b, _ := os.ReadFile(f)
		files[filepath.Base(f)] = string(b)
	}
	return files
}

const timestampFile = ".webrpc-gen-timestamp"

func setAge(dir string, age time.Duration) {
	_ = os.WriteFile(filepath.Join(dir, timestampFile), []byte(strconv.FormatInt(time.Now().Add(-age).Unix(), 10)), 0o755)
}

func (r *remote) publish(t remoteTarget, p published, rnd *rand.Rand) {
	files := map[string]string{}
	for n, text := range p.files {
		files[path.Join(t.dir, n)] = text
	}
	// files which are not templates of the target
	for _, n := range []string{"README.md", "sub2/x.go.tmpl", "main.tmpl", "go.mod", "embed.go"} {
		if rnd == nil || model.Chance(rnd, 50) {
			files[path.Join(t.dir, n)] = "{{broken"
		}
	}
	if r.repos[t.repo] == nil {
		r.repos[t.repo] = map[string]map[string]string{}
	}
	if r.repos[t.repo][t.ref] == nil {
		r.repos[t.repo][t.ref] = map[string]string{}
	}
	all := r.repos[t.repo][t.ref]
	for n := range all {
		if t.dir == "" || strings.HasPrefix(n, t.dir+"/") {
			delete(all, n)
		}
	}
	maps.Copy(all, files)
}

func scratchTmp(dir string) func() {
	old := os.Getenv("TMPDIR")
	_ = os.Setenv("TMPDIR", dir)
	return func() { _ = os.Setenv("TMPDIR", old) }
}

func c19history(c *vh.Case) {
	rnd := c.R
	dir, done := cli.Dir()
	defer done()
	defer scratchTmp(dir)()
	rem := &remote{repos: map[string]map[string]map[string]string{}}
	http.DefaultTransport = rem
	defer func() { http.DefaultTransport = offline{} }()

	var targets []remoteTarget
	for _, i := range rnd.Perm(len(c19targets))[:1+rnd.IntN(3)] {
		t := c19targets[i]
		if slices.ContainsFunc(targets, func(o remoteTarget) bool { return o.repo == t.repo && o.ref == t.ref && o.dir == t.dir }) {
			continue
		}
		targets = append(targets, t)
	}
	blocked := model.Chance(rnd, 4) // there is no place for a cache
	if blocked {
		cli.Write(dir, map[string]string{"webrpc-cache": "a file"})
	}
	ids := 0
	now := map[string]published{}
	caches := map[string]*cacheModel{}
	publish := func(t remoteTarget) {
		ids++
		files, out := c19version(rnd, t, ids, rnd.IntN(5))
		p := published{files: files, output: out}
		if model.Chance(rnd, 5) {
			p = published{empty: true}
			c.Count("publications without templates", 1)
		} else if model.Chance(rnd, 6) {
			p.broken = true
			name := model.Pick(rnd, slices.Sorted(maps.Keys(files)))
			switch rnd.IntN(3) {
			case 0:
				if text := files[name]; text != "" {
					files[name] = text[:len(text)-7] // the closing end
				} else {
					files[name] = "{{end}}"
				}
			case 1:
				files[name] += "{{nosuchfunction 1}}"
			default:
				name = model.Pick(rnd, []string{"0.go.tmpl", "zzz.go.tmpl"})
				files[name] = `{{define "main"}}x{{template "nosuch"}}{{end}}`
				if name[0] == '0' {
					files[name] = `{{if}}`
				}
			}
		}
		now[t.target] = p
		rem.publish(t, now[t.target], rnd)
	}
	for _, t := range targets {
		publish(t)
		caches[t.target] = &cacheModel{}
	}
	var history []string
	log := func(f string, a ...any) {
		history = append(history, fmt.Sprintf(f, a...))
		c.Attach("history", strings.Join(history, "\n"))
	}
	for range 4 + rnd.IntN(10) {
		t := model.Pick(rnd, targets)
		ca := caches[t.target]
		switch rnd.IntN(12) {
		case 0, 1:
			publish(t)
			log("%s: version %d is published", t.target, ids)
			continue
		case 2, 3:
			if ca.live {
				ca.age = model.Pick(rnd, []time.Duration{time.Minute, 30 * time.Minute, 58 * time.Minute, 62 * time.Minute, 2 * time.Hour, 500 * time.Hour})
				setAge(ca.dir, ca.age)
				log("%s: cache is %v old", t.target, ca.age)
			}
			continue
		case 4:
			if ca.dir == "" {
				continue
			}
			damage := rnd.IntN(5)
			switch damage {
			case 0:
				_ = os.RemoveAll(ca.dir)
			case 1:
				_ = os.Remove(filepath.Join(ca.dir, timestampFile))
			case 2:
				_ = os.WriteFile(filepath.Join(ca.dir, timestampFile), []byte(model.Pick(rnd, []string{"", "abc", "-5", "0", " "})), 0o755)
			case 3, 4: // an interrupted write
				_ = os.RemoveAll(ca.dir)
				_ = os.MkdirAll(ca.dir, 0o755)
				_ = os.WriteFile(filepath.Join(ca.dir, "main.go.tmpl"), []byte(model.Pick(rnd, []string{"", `{{define "main"}}stale{{end}}`, `{{define "main"`})), 0o755)
				_ = os.WriteFile(filepath.Join(ca.dir, "old.go.tmpl"), []byte(`{{define "old"}}stale{{end}}`), 0o755)
			}
			ca.live = false
			log("%s: cache is damaged (%d)", t.target, damage)
			continue
		}
		// a generation
		refresh := model.Chance(rnd, 20)
		rem.requests, rem.hit, rem.fault = nil, false, ""
		if model.Chance(rnd, 35) {
			rem.fault = model.Pick(rnd, []string{"connection", "down", "500", "404", "403", "400", "401", "429", "503", "cut"})
			rem.faultAt = rnd.IntN(5)
		}
		var before map[string]string
		if ca.dir != "" {
			before = snapshot(ca.dir)
		}
		start := time.Now()
		out, err := gen.Generate(emptySchema(), t.target, &gen.Config{RefreshCache: refresh})
		log("%s: generate refresh=%t fault=%s@%d hit=%t: %d requests, %v", t.target, refresh, rem.fault, rem.faultAt, rem.hit, len(rem.requests), err)
		c.Count("generations", 1)
		if refresh {
			c.Count("refreshes", 1)
		}
		if rem.hit && rem.fault == "cut" {
			c.Count("cut off downloads", 1)
		}
		fetch := !ca.live || refresh || ca.age > time.Hour
		switch {
		case !fetch:
			if len(rem.requests) != 0 {
				c.Failf("fetched needlessly", "%s: %d requests although the cache is %v old", t.target, len(rem.requests), ca.age)
				return
			}
			if err != nil || out.Code != ca.p.output {
				c.Failf("cache not used", "%s: %v; %s", t.target, err, vh.Diff(ca.p.output, code(out)))
				return
			}
			if out.CacheRefreshErr != nil || out.IsLocal || out.CacheAge < ca.age-time.Second || out.CacheAge > ca.age+time.Since(start)+5*time.Second {
				c.Failf("report", "%s: cache age %v instead of %v, refresh error %v", t.target, out.CacheAge, ca.age, out.CacheRefreshErr)
			}
			if ch := changes(before, snapshot(ca.dir)); ch != nil {
				c.Failf("cache changed", "%s: %q", t.target, ch)
				return
			}
			c.Count("served from the cache", 1)
		case !rem.hit && now[t.target].empty:
			// there is nothing to take; an older version may stand in
			if err == nil && (!ca.live || out.Code != ca.p.output || out.CacheRefreshErr == nil) {
				c.Failf("no templates", "%s: there are no templates, but generation gives %q", t.target, out.Code)
				return
			}
			if ca.dir != "" {
				if ch := changes(before, snapshot(ca.dir)); ch != nil {
					c.Failf("cache changed", "%s: by a target without templates: %q", t.target, ch)
					return
				}
			}
			c.Count("targets without templates", 1)
		case rem.hit:
			if ca.live {
				if err != nil || out.Code != ca.p.output {
					c.Failf("no fallback", "%s: fetching fails (%s at request %d), but the cache isn't used: %v; %s", t.target, rem.fault, rem.faultAt, err, vh.Diff(ca.p.output, code(out)))
					return
				}
				if out.CacheRefreshErr == nil {
					c.Failf("failure not reported", "%s: fetching fails (%s at request %d), but isn't reported", t.target, rem.fault, rem.faultAt)
				}
				if ch := changes(before, snapshot(ca.dir)); ch != nil {
					c.Failf("cache changed", "%s: by a failed fetch: %q", t.target, ch)
					return
				}
				c.Count("fetch failed, cache used", 1)
			} else {
				if err == nil {
					c.Failf("incomplete", "%s: fetching fails (%s at request %d), but generation gives %q", t.target, rem.fault, rem.faultAt, out.Code)
					return
				}
				c.Count("fetch failed, no cache", 1)
			}
		default:
			p := now[t.target]
			if len(rem.requests) == 0 {
				c.Failf("not fetched", "%s: nothing is fetched (refresh %t, cache %t, %v old)", t.target, refresh, ca.live, ca.age)
				return
			}
			if p.broken {
				if err == nil {
					c.Failf("broken templates", "%s: the templates are broken, but generation gives %q", t.target, out.Code)
					return
				}
				c.Count("broken templates", 1)
				// whether they are in the cache isn't specified
				if !blocked {
					_ = os.RemoveAll(filepath.Join(dir, "webrpc-cache"))
				}
				for _, x := range caches {
					x.live = false
				}
				continue
			}
			if err != nil || out.Code != p.output {
				c.Failf("fetched", "%s: %v; %s", t.target, err, vh.Diff(p.output, code(out)))
				return
			}
			if blocked {
				if out.CacheAge != 0 || out.IsLocal {
					c.Failf("report", "%s: cache age %v after fetching", t.target, out.CacheAge)
				}
				if b, err := os.ReadFile(filepath.Join(dir, "webrpc-cache")); err != nil || string(b) != "a file" {
					c.Failf("cache place", "a file in place of the cache is replaced")
				}
				c.Count("no place for a cache", 1)
				continue
			}
			if out.CacheRefreshErr != nil || out.CacheAge != 0 || out.IsLocal {
				c.Failf("report", "%s: cache age %v, refresh error %v after fetching", t.target, out.CacheAge, out.CacheRefreshErr)
			}
			if got := templatesIn(out.TmplDir); !maps.Equal(got, p.files) {
				c.Failf("cache contents", "%s: the cache holds %q instead of %q", t.target, slices.Sorted(maps.Keys(got)), slices.Sorted(maps.Keys(p.files)))
				return
			}
			if rel, err := filepath.Rel(dir, out.TmplDir); err != nil || strings.HasPrefix(rel, "..") {
				c.Failf("cache place", "%s is not below the temporary directory", out.TmplDir)
			}
			for o, x := range caches {
				if o != t.target && x.dir == out.TmplDir {
					c.Failf("cache shared", "%s and %s share a cache", o, t.target)
				}
			}
			*ca = cacheModel{p: p, dir: out.TmplDir, live: true}
			c.Count("fetched", 1)
			c.Count("cache contents compared", 1)
		}
	}
	c.Distinct(strings.Join(history, "\n"))
	c.Sample(history)
}

func code(out *gen.GenOutput) string {
	if out == nil {
		return ""
	}
	return out.Code
}

// crashes -------------------------------------------------------------------

type crashConfig struct {
	Target  string
	Refresh bool
	Repos   map[string]map[string]map[string]string
	KillAt  int
	Limit   int // of the size of files
}

// remoteMain is a process which generates from a stand-in for the remote.
func remoteMain(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	var cfg crashConfig
	if err := json.Unmarshal(b, &cfg); err != nil {
		panic(err)
	}
	http.DefaultTransport = &remote{repos: cfg.Repos, killAt: cfg.KillAt}
	if cfg.Limit > 0 {
		signal.Ignore(syscall.SIGXFSZ)
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(cfg.Limit), Max: uint64(cfg.Limit)}); err != nil {
			panic(err)
		}
	}
	out, err := gen.Generate(emptySchema(), cfg.Target, &gen.Config{RefreshCache: cfg.Refresh})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	fmt.Print(out.Code)
}

func c19crash(c *vh.Case) {
	rnd := c.R
	dir, done := cli.Dir()
	defer done()
	defer scratchTmp(dir)()
	rem := &remote{repos: map[string]map[string]map[string]string{}}
	http.DefaultTransport = rem
	defer func() { http.DefaultTransport = offline{} }()
	t := c19targets[rnd.IntN(len(c19targets))]
	subs := 20 + rnd.IntN(300)
	files, out := c19version(rnd, t, 1, subs)
	old := published{files: files, output: out}
	rem.publish(t, old, rnd)
	hasOld := model.Chance(rnd, 75)
	cacheDir := ""
	if hasOld {
		o, err := gen.Generate(emptySchema(), t.target, &gen.Config{})
		if err != nil || o.Code != old.output {
			c.Failf("fetched", "%s: %v", t.target, err)
			return
		}
		cacheDir = o.TmplDir
		setAge(cacheDir, model.Pick(rnd, []time.Duration{time.Minute, 2 * time.Hour}))
	}
	files, out = c19version(rnd, t, 2, subs+rnd.IntN(9)-4)
	if model.Chance(rnd, 30) {
		big := strings.Repeat("big é ", 1000+rnd.IntN(1000))
		name := model.Pick(rnd, slices.Sorted(maps.Keys(files)))
		files[name] += `{{define "big"}}` + big + `{{end}}`
		files["zzzz.go.tmpl"] = `{{define "big2"}}` + big + `{{end}}`
	}
	fresh := published{files: files, output: out}
	rem.publish(t, fresh, rnd)

	cfg := crashConfig{Target: t.target, Refresh: true, Repos: rem.repos}
	how := rnd.IntN(4)
	switch how {
	case 0:
		cfg.KillAt = 1 + rnd.IntN(len(fresh.files)+2)
	case 3:
		cfg.Limit = 5 + rnd.IntN(model.Pick(rnd, []int{12, 40, 900, 12000}))
	}
	b, _ := json.Marshal(cfg)
	cli.Write(dir, map[string]string{"config.json": string(b)})
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(self, "remote", filepath.Join(dir, "config.json"))
	cmd.Env = append(os.Environ(), "TMPDIR="+dir)
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	ended := make(chan struct{})
	go func() { _ = cmd.Wait(); close(ended) }()
	if how == 1 || how == 2 {
		c19watch(rnd, dir, how, ended)
		_ = cmd.Process.Kill()
	}
	<-ended
	where := ""
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		where = "killed"
		c.Count("interrupted", 1)
		if cacheDir != "" {
			n := len(templatesIn(cacheDir))
			_, err := os.Stat(filepath.Join(cacheDir, timestampFile))
			c.Count(fmt.Sprintf("interrupted with templates: %t, timestamp: %t", n > 0, err == nil), 1)
			where = fmt.Sprintf("killed with %d templates in the cache, timestamp %t", n, err == nil)
		}
	}
	if how == 3 {
		where = fmt.Sprintf("files limited to %d bytes", cfg.Limit)
		c.Count("writes cut off", 1)
		if !cmd.ProcessState.Success() || stdout.String() != fresh.output {
			c.Failf("cache not writable", "%s: %s%s", where, stderr.String(), vh.Diff(fresh.output, stdout.String()))
			return
		}
	}
	// what follows never sees a mixture or a part
	for range 3 {
		rem.requests, rem.hit, rem.fault = nil, false, ""
		if model.Chance(rnd, 50) {
			rem.fault, rem.faultAt = "down", 0
		}
		refresh := model.Chance(rnd, 20)
		o, err := gen.Generate(emptySchema(), t.target, &gen.Config{RefreshCache: refresh})
		c.Attach("crash", fmt.Sprintf("%s: had old cache %t, %s; then refresh=%t, remote down=%t, %d requests: %v", t.target, hasOld, where, refresh, rem.fault != "", len(rem.requests), err))
		if err != nil {
			if rem.fault == "" {
				c.Failf("after a crash", "%s: generation fails although the remote works: %v", where, err)
				return
			}
			if len(rem.requests) == 0 {
				c.Failf("after a crash", "%s: the cache is taken for complete, but it isn't: %v", where, err)
				return
			}
			continue
		}
		if o.Code != old.output && o.Code != fresh.output || o.Code == old.output && !hasOld {
			c.Failf("after a crash", "%s: the output is of no version: %s", where, vh.Diff(fresh.output, o.Code))
			return
		}
		if len(rem.requests) > 0 && rem.fault == "" {
			if o.Code != fresh.output {
				c.Failf("after a crash", "%s: fetched, but the output is of the old version", where)
			} else if got := templatesIn(o.TmplDir); !maps.Equal(got, fresh.files) {
				c.Failf("after a crash", "%s: the cache holds %d templates instead of %d", where, len(got), len(fresh.files))
			}
		}
	}
	h := sha1.Sum([]byte(fmt.Sprint(c.Index)))
	c.Distinct(where + hex.EncodeToString(h[:4]))
}

// c19concurrent generates from one target in several goroutines or processes
// at once, some of which refresh the cache.
func c19concurrent(c *vh.Case) {
	rnd := c.R
	dir, done := cli.Dir()
	defer done()
	defer scratchTmp(dir)()
	rem := &remote{repos: map[string]map[string]map[string]string{}}
	http.DefaultTransport = rem
	defer func() { http.DefaultTransport = offline{} }()
	t := c19targets[rnd.IntN(len(c19targets))]
	subs := rnd.IntN(60)
	var old published
	live := false
	for round := range 3 + rnd.IntN(4) {
		files, out := c19version(rnd, t, round, max(0, subs+rnd.IntN(7)-3))
		fresh := published{files: files, output: out}
		rem.publish(t, fresh, rnd)
		rem.fault, rem.requests = "", nil
		down := live && model.Chance(rnd, 20)
		if down {
			rem.fault, rem.faultAt = "down", rnd.IntN(40)
		}
		caches, _ := filepath.Glob(filepath.Join(dir, "webrpc-cache", "*"))
		if live && len(caches) != 1 {
			c.Failf("cache place", "%d directories are left in place of one cache: %q", len(caches), caches)
			return
		}
		aged := false
		if live && model.Chance(rnd, 30) {
			setAge(caches[0], 2*time.Hour)
			aged = true
		}
		type result struct {
			refresh bool
			out     *gen.GenOutput
			err     error
		}
		var plans [][]bool
		for range 2 + rnd.IntN(6) {
			var plan []bool
			for range 1 + rnd.IntN(5) {
				plan = append(plan, model.Chance(rnd, 35))
			}
			plans = append(plans, plan)
		}
		results := make([][]result, len(plans))
		var wg sync.WaitGroup
		begin := make(chan struct{})
		for i, plan := range plans {
			pause := time.Duration(rnd.IntN(3000)) * time.Microsecond
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-begin
				time.Sleep(pause)
				for _, refresh := range plan {
					out, err := gen.Generate(emptySchema(), t.target, &gen.Config{RefreshCache: refresh})
					results[i] = append(results[i], result{refresh, out, err})
				}
			}()
		}
		close(begin)
		wg.Wait()
		stored := false
		sawOld, sawFresh := 0, 0
		for i, list := range results {
			for j, r := range list {
				c.Count("concurrent generations", 1)
				at := fmt.Sprintf("%s: generation %d of goroutine %d in round %d (refresh %t, aged cache %t, remote fails %t)", t.target, j, i, round, r.refresh, aged, down)
				if r.err != nil {
					if !down {
						c.Failf("concurrent", "%s fails: %v", at, r.err)
						return
					}
					continue
				}
				switch {
				case r.out.Code == fresh.output:
					sawFresh++
				case !live || r.out.Code != old.output:
					c.Failf("concurrent", "%s: the output is of no version: %s", at, vh.Diff(fresh.output, r.out.Code))
					return
				case (r.refresh || aged && j == 0 && len(results) == 1) && !down:
					c.Failf("concurrent", "%s: the output is of the old version", at)
					return
				default:
					sawOld++
				}
				if r.out.CacheRefreshErr != nil && !down {
					c.Failf("concurrent", "%s: the refresh fails: %v", at, r.out.CacheRefreshErr)
					return
				}
				if r.out.Code == fresh.output {
					stored = true
				}
			}
		}
		if sawOld > 0 && sawFresh > 0 {
			c.Count("rounds with both versions", 1)
		}
		// what is left is one complete version
		rem.fault, rem.faultAt, rem.requests = "down", 0, nil
		o, err := gen.Generate(emptySchema(), t.target, &gen.Config{})
		at := fmt.Sprintf("%s: after round %d (remote fails %t)", t.target, round, down)
		if err != nil {
			if live || !down {
				c.Failf("concurrent", "%s: the cache isn't usable: %v", at, err)
				return
			}
			continue
		}
		want := old
		if o.Code == fresh.output {
			want = fresh
		} else if stored || !live || o.Code != old.output {
			c.Failf("concurrent", "%s: the cache is of the wrong version: %s", at, vh.Diff(fresh.output, o.Code))
			return
		}
		if got := templatesIn(o.TmplDir); !maps.Equal(got, want.files) {
			c.Failf("concurrent", "%s: the cache holds %q instead of %q", at, slices.Sorted(maps.Keys(got)), slices.Sorted(maps.Keys(want.files)))
			return
		}
		old, live = want, true
		c.Count("concurrent rounds", 1)
		var log []string
		for _, list := range results {
			for _, r := range list {
				log = append(log, fmt.Sprint(r.refresh, r.out != nil && r.out.Code == fresh.output))
			}
		}
		c.Distinct(strings.Join(log, " ") + at)
	}
}

// c19watch waits for the process to touch the cache.
func c19watch(rnd *rand.Rand, dir string, how int, ended chan struct{}) {
	count := func() int {
		n := 0
		_ = filepath.WalkDir(filepath.Join(dir, "webrpc-cache"), func(string, os.DirEntry, error) error { n++; return nil })
		return n
	}
	before := count()
	writing := false
	last := before
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end); {
		select {
		case <-ended:
			return
		default:
		}
		n := count()
		if n != before {
			if how == 1 { // as soon as something happens
				break
			}
			if n > last { // files are being written
				writing = true
			}
		}
		if writing && (n > before+rnd.IntN(400) || n < last) {
			break
		}
		last = n
	}
	if how == 1 && model.Chance(rnd, 50) {
		time.Sleep(time.Duration(rnd.IntN(2000)) * time.Microsecond)
	}
}

// c19cli looks at the real binary, with a proxy in front of the remote that is down.
func c19cli(c *vh.Case) {
	rnd := c.R
	if cli.Path() == "" {
		return
	}
	dir, done := cli.Dir()
	defer done()
	restore := scratchTmp(dir)
	defer restore()
	rem := &remote{repos: map[string]map[string]map[string]string{}}
	http.DefaultTransport = rem
	defer func() { http.DefaultTransport = offline{} }()
	t := c19targets[rnd.IntN(len(c19targets))]
	files, output := c19version(rnd, t, 1, 3)
	rem.publish(t, published{files: files, output: output}, rnd)
	o, err := gen.Generate(emptySchema(), t.target, &gen.Config{})
	if err != nil {
		c.Failf("fetched", "%v", err)
		return
	}
	age := model.Pick(rnd, []time.Duration{time.Minute, 50 * time.Minute, 2 * time.Hour})
	setAge(o.TmplDir, age)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	var mu sync.Mutex
	connections := 0
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			mu.Lock()
			connections++
			mu.Unlock()
			conn.Close()
		}
	}()
	defer l.Close()
	cli.Write(dir, map[string]string{"a.ridl": "webrpc = v1\n"})
	refresh := model.Chance(rnd, 40)
	// the stand-in for Go is text, which isn't formatted
	args := []string{"-schema=a.ridl", "-target=" + t.target, "-out=o.txt", "-fmt=false"}
	if refresh {
		args = append(args, "-refreshCache")
	}
	res := cli.Run(dir, []string{"HTTPS_PROXY=http://" + l.Addr().String()}, args...)
	b, _ := os.ReadFile(filepath.Join(dir, "o.txt"))
	mu.Lock()
	n := connections
	mu.Unlock()
	c.Attach("run", fmt.Sprintf("%q age %v: exit %d, %d connections\n%s%s", args, age, res.Code, n, res.Out, res.Err))
	if res.Code != 0 || string(b) != output {
		c.Failf("command line", "the cache isn't used: %s", vh.Diff(output, string(b)))
		return
	}
	need := refresh || age > time.Hour
	if need != (n > 0) {
		c.Failf("command line", "cache %v old, refresh %t: %d connections", age, refresh, n)
	}
	if need != strings.Contains(res.Out, "failed to refresh") {
		c.Failf("command line", "cache %v old, refresh %t: the summary says %s", age, refresh, res.Out)
	}
	// without a cache there is nothing to generate from
	_ = os.RemoveAll(filepath.Join(dir, "webrpc-cache"))
	res = cli.Run(dir, []string{"HTTPS_PROXY=http://" + l.Addr().String()}, args...)
	after, _ := os.ReadFile(filepath.Join(dir, "o.txt"))
	if res.Code == 0 || res.Err == "" || string(after) != output {
		c.Failf("command line", "without cache and remote, the command exits with %d: %s", res.Code, res.Err)
	}
	c.Distinct(strings.Join(args, " ") + age.String())
	c.Count("command line", 2)
}
