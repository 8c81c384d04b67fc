package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path"
	"path/filepath"
	"slices"
	"sort"
	"strings"

	"github.com/webrpc/webrpc"
	"github.com/webrpc/webrpc/schema"

	"verif/harness/internal/model"
	"verif/harness/internal/sut"
	"verif/harness/internal/vh"
)

var c10 = &vh.Prop{
	ID: "C10", Quick: 6000, Thorough: 200000,
	Rule: "random acyclic graphs of up to 7 RIDL files in directories (of up to 60 in chains, now and then), with member lists, diamonds, repeated imports and many spellings of paths, read from memory and from disk; and the same with a cycle, a missing file, an undeclared member, a clash or an invalid file; distinct by content of all files",
	Require: map[string]int{
		"valid trees": 1000, "files": 5000, "imports": 5000, "member lists": 500, "diamonds": 300, "trees on disk": 100, "cycles": 200, "missing files": 100, "undeclared members": 100, "clashes": 200, "invalid files": 100, "incomplete member lists": 50, "trees of 20 files and more": 10,
	},
	Run: func(c *vh.Case) {
		t := newTree(c.R)
		if c.Index%2 == 0 {
			c10valid(c, t)
			return
		}
		c10broken(c, t)
	},
}

type file struct {
	path    string
	own     *model.Schema
	merged  *model.Schema
	imports []*file
	members [][]string
	reach   map[*file]bool
}

type tree struct {
	files []*file // the last is the main file
}

func (t *tree) main() *file { return t.files[len(t.files)-1] }

// has returns true if something in s is called name.
func names(s *model.Schema) []string {
	var out []string
	for _, t := range s.Types {
		out = append(out, t.Name)
	}
	for _, e := range s.Errors {
		out = append(out, e.Name)
	}
	for _, svc := range s.Services {
		out = append(out, svc.Name)
	}
	return out
}

// closure adds to a set of names of s what their definitions need.
func closure(s *model.Schema, set map[string]bool) {
	for again := true; again; {
		again = false
		need := func(n string) {
			if !set[n] {
				set[n], again = true, true
			}
		}
		for _, t := range s.Types {
			if set[t.Name] {
				t.Type.Refs(need)
				for _, f := range t.Fields {
					f.Type.Refs(need)
				}
			}
		}
		for _, svc := range s.Services {
			if set[svc.Name] {
				for _, m := range svc.Methods {
					for _, a := range append(append([]*model.Arg{}, m.In...), m.Out...) {
						a.Type.Refs(need)
					}
					for _, e := range m.Errors {
						need(e)
					}
				}
			}
		}
	}
}

// merge computes what a file means.
func (f *file) merge() *model.Schema {
	m := &model.Schema{Name: f.own.Name, Version: f.own.Version, BasePath: f.own.BasePath}
	types, errs, svcs := map[*model.Type]bool{}, map[*model.Error]bool{}, map[*model.Service]bool{}
	for i, im := range f.imports {
		ok := func(n string) bool { return len(f.members[i]) == 0 || contains(f.members[i], n) }
		for _, t := range im.merged.Types {
			if ok(t.Name) && !types[t] {
				types[t] = true
				m.Types = append(m.Types, t)
			}
		}
		for _, e := range im.merged.Errors {
			if ok(e.Name) && !errs[e] {
				errs[e] = true
				m.Errors = append(m.Errors, e)
			}
		}
		for _, svc := range im.merged.Services {
			if ok(svc.Name) && !svcs[svc] {
				svcs[svc] = true
				m.Services = append(m.Services, svc)
			}
		}
	}
	m.Types = append(m.Types, f.own.Types...)
	m.Errors = append(m.Errors, f.own.Errors...)
	m.Services = append(m.Services, f.own.Services...)
	return m
}

func newTree(r *rand.Rand) *tree {
	t := &tree{}
	n, many := 2+r.IntN(6), 45
	if model.Chance(r, 1) { // long chains of imports
		n, many = 20+r.IntN(40), 3
		if model.Chance(r, 40) { // nearly every file imports nearly every other
			many = 44
		}
	}
	same := model.Chance(r, 35)
	dirs := []string{"", "", "a/", "a/b/", "c/", "a.b/", "with space/", "é/"}
	for i := range n {
		f := &file{reach: map[*file]bool{}}
		f.path = fmt.Sprintf("%s%s%d.ridl", model.Pick(r, dirs), model.Pick(r, []string{"f", "types", "my-file", "x.y", "a b", " c", "$x", "d#", "e\"", "é"}), i)
		if same { // files of the same name in different directories, or of names which differ in case only
			for f.path = ""; f.path == "" || slices.ContainsFunc(t.files, func(g *file) bool { return g.path == f.path }); {
				f.path = ""
				for model.Chance(r, 65) {
					f.path += model.Pick(r, []string{"a/", "A/", "b/", "a.ridl/"})
				}
				f.path += model.Pick(r, []string{"a", "a", "a", "a", "A", "b"}) + ".ridl"
				for _, g := range t.files { // what is a file is no directory
					if strings.HasPrefix(f.path, g.path+"/") || strings.HasPrefix(g.path, f.path+"/") {
						f.path = ""
						break
					}
				}
			}
		}
		for _, g := range t.files {
			chained := many < 45 && g == t.files[len(t.files)-1] && model.Chance(r, 98)
			if !model.Chance(r, many) && !chained && !(i == n-1 && len(f.imports) == 0 && g == t.files[len(t.files)-1]) {
				continue
			}
			f.imports = append(f.imports, g)
			f.reach[g] = true
			for h := range g.reach {
				f.reach[h] = true
			}
		}
		r.Shuffle(len(f.imports), func(i, j int) { f.imports[i], f.imports[j] = f.imports[j], f.imports[i] })
		if len(f.imports) > 0 && model.Chance(r, 15) {
			f.imports = append(f.imports, f.imports[r.IntN(len(f.imports))])
		}
		for _, g := range f.imports {
			all := names(g.merged)
			var members []string
			if len(all) > 0 && model.Chance(r, 35) {
				set := map[string]bool{}
				for range 1 + r.IntN(3) {
					set[model.Pick(r, all)] = true
				}
				closure(g.merged, set)
				for n := range set {
					members = append(members, n)
				}
				sort.Strings(members)
				r.Shuffle(len(members), func(i, j int) { members[i], members[j] = members[j], members[i] })
			}
			f.members = append(f.members, members)
		}
		f.own = &model.Schema{}
		base := f.merge()
		opts := model.Options{
			Types: 4, Errors: 3, Services: 2, Prefix: fmt.Sprintf("F%d", i), CodeBase: i * 10000000,
			Foreign: base.Types, ForeignErrors: base.Errors,
		}
		if model.Chance(r, 1) && model.Chance(r, 10) {
			opts.Types, opts.Errors, opts.Services = 300, 100, 30
		}
		f.own = model.New(r, opts)
		f.own.Version = "v1"
		f.namesake(r, 1999000000+i)
		f.merged = f.merge()
		t.files = append(t.files, f)
	}
	return t
}

// namesake adds now and then an error or a service which has the name of a type
// or of one of another kind, up to case. Names are unique only within a kind.
func (f *file) namesake(r *rand.Rand, code int) {
	all := names(f.own)
	if len(all) == 0 || !model.Chance(r, 30) {
		return
	}
	m := f.merge()
	var taken []string
	n := upperFirst(caseOf(r, model.Pick(r, all)))
	if model.Chance(r, 50) {
		for _, e := range m.Errors {
			taken = append(taken, e.Name)
		}
		if !containsFold(taken, n) {
			f.own.Errors = append(f.own.Errors, &model.Error{Code: code, Name: n, Message: "namesake", Status: 400})
		}
		return
	}
	for _, svc := range m.Services {
		taken = append(taken, svc.Name)
	}
	if !containsFold(taken, n) {
		f.own.Services = append(f.own.Services, &model.Service{Name: n, Methods: []*model.Method{{Name: "Ping"}}})
	}
}

func containsFold(list []string, n string) bool {
	for _, x := range list {
		if strings.EqualFold(x, n) || strings.ToLower(x) == strings.ToLower(n) {
			return true
		}
	}
	return false
}

// spell writes the path of g as seen from f.
func spell(r *rand.Rand, f, g string) string {
	rel, err := filepath.Rel(path.Dir(f), g)
	if err != nil {
		panic(err)
	}
	switch r.IntN(6) {
	case 0:
		rel = "./" + rel
	case 1:
		rel = "nowhere/../" + rel
	case 2:
		rel = strings.ReplaceAll(rel, "/", "//")
	case 3:
		rel = strings.ReplaceAll(rel, "/", "/./")
	}
	return rel
}

func (t *tree) render(r *rand.Rand) map[string]string {
	files := map[string]string{}
	for _, f := range t.files {
		var imports []model.Import
		for i, g := range f.imports {
			imports = append(imports, model.Import{Path: spell(r, f.path, g.path), Members: f.members[i]})
		}
		files[f.path] = model.Render(f.own, imports, model.RandomStyle(r))
	}
	return files
}

func attachAll(c *vh.Case, files map[string]string) {
	var all []string
	for n, text := range files {
		c.Attach(n, text)
		all = append(all, n+"\n"+text)
	}
	sort.Strings(all)
	c.Distinct(strings.Join(all, "\x00"))
}

// onDisk reads the tree from a directory.
func onDisk(c *vh.Case, files map[string]string, main string, f func(s *schema.WebRPCSchema, err error)) {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "tree")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	for n, text := range files {
		p := filepath.Join(dir, "root", n)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			panic(err)
		}
	}
	c.Count("trees on disk", 1)
	f(webrpc.ParseSchemaFile(filepath.Join(dir, "root", main)))
	// relative to the working directory
	wd, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	defer os.Chdir(wd)
	if err := os.Chdir(filepath.Dir(filepath.Join(dir, "root", main))); err != nil {
		panic(err)
	}
	f(webrpc.ParseSchemaFile(filepath.Base(main)))
	f(webrpc.ParseSchemaFile("../" + filepath.Base(filepath.Dir(filepath.Join(dir, "root", main))) + "/" + filepath.Base(main)))
}

func c10valid(c *vh.Case, t *tree) {
	main := t.main()
	files := t.render(c.R)
	attachAll(c, files)
	c.Attach("main", main.path)
	c.Count("valid trees", 1)
	c.Count("files", len(main.reach)+1)
	for f := range main.reach {
		count(c, f)
	}
	count(c, main)

	want := main.merged
	check := func(how string) func(s *schema.WebRPCSchema, err error) {
		return func(s *schema.WebRPCSchema, err error) {
			if err != nil {
				c.Failf("rejected", "%s: valid tree is rejected: %v", how, err)
				return
			}
			if w, j := want.JSON(), sut.JSON(s); w != j {
				c.Failf("merge", "%s: the schema is not the merge of its files: %s", how, vh.Diff(w, j))
				return
			}
			if _, err := sut.CheckResolved(s, want); err != nil {
				c.Failf("resolved", "%s: %v", how, err)
			}
		}
	}
	check("in memory")(sut.Parse(files, main.path))
	// each file alone
	if len(t.files) > 15 {
		c.Count("trees of 20 files and more", 1)
	}
	for _, f := range t.files[:min(len(t.files)-1, 10)] {
		want = f.merged
		check("in memory, " + f.path)(sut.Parse(files, f.path))
	}
	want = main.merged
	if c.Index%10 == 0 {
		onDisk(c, files, main.path, check("on disk"))
	}
	if len(main.path)+len(files[main.path]) < 800 {
		c.Sample(map[string]any{"case": c.Index, "files": len(files), "main": files[main.path]})
	}
}

func count(c *vh.Case, f *file) {
	c.Count("imports", len(f.imports))
	for i := range f.imports {
		if len(f.members[i]) > 0 {
			c.Count("member lists", 1)
		}
		for j := range i {
			if f.imports[i] == f.imports[j] || f.imports[i].reach[f.imports[j]] || f.imports[j].reach[f.imports[i]] {
				c.Count("diamonds", 1)
			}
		}
	}
}

// reachable picks a file that main depends on, or main.
func (t *tree) reachable(r *rand.Rand) *file {
	var list []*file
	for _, f := range t.files {
		if t.main().reach[f] || f == t.main() {
			list = append(list, f)
		}
	}
	return model.Pick(r, list)
}

func c10broken(c *vh.Case, t *tree) {
	r := c.R
	main := t.main()
	what := ""
	files := t.render(r)
	prepend := func(f *file, text string) {
		if model.Chance(r, 50) {
			files[f.path] = text + "\n" + files[f.path]
		} else {
			files[f.path] += "\n\n" + text + "\n"
		}
	}
	quoted := func(p string) string { return model.Quote(p) }
	switch k := r.IntN(13); k {
	case 0, 1, 2: // a cycle
		g := t.reachable(r)
		var users []*file
		for _, f := range t.files {
			if f == g || f.reach[g] && (f == main || main.reach[f]) {
				users = append(users, f)
			}
		}
		f := model.Pick(r, users)
		prepend(g, "import "+quoted(spell(r, g.path, f.path))+"\n")
		what = fmt.Sprintf("a cycle: %s imports %s", g.path, f.path)
		c.Count("cycles", 1)
	case 3: // missing
		f := t.reachable(r)
		p := model.Pick(r, []string{"missing.ridl", "no/such/file.ridl", "../../../../../../missing.ridl", "..", ".", "/missing.ridl", "f0", "a/missing.ridl", "missing"})
		prepend(f, "import "+quoted(p)+"\n")
		what = "a missing import " + p
		c.Count("missing files", 1)
	case 4: // undeclared member
		var users []*file
		for _, f := range t.files {
			if len(f.imports) > 0 && (f == main || main.reach[f]) {
				users = append(users, f)
			}
		}
		f := model.Pick(r, users)
		g := model.Pick(r, f.imports)
		bad := []string{"NoSuchThing", "string", "F9User"}
		if all := names(g.merged); len(all) > 0 {
			n := model.Pick(r, all)
			bad = append(bad, strings.ToUpper(n)+"_", n[:len(n)-1], strings.ToLower(n), n+"s", n+"2", caseOf(r, n), caseOf(r, n), " "+n, n+".")
			for _, ty := range g.merged.Types {
				for _, fl := range ty.Fields {
					bad = append(bad, fl.Name)
				}
			}
			for _, svc := range g.merged.Services {
				bad = append(bad, svc.Methods[0].Name)
			}
		}
		m := model.Pick(r, bad)
		if contains(names(g.merged), m) {
			return
		}
		prepend(f, "import "+quoted(spell(r, f.path, g.path))+"\n  - "+quoted(m)+"\n")
		what = fmt.Sprintf("an undeclared member %s of %s", m, g.path)
		c.Count("undeclared members", 1)
	case 5, 6, 7: // a clash
		// of two files which main sees as a whole
		var all []*file
		for _, f := range t.files {
			if f != main {
				all = append(all, f)
			}
		}
		f := model.Pick(r, all)
		extra := &model.Schema{Version: "v1"}
		switch r.IntN(3) {
		case 0:
			if len(f.merged.Types) == 0 {
				return
			}
			n := model.Pick(r, f.merged.Types).Name
			x := &model.Type{Kind: "struct", Name: upperFirst(caseOf(r, n)), Fields: []*model.Field{{Name: "a", Type: raw("int")}}}
			switch r.IntN(4) {
			case 2: // the very same, if it stands alone
				for _, t := range f.merged.Types {
					set := map[string]bool{n: true}
					if closure(f.merged, set); t.Name == n && len(set) == 1 {
						copied := *t
						x = &copied
					}
				}
			case 0:
				x = &model.Type{Kind: "alias", Name: x.Name, Type: raw("string")}
			case 1:
				x = &model.Type{Kind: "enum", Name: x.Name, Type: raw("uint8"), Fields: []*model.Field{{Name: "A", Value: "0"}}}
			}
			extra.Types = []*model.Type{x}
			what = "two types named " + n
		case 1:
			if len(f.merged.Errors) == 0 {
				return
			}
			e := model.Pick(r, f.merged.Errors)
			x := &model.Error{Code: e.Code, Name: "OtherError", Message: "m", Status: 400}
			switch r.IntN(4) {
			case 0: // the very same
				copied := *e
				x = &copied
			case 1, 2:
				x = &model.Error{Code: 2000000000, Name: upperFirst(caseOf(r, e.Name)), Message: "m", Status: 400}
			}
			extra.Errors = []*model.Error{x}
			what = fmt.Sprintf("errors %v and %v", *e, *x)
		default:
			if len(f.merged.Services) == 0 {
				return
			}
			n := model.Pick(r, f.merged.Services).Name
			extra.Services = []*model.Service{{Name: caseOf(r, n), Methods: []*model.Method{{Name: "Ping"}}}}
			what = "two services named " + n
		}
		// a new main file sees both
		top := &model.Schema{Name: "top", Version: "v1"}
		imports := []model.Import{{Path: f.path}, {Path: "extra.ridl"}}
		switch {
		case model.Chance(r, 30): // or declares one itself
			top.Types, top.Errors, top.Services = extra.Types, extra.Errors, extra.Services
			imports = imports[:1]
		case model.Chance(r, 50):
			imports[0], imports[1] = imports[1], imports[0]
		}
		if model.Chance(r, 30) { // with a list of members
			for k, im := range imports {
				all := names(f.merged)
				if im.Path == "extra.ridl" {
					all = names(extra)
				}
				imports[k].Members = slices.Compact(slices.Sorted(slices.Values(all)))
			}
		}
		files["extra.ridl"] = model.Render(extra, nil, model.RandomStyle(r))
		files["top.ridl"] = model.Render(top, imports, model.RandomStyle(r))
		main = &file{path: "top.ridl"}
		c.Count("clashes", 1)
	case 8, 9: // an imported file is invalid
		var list []*file
		for _, f := range t.files {
			if main.reach[f] {
				list = append(list, f)
			}
		}
		f := model.Pick(r, list)
		x := model.Pick(r, []string{"struct Bad\n  - a: NoSuchType", "struct Bad\n  - a", "$", "struct bad\n  - a: int", "type Bad: Bad", "error 0 Bad \"m\"", "error 1999999999 Bad \"\"", "enum Bad: bool\n  - A", "service Bad", "webrpc = v2", "webrpc = v1", "service Bad9\n  - M() errors NoSuchError", "struct Bad\n  - a: int\n  - A: int"})
		files[f.path] += "\n\n" + x + "\n"
		what = fmt.Sprintf("an invalid %s: %q", f.path, x)
		c.Count("invalid files", 1)
	case 10: // no webrpc version in an imported file
		var list []*file
		for _, f := range t.files {
			if main.reach[f] {
				list = append(list, f)
			}
		}
		f := model.Pick(r, list)
		st := model.PlainStyle()
		st.SkipHead = true
		var imports []model.Import
		for i, g := range f.imports {
			imports = append(imports, model.Import{Path: spell(r, f.path, g.path), Members: f.members[i]})
		}
		files[f.path] = model.Render(f.own, imports, st)
		what = "no webrpc version in " + f.path
		c.Count("invalid files", 1)
	case 11: // services without a version, whatever versions imported files have
		var list []*file
		for _, f := range append([]*file{main, main}, t.files...) {
			if (f == main || main.reach[f]) && len(f.merged.Services) > 0 {
				list = append(list, f)
			}
		}
		if len(list) == 0 {
			return
		}
		f := model.Pick(r, list)
		var imports []model.Import
		for i, g := range f.imports {
			imports = append(imports, model.Import{Path: spell(r, f.path, g.path), Members: f.members[i]})
		}
		own := *f.own
		own.Version = ""
		files[f.path] = model.Render(&own, imports, model.RandomStyle(r))
		what = "services, but no version in " + f.path
		c.Count("files without versions", 1)
	default: // a member without what it needs
		for _, g := range t.files {
			for _, ty := range g.merged.Types {
				set := map[string]bool{ty.Name: true}
				closure(g.merged, set)
				if len(set) < 2 {
					continue
				}
				top := &model.Schema{Name: "top"}
				files["top.ridl"] = model.Render(top, []model.Import{{Path: g.path, Members: []string{ty.Name}}}, model.RandomStyle(r))
				// unless a member of another kind has the name of what it needs
				main = &file{path: "top.ridl"}
				what = "an import of " + ty.Name + " alone"
			}
		}
		if what == "" {
			return
		}
		c.Count("incomplete member lists", 1)
	}
	attachAll(c, files)
	c.Attach("main", main.path)
	check := func(s *schema.WebRPCSchema, err error) {
		if err == nil {
			c.Failf("accepted", "a tree with %s is accepted", what)
		} else if s != nil {
			c.Failf("both", "both a schema and an error: %v", err)
		}
	}
	check(sut.Parse(files, main.path))
	if c.Index%20 == 1 {
		onDisk(c, files, main.path, check)
	}
	if c.Index < 30 {
		c.Sample(map[string]any{"case": c.Index, "broken": what})
	}
}
