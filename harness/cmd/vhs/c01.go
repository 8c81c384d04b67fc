package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/webrpc/webrpc/schema"

	"verif/harness/internal/model"
	"verif/harness/internal/sut"
	"verif/harness/internal/vh"
)

var c01 = &vh.Prop{
	ID: "C01", Quick: 30000, Thorough: 1500000,
	Rule: "valid documents (random ones and those of the repository) with mutated bytes, tokens and lines, truncated at any place, token soups, binary data, nesting of up to 64 KiB, things repeated or nested hundreds of thousands of times (with a stack of 64 MB), and graphs of such files which import each other; distinct by content",
	Require: map[string]int{
		"accepted": 1000, "rejected": 10000, "token soup": 500, "truncated": 500, "mutated": 500, "file graphs": 500, "deeply nested": 20, "bytes": 500, "circular": 50, "dense graphs": 10, "vast": 5,
	},
	Run: func(c *vh.Case) {
		files := c01files(c)
		var names []string
		for n := range files {
			names = append(names, n)
		}
		sort.Strings(names)
		var all strings.Builder
		for _, n := range names {
			c.Attach(n, files[n])
			all.WriteString(n + "\x00" + files[n] + "\x00")
		}
		c.Distinct(all.String())
		before := runtime.NumGoroutine()
		s, err := sut.Parse(files, "main.ridl")
		debug.SetMaxStack(256 << 20)
		c01after(c, before)
		c01result(c, s, err)
	},
}

// c01after waits for the goroutines which were started to end.
func c01after(c *vh.Case, before int) {
	n := 0
	for i := range 200 {
		if n = runtime.NumGoroutine(); n <= before {
			return
		}
		if i < 100 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Millisecond * time.Duration(i-99))
		}
	}
	buf := make([]byte, 1<<16)
	buf = buf[:runtime.Stack(buf, true)]
	c.Failf("goroutines", "%d goroutines are left behind:\n%s", n-before, buf)
}

func c01result(c *vh.Case, s *schema.WebRPCSchema, err error) {
	switch {
	case s == nil && err == nil:
		c.Failf("neither", "neither a schema nor an error")
	case s != nil && err != nil:
		c.Failf("both", "both a schema and an error: %v", err)
	case err != nil:
		c.Count("rejected", 1)
		if strings.TrimSpace(err.Error()) == "" {
			c.Failf("silent", "the error says nothing")
		}
	default:
		c.Count("accepted", 1)
		if err := sut.Valid(s); err != nil {
			c.Failf("invalid", "an invalid schema is accepted: %v", err)
		}
	}
}

func c01files(c *vh.Case) map[string]string {
	r := c.R
	if model.Chance(r, 1) && model.Chance(r, 20) { // many paths lead to each file
		c.Count("dense graphs", 1)
		return ladder(r, 20+r.IntN(20))
	}
	files := map[string]string{"main.ridl": c01document(c)}
	if !model.Chance(r, 25) {
		return files
	}
	// a graph of files
	c.Count("file graphs", 1)
	names := []string{"main.ridl"}
	for i := range 1 + r.IntN(4) {
		name := fmt.Sprintf("%sf%d.ridl", model.Pick(r, []string{"", "", "dir/", "dir/sub/", "../"}), i)
		names = append(names, name)
		if strings.HasPrefix(name, "../") {
			continue
		}
		files[name] = c01document(c)
	}
	for _, name := range names {
		text, ok := files[name]
		if !ok {
			continue
		}
		for range r.IntN(4) {
			path := model.Pick(r, names)
			switch r.IntN(8) {
			case 0:
				path = "./" + path
			case 1:
				path = "../" + path
			case 2:
				path = model.Pick(r, []string{"/", ".", "..", "/etc/passwd", "missing.ridl", "dir", "dir/", "\"\"", "\"a b\"", "-", "//", "dir//f1.ridl", "\\", "../../../../x.ridl", "main", "\"main.ridl", "é.ridl"})
			}
			imp := "import " + path + "\n"
			if model.Chance(r, 50) {
				imp = "import\n  - " + path + "\n"
			}
			if model.Chance(r, 30) {
				imp += "  - " + model.Pick(r, []string{"User", "Nope", "", "A", "error", "\"x"}) + "\n"
			}
			if model.Chance(r, 70) {
				text = imp + text
			} else {
				text += "\n" + imp
			}
		}
		files[name] = text
	}
	return files
}

// ladder makes files of which each imports most of those after it, so that the
// number of paths through them is beyond counting.
func ladder(r *rand.Rand, n int) map[string]string {
	files := map[string]string{}
	for i := range n {
		name := fmt.Sprintf("f%d.ridl", i)
		if i == 0 {
			name = "main.ridl"
		}
		var b strings.Builder
		b.WriteString("webrpc = v1\n")
		for j := i + 1; j < n; j++ {
			if j <= i+2 || model.Chance(r, 50) {
				fmt.Fprintf(&b, "import f%d.ridl\n", j)
			}
		}
		fmt.Fprintf(&b, "type T%d: %s\n", i, model.Pick(r, []string{"int", fmt.Sprintf("[]T%d", min(i+1, n-1))}))
		files[name] = b.String()
	}
	if model.Chance(r, 30) { // at last, a cycle
		files[fmt.Sprintf("f%d.ridl", n-1)] += fmt.Sprintf("import f%d.ridl\n", 1+r.IntN(n-1))
	}
	return files
}

var soup = []string{
	"webrpc", "name", "version", "basepath", "import", "type", "enum", "struct", "error", "service", "stream", "proxy", "errors", "map", "HTTP", "message",
	"=", "=>", ":", ",", "|", "-", "+", "@", "#", "!", "?", ".", "/", "\\", "\"", "(", ")", "<", ">", "[", "]", "[]", "{", "}", "¿", "¡", "'", "&", "%", "*", ";", "$",
	" ", " ", " ", "  ", "\t", "\n", "\n", "\n", "\r\n", "\r", "\x00", "\ufeff", "é", "日本", "\xff", "\xc3",
	"v1", "User", "id", "int", "string", "uint64", "map<string,", "Kind", "100", "0", "-1", "99999999999999999999", "404", "\"text\"", "\"\\\"\"", "\\n", "#!", "# comment", "  - ", "    + ", "\n  - ", " = ", ": ", "() => ()", "(a: int)", "@a:", "@a:\"",
}

func c01document(c *vh.Case) string {
	r := c.R
	base := func() string {
		if model.Chance(r, 30) {
			docs := repositoryDocuments()
			var names []string
			for n := range docs {
				names = append(names, n)
			}
			sort.Strings(names)
			if len(names) > 0 {
				return docs[model.Pick(r, names)]
			}
		}
		s := model.New(r, model.Options{Types: 5, Errors: 3, Services: 2})
		st := model.RandomStyle(r)
		st.Comments = model.Chance(r, 50)
		return model.Render(s, nil, st)
	}
	switch p := r.IntN(1000); {
	case p < 50:
		return base()
	case p < 200:
		c.Count("truncated", 1)
		text := base()
		i := r.IntN(len(text) + 1)
		if model.Chance(r, 30) {
			return text[i:]
		}
		return text[:i]
	case p < 650:
		c.Count("mutated", 1)
		return mutate(r, base())
	case p < 850:
		c.Count("token soup", 1)
		var b strings.Builder
		if model.Chance(r, 70) {
			b.WriteString("webrpc = v1\n")
		}
		if model.Chance(r, 60) {
			b.WriteString(model.Pick(r, []string{"struct S\n  - a", "enum E: int\n  - A", "service S\n  - M(", "service S\n  @a", "error 1 ", "type T: ", "import\n  - ", "name = ", "struct S\n  - a: int\n    + x", "service S\n  - M() =>", "service S\n  - M() errors "}))
		}
		for range r.IntN(40) {
			b.WriteString(model.Pick(r, soup))
			if model.Chance(r, 30) {
				b.WriteString(" ")
			}
		}
		return b.String()
	case p < 985:
		c.Count("bytes", 1)
		b := make([]byte, r.IntN(200))
		for i := range b {
			switch r.IntN(3) {
			case 0:
				b[i] = byte(r.IntN(256))
			case 1:
				b[i] = byte(32 + r.IntN(95))
			default:
				b[i] = "\n\t -+@#\"\\:=<>()[]"[r.IntN(17)]
			}
		}
		return string(b)
	case p < 990:
		c.Count("circular", 1)
		// types which refer to each other, and to themselves, in any way
		var b strings.Builder
		b.WriteString("webrpc = v1\nversion = v1\nname = x\n")
		n := 1 + r.IntN(7)
		ref := func() string {
			x := fmt.Sprintf("R%d", r.IntN(n))
			switch r.IntN(9) {
			case 0:
				return "[]" + x
			case 1:
				return "map<string," + x + ">"
			case 2:
				return "map<" + x + ",int>"
			case 3:
				return fmt.Sprintf("map<%s,[]R%d>", x, r.IntN(n))
			}
			return x
		}
		for i := range n {
			switch r.IntN(6) {
			case 0:
				fmt.Fprintf(&b, "struct R%d\n  - a: %s\n  - b: %s\n", i, ref(), ref())
			case 1:
				fmt.Fprintf(&b, "enum R%d: %s\n  - A\n", i, model.Pick(r, []string{"int", "string", ref()}))
			default:
				fmt.Fprintf(&b, "type R%d: %s\n", i, ref())
			}
		}
		fmt.Fprintf(&b, "service S\n  - M(a: %s) => (b: %s)\n", ref(), ref())
		return b.String()
	case p < 995:
		c.Count("long", 1)
		// one thing, many times
		head := "webrpc = v1\nversion = v1\nname = x\n"
		n := 1 + r.IntN(2000)
		var b strings.Builder
		for i := range n {
			fmt.Fprintf(&b, model.Pick(r, []string{"struct S%d\n  - a: int\n", "error %d E%[1]d \"m\" HTTP 400\n", "# comment %d\n", "type T%d: string\n", "enum E%d: int\n - A\n"}), i+1)
			if b.Len() > 50000 {
				break
			}
		}
		return head + b.String()
	default:
		if model.Chance(r, 10) {
			return immense(c)
		}
		c.Count("deeply nested", 1)
		n := 1 << (5 + r.IntN(10))
		if n > 16000 {
			n = 16000
		}
		if model.Chance(r, 30) { // well-formed
			n = min(n, 4000)
			open, shut := "", ""
			for range n {
				x := model.Pick(r, []string{"[]", "map<string,", "map<uint8,"})
				if open += x; x != "[]" {
					shut += ">"
				}
			}
			x := open + model.Pick(r, []string{"int", "string", "bigint", "T"}) + shut
			return "webrpc = v1\nversion = v1\nname = x\n" + fmt.Sprintf(model.Pick(r, []string{"type T: %s\n", "type T: int\nstruct S\n  - a: %s\n", "struct T\nservice S\n  - M(a: %s) => (b: []T)\n", "struct T\n  - b: %s\n"}), x)
		}
		x := model.Pick(r, []string{"[]", "map<string,", "map<", "[", "(", "\"", "\\", "<", "#", "@a ", "@a\n", "-", "=> ", "+ ", ".a", "?", "|", "\\\"", "\n", "[]map<string,"})
		text := strings.Repeat(x, n)
		if len(text) > 60000 {
			text = text[:60000]
		}
		end := model.Pick(r, []string{"int", "", "int" + strings.Repeat(">", n), "S"})
		if len(text)+len(end) > 64<<10 {
			end = "int"
		}
		return "webrpc = v1\nversion = v1\nname = x\n" + model.Pick(r, []string{"type T: ", "struct S\n  - a: ", "service S\n  - M(a: ", "service S\n", "error 1 E ", "", "name = ", "struct S\n  - a: int\n    + a"}) + text + end + model.Pick(r, []string{"", "\n", ")\n"})
	}
}

// immense returns a document in which something stands hundreds of thousands of times,
// and lowers the limit of the stack: a parser which goes one level deeper each time
// shows here, far from the size at which it ends the process.
func immense(c *vh.Case) string {
	c.Count("vast", 1)
	debug.SetMaxStack(64 << 20)
	r := c.R
	n := 300000 + r.IntN(300000)
	head := "webrpc = v1\nversion = v1\nname = x\n"
	if model.Chance(r, 50) { // nested
		x := model.Pick(r, []string{"[]", "map<", "map<int,", "[]map<string,", "map<[]", "[", "<", "(", "- ", "[][]"})
		return head + model.Pick(r, []string{"type T: ", "struct S\n  - a: ", "service S\n  - M(a: ", "service S\n  - M() => (a: ", "service S\n  - M(a: int, b?: "}) + strings.Repeat(x, n) + model.Pick(r, []string{"", "int", "int\n", "int>", "int)\n"})
	}
	// repeated
	x := model.Pick(r, []string{"\n", "\n", "#\n", "# x\n", "\r\n", " \n", "#!\n", "\n\t"})
	return head + model.Pick(r, []string{
		"import f1.ridl\n", "import f1.ridl\n  - User\n", "import\n", "import\n  - f1.ridl\n", "struct S\n", "struct S\n  - a: int\n", "struct S\n  - a: int\n    + x = y\n",
		"enum E: int\n", "enum E: int\n  - A\n", "type T: int\n", "type T: int\n  + x = y\n", "service S\n", "service S\n  - M()\n", "service S\n  @a\n", "error 1 A \"b\"\n", "",
	}) + strings.Repeat(x, n) + model.Pick(r, []string{"", "struct Z\n  - a: int\n", "  - B\n", "x"})
}

// mutate changes a few places of a text.
func mutate(r *rand.Rand, text string) string {
	for range 1 + r.IntN(4) {
		if text == "" {
			return text
		}
		i := r.IntN(len(text))
		switch r.IntN(8) {
		case 0:
			text = text[:i] + text[i+1:]
		case 1, 2:
			text = text[:i] + model.Pick(r, soup) + text[i:]
		case 3:
			j := i + r.IntN(min(20, len(text)-i)+1)
			text = text[:i] + text[j:]
		case 4: // repeat something
			j := i + r.IntN(min(60, len(text)-i)+1)
			text = text[:j] + text[i:j] + text[j:]
		case 5: // swap, drop or double lines
			lines := strings.Split(text, "\n")
			a, b := r.IntN(len(lines)), r.IntN(len(lines))
			switch r.IntN(3) {
			case 0:
				lines[a], lines[b] = lines[b], lines[a]
			case 1:
				lines = append(lines[:a:a], lines[a+1:]...)
			default:
				lines = append(append(append([]string{}, lines[:a]...), lines[b]), lines[a:]...)
			}
			text = strings.Join(lines, "\n")
		case 6:
			b := []byte(text)
			b[i] = byte(r.IntN(256))
			text = string(b)
		default: // words swapped
			words := strings.Fields(text)
			if len(words) > 1 {
				a, b := model.Pick(r, words), model.Pick(r, words)
				text = strings.Replace(text, a, b, 1+r.IntN(2))
			}
		}
	}
	return text
}

var c02 = &vh.Prop{
	ID: "C02", Quick: 30000, Thorough: 1000000,
	Rule: "JSON forms of random schemas and of the repository with values dropped, nulled, duplicated, retyped, swapped and emptied anywhere, with circular types, deep nesting (up to 600,000 levels, with a stack of 64 MB) and broken syntax; distinct by content",
	Require: map[string]int{
		"accepted": 1000, "rejected": 5000, "structural": 5000, "bytes": 500, "deeply nested": 20, "vast": 10,
	},
	Run: func(c *vh.Case) {
		text := c02document(c)
		c.Attach("main.json", text)
		c.Distinct(text)
		s, err := schema.ParseSchemaJSON([]byte(text))
		debug.SetMaxStack(256 << 20)
		if err != nil {
			c.Count("rejected", 1)
			if strings.TrimSpace(err.Error()) == "" {
				c.Failf("silent", "the error says nothing")
			}
			return
		}
		if s == nil {
			c.Failf("neither", "neither a schema nor an error")
			return
		}
		c.Count("accepted", 1)
		if err := sut.Valid(s); err != nil {
			c.Failf("invalid", "an invalid schema is accepted: %v", err)
			return
		}
		// it can be written, read again and analysed
		j, err := s.ToJSON()
		if err != nil {
			c.Failf("write", "cannot be written: %v", err)
			return
		}
		again, err := schema.ParseSchemaJSON([]byte(j))
		if err != nil {
			c.Failf("reread", "what was written is rejected: %v", err)
			return
		}
		if k := sut.JSON(again); j != k {
			c.Failf("stable", "%s", vh.Diff(j, k))
		}
		if _, err := s.SchemaHash(); err != nil {
			c.Failf("hash", "%v", err)
		}
		schema.SchemaUsesBigInts(s)
		schema.SchemaBigIntFieldsByType(s)
		schema.SchemaBigIntFieldsByType(s, true)
		for _, t := range s.Types {
			t.RequiredFields()
			s.GetTypeByName(t.Name)
		}
		var services []string
		for _, svc := range s.Services {
			s.GetServiceByName(svc.Name)
			if model.Chance(c.R, 50) {
				services = append(services, svc.Name)
			}
		}
		switch c.R.IntN(3) {
		case 0:
			schema.MatchMethodsWithAnnotations(s, map[string]string{"auth": "", "acl": "x"})
		case 1:
			schema.IgnoreMethodsWithAnnotations(s, map[string]string{"auth": "", "acl": "x"})
		}
		schema.MethodTreeShake(s, services)
		schema.MatchServices(s, services)
		if _, err := s.ToJSON(); err != nil {
			c.Failf("write", "cannot be written after analysis: %v", err)
		}
	},
}

func c02document(c *vh.Case) string {
	r := c.R
	s := model.New(r, model.Options{Types: 6, Errors: 3, Services: 2})
	switch p := r.IntN(1000); {
	case p < 50:
		return s.JSON()
	case p < 100:
		c.Count("bytes", 1)
		return mutate(r, s.JSON())
	case p < 150:
		c.Count("bytes", 1)
		text := s.JSON()
		return text[:r.IntN(len(text)+1)]
	case p < 160:
		return model.Pick(r, []string{"", "null", "{}", "[]", "0", "\"x\"", "true", "{\"webrpc\":\"v1\"}", "{\"webrpc\":\"v1\",\"types\":null,\"errors\":null,\"services\":null}", "{\"webrpc\":\"v1\",\"types\":{}}", " ", "\ufeff{}", "{\"webrpc\":\"v1\",\"types\":[null]}", "{} {}", "{\"webrpc\":\"v1\"}x"})
	case p < 170:
		if model.Chance(r, 10) {
			c.Count("vast", 1)
			debug.SetMaxStack(64 << 20)
			n := 300000 + r.IntN(300000)
			expr := strings.Repeat(model.Pick(r, []string{"[]", "map<int,", "[]map<string,", "map<uint8,[]"}), n) + model.Pick(r, []string{"int", "T", ""})
			if model.Chance(r, 50) {
				expr += strings.Repeat(">", strings.Count(expr, "map<"))
			}
			s.Types = append(s.Types, &model.Type{Kind: "alias", Name: "Vast_", Type: raw(expr)})
			return s.JSON()
		}
		c.Count("deeply nested", 1)
		n := 1 << (5 + r.IntN(10))
		x := model.Pick(r, []string{"[]", "map<string,", "map<int,[]"})
		expr := strings.Repeat(x, n)
		if len(expr) > 30000 {
			expr = expr[:30000/len(x)*len(x)]
		}
		k := strings.Count(expr, "map<")
		expr += "int" + strings.Repeat(">", k)
		if model.Chance(r, 20) {
			expr = expr[:len(expr)-1]
		}
		if model.Chance(r, 20) {
			m := 1 << (5 + r.IntN(10))
			return strings.Repeat(model.Pick(r, []string{"[", "{\"types\":", "{\"a\":"}), m)
		}
		s.Types = append(s.Types, &model.Type{Kind: "alias", Name: "Deep_", Type: raw(expr)})
		return s.JSON()
	case p < 250:
		// circles
		c.Count("circular", 1)
		n, free := 1+r.IntN(4), model.Chance(r, 50)
		for i := range n {
			t := &model.Type{Name: fmt.Sprintf("Ring%d", i), Kind: model.Pick(r, []string{"alias", "struct", "struct"})}
			vt := &model.VT{Ref: fmt.Sprintf("Ring%d", (i+1)%n)}
			if free {
				vt.Ref = fmt.Sprintf("Ring%d", r.IntN(n))
			}
			for range r.IntN(3) {
				switch {
				case model.Chance(r, 50):
					vt = &model.VT{Elem: vt}
				case model.Chance(r, 20):
					vt = &model.VT{Key: &model.VT{Ref: fmt.Sprintf("Ring%d", r.IntN(n))}, Val: vt}
				default:
					vt = &model.VT{Key: &model.VT{Core: "string"}, Val: vt}
				}
			}
			if t.Kind == "alias" {
				t.Type = vt
			} else {
				t.Fields = []*model.Field{{Name: "next", Type: vt}, {Name: "big", Type: &model.VT{Core: "bigint"}}}
			}
			s.Types = append(s.Types, t)
		}
		s.Version = "v1"
		s.Services = append(s.Services, &model.Service{Name: "Rings", Methods: []*model.Method{{Name: "Get", In: []*model.Arg{{Name: "ring", Type: &model.VT{Ref: "Ring0"}}}}}})
		return shuffleTypes(r, s).JSON()
	}
	c.Count("structural", 1)
	var v any
	dec := json.NewDecoder(strings.NewReader(s.JSON()))
	dec.UseNumber()
	if err := dec.Decode(&v); err != nil {
		panic(err)
	}
	for range 1 + r.IntN(3) {
		mutateJSON(r, v)
	}
	var b bytes.Buffer
	enc := json.NewEncoder(&b)
	if model.Chance(r, 50) {
		enc.SetEscapeHTML(false)
	}
	if err := enc.Encode(v); err != nil {
		panic(err)
	}
	return b.String()
}

type slot struct {
	get any
	set func(any)
	del func()
}

func mutateJSON(r *rand.Rand, root any) {
	var slots []slot
	var walk func(v any)
	walk = func(v any) {
		switch v := v.(type) {
		case map[string]any:
			var keys []string
			for k := range v {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				slots = append(slots, slot{v[k], func(x any) { v[k] = x }, func() { delete(v, k) }})
				walk(v[k])
			}
		case []any:
			for i := range v {
				slots = append(slots, slot{v[i], func(x any) { v[i] = x }, func() { v[i] = nil }})
				walk(v[i])
			}
		}
	}
	walk(root)
	if len(slots) == 0 {
		return
	}
	at := model.Pick(r, slots)
	switch r.IntN(8) {
	case 0:
		at.del()
	case 1:
		at.set(nil)
	case 2:
		at.set(model.Pick(r, []any{"", 0, -1, 1.5, true, false, []any{}, map[string]any{}, []any{nil}, []any{map[string]any{}}, map[string]any{"": nil}, map[string]any{"name": nil}, "x", "X", "[]", "map<", "[]int", json.Number("1e400"), json.Number("99999999999999999999"), json.Number("4294967297")}))
	case 3:
		at.set(cloneJSON(model.Pick(r, slots).get))
	case 4:
		if list, ok := at.get.([]any); ok && len(list) > 0 {
			at.set(append(append([]any{}, list...), cloneJSON(model.Pick(r, list))))
		} else {
			at.set([]any{at.get})
		}
	case 5:
		if list, ok := at.get.([]any); ok && len(list) > 1 {
			list[0], list[len(list)-1] = list[len(list)-1], list[0]
		}
	case 6:
		if s, ok := at.get.(string); ok {
			at.set(mutate(r, s))
		}
	default:
		if m, ok := at.get.(map[string]any); ok {
			m[model.Pick(r, []string{"type", "fields", "name", "kind", "value", "meta", "optional", "comments", "methods", "inputs", "outputs", "annotations", "errors", "succinct", "extra", "streamInput", "NAME", "Type"})] = model.Pick(r, []any{nil, "x", "string", []any{nil}, []any{}, true, map[string]any{"a": nil}, 1, []any{map[string]any{"name": "x"}}, []any{map[string]any{"json": 1}}, []any{map[string]any{"json": "q"}}})
		}
	}
}

// cloneJSON copies a value.
func cloneJSON(v any) any {
	switch v := v.(type) {
	case map[string]any:
		out := map[string]any{}
		for k, x := range v {
			out[k] = cloneJSON(x)
		}
		return out
	case []any:
		out := make([]any, len(v))
		for i, x := range v {
			out[i] = cloneJSON(x)
		}
		return out
	}
	return v
}
