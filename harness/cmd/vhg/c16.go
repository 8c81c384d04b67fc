package main

import (
	"fmt"
	"maps"
	"math/rand/v2"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/Masterminds/sprig/v3"
	"github.com/webrpc/webrpc/gen"
	"github.com/webrpc/webrpc/schema"

	"verif/harness/internal/cli"
	"verif/harness/internal/model"
	"verif/harness/internal/sut"
	"verif/harness/internal/vh"
)

var c16 = &vh.Prop{
	ID: "C16", Quick: 16000, Thorough: 300000,
	Rule:    "random template programs: nested calls of every documented function on literals, options and variables, printed after each step and compared with a reference evaluator; type helpers walked over every type of a random schema; calls outside of the contracts, which must fail the generation; distinct by program or schema",
	Require: map[string]int{"values compared": 50000, "type nodes": 20000, "calls out of contract": 1500, "functions": 38, "dictionaries changed": 300, "arrays unchanged": 3000, "sprig functions": 100, "texts of dictionaries": 3000},
	Run: func(c *vh.Case) {
		switch c.Index % 4 {
		case 0, 1:
			c16program(c)
		case 2:
			c16types(c)
		case 3:
			c16broken(c)
		}
	},
}

// generate runs a template, given by the files of a local target.
func generate(s *schema.WebRPCSchema, files map[string]string, opts map[string]any) (*gen.GenOutput, error) {
	dir, done := cli.Dir()
	defer done()
	cli.Write(dir, files)
	return gen.Generate(s, dir, &gen.Config{TemplateOptions: opts})
}

func emptySchema() *schema.WebRPCSchema {
	return &schema.WebRPCSchema{WebrpcVersion: "v1", SchemaName: "x", SchemaVersion: "v1"}
}

// programs ------------------------------------------------------------------

type prog struct {
	c    *vh.Case
	r    *rand.Rand
	opts map[string]any
	vars map[string]any
	b    strings.Builder
	want []string
	seen map[string]bool
	n    int
}

// show is how values are printed, with their types.
func show(v any) string {
	if v == nil {
		return "nil"
	}
	return fmt.Sprintf("%#v", v)
}

func (p *prog) use(f string) { p.seen[f] = true }

// call writes a call of f, as f a b c or c | f a b.
func (p *prog) call(f string, args ...string) string {
	p.use(f)
	if n := len(args); n > 0 && model.Chance(p.r, 20) {
		return "(" + args[n-1] + " | " + strings.Join(append([]string{f}, args[:n-1]...), " ") + ")"
	}
	return "(" + strings.Join(append([]string{f}, args...), " ") + ")"
}

// known gives a variable or option of a type, if there is one.
func (p *prog) known(ok func(any) bool) (string, any, bool) {
	var list []string
	for n, v := range p.vars {
		if ok(v) {
			list = append(list, n)
		}
	}
	for n, v := range p.opts {
		if ok(v) {
			list = append(list, "$.Opts."+n)
		}
	}
	if len(list) == 0 {
		return "", nil, false
	}
	sort.Strings(list)
	n := model.Pick(p.r, list)
	if strings.HasPrefix(n, "$.") {
		v := p.opts[strings.TrimPrefix(n, "$.Opts.")]
		if model.Chance(p.r, 30) {
			return p.call("get", "$.Opts", quote(p.r, strings.TrimPrefix(n, "$.Opts."))), v, true
		}
		return n, v, true
	}
	return n, p.vars[n], true
}

func is[T any](v any) bool { _, ok := v.(T); return ok }

func quote(r *rand.Rand, s string) string {
	if model.Chance(r, 30) && !strings.ContainsAny(s, "`\r") && utf8.ValidString(s) && !strings.Contains(s, "\n") {
		return "`" + s + "`"
	}
	return strconv.Quote(s)
}

var c16strings = []string{
	"", "a", "A", "b", "foo", "Foo", "FOO", "fooBar", "FooBar", "foo_bar", "foo-bar", "foo bar", "a,b,c", ",", ",,", "é", "Éa", "éA", "ßx", "ǆx", "日本", "ID", "UserID", "IDUser", "userId",
	"HTTPServer", "HTTP2Server", "A1b", "1A", "_x", "true", "false", "v1.2", "x\ty", "\"q\"", "<&>", "%d", "{{.}}", "ẞA", "ı", "İx", "map<string,int>", "[]string", "string", "aaa", "aa", "X", "XYZab", "XYZa", "XYz", "XY", "URLs", "IDsOf", "userIDs", "ABc", "ABC1d", "X9y", "aB", "ABC", "ABCd_e", "FOO_BAR", "Foo__Bar", "-a-", "ÉÉa", "ÉÉÉa", "HTTPÉa", "9ABc",
	"9", "10", "2", "02", "-1", "0", "1e3", "nil", "<nil>", "[]", "[a b]", "map[]", "0x10", "a10", "a9",
}

func (p *prog) str(depth int) (string, string) {
	r := p.r
	if depth <= 0 || model.Chance(r, 25) {
		if t, v, ok := p.known(is[string]); ok && model.Chance(r, 50) {
			return t, v.(string)
		}
		s := model.Pick(r, c16strings)
		if model.Chance(r, 20) {
			s = randomText(r)
		}
		if model.Chance(r, 1) { // texts which differ only far behind
			s = strings.Repeat(model.Pick(r, []string{"ab", "a", "a,", "é", "Foo"}), model.Pick(r, []int{40, 150, 700, 1500})) + s
		}
		return quote(r, s), s
	}
	d := depth - 1
	switch r.IntN(19) {
	case 0:
		t, v := p.arr(d, true)
		st, sv := p.str(d)
		return p.call("join", t, st), strings.Join(texts(v), sv)
	case 1:
		t, v := p.strs(d)
		st, sv := p.str(d)
		return p.call("join", t, st), strings.Join(v, sv)
	case 2:
		t, v, u, w := p.affix(d)
		return p.call("trimPrefix", t, u), refTrimPrefix(v, w)
	case 3:
		t, v, u, w := p.affix(d)
		return p.call("trimSuffix", t, u), refTrimSuffix(v, w)
	case 4:
		t, v := p.str(d)
		return p.call("toLower", t), refMap(v, unicode.ToLower)
	case 5:
		t, v := p.str(d)
		return p.call("toUpper", t), refMap(v, unicode.ToUpper)
	case 6:
		t, v := p.str(d)
		return p.call("firstLetterToLower", t), refFirst(v, unicode.ToLower)
	case 7:
		t, v := p.str(d)
		return p.call("firstLetterToUpper", t), refFirst(v, unicode.ToUpper)
	case 8:
		t, v := p.str(d)
		return p.call("firstWordToLower", t), refFirstWord(v)
	case 9, 10:
		words := make([]string, 1+r.IntN(4))
		for i := range words {
			words[i] = model.Pick(r, []string{"foo", "bar", "name", "user", "request", "get", "is", "on", "list", "zz"})
		}
		t := quote(r, styled(words, r.IntN(5)))
		switch r.IntN(4) {
		case 0:
			return p.call("camelCase", t), styled(words, 0)
		case 1:
			return p.call("pascalCase", t), styled(words, 1)
		case 2:
			return p.call("snakeCase", t), styled(words, 2)
		}
		return p.call("kebabCase", t), styled(words, 3)
	case 11:
		t, v, u, w := p.affix(d)
		x, y := p.str(0)
		if w == "" {
			return t, v
		}
		return p.call("replaceAll", t, u, x), strings.Join(strings.Split(v, w), y)
	case 12:
		b, bv := p.boolean(d)
		t, v := p.str(d)
		u, w := p.str(d)
		return p.call("ternary", b, t, u), pick(bv, v, w)
	case 13:
		bv := r.IntN(2) == 0
		t, v := p.str(d)
		u, w := p.str(d)
		return p.call("ternary", quote(r, strconv.FormatBool(bv)), t, u), pick(bv, v, w)
	case 14:
		t, v := p.str(d)
		u, w := p.str(d)
		return p.call("default", t, u), pick(v != "", v, w)
	case 15:
		args, val := []string{}, ""
		for range r.IntN(4) {
			t, v := p.str(d)
			args = append(args, t)
			if val == "" {
				val = v
			}
		}
		return p.call("coalesce", args...), val
	case 16, 17:
		t, v := p.strs(d)
		if len(v) == 0 {
			return quote(r, ""), ""
		}
		if r.IntN(2) == 0 {
			return p.call("first", t), v[0]
		}
		return p.call("last", t), v[len(v)-1]
	}
	t, v := p.arr(d, true)
	if len(v) == 0 {
		return quote(r, "e"), "e"
	}
	// first and last give interfaces: only their own type makes them strings
	if r.IntN(2) == 0 {
		return p.call("first", t), v[0].(string)
	}
	return p.call("last", t), v[len(v)-1].(string)
}

func pick[T any](b bool, v, w T) T {
	if b {
		return v
	}
	return w
}

func randomText(r *rand.Rand) string {
	var b strings.Builder
	for range r.IntN(6) {
		b.WriteString(model.Pick(r, []string{"a", "b", "B", "Z", "z", "0", "9", "_", "-", " ", ".", ",", "é", "É", "Ω", "ω", "語", "\u0301", "🙂", "\n"}))
	}
	return b.String()
}

// affix gives a text and something which it may start with, end with or contain.
func (p *prog) affix(d int) (string, string, string, string) {
	t, v := p.str(d)
	if model.Chance(p.r, 70) && v != "" {
		i, j := p.r.IntN(len(v)+1), p.r.IntN(len(v)+1)
		if i > j {
			i, j = j, i
		}
		for i > 0 && i < len(v) && !utf8.RuneStart(v[i]) {
			i--
		}
		for j < len(v) && !utf8.RuneStart(v[j]) {
			j++
		}
		switch p.r.IntN(3) {
		case 0:
			i = 0
		case 1:
			j = len(v)
		}
		return t, v, strconv.Quote(v[i:j]), v[i:j]
	}
	u, w := p.str(d)
	return t, v, u, w
}

func (p *prog) boolean(depth int) (string, bool) {
	r := p.r
	if depth <= 0 {
		if t, v, ok := p.known(is[bool]); ok && model.Chance(r, 50) {
			return t, v.(bool)
		}
		v := r.IntN(2) == 0
		return strconv.FormatBool(v), v
	}
	d := depth - 1
	switch r.IntN(9) {
	case 0:
		t, v, u, w := p.affix(d)
		return p.call("hasPrefix", t, u), len(v) >= len(w) && v[:len(w)] == w
	case 1:
		t, v, u, w := p.affix(d)
		return p.call("hasSuffix", t, u), len(v) >= len(w) && v[len(v)-len(w):] == w
	case 2:
		t, v := p.dict(d)
		key, kv := p.str(d)
		if model.Chance(r, 10) { // there is such a key, though its value is nothing
			key, kv = p.str(0)
			return p.call("exists", "(dict "+key+" "+model.Pick(r, []string{"nil", `""`, "0", "false", "(array)", "(dict)"})+")", key), true
		}
		if model.Chance(r, 60) && len(v) > 0 {
			kv = model.Pick(r, slices.Sorted(maps.Keys(v)))
			key = strconv.Quote(kv)
		}
		_, ok := v[kv]
		return p.call("exists", t, key), ok
	case 3:
		t, v := p.anything(d)
		args, res := []string{t}, false
		for range r.IntN(4) {
			if model.Chance(r, 30) && (is[string](v) || is[int](v)) {
				args, res = append(args, p.lit(v)), true
				continue
			}
			u, w := p.anything(d)
			args = append(args, u)
			res = res || reflect.DeepEqual(v, w)
		}
		if len(args) > 1 {
			// the pipe would change which value is looked for
			p.use("in")
			return "(in " + strings.Join(args, " ") + ")", res
		}
		return "(in " + t + ")", false
	case 4, 5:
		v, vs := p.version()
		w, ws := p.version()
		if model.Chance(r, 30) {
			w[0] = v[0]
			if model.Chance(r, 30) {
				w[1] = v[1]
			}
			ws = p.spell(w)
		}
		return p.call("minVersion", quote(r, vs), quote(r, ws)), v[0] > w[0] || v[0] == w[0] && v[1] >= w[1]
	case 6:
		t, v := p.anything(d)
		return p.call("isString", t), is[string](v)
	case 7:
		t, v := p.anything(d)
		p.use("hasField")
		_ = v
		return "(hasField " + t + " " + quote(r, "Name") + ")", false
	}
	b, bv := p.boolean(d)
	t, v := p.boolean(d)
	u, w := p.boolean(d)
	return p.call("ternary", b, t, u), pick(bv, v, w)
}

func (p *prog) lit(v any) string {
	switch v := v.(type) {
	case string:
		return strconv.Quote(v)
	case int:
		return strconv.Itoa(v)
	}
	panic("literal")
}

func (p *prog) version() ([2]int, string) {
	v := [2]int{p.r.IntN(3), p.r.IntN(12)}
	if model.Chance(p.r, 10) {
		v[1] = 100
	}
	if model.Chance(p.r, 10) {
		v[0] = 10
	}
	if model.Chance(p.r, 5) {
		v[p.r.IntN(2)] = model.Pick(p.r, []int{255, 256, 257, 65535, 65536, 65537, 99999, 1 << 24, 1<<31 - 1, 1 << 31, 1 << 40}) + p.r.IntN(3)
	}
	return v, p.spell(v)
}

func (p *prog) spell(v [2]int) string {
	s := strconv.Itoa(v[0])
	if v[1] > 0 || model.Chance(p.r, 70) {
		s += "." + strconv.Itoa(v[1])
		if model.Chance(p.r, 50) {
			s += "." + model.Pick(p.r, []string{"0", "1", "99", "1-rc.1", "0-dev"})
		}
	}
	if model.Chance(p.r, 60) {
		s = "v" + s
	}
	return s
}

func (p *prog) integer(depth int) (string, int) {
	if depth <= 0 || model.Chance(p.r, 50) {
		v := p.r.IntN(7) - 2
		return strconv.Itoa(v), v
	}
	if p.r.IntN(2) == 0 {
		t, v := p.strs(depth - 1)
		return p.call("lastIndex", t), len(v) - 1
	}
	t, v := p.arr(depth-1, false)
	return p.call("lastIndex", t), len(v) - 1
}

// arr gives an array; its elements are strings, if wanted.
func (p *prog) arr(depth int, textsOnly bool) (string, []any) {
	r := p.r
	fits := func(v any) bool {
		a, ok := v.([]any)
		if !ok || !textsOnly {
			return ok
		}
		for _, e := range a {
			if !is[string](e) {
				return false
			}
		}
		return true
	}
	if model.Chance(r, 40) {
		if t, v, ok := p.known(fits); ok {
			return t, v.([]any)
		}
	}
	elems := func() (args []string, list []any) {
		list = []any{}
		n, depth := r.IntN(5), depth
		if model.Chance(r, 5) {
			n, depth = 10+r.IntN(30), 0
		}
		for range n {
			if textsOnly || model.Chance(r, 50) {
				t, v := p.str(depth - 1)
				args, list = append(args, t), append(list, v)
			} else {
				t, v := p.anything(depth - 1)
				args, list = append(args, t), append(list, v)
			}
		}
		return args, list
	}
	if depth <= 0 || model.Chance(r, 30) {
		args, list := elems()
		return p.call("array", args...), list
	}
	switch r.IntN(4) {
	case 0:
		t, v := p.arr(depth-1, true)
		if model.Chance(r, 6) { // texts which differ only at their ends, and texts of numbers
			numbers := model.Chance(r, 30)
			start := strings.Repeat(model.Pick(r, []string{"a", "ab", "é", "Z "}), 1+r.IntN(150))
			args := []string{}
			v = []any{}
			for range 2 + r.IntN(5) {
				x := start + model.Pick(r, c16strings)
				if numbers {
					x = fmt.Sprint(r.IntN(1200))
				}
				args, v = append(args, quote(r, x)), append(v, x)
			}
			t = p.call("array", args...)
		}
		sorted := append([]any{}, v...)
		slices.SortStableFunc(sorted, func(a, b any) int { return strings.Compare(a.(string), b.(string)) })
		return p.call("sort", t), sorted
	case 1:
		t, v := p.arr(depth-1, textsOnly)
		b, bv := p.boolean(depth - 1)
		u, w := p.arr(depth-1, textsOnly)
		return p.call("ternary", b, t, u), pick(bv, v, w)
	}
	t, v := p.arr(depth-1, textsOnly)
	args, list := elems()
	p.use("append")
	return "(" + strings.Join(append([]string{"append", t}, args...), " ") + ")", append(append([]any{}, v...), list...)
}

func (p *prog) strs(depth int) (string, []string) {
	if t, v, ok := p.known(is[[]string]); ok && model.Chance(p.r, 30) {
		return t, v.([]string)
	}
	t, v, u, w := p.affix(depth - 1)
	if w == "" {
		u, w = quote(p.r, ","), ","
	}
	if model.Chance(p.r, 4) && len(w) < 10 { // many parts
		v = strings.Repeat(model.Pick(p.r, []string{"a", "", "b c", "é"})+w, 1+p.r.IntN(model.Pick(p.r, []int{20, 300, 3000}))) + v
		t = strconv.Quote(v)
	}
	// split SEPARATOR STRING
	out, rest := []string{}, v
	for {
		i := strings.Index(rest, w)
		if i < 0 {
			break
		}
		out, rest = append(out, rest[:i]), rest[i+len(w):]
	}
	return p.call("split", u, t), append(out, rest)
}

func (p *prog) dict(depth int) (string, map[string]any) {
	if model.Chance(p.r, 60) {
		if t, v, ok := p.known(is[map[string]any]); ok {
			return t, v.(map[string]any)
		}
	}
	var args []string
	m := map[string]any{}
	n := p.r.IntN(4)
	if model.Chance(p.r, 5) {
		n, depth = 5+p.r.IntN(25), 0
	}
	for range n {
		k, kv := p.str(depth - 1)
		t, v := p.scalar(depth - 1)
		args, m[kv] = append(args, k, t), v
	}
	p.use("dict")
	return "(" + strings.Join(append([]string{"dict"}, args...), " ") + ")", m
}

// scalar gives anything which holds no dictionary.
func (p *prog) scalar(depth int) (string, any) {
	switch p.r.IntN(5) {
	case 0:
		return wrap(p.boolean(depth))
	case 1:
		return wrap(p.integer(depth))
	case 2:
		return wrap(p.arr(depth, true))
	}
	return wrap(p.str(depth))
}

func (p *prog) anything(depth int) (string, any) {
	r := p.r
	if depth > 0 && model.Chance(r, 20) {
		d := depth - 1
		switch r.IntN(5) {
		case 0, 1:
			t, v := p.dict(d)
			if len(v) > 0 {
				k := model.Pick(r, slices.Sorted(maps.Keys(v)))
				return "(get " + t + " " + strconv.Quote(k) + ")", v[k]
			}
		case 2:
			t, v := p.anything(d)
			u, w := p.anything(d)
			p.use("default")
			return "(default " + t + " " + u + ")", pick(!zero(v), v, w)
		case 3:
			u, w := p.anything(d)
			p.use("default")
			return "(default nil " + u + ")", w
		case 4:
			args, val := []string{}, any("")
			found := false
			for range r.IntN(4) {
				t, v := p.anything(d)
				args = append(args, t)
				if !found && !zero(v) {
					val, found = v, true
				}
			}
			return p.call("coalesce", args...), val
		}
	}
	switch r.IntN(6) {
	case 0:
		return wrap(p.strs(depth))
	case 1:
		return wrap(p.dict(depth))
	}
	return p.scalar(depth)
}

func wrap[T any](t string, v T) (string, any) { return t, v }

// zero says whether a value is empty; arrays and dictionaries always exist.
func zero(v any) bool {
	switch v := v.(type) {
	case nil:
		return true
	case string:
		return v == ""
	case bool:
		return !v
	case int:
		return v == 0
	}
	return false
}

func texts(list []any) []string {
	out := make([]string, len(list))
	for i, v := range list {
		out[i] = v.(string)
	}
	return out
}

func refTrimPrefix(s, p string) string {
	if len(s) >= len(p) && s[:len(p)] == p {
		return s[len(p):]
	}
	return s
}

func refTrimSuffix(s, p string) string {
	if len(s) >= len(p) && s[len(s)-len(p):] == p {
		return s[:len(s)-len(p)]
	}
	return s
}

func refMap(s string, f func(rune) rune) string {
	var b strings.Builder
	for _, x := range s {
		b.WriteRune(f(x))
	}
	return b.String()
}

func refFirst(s string, f func(rune) rune) string {
	for i, x := range s {
		if i > 0 {
			break
		}
		if x == utf8.RuneError {
			return s
		}
		return string(f(x)) + string([]rune(s)[1:])
	}
	return s
}

// refFirstWord makes the first word of a name lower case: a run of capitals, up
// to the last one if that starts a word, or a capital and what follows it.
func refFirstWord(s string) string {
	upper := func(i int) bool { return i < len(s) && s[i] >= 'A' && s[i] <= 'Z' }
	lower := func(i int) bool { return i < len(s) && s[i] >= 'a' && s[i] <= 'z' }
	if s == "" || lower(0) {
		return s
	}
	n := 0
	for upper(n) {
		n++
	}
	if n > 1 && lower(n) && lower(n+1) {
		n--
	}
	out := strings.ToLower(s[:n])
	return out + s[n:]
}

// styled writes words in camel, pascal, snake, kebab case, or with spaces.
func styled(words []string, style int) string {
	var b strings.Builder
	for i, w := range words {
		switch {
		case style == 0 && i == 0:
			b.WriteString(w)
		case style <= 1:
			b.WriteString(strings.ToUpper(w[:1]) + w[1:])
		default:
			if i > 0 {
				b.WriteString([]string{2: "_", 3: "-", 4: " "}[style])
			}
			b.WriteString(w)
		}
	}
	return b.String()
}

func (p *prog) print(t string, v any) {
	p.n++
	fmt.Fprintf(&p.b, "%d {{printf \"%%#v\" %s}}\x00\n", p.n, t)
	p.want = append(p.want, fmt.Sprintf("%d %s\x00", p.n, show(v)))
}

// c16make makes a program, what it must print, and the options it needs.
func c16make(c *vh.Case) (p *prog, text, want string, given map[string]any) {
	r := c.R
	p = &prog{c: c, r: r, vars: map[string]any{}, opts: map[string]any{}, seen: map[string]bool{}}
	for i := range r.IntN(4) {
		n := fmt.Sprintf("o%d", i)
		switch r.IntN(5) {
		case 0:
			p.opts[n] = []any{"x", model.Pick(r, c16strings), "b"}
		case 1:
			p.opts[n] = map[string]any{"k": model.Pick(r, c16strings), "n": 3}
		case 2:
			p.opts[n] = r.IntN(2) == 0
		case 3:
			// with room to spare, which append must not write to
			spare := make([]any, 3, 16)
			spare[0], spare[1], spare[2] = "c", "a", "b"
			p.opts[n] = spare
		default:
			p.opts[n] = model.Pick(r, c16strings)
		}
	}
	given = copyOpts(p.opts)
	p.b.WriteString("{{define \"main\"}}")
	if model.Chance(r, 10) {
		k := quote(r, model.Pick(r, c16strings))
		p.b.WriteString(`{{if kindIs "invalid" (get (dict ` + k + ` nil) ` + k + `)}}{{else}}wrong{{end}}`)
	}
	for range 4 + r.IntN(12) {
		switch r.IntN(6) {
		case 0, 1:
			t, v := p.anything(3)
			n := fmt.Sprintf("$v%d", len(p.vars))
			fmt.Fprintf(&p.b, "{{%s := %s}}", n, t)
			p.vars[n] = v
		case 2:
			var dicts []string
			for n, v := range p.vars {
				if is[map[string]any](v) {
					dicts = append(dicts, n)
				}
			}
			if len(dicts) > 0 {
				sort.Strings(dicts)
				n := model.Pick(r, dicts)
				k, kv := p.str(1)
				t, v := p.scalar(2)
				p.use("set")
				fmt.Fprintf(&p.b, "{{set %s %s %s}}", n, k, t)
				p.vars[n].(map[string]any)[kv] = v
				c.Count("dictionaries changed", 1)
				p.print(n, p.vars[n])
			}
		default:
			t, v := p.anything(4)
			p.print(t, v)
		}
	}
	// nothing has changed what is known by now, but for set
	for _, n := range slices.Sorted(maps.Keys(p.vars)) {
		p.print(n, p.vars[n])
		if is[[]any](p.vars[n]) || is[[]string](p.vars[n]) {
			c.Count("arrays unchanged", 1)
		}
	}
	for _, n := range slices.Sorted(maps.Keys(p.opts)) {
		p.print("$.Opts."+n, p.opts[n])
	}
	p.b.WriteString("{{end}}")
	return p, p.b.String(), strings.Join(p.want, "\n"), given
}

// copyOpts copies options, with the room to spare of arrays.
func copyOpts(opts map[string]any) map[string]any {
	out := map[string]any{}
	for n, v := range opts {
		switch v := v.(type) {
		case []any:
			w := make([]any, len(v), cap(v))
			copy(w, v)
			out[n] = w
		case map[string]any:
			out[n] = maps.Clone(v)
		default:
			out[n] = v
		}
	}
	return out
}

func c16program(c *vh.Case) {
	p, text, want, given := c16make(c)
	c.Attach("main.go.tmpl", text)
	c.Distinct(text)
	for f := range p.seen {
		c.Count("call of "+f, 1)
	}
	if c.Index == 0 {
		c16functions(c)
	}
	if c.Index%20 == 1 {
		c16dicts(c)
	}
	for round := range 2 {
		opts := copyOpts(given)
		out, err := generate(emptySchema(), map[string]string{"main.go.tmpl": text}, opts)
		if err != nil {
			c.Failf("call fails", "a program within the contracts fails: %v", err)
			return
		}
		got := strings.TrimRight(out.Code, "\n")
		if got != want {
			g, w := strings.Split(got, "\x00"), strings.Split(want, "\x00")
			for i := range w {
				if i >= len(g) || g[i] != w[i] {
					line := ""
					if l := strings.Split(text, "\x00"); i < len(l) {
						line = l[i]
					}
					c.Failf("value", "round %d: %s\ngives %s\nwant  %s", round, strings.TrimSpace(line), g[min(i, len(g)-1)], w[i])
					return
				}
			}
			c.Failf("value", "round %d: more output than expected: %q", round, got)
			return
		}
		for n, v := range opts {
			if a, ok := v.([]any); ok {
				if full, want := a[:cap(a)], given[n].([]any); !reflect.DeepEqual(full, want[:cap(want)]) {
					c.Failf("option changed", "array option %s has become %#v, was %#v", n, full, want[:cap(want)])
				}
			}
		}
	}
	c.Count("values compared", len(p.want))
	c.Sample(map[string]any{"template": strings.ReplaceAll(text, "\x00", ""), "output": strings.ReplaceAll(want, "\x00", "")})
}

// c16dicts makes text of dictionaries: whatever it looks like, it is always the same.
func c16dicts(c *vh.Case) {
	r := c.R
	random := func() map[string]any {
		d := map[string]any{}
		for range r.IntN(40) {
			k := model.Pick(r, c16strings)
			if model.Chance(r, 50) {
				k += strconv.Itoa(r.IntN(30))
			}
			d[k] = model.Pick(r, []any{1, "x", true, nil, map[string]any{"b": 1, "a": 2, "c": "x"}})
		}
		return d
	}
	opts := func(d, e map[string]any) map[string]any {
		return map[string]any{"d": maps.Clone(d), "e": maps.Clone(e)}
	}
	d, e := random(), random()
	text := `{{define "main"}}{{range (array 1 2 3 4 5 6)}}{{join (array $.Opts.d "-" $.Opts.e) ","}};{{printf "%v" (sort (array $.Opts.e $.Opts.d "m"))}};{{printf "%v" $.Opts.d}};{{dump $.Opts.e}}` + "\x00{{end}}{{end}}"
	first := ""
	for range 3 {
		out, err := generate(emptySchema(), map[string]string{"main.go.tmpl": text}, opts(d, e))
		if err != nil {
			c.Failf("call fails", "text of dictionaries: %s: %v", text, err)
			return
		}
		for i, got := range strings.Split(strings.TrimRight(out.Code, "\x00\n"), "\x00") {
			if first == "" {
				first = got
			}
			if strings.TrimSpace(got) != strings.TrimSpace(first) {
				c.Failf("not deterministic", "text of dictionaries: %s (%d) gives %q and %q", text, i, first, got)
				return
			}
			c.Count("texts of dictionaries", 1)
		}
	}
}

// c16functions looks for the functions by name.
func c16functions(c *vh.Case) {
	documented := strings.Fields(`minVersion stderrPrint stderrPrintf exit dump hasField isBasicType isCoreType isStructType isEnumType isAliasType isMapType isListType
		mapKeyType mapValueType listElemType isString dict get set exists join split hasPrefix hasSuffix trimPrefix trimSuffix toLower toUpper firstLetterToLower firstLetterToUpper
		firstWordToLower camelCase pascalCase snakeCase kebabCase lastIndex array append first last sort coalesce default in ternary replaceAll SchemaUsesBigInts SchemaBigIntFieldsByType`)
	for _, f := range documented {
		if _, err := generate(emptySchema(), map[string]string{"main.go.tmpl": `{{define "main"}}{{if false}}{{` + f + `}}{{end}}ok{{end}}`}, nil); err != nil {
			c.Failf("function missing", "%s: %v", f, err)
		}
		c.Count("functions", 1)
	}
	for f := range sprig.FuncMap() {
		if _, err := generate(emptySchema(), map[string]string{"main.go.tmpl": `{{define "main"}}{{if false}}{{` + f + `}}{{end}}ok{{end}}`}, nil); err != nil {
			c.Failf("function missing", "sprig's %s: %v", f, err)
		}
		c.Count("sprig functions", 1)
	}
	for t, want := range map[string]string{`{{trim "  x "}}`: "x", `{{add 1 2}}`: "3", `{{list 1 2 | len}}`: "2", `{{upper "x"}}`: "X", `{{repeat 3 "x"}}`: "xxx", `{{has 1 (list 1 2)}}`: "true", `{{keys (dict "a" 1) | len}}`: "1"} {
		out, err := generate(emptySchema(), map[string]string{"main.go.tmpl": `{{define "main"}}` + t + `{{end}}`}, nil)
		if err != nil || out.Code != want {
			c.Failf("sprig function", "%s gives %v, %v; want %s", t, out, err, want)
		}
	}
}

// types ----------------------------------------------------------------------

const c16walk = `
{{- define "type" -}}
[{{.}} {{isCoreType .}}{{isBasicType .}} {{isStructType .}} {{isEnumType .}} {{isAliasType .}} {{isListType .}} {{isMapType .}} {{isString .}}
{{- if isListType .}} e{{template "type" listElemType .}}{{end}}
{{- if isMapType .}} k({{mapKeyType .}}) v({{mapValueType .}}){{template "type" .Map.Value}}{{end}}]
{{- end -}}
{{- define "text" -}}
<{{.}} {{isCoreType .}}{{isBasicType .}} {{isStructType .}} {{isEnumType .}} {{isAliasType .}} {{isListType .}} {{isMapType .}} {{isString .}}
{{- if isListType .}} e{{template "text" listElemType .}}{{end}}
{{- if isMapType .}} k{{template "text" mapKeyType .}} v{{template "text" mapValueType .}}{{end}}>
{{- end -}}
{{- define "both"}}{{template "type" .}}{{template "text" printf "%v" .}}{{"\n"}}{{end -}}
{{- define "main" -}}
{{range .Types -}}
type {{.Name}} {{isCoreType .}}{{isBasicType .}} {{isStructType .}} {{isEnumType .}} {{isAliasType .}} {{isString .}} {{hasField . "Kind"}} {{hasField . "Nope"}}
{{if not (isStructType .)}}{{template "both" .Type}}{{end}}
{{- $isStruct := isStructType . -}}
{{range .Fields}}{{if $isStruct}}{{.Name}} {{hasField . "TypeExtra"}}{{hasField . "kind"}} {{template "both" .Type}}{{end}}{{end}}
{{- end -}}
{{range .Services}}{{range .Methods}}{{.Name}} {{hasField . "Succinct"}}{{hasField . "Inputs"}}{{hasField . "Input"}}
{{range .Inputs}}{{.Name}} {{template "both" .Type}}{{end}}{{range .Outputs}}{{.Name}} {{template "both" .Type}}{{end}}{{end}}{{end -}}
texts {{join (sort (array "struct" (index .Opts "x"))) ","}}
big {{SchemaUsesBigInts .WebRPCSchema}} {{SchemaBigIntFieldsByType .WebRPCSchema}}
{{end}}`

func c16types(c *vh.Case) {
	m := model.New(c.R, model.Options{MinTypes: 1, Types: 1 + c.R.IntN(12), Errors: 1, Services: 3, Bigints: model.Chance(c.R, 50)})
	s := sut.Accepted(c, model.Render(m, nil, model.RandomStyle(c.R)), m)
	if s == nil {
		return
	}
	c.Distinct(m.JSON())
	var b strings.Builder
	var asType, asText func(t *model.VT)
	kind := func(t *model.VT) string {
		if t.Ref == "" {
			return ""
		}
		return m.Type(t.Ref).Kind
	}
	nodes := 0
	asType = func(t *model.VT) {
		nodes++
		k := kind(t)
		fmt.Fprintf(&b, "[%s %t%t %t %t %t %t %t %t", t, t.Core != "", t.Core != "", k == "struct", k == "enum", k == "alias", t.Elem != nil, t.Val != nil, false)
		if t.Elem != nil {
			b.WriteString(" e")
			asType(t.Elem)
		}
		if t.Val != nil {
			fmt.Fprintf(&b, " k(%s) v(%s)", t.Key, t.Val)
			asType(t.Val)
		}
		b.WriteString("]")
	}
	asText = func(t *model.VT) {
		nodes++
		fmt.Fprintf(&b, "<%s %t%t %t %t %t %t %t %t", t, t.Core != "", t.Core != "", false, false, false, t.Elem != nil, t.Val != nil, true)
		if t.Elem != nil {
			b.WriteString(" e")
			asText(t.Elem)
		}
		if t.Val != nil {
			b.WriteString(" k")
			asText(t.Key)
			b.WriteString(" v")
			asText(t.Val)
		}
		b.WriteString(">")
	}
	both := func(t *model.VT) {
		asType(t)
		asText(t)
		b.WriteString("\n")
	}
	for _, t := range m.Types {
		fmt.Fprintf(&b, "type %s false%t %t %t %t false true false\n", t.Name, false, t.Kind == "struct", t.Kind == "enum", t.Kind == "alias")
		if t.Type != nil {
			both(t.Type)
		} else {
			for _, f := range t.Fields {
				fmt.Fprintf(&b, "%s truefalse ", f.Name)
				both(f.Type)
			}
		}
	}
	for _, svc := range m.Services {
		for _, me := range svc.Methods {
			fmt.Fprintf(&b, "%s truetruefalse\n", me.Name)
			for _, a := range append(append([]*model.Arg{}, me.In...), me.Out...) {
				fmt.Fprintf(&b, "%s ", a.Name)
				both(a.Type)
			}
		}
	}
	x := model.Pick(c.R, c16strings)
	list := []string{"struct", x}
	sort.Strings(list)
	fmt.Fprintf(&b, "texts %s\nbig %v %v\n", strings.Join(list, ","), schema.SchemaUsesBigInts(s), schema.SchemaBigIntFieldsByType(s))
	before := sut.JSON(s)
	out, err := generate(s, map[string]string{"main.go.tmpl": c16walk}, map[string]any{"x": x})
	if err != nil {
		c.Failf("type helper fails", "%v", err)
		return
	}
	if out.Code != b.String() {
		g, w := strings.Split(out.Code, "\n"), strings.Split(b.String(), "\n")
		for i := range w {
			if i >= len(g) || g[i] != w[i] {
				c.Failf("type helper", "gives %s\nwant  %s", g[min(i, len(g)-1)], w[i])
				return
			}
		}
		c.Failf("type helper", "more output than expected")
		return
	}
	if s.BasePath = m.NormalBasePath(); sut.JSON(s) != before && len(m.Services) == 0 {
		c.Failf("schema changed", "generation changes the schema")
	}
	c.Count("type nodes", nodes)
	// names as Go code uses them
	for range 20 {
		v := model.Pick(c.R, c16strings)
		if model.Chance(c.R, 50) {
			v = randomText(c.R)
		}
		if !utf8.ValidString(v) {
			continue
		}
		if got, want := schema.VarName(v).TitleDowncase(), refFirst(v, unicode.ToLower); got != want {
			c.Failf("TitleDowncase", "%q gives %q, want %q", v, got, want)
		}
		if got, want := schema.VarName(v).TitleUpcase(), refFirst(v, unicode.ToUpper); got != want {
			c.Failf("TitleUpcase", "%q gives %q, want %q", v, got, want)
		}
	}
}

// out of contract --------------------------------------------------------------

func c16broken(c *vh.Case) {
	r := c.R
	m := model.New(r, model.Options{MinTypes: 3, Types: 6, Errors: 1, Services: 1})
	s := sut.Accepted(c, model.Render(m, nil, model.PlainStyle()), m)
	if s == nil {
		return
	}
	word := func() string { return strconv.Quote(model.Pick(r, words)) }
	any1 := func() string {
		return model.Pick(r, []string{"1", "true", `(array "a")`, `(dict "a" 1)`, "1.5", `(index .Types 0)`})
	}
	notArray := func() string { return model.Pick(r, []string{"1", "true", word(), `(dict "a" 1)`}) }
	version := func() string {
		return model.Pick(r, []string{"", "v", "x", "v.1", "vx.1", "v1.x", "1.", "one.two", "v1.2x.3", " v1", "v 1.2", "vv1", "v1..2"})
	}
	calls := []func() string{
		func() string { return `{{dict "a"}}` },
		func() string { return `{{dict ` + word() + ` 1 ` + word() + `}}` },
		func() string { return `{{dict ` + any1() + ` 1}}` },
		func() string { return `{{dict "a" 1 ` + any1() + ` 1}}` },
		func() string { return `{{get (dict "a" 1) "b"}}` },
		func() string { return `{{get (dict) ` + word() + `}}` },
		func() string { return `{{$d := dict "A" 1}}{{get $d "a"}}` },
		func() string { return `{{get .Opts "missing"}}` },
		func() string { return `{{get "x" "a"}}` },
		func() string { return `{{exists "x" "a"}}` },
		func() string { return `{{set "x" "a" 1}}` },
		func() string { return `{{first (array)}}` },
		func() string { return `{{last (array)}}` },
		func() string { return `{{first ` + notArray() + `}}` },
		func() string { return `{{last ` + notArray() + `}}` },
		func() string { return `{{join ` + notArray() + ` ","}}` },
		func() string {
			return `{{join (array "a" ` + model.Pick(r, []string{"1", "true", `(array "a")`}) + `) ","}}`
		},
		func() string { return `{{sort ` + notArray() + `}}` },
		func() string { return `{{sort (array "a" 1)}}` },
		func() string { return `{{append ` + notArray() + ` "a"}}` },
		func() string { return `{{lastIndex ` + notArray() + `}}` },
		func() string { return `{{minVersion ` + quote(r, version()) + ` "v1.2"}}` },
		func() string { return `{{minVersion "v1.2" ` + quote(r, version()) + `}}` },
		func() string { return `{{minVersion 1 "v1.2"}}` },
		func() string {
			return `{{ternary ` + model.Pick(r, []string{`"yes"`, `""`, "1", "0", `"True"`, `"TRUE"`, "nil", `(array)`, `" true"`}) + ` 1 2}}`
		},
		func() string { return `{{mapKeyType ` + c16notMap(r, s, m) + `}}` },
		func() string { return `{{mapValueType ` + c16notMap(r, s, m) + `}}` },
		func() string { return `{{listElemType ` + c16notList(r, s, m) + `}}` },
		func() string {
			return `{{` + model.Pick(r, []string{"toLower", "toUpper", "firstLetterToLower", "firstLetterToUpper", "firstWordToLower", "camelCase", "pascalCase", "snakeCase", "kebabCase"}) + ` ` + any1() + `}}`
		},
		func() string {
			return `{{` + model.Pick(r, []string{"hasPrefix", "hasSuffix", "trimPrefix", "trimSuffix", "split"}) + ` "a" ` + any1() + `}}`
		},
		func() string { return `{{isCoreType ` + model.Pick(r, []string{"1", "true", `(array "a")`}) + `}}` },
		func() string { return `{{isListType ` + model.Pick(r, []string{"1", "true", `(array "a")`}) + `}}` },
		func() string { return `{{isMapType ` + model.Pick(r, []string{"1", "true", `(array "a")`}) + `}}` },
		func() string { return `{{nosuchfunction}}` },
		func() string { return `{{.NoSuchField}}` },
		func() string { return `{{ternary true}}` },
		func() string { return `{{template "nosuchtemplate"}}` },
		func() string { return `{{fail "because"}}` },
	}
	call := calls[r.IntN(len(calls))]()
	pre := model.Pick(r, []string{"", "text\n", "{{$a := array 1 2}}", "{{range $i := array 1 2 3}}{{$i}}{{end}}"})
	text := `{{define "main"}}` + pre + call + `{{end}}`
	if model.Chance(r, 30) {
		text = `{{define "sub"}}` + call + `{{end}}{{define "main"}}` + pre + `{{template "sub" .}}{{end}}`
	}
	c.Attach("main.go.tmpl", text)
	c.Distinct(text)
	for range 2 {
		out, err := generate(s, map[string]string{"main.go.tmpl": text}, map[string]any{"a": "b"})
		if err == nil {
			c.Failf("out of contract", "%s gives output %q instead of an error", call, out.Code)
			return
		}
		if err.Error() == "" {
			c.Failf("no reason", "%s fails without a reason", call)
		}
	}
	c.Count("calls out of contract", 1)
	c.Count("not accepted: "+strings.Fields(strings.Trim(call[strings.LastIndex(call, "{{")+2:], "}"))[0], 1)
}

var words = []string{"a", "b", "foo", "Bar", "x y", "é"}

// c16typeOf gives the way to a type of a schema, of the wanted sort.
func c16typeOf(r *rand.Rand, m *model.Schema, want func(t *model.VT) bool) string {
	var list []string
	for i, t := range m.Types {
		if t.Type != nil && want(t.Type) {
			list = append(list, fmt.Sprintf("(index .Types %d).Type", i))
		}
		if t.Kind == "struct" {
			for j, f := range t.Fields {
				if want(f.Type) {
					list = append(list, fmt.Sprintf("(index (index .Types %d).Fields %d).Type", i, j))
				}
			}
		}
	}
	if len(list) == 0 {
		return ""
	}
	return model.Pick(r, list)
}

func c16notMap(r *rand.Rand, s *schema.WebRPCSchema, m *model.Schema) string {
	if t := c16typeOf(r, m, func(t *model.VT) bool { return t.Val == nil }); t != "" && model.Chance(r, 60) {
		return t
	}
	return model.Pick(r, []string{`"string"`, `""`, `"[]string"`, `"map"`, `"map<string"`, `"map<string>"`, `"Map<string,int>"`, `"[]map<string,int>"`, "1", "true", `"map<string,int"`})
}

func c16notList(r *rand.Rand, s *schema.WebRPCSchema, m *model.Schema) string {
	if t := c16typeOf(r, m, func(t *model.VT) bool { return t.Elem == nil }); t != "" && model.Chance(r, 60) {
		return t
	}
	return model.Pick(r, []string{`"string"`, `""`, `"map<string,int>"`, `"map<string,[]int>"`, `"[string"`, `"]["`, "1", "true", `" []string"`})
}
