package model

import (
	"fmt"
	"math/rand/v2"
	"strconv"
	"strings"
)

// Options say what random schemas are made of.
type Options struct {
	Types, Errors, Services int // at most
	Prefix                  string
	NoServices              bool
	PlainText               bool // ASCII text without escapes
	Recursive               bool // structs may refer to any struct
	Foreign                 []*Type
	ForeignErrors           []*Error
	CodeBase                int
	MinTypes                int
	Bigints                 bool // prefer bigint
	Huge                    bool // some lists of hundreds, texts of more than 64 KiB
}

// Gen makes random valid schemas.
type Gen struct {
	R *rand.Rand
	O Options

	s     *Schema
	taken map[string]bool // lower case
	big   bool            // long lists, long names, deep types
	last  map[*string]string
}

// n is a number below max, and much more now and then in big schemas.
func (g *Gen) n(max int) int {
	if g.O.Huge && Chance(g.R, 2) {
		max *= 150
	}
	if g.big && Chance(g.R, 25) {
		max *= 12
	}
	return g.R.IntN(max)
}

func (g *Gen) depth() int {
	if g.big && Chance(g.R, 10) {
		return 4 + g.R.IntN(9)
	}
	return 3
}

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

// ident makes any name of letters, digits and underscores.
func (g *Gen) ident(upper bool) string {
	n := g.R.IntN(10)
	if g.big && Chance(g.R, 10) {
		n = 20 + g.R.IntN(300)
	}
	if g.O.Huge && Chance(g.R, 5) {
		n = Pick(g.R, []int{300, 2000, 5000, 9000})
	}
	b := []byte{letters[g.R.IntN(52)]}
	if upper {
		b[0] = letters[26+g.R.IntN(26)]
	}
	for range n {
		b = append(b, (letters + "0123456789_____")[g.R.IntN(67)])
	}
	return string(b)
}

func Pick[T any](r *rand.Rand, list []T) T { return list[r.IntN(len(list))] }

func Chance(r *rand.Rand, percent int) bool { return r.IntN(100) < percent }

var typeNames = []string{
	"User", "Account", "Order", "Item", "Page", "Filter", "Role", "Status", "Kind", "Level", "Token", "Wallet", "Event", "Log", "Point",
	"String", "Int", "Map", "List", "Any", "Bool", "Null", "Timestamp", "Bigint", "Byte", "Struct", "Enum", "Error", "Service", "Type", "Import", "Stream", "Name", "Version", "HTTP",
	"A", "B", "T1", "X_y", "URL", "IDs", "GetUserRequest", "V2_Node", "UserID",
}

var fieldNames = []string{
	"id", "name", "type", "map", "stream", "errors", "version", "import", "service", "struct", "enum", "error", "webrpc", "basepath", "proxy", "message",
	"createdAt", "updated_at", "URL", "ID", "a", "B", "x1", "y_2_", "isOK", "string", "int", "any", "HTTP", "list", "value", "Values",
}

var methodNames = []string{
	"Ping", "Get", "List", "Create", "Update", "Delete", "GetUser", "FindAll", "Subscribe", "send", "Map", "Errors", "Version", "Service", "Struct",
	"type", "error", "enum", "X", "v2", "Do_It", "HTTPGet", "Stats", "Stream", "STREAM", "streams", "Proxy", "proxyTo", "errors", "struct", "import", "service", "version", "message", "map",
}

var annotationNames = []string{"deprecated", "auth", "acl", "internal", "public", "rate", "cache", "a", "B2", "x_y"}

var words = []string{
	"alpha", "beta", "not", "found", "the", "user", "v1.2.3", "a-b", "x_y", "200", "http", "error", "struct", "enum", "service", "type", "import", "stream", "webrpc", "errors", "HTTP", "name",
}

var textParts = []string{
	"alpha", "beta", " ", "  ", "#", " # ", "'", "é", "日本", "<b>", "&", "{{x}}", "(", ")", "[]", ",", ":", "=", "=>", "@", "|", "?", "+", "-", "/", "//", "%", "`", "$", ";", "!", ".", "map<", ">", "…", "Ω", "😀", "\u2028", "\u00a0", "\ufeff", "\u0085", "e\u0301", "\x7f", "\x01", "\u200d", "error 1 X", "a=b", "_", "~", "^", "*", "'s",
}

var textEscapes = []string{"\"", "\n", "\t", "\"\"", " \"q\" "}

// Word returns a value that can be written without quotes.
func (g *Gen) Word() string { return Pick(g.R, words) }

// Text returns a value that may need quotes.
func (g *Gen) Text() string {
	if Chance(g.R, 30) {
		return g.Word()
	}
	var b strings.Builder
	for range 1 + g.n(5) {
		switch {
		case g.O.PlainText:
			b.WriteString(Pick(g.R, []string{"alpha", "beta", " ", "-", "."}))
		case Chance(g.R, 10):
			b.WriteString(Pick(g.R, textEscapes))
		default:
			b.WriteString(Pick(g.R, textParts))
		}
	}
	if strings.TrimSpace(b.String()) == "" && (g.O.PlainText || Chance(g.R, 60)) {
		b.WriteString("x")
	}
	if g.O.Huge && Chance(g.R, 1) {
		for n := Pick(g.R, []int{300, 5000, 70000, 140000}); b.Len() < n; {
			b.WriteString(Pick(g.R, textParts))
		}
	}
	return b.String()
}

func (g *Gen) name(pool []string, taken map[string]bool, prefix string) string {
	for {
		n := Pick(g.R, pool)
		if Chance(g.R, 10) {
			n = g.ident(&pool[0] == &typeNames[0] || &pool[0] == &errorNames[0])
		} else if len(taken) > len(pool)/2 || Chance(g.R, 30) {
			n = fmt.Sprintf("%s%d", n, g.R.IntN(1000))
		}
		if last := g.last[&pool[0]]; last != "" && Chance(g.R, 8) { // names which begin with other names
			n = last + Pick(g.R, []string{"s", "ID", "_", "2", "Request", "Response", "Stream", "List", "x"})
		}
		full := prefix + n
		if !taken[strings.ToLower(full)] {
			taken[strings.ToLower(full)] = true
			if g.last == nil {
				g.last = map[*string]string{}
			}
			g.last[&pool[0]] = n
			return full
		}
	}
}

// Schema makes a schema.
func (g *Gen) Schema() *Schema {
	s := &Schema{}
	g.s = s
	g.taken = map[string]bool{}
	g.big = Chance(g.R, 3)
	for _, t := range g.O.Foreign {
		g.taken[strings.ToLower(t.Name)] = true
	}
	if Chance(g.R, 90) {
		s.Name = g.Text()
	}
	if Chance(g.R, 60) {
		s.BasePath = Pick(g.R, []string{"/rpc", "/", "/api/v1", "/rpc/", "/a-b/c_d", "/v1.0/rpc", "rpc", "api/v2/"})
	}

	n := g.O.MinTypes
	if g.O.Types > n {
		n += g.R.IntN(g.O.Types - n + 1)
	}
	var aliases, enums, structs []*Type
	for range n {
		t := &Type{Name: g.name(typeNames, g.taken, g.O.Prefix)}
		switch p := g.R.IntN(10); {
		case p < 2:
			t.Kind = "alias"
			aliases = append(aliases, t)
		case p < 4:
			t.Kind = "enum"
			enums = append(enums, t)
		default:
			t.Kind = "struct"
			structs = append(structs, t)
		}
	}
	// names are in use before types are complete: order is random, references go anywhere
	s.Types = append(append(append(s.Types, aliases...), enums...), structs...)
	for _, t := range enums {
		g.enum(t)
	}
	// aliases are completed in a random order and refer only to complete ones
	done := []*Type{}
	order := g.R.Perm(len(aliases))
	for _, i := range order {
		t := aliases[i]
		t.Type = g.vt(g.depth(), done)
		if Chance(g.R, 20) {
			t.Meta = g.meta(nil)
		}
		done = append(done, t)
	}
	for _, t := range structs {
		g.strct(t)
	}

	nerr := g.R.IntN(g.O.Errors + 1)
	codes := map[int]bool{}
	names := map[string]bool{}
	for _, e := range g.O.ForeignErrors {
		codes[e.Code] = true
		names[strings.ToLower(e.Name)] = true
	}
	for range nerr {
		e := &Error{Name: g.name(errorNames, names, g.O.Prefix), Message: g.Text(), Status: 400}
		for e.Code == 0 || codes[e.Code] {
			e.Code = g.O.CodeBase + Pick(g.R, []int{1 + g.R.IntN(20), 1 + g.R.IntN(5000), 1 + g.R.IntN(1<<31-1-g.O.CodeBase)})
		}
		codes[e.Code] = true
		if Chance(g.R, 60) {
			e.Status, e.Explicit = 400+g.R.IntN(200), true
		}
		s.Errors = append(s.Errors, e)
	}

	if !g.O.NoServices {
		taken := map[string]bool{}
		for range g.R.IntN(g.O.Services + 1) {
			svc := &Service{Name: g.name(serviceNames, taken, g.O.Prefix)}
			g.methods(svc)
			s.Services = append(s.Services, svc)
		}
	}
	if len(s.Services) > 0 || Chance(g.R, 50) {
		s.Version = Pick(g.R, []string{"v1", "v0.0.1", "1", "v1.2.3-rc.1", "2024-01-01", "latest", "latest", "v0", "0", "v0.0.0", "1.0", "v10.20.30", "beta+b1"})
	}
	return s
}

var errorNames = []string{"NotFound", "Unauthorized", "RateLimited", "Down", "Busy", "Invalid", "E", "HTTP", "Error", "Web", "Timeout", "X1", "A_b"}

var serviceNames = []string{"Api", "Users", "Admin", "ExampleService", "Stream", "Error", "Struct", "orders", "V2", "My_Service", "Import"}

func (g *Gen) types() []*Type { return append(append([]*Type{}, g.s.Types...), g.O.Foreign...) }

func (g *Gen) enum(t *Type) {
	str := Chance(g.R, 40)
	t.Type = &VT{Core: Pick(g.R, IntTypes)}
	if str {
		t.Type = &VT{Core: "string"}
	}
	taken := map[string]bool{}
	for i := range g.n(5) {
		f := &Field{Name: g.name(memberNames, taken, "")}
		switch {
		case Chance(g.R, 50):
			f.Explicit = true
			if str {
				f.Value = g.Text()
			} else {
				f.Value = Pick(g.R, []string{strconv.Itoa(g.R.IntN(10)), strconv.Itoa(g.R.IntN(1000000)), strconv.FormatUint(g.R.Uint64(), 10), "007"})
			}
		case str:
			f.Value = f.Name
		default:
			f.Value = strconv.Itoa(i)
		}
		t.Fields = append(t.Fields, f)
	}
}

var memberNames = []string{"USER", "ADMIN", "none", "A", "b1", "NOT_AVAILABLE", "type", "Int", "map", "Webrpc", "x_", "OK"}

var metaKeys = []string{"go.field.name", "go.field.type", "go.tag.db", "go.tag.json", "go.type", "ts.name", "x", "go.tag.x-y", "Z9"}

var metaValues = []string{"Name", "-", "created_at", ",omitempty", "name,omitempty", "uint64", "github.com/google/uuid.UUID", "*time.Time", "[]byte", "map[string]any", "a=b", "100%", "v1.2", "<x>", "(y)", "a|b", "@at", "it's", "?", "{{.}}", "a:b"}

func (g *Gen) meta(jsonTaken map[string]bool) (meta []KV) {
	for range 1 + g.n(3) {
		kv := KV{Pick(g.R, metaKeys), Pick(g.R, metaValues)}
		if Chance(g.R, 30) {
			kv.V = g.Text()
		}
		if Chance(g.R, 10) {
			kv.K = g.ident(false) + Pick(g.R, []string{"", ".", "-", "_"}) + g.ident(false)
		}
		meta = append(meta, kv)
	}
	return meta
}

func (g *Gen) strct(t *Type) {
	names, jsonNames := map[string]bool{}, map[string]bool{}
	for range g.n(6) {
		f := &Field{Name: g.name(fieldNames, names, ""), Type: g.vt(g.depth(), nil), Optional: Chance(g.R, 30)}
		if Chance(g.R, 30) {
			f.Meta = g.meta(nil)
		}
		jsonName := f.Name
		if Chance(g.R, 25) {
			kv := KV{"json", Pick(g.R, []string{"-", f.Name, strings.ToLower(f.Name) + "_", fmt.Sprintf("%s%d", f.Name, g.R.IntN(50))})}
			if kv.V != "-" {
				jsonName = kv.V
			}
			at := g.R.IntN(len(f.Meta) + 1)
			f.Meta = append(f.Meta[:at:at], append([]KV{kv}, f.Meta[at:]...)...)
		}
		if jsonNames[strings.ToLower(jsonName)] {
			continue
		}
		jsonNames[strings.ToLower(jsonName)] = true
		t.Fields = append(t.Fields, f)
	}
}

// vt makes a type expression. If aliases are given, only these are used, and
// else every declared type.
func (g *Gen) vt(depth int, aliases []*Type) *VT {
	if depth > 0 {
		p := g.R.IntN(100)
		if depth > 3 {
			p %= 33
		}
		switch {
		case p < 15:
			return &VT{Elem: g.vt(depth-1, aliases)}
		case p < 30:
			return &VT{Key: g.key(aliases), Val: g.vt(depth-1, aliases)}
		}
	}
	if Chance(g.R, 50) {
		var usable []*Type
		for _, t := range g.types() {
			if t.Kind == "alias" && aliases != nil && !contains(aliases, t) && !contains(g.O.Foreign, t) {
				continue
			}
			if t.Kind == "alias" && aliases == nil && t.Type == nil {
				continue
			}
			usable = append(usable, t)
		}
		if len(usable) > 0 {
			return &VT{Ref: Pick(g.R, usable).Name}
		}
	}
	if g.O.Bigints && Chance(g.R, 30) {
		return &VT{Core: "bigint"}
	}
	return &VT{Core: Pick(g.R, CoreTypes)}
}

func contains(list []*Type, t *Type) bool {
	for _, x := range list {
		if x == t {
			return true
		}
	}
	return false
}

func (g *Gen) key(aliases []*Type) *VT {
	if Chance(g.R, 30) {
		var usable []*Type
		for _, t := range g.types() {
			switch t.Kind {
			case "enum":
				usable = append(usable, t)
			case "alias":
				if aliases != nil && !contains(aliases, t) && !contains(g.O.Foreign, t) {
					continue
				}
				if t.Type == nil {
					continue
				}
				r := g.resolve(t.Type)
				if r.Ref != "" && g.find(r.Ref).Kind == "enum" {
					usable = append(usable, t)
				}
			}
		}
		if len(usable) > 0 {
			return &VT{Ref: Pick(g.R, usable).Name}
		}
	}
	if Chance(g.R, 50) {
		return &VT{Core: "string"}
	}
	return &VT{Core: Pick(g.R, IntTypes)}
}

func (g *Gen) find(name string) *Type {
	for _, t := range g.types() {
		if t.Name == name {
			return t
		}
	}
	return nil
}

func (g *Gen) resolve(t *VT) *VT {
	for t.Ref != "" {
		d := g.find(t.Ref)
		if d.Kind != "alias" {
			return t
		}
		t = d.Type
	}
	return t
}

func (g *Gen) args() []*Arg {
	out := []*Arg{}
	names := map[string]bool{}
	for range g.n(4) {
		out = append(out, &Arg{Name: g.name(fieldNames, names, ""), Type: g.vt(g.depth(), nil), Optional: Chance(g.R, 25)})
	}
	return out
}

func (g *Gen) methods(svc *Service) {
	names := map[string]bool{}
	for range 1 + g.n(4) {
		m := &Method{Name: g.name(methodNames, names, "")}
		ann := map[string]bool{}
		for range g.n(4) {
			if Chance(g.R, 50) && !g.big {
				break
			}
			a := Annotation{Name: Pick(g.R, annotationNames)}
			if Chance(g.R, 10) {
				a.Name = g.ident(false)
			}
			if ann[a.Name] {
				continue
			}
			ann[a.Name] = true
			if Chance(g.R, 60) {
				a.HasValue, a.Value = true, g.Text()
			}
			m.Annotations = append(m.Annotations, a)
		}
		m.StreamIn, m.StreamOut = Chance(g.R, 15), Chance(g.R, 20)

		var structs []*Type
		for _, t := range g.types() {
			if t.Kind == "struct" {
				structs = append(structs, t)
			}
		}
		if len(structs) > 0 && Chance(g.R, 20) {
			m.Succinct = true
			in, out := Pick(g.R, structs), Pick(g.R, structs)
			m.In = []*Arg{{Name: LowerFirst(in.Name), Type: &VT{Ref: in.Name}}}
			m.Out = []*Arg{{Name: LowerFirst(out.Name), Type: &VT{Ref: out.Name}}}
		} else {
			m.In, m.Out = g.args(), g.args()
		}
		errs := append(append([]*Error{}, g.s.Errors...), g.O.ForeignErrors...)
		if len(errs) > 0 && Chance(g.R, 40) {
			used := map[string]bool{}
			for range 1 + g.n(3) {
				e := Pick(g.R, errs)
				if !used[e.Name] || Chance(g.R, 4) {
					used[e.Name] = true
					m.Errors = append(m.Errors, e.Name)
				}
			}
		}
		svc.Methods = append(svc.Methods, m)
	}
}

// LowerFirst lowers the first letter.
func LowerFirst(s string) string {
	r := []rune(s)
	return strings.ToLower(string(r[:1])) + string(r[1:])
}

// New makes a random schema.
func New(r *rand.Rand, o Options) *Schema {
	g := &Gen{R: r, O: o}
	return g.Schema()
}
