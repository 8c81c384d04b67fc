package main

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"github.com/webrpc/webrpc/schema"

	"verif/harness/internal/model"
	"verif/harness/internal/sut"
	"verif/harness/internal/vh"
)

var c05 = &vh.Prop{
	ID: "C05", Quick: 12000, Thorough: 400000,
	Rule: "random schemas whose type references are walked down to the declared types (RIDL and JSON form), the same with one broken type expression, alias cycle or enum base at a random place, and random expressions judged by a reference grammar; distinct by document",
	Require: map[string]int{
		"references resolved": 10000, "broken expressions": 1000, "alias cycles": 200, "random expressions accepted": 200, "random expressions rejected": 200,
	},
	Run: func(c *vh.Case) {
		switch c.Index % 4 {
		case 0:
			c05valid(c)
		case 1, 2:
			c05broken(c)
		default:
			c05random(c)
		}
	},
}

func c05valid(c *vh.Case) {
	s := model.New(c.R, sut.Sizes(c))
	if model.Chance(c.R, 50) {
		deepen(c.R, s)
	}
	if model.Chance(c.R, 20) {
		aliasChain(c.R, s)
	}
	text := model.Render(s, nil, model.RandomStyle(c.R))
	c.Distinct(text)
	got := sut.Accepted(c, text, s)
	if got == nil {
		return
	}
	n, err := sut.CheckResolved(got, s)
	c.Count("references resolved", n)
	if err != nil {
		c.Failf("resolved", "%v", err)
		return
	}
	j := shuffleTypes(c.R, s)
	got = sut.AcceptedJSON(c, j.JSON(), j)
	if got == nil {
		return
	}
	n, err = sut.CheckResolved(got, j)
	c.Count("references resolved", n)
	if err != nil {
		c.Failf("json-resolved", "%v", err)
	}
}

// shuffleTypes reorders the types freely, which JSON allows.
func shuffleTypes(r *rand.Rand, s *model.Schema) *model.Schema {
	s = s.Clone()
	r.Shuffle(len(s.Types), func(i, j int) { s.Types[i], s.Types[j] = s.Types[j], s.Types[i] })
	return s
}

// deepen makes some types deeply nested.
func deepen(r *rand.Rand, s *model.Schema) {
	wrap := func(t *model.VT) *model.VT {
		for range 1 + r.IntN(20) {
			if model.Chance(r, 50) {
				t = &model.VT{Elem: t}
			} else {
				t = &model.VT{Key: &model.VT{Core: model.Pick(r, append([]string{"string"}, model.IntTypes...))}, Val: t}
			}
		}
		return t
	}
	for _, t := range s.Types {
		if t.Kind == "struct" {
			for _, f := range t.Fields {
				if model.Chance(r, 20) {
					f.Type = wrap(f.Type)
				}
			}
		}
	}
}

// aliasChain adds a long chain of aliases, used at some places.
func aliasChain(r *rand.Rand, s *model.Schema) {
	end := &model.VT{Core: model.Pick(r, append([]string{"string", "bool", "any"}, model.IntTypes...))}
	if model.Chance(r, 60) && len(s.Types) > 0 {
		end = &model.VT{Ref: model.Pick(r, s.Types).Name}
	}
	var chain []*model.Type
	for i := range 5 + r.IntN(60) {
		t := &model.Type{Kind: "alias", Name: fmt.Sprintf("Chain%d", i), Type: end}
		end = &model.VT{Ref: t.Name}
		chain = append(chain, t)
	}
	r.Shuffle(len(chain), func(i, j int) { chain[i], chain[j] = chain[j], chain[i] })
	ref := &model.VT{Ref: model.Pick(r, chain).Name}
	var at []place
	for _, p := range places(s) {
		if !strings.HasPrefix(p.what, "alias ") { // it may be at the end of the chain
			at = append(at, p)
		}
	}
	s.Types = append(chain, s.Types...)
	if t := s.Resolve(ref); t.Ref != "" && s.Type(t.Ref).Kind == "enum" {
		ref = &model.VT{Key: ref, Val: &model.VT{Elem: ref}}
	}
	if len(at) > 0 {
		*model.Pick(r, at).vt = ref
	}
}

// A place in a schema that holds a type expression.
type place struct {
	what string
	vt   **model.VT
}

func places(s *model.Schema) (out []place) {
	for _, t := range s.Types {
		switch t.Kind {
		case "alias":
			out = append(out, place{"alias " + t.Name, &t.Type})
		case "struct":
			for _, f := range t.Fields {
				out = append(out, place{"field " + t.Name + "." + f.Name, &f.Type})
			}
		}
	}
	for _, svc := range s.Services {
		for _, m := range svc.Methods {
			if m.Succinct {
				continue
			}
			for _, a := range m.In {
				out = append(out, place{"input " + svc.Name + "." + m.Name + "." + a.Name, &a.Type})
			}
			for _, a := range m.Out {
				out = append(out, place{"output " + svc.Name + "." + m.Name + "." + a.Name, &a.Type})
			}
		}
	}
	return out
}

// nodes are all the places within a type expression where another may stand
// in, except for map keys.
func nodes(t **model.VT) []**model.VT {
	out := []**model.VT{t}
	for p := t; ; {
		switch {
		case (*p).Elem != nil:
			p = &(*p).Elem
		case (*p).Val != nil:
			p = &(*p).Val
		default:
			return out
		}
		out = append(out, p)
	}
}

func maps(t *model.VT) (out []*model.VT) {
	for _, p := range nodes(&t) {
		if (*p).Val != nil {
			out = append(out, *p)
		}
	}
	return out
}

func raw(expr string) *model.VT { return &model.VT{Core: expr} }

// otherCase changes the case of name so that no type has this name.
func otherCase(r *rand.Rand, s *model.Schema, name string) string {
	for range 10 {
		b := []byte(name)
		i := r.IntN(len(b))
		b[i] ^= 0x20
		if n := string(b); strings.EqualFold(n, name) && n != name && s.Type(n) == nil && !contains(model.CoreTypes, n) {
			return n
		}
	}
	return "NoSuchType"
}

func contains(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

// rejected checks that both forms of a schema are rejected.
func rejected(c *vh.Case, what string, s *model.Schema, forms string) {
	if strings.Contains(forms, "r") {
		text := model.Render(s, nil, model.RandomStyle(c.R))
		c.Attach("broken.ridl", text)
		c.Distinct(text)
		got, err := sut.Parse1(text)
		if err == nil {
			c.Failf("accepted", "RIDL with %s is accepted", what)
		} else if got != nil {
			c.Failf("both", "both a schema and an error: %v", err)
		}
	}
	if strings.Contains(forms, "j") {
		text := s.JSON()
		c.Attach("broken.json", text)
		c.Distinct(text)
		if _, err := schema.ParseSchemaJSON([]byte(text)); err == nil {
			c.Failf("json-accepted", "JSON with %s is accepted", what)
		}
	}
}

// withPlaces makes a schema which has types and services.
func withPlaces(c *vh.Case) *model.Schema {
	for {
		s := model.New(c.R, model.Options{MinTypes: 2, Types: 8, Errors: 2, Services: 2})
		if len(places(s)) > 0 {
			return s
		}
	}
}

func c05broken(c *vh.Case) {
	s := withPlaces(c)
	r := c.R
	byKind := map[string][]*model.Type{}
	for _, t := range s.Types {
		byKind[t.Kind] = append(byKind[t.Kind], t)
	}
	pl := model.Pick(r, places(s))
	at := model.Pick(r, nodes(pl.vt))
	what, forms := "", "rj"
	switch r.IntN(14) {
	case 0:
		*at = raw(model.Pick(r, []string{"NoSuchType", "Unknown1", "integer", "str", "object", "uint128", "float", "double", "date", "enum", "struct", "alias", "map", "list", "i", "unknown"}))
		if s.Type((*at).Core) != nil {
			return
		}
		what = "unknown type " + (*at).Core
	case 1:
		t := model.Pick(r, s.Types)
		*at = raw(otherCase(r, s, t.Name))
		what = "type name in the wrong case " + (*at).Core
	case 2:
		n := otherCase(r, s, model.Pick(r, model.CoreTypes))
		if s.Type(n) != nil {
			return
		}
		*at = raw(n)
		what = "core type in the wrong case " + n
	case 3:
		// an invalid key
		bad := []string{"bool", "float32", "float64", "timestamp", "any", "null", "byte", "bigint", "[]string", "map<string,string>", "NoSuchType", "String0", "INT", "map", "[]"}
		for _, t := range byKind["struct"] {
			bad = append(bad, t.Name)
		}
		for _, t := range byKind["enum"] {
			bad = append(bad, otherCase(r, s, t.Name))
		}
		for _, t := range byKind["alias"] {
			if rt := s.Resolve(t.Type); rt.Elem != nil || rt.Val != nil || rt.Core != "" && rt.Core != "string" && !contains(model.IntTypes, rt.Core) ||
				rt.Ref != "" && s.Type(rt.Ref).Kind == "struct" {
				bad = append(bad, t.Name)
			}
		}
		k := model.Pick(r, bad)
		if s.Type(k) != nil && s.Type(k).Kind == "enum" {
			return
		}
		if ms := maps(*pl.vt); len(ms) > 0 && model.Chance(r, 50) {
			model.Pick(r, ms).Key = raw(k)
		} else {
			*at = &model.VT{Key: raw(k), Val: *at}
		}
		what = "map key " + k
	case 4:
		*at = raw(model.Pick(r, []string{"[]", "[][]", "map<string,>", "map<,string>", "map<,>", "map<>", "map<string>", "map<string,[]>", "map<", "map<string", "map<string,string", "map<string,map<string,string>", "map<string,string>>",
			"[]string>", "[string]", "[string", "string[]", "string]", "]string", "<string>", "string>", "map[string]string", "map<string,string>string", "map<string,string,string>", "map<string;string>", "[]map", "map<string,map>",
			"map<map<string,string>,string>", "[1]string", "*string", "string|int", "[]?string"}))
		what = "malformed type expression " + (*at).Core
	case 5:
		*at = raw(model.Pick(r, s.Types).Name + model.Pick(r, []string{"s", "_", "1", ".x"}))
		if s.Type((*at).Core) != nil {
			return
		}
		what = "unknown type " + (*at).Core
	case 6:
		if len(byKind["enum"]) == 0 {
			return
		}
		t := model.Pick(r, byKind["enum"])
		for _, f := range t.Fields {
			f.Explicit = true
		}
		bad := []string{"bool", "float32", "float64", "byte", "any", "null", "timestamp", "bigint", "[]string", "[]int", "map<string,string>", "NoSuchType", "INT", "String", "map", "[]"}
		for _, u := range append(byKind["struct"], byKind["enum"]...) {
			bad = append(bad, u.Name)
		}
		for _, u := range byKind["alias"] { // of what is neither a string nor an integer
			switch end := s.Resolve(u.Type); {
			case end.Elem != nil, end.Key != nil, end.Ref != "", end.Core == "bool", end.Core == "float64", end.Core == "any", end.Core == "bigint", end.Core == "timestamp":
				bad = append(bad, u.Name, u.Name)
			}
		}
		b := model.Pick(r, bad)
		t.Type = raw(b)
		what = "enum based on " + b
	case 7, 8, 9:
		// a cycle of aliases
		n := 1 + r.IntN(5)
		if model.Chance(r, 20) {
			n = 6 + r.IntN(60)
		}
		var cycle []*model.Type
		for i := range n {
			cycle = append(cycle, &model.Type{Kind: "alias", Name: fmt.Sprintf("Cycle%d", i)})
		}
		for i, t := range cycle {
			t.Type = &model.VT{Ref: cycle[(i+1)%n].Name}
		}
		if model.Chance(r, 30) {
			// the way into it is a chain
			to := r.IntN(n)
			for i := range 1 + r.IntN(12) {
				cycle = append(cycle, &model.Type{Kind: "alias", Name: fmt.Sprintf("Cycle%d", n+i), Type: &model.VT{Ref: cycle[to].Name}})
				to = n + i
			}
		}
		ring := n
		n = len(cycle)
		r.Shuffle(n, func(i, j int) { cycle[i], cycle[j] = cycle[j], cycle[i] })
		k := r.IntN(n + 1)
		s.Types = append(append(append([]*model.Type{}, cycle[:k]...), s.Types...), cycle[k:]...)
		what = fmt.Sprintf("a cycle of %d aliases", ring)
		if model.Chance(r, 30) {
			*at = &model.VT{Key: &model.VT{Ref: cycle[0].Name}, Val: *at}
			what += " used as a key"
		} else if model.Chance(r, 40) {
			*at = &model.VT{Ref: cycle[0].Name}
			what += " which is used"
		}
		c.Count("alias cycles", 1)
	case 10:
		// methods' succinct arguments are type references as well
		if len(s.Services) == 0 {
			return
		}
		svc := model.Pick(r, s.Services)
		m := model.Pick(r, svc.Methods)
		in, out := "NoSuchType", "NoSuchType"
		what = "an unknown type in a succinct method"
		if structs := byKind["struct"]; len(structs) > 0 && model.Chance(r, 75) {
			// only one of the two is wrong, and only by its case or its end
			good := model.Pick(r, structs).Name
			bad := otherCase(r, s, model.Pick(r, structs).Name)
			if model.Chance(r, 20) {
				bad = good + "s"
			}
			if s.Type(bad) != nil {
				return
			}
			in, out = bad, good
			if model.Chance(r, 50) {
				in, out = good, bad
			}
			what = "a succinct method of (" + in + ") => (" + out + ")"
		}
		m.Succinct = true
		m.In = []*model.Arg{{Name: model.LowerFirst(in), Type: &model.VT{Ref: in}}}
		m.Out = []*model.Arg{{Name: model.LowerFirst(out), Type: &model.VT{Ref: out}}}
	case 11:
		// an empty expression
		*at = raw("")
		what = "an empty type expression at " + pl.what
	case 12:
		// a whole declaration is gone
		t := model.Pick(r, s.Types)
		used := false
		see := func(name string) { used = used || name == t.Name }
		for i := range s.Types {
			if s.Types[i] == t {
				s.Types = append(s.Types[:i:i], s.Types[i+1:]...)
				break
			}
		}
		for _, p := range places(s) {
			(*p.vt).Refs(see)
		}
		for _, svc := range s.Services {
			for _, m := range svc.Methods {
				for _, a := range append(append([]*model.Arg{}, m.In...), m.Out...) {
					a.Type.Refs(see)
				}
			}
		}
		if !used {
			return
		}
		what = "no declaration of " + t.Name
	default:
		// expressions as JSON can spell them, but not RIDL
		*at = raw(model.Pick(r, []string{" ", " int", "int ", "map<string, int>", "map<string ,int>", "[] int", "\nint", "int\x00", "\"int\"", "int,", "map<string,string>,", "map <string,int>", "MAP<string,int>", "Map<string,int>"}))
		what, forms = fmt.Sprintf("type expression %q", (*at).Core), "j"
	}
	c.Count("broken expressions", 1)
	if c.Index < 40 {
		c.Sample(map[string]any{"case": c.Index, "broken": what, "at": pl.what})
	}
	rejected(c, what+" at "+pl.what, s, forms)
}

// c05random judges random strings of type syntax.
func c05random(c *vh.Case) {
	r := c.R
	s := &model.Schema{Types: []*model.Type{
		{Kind: "alias", Name: "IdA", Type: &model.VT{Core: "string"}},
		{Kind: "alias", Name: "KindA", Type: &model.VT{Ref: "KindB"}},
		{Kind: "alias", Name: "KindB", Type: &model.VT{Ref: "Kind"}},
		{Kind: "alias", Name: "Str", Type: &model.VT{Ref: "Point"}},
		{Kind: "enum", Name: "Kind", Type: &model.VT{Core: "uint8"}, Fields: []*model.Field{{Name: "A", Value: "0"}}},
		{Kind: "struct", Name: "Point", Fields: []*model.Field{{Name: "x", Type: &model.VT{Core: "int"}}}},
		{Kind: "struct", Name: "Holder", Fields: []*model.Field{{Name: "field", Type: &model.VT{Core: "int"}}}},
	}}
	field := s.Types[6].Fields[0]
	names := []string{"int", "string", "Kind", "KindA", "Point", "bool", "uint64", "IdA", "Str", "bigint", "timestamp", "any", "Nope", "kind"}
	var gen func(depth int) string
	gen = func(depth int) string {
		switch {
		case depth > 0 && model.Chance(r, 30):
			return "[]" + gen(depth-1)
		case depth > 0 && model.Chance(r, 40):
			return "map<" + gen(depth/3) + "," + gen(depth-1) + ">"
		}
		return model.Pick(r, names)
	}
	for range 8 {
		expr := gen(4)
		if model.Chance(r, 50) {
			// mutate it
			pieces := []string{"[]", "[", "]", "map<", "<", ">", ",", "string", "Kind", "map", "Point"}
			for range 1 + r.IntN(2) {
				i := r.IntN(len(expr) + 1)
				switch r.IntN(5) {
				case 3, 4:
					// one character more, less or instead of another
					k := min(i+r.IntN(2), len(expr))
					if r.IntN(3) == 0 {
						expr = expr[:i] + expr[k:]
					} else {
						expr = expr[:i] + model.Pick(r, []string{"x", "1", "<", ">", "[", "]", ",", "s", "K", "_"}) + expr[k:]
					}
				case 0:
					expr = expr[:i] + model.Pick(r, pieces) + expr[i:]
				case 1:
					k := i + r.IntN(len(expr)-i+1)
					expr = expr[:i] + expr[k:]
				default:
					expr = expr[:i] + model.Pick(r, pieces)
				}
			}
		}
		want, ok := refParse(s, expr)
		if ok && want.Ref == "Holder" {
			continue
		}
		field.Type = raw(expr)
		text := s.JSON()
		c.Attach("random.json", text)
		c.Distinct(expr)
		got, err := schema.ParseSchemaJSON([]byte(text))
		judge := func(form string, err error) bool {
			if ok && err != nil {
				c.Failf("random-rejected", "%s: expression %q is well formed, but rejected: %v", form, expr, err)
			} else if !ok && err == nil {
				c.Failf("random-accepted", "%s: expression %q is not well formed, but accepted", form, expr)
			}
			return ok && err == nil
		}
		if judge("JSON", err) {
			field.Type = want
			c.Count("random expressions accepted", 1)
			if _, err := sut.CheckResolved(got, s); err != nil {
				c.Failf("random-resolved", "JSON: %v", err)
			}
			if k := sut.JSON(got); k != text {
				c.Failf("random-json", "%s", vh.Diff(text, k))
			}
		} else {
			c.Count("random expressions rejected", 1)
		}
		field.Type = raw(expr)
		rtext := model.Render(s, nil, model.PlainStyle())
		c.Attach("random.ridl", rtext)
		got, err = sut.Parse1(rtext)
		if judge("RIDL", err) {
			field.Type = want
			if _, err := sut.CheckResolved(got, s); err != nil {
				c.Failf("random-resolved", "RIDL: %v", err)
			}
		}
	}
}

// refParse is the reference for type expressions.
func refParse(s *model.Schema, expr string) (*model.VT, bool) {
	var parse func() *model.VT
	pos := 0
	eat := func(tok string) bool {
		if strings.HasPrefix(expr[pos:], tok) {
			pos += len(tok)
			return true
		}
		return false
	}
	word := func() string {
		start := pos
		for pos < len(expr) && (expr[pos] >= 'a' && expr[pos] <= 'z' || expr[pos] >= 'A' && expr[pos] <= 'Z' || expr[pos] >= '0' && expr[pos] <= '9') {
			pos++
		}
		return expr[start:pos]
	}
	named := func(w string) *model.VT {
		if contains(model.CoreTypes, w) {
			return &model.VT{Core: w}
		}
		if s.Type(w) != nil {
			return &model.VT{Ref: w}
		}
		return nil
	}
	parse = func() *model.VT {
		if eat("[]") {
			if e := parse(); e != nil {
				return &model.VT{Elem: e}
			}
			return nil
		}
		w := word()
		if w == "map" && eat("<") {
			k := named(word())
			if k == nil || !eat(",") {
				return nil
			}
			if k.Ref != "" {
				t := s.Resolve(k)
				if t.Ref == "" || s.Type(t.Ref).Kind != "enum" {
					return nil
				}
			} else if k.Core != "string" && !contains(model.IntTypes, k.Core) {
				return nil
			}
			v := parse()
			if v == nil || !eat(">") {
				return nil
			}
			return &model.VT{Key: k, Val: v}
		}
		return named(w)
	}
	t := parse()
	return t, t != nil && pos == len(expr)
}
