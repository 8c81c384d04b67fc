package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"github.com/webrpc/webrpc/schema"

	"verif/harness/internal/cli"
	"verif/harness/internal/model"
	"verif/harness/internal/sut"
	"verif/harness/internal/vh"
)

var c07 = &vh.Prop{
	ID: "C07", Quick: 16000, Thorough: 500000,
	Rule: "random error catalogues with near misses, or with exactly one broken rule at a random place, as RIDL (also split over files) and JSON; the built-in errors as a template sees them; distinct by document",
	Require: map[string]int{
		"valid catalogues": 2000, "names in whitespace": 500, "valid across files": 300, "broken across files": 500,
		"broken: code": 500, "broken: name": 500, "broken: status": 300, "broken: message": 100, "broken: duplicate code": 500, "broken: duplicate name": 500, "broken: method": 500,
	},
	Run: func(c *vh.Case) {
		switch {
		case c.Index == 0 || c.Index == 1:
			c07builtin(c)
		case c.Index%4 == 1:
			c07valid(c)
		case c.Index%4 == 2:
			c07files(c)
		default:
			c07broken(c)
		}
	},
}

func newError(c *vh.Case, s *model.Schema, name string) *model.Error {
	used := map[int]bool{}
	for _, e := range s.Errors {
		used[e.Code] = true
	}
	e := &model.Error{Name: name, Message: "m", Status: 400 + c.R.IntN(200), Explicit: true}
	for e.Code = 1 + c.R.IntN(5000); used[e.Code]; e.Code++ {
	}
	return e
}

func taken(s *model.Schema, name string) bool {
	for _, e := range s.Errors {
		if strings.EqualFold(e.Name, name) {
			return true
		}
	}
	return false
}

func c07valid(c *vh.Case) {
	s := rich(c)
	r := c.R
	for range 1 + r.IntN(4) {
		e := model.Pick(r, s.Errors)
		switch r.IntN(7) {
		case 0:
			n := model.Pick(r, []string{"Web", "Webrp", "WebRP", "MyWebrpc", "Wwebrpc", "EWebrpcError", "Webapi", "W"})
			if !taken(s, n) {
				for _, m := range allMethods(s) {
					for i := range m.Errors {
						if m.Errors[i] == e.Name {
							m.Errors[i] = n
						}
					}
				}
				e.Name = n
			}
		case 1:
			n := model.Pick(r, []int{1, 2147483647, 2147483646, 65536, 256})
			free := true
			for _, x := range s.Errors {
				free = free && x.Code != n
			}
			if free {
				e.Code = n
			}
		case 2:
			e.Status, e.Explicit = model.Pick(r, []int{400, 599, 500, 499, 418}), true
		case 3: // alike but for the code and the name
			n := e.Name + model.Pick(r, []string{"X", "0", "s", "_"})
			if !taken(s, n) {
				x := newError(c, s, n)
				x.Message, x.Status = e.Message, e.Status
				s.Errors = insert(r, s.Errors, x)
			}
		case 4: // all errors of a method
			m := model.Pick(r, allMethods(s))
			m.Errors = nil
			for _, x := range s.Errors {
				m.Errors = append(m.Errors, x.Name)
			}
			r.Shuffle(len(m.Errors), func(i, j int) { m.Errors[i], m.Errors[j] = m.Errors[j], m.Errors[i] })
		case 5: // codes which differ in their high bits only
			x := newError(c, s, "Shifted"+strconv.Itoa(r.IntN(100)))
			free := !taken(s, x.Name)
			x.Code = e.Code + 1<<(8+r.IntN(16))
			for _, y := range s.Errors {
				free = free && y.Code != x.Code
			}
			if free && x.Code < 1<<31 {
				s.Errors = insert(r, s.Errors, x)
			}
		default:
			e.Message = model.Pick(r, []string{"0", "webrpc", "HTTP", "errors", "é", " ", "\""})
		}
	}
	c.Count("valid catalogues", 1)
	acceptedBoth(c, s)
	c07padded(c, s)
}

// c07padded gives JSON whitespace around names of errors, which isn't part of them.
func c07padded(c *vh.Case, s *model.Schema) {
	if !model.Chance(c.R, 30) {
		return
	}
	r := c.R
	text := s.JSONRaw()
	pad := func(text, name string) string {
		spaces := []string{" ", "\\t", "\\n", "  ", "\\r\\n", ""}
		from := fmt.Sprintf("\"name\": %q,\n   \"message\"", name)
		if strings.Count(text, from) != 1 {
			return ""
		}
		before, after := model.Pick(r, spaces), model.Pick(r, spaces)
		return strings.Replace(text, from, fmt.Sprintf("\"name\": \"%s%s%s\",\n   \"message\"", before, name, after), 1)
	}
	for _, e := range s.Errors {
		if model.Chance(r, 40) {
			if p := pad(text, e.Name); p != "" && p != text {
				text = p
				c.Count("names in whitespace", 1)
			}
		}
	}
	sut.AcceptedJSON(c, text, s)

	e := model.Pick(r, s.Errors)
	twin := s.Clone()
	n := "PaddedTwin"
	twin.Errors = insert(r, twin.Errors, newError(c, s, n))
	if text = pad(twin.JSONRaw(), n); text == "" {
		return
	}
	what := ""
	switch r.IntN(3) {
	case 0:
		text, what = strings.Replace(text, n, upperFirst(caseOf(r, e.Name)), 1), "a second error "+e.Name
	case 1:
		text, what = strings.Replace(text, n, "Webrpc"+n, 1), "error name Webrpc"+n
	default:
		text, what = strings.Replace(text, n, "paddedTwin", 1), "error name paddedTwin"
	}
	c.Attach("padded.json", text)
	if _, err := schema.ParseSchemaJSON([]byte(text)); err == nil {
		c.Failf("json-accepted", "JSON with %s within whitespace is accepted", what)
	}
}

func allMethods(s *model.Schema) (out []*model.Method) {
	for _, svc := range s.Services {
		out = append(out, svc.Methods...)
	}
	return out
}

const mark = 1987654321

func c07broken(c *vh.Case) {
	s := rich(c)
	r := c.R
	e := model.Pick(r, s.Errors)
	what, kind, forms, raw := "", "", "rj", ""
	use := func(from, to string) { // methods name it, too
		if model.Chance(r, 50) {
			for _, m := range allMethods(s) {
				for i := range m.Errors {
					if m.Errors[i] == from {
						m.Errors[i] = to
					}
				}
			}
		} else {
			for _, m := range allMethods(s) {
				var left []string
				for _, n := range m.Errors {
					if n != from {
						left = append(left, n)
					}
				}
				m.Errors = left
			}
		}
	}
	code := -1
	switch r.IntN(12) {
	case 0: // code
		kind, code = "code", mark
		raw = model.Pick(r, []string{"0", "00", "-1", "-0", "-2147483648", "4294967296", "4294967297", "2147483648", "9223372036854775808", "18446744073709551617", "99999999999999999999", "1.5", "1e3", "0x10", "+1", "1_000", "one"})
		if !strings.HasPrefix(raw, "-") && (raw == "4294967296" || raw == "4294967297" || raw == "2147483648") {
			forms = "r" // JSON numbers may be that large
		}
		if strings.ContainsAny(raw, "e") && raw == "1e3" || raw == "00" {
			forms = "r"
		}
		what = "code " + raw
	case 1: // the same code, written otherwise
		kind, code = "duplicate code", mark
		forms = "r"
		raw = fmt.Sprintf("%s%d", strings.Repeat("0", 1+r.IntN(3)), model.Pick(r, s.Errors).Code)
		if n, _ := strconv.Atoi(raw); n == e.Code {
			return
		}
		what = "a second code " + raw
	case 2, 3: // duplicate code
		kind = "duplicate code"
		x := newError(c, s, "Twin")
		if taken(s, "Twin") {
			return
		}
		x.Code = e.Code
		s.Errors = insert(r, s.Errors, x)
		what = fmt.Sprintf("a second code %d", x.Code)
	case 4, 5: // duplicate name
		kind = "duplicate name"
		n := upperFirst(caseOf(r, e.Name))
		x := newError(c, s, n)
		if model.Chance(r, 30) { // which is the same
			*x = *e
			x.Name = n
		}
		s.Errors = insert(r, s.Errors, x)
		what = "a second error " + n
	case 6: // name
		kind = "name"
		from := e.Name
		e.Name = model.Pick(r, []string{strings.ToLower(e.Name[:1]) + e.Name[1:], "_Foo", "1Foo", "foo", "Webrpc", "WebrpcFoo", "WEBRPCFoo", "webrpcFoo", "WebRPCError", "WebrpcEndpoint", "Webrpc1", "WebrpcServerPanic"})
		if e.Name == from {
			return
		}
		use(from, e.Name)
		if model.Chance(r, 40) { // in any mixture of cases
			e.Name = "W" + caseOf(r, "ebrpc") + model.Pick(r, []string{"", "Foo", "s", "1", "_x"})
		}
		what = "error name " + e.Name
	case 7: // message
		kind, forms = "message", "j"
		e.Message = ""
		what = "an empty message"
		if model.Chance(r, 30) {
			kind, what = "name", "an empty name"
			e.Message = "x"
			use(e.Name, "")
			e.Name = ""
		}
	case 8: // status
		kind = "status"
		e.Explicit = true
		e.Status = model.Pick(r, []int{0, 1, 99, 100, 200, 302, 399, 600, 601, 999, 1000, 4000, 65536 + 404, 1<<31 - 1})
		what = fmt.Sprintf("status %d", e.Status)
		if model.Chance(r, 30) {
			e.Status = mark
			raw = model.Pick(r, []string{"-400", "-1", "4294967696", "18446744073709552016", "400.5", "4xx", "0x190", "+400"})
			what = "status " + raw
		}
	case 9: // wrong case
		m := model.Pick(r, allMethods(s))
		n := caseOf(r, e.Name)
		if n == e.Name {
			return
		}
		kind, what = "method", "a method with error "+n
		m.Errors = insert(r, m.Errors, n)
	default: // undefined
		m := model.Pick(r, allMethods(s))
		n := model.Pick(r, []string{"NoSuchError", e.Name + "X", e.Name[:len(e.Name)-1], model.Pick(r, s.Types).Name, "WebrpcBadRoute", "WebrpcEndpoint", "errors", strconv.Itoa(e.Code), s.Services[0].Name})
		if n == "" {
			return
		}
		if model.Chance(r, 10) {
			n, forms = model.Pick(r, []string{" " + e.Name, e.Name + " ", "", "\t" + e.Name + "\n"}), "j"
		}
		for _, x := range s.Errors {
			if x.Name == n {
				return
			}
		}
		kind, what = "method", "a method with error "+n
		if model.Chance(r, 15) && n != "" {
			// there are no errors at all
			s.Errors = nil
			for _, x := range allMethods(s) {
				x.Errors = nil
			}
			what += " where none is defined"
		}
		m.Errors = insert(r, m.Errors, n)
	}
	if code >= 0 {
		e.Code = mark
	}
	c.Count("broken: "+kind, 1)
	if c.Index < 60 {
		c.Sample(map[string]any{"case": c.Index, "broken": what})
	}
	if strings.Contains(forms, "r") {
		text := model.Render(s, nil, model.RandomStyle(r))
		if raw != "" {
			text = strings.ReplaceAll(text, strconv.Itoa(mark), raw)
		}
		c.Attach("broken.ridl", text)
		c.Distinct(text)
		if _, err := sut.Parse1(text); err == nil {
			c.Failf("accepted", "RIDL with %s is accepted", what)
		}
	}
	if strings.Contains(forms, "j") {
		text := s.JSONRaw()
		if raw != "" {
			text = strings.ReplaceAll(text, strconv.Itoa(mark), raw)
		}
		c.Attach("broken.json", text)
		c.Distinct(text)
		if _, err := schema.ParseSchemaJSON([]byte(text)); err == nil {
			c.Failf("json-accepted", "JSON with %s is accepted", what)
		}
	}
}

// c07files spreads the errors over files.
func c07files(c *vh.Case) {
	s := rich(c)
	r := c.R
	lib := &model.Schema{}
	own := s.Clone()
	own.Errors = nil
	for i, e := range s.Errors {
		e := *e
		if i == 0 || model.Chance(r, 50) {
			lib.Errors = append(lib.Errors, &e)
		} else {
			own.Errors = append(own.Errors, &e)
		}
	}
	imp := model.Import{Path: "lib.ridl"}
	listed := map[string]bool{}
	if model.Chance(r, 50) {
		for _, e := range lib.Errors {
			if model.Chance(r, 60) {
				imp.Members = append(imp.Members, e.Name)
			}
		}
		if len(imp.Members) == 0 {
			imp.Members = []string{lib.Errors[0].Name}
		}
	}
	for _, e := range lib.Errors {
		listed[e.Name] = len(imp.Members) == 0
	}
	for _, n := range imp.Members {
		listed[n] = true
	}
	want := own.Clone()
	var imported []*model.Error
	for _, e := range lib.Errors {
		if listed[e.Name] {
			imported = append(imported, e)
		}
	}
	want.Errors = append(imported, own.Errors...)
	known := map[string]bool{}
	for _, e := range want.Errors {
		known[e.Name] = true
	}
	what := ""
	for _, m := range allMethods(own) {
		for _, n := range m.Errors {
			if !known[n] {
				what = "a method with error " + n + ", which isn't imported"
			}
		}
	}
	if what == "" && model.Chance(r, 70) {
		e := model.Pick(r, lib.Errors)
		switch r.IntN(3) {
		case 0:
			if !listed[e.Name] {
				return
			}
			x := newError(c, s, "Twin")
			if taken(s, "Twin") {
				return
			}
			x.Code = e.Code
			own.Errors = insert(r, own.Errors, x)
			what = "a code that is that of an imported error"
		case 1:
			if !listed[e.Name] {
				return
			}
			own.Errors = insert(r, own.Errors, newError(c, s, upperFirst(caseOf(r, e.Name))))
			what = "a name that is that of an imported error"
		default:
			// the imported file for itself is wrong
			x := newError(c, s, "Twin")
			if taken(s, "Twin") {
				return
			}
			x.Code = e.Code
			if model.Chance(r, 50) {
				x.Code = 0
			}
			lib.Errors = insert(r, lib.Errors, x)
			what = "an imported file with a broken catalogue"
		}
	}
	files := map[string]string{
		"main.ridl": model.Render(own, []model.Import{imp}, model.RandomStyle(r)),
		"lib.ridl":  model.Render(lib, nil, model.RandomStyle(r)),
	}
	attachAll(c, files)
	got, err := sut.Parse(files, "main.ridl")
	if what == "" {
		c.Count("valid across files", 1)
		if err != nil {
			c.Failf("rejected", "well-formed document is rejected: %v", err)
			return
		}
		if j := sut.JSON(got); j != want.JSON() {
			c.Failf("meaning", "the schema is not what the documents say: %s", vh.Diff(want.JSON(), j))
		}
		return
	}
	c.Count("broken across files", 1)
	if err == nil {
		c.Failf("accepted", "%s is accepted", what)
	}
}

// The errors which every generated client and server knows. Their values must
// not change, as clients and servers of different versions exchange them.
var builtinErrors = []struct {
	code   int
	name   string
	status int
}{
	{0, "WebrpcEndpoint", 400}, {-1, "WebrpcRequestFailed", 400}, {-2, "WebrpcBadRoute", 404}, {-3, "WebrpcBadMethod", 405},
	{-4, "WebrpcBadRequest", 400}, {-5, "WebrpcBadResponse", 500}, {-6, "WebrpcServerPanic", 500}, {-7, "WebrpcInternalError", 500},
	{-8, "WebrpcClientAborted", 400}, {-9, "WebrpcStreamLost", 400}, {-10, "WebrpcStreamFinished", 200},
}

const dumpErrors = `{{define "main"}}[{{range $i, $e := .WebrpcErrors}}{{if $i}},{{end}}{"code":{{$e.Code}},"name":"{{$e.Name}}","message":"{{$e.Message}}","httpStatus":{{$e.HTTPStatus}}}{{end}}]{{end}}`

// c07builtin looks at the built-in errors, and that they are the same whatever
// the schema declares.
func c07builtin(c *vh.Case) {
	if cli.Path() == "" {
		return
	}
	s := rich(c)
	dir, done := cli.Dir()
	defer done()
	doc := "webrpc = v1\n"
	if c.Index == 1 {
		doc = model.Render(s, nil, model.RandomStyle(c.R))
	}
	cli.Write(dir, map[string]string{"a.ridl": doc, "t/main.go.tmpl": dumpErrors})
	res := cli.Run(dir, cli.Env(dir), "-schema=a.ridl", "-target=./t")
	c.Attach("output", res.Out+"\n"+res.Err)
	if res.Code != 0 {
		c.Failf("builtin", "webrpc-gen fails")
		return
	}
	var list []struct {
		Code       int
		Name       string
		Message    string
		HTTPStatus int
	}
	if err := json.Unmarshal([]byte(res.Out), &list); err != nil {
		c.Failf("builtin", "%v", err)
		return
	}
	names, codes := map[string]bool{}, map[int]bool{}
	for _, e := range list {
		c.Count("built-in errors", 1)
		if e.Code > 0 || codes[e.Code] || names[strings.ToLower(e.Name)] || !strings.HasPrefix(e.Name, "Webrpc") || e.Message == "" {
			c.Failf("builtin", "built-in error %+v", e)
		}
		codes[e.Code], names[strings.ToLower(e.Name)] = true, true
	}
	for _, want := range builtinErrors {
		found := false
		for _, e := range list {
			found = found || e.Code == want.code && e.Name == want.name && e.HTTPStatus == want.status
		}
		if !found {
			c.Failf("builtin", "built-in error %+v is missing or has changed", want)
		}
	}
}
