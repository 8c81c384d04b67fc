package main

import (
	"fmt"
	"math/rand/v2"
	"regexp"
	"strings"

	"verif/harness/internal/model"
	"verif/harness/internal/sut"
	"verif/harness/internal/vh"
)

var c23 = &vh.Prop{
	ID: "C23", Quick: 4000, Thorough: 120000,
	Rule:    "random well-formed documents; in each, a word or symbol is inserted between any two tokens, a line is inserted, a word is removed, repeated or misspelt, and the result must be rejected or differ; distinct by document",
	Require: map[string]int{"rejected": 50000, "accepted with a difference": 2000, "mutants: insert": 20000, "mutants: remove": 10000, "mutants: line": 10000, "mutants: repeat": 3000, "mutants: misspell": 3000, "mutants of imported files": 3000},
	Run:     c23run,
}

var strayWords = []string{"foo", "x1", "42", "stream", "map", "errors", "struct", "enum", "type", "service", "error", "webrpc", "name", "version", "basepath", "HTTP", "int", "string", `"str"`, `""`, "v1", "Foo", "message", "proxy", "a", "x", "Z", "7"}

var straySymbols = []string{"?", "+", "-", "=", "=>", ":", "(", ")", "()", "[", "]", "[]", "<", ">", "<>", "!", "@", "$", ".", "/", "\\", "{", "}", ";", "*", "&", "%", "~", "`", "'", "|", "^", ",", "_", "é", "\x00", "\""}

var strayLines = []string{
	"foo", "foo bar", "foo = bar", "- foo", "- foo: int", "- foo()", "+ foo = bar", "@foo", "@foo:bar", "@foo:\"bar\"", "struct", "enum", "service", "error", "type", "import foo", "webrpc = v1", "name = other", "version = other",
	"-", "+", "@", "=>", "(", ")", "$", "?", "Struct Foo", "structs Foo", "HTTP 400", "errors Foo", "\"text\"", "- ", "- foo?: int", "- foo = 1", "stream", "- stream", "- stream foo()", "- \"foo\"", "=", ":", "// comment", "/* */", "-- foo", "* foo", "- foo: struct", "- foo int", "proxy", "- proxy foo", "%", "é", "| foo", "|", ", foo", "^", "- foo | bar", ".", "..", "[]", "<>", "?", "!", "~", "_",
}

func c23run(c *vh.Case) {
	// small, so that many places are tried
	opts := model.Options{Types: 4, Errors: 2, Services: 2}
	s := model.New(c.R, opts)
	st := model.RandomStyle(c.R)
	st.Comments = model.Chance(c.R, 50)
	if st.Comments {
		c12comments(c.R, s)
	}
	main := "main.ridl"
	files := map[string]string{}
	target := main
	if c.Index%5 == 0 { // the mutant is in an imported file
		target = "lib.ridl"
		lib := &model.Schema{Types: s.Types, Errors: s.Errors}
		own := &model.Schema{Name: s.Name, Version: s.Version, BasePath: s.BasePath, Services: s.Services}
		files[target] = model.Render(lib, nil, st)
		files[main] = model.Render(own, []model.Import{{Path: "./lib.ridl"}}, st)
	} else {
		files[main] = model.Render(s, nil, st)
	}
	text := files[target]
	attachAll(c, files)
	base, err := sut.Parse(files, main)
	if err != nil {
		c.Failf("rejected", "well-formed document is rejected: %v", err)
		return
	}
	before := sut.JSON(base)
	toks := lex(text)

	try := func(kind, what, mutant string) bool {
		if mutant == text {
			return true
		}
		m := map[string]string{}
		for k, v := range files {
			m[k] = v
		}
		m[target] = mutant
		c.Count("mutants: "+kind, 1)
		if target != main {
			c.Count("mutants of imported files", 1)
		}
		got, err := sut.Parse(m, main)
		if err != nil {
			c.Count("rejected", 1)
			return true
		}
		if sut.JSON(got) != before {
			c.Count("accepted with a difference", 1)
			return true
		}
		c.Attach("mutant.ridl", mutant)
		c.Failf("ignored", "%s: accepted, and the schema is the same: %s", what, vh.Diff(text, mutant))
		return false
	}

	for range 24 {
		w := model.Pick(c.R, strayWords)
		if model.Chance(c.R, 40) {
			w = model.Pick(c.R, straySymbols)
		}
		at, ok := boundary(c.R, text, toks)
		if !ok {
			break
		}
		line := text[strings.LastIndex(text[:at], "\n")+1:]
		if prefix := line[:len(line)-len(text)+at]; (w == "," || w == "|") && strings.LastIndex(prefix, "(") > strings.LastIndex(prefix, ")") {
			continue // separators of arguments may be repeated
		}
		if w == "/" && strings.HasPrefix(strings.TrimSpace(line), "basepath") {
			continue // slashes at the ends of the basepath are the same with and without
		}
		if !try("insert", fmt.Sprintf("%q is inserted", w), text[:at]+pad(c.R)+w+pad(c.R)+text[at:]) {
			return
		}
	}
	var words []tok
	for _, t := range toks {
		if t.kind == "word" || t.kind == "quoted" {
			words = append(words, t)
		}
	}
	for range 12 {
		t := model.Pick(c.R, words)
		if !try("remove", fmt.Sprintf("%q is removed", text[t.start:t.end]), text[:t.start]+text[t.end:]) {
			return
		}
	}
	for range 4 {
		t := model.Pick(c.R, words)
		w := text[t.start:t.end]
		if isImport(text, t.start) || w == "import" { // begins an import block without entries
			continue
		}
		if !try("repeat", fmt.Sprintf("%q is repeated", w), text[:t.end]+" "+w+text[t.end:]) {
			return
		}
	}
	for range 4 {
		t := model.Pick(c.R, words)
		w := text[t.start:t.end]
		if t.kind != "word" || isImport(text, t.start) {
			continue
		}
		wrong := misspell(c.R, w)
		if leadingZeros.ReplaceAllString(w, "$1") == leadingZeros.ReplaceAllString(wrong, "$1") {
			continue // leading zeros mean nothing
		}
		if !try("misspell", fmt.Sprintf("%q is misspelt", w), text[:t.start]+wrong+text[t.end:]) {
			return
		}
	}
	lines := strings.SplitAfter(text, "\n")
	for range 12 {
		i := c.R.IntN(len(lines) + 1)
		at := len(strings.Join(lines[:i], ""))
		l := model.Pick(c.R, strayLines)
		if target != main && (strings.HasPrefix(l, "name") || strings.HasPrefix(l, "version")) {
			continue // imported files may have their own
		}
		ins := model.Pick(c.R, []string{"", "", "  ", "    "}) + l + "\n"
		if at == len(text) && !strings.HasSuffix(text, "\n") {
			ins = "\n" + ins
		}
		if !try("line", fmt.Sprintf("the line %q is inserted", l), text[:at]+ins+text[at:]) {
			return
		}
	}
}

// boundary picks a place between tokens which isn't within a comment. In a
// line that holds only a comment, it is the start.
func boundary(r *rand.Rand, text string, toks []tok) (int, bool) {
	for range 100 {
		t := toks[r.IntN(len(toks))]
		if t.kind == "comment" || t.kind == "space" {
			continue
		}
		if model.Chance(r, 50) || t.kind == "newline" {
			return before(text, t.start)
		}
		return t.end, true
	}
	return 0, false
}

func before(text string, at int) (int, bool) {
	// not after a comment on the same line
	line := text[strings.LastIndexByte(text[:at], '\n')+1 : at]
	for _, t := range lex(line) {
		if t.kind == "comment" {
			return at - len(line) + t.start, true
		}
	}
	return at, true
}

// isImport returns true if the place is within the path of an import.
func isImport(text string, at int) bool {
	line := text[strings.LastIndexByte(text[:at], '\n')+1:]
	line, _, _ = strings.Cut(line, "\n")
	return strings.Contains(line, "lib.ridl") || strings.HasPrefix(strings.TrimSpace(line), "import")
}

var leadingZeros = regexp.MustCompile(`^0+([0-9]+)$`)

func misspell(r *rand.Rand, w string) string {
	b := []byte(w)
	i := r.IntN(len(b))
	switch r.IntN(4) {
	case 0:
		return w[:i] + w[i+1:]
	case 1:
		return w[:i] + string(b[i]) + w[i:]
	case 2:
		return caseOf(r, w)
	}
	return w[:i] + "q" + w[i:]
}

func pad(r *rand.Rand) string {
	if model.Chance(r, 75) {
		return " "
	}
	return ""
}
