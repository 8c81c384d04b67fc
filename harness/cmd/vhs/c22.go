package main

import (
	"fmt"
	"path"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"verif/harness/internal/model"
	"verif/harness/internal/sut"
	"verif/harness/internal/vh"
)

var c22 = &vh.Prop{
	ID: "C22", Quick: 3000, Thorough: 150000,
	Rule: "random well-formed documents, alone or imported through chains of files; at random places a symbol which is nowhere allowed is injected, a quote is left open, the document is cut off, or a word or symbol is inserted or removed; the reported place and chain are compared with where that was; distinct by document",
	Require: map[string]int{
		"places: symbol": 20000, "places: symbol in an imported file": 5000, "places: open quote": 2000, "places: cut off": 4000, "places: other": 20000, "places: wrong word": 1000,
		"chains of files": 10000, "chains of 3 and more": 1000, "columns compared": 50000, "places with non-ASCII text before": 100, "places: first line": 50, "places: last line": 100,
	},
	Run: c22run,
}

var position = regexp.MustCompile(`^(?s)(\d+):(\d+): error near ("(?:[^"\\]|\\.)*"): (.*)$`)

var metaLine = regexp.MustCompile(`^\s*\+[^=]*=`)

type errPlace struct {
	line, col int
	near      string
}

// parseError takes an error message apart. The chain is nil if there is none.
func parseError(msg string) (p errPlace, syntax bool, chain []string) {
	msg, stack, ok := strings.Cut(msg, "\nstack trace:\n")
	if ok {
		chain = []string{}
		for _, l := range strings.Split(stack, "\n") {
			l = strings.TrimSpace(l)
			l = strings.TrimPrefix(l, "- ")
			chain = append(chain, strings.TrimPrefix(l, "/"))
		}
	}
	m := position.FindStringSubmatch(msg)
	if m == nil {
		return p, false, chain
	}
	p.line, _ = strconv.Atoi(m[1])
	p.col, _ = strconv.Atoi(m[2])
	near, err := strconv.Unquote(m[3])
	if err != nil {
		return p, false, chain
	}
	p.near = near
	return p, true, chain
}

func c22run(c *vh.Case) {
	opts := model.Options{Types: 5, Errors: 2, Services: 2}
	s := model.New(c.R, opts)
	for _, svc := range s.Services {
		for _, m := range svc.Methods {
			if m.Succinct || m.RawSig != "" || !model.Chance(c.R, 30) {
				continue
			}
			for i := range 1 + c.R.IntN(6) { // more arguments
				a := &model.Arg{Name: fmt.Sprintf("more%d", i), Type: &model.VT{Core: "string"}, Optional: model.Chance(c.R, 20)}
				if model.Chance(c.R, 60) {
					m.In = append(m.In, a)
				} else {
					m.Out = append(m.Out, a)
				}
			}
			c.Count("methods with more arguments", 1)
		}
	}
	st := model.RandomStyle(c.R)
	st.Comments = model.Chance(c.R, 50)
	if st.Comments {
		c12comments(c.R, s)
	}
	files := map[string]string{}
	main := "main.ridl"
	target := main
	var chain []string
	if c.Index%3 == 0 {
		// main imports f0, f0 imports f1, ...; the last one is the target
		n := 1 + c.R.IntN(4)
		names := []string{main}
		for i := range n {
			names = append(names, path.Clean(model.Pick(c.R, []string{"", "a", "a/b", "lib", "é"})+fmt.Sprintf("/f%d.ridl", i)))
			names[i+1] = strings.TrimPrefix(names[i+1], "/")
		}
		target = names[n]
		for i := range n {
			imports := []model.Import{{Path: relative(names[i], names[i+1])}}
			extra := ""
			if model.Chance(c.R, 40) { // another file, which is fine
				extra = path.Join(path.Dir(names[i]), fmt.Sprintf("extra%d.ridl", i))
				files[extra] = fmt.Sprintf("webrpc = v1\nenum Extra%d: int\n  - a\n  - b\n", i)
				imports = append(imports, model.Import{Path: "./" + path.Base(extra)})
				c.R.Shuffle(2, func(i, j int) { imports[i], imports[j] = imports[j], imports[i] })
			}
			m := &model.Schema{Name: "n", Version: "v1"}
			files[names[i]] = model.Render(m, imports, st)
		}
		for i := n; i >= 0; i-- {
			if i > 0 {
				chain = append(chain, names[i])
			}
		}
		chain = append(chain, main)
		files[target] = model.Render(s, nil, st)
	} else {
		files[main] = model.Render(s, nil, st)
	}
	text := files[target]
	attachAll(c, files)
	if _, err := sut.Parse(files, main); err != nil {
		c.Failf("rejected", "well-formed document is rejected: %v", err)
		return
	}
	toks := lex(text)

	// verdict on a mutant: where says what is wrong with a place, "" if nothing
	try := func(kind, what, mutant string, mustFail bool, where func(p errPlace) string) bool {
		m := map[string]string{}
		for k, v := range files {
			m[k] = v
		}
		m[target] = mutant
		c.Count("places: "+kind, 1)
		if target != main {
			c.Count("places: "+kind+" in an imported file", 1)
		}
		_, err := sut.Parse(m, main)
		fail := func(key, format string, a ...any) bool {
			c.Attach("mutant.ridl", mutant)
			c.Failf(key, "%s: %s", what, fmt.Sprintf(format, a...))
			return false
		}
		if err == nil {
			if mustFail {
				return fail("accepted", "the document is accepted")
			}
			return true
		}
		p, syntax, got := parseError(err.Error())
		if strings.Join(got, " <- ") != strings.Join(chain, " <- ") {
			return fail("chain", "the chain of files is %q instead of %q:%s", got, chain, vh.Indent(err.Error()))
		}
		if chain != nil {
			c.Count("chains of files", 1)
			if len(chain) > 3 {
				c.Count("chains of 3 and more", 1)
			}
		}
		if !syntax {
			if mustFail {
				return fail("no-place", "the error has no place: %v", err)
			}
			return true
		}
		lines := strings.Split(mutant, "\n")
		if p.line < 1 || p.line > len(lines) {
			return fail("line", "line %d of %d is reported: %v", p.line, len(lines), err)
		}
		line := lines[p.line-1]
		if r := []rune(line + "\n"); p.near == "" {
			if p.line != len(lines) && !(p.line == len(lines)-1 && lines[p.line] == "") {
				return fail("near", "nothing is quoted, in line %d of %d: %v", p.line, len(lines), err)
			}
		} else if n := utf8.RuneCountInString(p.near); p.col < n || p.col > len(r) || string(r[p.col-n:p.col]) != p.near {
			return fail("near", "%q is quoted, which isn't what ends at column %d of line %d, %q", p.near, p.col, p.line, line)
		}
		c.Count("columns compared", 1)
		if p.line == 1 {
			c.Count("places: first line", 1)
		}
		if p.line == len(lines) {
			c.Count("places: last line", 1)
		}
		if msg := where(p); msg != "" {
			return fail("place", "%s: %v", msg, err)
		}
		return true
	}
	posOf := func(text string, at int) (line, col int) { // of the character at
		before := text[:at]
		line = strings.Count(before, "\n") + 1
		return line, utf8.RuneCountInString(before[strings.LastIndexByte(before, '\n')+1:]) + 1
	}

	for range 14 { // a symbol which is nowhere allowed
		at, ok := boundary(c.R, text, toks)
		if !ok {
			break
		}
		ins := model.Pick(c.R, []string{"$", "$", "%", "&", "'", "*", ";", "^", "~", "`", "{", "}", "§", "\x00"})
		left, right := pad(c.R), pad(c.R)
		ahead := text[strings.LastIndexByte(text[:at], '\n')+1 : at]
		if metaLine.MatchString(ahead) {
			if strings.HasSuffix(strings.TrimSpace(ahead), "=") {
				continue // values of metadata may begin with any symbol
			}
			left = " "
		}
		if at > 0 && left == "" && !strings.ContainsRune(" \t\r\n[]()<>{}=:?!,\"@|+", rune(text[at-1])) {
			left = " " // it would become part of the word
		}
		mutant := text[:at] + left + ins + right + text[at:]
		line, col := posOf(mutant, at+len(left))
		if len(ahead) != utf8.RuneCountInString(ahead) {
			c.Count("places with non-ASCII text before", 1)
		}
		if !try("symbol", fmt.Sprintf("%q is injected at %d:%d", ins, line, col), mutant, true, func(p errPlace) string {
			if p.line != line {
				return fmt.Sprintf("line %d is reported instead of line %d", p.line, line)
			}
			if p.col > col {
				return fmt.Sprintf("column %d is reported, after column %d", p.col, col)
			}
			return ""
		}) {
			return
		}
	}

	var quoted []tok
	for _, t := range toks {
		if t.kind == "quoted" {
			quoted = append(quoted, t)
		}
	}
	for range 3 { // a quote is left open
		if len(quoted) == 0 {
			break
		}
		t := model.Pick(c.R, quoted)
		if !strings.HasSuffix(text[t.start:t.end], `"`) || strings.ContainsRune(rest(text, t.end), '"') {
			continue
		}
		mutant := text[:t.end-1] + text[t.end:]
		if !try("open quote", fmt.Sprintf("the quote opened at %d:%d is left open", t.line, t.col), mutant, true, func(p errPlace) string {
			if p.line != t.line {
				return fmt.Sprintf("line %d is reported instead of line %d", p.line, t.line)
			}
			return ""
		}) {
			return
		}
	}
	for range 4 { // the document is cut off
		t := model.Pick(c.R, toks)
		at := t.start + c.R.IntN(t.end-t.start+1)
		for at < len(text) && !utf8.RuneStart(text[at]) {
			at++
		}
		mutant := text[:at]
		last := strings.Count(mutant, "\n") + 1
		if !try("cut off", fmt.Sprintf("the document is cut off at byte %d", at), mutant, false, func(p errPlace) string {
			if p.line < last && !(p.line == last-1 && strings.HasSuffix(mutant, "\n")) {
				return fmt.Sprintf("line %d is reported, but all lines but the last, %d, are complete", p.line, last)
			}
			return ""
		}) {
			return
		}
	}
	type slot struct {
		t    tok
		want string
	}
	var slots []slot // words which only certain words can stand for
	{
		var line []tok
		for i, t := range toks {
			if t.kind == "newline" {
				line = line[:0]
			}
			if !t.code() {
				continue
			}
			line = append(line, t)
			word := text[t.start:t.end]
			if n := len(line); t.kind == "word" && i > 0 && toks[i-1].kind == "space" {
				first := text[line[0].start:line[0].end]
				switch {
				case first == "error" && n > 4 && word == "HTTP":
					slots = append(slots, slot{t, "word"})
				case first == "error" && n > 5 && text[line[n-2].start:line[n-2].end] == "HTTP":
					slots = append(slots, slot{t, "number"})
				case first == "-" && word == "errors" && text[line[n-2].start:line[n-2].end] == ")":
					slots = append(slots, slot{t, "word"})
				}
			}
		}
	}
	for range 4 {
		if len(slots) == 0 {
			break
		}
		sl := model.Pick(c.R, slots)
		bad := model.Pick(c.R, []string{"http", "HTTPS", "error", "Errors", "errorsx", "x", "status", "throws", "longer_word_than_before", "HTTP_"})
		if sl.want == "number" {
			bad = model.Pick(c.R, []string{"4x4", "x400", "HTTP", "0x190", "four", "404a", "a"})
		}
		mutant := text[:sl.t.start] + bad + text[sl.t.end:]
		if !try("wrong word", fmt.Sprintf("%q stands for %q at %d:%d", bad, text[sl.t.start:sl.t.end], sl.t.line, sl.t.col), mutant, true, func(p errPlace) string {
			if p.line != sl.t.line || p.near != bad || p.col != sl.t.col+len(bad)-1 {
				return fmt.Sprintf("%q at %d:%d is reported", p.near, p.line, p.col)
			}
			return ""
		}) {
			return
		}
	}
	for range 12 { // anything: nothing before it is wrong
		var mutant, what string
		var at int
		if model.Chance(c.R, 50) {
			w := model.Pick(c.R, strayWords)
			if model.Chance(c.R, 60) {
				w = model.Pick(c.R, straySymbols)
			}
			var ok bool
			if at, ok = boundary(c.R, text, toks); !ok {
				break
			}
			mutant, what = text[:at]+" "+w+" "+text[at:], fmt.Sprintf("%q is inserted", w)
		} else {
			t := model.Pick(c.R, toks)
			if !t.code() {
				continue
			}
			at = t.start
			mutant, what = text[:t.start]+text[t.end:], fmt.Sprintf("%q is removed", text[t.start:t.end])
		}
		line, col := posOf(mutant, at)
		if !try("other", fmt.Sprintf("%s at %d:%d", what, line, col), mutant, false, func(p errPlace) string {
			if p.line < line {
				return fmt.Sprintf("line %d is reported, before line %d", p.line, line)
			}
			return ""
		}) {
			return
		}
	}
}

// rest of the line from at
func rest(text string, at int) string {
	l, _, _ := strings.Cut(text[at:], "\n")
	return l
}

// relative path from one file to another, as it stands in an import.
func relative(from, to string) string {
	up := strings.Count(from, "/")
	return "./" + strings.Repeat("../", up) + to
}
