package main

import (
	"strings"
	"unicode/utf8"
)

// tok is a piece of a RIDL document.
type tok struct {
	kind       string // word, quoted, symbol, space, newline, comment
	start, end int
	line, col  int // of the first character; both from 1
}

func (t tok) code() bool { return t.kind == "word" || t.kind == "quoted" || t.kind == "symbol" }

// lex splits a document. Symbols are single characters, but for "=>".
func lex(text string) (out []tok) {
	line, col := 1, 1
	for i := 0; i < len(text); {
		t := tok{start: i, line: line, col: col}
		rest := text[i:]
		switch r := rest[0]; {
		case r == '\n':
			t.kind, t.end = "newline", i+1
		case r == ' ' || r == '\t' || r == '\r':
			t.kind = "space"
			t.end = i + len(rest) - len(strings.TrimLeft(rest, " \t\r"))
		case r == '#':
			t.kind, t.end = "comment", i+len(rest)
			if j := strings.IndexByte(rest, '\n'); j >= 0 {
				t.end = i + j
			}
		case r == '"':
			t.kind = "quoted"
			j := 1
			for j < len(rest) && rest[j] != '"' && rest[j] != '\n' {
				if rest[j] == '\\' && j+1 < len(rest) {
					j++
				}
				j++
			}
			if j < len(rest) && rest[j] == '"' {
				j++
			}
			t.end = i + j
		case strings.HasPrefix(rest, "=>"):
			t.kind, t.end = "symbol", i+2
		case isWordByte(r):
			t.kind = "word"
			j := 0
			for j < len(rest) && !strings.ContainsRune(" \t\r\n[]()<>{}=:?!,\"#@|+/", rune(rest[j])) {
				j++
			}
			t.end = i + j
		default:
			_, n := utf8.DecodeRuneInString(rest)
			t.kind, t.end = "symbol", i+n
		}
		n := utf8.RuneCountInString(text[i:t.end])
		if t.kind == "newline" {
			line, col = line+1, 1
		} else {
			col += n
		}
		out = append(out, t)
		i = t.end
	}
	return out
}

func isWordByte(b byte) bool {
	return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}
