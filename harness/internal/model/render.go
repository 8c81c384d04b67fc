package model

import (
	"fmt"
	"math/rand/v2"
	"regexp"
	"strconv"
	"strings"
)

// Style says how a schema is written down.
type Style struct {
	R        *rand.Rand
	Plain    bool // the most common layout
	Interior bool // comments hidden with #! and detached ones, blank lines
	Shuffle  bool // interleave declarations of different kinds
	CRLF     bool
	NoFinal  bool // no newline at the end of the file
	Comments bool // write doc comments, with decoys
	Decoys   *[]string
	Enums    bool // write doc comments of enums, too
	SkipHead bool // leave out the webrpc line
	Inches   bool // values of metadata with quotes in them may be without quotes around them
}

// RandomStyle picks a layout.
func RandomStyle(r *rand.Rand) Style {
	return Style{R: r, Interior: Chance(r, 60), Shuffle: Chance(r, 60), CRLF: Chance(r, 15), NoFinal: Chance(r, 30)}
}

// PlainStyle is the most common layout, the same each time.
func PlainStyle() Style { return Style{R: rand.New(rand.NewPCG(1, 1)), Plain: true} }

// Import is an import of a document.
type Import struct {
	Path    string
	Members []string
}

type writer struct {
	st    Style
	lines []string
	decoy int
	fresh bool // the last line cannot be taken for a comment above what follows
}

func (w *writer) r() *rand.Rand { return w.st.R }

func (w *writer) chance(p int) bool { return !w.st.Plain && Chance(w.st.R, p) }

// sp is whitespace which has to be there.
func (w *writer) sp() string {
	if w.chance(15) {
		if w.chance(1) {
			return strings.Repeat(Pick(w.r(), []string{" ", "\t", " \t"}), 20+w.r().IntN(300))
		}
		if w.chance(3) {
			return Pick(w.r(), []string{"\r", " \r", "\r\t"}) // alone, it ends no line
		}
		return Pick(w.r(), []string{"  ", "\t", "   ", " \t "})
	}
	return " "
}

// tsp is whitespace which is usually there and need not be.
func (w *writer) tsp() string {
	if w.chance(3) {
		return ""
	}
	return w.sp()
}

// osp is whitespace which need not be there.
func (w *writer) osp() string {
	if w.chance(10) {
		return ""
	}
	return w.sp()
}

// nsp is whitespace which usually isn't there.
func (w *writer) nsp() string {
	if w.chance(10) {
		return w.sp()
	}
	return ""
}

func (w *writer) indent(level int) string {
	if w.st.Plain {
		return strings.Repeat("  ", level)
	}
	return strings.Repeat(Pick(w.r(), []string{"  ", "  ", "    ", "\t", " "}), level)
}

func (w *writer) trail() string {
	if w.chance(10) {
		return Pick(w.r(), []string{" ", "  ", "\t"})
	}
	return ""
}

// line writes a line of code. When no comment is given, it may end with one
// which must have no effect.
func (w *writer) line(code, comment string) {
	switch {
	case comment != "":
		code += w.sp() + Pick(w.r(), []string{"# ", "#", "#  "}) + w.commentText(comment)
	case w.st.Interior && w.chance(15):
		code += w.sp() + Pick(w.r(), []string{"#! hidden", "#!", "#!struct X # \"y"})
	}
	w.lines = append(w.lines, code+w.trail())
}

// decoyLine writes a line of code which may end with a comment that belongs nowhere.
func (w *writer) decoyLine(code string) {
	if w.st.Comments && w.chance(20) {
		ind := code[:len(code)-len(strings.TrimLeft(code, " \t"))]
		w.lines = append(w.lines, ind+"# "+w.newDecoy())
	}
	if w.st.Comments && w.chance(40) {
		w.line(code, w.newDecoy())
		return
	}
	w.line(code, "")
}

func (w *writer) newDecoy() string {
	w.decoy++
	d := fmt.Sprintf("decoy%d comment %s", w.decoy, Pick(w.r(), []string{"", "of nothing", "# struct X", "- a: int", "\"quoted", "error 1 Foo \"x\""}))
	if w.st.Decoys != nil {
		*w.st.Decoys = append(*w.st.Decoys, fmt.Sprintf("decoy%d", w.decoy))
	}
	return strings.TrimSpace(d)
}

// commentText varies the whitespace within a comment, which doesn't count.
func (w *writer) commentText(c string) string {
	if !w.chance(20) {
		return c
	}
	return strings.Join(strings.Split(c, " "), Pick(w.r(), []string{"  ", "\t", " \t", "   ", "\t\t\t", "     ", "          "}))
}

// gap writes what may stand between two definitions without belonging to either.
func (w *writer) gap() {
	if w.st.Comments && w.chance(25) {
		// a detached block
		for range 1 + w.r().IntN(2) {
			w.lines = append(w.lines, w.indent(w.r().IntN(2))+"# "+w.newDecoy())
		}
		w.lines = append(w.lines, w.blank())
		return
	}
	if !w.st.Interior {
		return
	}
	for w.chance(25) {
		if w.chance(1) {
			for range 100 + w.r().IntN(300) {
				w.lines = append(w.lines, w.blank())
			}
		}
		switch w.r().IntN(4) {
		case 0:
			w.lines = append(w.lines, w.indent(w.r().IntN(3))+Pick(w.r(), []string{"#! hidden", "#!", "#!- a: int", "#!! error 1 X \"", "#! webrpc = v2"}))
		case 1:
			w.lines = append(w.lines, w.indent(w.r().IntN(3))+Pick(w.r(), []string{"# detached", "# struct Y", "#- \"", "# error 7 Zed \"zed\"", "#"}))
			w.lines = append(w.lines, w.blank())
		default:
			w.lines = append(w.lines, w.blank())
		}
	}
}

func (w *writer) blank() string {
	if w.chance(20) {
		return Pick(w.r(), []string{" ", "\t", "    "})
	}
	return ""
}

var (
	bareWord  = regexp.MustCompile(`^[A-Za-z0-9_][A-Za-z0-9_.|@'*%&~$;^+/é日本-]*$`)
	barePath  = regexp.MustCompile(`^/?[A-Za-z0-9_][A-Za-z0-9_./-]*$`)
	bareMeta  = regexp.MustCompile(`^[^\s"#\\>][^\s"#\\]*$`)
	inchMeta  = regexp.MustCompile(`^[^\s"#\\>][^\s#\\]*"[^\s#\\]*$`)
	escaper   = strings.NewReplacer("\n", `\n`, "\t", `\t`, `"`, `\"`)
	numberLit = regexp.MustCompile(`^[0-9]+$`)
)

// Quote writes a string in quotes.
func Quote(s string) string { return `"` + escaper.Replace(s) + `"` }

// value writes a value, in quotes where it must be or may be.
func (w *writer) value(s string, bare *regexp.Regexp) string {
	if !bare.MatchString(s) && s != "/" || s == "/" && bare != barePath {
		return Quote(s)
	}
	if w.st.Plain {
		if numberLit.MatchString(s) || bare == barePath || bare == bareMeta {
			return s
		}
		return Quote(s)
	}
	if w.chance(40) {
		return Quote(s)
	}
	return s
}

func (w *writer) vt(t *VT, inMap bool) string {
	switch {
	case t.Elem != nil:
		return "[]" + w.vt(t.Elem, inMap)
	case t.Val != nil:
		return "map<" + w.nsp() + w.vt(t.Key, true) + w.nsp() + "," + w.nsp() + w.vt(t.Val, true) + w.nsp() + ">"
	}
	return t.String()
}

// Render writes a schema as RIDL.
func Render(s *Schema, imports []Import, st Style) string {
	w := &writer{st: st}
	eq := func() string { return w.osp() + "=" + w.osp() }

	// each declaration is a piece; pieces of the same kind keep their order
	var header, imps, aliases, enums, structs, errs, svcs []func()
	add := func(list *[]func(), f func()) { *list = append(*list, f) }
	if !st.SkipHead {
		add(&header, func() { w.decoyLine("webrpc" + eq() + w.value("v1", barePath)) })
	}
	if s.Name != "" {
		add(&header, func() { w.decoyLine("name" + eq() + w.value(s.Name, barePath)) })
	}
	if s.Version != "" {
		add(&header, func() { w.decoyLine("version" + eq() + w.value(s.Version, barePath)) })
	}
	if s.BasePath != "" {
		add(&header, func() { w.decoyLine("basepath" + eq() + w.value(s.BasePath, barePath)) })
	}
	for i := 0; i < len(imports); i++ {
		im := imports[i]
		path := func() string {
			if !w.st.Plain && w.chance(30) || !regexp.MustCompile(`^[A-Za-z0-9_./-]+$`).MatchString(im.Path) || strings.HasPrefix(im.Path, "-") {
				return Quote(im.Path)
			}
			return im.Path
		}
		if len(im.Members) == 0 && w.chance(50) {
			// block form, which may hold several
			block := []Import{im}
			for i+1 < len(imports) && len(imports[i+1].Members) == 0 && w.chance(50) {
				i++
				block = append(block, imports[i])
			}
			add(&imps, func() {
				w.decoyLine("import")
				for _, b := range block {
					im = b
					w.decoyLine(w.indent(1) + "-" + w.tsp() + path())
				}
			})
			continue
		}
		add(&imps, func() {
			w.decoyLine("import" + w.sp() + path())
			for _, m := range im.Members {
				w.decoyLine(w.indent(1) + "-" + w.tsp() + w.value(m, bareWord))
			}
		})
	}
	for _, t := range s.Types {
		switch t.Kind {
		case "alias":
			add(&aliases, func() { w.alias(t) })
		case "enum":
			add(&enums, func() { w.enum(t) })
		case "struct":
			add(&structs, func() { w.strct(t) })
		}
	}
	for _, e := range s.Errors {
		add(&errs, func() { w.error(e) })
	}
	for _, svc := range s.Services {
		add(&svcs, func() { w.service(svc) })
	}

	if w.st.Shuffle && !st.SkipHead {
		st.R.Shuffle(len(header), func(i, j int) { header[i], header[j] = header[j], header[i] })
	}
	lists := [][]func(){header, imps, aliases, enums, structs, errs, svcs}
	var pieces []func()
	if w.st.Shuffle {
		for {
			var open []int
			for i, l := range lists {
				if len(l) > 0 {
					open = append(open, i)
				}
			}
			if len(open) == 0 {
				break
			}
			i := Pick(w.r(), open)
			pieces = append(pieces, lists[i][0])
			lists[i] = lists[i][1:]
		}
	} else {
		for _, l := range lists {
			pieces = append(pieces, l...)
		}
	}
	for i, piece := range pieces {
		if i > 0 && (w.st.Plain || w.st.Comments || w.chance(80)) {
			w.lines = append(w.lines, w.blank())
		}
		w.gap()
		piece()
	}
	w.gap()

	eol := "\n"
	if st.CRLF {
		eol = "\r\n"
	}
	text := strings.Join(w.lines, eol)
	if w.chance(5) {
		// both kinds of line ends in one document
		var b strings.Builder
		for i, line := range w.lines {
			if i > 0 {
				b.WriteString(Pick(w.r(), []string{"\n", "\r\n", "\r\n", "\r\r\n"}))
			}
			b.WriteString(line)
		}
		text = b.String()
	}
	if !st.NoFinal {
		text += eol
	}
	return text
}

// above writes the comments which stand above a definition, and returns the
// one which is to stand on its line.
func (w *writer) above(comments []string, indent string, code string) string {
	if !w.st.Comments || len(comments) == 0 {
		return ""
	}
	own := ""
	if w.chance(50) && comments[len(comments)-1] != "" {
		own, comments = comments[len(comments)-1], comments[:len(comments)-1]
	}
	for _, c := range comments {
		w.commentLine(indent, c)
	}
	return own
}

func (w *writer) commentLine(indent, c string) {
	if w.chance(10) {
		w.lines = append(w.lines, indent+"#! hidden within")
	}
	w.lines = append(w.lines, indent+Pick(w.r(), []string{"# ", "#", "#  "})+w.commentText(c)+w.trail())
}

func (w *writer) alias(t *Type) {
	own := w.above(t.Comments, "", "")
	w.line("type"+w.sp()+t.Name+":"+w.osp()+w.vt(t.Type, false), own)
	w.meta(t.Meta)
}

func (w *writer) meta(meta []KV) {
	for _, kv := range meta {
		w.inner()
		if w.st.Inches && inchMeta.MatchString(kv.V) && w.chance(60) {
			w.lines = append(w.lines, w.indent(2)+"+"+w.tsp()+kv.K+w.osp()+"="+w.osp()+kv.V)
			continue
		}
		w.decoyLine(w.indent(2) + "+" + w.tsp() + kv.K + w.osp() + "=" + w.osp() + w.value(kv.V, bareMeta))
	}
}

// inner writes what may stand between the lines of a definition.
func (w *writer) inner() {
	if w.chance(15) {
		w.gap()
	}
}

func (w *writer) enum(t *Type) {
	own := ""
	if w.st.Enums {
		own = w.above(t.Comments, "", "")
	}
	w.line("enum"+w.sp()+t.Name+":"+w.osp()+t.Type.String(), own)
	for _, f := range t.Fields {
		w.inner()
		ind := w.indent(1)
		own := w.above(f.Comments, ind, "")
		code := ind + "-" + w.tsp() + f.Name
		if f.Explicit {
			code += w.osp() + "=" + w.osp() + w.value(f.Value, bareWord)
		}
		w.line(code, own)
	}
}

func (w *writer) strct(t *Type) {
	own := w.above(t.Comments, "", "")
	w.line("struct"+w.sp()+t.Name, own)
	for _, f := range t.Fields {
		w.inner()
		ind := w.indent(1)
		own := w.above(f.Comments, ind, "")
		code := ind + "-" + w.tsp() + f.Name
		if f.Optional {
			code += "?"
		}
		w.line(code+":"+w.osp()+w.vt(f.Type, false), own)
		w.meta(f.Meta)
	}
}

// number writes a decimal number, now and then with leading zeros.
func (w *writer) number(n int) string {
	if w.chance(4) && n < 1000000000 {
		return strings.Repeat("0", 1+w.r().IntN(3)) + strconv.Itoa(n)
	}
	return strconv.Itoa(n)
}

func (w *writer) error(e *Error) {
	code := fmt.Sprintf("error%s%s%s%s", w.sp(), w.number(e.Code), w.sp(), e.Name)
	if message := w.value(e.Message, bareWord); message[0] == '"' {
		code += w.tsp() + message
	} else {
		code += w.sp() + message
	}
	if e.Explicit {
		between := w.sp()
		if code[len(code)-1] == '"' {
			between = w.tsp()
		}
		code += fmt.Sprintf("%sHTTP%s%s", between, w.sp(), w.number(e.Status))
	}
	w.decoyLine(code)
}

func (w *writer) args(args []*Arg, succinct bool) string {
	if succinct {
		return "(" + args[0].Type.Ref + ")"
	}
	var parts []string
	for _, a := range args {
		p := a.Name
		if a.Optional {
			p += "?"
		}
		parts = append(parts, p+":"+w.osp()+w.vt(a.Type, false))
	}
	var out strings.Builder
	out.WriteString("(" + w.nsp())
	for i, p := range parts {
		if i > 0 {
			out.WriteString(w.nsp() + "," + w.osp())
		}
		out.WriteString(p)
	}
	return out.String() + w.nsp() + ")"
}

func (w *writer) service(svc *Service) {
	own := w.above(svc.Comments, "", "")
	w.line("service"+w.sp()+svc.Name, own)
	for _, m := range svc.Methods {
		w.inner()
		ind := w.indent(1)
		comments := m.Comments
		take := func() string { // a comment for an annotation's line
			if w.st.Comments && len(comments) > 1 && comments[0] != "" && w.chance(40) {
				c := comments[0]
				comments = comments[1:]
				return c
			}
			return ""
		}
		lead := func() { // some comments above
			for w.st.Comments && len(comments) > 1 && w.chance(50) {
				w.commentLine(ind, comments[0])
				comments = comments[1:]
			}
		}
		for i := 0; i < len(m.Annotations); {
			lead()
			code := ind
			for first := true; i < len(m.Annotations) && (first || w.chance(40)); first = false {
				a := m.Annotations[i]
				if !first {
					code += w.sp()
				}
				code += "@" + a.Name
				if a.HasValue {
					code += ":" + w.value(a.Value, bareWord)
				}
				i++
			}
			w.line(code, take())
		}
		own := w.above(comments, ind, "")
		code := ind + "-" + w.tsp()
		if m.StreamIn {
			code += "stream" + w.sp()
		}
		if m.RawSig != "" {
			code += m.Name + m.RawSig
		} else {
			code += m.Name + w.args(m.In, m.Succinct)
		}
		if m.RawSig == "" && (m.StreamOut || m.Succinct || len(m.Out) > 0 || w.chance(20)) {
			code += w.osp() + "=>" + w.osp()
			if m.StreamOut {
				code += "stream" + w.osp()
			}
			code += w.args(m.Out, m.Succinct)
		}
		if len(m.Errors) > 0 {
			code += w.sp() + "errors"
			for i, e := range m.Errors {
				if i > 0 {
					code += w.sp() + "|" + w.tsp() + e
				} else {
					code += w.sp() + e
				}
			}
		}
		w.line(code, own)
	}
}
