exec(open("/verif/tools/dev/bugs/b1.py").read().split("BUGS=[]")[0]); BUGS=[]
def bug(id,prop,needs,breaks,edits,d): BUGS.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,**d))
bug("repeated-meta","C03","a field which carries the same metadata key twice",
 "metadata of a field is gathered in one map per field, so a key given twice keeps only its last value",
 [("schema/ridl/ridl.go",'''			for _, meta := range def.Meta() {
				key, val := meta.Left().String(), meta.Right().String()
				field.Meta = append(field.Meta, schema.TypeFieldMeta{
					key: val,
				})
			}
''','''			seen := map[string]int{}
			for _, meta := range def.Meta() {
				key, val := meta.Left().String(), meta.Right().String()
				if i, ok := seen[key]; ok {
					field.Meta[i] = schema.TypeFieldMeta{key: val}
				} else {
					seen[key] = len(field.Meta)
					field.Meta = append(field.Meta, schema.TypeFieldMeta{key: val})
				}
			}
''')],
 ridl('''	s, err := one("webrpc = v1\\nstruct A\\n  - a: int\\n    + validate = min\\n    + validate = max\\n")
	if err != nil || !strings.Contains(s, "min") || !strings.Contains(s, "max") {
		t.Fatal(s, err)
	}
''','\t"strings"\n'))
bug("carriage-return-in-word","C04","Windows line endings directly after a word",
 "a carriage return no longer ends a word, so in a file with Windows line endings it becomes part of names and types",
 [("schema/ridl/lexer.go",'wordBreak     = []rune("\\x00 \\t\\r\\n[]','wordBreak     = []rune("\\x00 \\t\\n[]')],
 ridl('''	text := "webrpc = v1\\nname = a\\nversion = v1\\nstruct A\\n  - a: int\\n"
	a, err := one(text)
	if err != nil {
		t.Fatal(err)
	}
	b, err := one(strings.ReplaceAll(text, "\\n", "\\r\\n"))
	if err != nil || b != a {
		t.Fatal(b, err)
	}
''','\t"strings"\n'))
bug("half-succinct","C08","a method with a succinct argument which returns nothing",
 "methods which return nothing may have a succinct argument, although the form must be used on both sides; the argument is then taken for a normal one",
 [("schema/ridl/ridl.go",'''				if !succinctInput || !succinctOutput {
''','''				if len(inputs) > 0 && len(outputs) > 0 && (!succinctInput || !succinctOutput) {
''')],
 ridl('''	if s, err := one("webrpc = v1\\nname = a\\nversion = v1\\nstruct A\\n  - a: int\\nservice S\\n  - M(A)\\n"); err == nil {
		t.Fatal(s)
	}
'''))
bug("shared-parsed-files","C11","documents parsed by several goroutines at once",
 "parsed files are kept in a map of the package without a lock, so concurrent parses race and can end the process",
 [("schema/ridl/ridl.go",'''	q, err := newParser(p.path, src)
	if err != nil {
		return nil, err
	}

	if err = q.run(); err != nil {
		return nil, err
	}
''','''	// The same source always has the same syntax tree.
	q, ok := parsedFiles[string(src)]
	if !ok {
		if q, err = newParser(p.path, src); err != nil {
			return nil, err
		}

		if err = q.run(); err != nil {
			return nil, err
		}
		parsedFiles[string(src)] = q
	}
'''),("schema/ridl/ridl.go",'''	schemaTypeKindAlias  = "alias"
)''','''	schemaTypeKindAlias  = "alias"

	parsedFiles = map[string]*parser{}
)''')],
 dict(demo={"demo_test.go":parse('''	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 200; j++ {
				if _, err := one(fmt.Sprintf("webrpc = v1\\nname = a%d\\n", j*8+i)); err != nil {
					t.Error(err)
				}
			}
		}()
	}
	wg.Wait()
''',imports='\t"sync"\n\t"fmt"\n')},run=gotest("schema/ridl","TestDemo",extra="-race ")))
bug("other-symbols-at-line-end","C23","a symbol which RIDL doesn't know, such as a semicolon, at the end of a line",
 "symbols without a meaning are skipped at the end of a line like whitespace",
 [("schema/ridl/parser.go",'''		switch tok.tt {

		case tokenWhitespace:
			p.next()
			continue

		case tokenEOF, tokenNewLine:
			// end of line''','''		switch tok.tt {

		case tokenWhitespace, tokenExtra:
			p.next()
			continue

		case tokenEOF, tokenNewLine:
			// end of line''')],
 ridl('''	if s, err := one("webrpc = v1\\nerror 1 A \\"a\\" HTTP 400 ;*\\n"); err == nil {
		t.Fatal(s)
	}
'''))
bug("comment-of-other-line","C21","a comment above a method whose annotations stand on a line of their own",
 "comments of a method are looked for from its own line upwards even if annotations stand in between, so those above the annotations are lost",
 [("schema/ridl/service_parser.go",'''		if len(sn.methodAnnotations) > 0 {
			commentLine =''','''		if len(sn.methodAnnotations) > 1 {
			commentLine =''')],
 ridl('''	s, err := one("webrpc = v1\\nname = a\\nversion = v1\\nservice S\\n  # about M\\n  @acl\\n  - M()\\n")
	if err != nil || !strings.Contains(s, "about M") {
		t.Fatal(s, err)
	}
''','\t"strings"\n'))
