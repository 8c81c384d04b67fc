def parse(body, name="TestDemo", imports=""):
    return 'package ridl\n\nimport (\n\t"testing"\n\t"testing/fstest"\n'+imports+''')

func parse(files map[string]string, path string) (string, error) {
	fsys := fstest.MapFS{}
	for n, s := range files {
		fsys[n] = &fstest.MapFile{Data: []byte(s)}
	}
	s, err := NewParser(fsys, "/", path).Parse()
	if err != nil {
		return "", err
	}
	return s.ToJSON()
}

func one(s string) (string, error) { return parse(map[string]string{"a.ridl": s}, "a.ridl") }

func TestDemo(t *testing.T) {
'''+body+"}\n"
H='"webrpc = v1\\nname = a\\nversion = v1\\n'
def ridl(body, imports=""):
    return dict(demo={"demo_test.go":parse(body,imports=imports)}, run=gotest("schema/ridl","TestDemo"))
def schema(body, imports=""):
    return dict(demo={"demo_test.go":'package schema\n\nimport (\n\t"testing"\n'+imports+')\n\nfunc TestDemo(t *testing.T) {\n'+body+"}\n"}, run=gotest("schema","TestDemo"))
BUGS=[]
def bug(id,prop,needs,breaks,edits,d): BUGS.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,**d))

bug("map-without-brackets","C02","a JSON schema in which a type is the bare word map",
 "the check that parseMapExpr makes before it slices the expression is taken to be redundant; the type 'map' makes it slice an empty string and panic",
 [("schema/var_type.go",'''	if !isMapExpr(expr) {
		return "", "", fmt.Errorf("schema error: invalid map expr for '%s'", expr)
	}

	mapKeyword''','''	mapKeyword''')],
 schema('''	_, err := ParseSchemaJSON([]byte(`{"webrpc":"v1","types":[{"kind":"struct","name":"A","fields":[{"name":"a","type":"[]map"}]}]}`))
	if err == nil {
		t.Fatal("accepted")
	}
'''))
bug("plus-after-struct","C01","metadata directly after the head of a struct which has no fields yet",
 "the states which read fields and their metadata are merged, so metadata without a field in front of it indexes an empty list in the parser's goroutine and crashes the process",
 [("schema/ridl/struct_parser.go",'''		case tokenDash:
			return parserStateStructFieldDefinition(mn)

		default:
			p.emit(mn)
			return parserDefaultState

		}

		return parserStateStructField(mn)''','''		case tokenDash:
			return parserStateStructFieldDefinition(mn)

		case tokenPlusSign:
			return parserStateStructFieldMetaDefinition(mn)

		default:
			p.emit(mn)
			return parserDefaultState

		}

		return parserStateStructField(mn)''' ),
  ("schema/ridl/struct_parser.go",'''		case tokenPlusSign:
			return parserStateStructFieldMetaDefinition(mn)

		default:
			return parserStateStructField(mn)

		}

		return parserStateStructFieldMeta(mn)''','''		default:
			return parserStateStructField(mn)

		}

		return parserStateStructFieldMeta(mn)''')],
 ridl('''	if _, err := one("webrpc = v1\\nstruct A\\n  + json = a\\n"); err == nil {
		t.Fatal("accepted")
	}
'''))
bug("repeated-meta","C03","a field which carries the same metadata key twice",
 "metadata of a field is merged by key: a key given twice keeps only its last value",
 [("schema/ridl/ridl.go",'''				key, val := meta.Left().String(), meta.Right().String()
				field.Meta = append(field.Meta, schema.TypeFieldMeta{
					key: val,
				})
''','''				key, val := meta.Left().String(), meta.Right().String()
				if i := slices.IndexFunc(field.Meta, func(m schema.TypeFieldMeta) bool { _, ok := m[key]; return ok }); i >= 0 {
					field.Meta[i][key] = val
					continue
				}
				field.Meta = append(field.Meta, schema.TypeFieldMeta{
					key: val,
				})
''')],
 ridl('''	s, err := one("webrpc = v1\\nstruct A\\n  - a: int\\n    + validate = min\\n    + validate = max\\n")
	if err != nil || !strings.Contains(s, "min") || !strings.Contains(s, "max") {
		t.Fatal(s, err)
	}
''','\t"strings"\n'))
bug("tab-in-word","C04","a tab instead of a space after a word",
 "tabs no longer end a word, so tokens separated by a tab are read as one",
 [("schema/ridl/lexer.go",'wordBreak     = []rune("\\x00 \\t\\r\\n[]','wordBreak     = []rune("\\x00 \\r\\n[]')],
 ridl('''	a, err := one("webrpc = v1\\nname = a\\nversion = v1\\nstruct A\\n  - a: int\\n")
	if err != nil {
		t.Fatal(err)
	}
	b, err := one("webrpc\\t= v1\\nname = a\\nversion = v1\\nstruct\\tA\\n\\t- a: int\\t# x\\n")
	if err != nil || len(b) <= len(a) {
		t.Fatal(b, err)
	}
'''))
bug("type-by-any-case","C05","a reference which differs from the type's name in case",
 "types are found ignoring case, so a misspelt reference is accepted and kept under the wrong name",
 [("schema/var_type.go",'''	for _, typ := range schema.Types {
		if structExpr == string(typ.Name) {
			return typ, true
		}
	}
	return nil, false''','''	typ := schema.GetTypeByName(structExpr)
	return typ, typ != nil''')],
 ridl('''	if s, err := one("webrpc = v1\\nstruct User\\n  - a: int\\nstruct B\\n  - user: []USER\\n"); err == nil {
		t.Fatal(s)
	}
'''))
bug("json-names-case","C06","two fields whose JSON names differ in case only",
 "JSON names are compared as written instead of ignoring case",
 [("schema/type.go",'jsonMetaStringLower := strings.ToLower(jsonFieldName)','jsonMetaStringLower := jsonFieldName')],
 ridl('''	if s, err := one("webrpc = v1\\nstruct A\\n  - a: int\\n    + json = id\\n  - b: int\\n    + json = ID\\n"); err == nil {
		t.Fatal(s)
	}
'''))
bug("annotations-on-two-lines","C08","the same annotation on two lines above one method",
 "annotations are checked for duplicates only within a line, where they are read; one repeated on the next line silently replaces the first",
 [("schema/ridl/service_parser.go",'''		// check for annotation duplicates
		annotations := make(map[string]struct{})
		for _, ann := range sn.methodAnnotations {
			if _, ok := annotations[ann.AnnotationType().String()]; ok {
				return p.stateError(fmt.Errorf("duplicate annotation type: %v", ann.AnnotationType()))
			}

			annotations[ann.AnnotationType().String()] = struct{}{}
		}
''','')],
 ridl('''	if s, err := one("webrpc = v1\\nname = a\\nversion = v1\\nservice S\\n  @acl:admin\\n  @acl:user\\n  - M()\\n"); err == nil {
		t.Fatal(s)
	}
'''))
bug("method-error-case","C07","a method which declares an error in another case than it is defined in",
 "declared errors of methods are looked up ignoring case, so a method can declare an error which doesn't exist",
 [("schema/service.go",'if schemaError.Name == errorName {','if strings.EqualFold(schemaError.Name, errorName) {')],
 ridl('''	if s, err := one("webrpc = v1\\nname = a\\nversion = v1\\nerror 1 NotFound \\"x\\"\\nservice S\\n  - M() errors Notfound\\n"); err == nil {
		t.Fatal(s)
	}
'''))
bug("import-file-once","C10","one file imported twice by a document, with different members",
 "a file which was already imported is skipped when it is imported again, so the members listed the second time are missing",
 [("schema/ridl/ridl.go",'''		if imported := p.cache[importPath]; imported != nil {''','''		if imported := p.cache[importPath]; imported != nil && !seen[importPath] {
			seen[importPath] = true
'''),
  ("schema/ridl/ridl.go",'''	// imports
	for _, line := range q.root.Imports() {
''','''	// imports
	seen := map[string]bool{}
	for _, line := range q.root.Imports() {
''')],
 ridl('''	s, err := parse(map[string]string{
		"a.ridl": "webrpc = v1\\nimport b.ridl\\n  - A\\nimport b.ridl\\n  - B\\n",
		"b.ridl": "webrpc = v1\\nstruct A\\n  - a: int\\nstruct B\\n  - b: int\\n",
	}, "a.ridl")
	if err != nil || !strings.Contains(s, `"A"`) || !strings.Contains(s, `"B"`) {
		t.Fatal(s, err)
	}
''','\t"strings"\n'))
bug("shared-import-cache","C11","two parses in one process whose imports have the same path but not the same contents",
 "parsed imports are cached for the whole process instead of one parse, so a later parse gets the definitions an earlier one has read; concurrent parses race on the map",
 [("schema/ridl/ridl.go",'''		cache:   make(map[string]*schema.WebRPCSchema),
''','''		cache:   parsedImports,
'''),
  ("schema/ridl/ridl.go",'''func NewParser(fsys''','''// parsedImports holds the imports which were already parsed
var parsedImports = make(map[string]*schema.WebRPCSchema)

func NewParser(fsys''')],
 ridl('''	for _, name := range []string{"First", "Second"} {
		s, err := parse(map[string]string{
			"a.ridl": "webrpc = v1\\nimport demo.ridl\\n",
			"demo.ridl": "webrpc = v1\\nstruct " + name + "\\n  - a: int\\n",
		}, "a.ridl")
		if err != nil || !strings.Contains(s, name) {
			t.Fatal(s, err)
		}
	}
''','\t"strings"\n'))
bug("hash-kept","C12","the hash of a schema which was hashed before it was changed, as by a filter or a new version",
 "the hash is computed once and kept, so a schema that changes after the first call keeps the hash of its old contents",
 [("schema/schema.go",'''	h := sha1.New()
	h.Write([]byte(jsonString))
	return hex.EncodeToString(h.Sum(nil)), nil''','''	if s.hash == "" {
		h := sha1.New()
		h.Write([]byte(jsonString))
		s.hash = hex.EncodeToString(h.Sum(nil))
	}
	return s.hash, nil'''),
  ("schema/schema.go",'''	Services []*Service `json:"services"`
}''','''	Services []*Service `json:"services"`

	hash string // computed on first use
}''')],
 schema('''	s := &WebRPCSchema{WebrpcVersion: "v1", SchemaName: "a"}
	a, _ := s.SchemaHash()
	s.SchemaVersion = "v2"
	b, _ := s.SchemaHash()
	if a == b {
		t.Fatal("same hash", a)
	}
'''))
bug("annotation-value-prefix","C13","-match or -ignore with a value that is the beginning of an annotation's value",
 "the value of an annotation is compared as a prefix when methods are ignored, while matching still compares it as a whole, so the filters no longer split the methods",
 [("schema/schema.go",'''					if name == ann.AnnotationType && value == ann.Value {
						ignore = true''','''					if name == ann.AnnotationType && strings.HasPrefix(ann.Value, value) {
						ignore = true''')],
 schema('''	mk := func() *WebRPCSchema {
		return &WebRPCSchema{Services: []*Service{{Name: "S", Methods: []*Method{
			{Name: "A", Annotations: Annotations{"acl": {AnnotationType: "acl", Value: "admin"}}},
			{Name: "B", Annotations: Annotations{"acl": {AnnotationType: "acl", Value: "adminread"}}},
		}}}}
	}
	m := MatchMethodsWithAnnotations(mk(), map[string]string{"acl": "admin"})
	i := IgnoreMethodsWithAnnotations(mk(), map[string]string{"acl": "admin"})
	if len(m.Services[0].Methods)+len(i.Services[0].Methods) != 2 {
		t.Fatal("filters overlap or lose methods")
	}
'''))
bug("tree-shake-map-keys","C14","a type which selected services use only as the key of a map",
 "tree-shaking walks only the values of maps, so enums used as keys are dropped",
 [("schema/schema.go",'''			walkVarType(vt.Map.Key, mark)
''','')],
 ridl('''	fsys := fstest.MapFS{"a.ridl": {Data: []byte("webrpc = v1\\nname = a\\nversion = v1\\nenum Kind: uint32\\n  - ONE\\nservice S\\n  - M(m: map<Kind,int>)\\nservice T\\n  - N(k: Kind)\\n")}}
	s, err := NewParser(fsys, "/", "a.ridl").Parse()
	if err != nil {
		t.Fatal(err)
	}
	s = schema.MatchServices(schema.MethodTreeShake(s, []string{"S"}), []string{"S"})
	if len(s.Types) != 1 {
		t.Fatal(len(s.Types))
	}
''','\n\t"github.com/webrpc/webrpc/schema"\n'))
bug("bigint-in-list","C15","a bigint which is reached through a list of structs at least two levels down",
 "the recursive search leaves out lists of structs, since the fields of the struct itself are still checked for them",
 [("schema/helpers.go",'''			// list of nested struct
			if f.Type.Type == T_List && f.Type.List != nil && f.Type.List.Elem.Type == T_Struct && f.Type.List.Elem.Struct != nil && structHasBigIntRecursive(f.Type.List.Elem.Struct.Type) {
				return true
			}
		}
		return false
	}

	// helper to collect''','''		}
		return false
	}

	// helper to collect''')],
 ridl('''	fsys := fstest.MapFS{"a.ridl": {Data: []byte("webrpc = v1\\nstruct A\\n  - b: B\\nstruct B\\n  - c: []C\\nstruct C\\n  - d: bigint\\n")}}
	s, err := NewParser(fsys, "/", "a.ridl").Parse()
	if err != nil {
		t.Fatal(err)
	}
	if m := schema.SchemaBigIntFieldsByType(s); len(m) != 3 {
		t.Fatal(m)
	}
''','\n\t"github.com/webrpc/webrpc/schema"\n'))
bug("columns-in-bytes","C22","non-ASCII text in front of a syntax error on its line",
 "columns are counted in bytes instead of characters, so errors after non-ASCII text are reported past their place",
 [("schema/ridl/lexer.go",'''	lx.col++

	return true''','''	lx.col += utf8.RuneLen(lx.input[newPos-1])

	return true'''),("schema/ridl/lexer.go",'''	"fmt"
)''','''	"fmt"
	"unicode/utf8"
)''')],
 ridl('''	_, err := one("webrpc = v1\\nerror 1 A \\"ééééééé\\" TTP\\n")
	if err == nil || !strings.Contains(err.Error(), "2:23:") {
		t.Fatal(err)
	}
''','\t"strings"\n'))
bug("rest-after-http-status","C23","a stray word after the HTTP status of an error",
 "whatever follows the HTTP status of an error is skipped like a comment",
 [("schema/ridl/error_parser.go",'''		et.httpStatus = newTokenNode(matches[1])

		if err := p.expectOptionalCommentOrEOL(); err != nil {''','''		et.httpStatus = newTokenNode(matches[1])

		if err := p.continueUntilEOL(); err != nil {''')],
 ridl('''	if s, err := one("webrpc = v1\\nerror 1 A \\"a\\" HTTP 400 Unauthorized\\n"); err == nil {
		t.Fatal(s)
	}
'''))
