exec(open("/verif/tools/dev/bugs/b3.py").read().split("RIDL='''cat")[0])
bug("list-types-kept","C11","two schemas in one process in which lists of the same name have elements that differ in kind or fields",
 "what a list expression means is kept for the process, under the expression: a list of a declared type in one schema has, in the next, elements of the first schema's type",
 [("schema/var_type.go",'''		// create sub-type object for list element
		vt.List = &VarListType{Elem: &VarType{}}

		// shift expr, and keep parsing
		expr = strings.TrimPrefix(expr, CoreTypeToString[T_List])
		err := ParseVarTypeExpr(schema, expr, vt.List.Elem)
		if err != nil {
			return err
		}
''','''		// list types are small and frequent, so they are created once
		if known, ok := listTypes.Load(expr); ok && getKind(schema, known.(*VarListType).Elem.Expr) == known.(*VarListType).Elem.Type {
			vt.List = known.(*VarListType)
			return nil
		}
		vt.List = &VarListType{Elem: &VarType{}}

		// shift expr, and keep parsing
		elem := strings.TrimPrefix(expr, CoreTypeToString[T_List])
		err := ParseVarTypeExpr(schema, elem, vt.List.Elem)
		if err != nil {
			return err
		}
		listTypes.Store(expr, vt.List)
'''),
 ("schema/var_type.go",'''func ParseVarTypeExpr(schema''','''var listTypes sync.Map

// getKind returns what kind of type an expression stands for.
func getKind(schema *WebRPCSchema, expr string) CoreType {
	var vt VarType
	if err := ParseVarTypeExpr(schema, expr, &vt); err != nil {
		return T_Unknown
	}
	return vt.Type
}

func ParseVarTypeExpr(schema'''),
 ("schema/var_type.go",'''	"strings"
''','''	"strings"
	"sync"
''')],
 dict(demo={"demo_test.go":'''package schema

import (
	"testing"
)

func TestDemo(t *testing.T) {
	parse := func(field string) *WebRPCSchema {
		s, err := ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"x","version":"v1","basepath":"","types":[{"kind":"struct","name":"A","fields":[{"name":"` + field + `","type":"int"}]},{"kind":"struct","name":"B","fields":[{"name":"list","type":"[]A"}]}]}`))
		if err != nil {
			t.Fatal(err)
		}
		return s
	}
	parse("first")
	s := parse("second")
	if got := s.Types[1].Fields[0].Type.List.Elem.Struct.Type; got != s.Types[0] {
		t.Fatal("the element is of another schema, with the field", got.Fields[0].Name)
	}
}
'''}, run=gotest("schema","TestDemo")))
bug("kept-templates","C11","two generations in one process from the same directory, whose templates change in between",
 "templates of a local directory are kept for the process, and so a later generation uses those of an earlier one",
 [("gen/template_source.go",'''		tmpl, err := s.tmpl.ParseGlob(filepath.Join(s.target, "/*.go.tmpl"))
		if err != nil {
			return nil, fmt.Errorf("failed to load templates from %s: %w", s.target, err)
		}
		s.TmplDir = s.target
''','''		tmpl, err := s.tmpl.ParseGlob(filepath.Join(s.target, "/*.go.tmpl"))
		if err != nil {
			return nil, fmt.Errorf("failed to load templates from %s: %w", s.target, err)
		}
		if known, ok := localTemplates.LoadOrStore(s.target, tmpl); ok {
			tmpl = known.(*template.Template)
		}
		s.TmplDir = s.target
'''),("gen/template_source.go",'''type TemplateSource struct {
	tmpl   *template.Template
''','''var localTemplates sync.Map // by directory

type TemplateSource struct {
	tmpl   *template.Template
'''),("gen/template_source.go",'''	// from local directory
	if isLocalDir(s.target) {
		s.IsLocal = true
''','''	// from local directory, which may be in use by another generation
	if isLocalDir(s.target) {
		s.IsLocal = true
''')],
 gengo('''	dir := t.TempDir()
	for _, want := range []string{"one", "two"} {
		if err := os.WriteFile(filepath.Join(dir, "main.go.tmpl"), []byte(`{{define "main"}}`+want+`{{end}}`), 0o644); err != nil {
			t.Fatal(err)
		}
		out, err := Generate(&schema.WebRPCSchema{WebrpcVersion: "v1", SchemaName: "x"}, dir, &Config{})
		if err != nil || out.Code != want {
			t.Fatalf("%v, %q instead of %q", err, out.Code, want)
		}
	}
''','\t"os"\n\t"path/filepath"\n\n\t"github.com/webrpc/webrpc/schema"\n'))
bug("import-order-by-map","C11","a document with several imports",
 "what is imported is added in the order of a map's iteration, so the order of types differs from run to run",
 [("schema/ridl/ridl.go",'''	for _, line := range q.root.Imports() {
		importPath := path.Join(path.Dir(p.path), line.Path().String())
''','''	lines := map[string]*ImportNode{}
	for i, line := range q.root.Imports() {
		lines[fmt.Sprintf("%d %s", i, line.Path())] = line
	}
	for _, line := range lines {
		importPath := path.Join(path.Dir(p.path), line.Path().String())
''')],
 dict(demo={"demo_test.go":'''package ridl

import (
	"testing"
	"testing/fstest"
)

func TestDemo(t *testing.T) {
	files := fstest.MapFS{
		"main.ridl": {Data: []byte("webrpc = v1\\nname = a\\nversion = v1\\nimport \\"a.ridl\\"\\nimport \\"b.ridl\\"\\nimport \\"c.ridl\\"\\n")},
		"a.ridl":    {Data: []byte("webrpc = v1\\nstruct A\\n  - a: int\\n")},
		"b.ridl":    {Data: []byte("webrpc = v1\\nstruct B\\n  - a: int\\n")},
		"c.ridl":    {Data: []byte("webrpc = v1\\nstruct C\\n  - a: int\\n")},
	}
	for i := 0; i < 100; i++ {
		s, err := NewParser(files, "/", "main.ridl").Parse()
		if err != nil {
			t.Fatal(err)
		}
		if s.Types[0].Name+s.Types[1].Name+s.Types[2].Name != "ABC" {
			t.Fatal("types are in another order")
		}
	}
}
'''}, run=gotest("schema/ridl","TestDemo")))
