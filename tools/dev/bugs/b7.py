exec(open("/verif/tools/dev/bugs/b3.py").read().split("RIDL='''cat")[0])
bug("nested-map-twice","C02","a type expression with some 25 or more nested maps",
 "the value type of a map is resolved once to check it and once more to keep it, at every level, so the time doubles with each nested map and loading a short file practically never ends",
 [("schema/var_type.go",'''		// shift expr and keep parsing
		expr = value

		err = ParseVarTypeExpr(schema, expr, vt.Map.Value)
		if err != nil {
			return err
		}
''','''		// the error names the whole map rather than a part of it
		if ParseVarTypeExpr(schema, value, &VarType{}) != nil {
			return fmt.Errorf("schema error: invalid map value '%s' for '%s'", value, expr)
		}
		if err := ParseVarTypeExpr(schema, value, vt.Map.Value); err != nil {
			return err
		}
''')],
 dict(demo={"demo_test.go":'''package schema

import (
	"strings"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	done := make(chan error, 1)
	go func() {
		expr := strings.Repeat("map<string,", 50) + "int" + strings.Repeat(">", 50)
		_, err := ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"x","version":"v1","basepath":"","types":[{"kind":"struct","name":"A","fields":[{"name":"f","type":"` + expr + `"}]}]}`))
		done <- err
	}()
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(20 * time.Second):
		t.Fatal("loading doesn't end")
	}
}
'''}, run=gotest("schema","TestDemo")))
bug("kept-types-in-bits","C14","a schema with more than 64 types, of which a selected service uses one after the 64th",
 "which types are kept is noted in the bits of a 64 bit number, so used types after the 64th are dropped",
 [("schema/schema.go",'''	var kept []*Type
	for _, t := range s.Types {
		if usedIncluded[t.Name] {
			kept = append(kept, t)
		}
	}
	s.Types = kept
''','''	var keep uint64
	for i, t := range s.Types {
		if usedIncluded[t.Name] {
			keep |= 1 << i
		}
	}
	kept := make([]*Type, 0, bits.OnesCount64(keep))
	for i, t := range s.Types {
		if keep&(1<<i) != 0 {
			kept = append(kept, t)
		}
	}
	s.Types = kept
'''),("schema/schema.go",'''	"iter"
''','''	"iter"
	"math/bits"
''')],
 dict(demo={"demo_test.go":'''package schema

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	doc := `{"webrpc":"v1","name":"x","version":"v1","basepath":"","types":[`
	args := ""
	for i := range 100 {
		if i > 0 {
			doc, args = doc+",", args+","
		}
		doc += fmt.Sprintf(`{"kind":"struct","name":"T%d","fields":[{"name":"f","type":"int"}]}`, i)
		args += fmt.Sprintf(`{"name":"a%d","type":"T%d"}`, i, i)
	}
	doc += `],"services":[{"name":"S","methods":[{"name":"M","inputs":[` + args + `],"outputs":[]}]}]}`
	s, err := ParseSchemaJSON([]byte(doc))
	if err != nil {
		t.Fatal(err)
	}
	if n := len(MethodTreeShake(s, []string{"S"}).Types); n != 100 {
		t.Fatalf("%d of 100 types are left", n)
	}
}
'''}, run=gotest("schema","TestDemo")))
bug("import-depth","C10","a chain of imports more than 16 files deep",
 "imports nested more than 16 levels deep are taken to be circular",
 [("schema/ridl/ridl.go",'''	if p.imports.IsCircular() {
		return nil, fmt.Errorf("circular import %q in file %q", path.Base(filename), p.path)
	}

	m := NewParser(p.fsys, p.root, filename)
''','''	// every file on the way here is a parent, so there's no need to search the whole graph
	depth := 0
	for q := p; q != nil; q = q.parent {
		if depth++; q.path == filename || depth > maxImportDepth {
			return nil, fmt.Errorf("circular import %q in file %q", path.Base(filename), p.path)
		}
	}

	m := NewParser(p.fsys, p.root, filename)
'''),("schema/ridl/ridl.go",'''func (p *Parser) importParser(''','''const maxImportDepth = 16

func (p *Parser) importParser(''')],
 dict(demo={"demo_test.go":'''package ridl

import (
	"fmt"
	"testing"
	"testing/fstest"
)

func TestDemo(t *testing.T) {
	fsys := fstest.MapFS{}
	for i := range 30 {
		text := fmt.Sprintf("webrpc = v1\\n\\nimport f%d.ridl\\n\\nstruct T%d\\n  - a: int\\n", i+1, i)
		if i == 29 {
			text = "webrpc = v1\\n\\nstruct T29\\n  - a: int\\n"
		}
		fsys[fmt.Sprintf("f%d.ridl", i)] = &fstest.MapFile{Data: []byte(text)}
	}
	s, err := NewParser(fsys, ".", "f0.ridl").Parse()
	if err != nil {
		t.Fatal(err)
	}
	if len(s.Types) != 30 {
		t.Fatal(len(s.Types))
	}
}
'''}, run=gotest("schema/ridl","TestDemo")))
bug("bigint-memo-in-cycle","C15","structs which refer to each other in a cycle, with the bigint reached from one of them only after the way back",
 "whether a struct holds a bigint is remembered for the whole analysis, with 'no' while it is still being searched, so a struct found on a cycle back to it is remembered without its bigint",
 [("schema/helpers.go",'''	// cache for recursive detection to avoid cycles
	visited := make(map[string]bool)

	var structHasBigIntRecursive func(t *Type) bool
	structHasBigIntRecursive = func(t *Type) bool {
		if t == nil || t.Kind != TypeKind_Struct {
			return false
		}
		name := t.Name
		if visited[name] { // cycle guard
			return false
		}
		// The outcome for a struct within a cycle depends on where the search started,
		// so each search starts anew.
		if len(visited) == 0 {
			defer clear(visited)
		}
		visited[name] = true
''','''	// cache for recursive detection, also to avoid cycles
	known := make(map[string]bool)

	var structHasBigIntRecursive func(t *Type) bool
	structHasBigIntRecursive = func(t *Type) (has bool) {
		if t == nil || t.Kind != TypeKind_Struct {
			return false
		}
		name := t.Name
		if has, ok := known[name]; ok { // seen before, or within a cycle
			return has
		}
		known[name] = false
		defer func() { known[name] = has }()
''')],
 dict(demo={"demo_test.go":'''package schema

import "testing"

func TestDemo(t *testing.T) {
	// B is searched for the first time from A, where it leads back to A
	s, err := ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"x","version":"v1","basepath":"","types":[
		{"kind":"struct","name":"Top","fields":[{"name":"a","type":"A"}]},
		{"kind":"struct","name":"A","fields":[{"name":"b","type":"B"},{"name":"n","type":"bigint"}]},
		{"kind":"struct","name":"B","fields":[{"name":"a","type":"A"}]},
		{"kind":"struct","name":"C","fields":[{"name":"b","type":"B"}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	got := SchemaBigIntFieldsByType(s)
	if len(got["C"]) != 1 || len(got["B"]) != 1 || len(got["A"]) != 2 || len(got["Top"]) != 1 {
		t.Fatal(got)
	}
}
'''}, run=gotest("schema","TestDemo")))
bug("binary-file-leak","C01","a NUL character in a RIDL file",
 "a file with NUL characters is rejected before its tokens are all read, so the goroutine of the lexer waits forever",
 [("schema/ridl/tokenizer.go",'''	tokens := []token{}
	lineComments''','''	tokens := make([]token, 0, len(src)/4)
	lineComments'''),
  ("schema/ridl/tokenizer.go",'''			break
		}

		// a hash''','''			break
		}

		if tok.tt == tokenExtra && tok.val == "\\x00" {
			return nil, nil, fmt.Errorf("line %d: not a text file", tok.line)
		}

		// a hash'''),
  ("schema/ridl/tokenizer.go",'''import "strings"
''','''import (
	"fmt"
	"strings"
)
''')],
 dict(demo={"demo_test.go":'''package ridl

import (
	"runtime"
	"testing"
	"testing/fstest"
	"time"
)

func TestDemo(t *testing.T) {
	before := runtime.NumGoroutine()
	for range 50 {
		fsys := fstest.MapFS{"a.ridl": &fstest.MapFile{Data: []byte("webrpc = v1\\n\\x00\\nstruct T\\n  - a: int\\n")}}
		_, _ = NewParser(fsys, ".", "a.ridl").Parse()
	}
	for range 100 {
		if runtime.NumGoroutine() < before+20 {
			return
		}
		time.Sleep(20 * time.Millisecond)
	}
	t.Fatalf("%d goroutines are left", runtime.NumGoroutine()-before)
}
'''}, run=gotest("schema/ridl","TestDemo")))
