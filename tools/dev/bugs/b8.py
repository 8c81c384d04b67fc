exec(open("/verif/tools/dev/bugs/b3.py").read().split("RIDL='''cat")[0])
G="gen/gen.go"; SC="schema/schema.go"; M="cmd/webrpc-gen/main.go"
bug("pooled-output","C11","a generation whose template prints something and then fails, followed by another one in the same process",
 "buffers for the output are kept in a pool and emptied only after generations which succeed, so what a failing template has printed is at the start of a later output",
 [(G,'''	var b bytes.Buffer
	err = tmpl.ExecuteTemplate(&b, "main", vars)
	if err != nil {
		return genOutput, err
	}
''','''	b := buffers.Get().(*bytes.Buffer)
	defer buffers.Put(b)
	err = tmpl.ExecuteTemplate(b, "main", vars)
	if err != nil {
		return genOutput, err
	}
	defer b.Reset()
'''),(G,'''func getWebrpcGenCommand()''','''var buffers = sync.Pool{New: func() any { return new(bytes.Buffer) }}

func getWebrpcGenCommand()'''),(G,'''	"strings"
''','''	"strings"
	"sync"
''')],
 gengo('''	for range 20 {
		for text, want := range map[string]string{"partial{{last (array)}}": "", "whole": "whole"} {
			dir := t.TempDir()
			if err := os.WriteFile(filepath.Join(dir, "main.go.tmpl"), []byte(`{{define "main"}}`+text+`{{end}}`), 0o644); err != nil {
				t.Fatal(err)
			}
			out, err := Generate(&schema.WebRPCSchema{WebrpcVersion: "v1", SchemaName: "x"}, dir, &Config{})
			if (err == nil) != (want != "") || err == nil && out.Code != want {
				t.Fatalf("%v, %q instead of %q", err, out.Code, want)
			}
		}
	}
''','\t"os"\n\t"path/filepath"\n\n\t"github.com/webrpc/webrpc/schema"\n'))
bug("kept-types-by-kind","C14","a selected service whose types are declared in another order than aliases, enums and structs",
 "the types which are kept are gathered kind by kind, so they change their order",
 [(SC,'''	var kept []*Type
	for _, t := range s.Types {
		if usedIncluded[t.Name] {
			kept = append(kept, t)
		}
	}
''','''	var kept []*Type
	for _, kind := range []string{TypeKind_Alias, TypeKind_Enum, TypeKind_Struct} {
		for _, t := range s.Types {
			if t.Kind == kind && usedIncluded[t.Name] {
				kept = append(kept, t)
			}
		}
	}
''')],
 schema('''	s, err := ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"x","version":"v1","basepath":"","types":[
		{"kind":"struct","name":"A","fields":[{"name":"f","type":"B"}]},{"kind":"alias","name":"B","type":"int"}],"errors":[],
		"services":[{"name":"S","methods":[{"name":"M","annotations":{},"inputs":[{"name":"a","type":"A","optional":false}],"outputs":[]}]},{"name":"T","methods":[{"name":"N","annotations":{},"inputs":[],"outputs":[]}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	s = MethodTreeShake(s, []string{"S"})
	if len(s.Types) != 2 || s.Types[0].Name != "A" || s.Types[1].Name != "B" {
		t.Fatal("types", s.Types)
	}
'''))
bug("output-of-same-size","C18","an output file which was changed within the last minute, but has as many bytes as the output",
 "an output file is left as it is if it is recent and has the size of the output, though its content is another",
 [(M,'''	err = os.WriteFile(outfile, []byte(protoGen), 0o644)''','''	st, err := os.Stat(outfile)
	if err != nil || st.Size() != int64(len(protoGen)) || time.Since(st.ModTime()) > time.Minute { // or it has just been generated
		err = os.WriteFile(outfile, []byte(protoGen), 0o644)
	}''')],
 gen('''cat > a.ridl <<'X'
webrpc = v1
name = a
version = v1
X
mkdir tmpl
printf '{{define "main"}}{{.Opts.text}}{{end}}' > tmpl/main.go.tmpl
./webrpc-gen -schema=a.ridl -target=./tmpl -out=o -silent -text=one || exit 1
./webrpc-gen -schema=a.ridl -target=./tmpl -out=o -silent -text=two || exit 1
[ "$(cat o)" = two ]
'''))
bug("error-names-buffer","C03","two methods with lists of errors",
 "the names of a method's errors are gathered in a buffer which the parser uses again, so earlier methods get the errors of later ones",
 [("schema/ridl/error_list_parser.go",'''	errorNames := []*TokenNode{}
''','''	errorNames := p.errorNames[:0]
	defer func() { p.errorNames = errorNames }()
'''),("schema/ridl/parser.go",'''	root RootNode
}''','''	root RootNode

	errorNames []*TokenNode // used again for each list
}''')],
 ridl('''	s, err := one("webrpc = v1\\nname = a\\nversion = v1\\nerror 1 AAA \\"a\\" HTTP 400\\nerror 2 BBB \\"b\\" HTTP 400\\nservice S\\n- M() errors AAA\\n- N() errors BBB\\n")
	if err != nil || strings.Count(s, "AAA") != 2 || strings.Count(s, "BBB") != 2 {
		t.Fatal(s, err)
	}
''','\t"strings"\n'))
bug("codes-in-16-bits","C07","two errors whose codes differ by a multiple of 65536",
 "codes are compared as 16 bit numbers, so errors whose codes differ are reported as duplicates",
 [("schema/error.go",'''	codeList := map[int]struct{}{}''','''	codeList := map[int16]struct{}{}'''),("schema/error.go",'''codeList[e.Code]; ok''','''codeList[int16(e.Code)]; ok'''),("schema/error.go",'''codeList[e.Code] =''','''codeList[int16(e.Code)] =''')],
 schema('''	_, err := ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"x","version":"v1","basepath":"","types":[],"errors":[
		{"code":1,"name":"A","message":"a","httpStatus":400},{"code":65537,"name":"B","message":"b","httpStatus":400}],"services":[]}`))
	if err != nil {
		t.Fatal(err)
	}
'''))
bug("link-replaced","C18","an output file which is a symbolic link",
 "a link at the place of the output is removed first, so the file it leads to keeps its old content",
 [(M,'''	err = os.WriteFile(outfile, []byte(protoGen), 0o644)''','''	if _, err := os.Readlink(outfile); err == nil {
		os.Remove(outfile)
	}
	f, err := os.OpenFile(outfile, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
	if err == nil {
		defer f.Close()
		_, err = f.Write([]byte(protoGen))
	}''')],
 gen('''cat > a.ridl <<'X'
webrpc = v1
name = a
version = v1
X
mkdir tmpl
printf '{{define "main"}}{{.Opts.text}}{{end}}' > tmpl/main.go.tmpl
echo old > real
ln -s real o
./webrpc-gen -schema=a.ridl -target=./tmpl -out=o -silent -text=new || exit 1
[ "$(cat o)" = new ] && [ "$(cat real)" = new ]
'''))
bug("template-file-names","C17","a directory with a template file whose name begins with an underscore or a digit",
 "template files whose names begin with something other than a letter aren't loaded",
 [("gen/template_source.go",'s.tmpl.ParseGlob(filepath.Join(s.target, "/*.go.tmpl"))','s.tmpl.ParseGlob(filepath.Join(s.target, "/[a-zA-Z]*.go.tmpl"))')],
 gengo('''	dir := t.TempDir()
	for name, text := range map[string]string{"main.go.tmpl": `{{define "main"}}{{template "x"}}{{end}}`, "_x.go.tmpl": `{{define "x"}}ok{{end}}`} {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(text), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	out, err := Generate(&schema.WebRPCSchema{WebrpcVersion: "v1", SchemaName: "x"}, dir, &Config{})
	if err != nil || out.Code != "ok" {
		t.Fatal(err, out)
	}
''','\t"os"\n\t"path/filepath"\n\n\t"github.com/webrpc/webrpc/schema"\n'))
bug("in-by-text","C16","the function in with a value and an element of another type which are printed alike",
 "in compares what values are printed as, too, so a text is found in a list which holds a number or truth value",
 [("gen/funcmap_generic.go",'''		if reflect.DeepEqual(first, value) {''','''		if reflect.DeepEqual(first, value) || fmt.Sprint(first) == fmt.Sprint(value) {''')],
 gengo('''	if in(1, "1") || in("true", true) || !in("a", "b", "a") {
		t.Fatal("1 is not the text 1")
	}
''') )
