exec(open("/verif/tools/dev/bugs/b9.py").read().split('bug("overloaded-methods"')[0]); BUGS=[]
bug("stdout-by-name","C18","an output file whose name, without its directory, is that of the standard output, in any case",
 "such a name counts as the standard output wherever it is, so the file isn't written",
 [("cmd/webrpc-gen/main.go",'''	if *outFlag == "" || *outFlag == "stdout" {''','''	if *outFlag == "" || strings.EqualFold(filepath.Base(*outFlag), "stdout") {''')],
 gen('''cat > a.ridl <<'X'
webrpc = v1
name = a
version = v1
X
mkdir tmpl
printf '{{define "main"}}{{.SchemaName}}{{end}}' > tmpl/main.go.tmpl
./webrpc-gen -schema=a.ridl -target=./tmpl -out=gen/stdout -silent || exit 1
[ "$(cat gen/stdout)" = a ]
'''))
bug("hash-of-line-ends","C12","texts which contain a carriage return before a line break",
 "line breaks are normalised before the schema is hashed, so schemas which differ in them have the same hash",
 [("schema/schema.go",'''	h := sha1.New()
	h.Write([]byte(jsonString))''','''	h := sha1.New()
	h.Write([]byte(strings.ReplaceAll(jsonString, "\\\\r\\\\n", "\\\\n")))''')],
 schema('''	hash := func(comment string) string {
		s, err := ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"x","version":"v1","basepath":"","types":[],"errors":[{"code":1,"name":"E","message":"` + comment + `","httpStatus":400}],"services":[]}`))
		if err != nil {
			t.Fatal(err)
		}
		h, err := s.SchemaHash()
		if err != nil {
			t.Fatal(err)
		}
		return h
	}
	if hash("a\\\\nb") == hash("a\\\\r\\\\nb") {
		t.Fatal("same")
	}
'''))
bug("same-filters","C18","-ignore and -match with the same value",
 "both filters together are only refused when they differ; with the same value, the output has no methods at all",
 [("cmd/webrpc-gen/main.go",'''	if *ignoreFlag != "" && *matchFlag != "" {''','''	if *ignoreFlag != "" && *matchFlag != "" && *ignoreFlag != *matchFlag {''')],
 gen('''cat > a.ridl <<'X'
webrpc = v1
name = a
version = v1
service S
  @acl
  - M()
X
mkdir tmpl
printf '{{define "main"}}{{.SchemaName}}{{end}}' > tmpl/main.go.tmpl
if ./webrpc-gen -schema=a.ridl -target=./tmpl -out=o -silent -ignore=@acl -match=@acl; then exit 1; fi
[ ! -e o ]
'''))
bug("base-path-of-methods","C17","a schema without basepath whose first service has lost all its methods to a filter",
 "the default basepath is only set if the first service has methods, so other services of the schema lose it",
 [("gen/gen.go",'''	if proto.BasePath == "" && len(proto.Services) > 0 {''','''	if proto.BasePath == "" && len(proto.Services) > 0 && len(proto.Services[0].Methods) > 0 {''')],
 gengo('''	s, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"x","version":"v1","basepath":"","types":[],"errors":[],"services":[{"name":"S","methods":[{"name":"M","annotations":{"acl":{"annotationType":"acl","value":""}},"inputs":[],"outputs":[]}]},{"name":"T","methods":[{"name":"N","annotations":{},"inputs":[],"outputs":[]}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	s = schema.IgnoreMethodsWithAnnotations(s, map[string]string{"acl": ""})
	dir := filepath.Join(t.TempDir(), "tmpl")
	if err := os.Mkdir(dir, 0o755); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "main.go.tmpl"), []byte(`{{define "main"}}{{.BasePath}}{{end}}`), 0o644); err != nil {
		t.Fatal(err)
	}
	out, err := Generate(s, dir, &Config{})
	if err != nil || out.Code != "/rpc/" {
		t.Fatal(err, out)
	}
''','\t"os"\n\t"path/filepath"\n\n\t"github.com/webrpc/webrpc/schema"\n'))
