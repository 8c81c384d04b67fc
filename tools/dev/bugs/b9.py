exec(open("/verif/tools/dev/bugs/b3.py").read().split("RIDL='''cat")[0])
SE="schema/service.go"; HE="schema/helpers.go"
def js(types="",errors="",services=""): return '{"webrpc":"v1","name":"x","version":"v1","basepath":"","types":['+types+'],"errors":['+errors+'],"services":['+services+']}'
bug("overloaded-methods","C06","two methods of a service with the same name and different numbers of arguments",
 "names of methods are compared together with the number of their arguments",
 [(SE,'''		methodNameLower := strings.ToLower(methodName)
''','''		methodNameLower := fmt.Sprintf("%s/%d", strings.ToLower(methodName), len(method.Inputs))
''')],
 schema('''	_, err := ParseSchemaJSON([]byte(`'''+js(services='''{"name":"S","methods":[{"name":"Get","annotations":{},"inputs":[],"outputs":[]},{"name":"get","annotations":{},"inputs":[{"name":"a","type":"int","optional":false}],"outputs":[]}]}''')+'''`))
	if err == nil {
		t.Fatal("accepted")
	}
'''))
bug("errors-of-nothing","C07","a method which names an error, in a schema which declares none",
 "errors of methods are only looked up when the schema declares errors",
 [(SE,'''		if !found {
			return fmt.Errorf("schema error: method '%s' in service '%s' references undefined''','''		if !found && len(schema.Errors) > 0 {
			return fmt.Errorf("schema error: method '%s' in service '%s' references undefined''')],
 schema('''	_, err := ParseSchemaJSON([]byte(`'''+js(services='''{"name":"S","methods":[{"name":"Get","annotations":{},"inputs":[],"outputs":[],"errors":["Gone"]}]}''')+'''`))
	if err == nil {
		t.Fatal("accepted")
	}
'''))
bug("optional-struct-bigint","C15","an optional argument which is a struct with a bigint somewhere in it",
 "optional structs are left out of the requests' list of bigints",
 [(HE,'''				if vt.Type == T_Struct && vt.Struct != nil && structHasBigIntRecursive(vt.Struct.Type) { // nested struct''','''				if vt.Type == T_Struct && !arg.Optional && vt.Struct != nil && structHasBigIntRecursive(vt.Struct.Type) { // nested struct''')],
 schema('''	s, err := ParseSchemaJSON([]byte(`'''+js('''{"kind":"struct","name":"A","fields":[{"name":"f","type":"bigint"}]}''',services='''{"name":"S","methods":[{"name":"Get","annotations":{},"inputs":[{"name":"a","type":"A","optional":true}],"outputs":[]}]}''')+'''`))
	if err != nil {
		t.Fatal(err)
	}
	if got := SchemaBigIntFieldsByType(s); len(got["GetRequest"]) != 1 {
		t.Fatal(got)
	}
'''))
bug("sort-by-number","C16","the function sort with texts which are numbers",
 "numbers are sorted by their value, other things as texts",
 [("gen/funcmap_generic.go",'''		return toString(sorted[i]) < toString(sorted[j])''','''		a, b := toString(sorted[i]), toString(sorted[j])
		if x, err := strconv.Atoi(a); err == nil {
			if y, err := strconv.Atoi(b); err == nil {
				return x < y
			}
		}
		return a < b'''),("gen/funcmap_generic.go",'	"sort"\n','	"sort"\n	"strconv"\n')],
 gengo('''	got := sortFn([]interface{}{"9", "10"})
	if got[0] != "10" || got[1] != "9" {
		t.Fatal(got)
	}
'''))
bug("status-after-message","C22","an error whose HTTP status is not a number",
 "the parser doesn't go back to the word which is wrong, so the end of the line is reported",
 [("schema/ridl/error_parser.go",'''			p.rewind(1)
			return p.stateError(fmt.Errorf("expecting HTTP''','''			return p.stateError(fmt.Errorf("expecting HTTP''')],
 ridl('''	_, err := one("webrpc = v1\\nname = a\\nversion = v1\\nerror 1 A \\"a\\" HTTP x5\\n")
	if err == nil || !strings.Contains(err.Error(), "4:") || !strings.Contains(err.Error(), "near \\"x5\\"") {
		t.Fatal(err)
	}
''','\t"strings"\n'))
bug("wait-like-a-server","C20","-waitForServer with a -timeout, while no server comes",
 "the time to wait is taken from the flags of the server mode",
 [("cmd/webrpc-test/main.go","client.Wait(*waitUrlFlag, *waitTimeoutFlag)","client.Wait(*waitUrlFlag, *serverTimeoutFlag)")],
 dict(run=HEAD+'''go build -o "$tmp/webrpc-test" ./cmd/webrpc-test || exit 2
timeout 20 "$tmp/webrpc-test" -waitForServer -url=http://127.0.0.1:1 -timeout=2s
[ $? = 1 ]
'''))
bug("refreshed-from-cache","C19","a refresh which fails while the templates are in the cache",
 "the age of the cache is forgotten when the cache was to be refreshed, so it is reported as just refreshed",
 [("gen/template_source.go",'''				sourceFS = cacheFS
				s.CacheAge = cacheAge
			} else {''','''				sourceFS = cacheFS
				if !s.config.RefreshCache {
					s.CacheAge = cacheAge
				}
			} else {''')],
 dict(demo={"demo_test.go":'''package gen

import (
	"errors"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"testing"
	"time"

	"github.com/webrpc/webrpc/schema"
)

type nothing struct{}

func (nothing) RoundTrip(*http.Request) (*http.Response, error) { return nil, errors.New("offline") }

func TestDemo(t *testing.T) {
	t.Setenv("TMPDIR", t.TempDir())
	http.DefaultTransport = nothing{}
	const target = "github.com/a/gen-b@v1.0.0"
	s, err := NewTemplateSource(target, &Config{})
	if err != nil {
		t.Fatal(err)
	}
	dir, err := s.getTmpCacheDir()
	if err != nil {
		t.Fatal(err)
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		t.Fatal(err)
	}
	for name, text := range map[string]string{"main.go.tmpl": `{{define "main"}}ok{{end}}`, templateCacheInfoFilename: target, templateCacheTimestampFilename: strconv.FormatInt(time.Now().Add(-30*time.Minute).Unix(), 10)} {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(text), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	out, err := Generate(&schema.WebRPCSchema{WebrpcVersion: "v1", SchemaName: "x"}, target, &Config{RefreshCache: true})
	if err != nil {
		t.Fatal(err)
	}
	if out.CacheAge < 29*time.Minute || out.CacheRefreshErr == nil {
		t.Fatal(out.CacheAge, out.CacheRefreshErr)
	}
}
'''}, run=gotest("gen","TestDemo",stub=True)))
bug("errors-of-method-once","C03","a method which names an error twice",
 "errors which a method names again are dropped",
 [("schema/ridl/ridl.go",'''			methodErrors := make([]string, len(method.Errors()))
			for i, errorToken := range method.Errors() {
				methodErrors[i] = errorToken.String()
			}
''','''			methodErrors := make([]string, 0, len(method.Errors()))
			for _, errorToken := range method.Errors() {
				if !slices.Contains(methodErrors, errorToken.String()) {
					methodErrors = append(methodErrors, errorToken.String())
				}
			}
''')],
 ridl('''	s, err := one("webrpc = v1\\nname = a\\nversion = v1\\nerror 1 AAA \\"a\\" HTTP 400\\nservice S\\n- M() errors AAA | AAA\\n")
	if err != nil {
		t.Skip(err)
	}
	if strings.Count(s, "AAA") != 3 {
		t.Fatal(s)
	}
''','\t"strings"\n'))
