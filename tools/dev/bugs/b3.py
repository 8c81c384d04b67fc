exec(open("/verif/tools/dev/bugs/b1.py").read().split("BUGS=[]")[0]); BUGS=[]
def bug(id,prop,needs,breaks,edits,d): BUGS.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,**d))
def gen(body): return dict(run=genrun(body))
def gengo(body, imports=""):
    return dict(demo={"demo_test.go":'package gen\n\nimport (\n\t"testing"\n'+imports+')\n\nfunc TestDemo(t *testing.T) {\n'+body+"}\n"}, run=gotest("gen","TestDemo",stub=True))
RIDL='''cat > a.ridl <<'R'
webrpc = v1
name = a
version = v1
basepath = /rpc
service S
  - One()
  @acl:"role:admin"
  - Two()
  @acl:role
  - Three()
R
mkdir tmpl
'''
bug("stream-tags","C09","a streaming method in a schema which is written as JSON",
 "both stream flags get the same JSON key, and so encoding/json silently leaves out both: the JSON form of a streaming method is that of a plain one",
 [("schema/service.go",'`json:"streamInput,omitempty"`','`json:"streamOutput,omitempty"`')],
 ridl('''	s, err := one("webrpc = v1\\nname = a\\nversion = v1\\nservice S\\n  - M() => stream (a: int)\\n")
	if err != nil || !strings.Contains(s, "streamOutput") {
		t.Fatal(s, err)
	}
''','\t"strings"\n'))
bug("min-version-major","C16","a version of a lower major but higher minor number than the one asked for",
 "the minor number decides whenever the major number isn't higher",
 [("gen/funcmap_flow.go",'''	if major != minMajor {
		return major > minMajor
	}
''','''	if major > minMajor {
		return true
	}
''')],
 gengo('''	if minVersion("v1.9", "v2.1") {
		t.Fatal("v1.9 is not v2.1 or later")
	}
'''))
bug("go-target-by-name","C17","a local directory of templates for another language whose name contains that of the Go generator",
 "a target counts as Go if its name contains gen-golang, so output of templates derived from it, for other languages, is run through the Go formatter",
 [("gen/helpers.go",'''	if strings.HasSuffix(target, "gen-golang") {
		return true
	}

	return false''','''	return strings.Contains(target, "gen-golang")''')],
 gen(RIDL+'''mkdir gen-golang-docs
printf '{{define "main"}}# API   of {{.SchemaName}}\\n{{end}}' > gen-golang-docs/main.go.tmpl
./webrpc-gen -schema=a.ridl -target=./gen-golang-docs -out=o.md -silent || exit 1
[ "$(cat o.md)" = "# API   of a" ]
'''))
bug("raw-source-lost","C17","templates of a Go target which print something that is not valid Go",
 "when the formatter fails, its empty result is returned instead of the source",
 [("gen/helpers.go",'''	if err != nil {
		return string(source), fmt.Errorf("failed to format generated Go source: %w", err)
	}
	return string(formatted), nil''','''	if err != nil {
		err = fmt.Errorf("failed to format generated Go source: %w", err)
	}
	return string(formatted), err''')],
 gen(RIDL+'''mkdir gen-golang
printf '{{define "main"}}package main func (\\n{{end}}' > gen-golang/main.go.tmpl
./webrpc-gen -schema=a.ridl -target=./gen-golang -out=o.go > log 2>&1
grep -q "package main func" o.go
'''))
bug("output-not-truncated","C18","an output file which exists and is longer than the new output",
 "the output file is opened without being truncated, so the end of a longer earlier output stays in it",
 [("cmd/webrpc-gen/main.go",'''	err = os.WriteFile(outfile, []byte(protoGen), 0o644)
	if err != nil {
		return err
	}

	return nil''','''	f, err := os.OpenFile(outfile, os.O_WRONLY|os.O_CREATE, 0o644)
	if err != nil {
		return err
	}
	if _, err := f.Write(protoGen); err != nil {
		f.Close()
		return err
	}

	return f.Close()''')],
 gen(RIDL+'''printf '{{define "main"}}{{.Opts.text}}{{end}}' > tmpl/main.go.tmpl
./webrpc-gen -schema=a.ridl -target=./tmpl -out=o -silent -text=longer || exit 1
./webrpc-gen -schema=a.ridl -target=./tmpl -out=o -silent -text=x || exit 1
[ "$(cat o)" = x ]
'''))
bug("option-with-equal-sign","C18","a template option whose value contains an equal sign",
 "arguments are split at the last equal sign, so part of such a value ends up in the name of the option",
 [("cmd/webrpc-gen/main.go",'strings.Index(arg, "=")','strings.LastIndex(arg, "=")')],
 gen(RIDL+'''printf '{{define "main"}}{{get .Opts "text"}}{{end}}' > tmpl/main.go.tmpl
./webrpc-gen -schema=a.ridl -target=./tmpl -out=o -silent -text=a=b || exit 1
[ "$(cat o)" = a=b ]
'''))
bug("filter-value-with-colon","C13","-match or -ignore with an annotation value which contains a colon",
 "only the part of the value up to a second colon is compared",
 [("cmd/webrpc-gen/main.go",'''		annotationName, annotationValue, _ := strings.Cut(fullAnnotation, ":")
''','''		annotationName, annotationValue := fullAnnotation, ""
		if parts := strings.Split(fullAnnotation, ":"); len(parts) > 1 {
			annotationName, annotationValue = parts[0], parts[1]
		}
''')],
 gen(RIDL+'''printf '{{define "main"}}{{range .Services}}{{range .Methods}}{{.Name}} {{end}}{{end}}{{end}}' > tmpl/main.go.tmpl
./webrpc-gen -schema=a.ridl -target=./tmpl -out=o -silent '-match=@acl:role:admin' || exit 1
[ "$(cat o)" = "Two " ]
'''))
bug("cache-by-name","C19","two remote targets whose paths end in the same name and version",
 "the cache directory is derived from the last part of the target only, so targets of different organisations share it and get each other's templates",
 [("gen/template_source.go",'''	hash.Write([]byte(s.target))

	parts := strings.Split(s.target, "/")
	name := parts[len(parts)-1]
''','''	parts := strings.Split(s.target, "/")
	name := parts[len(parts)-1]
	hash.Write([]byte(name))
''')],
 gengo('''	a, _ := NewTemplateSource("github.com/one/gen-foo@v1.0.0", &Config{})
	b, _ := NewTemplateSource("github.com/two/gen-foo@v1.0.0", &Config{})
	x, _ := a.getTmpCacheDir()
	y, _ := b.getTmpCacheDir()
	if x == y {
		t.Fatal("same cache directory", x)
	}
'''))
bug("cache-age-in-minutes","C19","a cache that was written between a minute and an hour ago",
 "the age of the cache is compared by its minutes only (as it is shown in the report), so a cache that is hours and a few minutes old is used without fetching",
 [("gen/template_source.go",'s.config.RefreshCache || cacheAge > templateCacheTTL {','s.config.RefreshCache || cacheAge.Truncate(24*time.Hour) > templateCacheTTL {')],
 gengo('''	t.Setenv("TMPDIR", t.TempDir())
	http.DefaultTransport = transport(func(*http.Request) (*http.Response, error) {
		requests++
		return nil, errors.New("offline")
	})
	s, _ := NewTemplateSource("github.com/one/gen-foo@v1.0.0", &Config{})
	dir, _ := s.getTmpCacheDir()
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, "main.go.tmpl"), []byte(`{{define "main"}}{{end}}`), 0o644)
	os.WriteFile(filepath.Join(dir, ".webrpc-gen-info"), []byte("github.com/one/gen-foo@v1.0.0"), 0o644)
	os.WriteFile(filepath.Join(dir, ".webrpc-gen-timestamp"), []byte(strconv.FormatInt(time.Now().Add(-5*time.Hour).Unix(), 10)), 0o644)
	if _, err := s.loadTemplates(); err != nil {
		t.Fatal(err)
	}
	if requests == 0 {
		t.Fatal("old cache was used without fetching")
	}
}

var requests int

type transport func(*http.Request) (*http.Response, error)

func (f transport) RoundTrip(r *http.Request) (*http.Response, error) {
	return f(r)
''','\t"errors"\n\t"net/http"\n\t"os"\n\t"path/filepath"\n\t"strconv"\n\t"time"\n'))
bug("shared-error-buffer","C20","two calls which fail at the same time",
 "the server encodes errors in a buffer which all requests share, so concurrent errors are mixed up",
 [("tests/server/server.gen.go",'''func (s *testApiService) sendErrorJSON(''','''var errorBuf bytes.Buffer // reused between errors

func (s *testApiService) sendErrorJSON('''),
  ("tests/server/server.gen.go",'''	respBody, _ := json.Marshal(rpcErr)
	w.Write(respBody)
}

// Server bundles''','''	errorBuf.Reset()
	json.NewEncoder(&errorBuf).Encode(rpcErr)
	w.Write(errorBuf.Bytes())
}

// Server bundles'''),
  ("tests/server/server.gen.go",'''import (
''','''import (
	"bytes"
''')],
 dict(demo={"demo_test.go":'''package tests

import (
	"context"
	"net/http"
	"net/http/httptest"
	"sync"
	"testing"

	"github.com/webrpc/webrpc/tests/client"
	"github.com/webrpc/webrpc/tests/server"
)

func TestDemo(t *testing.T) {
	srv := httptest.NewServer(server.NewTestApiServer(&server.TestServer{}))
	defer srv.Close()
	c := client.NewTestApiClient(srv.URL, http.DefaultClient)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 100; j++ {
				err, ok := c.GetSchemaError(context.Background(), i+1).(client.WebRPCError)
				if !ok || err.Code != i+1 {
					t.Error(i+1, err)
				}
			}
		}()
	}
	wg.Wait()
}
'''},run=gotest("tests","TestDemo",extra="-race ")))
bug("errors-by-status","C20","a response with a status other than 200 below 400, as a redirect or 204 from something between client and server",
 "only statuses of 400 and above are taken for errors, so other responses that no handler has sent count as success",
 [("tests/client/client.gen.go",'if resp.StatusCode != 200 {','if resp.StatusCode >= 400 {')],
 dict(demo={"demo_test.go":'''package tests

import (
	"context"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/webrpc/webrpc/tests/client"
)

func TestDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(204) }))
	defer srv.Close()
	if err := client.NewTestApiClient(srv.URL, http.DefaultClient).SendOne(context.Background(), nil); err == nil {
		t.Fatal("no error")
	}
}
'''},run=gotest("tests","TestDemo")))
