package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/webrpc/webrpc/tests"
	"github.com/webrpc/webrpc/tests/client"
	"github.com/webrpc/webrpc/tests/server"

	"verif/harness/internal/cli"
	"verif/harness/internal/model"
	"verif/harness/internal/sut"
	"verif/harness/internal/vh"
)

var quiet = log.New(io.Discard, "", 0)

// A deviation changes the response to one of the requests which the tool makes.
type deviation struct {
	method string
	code   int // of GetSchemaError
	what   string
	mu     sync.Mutex
	path   string
	agrees bool // says the same after all
	apply  func(status int, body []byte) (int, []byte)
}

var fixtureCodes = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 100, 101, 102, 103, 200, 201, 202, 300, 301, 302}

func edit(f func(m map[string]any)) func(int, []byte) (int, []byte) {
	return func(status int, body []byte) (int, []byte) {
		var m map[string]any
		dec := json.NewDecoder(strings.NewReader(string(body)))
		dec.UseNumber()
		if err := dec.Decode(&m); err != nil {
			return 599, []byte("not JSON: " + err.Error())
		}
		f(m)
		b, err := json.Marshal(m)
		if err != nil {
			panic(err)
		}
		return status, b
	}
}

// alter changes something inside of a value.
func alter(r *rand.Rand, v any, path *string) any {
	switch x := v.(type) {
	case map[string]any:
		var keys []string
		for k := range x {
			if k != "status" { // whose zero value is the one which is there
				keys = append(keys, k)
			}
		}
		slices.Sort(keys)
		if len(keys) == 0 {
			return nil
		}
		k := model.Pick(r, keys)
		*path += "." + k
		switch r.IntN(6) {
		case 0:
			*path += " is missing"
			delete(x, k)
		case 1:
			*path += " is null"
			x[k] = nil
		default:
			x[k] = alter(r, x[k], path)
		}
		return x
	case []any:
		i := r.IntN(len(x))
		*path += fmt.Sprintf("[%d]", i)
		switch r.IntN(4) {
		case 0:
			*path += " is missing"
			return slices.Delete(slices.Clone(x), i, i+1)
		case 1:
			*path += " is doubled"
			return append(x, x[i])
		}
		x[i] = alter(r, x[i], path)
		return x
	case string:
		*path += " is another string"
		return model.Pick(r, []string{x + "x", strings.ToUpper(x) + "1", x + " "})
	case json.Number:
		*path += " is another number"
		n, _ := strconv.ParseInt(x.String(), 10, 64)
		return n + 1 + int64(r.IntN(3))
	}
	panic(fmt.Sprintf("%#v", v))
}

func replaced(status int, body string) func(int, []byte) (int, []byte) {
	return func(int, []byte) (int, []byte) { return status, []byte(body) }
}

func c20deviation(r *rand.Rand) *deviation {
	d := &deviation{method: model.Pick(r, methodNames)}
	out := len(signatures[d.method].out) > 0
	if r.IntN(4) == 0 {
		d.method = "GetSchemaError"
	}
	if d.method == "GetSchemaError" {
		d.code = model.Pick(r, fixtureCodes)
	}
	if r.IntN(4) == 0 {
		d.agrees = true
		switch d.what = model.Pick(r, []string{"nothing", "unknown fields", "spaces", "no cause"}); d.what {
		case "unknown fields":
			d.apply = edit(func(m map[string]any) { m["zz"] = []int{1}; m["yy"] = map[string]any{"code": 7} })
		case "spaces":
			d.apply = func(status int, body []byte) (int, []byte) {
				return status, []byte("\n\t " + strings.ReplaceAll(string(body), "\",\"", "\" ,\n\"") + "\r\n")
			}
		case "no cause":
			d.apply = edit(func(m map[string]any) { delete(m, "cause") })
		default:
			d.apply = func(status int, body []byte) (int, []byte) { return status, body }
		}
		return d
	}
	switch {
	case d.method == "GetError":
		d.what, d.apply = "it succeeds", replaced(200, "{}")
	case d.method == "GetSchemaError":
		switch r.IntN(8) {
		case 0:
			d.what, d.apply = "it succeeds", replaced(200, "{}")
		case 1:
			other := model.Pick(r, catalogue[:18])
			if other.code == d.code {
				other = builtin(-7)
			}
			d.what = "it fails with " + other.name
			d.apply = replaced(other.status, fmt.Sprintf(`{"error":%q,"code":%d,"msg":%q,"status":%d}`, other.name, other.code, other.msg, other.status))
		case 2:
			d.what, d.apply = "the response is not JSON", replaced(model.Pick(r, []int{500, 400, 200}), "oops")
		case 3:
			n := d.code + 1 + r.IntN(50)
			d.what, d.apply = "another code", edit(func(m map[string]any) { m["code"] = n })
		case 4:
			i := r.IntN(4)
			d.what, d.apply = "another name", edit(func(m map[string]any) {
				m["error"] = []string{"", "X", fmt.Sprint(m["error"], "s"), strings.ToLower(fmt.Sprint(m["error"]))}[i]
			})
		case 5:
			i := r.IntN(4)
			d.what, d.apply = "another message", edit(func(m map[string]any) {
				m["msg"] = []string{"", "x", fmt.Sprint(m["msg"], "."), strings.ToUpper(fmt.Sprint(m["msg"]))}[i]
			})
		case 6:
			n := model.Pick(r, []int{0, 500, 418})
			d.what, d.apply = "another status", edit(func(m map[string]any) { m["status"] = n })
		default:
			d.what, d.apply = "another cause", edit(func(m map[string]any) { m["cause"] = fmt.Sprint(m["cause"], "x") })
		}
	case r.IntN(4) == 0 || !out:
		e := model.Pick(r, catalogue)
		switch r.IntN(3) {
		case 0:
			d.what = "it fails with " + e.name
			d.apply = replaced(e.status, fmt.Sprintf(`{"error":%q,"code":%d,"msg":%q,"status":%d}`, e.name, e.code, e.msg, e.status))
		case 1:
			d.what, d.apply = "it fails without JSON", replaced(model.Pick(r, []int{400, 404, 500, 502, 201, 301}), model.Pick(r, []string{"", "oops", "{"}))
		default:
			if !out {
				d.what, d.apply = "it fails with an empty error", replaced(500, "{}")
			} else {
				d.what, d.apply = "the response is not JSON", replaced(200, model.Pick(r, []string{"", "oops", "{"}))
			}
		}
	case d.method == "GetEnumList":
		d.what = "another length"
		d.apply = replaced(200, model.Pick(r, []string{`{"list":["AVAILABLE"]}`, `{"list":[]}`, `{}`, `{"list":null}`, `{"list":["AVAILABLE","NOT_AVAILABLE","AVAILABLE"]}`, `{"List2":["AVAILABLE","NOT_AVAILABLE"]}`}))
	case d.method == "GetEnumMap":
		d.what = "another length"
		d.apply = replaced(200, model.Pick(r, []string{`{"map":{"READ":1}}`, `{"map":{}}`, `{}`, `{"map":null}`, `{"map":{"READ":1,"WRITE":2,"OWNER":3}}`}))
	case d.method == "GetMulti" && r.IntN(3) == 0:
		d.what, d.apply = "values swapped", edit(func(m map[string]any) { m["two"], m["three"] = m["three"], m["two"] })
	default:
		seed := r.Uint64()
		d.what = "another value"
		d.apply = edit(func(m map[string]any) {
			d.mu.Lock()
			defer d.mu.Unlock()
			d.path = ""
			alter(rand.New(rand.NewPCG(seed, 1)), m, &d.path)
		})
	}
	return d
}

// c20peer is the test server with a deviation.
func c20peer(d *deviation, chunked bool) (*httptest.Server, *sync.Map) {
	handler := server.NewTestApiServer(&server.TestServer{})
	seen := &sync.Map{}
	srv := httptest.NewUnstartedServer(http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
		body, _ := io.ReadAll(req.Body)
		req.Body = io.NopCloser(strings.NewReader(string(body)))
		rec := httptest.NewRecorder()
		handler.ServeHTTP(rec, req)
		method := req.URL.Path[strings.LastIndex(req.URL.Path, "/")+1:]
		status, out := rec.Code, rec.Body.Bytes()
		var arg struct{ Code int }
		_ = json.Unmarshal(body, &arg)
		seen.Store(fmt.Sprint(method, arg.Code), true)
		if d != nil && method == d.method && (method != "GetSchemaError" || arg.Code == d.code) {
			status, out = d.apply(status, out)
		}
		rw.Header().Set("Content-Type", "application/json")
		rw.WriteHeader(status)
		for i, b := range out {
			_, _ = rw.Write([]byte{b})
			if chunked && i%100 == 1 {
				rw.(http.Flusher).Flush()
			}
		}
	}))
	srv.Config.ErrorLog = quiet
	srv.Start()
	return srv, seen
}

func c20deviate(c *vh.Case) {
	for range 6 {
		d := c20deviation(c.R)
		if d.what == "no cause" && d.method == "GetError" {
			d.what = "nothing"
		}
		srv, seen := c20peer(d, c.R.IntN(3) == 0)
		ctx, cancel := context.WithTimeout(context.Background(), 50*time.Second)
		err := client.RunTests(ctx, srv.URL)
		cancel()
		srv.Close()
		where := d.method
		if where == "GetSchemaError" {
			where += fmt.Sprintf("(%d)", d.code)
		}
		switch {
		case d.agrees && err != nil:
			c.Failf("agreeing", "a server which agrees (%s, %s) fails: %v", where, d.what, err)
		case !d.agrees && err == nil:
			c.Failf("deviating", "%s: %s, and no test fails", where, d.what)
		case !d.agrees && len(err.Error()) < 20:
			c.Failf("deviating", "%s: %s, and the error is %q", where, d.what, err)
		}
		for _, m := range methodNames {
			if _, ok := seen.Load(m + "0"); !ok && m != "GetSchemaError" {
				c.Failf("untested", "%s is not called", m)
			}
		}
		for _, code := range fixtureCodes {
			if _, ok := seen.Load(fmt.Sprint("GetSchemaError", code)); !ok {
				c.Failf("untested", "GetSchemaError(%d) is not called", code)
			}
		}
		c.Count(map[bool]string{true: "agreeing peers", false: "deviating peers"}[d.agrees], 1)
		d.mu.Lock()
		d.what += d.path
		d.mu.Unlock()
		c.Distinct(where + d.what)
		c.Sample(map[string]any{"method": where, "deviation": d.what, "error": fmt.Sprint(err)})
	}
	c20shipped(c)
}

// c20shipped sends the shipped server values of all kinds, which it has to tell from its own.
func c20shipped(c *vh.Case) {
	r := c.R
	ours := map[string][]any{}
	srv, err := server.RunTestServer("127.0.0.1:0", time.Minute)
	if err != nil {
		c.Failf("server", "the test server cannot be started: %v", err)
		return
	}
	_ = srv.Close()
	ts := httptest.NewServer(server.NewTestApiServer(&server.TestServer{}))
	defer ts.Close()
	api := client.NewTestApiClient(ts.URL, ts.Client())
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Second)
	defer cancel()
	for _, m := range []string{"GetOne", "GetMulti", "GetComplex"} {
		out, err := send(ctx, api, &call{method: m})
		if err != nil {
			c.Failf("shipped", "%s: %v", m, err)
			return
		}
		ours["Send"+m[3:]] = out
	}
	var wg sync.WaitGroup
	msgs := make([]string, 8)
	for g := range msgs {
		m := model.Pick(r, []string{"SendOne", "SendMulti", "SendComplex", "GetSchemaError"})
		if m == "GetSchemaError" {
			code := model.Pick(r, append([]int{9, -1, 99, 104, 303, 1 << 40}, fixtureCodes...))
			wg.Add(1)
			go func() {
				defer wg.Done()
				err := api.GetSchemaError(ctx, code)
				if !slices.Contains(fixtureCodes, code) {
					if err != nil {
						msgs[g] = fmt.Sprintf("GetSchemaError(%d): %v", code, err)
					}
					return
				}
				cause := map[int]string{0: "failed to read file: unexpected EOF", 1: "failed to verify JWT token", 100: "1000 req/min exceeded", 302: ".wav is not supported"}[code]
				if err := (failure{builtin(code), cause}).check(err); err != nil {
					msgs[g] = fmt.Sprintf("GetSchemaError(%d): %v", code, err)
				}
			}()
			continue
		}
		in := slices.Clone(ours[m])
		if r.IntN(3) > 0 {
			i := r.IntN(len(in))
			kind := signatures[m].in[i]
			in[i] = clientValue(value(r, kind))
		}
		same := sameAll(ours[m], in) == nil
		wg.Add(1)
		go func() {
			defer wg.Done()
			var err error
			switch m {
			case "SendOne":
				err = api.SendOne(ctx, in[0].(*client.Simple))
			case "SendMulti":
				err = api.SendMulti(ctx, in[0].(*client.Simple), in[1].(*client.Simple), in[2].(*client.Simple))
			default:
				err = api.SendComplex(ctx, in[0].(*client.Complex))
			}
			e, _ := err.(client.WebRPCError)
			if same && err != nil || !same && (e.Code != 8 || e.Name != "UnexpectedValue" || e.Cause == "") {
				msgs[g] = fmt.Sprintf("%s of values which are the same (%v): %v", m, same, err)
			}
		}()
	}
	wg.Wait()
	for _, msg := range msgs {
		if msg != "" {
			c.Failf("shipped", "%s", msg)
			return
		}
		c.Count("values sent to the shipped server", 1)
	}
}

func toolPath() string { return os.Getenv("VERIF_WEBRPC_TEST") }

func tool(c *vh.Case, args ...string) cli.Result {
	dir, done := cli.Dir()
	defer done()
	c.Count("tool runs", 1)
	return cli.Exec(dir, nil, nil, toolPath(), args...)
}

func c20tool(c *vh.Case) {
	if toolPath() == "" {
		return
	}
	r := c.R
	expect := func(res cli.Result, ok bool, args ...string) bool {
		if res.Hung || (res.Code == 0) != ok || res.Code < 0 {
			c.Failf("tool", "webrpc-test %q exits with %d, %q", args, res.Code, res.Err)
			return false
		}
		if !ok && strings.TrimSpace(res.Err) == "" {
			c.Failf("tool", "webrpc-test %q fails and does not say why", args)
			return false
		}
		return true
	}
	switch r.IntN(6) {
	case 0: // prints
		args := model.Pick(r, [][]string{{"-version"}, {"-printRIDL"}, {"-print-schema"}, {"-printJSON"}, {}, {"-nosuchflag"}, {"client"}})
		res := tool(c, args...)
		ok := len(args) > 0 && args[0] != "-nosuchflag" && args[0] != "client"
		if !expect(res, ok, args...) || !ok {
			return
		}
		switch args[0] {
		case "-version":
			if res.Out != "webrpc-test v0.30.0\n" {
				c.Failf("tool", "the version is %q", res.Out)
			}
		case "-printJSON":
			s, err := sut.Parse1(tests.GetRIDLSchema())
			if err != nil {
				c.Failf("tool", "the test schema is not valid: %v", err)
			} else if want := sut.JSON(s); strings.TrimSuffix(res.Out, "\n") != want {
				c.Failf("tool", "the JSON form of the test schema is %s", vh.Diff(want, res.Out))
			}
		default:
			if res.Out != tests.GetRIDLSchema()+"\n" {
				c.Failf("tool", "the test schema is %s", vh.Diff(tests.GetRIDLSchema(), res.Out))
			}
		}
		c.Distinct(args[0])
	case 1, 2: // several clients at once, some servers deviate
		var wg sync.WaitGroup
		for range 1 + r.IntN(3) {
			d := c20deviation(r)
			srv, _ := c20peer(d, r.IntN(3) == 0)
			defer srv.Close()
			args := []string{"-client", "-url=" + srv.URL}
			if r.IntN(3) == 0 {
				args = []string{"-client", "-url", srv.URL + "/"}
			}
			var res cli.Result
			wg.Add(1)
			c.Count("tool runs", 1)
			go func() {
				defer wg.Done()
				dir, done := cli.Dir()
				defer done()
				res = cli.Exec(dir, nil, nil, toolPath(), args...)
			}()
			defer func() { expect(res, d.agrees, append(args, d.method, fmt.Sprint(d.code), d.what)...) }()
			c.Distinct(d.method + d.what)
		}
		wg.Wait()
	case 3: // nobody there, or somebody else
		switch r.IntN(3) {
		case 0:
			expect(tool(c, "-client", "-url=http://127.0.0.1:1"), false, "-client", "closed port")
		case 1:
			srv := httptest.NewServer(http.NotFoundHandler())
			defer srv.Close()
			expect(tool(c, "-client", "-url="+srv.URL), false, "-client", "other server")
		default:
			expect(tool(c, "-client", "-nosuchflag"), false, "-client", "bad flag")
		}
	case 4: // wait for a server
		port := freePort(r)
		url := fmt.Sprintf("http://127.0.0.1:%d", port)
		if r.IntN(3) == 0 {
			expect(tool(c, "-waitForServer", "-url="+url, fmt.Sprintf("-timeout=%dms", 50+r.IntN(300))), false, "-waitForServer", "nobody")
			return
		}
		after := time.Duration(r.IntN(300)) * time.Millisecond
		started := make(chan func(), 1)
		time.AfterFunc(after, func() {
			srv, err := server.RunTestServer(fmt.Sprintf("127.0.0.1:%d", port), time.Minute)
			if err != nil { // taken in the meantime
				started <- nil
				return
			}
			started <- func() { _ = srv.Close() }
		})
		res := tool(c, "-waitForServer", "-url="+url, "-timeout=20s")
		stop := <-started
		if stop == nil {
			return
		}
		stop()
		expect(res, true, "-waitForServer", after.String())
		c.Distinct(after.String())
	default: // the server of the tool
		dir, done := cli.Dir()
		defer done()
		for range 5 {
			port := freePort(r)
			url := fmt.Sprintf("http://127.0.0.1:%d", port)
			timeout := time.Duration(1500+r.IntN(1500)) * time.Millisecond
			result := make(chan cli.Result, 1)
			begin := time.Now()
			go func() {
				result <- cli.Exec(dir, nil, nil, toolPath(), "-server", fmt.Sprintf("-port=%d", port), "-timeout="+timeout.String())
			}()
			if err := client.Wait(url, 10*time.Second); err != nil {
				res := <-result
				if strings.Contains(res.Err, "in use") {
					continue
				}
				c.Failf("tool", "the server is not ready: %v; it ended with %d, %q", err, res.Code, res.Err)
				return
			}
			// there may be only one
			second := tool(c, "-server", fmt.Sprintf("-port=%d", port), "-timeout=100ms")
			clients := 1 + r.IntN(3)
			errs := make([]error, clients)
			var wg sync.WaitGroup
			for i := range errs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
					defer cancel()
					errs[i] = client.RunTests(ctx, url)
				}()
			}
			wg.Wait()
			intime := time.Since(begin) < timeout-200*time.Millisecond
			res := <-result
			if intime {
				expect(second, false, "-server", "a second one on the port")
				for _, err := range errs {
					if err != nil {
						c.Failf("tool", "the tool's server: %v", err)
						return
					}
				}
				c.Count("servers of the tool", 1)
			}
			// it has a second to finish
			if took := time.Since(begin); took < timeout-50*time.Millisecond {
				c.Failf("tool", "the server ends after %v instead of %v", took, timeout)
			}
			// connections which have not been used yet may keep it from that
			if strings.Contains(res.Err, "deadline exceeded") {
				c.Count("servers of the tool which did not finish in time", 1)
				return
			}
			expect(res, true, "-server", timeout.String())
			return
		}
	}
}

// freePort is outside of the range from which the system takes ports of its own.
func freePort(r *rand.Rand) int {
	for {
		port := 12000 + (os.Getpid()*97+r.IntN(20000))%18000
		l, err := net.Listen("tcp", fmt.Sprintf("0.0.0.0:%d", port))
		if err == nil {
			_ = l.Close()
			return port
		}
	}
}
