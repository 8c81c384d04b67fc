package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/webrpc/webrpc/tests/client"
	"github.com/webrpc/webrpc/tests/server"

	"verif/harness/internal/model"
	"verif/harness/internal/vh"
)

var c20 = &vh.Prop{
	ID: "C20", Quick: 900, Thorough: 20000,
	Rule: "concurrent calls between the test client and server under the race detector, each with values, an error or a panic of its own, answered by the real handler through a proxy which passes on, delays, cuts off, loses or replaces responses; malformed and misrouted requests sent directly; the test tool run against servers which agree or deviate in one place. Distinct by what calls carry and by the order in which they arrived",
	Require: map[string]int{"calls": 15000, "calls answered with values": 4000, "calls answered with errors": 4000, "calls overlapping another": 10000, "calls with panics": 300,
		"responses cut off": 500, "responses lost": 300, "responses not JSON": 300, "responses of others": 300, "responses too late": 100, "raw requests": 5000,
		"deviating peers": 300, "agreeing peers": 100, "tool runs": 60},
	Run: func(c *vh.Case) {
		switch c.Index % 9 {
		case 0:
			c20raw(c)
		case 1, 2:
			c20deviate(c)
		case 3:
			c20tool(c)
		default:
			c20calls(c, c.Index%9 >= 6)
		}
	},
}

// A call is what a client is going to send and what its server is going to answer.
type call struct {
	id      int
	method  string
	in      []any
	out     []any
	err     error // of the server
	panics  string
	refused string // by OnRequest
	delay   time.Duration
	fault   string
	cut     int
	raw     bool
	plain   bool // chunked instead of having a length

	served  atomic.Int32
	mu      sync.Mutex
	seen    string // what went wrong at the server
	started time.Time
	ended   time.Time
}

var methodNames = []string{"GetEmpty", "GetError", "GetOne", "SendOne", "GetMulti", "SendMulti", "GetComplex", "SendComplex", "GetEnumList", "GetEnumMap", "GetSchemaError"}

var signatures = map[string]struct{ in, out []string }{
	"GetEmpty": {}, "GetError": {},
	"GetOne": {out: []string{"simple"}}, "SendOne": {in: []string{"simple"}},
	"GetMulti": {out: []string{"simple", "simple", "simple"}}, "SendMulti": {in: []string{"simple", "simple", "simple"}},
	"GetComplex": {out: []string{"complex"}}, "SendComplex": {in: []string{"complex"}},
	"GetEnumList": {out: []string{"list"}}, "GetEnumMap": {out: []string{"map"}},
	"GetSchemaError": {in: []string{"int"}},
}

// Values are made for the server's types. What the client has is compared
// with them through names and values of fields, not through JSON.
func word(r *rand.Rand) string {
	b := make([]byte, 1+r.IntN(8))
	for i := range b {
		b[i] = byte('a' + r.IntN(26))
	}
	return string(b)
}

func text(r *rand.Rand) string {
	switch r.IntN(8) {
	case 0:
		return ""
	case 1:
		return model.Pick(r, []string{"null", "{}", `"`, `\`, "\u2028", "<a href='x'>&amp;", "\x00\x01\x7f", "日本語", "é", "\U0001F600", "a\nb\r\nc\t", "http://x/?a=b&c=%20", "\ufffd", `\u0041`})
	case 2:
		return strings.Repeat(model.Pick(r, []string{"x", "é", `"`}), r.IntN(5000))
	}
	return word(r)
}

func anyValue(r *rand.Rand, depth int) any {
	switch k := r.IntN(8); {
	case k == 0:
		return nil
	case k == 1:
		return r.IntN(2) == 0
	case k == 2:
		return model.Pick(r, []float64{0, 1, -1, 0.1, 1e21, 1e-7, math.MaxFloat64, math.SmallestNonzeroFloat64, 9007199254740993, 1 << 53, float64(r.IntN(1e9)) / 7})
	case k == 3 && depth > 0:
		l := []any{}
		for range r.IntN(4) {
			l = append(l, anyValue(r, depth-1))
		}
		return l
	case k == 4 && depth > 0:
		m := map[string]any{}
		for range r.IntN(4) {
			m[text(r)] = anyValue(r, depth-1)
		}
		return m
	}
	return text(r)
}

func list[T any](r *rand.Rand, f func() T) []T {
	if r.IntN(6) == 0 {
		return nil
	}
	l := []T{}
	for range r.IntN(4) {
		l = append(l, f())
	}
	return l
}

func table[T any](r *rand.Rand, f func() T) map[string]T {
	if r.IntN(6) == 0 {
		return nil
	}
	m := map[string]T{}
	for range r.IntN(4) {
		m[text(r)] = f()
	}
	return m
}

func value(r *rand.Rand, kind string) any {
	u32 := func() uint32 { return model.Pick(r, []uint32{0, 1, math.MaxUint32, r.Uint32()}) }
	str := func() string { return text(r) }
	user := func() *server.User {
		if r.IntN(8) == 0 {
			return nil
		}
		return &server.User{ID: model.Pick(r, []uint64{0, math.MaxUint64, 1<<53 + 1, r.Uint64()}), Username: text(r), Role: text(r)}
	}
	status := func() server.Status { return server.Status(r.IntN(2)) }
	switch kind {
	case "int":
		return model.Pick(r, []int{0, 1, -1, math.MaxInt, math.MinInt, 1<<53 + 1, r.IntN(400)})
	case "simple":
		if r.IntN(8) == 0 {
			return (*server.Simple)(nil)
		}
		return &server.Simple{Id: value(r, "int").(int), Name: text(r)}
	case "list":
		return list(r, status)
	case "map":
		if r.IntN(8) == 0 {
			return map[server.Access]uint64(nil)
		}
		m := map[server.Access]uint64{}
		for range r.IntN(5) {
			m[server.Access(r.IntN(5))] = r.Uint64()
		}
		return m
	}
	if r.IntN(8) == 0 {
		return (*server.Complex)(nil)
	}
	return &server.Complex{
		Meta:              table(r, func() any { return anyValue(r, 3) }),
		MetaNestedExample: table(r, func() map[string]uint32 { return table(r, u32) }),
		NamesList:         list(r, str),
		NumsList:          list(r, func() int64 { return int64(r.Uint64()) }),
		DoubleArray:       list(r, func() []string { return list(r, str) }),
		ListOfMaps:        list(r, func() map[string]uint32 { return table(r, u32) }),
		ListOfUsers:       list(r, user),
		MapOfUsers:        table(r, user),
		User:              user(),
		Status:            status(),
	}
}

// same tells whether two values of types which are declared alike in different packages are equal.
func same(a, b reflect.Value) error {
	if a.IsValid() != b.IsValid() {
		return fmt.Errorf("%v is not %v", a, b)
	}
	if !a.IsValid() {
		return nil
	}
	if a.Kind() != b.Kind() {
		return fmt.Errorf("%s is not %s", a.Type(), b.Type())
	}
	switch a.Kind() {
	case reflect.Interface, reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Errorf("%v is not %v", a, b)
			}
			return nil
		}
		return same(a.Elem(), b.Elem())
	case reflect.Struct:
		if a.NumField() != b.NumField() {
			return fmt.Errorf("%s is not %s", a.Type(), b.Type())
		}
		for i := range a.NumField() {
			name := a.Type().Field(i).Name
			other := b.FieldByName(name)
			if !other.IsValid() {
				return fmt.Errorf("there is no %s", name)
			}
			if err := same(a.Field(i), other); err != nil {
				return fmt.Errorf("%s: %w", name, err)
			}
		}
		return nil
	case reflect.Slice:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return fmt.Errorf("%#v is not %#v", a, b)
		}
		for i := range a.Len() {
			if err := same(a.Index(i), b.Index(i)); err != nil {
				return fmt.Errorf("[%d]: %w", i, err)
			}
		}
		return nil
	case reflect.Map:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return fmt.Errorf("%#v is not %#v", a, b)
		}
		for _, k := range a.MapKeys() {
			other := b.MapIndex(k.Convert(b.Type().Key()))
			if !other.IsValid() {
				return fmt.Errorf("there is no [%v]", k)
			}
			if err := same(a.MapIndex(k), other); err != nil {
				return fmt.Errorf("[%v]: %w", k, err)
			}
		}
		return nil
	case reflect.Int, reflect.Int64:
		if a.Int() != b.Int() {
			return fmt.Errorf("%v is not %v", a, b)
		}
	case reflect.Uint32, reflect.Uint64:
		if a.Uint() != b.Uint() {
			return fmt.Errorf("%v is not %v", a, b)
		}
	default:
		if a.Interface() != b.Interface() {
			return fmt.Errorf("%#v is not %#v", a, b)
		}
	}
	return nil
}

func sameAll(a, b []any) error {
	if len(a) != len(b) {
		return fmt.Errorf("%d values instead of %d", len(b), len(a))
	}
	for i := range a {
		if err := same(reflect.ValueOf(a[i]), reflect.ValueOf(b[i])); err != nil {
			return fmt.Errorf("value %d: %w", i, err)
		}
	}
	return nil
}

// clientValue makes the client's value of the same content.
func clientValue(v any) any {
	switch x := v.(type) {
	case *server.Simple:
		if x == nil {
			return (*client.Simple)(nil)
		}
		return &client.Simple{Id: x.Id, Name: x.Name}
	case *server.Complex:
		if x == nil {
			return (*client.Complex)(nil)
		}
		user := func(u *server.User) *client.User {
			if u == nil {
				return nil
			}
			return &client.User{ID: u.ID, Username: u.Username, Role: u.Role}
		}
		y := &client.Complex{Meta: x.Meta, MetaNestedExample: x.MetaNestedExample, NamesList: x.NamesList, NumsList: x.NumsList, DoubleArray: x.DoubleArray, ListOfMaps: x.ListOfMaps, User: user(x.User), Status: client.Status(x.Status)}
		if x.ListOfUsers != nil {
			y.ListOfUsers = []*client.User{}
			for _, u := range x.ListOfUsers {
				y.ListOfUsers = append(y.ListOfUsers, user(u))
			}
		}
		if x.MapOfUsers != nil {
			y.MapOfUsers = map[string]*client.User{}
			for k, u := range x.MapOfUsers {
				y.MapOfUsers[k] = user(u)
			}
		}
		return y
	}
	return v
}

// The catalogue, written down from the test schema.
type declared struct {
	name   string
	code   int
	msg    string
	status int
	server server.WebRPCError
	client client.WebRPCError
}

var catalogue = []declared{
	{"Unauthorized", 1, "unauthorized", 401, server.ErrUnauthorized, client.ErrUnauthorized},
	{"ExpiredToken", 2, "expired token", 401, server.ErrExpiredToken, client.ErrExpiredToken},
	{"InvalidToken", 3, "invalid token", 401, server.ErrInvalidToken, client.ErrInvalidToken},
	{"Deactivated", 4, "account deactivated", 403, server.ErrDeactivated, client.ErrDeactivated},
	{"ConfirmAccount", 5, "confirm your email", 403, server.ErrConfirmAccount, client.ErrConfirmAccount},
	{"AccessDenied", 6, "access denied", 403, server.ErrAccessDenied, client.ErrAccessDenied},
	{"MissingArgument", 7, "missing argument", 400, server.ErrMissingArgument, client.ErrMissingArgument},
	{"UnexpectedValue", 8, "unexpected value", 400, server.ErrUnexpectedValue, client.ErrUnexpectedValue},
	{"RateLimited", 100, "too many requests", 429, server.ErrRateLimited, client.ErrRateLimited},
	{"DatabaseDown", 101, "service outage", 503, server.ErrDatabaseDown, client.ErrDatabaseDown},
	{"ElasticDown", 102, "search is degraded", 503, server.ErrElasticDown, client.ErrElasticDown},
	{"NotImplemented", 103, "not implemented", 501, server.ErrNotImplemented, client.ErrNotImplemented},
	{"UserNotFound", 200, "user not found", 400, server.ErrUserNotFound, client.ErrUserNotFound},
	{"UserBusy", 201, "user busy", 400, server.ErrUserBusy, client.ErrUserBusy},
	{"InvalidUsername", 202, "invalid username", 400, server.ErrInvalidUsername, client.ErrInvalidUsername},
	{"FileTooBig", 300, "file is too big (max 1GB)", 400, server.ErrFileTooBig, client.ErrFileTooBig},
	{"FileInfected", 301, "file is infected", 400, server.ErrFileInfected, client.ErrFileInfected},
	{"FileType", 302, "unsupported file type", 400, server.ErrFileType, client.ErrFileType},
	{"WebrpcEndpoint", 0, "endpoint error", 400, server.ErrWebrpcEndpoint, client.ErrWebrpcEndpoint},
	{"WebrpcRequestFailed", -1, "request failed", 400, server.ErrWebrpcRequestFailed, client.ErrWebrpcRequestFailed},
	{"WebrpcBadRoute", -2, "bad route", 404, server.ErrWebrpcBadRoute, client.ErrWebrpcBadRoute},
	{"WebrpcBadMethod", -3, "bad method", 405, server.ErrWebrpcBadMethod, client.ErrWebrpcBadMethod},
	{"WebrpcBadRequest", -4, "bad request", 400, server.ErrWebrpcBadRequest, client.ErrWebrpcBadRequest},
	{"WebrpcBadResponse", -5, "bad response", 500, server.ErrWebrpcBadResponse, client.ErrWebrpcBadResponse},
	{"WebrpcServerPanic", -6, "server panic", 500, server.ErrWebrpcServerPanic, client.ErrWebrpcServerPanic},
	{"WebrpcInternalError", -7, "internal error", 500, server.ErrWebrpcInternalError, client.ErrWebrpcInternalError},
}

func builtin(code int) declared {
	for _, d := range catalogue {
		if d.code == code {
			return d
		}
	}
	panic(code)
}

// A failure is what arrives of an error.
type failure struct {
	declared
	cause string
}

func serverError(r *rand.Rand) (error, failure) {
	switch r.IntN(5) {
	case 0:
		msg := "x" + text(r)
		return errors.New(msg), failure{builtin(0), msg}
	case 1: // an error which wraps a declared one is not that one
		d := model.Pick(r, catalogue[:18])
		err := fmt.Errorf("wrapped %s: %w", text(r), d.server)
		return err, failure{builtin(0), err.Error()}
	}
	d := model.Pick(r, catalogue)
	switch r.IntN(3) {
	case 0:
		return d.server, failure{d, ""}
	case 1:
		cause := "x" + text(r)
		return d.server.WithCause(errors.New(cause)), failure{d, cause}
	}
	cause := fmt.Sprintf("failed %d: %s", r.IntN(100), text(r))
	return d.server.WithCausef("failed %s", strings.TrimPrefix(cause, "failed ")), failure{d, cause}
}

// check compares an error at the client.
func (f failure) check(err error) error {
	rpcErr, ok := err.(client.WebRPCError)
	if !ok {
		return fmt.Errorf("the error is %#v, not %s", err, f.name)
	}
	if rpcErr.Name != f.name || rpcErr.Code != f.code || rpcErr.Message != f.msg || rpcErr.HTTPStatus != f.status {
		return fmt.Errorf("the error is %#v, not %s %d %q %d", rpcErr, f.name, f.code, f.msg, f.status)
	}
	if rpcErr.Cause != f.cause {
		return fmt.Errorf("%s has cause %q instead of %q", f.name, rpcErr.Cause, f.cause)
	}
	if f.cause == "" && rpcErr.Unwrap() != nil || f.cause != "" && (rpcErr.Unwrap() == nil || rpcErr.Unwrap().Error() != f.cause) {
		return fmt.Errorf("%s unwraps to %v instead of %q", f.name, rpcErr.Unwrap(), f.cause)
	}
	if !errors.Is(err, f.client) {
		return fmt.Errorf("%v is not its declared error", err)
	}
	for _, d := range catalogue {
		if d.code != f.code && errors.Is(err, d.client) {
			return fmt.Errorf("%v is %s", err, d.name)
		}
	}
	if !strings.Contains(err.Error(), f.name) || !strings.Contains(err.Error(), f.msg) || !strings.Contains(err.Error(), f.cause) {
		return fmt.Errorf("%s prints as %q", f.name, err)
	}
	return nil
}

const callHeader = "X-Call-Id"

// world is a server with what its calls are to be answered with.
type world struct {
	calls []*call
}

func (w *world) find(h http.Header) *call {
	id, err := strconv.Atoi(h.Get(callHeader))
	if err != nil || id < 0 || id >= len(w.calls) {
		return nil
	}
	return w.calls[id]
}

// serve answers a call as planned.
func (w *world) serve(ctx context.Context, method string, in ...any) ([]any, error) {
	r := server.RequestFromContext(ctx)
	if r == nil {
		return nil, errors.New("there is no request in the context")
	}
	x := w.find(r.Header)
	if x == nil {
		return nil, errors.New("a call of nobody")
	}
	x.served.Add(1)
	x.mu.Lock()
	x.seen = x.look(ctx, r, method, in)
	x.mu.Unlock()
	time.Sleep(x.delay)
	if x.panics != "" {
		panic(x.panics)
	}
	return x.out, x.err
}

// look says what is wrong with a request.
func (x *call) look(ctx context.Context, r *http.Request, method string, in []any) string {
	m, ok := server.MethodCtx(ctx)
	if x.method != method {
		return "arrived as " + method
	}
	if server.MethodNameFromContext(ctx) != method || server.ServiceNameFromContext(ctx) != "TestApi" {
		return fmt.Sprintf("the context is that of %s.%s", server.ServiceNameFromContext(ctx), server.MethodNameFromContext(ctx))
	}
	if !ok || m.Name() != method || m.Service() != "TestApi" || len(m.Annotations()) != 0 {
		return fmt.Sprintf("the context has method %v", m)
	}
	if server.ResponseWriterFromContext(ctx) == nil {
		return "there is no response writer in the context"
	}
	if err := sameAll(x.in, in); err != nil {
		return "arguments: " + err.Error()
	}
	if r.Header.Get("Webrpc") != client.WebrpcHeaderValue || r.Header.Get("Accept") != "application/json" || !x.raw && r.Header.Get("Content-Type") != "application/json" {
		return fmt.Sprintf("request headers: %v", r.Header)
	}
	return ""
}

type impl struct{ w *world }

func get[T any](out []any, i int) (t T) {
	if i < len(out) {
		t, _ = out[i].(T)
	}
	return t
}

func (s impl) GetEmpty(ctx context.Context) error { _, err := s.w.serve(ctx, "GetEmpty"); return err }
func (s impl) GetError(ctx context.Context) error { _, err := s.w.serve(ctx, "GetError"); return err }
func (s impl) GetOne(ctx context.Context) (*server.Simple, error) {
	out, err := s.w.serve(ctx, "GetOne")
	return get[*server.Simple](out, 0), err
}
func (s impl) SendOne(ctx context.Context, one *server.Simple) error {
	_, err := s.w.serve(ctx, "SendOne", one)
	return err
}
func (s impl) GetMulti(ctx context.Context) (*server.Simple, *server.Simple, *server.Simple, error) {
	out, err := s.w.serve(ctx, "GetMulti")
	return get[*server.Simple](out, 0), get[*server.Simple](out, 1), get[*server.Simple](out, 2), err
}
func (s impl) SendMulti(ctx context.Context, one, two, three *server.Simple) error {
	_, err := s.w.serve(ctx, "SendMulti", one, two, three)
	return err
}
func (s impl) GetComplex(ctx context.Context) (*server.Complex, error) {
	out, err := s.w.serve(ctx, "GetComplex")
	return get[*server.Complex](out, 0), err
}
func (s impl) SendComplex(ctx context.Context, x *server.Complex) error {
	_, err := s.w.serve(ctx, "SendComplex", x)
	return err
}
func (s impl) GetEnumList(ctx context.Context) ([]server.Status, error) {
	out, err := s.w.serve(ctx, "GetEnumList")
	return get[[]server.Status](out, 0), err
}
func (s impl) GetEnumMap(ctx context.Context) (map[server.Access]uint64, error) {
	out, err := s.w.serve(ctx, "GetEnumMap")
	return get[map[server.Access]uint64](out, 0), err
}
func (s impl) GetSchemaError(ctx context.Context, code int) error {
	_, err := s.w.serve(ctx, "GetSchemaError", code)
	return err
}

// send makes the call at the client.
func send(ctx context.Context, api client.TestApiClient, x *call) ([]any, error) {
	var in []any
	for _, v := range x.in {
		in = append(in, clientValue(v))
	}
	simple := func(i int) *client.Simple { return in[i].(*client.Simple) }
	switch x.method {
	case "GetEmpty":
		return nil, api.GetEmpty(ctx)
	case "GetError":
		return nil, api.GetError(ctx)
	case "GetOne":
		a, err := api.GetOne(ctx)
		return []any{a}, err
	case "SendOne":
		return nil, api.SendOne(ctx, simple(0))
	case "GetMulti":
		a, b, c, err := api.GetMulti(ctx)
		return []any{a, b, c}, err
	case "SendMulti":
		return nil, api.SendMulti(ctx, simple(0), simple(1), simple(2))
	case "GetComplex":
		a, err := api.GetComplex(ctx)
		return []any{a}, err
	case "SendComplex":
		return nil, api.SendComplex(ctx, in[0].(*client.Complex))
	case "GetEnumList":
		a, err := api.GetEnumList(ctx)
		return []any{a}, err
	case "GetEnumMap":
		a, err := api.GetEnumMap(ctx)
		return []any{a}, err
	}
	return nil, api.GetSchemaError(ctx, in[0].(int))
}

var notJSON = []string{"", "x", "<html><body>502 Bad Gateway</body></html>", `{"one":`, `{"error":"Unauthorized","code":1`, "[", "{}{}", "\xff\xfe", `{"a" "b"}`, `'{}'`, "{} x"}

func c20calls(c *vh.Case, faulty bool) {
	r := c.R
	w := &world{}
	failures := map[int]failure{}
	for id := range 20 + r.IntN(30) {
		x := &call{id: id, method: model.Pick(r, methodNames)}
		sig := signatures[x.method]
		for _, kind := range sig.in {
			x.in = append(x.in, value(r, kind))
		}
		switch k := r.IntN(10); {
		case k < 4:
			x.err, failures[id] = serverError(r)
		case k == 4 && r.IntN(2) == 0:
			x.panics = "panic " + text(r)
		default:
			for _, kind := range sig.out {
				x.out = append(x.out, value(r, kind))
			}
		}
		if r.IntN(3) == 0 {
			x.delay = time.Duration(r.IntN(2000)) * time.Microsecond
		}
		if r.IntN(20) == 0 {
			x.refused = "refused " + text(r)
		}
		if faulty && r.IntN(3) > 0 {
			x.fault = model.Pick(r, []string{"cut", "cut", "lost", "not JSON", "other", "late", "late body", "rewritten"})
			x.cut = r.IntN(1000)
			x.plain = r.IntN(2) == 0
		}
		w.calls = append(w.calls, x)
	}
	var onError sync.Map // id to *atomic.Int32
	opts := &server.Options{
		OnError: func(r *http.Request, rpcErr *server.WebRPCError) {
			n, _ := onError.LoadOrStore(r.Header.Get(callHeader), new(atomic.Int32))
			n.(*atomic.Int32).Add(1)
		},
		OnRequest: func(_ http.ResponseWriter, r *http.Request) error {
			if x := w.find(r.Header); x != nil && x.refused != "" {
				return errors.New(x.refused)
			}
			return nil
		},
	}
	var handler http.Handler = server.NewTestApiServer(impl{w}, opts)
	if r.IntN(3) == 0 {
		mux := http.NewServeMux()
		ms := server.Server{TestApi: impl{w}}.Methods(opts)
		if len(ms) != len(methodNames) {
			c.Failf("methods", "%d methods can be mounted", len(ms))
		}
		for _, m := range ms {
			mux.Handle(m.Path, m.Handler)
		}
		handler = mux
		c.Count("mounted by method", 1)
	}
	late := make(chan struct{})
	srv := httptest.NewUnstartedServer(http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
		c20proxy(rw, req, w, handler, late)
	}))
	srv.Config.ErrorLog = quiet
	srv.Start()

	// some share a client, some do not
	shared := &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 1 + r.IntN(20), DisableKeepAlives: r.IntN(5) == 0}}
	defer shared.CloseIdleConnections()
	addr := srv.URL + model.Pick(r, []string{"", "", "/", "?a=b#c"})
	apis := []client.TestApiClient{client.NewTestApiClient(addr, shared), client.NewClient(addr, shared).TestApi}

	type result struct {
		x   *call
		out []any
		err error
		bad string
	}
	results := make([]result, len(w.calls))
	start := make(chan struct{})
	var wg sync.WaitGroup
	queue := make(chan *call, len(w.calls))
	for _, x := range w.calls {
		queue <- x
	}
	close(queue)
	for i := range 4 + r.IntN(16) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for x := range queue {
				h := http.Header{callHeader: {strconv.Itoa(x.id)}}
				ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
				if strings.HasPrefix(x.fault, "late") {
					cancel()
					ctx, cancel = context.WithTimeout(context.Background(), time.Duration(1+x.cut%40)*time.Millisecond)
				}
				ctx, err := client.WithHTTPRequestHeaders(ctx, h)
				if err != nil {
					panic(err)
				}
				h.Set(callHeader, "changed later")
				res := result{x: x}
				x.started = time.Now()
				res.out, res.err = send(ctx, apis[i%len(apis)], x)
				x.ended = time.Now()
				cancel()
				results[x.id] = res
			}
		}()
	}
	close(start)
	wg.Wait()
	close(late)
	srv.Close()

	var sig strings.Builder
	for _, res := range results {
		x := res.x
		c.Count("calls", 1)
		f, fails := failures[x.id]
		if x.refused != "" {
			f, fails = failure{builtin(0), x.refused}, true
		}
		x.mu.Lock()
		seen := x.seen
		x.mu.Unlock()
		void := len(signatures[x.method].out) == 0
		fault := x.fault
		fail := func(format string, a ...any) {
			c.Failf("calls", "call %d of %s%s: %s", x.id, x.method, map[bool]string{true: ", fault " + fault}[fault != ""], fmt.Sprintf(format, a...))
		}
		wantServed := int32(1)
		if x.refused != "" {
			wantServed = 0
		}
		if n := x.served.Load(); n > wantServed || fault == "" && n != wantServed {
			fail("was served %d times", n)
			return
		}
		if seen != "" {
			fail("%s", seen)
			return
		}
		var noticed int32
		if n, ok := onError.Load(strconv.Itoa(x.id)); ok {
			noticed = n.(*atomic.Int32).Load()
		}
		wantNoticed := int32(0)
		if fails || x.panics != "" {
			wantNoticed = 1
		}
		if fault == "" && noticed != wantNoticed || noticed > 1 {
			fail("OnError was called %d times", noticed)
			return
		}
		switch {
		case fault == "" && x.panics != "" && x.refused == "":
			c.Count("calls with panics", 1)
			if res.err == nil {
				fail("the server panics, and the client has no error")
				return
			}
		case fault == "" || fault == "rewritten":
			if x.panics != "" && x.refused == "" {
				if res.err == nil {
					fail("the server panics, and the client has no error")
					return
				}
				break
			}
			if fails {
				if err := f.check(res.err); err != nil {
					fail("%v", err)
					return
				}
				c.Count("calls answered with errors", 1)
			} else if res.err != nil {
				fail("error %v", res.err)
				return
			} else if err := sameAll(x.out, res.out); err != nil {
				fail("%v", err)
				return
			} else {
				c.Count("calls answered with values", 1)
			}
		case fault == "cut" && void && !fails && x.panics == "":
			// the status says all there is to know
		case fault == "late" || fault == "late body":
			if fault == "late body" && void && !fails && x.panics == "" {
				break
			}
			if res.err == nil {
				fail("the response comes too late, and there is no error")
				return
			}
			if fault == "late" && !errors.Is(res.err, context.DeadlineExceeded) {
				fail("the response comes too late, and the error is %v", res.err)
				return
			}
			c.Count("responses too late", 1)
		default:
			if fault == "not JSON" && void && !fails && x.cut%2 == 0 {
				break // the status was kept
			}
			if res.err == nil {
				fail("there is no error, but %#v", res.out)
				return
			}
			rpcErr, ok := res.err.(client.WebRPCError)
			if !ok || fault != "other" && (rpcErr.Code != -1 && rpcErr.Code != -5) {
				fail("the error is %#v", res.err)
				return
			}
			c.Count(map[string]string{"cut": "responses cut off", "lost": "responses lost", "not JSON": "responses not JSON", "other": "responses of others"}[fault], 1)
		}
		for _, y := range w.calls {
			if y != x && y.started.Before(x.ended) && x.started.Before(y.ended) {
				c.Count("calls overlapping another", 1)
				break
			}
		}
		fmt.Fprintf(&sig, "%s %v %v ", x.method, len(x.in), x.fault)
	}
	c.Distinct(fmt.Sprint(c.Index) + sig.String())
	c.Sample(map[string]any{"calls": len(w.calls), "faults": faulty})
}

// c20proxy passes a request on, and does to the response what the call says.
func c20proxy(rw http.ResponseWriter, req *http.Request, w *world, handler http.Handler, late chan struct{}) {
	x := w.find(req.Header)
	if x == nil || x.fault == "" {
		handler.ServeHTTP(rw, req)
		return
	}
	rec := httptest.NewRecorder()
	func() {
		defer func() { _ = recover() }()
		handler.ServeHTTP(rec, req)
	}()
	body := rec.Body.Bytes()
	reply := func(status int, body []byte, length bool) {
		for k, v := range rec.Header() {
			rw.Header()[k] = v
		}
		if length {
			rw.Header().Set("Content-Length", strconv.Itoa(len(body)))
		}
		rw.WriteHeader(status)
		_, _ = rw.Write(body)
		if !length {
			rw.(http.Flusher).Flush()
		}
	}
	wait := func() {
		select {
		case <-late:
		case <-req.Context().Done():
		}
	}
	switch x.fault {
	case "cut":
		part := body[:x.cut%len(body)]
		if x.plain {
			reply(rec.Code, part, false)
		} else {
			rw.Header().Set("Content-Length", strconv.Itoa(len(body)))
			rw.WriteHeader(rec.Code)
			_, _ = rw.Write(part)
			rw.(http.Flusher).Flush()
		}
		panic(http.ErrAbortHandler)
	case "lost":
		conn, _, err := rw.(http.Hijacker).Hijack()
		if err == nil {
			_ = conn.Close()
		}
	case "not JSON":
		status := rec.Code
		if x.cut%2 == 1 {
			status = []int{500, 502, 503, 404, 400, 401, 204, 205, 206, 300, 304, 201, 202}[x.cut/2%13]
		}
		text := []byte(notJSON[x.cut%len(notJSON)])
		if status == 204 || status == 304 {
			rw.WriteHeader(status)
			return
		}
		reply(status, text, !x.plain)
	case "other": // valid JSON of somebody else
		reply([]int{500, 502, 404, 201, 202, 403, 299, 400}[x.cut%8], []byte([]string{`{}`, `{"message":"no such thing"}`, `null`, `[]`, `"x"`, `{"error":{"code":5}}`, `1`}[x.cut%7]), !x.plain)
	case "late":
		wait()
	case "late body":
		rw.WriteHeader(rec.Code)
		_, _ = rw.Write(body[:x.cut%len(body)])
		rw.(http.Flusher).Flush()
		wait()
	case "rewritten": // says the same in another way
		if rec.Code == 500 && x.panics != "" {
			reply(rec.Code, body, true)
			return
		}
		var out bytes.Buffer
		var m map[string]json.RawMessage
		if err := json.Unmarshal(body, &m); err != nil {
			reply(599, []byte("the server's response is not JSON"), true)
			return
		}
		m["zzUnknown"] = json.RawMessage(`{"a":[1,2,null]}`)
		b, _ := json.MarshalIndent(m, " ", "\t")
		out.Write(b)
		out.WriteString("\n \n")
		rec.Header().Set("Content-Type", "application/json; charset=utf-8")
		reply(rec.Code, out.Bytes(), !x.plain)
	}
}

// c20raw sends requests which no client makes.
func c20raw(c *vh.Case) {
	r := c.R
	w := &world{}
	handler := server.NewTestApiServer(impl{w}, &server.Options{})
	srv := httptest.NewUnstartedServer(handler)
	srv.Config.ErrorLog = quiet
	srv.Start()
	cl := &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 16}, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	defer cl.CloseIdleConnections()

	type request struct {
		x                       *call
		path, method, typ, body string
		want                    int // code
		text                    string
		status                  int
		allow                   bool
		served                  bool
	}
	var reqs []*request
	for range 60 {
		name := model.Pick(r, methodNames)
		x := &call{id: len(w.calls), method: name, raw: true}
		w.calls = append(w.calls, x)
		q := &request{x: x, path: "/rpc/TestApi/" + name, method: "POST", typ: "application/json", body: "{}", want: 200}
		sig := signatures[name]
		for _, kind := range sig.in {
			x.in = append(x.in, value(r, kind))
		}
		for _, kind := range sig.out {
			x.out = append(x.out, value(r, kind))
		}
		q.body = body(r, name, x.in)
		if r.IntN(3) == 0 {
			q.typ = model.Pick(r, []string{"application/json; charset=utf-8", "application/json;", "Application/JSON", "APPLICATION/JSON ;x=y", " application/json", "application/json ; charset=\"x\""})
		}
		if r.IntN(8) == 0 {
			x.panics = "panic " + word(r)
			q.want = -6
		}
		// mistakes, in the order opposite to that in which they count
		if r.IntN(4) == 0 && len(sig.in) > 0 {
			q.body, q.want = badBody(r, name), -4
		}
		if r.IntN(4) == 0 {
			q.typ = model.Pick(r, []string{"", "text/plain", "application/xml", "application/jsonx", "xapplication/json", "application", "json", "application/x-www-form-urlencoded", ";application/json", "text/json", "application/json, text/plain"})
			q.want = -4
		}
		if r.IntN(4) == 0 {
			q.method = model.Pick(r, []string{"GET", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD", "post", "POSTX", "TRACE"})
			q.want, q.allow = -3, true
		}
		if r.IntN(4) == 0 {
			q.path = model.Pick(r, []string{"/", "/rpc", "/rpc/", "/rpc/TestApi", "/rpc/TestApi/", "/rpc/TestApi/getEmpty", "/rpc/testapi/GetEmpty", "/rpc/TestApi/GetEmpty/", "/rpc/TestApi/GetEmptyX", "/rpc//TestApi/GetEmpty", "/x/rpc/TestApi/GetEmpty", "/rpc/TestApi/../TestApi/GetEmpty", "/rpc/Other/GetEmpty", "/RPC/TestApi/GetEmpty", "/rpc/TestApi/GetEmpty%20", "/rpc/TestApi/Missing", "/rpc/TestApi/GetEmpty%2f"})
			q.want, q.allow = -2, false
		} else if r.IntN(6) == 0 {
			q.path += "?x=" + word(r) + "&y=/rpc"
		}
		q.served = q.want == 200 || q.want == -6
		reqs = append(reqs, q)
	}
	var wg sync.WaitGroup
	fails := make([]string, len(reqs))
	run := func(q *request, recorded bool) string {
		req, err := http.NewRequest(q.method, srv.URL+q.path, strings.NewReader(q.body))
		if err != nil {
			return err.Error()
		}
		if q.typ != "" {
			req.Header.Set("Content-Type", q.typ)
		}
		req.Header.Set(callHeader, strconv.Itoa(q.x.id))
		req.Header.Set("Webrpc", client.WebrpcHeaderValue)
		req.Header.Set("Accept", "application/json")
		var res *http.Response
		panicked := false
		if recorded {
			rec := httptest.NewRecorder()
			req.RequestURI = req.URL.RequestURI()
			func() {
				defer func() { panicked = recover() != nil }()
				handler.ServeHTTP(rec, req)
			}()
			res = rec.Result()
		} else {
			res, err = cl.Do(req)
			if q.want == -6 {
				if err == nil {
					_ = res.Body.Close()
					return "the handler panics, and there is a response"
				}
				return ""
			}
			if err != nil {
				return "no response: " + err.Error()
			}
		}
		b, err := io.ReadAll(res.Body)
		_ = res.Body.Close()
		if err != nil {
			return "no body: " + err.Error()
		}
		if panicked != (q.want == -6) {
			return fmt.Sprintf("panic: %v", panicked)
		}
		if res.Header.Get("Content-Type") != "application/json" {
			return fmt.Sprintf("the response is %q", res.Header.Get("Content-Type"))
		}
		if res.Header.Get("Webrpc") != server.WebrpcHeaderValue {
			return "the response has no Webrpc header"
		}
		if q.want == 200 {
			if res.StatusCode != 200 {
				return fmt.Sprintf("status %d: %s", res.StatusCode, b)
			}
			if !json.Valid(b) {
				return "the response is not JSON"
			}
			return ""
		}
		d := builtin(q.want)
		if res.StatusCode != d.status {
			return fmt.Sprintf("status %d instead of %d: %s", res.StatusCode, d.status, b)
		}
		if q.allow != (res.Header.Get("Allow") == "POST") {
			return fmt.Sprintf("Allow: %q", res.Header.Get("Allow"))
		}
		if q.method == "HEAD" && !recorded {
			return ""
		}
		var got struct {
			Error, Msg, Cause string
			Code, Status      *int
		}
		if err := json.Unmarshal(b, &got); err != nil {
			return fmt.Sprintf("the response is not JSON: %s", b)
		}
		if got.Error != d.name || got.Msg != d.msg || got.Code == nil || *got.Code != d.code || got.Status == nil || *got.Status != d.status {
			return fmt.Sprintf("the response is %s, not %s", b, d.name)
		}
		if got.Cause == "" || q.want == -6 && got.Cause != q.x.panics {
			return fmt.Sprintf("the response has cause %q", got.Cause)
		}
		return ""
	}
	recorded := make([]bool, len(reqs))
	for i := range reqs {
		recorded[i] = r.IntN(2) == 0
	}
	for g := range 6 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := g; i < len(reqs); i += 6 {
				fails[i] = run(reqs[i], recorded[i])
			}
		}()
	}
	wg.Wait()
	srv.Close()
	for i, q := range reqs {
		if fails[i] == "" && (q.x.served.Load() == 1) != q.served {
			fails[i] = fmt.Sprintf("the method was called %d times", q.x.served.Load())
		}
		if fails[i] == "" && q.served {
			fails[i] = q.x.seen
		}
		if fails[i] != "" {
			c.Failf("raw", "%s %s, Content-Type %q, body %q: %s", q.method, q.path, q.typ, q.body, fails[i])
			return
		}
		c.Count("raw requests", 1)
		c.Count(fmt.Sprintf("raw requests with answer %d", q.want), 1)
		c.Distinct(q.method + q.path + q.typ + q.body)
	}
}

// body is what a client could send.
func body(r *rand.Rand, method string, in []any) string {
	names := map[string][]string{"SendOne": {"one"}, "SendMulti": {"one", "two", "three"}, "SendComplex": {"complex"}, "GetSchemaError": {"code"}}[method]
	if names == nil {
		return model.Pick(r, []string{"", "{}", "null", "x", "[1"}) // nothing is read
	}
	var parts []string
	for i, name := range names {
		b, err := json.Marshal(in[i])
		if err != nil {
			panic(err)
		}
		parts = append(parts, fmt.Sprintf("%q :%s", name, b))
	}
	if r.IntN(2) == 0 {
		parts = append(parts, `"zzOther": {"x": [1]}`)
	}
	r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	return model.Pick(r, []string{"", " ", "\n\t"}) + "{" + strings.Join(parts, model.Pick(r, []string{",", ", ", "\n,"})) + "}" + model.Pick(r, []string{"", "\n"})
}

func badBody(r *rand.Rand, method string) string {
	wrong := map[string][]string{
		"SendOne":        {`{"one":1}`, `{"one":{"id":"1"}}`, `{"one":{"id":1.5}}`, `{"one":[]}`, `{"one":{"id":9223372036854775808}}`},
		"SendMulti":      {`{"one":{},"two":{},"three":true}`, `{"two":""}`},
		"SendComplex":    {`{"complex":{"numsList":["1"]}}`, `{"complex":{"user":{"id":-1}}}`, `{"complex":{"mapOfUsers":[]}}`, `{"complex":{"metaNestedExample":{"a":{"b":4294967296}}}}`},
		"GetSchemaError": {`{"code":"1"}`, `{"code":1.5}`, `{"code":{}}`, `{"code":1e400}`},
	}[method]
	return model.Pick(r, append([]string{"", "x", "{", `{"one":}`, "[]", "1", `"x"`, "{}}", "{} {}", "true"}, wrong...))
}
