package tests

import (
	"context"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/webrpc/webrpc/tests/client"
)

func TestDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(204) }))
	defer srv.Close()
	if err := client.NewTestApiClient(srv.URL, http.DefaultClient).SendOne(context.Background(), nil); err == nil {
		t.Fatal("no error")
	}
}
