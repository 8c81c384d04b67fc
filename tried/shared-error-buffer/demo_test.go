package tests

import (
	"context"
	"net/http"
	"net/http/httptest"
	"sync"
	"testing"

	"github.com/webrpc/webrpc/tests/client"
	"github.com/webrpc/webrpc/tests/server"
)

func TestDemo(t *testing.T) {
	srv := httptest.NewServer(server.NewTestApiServer(&server.TestServer{}))
	defer srv.Close()
	c := client.NewTestApiClient(srv.URL, http.DefaultClient)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 100; j++ {
				err, ok := c.GetSchemaError(context.Background(), i+1).(client.WebRPCError)
				if !ok || err.Code != i+1 {
					t.Error(i+1, err)
				}
			}
		}()
	}
	wg.Wait()
}
