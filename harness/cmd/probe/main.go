package main

import (
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/webrpc/webrpc/schema"
	"github.com/webrpc/webrpc/schema/ridl"
	"testing/fstest"
)

func main() {
	b, _ := io.ReadAll(os.Stdin)
	if os.Args[1] == "json" {
		s, err := schema.ParseSchemaJSON(b)
		fmt.Println("err:", err)
		if err == nil {
			j, _ := s.ToJSON()
			fmt.Println(j)
		}
		return
	}
	fs := fstest.MapFS{}
	for i, part := range strings.Split(string(b), "\n=====") {
		name := "main.ridl"
		if i > 0 {
			n := strings.SplitN(part, "\n", 2)
			name = strings.TrimSpace(n[0])
			part = n[1]
		}
		fs[name] = &fstest.MapFile{Data: []byte(part)}
	}
	s, err := ridl.NewParser(fs, "/", "main.ridl").Parse()
	fmt.Println("err:", err)
	if err == nil {
		j, _ := s.ToJSON()
		fmt.Println(j)
	}
}
