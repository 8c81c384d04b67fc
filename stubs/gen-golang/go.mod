module github.com/webrpc/gen-golang

go 1.25
