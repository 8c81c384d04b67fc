// Package golang is an offline stand-in for github.com/webrpc/gen-golang, whose real
// module is not available in this sandbox. It only exists so that the gen
// package and the webrpc-gen command can be compiled and observed.
package golang

import "embed"

//go:embed *.go.tmpl
var FS embed.FS
