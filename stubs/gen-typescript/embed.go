// Package typescript is an offline stand-in for github.com/webrpc/gen-typescript, whose real
// module is not available in this sandbox. It only exists so that the gen
// package and the webrpc-gen command can be compiled and observed.
package typescript

import "embed"

//go:embed *.go.tmpl
var FS embed.FS
