// Package cli runs the webrpc-gen binary which was built from the tree under test.
package cli

import (
	"bytes"
	"context"
	"errors"
	"os"
	"os/exec"
	"path/filepath"
	"time"
)

// Path of the binary, or "" if this check runs without it.
func Path() string { return os.Getenv("VERIF_WEBRPC_GEN") }

// Result is what a run left behind.
type Result struct {
	Code     int // -1: did not end by itself
	Out, Err string
	Hung     bool
}

// Dir makes a scratch directory.
func Dir() (string, func()) {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "cli")
	if err != nil {
		panic(err)
	}
	return dir, func() { _ = os.RemoveAll(dir) }
}

// Write puts files into a directory.
func Write(dir string, files map[string]string) {
	for name, text := range files {
		file := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(file), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(file, []byte(text), 0o644); err != nil {
			panic(err)
		}
	}
}

// Env is the environment of a run: everything it may write to is in dir.
func Env(dir string) []string {
	return []string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir, "TMPDIR=" + dir, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOCACHE=" + os.Getenv("GOCACHE"), "GOMODCACHE=" + os.Getenv("GOMODCACHE")}
}

// Run runs webrpc-gen in a directory.
func Run(dir string, env []string, args ...string) Result {
	return Exec(dir, env, nil, Path(), args...)
}

// Exec runs a command; with a file given, its standard output goes there.
func Exec(dir string, env []string, stdout *os.File, name string, args ...string) Result {
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.Env = append(Env(dir), env...)
	var out, errOut bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errOut
	if stdout != nil {
		cmd.Stdout = stdout
	}
	err := cmd.Run()
	res := Result{Out: out.String(), Err: errOut.String(), Hung: ctx.Err() != nil}
	var exit *exec.ExitError
	switch {
	case err == nil:
	case errors.As(err, &exit):
		res.Code = exit.ExitCode()
	default:
		res.Code = -1
		res.Err += err.Error()
	}
	return res
}
