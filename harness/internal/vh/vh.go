// Package vh runs the checks: it splits the cases of a property over worker
// processes, watches these for crashes, hangs and memory exhaustion, collects
// what the monitors observed, and turns it into a verdict and an evidence file.
package vh

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Prop is a property together with the cases that exercise it.
type Prop struct {
	ID       string
	Rule     string         // how cases are made, and what makes one non-trivial
	Quick    int            // number of cases
	Thorough int            // number of cases
	Run      func(c *Case)  // runs a case; deterministic in c.R
	Require  map[string]int // counters which must reach these values for the run to count
	Workers  int            // default: number of CPUs
	Assume   []string
}

// Failure is a violation observed by a monitor.
type Failure struct {
	Case  int               `json:"case"`
	Key   string            `json:"key"`
	Msg   string            `json:"msg"`
	Files map[string]string `json:"files,omitempty"`
}

// Case is one case of a property.
type Case struct {
	Index int
	Tier  string
	R     *rand.Rand

	attach map[string]string
	res    *result
}

type result struct {
	Cases    int               `json:"cases"`
	Counters map[string]int    `json:"counters"`
	Sigs     map[uint64]bool   `json:"sigs"`
	Samples  []json.RawMessage `json:"samples"`
	Fails    []Failure         `json:"fails"`
}

func newResult() *result {
	return &result{Counters: map[string]int{}, Sigs: map[uint64]bool{}}
}

// Failf records a violation. The key names the kind of failure.
func (c *Case) Failf(key, format string, a ...any) {
	files := map[string]string{}
	for k, v := range c.attach {
		files[k] = v
	}
	if len(c.res.Fails) < 20 {
		c.res.Fails = append(c.res.Fails, Failure{Case: c.Index, Key: key, Msg: fmt.Sprintf(format, a...), Files: files})
	}
}

// Attach adds an input to the replay file of failures of this case.
func (c *Case) Attach(name, content string) {
	c.attach[name] = content
	if dir := os.Getenv("VERIF_ATTACH"); dir != "" {
		_ = os.WriteFile(filepath.Join(dir, "attach."+strings.ReplaceAll(name, "/", "_")), []byte(content), 0o644)
	}
}

// Attached returns the inputs recorded for this case.
func (c *Case) Attached() map[string]string { return c.attach }

// Count adds n to what a monitor has observed.
func (c *Case) Count(name string, n int) { c.res.Counters[name] += n }

// Distinct counts the case as non-trivial, if nothing with this content has been before.
func (c *Case) Distinct(content string) {
	h := fnv.New64a()
	h.Write([]byte(content))
	c.res.Sigs[h.Sum64()] = true
}

// Sample keeps the case as a sample for the evidence, if there are few so far.
func (c *Case) Sample(v any) {
	if len(c.res.Samples) < 2 {
		b, err := json.Marshal(v)
		if err == nil && len(b) < 4000 {
			c.res.Samples = append(c.res.Samples, b)
		}
	}
}

func newCase(p *Prop, seed uint64, tier string, i int, res *result) *Case {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d", p.ID, i)
	return &Case{Index: i, Tier: tier, R: rand.New(rand.NewPCG(seed, h.Sum64())), attach: map[string]string{}, res: res}
}

var hangLimit = 60 * time.Second

const (
	memoryLimit = 3 << 30
	exitMemory  = 97
)

// Main is the entry point of a check binary.
//
//	check ID                 run a check (VERIF_TIER, VERIF_SEED, VERIF_EVIDENCE, VERIF_SCRATCH, VERIF_KNOWN)
//	case ID INDEX            run a single case, print what it finds
func Main(props []*Prop) {
	byID := map[string]*Prop{}
	for _, p := range props {
		byID[p.ID] = p
	}
	if len(os.Args) < 3 || byID[os.Args[2]] == nil {
		fmt.Fprintf(os.Stderr, "usage: %s check|case|worker ID ...\n", os.Args[0])
		os.Exit(2)
	}
	p := byID[os.Args[2]]
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" && tier != "probe" {
		tier = "quick"
	}
	seed := uint64(1)
	if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(p, tier, seed))
	case "worker":
		contain()
		worker(p, tier, seed, os.Args[3:])
	case "case":
		contain()
		i, _ := strconv.Atoi(os.Args[3])
		res := newResult()
		c := newCase(p, seed, tier, i, res)
		runCase(p, c)
		for name, content := range c.attach {
			fmt.Printf("--- %s\n%s\n", name, content)
		}
		for _, f := range res.Fails {
			fmt.Printf("FAIL %s: %s\n", f.Key, f.Msg)
		}
		fmt.Println(res.Counters)
		if len(res.Fails) > 0 {
			os.Exit(1)
		}
	}
}

// A panic in the goroutine of the case itself is a crash of the code under
// test like any other, unless the harness says otherwise.
func runCase(p *Prop, c *Case) {
	p.Run(c)
	c.res.Cases++
}

func worker(p *Prop, tier string, seed uint64, args []string) {
	k, _ := strconv.Atoi(args[0])
	n, _ := strconv.Atoi(args[1])
	start, _ := strconv.Atoi(args[2])
	total, _ := strconv.Atoi(args[3])
	dir := args[4]

	debug.SetMaxStack(256 << 20)
	go func() {
		for {
			time.Sleep(50 * time.Millisecond)
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > memoryLimit {
				fmt.Fprintf(os.Stderr, "worker: heap of %d bytes\n", m.HeapAlloc)
				os.Exit(exitMemory)
			}
		}
	}()

	progress, err := os.Create(filepath.Join(dir, fmt.Sprintf("progress.%d", k)))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	res := newResult()
	for i := start; i < total; i++ {
		if i%n != k {
			continue
		}
		progress.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
		runCase(p, newCase(p, seed, tier, i, res))
		if len(res.Fails) >= 10 {
			break // enough
		}
	}
	if contained() {
		res.Counters["workers which cannot write outside the scratch directory"]++
	}
	b, err := json.Marshal(res)
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, fmt.Sprintf("result.%d.%d", k, start)), b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

type workerEnd struct {
	err    error
	hung   bool
	last   int // last case which was started
	stderr string
}

// runWorker runs cases start, start+n, ... and watches their progress.
func runWorker(p *Prop, tier string, seed uint64, k, n, start, total int, dir string, env ...string) workerEnd {
	progressFile := filepath.Join(dir, fmt.Sprintf("progress.%d", k))
	_ = os.WriteFile(progressFile, []byte("-1"), 0o644)
	cmd := exec.Command(os.Args[0], "worker", p.ID, strconv.Itoa(k), strconv.Itoa(n), strconv.Itoa(start), strconv.Itoa(total), dir)
	cmd.Env = append(os.Environ(), "VERIF_TIER="+tier, fmt.Sprintf("VERIF_SEED=%d", seed), "GORACE=halt_on_error=1 exitcode=66")
	cmd.Env = append(cmd.Env, env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var stderr tail
	cmd.Stderr = &stderr
	cmd.Stdout = &stderr
	read := func() int {
		b, _ := os.ReadFile(progressFile)
		i, err := strconv.Atoi(strings.TrimSpace(string(b)))
		if err != nil {
			return -1
		}
		return i
	}
	if err := cmd.Start(); err != nil {
		return workerEnd{err: err, last: -1}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	last, since := -1, time.Now()
	for {
		select {
		case err := <-done:
			return workerEnd{err: err, last: read(), stderr: stderr.String()}
		case <-time.After(200 * time.Millisecond):
			if i := read(); i != last {
				last, since = i, time.Now()
			} else if time.Since(since) > hangLimit {
				_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
				select {
				case <-done:
				case <-time.After(5 * time.Second):
					_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
					<-done
				}
				return workerEnd{hung: true, last: last, stderr: stderr.String()}
			}
		}
	}
}

// tail keeps the beginning and the end of what is written to it.
type tail struct {
	mu         sync.Mutex
	head, rest []byte
}

func (t *tail) Write(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.head) < 16<<10 {
		t.head = append(t.head, b...)
	} else {
		t.rest = append(t.rest, b...)
		if len(t.rest) > 64<<10 {
			t.rest = t.rest[len(t.rest)-16<<10:]
		}
	}
	return len(b), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.head) + string(t.rest)
}

func check(p *Prop, tier string, seed uint64) int {
	started := time.Now()
	evidenceDir := os.Getenv("VERIF_EVIDENCE")
	if evidenceDir == "" {
		evidenceDir = "/verif/evidence"
	}
	if err := os.MkdirAll(evidenceDir, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "run")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)

	total := p.Quick
	if tier == "thorough" {
		total = p.Thorough
	}
	if tier == "probe" { // part of quick on one CPU, for mutation testing
		div, _ := strconv.Atoi(os.Getenv("VERIF_PROBE"))
		total, hangLimit = min(p.Quick, max(p.Quick/max(div, 1), 20)), 10*time.Second
	}
	n := p.Workers
	if n == 0 {
		n = runtime.NumCPU()
	}
	if tier == "probe" {
		n = 1
	}
	if n > total {
		n = total
	}

	var mu sync.Mutex
	var crashes []Failure
	inconclusive := []string{}
	var wg sync.WaitGroup
	for k := range n {
		wg.Add(1)
		go func() {
			defer wg.Done()
			start := 0
			for attempt := 0; attempt < 3 && start < total; attempt++ {
				end := runWorker(p, tier, seed, k, n, start, total, dir)
				if end.err == nil && !end.hung {
					return
				}
				if end.last < 0 {
					mu.Lock()
					inconclusive = append(inconclusive, fmt.Sprintf("worker %d did not start: %v\n%s", k, end.err, end.stderr))
					mu.Unlock()
					return
				}
				f, note := diagnose(p, tier, seed, end, dir)
				mu.Lock()
				if f != nil {
					crashes = append(crashes, *f)
				}
				if note != "" {
					inconclusive = append(inconclusive, note)
				}
				mu.Unlock()
				start = end.last + 1
			}
		}()
	}
	wg.Wait()

	all := newResult()
	files, _ := filepath.Glob(filepath.Join(dir, "result.*"))
	sort.Strings(files)
	for _, file := range files {
		var r result
		b, err := os.ReadFile(file)
		if err == nil {
			err = json.Unmarshal(b, &r)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		all.Cases += r.Cases
		for name, v := range r.Counters {
			all.Counters[name] += v
		}
		for s := range r.Sigs {
			all.Sigs[s] = true
		}
		all.Samples = append(all.Samples, r.Samples...)
		all.Fails = append(all.Fails, r.Fails...)
	}
	all.Fails = append(all.Fails, crashes...)
	sort.SliceStable(all.Fails, func(i, j int) bool { return all.Fails[i].Case < all.Fails[j].Case })

	known := knownFindings(p.ID)
	seenKnown := map[string]bool{}
	var violations []Failure
	for _, f := range all.Fails {
		if _, ok := known[f.Key]; ok {
			seenKnown[f.Key] = true
			continue
		}
		violations = append(violations, f)
	}
	for key := range seenKnown {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, known[key])
	}

	for i, f := range violations {
		if i == 5 {
			fmt.Printf("... and %d more\n", len(violations)-i)
			break
		}
		replay := filepath.Join(evidenceDir, fmt.Sprintf("%s.replay.%d.json", p.ID, i))
		b, _ := json.MarshalIndent(map[string]any{
			"property": p.ID, "seed": seed, "tier": tier, "case": f.Case, "key": f.Key, "what": f.Msg, "inputs": f.Files,
			"rerun": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s case %d", seed, tier, p.ID, f.Case),
		}, "", " ")
		_ = os.WriteFile(replay, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, replay)
		fmt.Printf("  case %d, %s: %s\n", f.Case, f.Key, firstLines(f.Msg, 12))
	}

	if len(violations) == 0 && tier != "probe" {
		if all.Cases < total {
			inconclusive = append(inconclusive, fmt.Sprintf("only %d of %d cases were run", all.Cases, total))
		}
		names := make([]string, 0, len(p.Require))
		for name := range p.Require {
			names = append(names, name)
		}
		sort.Strings(names)
		for _, name := range names {
			if all.Counters[name] < p.Require[name] {
				inconclusive = append(inconclusive, fmt.Sprintf("monitor %q observed %d events, needs %d", name, all.Counters[name], p.Require[name]))
			}
		}
	}

	samples := all.Samples
	if len(samples) > 4 {
		samples = samples[:4]
	}
	coverage := map[string]any{
		"evaluations":         all.Cases,
		"distinct_nontrivial": len(all.Sigs),
		"rule":                p.Rule,
		"samples":             samples,
		"observed":            all.Counters,
		"workers":             n,
	}
	evidence := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": coverage, "wall_s": time.Since(started).Seconds(), "violations": len(violations),
		"assumptions": append([]string{}, p.Assume...),
	}
	if len(inconclusive) > 0 {
		coverage["inconclusive"] = inconclusive
	}
	b, _ := json.MarshalIndent(evidence, "", " ")
	if err := os.WriteFile(filepath.Join(evidenceDir, p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	switch {
	case len(violations) > 0:
		return 1
	case len(inconclusive) > 0:
		for _, s := range inconclusive {
			fmt.Fprintf(os.Stderr, "INCONCLUSIVE %s: %s\n", p.ID, s)
		}
		return 2
	}
	fmt.Printf("%s held on %d cases (%d distinct) in %.1fs; observed %v\n", p.ID, all.Cases, len(all.Sigs), time.Since(started).Seconds(), all.Counters)
	return 0
}

// diagnose runs the case that was under way when a worker ended once more, alone.
func diagnose(p *Prop, tier string, seed uint64, end workerEnd, dir string) (*Failure, string) {
	what := func(e workerEnd) (string, string) {
		switch {
		case e.hung:
			return "hang", fmt.Sprintf("no progress for %v", hangLimit)
		case strings.Contains(e.stderr, "WARNING: DATA RACE"):
			return "race", "data race"
		}
		var exit *exec.ExitError
		if ee, ok := e.err.(*exec.ExitError); ok {
			exit = ee
		}
		if exit != nil && exit.ExitCode() == exitMemory {
			return "memory", "memory exhausted"
		}
		if exit != nil && exit.ExitCode() == 3 {
			return "", "worker error"
		}
		if strings.Contains(e.stderr, "panic: ") || strings.Contains(e.stderr, "fatal error: ") || strings.Contains(e.stderr, "goroutine stack exceeds") {
			return "crash", "process crashed"
		}
		if exit != nil && exit.ExitCode() == 1 {
			return "exit", "process ended itself"
		}
		return "", fmt.Sprintf("worker ended: %v", e.err)
	}
	key, msg := what(end)
	files := map[string]string{}
	sub := filepath.Join(dir, fmt.Sprintf("again.%d", end.last))
	_ = os.MkdirAll(sub, 0o755)
	again := runWorker(p, tier, seed, 0, 1, end.last, end.last+1, sub, "VERIF_ATTACH="+sub)
	key2, _ := what(again)
	trace := excerpt(end.stderr)
	files["output"] = trace
	inputs, _ := filepath.Glob(filepath.Join(sub, "attach.*"))
	for _, file := range inputs {
		if b, err := os.ReadFile(file); err == nil && len(b) < 1<<16 {
			files[strings.TrimPrefix(filepath.Base(file), "attach.")] = string(b)
		}
	}
	if key == "" {
		return nil, fmt.Sprintf("case %d: %s\n%s", end.last, msg, trace)
	}
	if key == "race" {
		return &Failure{Case: end.last, Key: key, Msg: msg + "\n" + trace, Files: files}, ""
	}
	if (key == "hang" || key == "memory") && key2 != key {
		return nil, fmt.Sprintf("case %d: %s, but not when run again", end.last, msg)
	}
	if again.err == nil && !again.hung {
		msg += " (not when the case is run again alone)"
	}
	return &Failure{Case: end.last, Key: key, Msg: msg + "\n" + trace, Files: files}, ""
}

func excerpt(s string) string {
	var out []string
	sc := bufio.NewScanner(strings.NewReader(s))
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() && len(out) < 60 {
		line := sc.Text()
		if len(line) > 300 {
			line = line[:300]
		}
		out = append(out, line)
	}
	return strings.Join(out, "\n")
}

func firstLines(s string, n int) string {
	lines := strings.Split(s, "\n")
	if len(lines) > n {
		lines = lines[:n]
	}
	return strings.Join(lines, "\n    ")
}

// knownFindings reads the findings listed for a property:
//
//	known: property=C21 key=enum-comments <what fails>
func knownFindings(id string) map[string]string {
	known := map[string]string{}
	b, err := os.ReadFile(os.Getenv("VERIF_KNOWN"))
	if err != nil {
		return known
	}
	for _, line := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(line, "known: property="+id+" key=")
		if !ok {
			continue
		}
		key, what, _ := strings.Cut(rest, " ")
		known[key] = what
	}
	return known
}

// Indent shows a text within a message.
func Indent(s string) string {
	return "\n    " + strings.ReplaceAll(strings.TrimRight(s, "\n"), "\n", "\n    ")
}

// Diff shows the first difference of two texts.
func Diff(want, got string) string {
	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; i < len(w) || i < len(g); i++ {
		var a, b string
		if i < len(w) {
			a = w[i]
		}
		if i < len(g) {
			b = g[i]
		}
		if a != b || i >= len(w) || i >= len(g) {
			var ctx bytes.Buffer
			for j := max(0, i-4); j < i; j++ {
				fmt.Fprintf(&ctx, "    %s\n", w[j])
			}
			return fmt.Sprintf("line %d:\n%s  - %s\n  + %s", i+1, ctx.String(), a, b)
		}
	}
	return "no difference"
}
