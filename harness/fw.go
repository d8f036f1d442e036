package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---- framework ------------------------------------------------------------
//
// "check ID" is the supervisor: it starts a worker process (this binary, or its
// -race build), which drives the code under test and monitors it. A worker that
// panics, exits or hangs is itself an observation. The supervisor writes the
// evidence and prints the verdict.

const repoDir = "/repo"

var verifDir = func() string {
	exe, err := os.Executable()
	if err != nil {
		return "/verif"
	}
	return filepath.Dir(filepath.Dir(exe)) // .build/harness
}()

type checkDef struct {
	id    string
	level string
	rule  string
	race  bool // the worker is built with the race detector
	run   func(c *Ctx)
}

var checks = map[string]*checkDef{}

func register(d *checkDef) {
	if d.level == "" {
		d.level = "exploration"
	}
	checks[d.id] = d
}

// Violation is one refuted case.
type Violation struct {
	Key    string `json:"key"`
	Case   string `json:"case"`
	Detail string `json:"detail"`
}

type result struct {
	Evals      int               `json:"evals"`
	Distinct   int               `json:"distinct"`
	Counters   map[string]int64  `json:"counters"`
	Samples    []json.RawMessage `json:"samples"`
	Violations []Violation       `json:"violations"`
	Errors     []string          `json:"errors"`
}

// Ctx is the context of one run of a check.
type Ctx struct {
	ID   string
	Tier string
	Seed int64
	Only string
	Dir  string // scratch directory of this run

	mu       sync.Mutex
	evals    int
	distinct map[uint64]struct{}
	counters map[string]int64
	samples  []json.RawMessage
	viol     []Violation
	errs     []string
	inflight map[string]struct{}
	curFile  string
	resFile  string
	start    time.Time
}

// enough is the time after which a run ends that has found a violation (each hanging case takes minutes).
const enough = 2 * time.Minute

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N picks a number of cases by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// Count adds to a named counter of observed events.
func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	c.counters[name] += int64(n)
	c.mu.Unlock()
}

// Errorf records a problem of the check itself (the run is inconclusive).
func (c *Ctx) Errorf(format string, args ...any) {
	c.mu.Lock()
	c.errs = append(c.errs, fmt.Sprintf(format, args...))
	c.mu.Unlock()
}

// K is one case.
type K struct {
	c     *Ctx
	R     *rand.Rand
	Label string
	Dir   string // scratch directory of this case, created on demand
	nfail int
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

// Distinct records that this case exercised a distinct, non-trivial situation.
func (k *K) Distinct(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	k.c.mu.Lock()
	k.c.distinct[hash64(s)] = struct{}{}
	if len(k.c.samples) < 4 || (len(k.c.samples) < 12 && k.c.evals%97 == 0) {
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		b, _ := json.Marshal(map[string]string{"case": k.Label, "observed": s})
		k.c.samples = append(k.c.samples, b)
	}
	k.c.mu.Unlock()
}

func (k *K) Count(name string, n int) { k.c.Count(name, n) }

// Failf records a violation of the property.
func (k *K) Failf(key, format string, args ...any) {
	d := fmt.Sprintf(format, args...)
	if len(d) > 4000 {
		d = d[:4000] + "..."
	}
	k.c.mu.Lock()
	defer k.c.mu.Unlock()
	k.nfail++
	if k.nfail > 3 || len(k.c.viol) > 200 {
		return
	}
	k.c.viol = append(k.c.viol, Violation{Key: key, Case: k.Label, Detail: d})
}

// TempDir returns the scratch directory of the case.
func (k *K) TempDir() string {
	if k.Dir == "" {
		d, err := os.MkdirTemp(k.c.Dir, "case")
		if err != nil {
			panic(fmt.Sprintf("harness: MkdirTemp: %v", err))
		}
		k.Dir = d
	}
	return k.Dir
}

func (k *K) Path(name string) string { return filepath.Join(k.TempDir(), name) }

const caseWatchdog = 300 * time.Second

// Case runs one case with its own deterministic random generator.
func (c *Ctx) Case(label string, f func(k *K)) {
	if c.Only != "" && c.Only != label {
		return
	}
	k := &K{c: c, Label: label, R: rand.New(rand.NewSource(int64(hash64(fmt.Sprintf("%d/%s/%s", c.Seed, c.ID, label)) >> 1)))}
	c.mu.Lock()
	c.evals++
	c.inflight[label] = struct{}{}
	c.writeInflight()
	c.mu.Unlock()
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if e := recover(); e != nil {
				s := fmt.Sprint(e)
				st := string(debug.Stack())
				// a panic outside the code under test is what the harness did with
				// a result no correct code returns (a nil model without an error).
				if strings.HasPrefix(s, "harness:") {
					c.Errorf("case %s: %s\n%s", label, s, st)
					return
				}
				k.Failf("panic", "panic: %s\n%s", s, st)
			}
		}()
		f(k)
	}()
	select {
	case <-done:
	case <-time.After(caseWatchdog):
		k.Failf("hang", "the case did not end within %v", caseWatchdog)
		c.finish()
		os.Exit(0)
	}
	if k.Dir != "" {
		os.RemoveAll(k.Dir)
	}
	c.mu.Lock()
	delete(c.inflight, label)
	c.writeInflight()
	c.mu.Unlock()
}

func (c *Ctx) writeInflight() {
	var l []string
	for s := range c.inflight {
		l = append(l, s)
	}
	sort.Strings(l)
	os.WriteFile(c.curFile, []byte(strings.Join(l, "\n")), 0644)
}

// Cases runs n numbered cases on par goroutines.
func (c *Ctx) Cases(name string, n, par int, f func(k *K, i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				c.Case(fmt.Sprintf("%s/%d", name, i), func(k *K) { f(k, i) })
			}
		}()
	}
	for i := 0; i < n; i++ {
		c.mu.Lock()
		stop := len(c.viol) > 60 || len(c.viol) > 0 && time.Since(c.start) > enough
		c.mu.Unlock()
		if stop {
			break
		}
		ch <- i
	}
	close(ch)
	wg.Wait()
}

func (c *Ctx) finish() {
	c.mu.Lock()
	defer c.mu.Unlock()
	r := result{Evals: c.evals, Distinct: len(c.distinct), Counters: c.counters, Samples: c.samples, Violations: c.viol, Errors: c.errs}
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(c.resFile, b, 0644)
}

func envInt(name string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}

// workerLimit is the time after which a quick run is given up; violations found until then are reported.
const workerLimit = 720 * time.Second

// worker runs the check in this process.
func worker(id string, args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	only := fs.String("only", "", "")
	dir := fs.String("dir", "", "")
	fs.Parse(args)
	d := checks[id]
	if os.Getenv("VERIF_LOG") == "" {
		log.SetOutput(io.Discard)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	c := &Ctx{start: time.Now(), ID: id, Tier: tier, Seed: envInt("VERIF_SEED", 1), Only: *only, Dir: *dir,
		distinct: map[uint64]struct{}{}, counters: map[string]int64{}, inflight: map[string]struct{}{},
		curFile: filepath.Join(*dir, "inflight"), resFile: filepath.Join(*dir, "result.json")}
	if tier != "thorough" {
		time.AfterFunc(workerLimit, func() {
			c.Errorf("the cases did not end within %v", workerLimit)
			c.finish()
			os.Exit(0)
		})
	}
	d.run(c)
	c.finish()
}

func check(id string, args []string) int {
	start := time.Now()
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	only := fs.String("only", "", "run only the case with this label")
	fs.Parse(args)
	d := checks[id]
	if d == nil {
		fmt.Fprintf(os.Stderr, "no such check: %v\n", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := envInt("VERIF_SEED", 1)
	dir, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	bin, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if d.race {
		bin = filepath.Join(verifDir, ".build", "harness-race")
		if err := goBuild(filepath.Join(verifDir, "harness"), "-race", "-o", bin, "."); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	limit := workerLimit + time.Minute
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "worker", id, "-only", *only, "-dir", dir)
	var stderr bytes.Buffer
	cmd.Stdout = os.Stderr
	cmd.Stderr = &stderr
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(dir, "race"), "GOTRACEBACK=all")
	runErr := cmd.Run()

	var res result
	b, _ := os.ReadFile(filepath.Join(dir, "result.json"))
	haveRes := json.Unmarshal(b, &res) == nil && b != nil
	if ctx.Err() != nil {
		fmt.Fprintf(os.Stderr, "inconclusive: %v did not end within %v\n", id, limit)
		return 3
	}
	if runErr != nil || !haveRes {
		infl, _ := os.ReadFile(filepath.Join(dir, "inflight"))
		tail := stderr.String()
		if len(tail) > 6000 {
			tail = tail[:3000] + "\n...\n" + tail[len(tail)-3000:]
		}
		if ee, ok := runErr.(*exec.ExitError); ok && ee.ProcessState.String() == "signal: killed" {
			fmt.Fprintf(os.Stderr, "inconclusive: the worker was killed\n%s\n", tail)
			return 3
		}
		res.Violations = append(res.Violations, Violation{Key: "process-died", Case: strings.Split(string(infl), "\n")[0],
			Detail: fmt.Sprintf("the process running the code under test ended: %v\ncases in flight:\n%s\n%s", runErr, infl, tail)})
		if res.Evals == 0 {
			res.Evals = 1
		}
	}
	if d.race {
		res.Violations = append(res.Violations, parseRaces(dir, &res)...)
	}

	// verdict
	known := loadKnown(id)
	seen := map[string]bool{}
	var bad []Violation
	for _, v := range res.Violations {
		if what, ok := known[v.Key+"@"+v.Case]; ok {
			if !seen["k"+v.Key+v.Case] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, what)
			}
			seen["k"+v.Key+v.Case] = true
			continue
		}
		bad = append(bad, v)
	}
	if len(res.Samples) == 0 {
		res.Samples = []json.RawMessage{json.RawMessage(`"none"`)}
	}
	cov := map[string]any{
		"evaluations":         res.Evals,
		"distinct_nontrivial": res.Distinct,
		"rule":                d.rule,
		"samples":             res.Samples,
	}
	if len(res.Counters) > 0 {
		cov["observed"] = res.Counters
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": d.level, "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(bad)}
	eb, _ := json.MarshalIndent(ev, "", " ")
	if *only == "" {
		os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
		if err := os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), append(eb, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if len(bad) > 0 {
		os.MkdirAll(filepath.Join(verifDir, "replays"), 0755)
		n := 0
		for _, v := range bad {
			if seen[v.Key] || n >= 8 {
				continue
			}
			seen[v.Key] = true
			n++
			p := filepath.Join(verifDir, "replays", fmt.Sprintf("%s-%d.json", id, n))
			rb, _ := json.MarshalIndent(map[string]any{
				"property": id, "seed": seed, "tier": tier, "case": v.Case, "key": v.Key, "detail": v.Detail,
				"replay": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s bash %s/check.sh %s -only '%s'", seed, tier, verifDir, id, v.Case),
			}, "", " ")
			os.WriteFile(p, append(rb, '\n'), 0644)
			first := v.Detail
			if i := strings.IndexByte(first, '\n'); i >= 0 {
				first = first[:i]
			}
			if len(first) > 300 {
				first = first[:300] + "..."
			}
			fmt.Printf("%s [%s]: %s\n", v.Case, v.Key, first)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		}
		return 1
	}
	if len(res.Errors) > 0 {
		for i, e := range res.Errors {
			if i < 5 {
				fmt.Fprintf(os.Stderr, "inconclusive: %s\n", e)
			}
		}
		return 3
	}
	if *only == "" && res.Distinct == 0 {
		fmt.Fprintln(os.Stderr, "inconclusive: nothing was observed")
		return 3
	}
	fmt.Printf("%s: held on %d executions, %d distinct (%.1fs)\n", id, res.Evals, res.Distinct, time.Since(start).Seconds())
	return 0
}

// parseRaces turns the race detector's reports about the code under test into violations.
func parseRaces(dir string, res *result) (out []Violation) {
	files, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	seen := map[string]bool{}
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, block := range strings.Split(string(b), "==================") {
			if !strings.Contains(block, "WARNING: DATA RACE") {
				continue
			}
			if res.Counters == nil {
				res.Counters = map[string]int64{}
			}
			res.Counters["race_reports"]++
			// deduplicate by the functions of the code under test
			var fns []string
			for _, l := range strings.Split(block, "\n") {
				l = strings.TrimSpace(l)
				if strings.HasPrefix(l, "github.com/gmlewis/stldice") || strings.HasPrefix(l, "main.") {
					if strings.HasPrefix(l, "github.com/gmlewis/stldice") {
						fns = append(fns, strings.SplitN(l, "(", 2)[0])
					}
				}
			}
			if len(fns) == 0 {
				res.Errors = append(res.Errors, "race outside of the code under test:\n"+block)
				continue
			}
			k := strings.Join(fns, ",")
			if seen[k] {
				continue
			}
			seen[k] = true
			out = append(out, Violation{Key: "race:" + fns[0], Case: "", Detail: "data race in " + fns[0] + "\n" + block})
		}
	}
	return out
}

// loadKnown reads the committed list of known findings:
//
//	known: property=<id> key=<key>@<case> <what fails>
//	fixed: property=<id> <commit> <what failed>      (suppresses nothing)
func loadKnown(id string) map[string]string {
	out := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "known:" && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			out[strings.TrimPrefix(f[2], "key=")] = f[3]
		}
	}
	return out
}

func goBuild(dir string, args ...string) error {
	cmd := exec.Command("go", append([]string{"build"}, args...)...)
	cmd.Dir = dir
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("go build %v: %v\n%s", args, err, out)
	}
	return nil
}

var cliMu sync.Mutex
var cliBuilt = map[string]bool{}

// cli builds the named command (e.g. "cmd/voxcut") from the working tree and
// returns the path of the executable.
func cli(pkg string, race bool) string {
	cliMu.Lock()
	defer cliMu.Unlock()
	sub := "bin"
	args := []string{}
	if race {
		sub = "bin-race"
		args = append(args, "-race")
	}
	out := filepath.Join(verifDir, ".build", sub, filepath.Base(pkg))
	if !cliBuilt[sub+pkg] {
		if pkg == "cmd/stl2svx" {
			args = append(args, "-modfile", stubModFile())
		}
		args = append(args, "-o", out, "./"+pkg)
		if err := goBuild(repoDir, args...); err != nil {
			panic("harness: " + err.Error())
		}
		cliBuilt[sub+pkg] = true
	}
	return out
}

// stubModFile returns a copy of the repository's go.mod that replaces the Google Cloud
// clients by the stand-ins in stubs: at the pinned versions the real ones do not compile.
func stubModFile() string {
	path := filepath.Join(verifDir, ".build", "stub.mod")
	for _, f := range [][2]string{{"go.mod", path}, {"go.sum", filepath.Join(verifDir, ".build", "stub.sum")}} {
		b, err := os.ReadFile(filepath.Join(repoDir, f[0]))
		if err != nil {
			panic("harness: " + err.Error())
		}
		if f[0] == "go.mod" {
			b = append(b, fmt.Sprintf("\nreplace cloud.google.com/go/storage => %s/stubs/storage\n\nreplace google.golang.org/api => %[1]s/stubs/api\n", verifDir)...)
		}
		if err := os.WriteFile(f[1], b, 0644); err != nil {
			panic("harness: " + err.Error())
		}
	}
	return path
}
