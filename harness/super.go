package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"verifharness/gen"
	"verifharness/spec"
)

func repoDir() string {
	if d := os.Getenv("VH_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func verifDir() string {
	if d := os.Getenv("VH_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

// scanDict collects the literals of the code under test. They bias the
// workload towards the constants and words the code knows about; verdicts do
// not depend on them.
func scanDict() *gen.Dict {
	d := &gen.Dict{}
	ss, is := map[string]bool{}, map[int]bool{}
	filepath.WalkDir(repoDir(), func(p string, e fs.DirEntry, err error) error {
		if err != nil || e.IsDir() && e.Name() == ".git" {
			if err == nil {
				return filepath.SkipDir
			}
			return nil
		}
		if e.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if _, imp := n.(*ast.ImportSpec); imp {
				return false
			}
			if e, bin := n.(*ast.BinaryExpr); bin {
				if v := fold(e); v > 1 && v < 1<<24 {
					is[int(v)] = true
				}
			}
			l, lit := n.(*ast.BasicLit)
			if !lit {
				return true
			}
			switch l.Kind {
			case token.STRING, token.CHAR:
				if s, err := strconv.Unquote(l.Value); err == nil && s != "" && len(s) < 60 && utf8.ValidString(s) {
					ss[s] = true
				}
			case token.INT:
				if n, err := strconv.ParseInt(l.Value, 0, 64); err == nil && n > 1 && n < 1<<24 {
					is[int(n)] = true
				}
			}
			return true
		})
		return nil
	})
	for s := range ss {
		d.Strings = append(d.Strings, s)
	}
	sort.Strings(d.Strings)
	for n := range is {
		d.Ints = append(d.Ints, n)
	}
	sort.Ints(d.Ints)
	return d
}

// fold evaluates simple constant expressions such as 1 << 20 and 64 * 1024.
func fold(e ast.Expr) int64 {
	switch x := e.(type) {
	case *ast.BasicLit:
		n, err := strconv.ParseInt(x.Value, 0, 64)
		if x.Kind == token.INT && err == nil {
			return n
		}
	case *ast.ParenExpr:
		return fold(x.X)
	case *ast.BinaryExpr:
		a, b := fold(x.X), fold(x.Y)
		if a <= 0 || b <= 0 {
			return 0
		}
		switch x.Op {
		case token.SHL:
			if b < 40 {
				return a << uint(b)
			}
		case token.MUL:
			if a < 1<<31 && b < 1<<31 {
				return a * b
			}
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		}
	}
	return 0
}

type finding struct {
	index int
	work  string
	what  string
	c     *Case
	note  string
}

type run struct {
	prop, tier string
	seed       int64
	dir        string
	plan       []item
	dict       *gen.Dict

	mu       sync.Mutex
	stats    *Stats
	hashes   map[uint64]struct{}
	findings []finding
	crashes  int
	notes    []string
	stopped  bool
	ctx      context.Context // ends when enough is known
	cancel   func()
}

func (r *run) stop() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.stopped
}

func (r *run) add(f finding) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.stopped {
		return
	}
	r.findings = append(r.findings, f)
	if len(r.findings) >= 3 && (r.prop != "ALL" || len(r.findings) >= 30) || r.prop != "ALL" && strings.HasPrefix(f.what, noReturn) {
		r.stopped = true
		r.cancel()
	}
}

const shards = 8

const noReturn = "the call does not return"

// A check gives its answer within this time, with what it has observed.
const budget = 700 * time.Second

// shard runs one shard, restarting the worker after a case that kills it.
func (r *run) shard(k int) {
	self, _ := os.Executable()
	journal := filepath.Join(r.dir, fmt.Sprintf("journal%d", k))
	from, restarts, first := 0, 0, 0
	for !r.stop() {
		hashes := filepath.Join(r.dir, fmt.Sprintf("hashes%d-%d", k, restarts))
		cmd := exec.CommandContext(r.ctx, self, "worker", r.prop, r.tier, strconv.FormatInt(r.seed, 10), strconv.Itoa(k), strconv.Itoa(shards), strconv.Itoa(from), journal, hashes, filepath.Join(r.dir, "dict.json"))
		var stderr bytes.Buffer
		cmd.Stderr = &limited{b: &stderr, max: 1 << 16}
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single", "GOGC=400")
		out, err := cmd.StdoutPipe()
		must(err)
		must(cmd.Start())
		done := false
		var sofar *Stats
		sc := bufio.NewScanner(out)
		sc.Buffer(make([]byte, 1<<20), 1<<30)
		for sc.Scan() {
			var m Message
			if json.Unmarshal(sc.Bytes(), &m) != nil {
				continue
			}
			switch m.Kind {
			case "violation":
				r.add(finding{m.Index, m.Work, m.What, m.Case, ""})
			case "stats":
				sofar = m.Stats
			case "done":
				done = true
				r.mu.Lock()
				r.stats.merge(m.Stats)
				r.mu.Unlock()
			}
		}
		werr := cmd.Wait()
		if b, err := os.ReadFile(hashes); err == nil {
			r.mu.Lock()
			for i := 0; i+8 <= len(b); i += 8 {
				r.hashes[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
			}
			r.mu.Unlock()
		}
		if !done && sofar != nil {
			r.mu.Lock()
			r.stats.merge(sofar)
			r.mu.Unlock()
		}
		if done || r.stop() {
			return
		}
		if cmd.ProcessState.ExitCode() == exitBug {
			must(fmt.Errorf("%s", stderr.String()))
		}
		// the worker died on a case
		b, _ := os.ReadFile(journal)
		if len(b) < 8 {
			must(fmt.Errorf("worker %d failed before its first case: %v\n%s", k, werr, stderr.String()))
		}
		idx := int(binary.LittleEndian.Uint64(b)) - 1
		r.mu.Lock()
		c, w := makeCase(r.plan, idx, r.prop, r.tier, r.seed, r.dict)
		r.crashes++
		r.mu.Unlock()
		if c != nil {
			r.died(k, first, idx, w, c, werr)
		}
		from = idx + 1
		first = from
		if restarts++; restarts > 30 {
			r.mu.Lock()
			r.notes = append(r.notes, fmt.Sprintf("shard %d abandoned at case %d after %d crashes", k, idx, restarts))
			r.mu.Unlock()
			return
		}
	}
}

// died confirms in a process of its own that a case does not return.
func (r *run) died(k, first, idx int, w string, c *Case, werr error) {
	mine := r.prop == "C03"
	r.mu.Lock() // the specification keeps counts
	for _, p := range crashProps(*c) {
		mine = mine || p == r.prop
	}
	r.mu.Unlock()
	if !mine {
		return
	}
	f := filepath.Join(r.dir, fmt.Sprintf("died%d.json", idx))
	writeReplay(f, Replay{Property: r.prop, Case: c})
	v, how := isolated(r.ctx, f)
	switch {
	case r.stop():
	case how != "" && r.prop == "C03": // alone too: concerns C01
	case how != "":
		r.add(finding{idx, w, noReturn + ": " + how, c, ""})
	case v[r.prop] != "":
		r.add(finding{idx, w, v[r.prop], c, ""})
	case r.prop == "C01" || r.prop == "C03":
		// It returns when it is alone. Does it fail again after the same calls?
		self, _ := os.Executable()
		j := filepath.Join(r.dir, fmt.Sprintf("again%d", idx))
		cmd := exec.CommandContext(r.ctx, self, "worker", r.prop, r.tier, strconv.FormatInt(r.seed, 10), strconv.Itoa(k), strconv.Itoa(shards), strconv.Itoa(first), j, j+".hashes", filepath.Join(r.dir, "dict.json"), strconv.Itoa(idx+1))
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single", "GOGC=400")
		err := cmd.Run()
		// (memory does not count here: the harness itself may have used it)
		if b, _ := os.ReadFile(j); err != nil && cmd.ProcessState.ExitCode() != exitMem && len(b) >= 8 && int(binary.LittleEndian.Uint64(b))-1 == idx && !r.stop() {
			r.add(finding{idx, w, fmt.Sprintf("%s: %s, after %d other calls in the same process (it does return in a fresh process)", noReturn, exitReason(cmd), (idx-first)/shards), c, ""})
			return
		}
		r.mu.Lock()
		r.notes = append(r.notes, fmt.Sprintf("case %d ended a worker (%v) but returns in a fresh process and after the same calls", idx, werr))
		r.mu.Unlock()
	}
}

func exitReason(cmd *exec.Cmd) string {
	switch cmd.ProcessState.ExitCode() {
	case exitCPU:
		return "it uses CPU time without end"
	case exitMem:
		return "it uses memory without end"
	case exitDead:
		return "it waits for a lock or channel for ever"
	}
	return fmt.Sprint(cmd.ProcessState)
}

// isolated runs a recorded case alone; how says why it did not return.
func isolated(ctx context.Context, file string) (Verdict, string) {
	self, _ := os.Executable()
	cmd := exec.CommandContext(ctx, self, "isolate", file)
	var out, stderr bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &limited{b: &stderr, max: 1 << 16}
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	err := cmd.Run()
	if err == nil {
		var v Verdict
		json.Unmarshal(out.Bytes(), &v)
		return v, ""
	}
	switch cmd.ProcessState.ExitCode() {
	case exitBug:
		must(fmt.Errorf("%s", stderr.String()))
	case exitCPU:
		return nil, fmt.Sprintf("still running after %v of CPU time", isolateCPU)
	case exitDead:
		return nil, "it waits for a lock or channel for ever"
	case exitMem:
		return nil, fmt.Sprintf("more than %d MB of memory", 2*workerMem>>20)
	}
	return nil, fmt.Sprintf("%v: %s", err, clip(firstLines(stderr.String(), 12), 1500))
}

type limited struct {
	b   *bytes.Buffer
	max int
}

func (l *limited) Write(p []byte) (int, error) {
	if n := l.max - l.b.Len(); n > 0 {
		l.b.Write(p[:min(n, len(p))])
	}
	return len(p), nil
}

func writeReplay(f string, r Replay) {
	if r.Case != nil {
		for _, t := range r.Case.Texts {
			if !utf8.ValidString(t) {
				r.Raw = nil
				for _, t := range r.Case.Texts {
					r.Raw = append(r.Raw, []byte(t))
				}
			}
		}
	}
	b, _ := json.MarshalIndent(r, "", " ")
	must(os.MkdirAll(filepath.Dir(f), 0o755))
	must(os.WriteFile(f, b, 0o644))
}

func check(prop string) int {
	start := time.Now()
	tier, seed := tierSeed()
	dir, err := os.MkdirTemp("", "vh-"+prop+"-")
	must(err)
	defer os.RemoveAll(dir)
	r := &run{prop: prop, tier: tier, seed: seed, dir: dir, stats: newStats(), hashes: map[uint64]struct{}{}, dict: scanDict()}
	b, _ := json.Marshal(r.dict)
	must(os.WriteFile(filepath.Join(dir, "dict.json"), b, 0o644))
	r.ctx, r.cancel = context.WithCancel(context.Background())
	defer r.cancel()
	if tier == "quick" {
		time.AfterFunc(budget, func() {
			r.mu.Lock()
			defer r.mu.Unlock()
			if !r.stopped {
				r.stopped = true
				r.notes = append(r.notes, "stopped: the time for the quick tier is used up")
				r.cancel()
			}
		})
	}
	extra := map[string]interface{}{}
	if prop == "C03" {
		checkRace(r, extra)
	}
	r.plan = planFor(prop, tier)
	var wg sync.WaitGroup
	for k := 0; k < shards; k++ {
		wg.Add(1)
		go func() { defer wg.Done(); r.shard(k) }()
	}
	wg.Wait()
	return r.report(start, extra)
}

func (r *run) report(start time.Time, extra map[string]interface{}) int {
	sort.Slice(r.findings, func(i, j int) bool { return r.findings[i].index < r.findings[j].index })
	violations := []string{}
	for i, f := range r.findings {
		path := filepath.Join(verifDir(), "out", "replay", fmt.Sprintf("%s-%d-%d.json", r.prop, r.seed, f.index))
		rp := Replay{Property: r.prop, What: f.what, Workload: f.work, Index: f.index, Case: f.c, History: f.c == nil}
		writeReplay(path, rp)
		if f.c != nil && r.prop != "C03" && r.prop != "C25" && !strings.HasPrefix(f.what, noReturn) {
			// does it happen in a fresh process too?
			if v, how := isolated(context.Background(), path); how == "" && v[r.prop] == "" {
				rp.History = true
				rp.What += " (only after other calls in the same process)"
				writeReplay(path, rp)
			}
		}
		if i < 3 {
			fmt.Printf("%s (%s): %s\n", r.prop, f.work, printable(clip(rp.What, 1500)))
			if f.c != nil {
				for _, t := range f.c.Texts {
					fmt.Printf("  %v %q\n", f.c.D, clip(t, 600))
				}
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, path)
		}
		violations = append(violations, clip(rp.What, 500))
	}
	s := r.stats
	distinct := len(r.hashes)
	if n, is := extra["distinct"].(int); is {
		distinct += n
		delete(extra, "distinct")
	}
	cov := map[string]interface{}{
		"evaluations": s.Calls, "distinct_nontrivial": distinct,
		"rule":    rules[r.prop],
		"samples": append([]string{}, s.Samples...),
		"cases":   s.Cases, "judged_valid": s.Accept, "judged_invalid": s.Reject, "tables_compared": s.Tables, "columns_compared": s.Columns,
		"table_constraints_compared": s.TCons, "largest_text_bytes": s.MaxText, "cases_by_workload": s.Work, "not_applicable_draws": s.Skipped,
		"worker_crashes": r.crashes, "notes": r.notes,
	}
	for k, n := range s.Max {
		cov["max_"+k] = n
	}
	cpu, valid := map[string]int{}, map[string]map[string]int{}
	for k, n := range s.Extra {
		if x := strings.Split(k, "\x00"); len(x) == 3 {
			if valid[x[1]] == nil {
				valid[x[1]] = map[string]int{}
			}
			valid[x[1]][x[2]] = n
		} else if strings.HasPrefix(k, "us_") {
			cpu[k[3:]] = n / 1000
		} else {
			cov[k] = n
		}
	}
	cov["judging_ms_by_workload"] = cpu
	cov["cases_with_valid_text"] = valid
	for _, d := range spec.Dialects {
		hit := 0
		var missed []string
		for _, n := range spec.Grammars[d].Nodes {
			if s.Nodes[d.String()][n.ID] > 0 {
				hit++
			} else if len(n.Kws) > 0 || n.Ref != "" {
				missed = append(missed, n.Ref+strings.Join(n.Kws, "/"))
			}
		}
		cov["grammar_nodes_matched_"+d.String()] = fmt.Sprintf("%d of %d", hit, len(spec.Grammars[d].Nodes))
		if len(missed) > 0 {
			cov["grammar_nodes_never_matched_"+d.String()] = missed
		}
	}
	if len(violations) > 0 {
		cov["violations_seen"] = violations
	}
	for k, x := range extra {
		cov[k] = x
	}
	ev := map[string]interface{}{
		"property": r.prop, "tier": r.tier, "seed": r.seed, "level": "exploration", "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(violations),
		"assumptions": assumptions,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755))
	must(os.WriteFile(filepath.Join(verifDir(), "evidence", r.prop+".json"), append(b, '\n'), 0o644))
	if len(violations) > 0 {
		return 1
	}
	if s.Calls == 0 && r.crashes == 0 {
		fmt.Fprintln(os.Stderr, "vh: nothing was observed")
		return 2
	}
	if n := s.Extra["shards_without_system_call_filter"]; n > 0 {
		fmt.Printf("%s: %d of %d shards could not filter system calls\n", r.prop, n, shards)
	}
	fmt.Printf("%s: held on %d calls (%d distinct specified cases, %d valid, %d invalid texts) in %.1f s\n", r.prop, s.Calls, distinct, s.Accept, s.Reject, time.Since(start).Seconds())
	return 0
}

var assumptions = []string{
	"the grammar and meaning in harness/spec state what the documentation promises; it was written from the documentation and the statements, not derived from the implementation at run time",
	"texts with invalid UTF-8 or keywords in mixed case are judged only for totality, the result contract and relations",
}

// printable keeps control characters out of the output.
func printable(s string) string {
	return strings.Map(func(c rune) rune {
		if c < ' ' && c != '\n' || c == 0x7f || c == utf8.RuneError {
			return '?'
		}
		return c
	}, s)
}
