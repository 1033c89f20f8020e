package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"

	"github.com/kodaimura/ddlparse"

	"verifharness/gen"
	"verifharness/spec"
)

// C03: the harness is built with the race detector. Each process starts with
// concurrent calls (so that lazily initialised state is initialised under
// contention), then repeats everything alone, in long shuffled histories,
// while scribbling over returned results, and in fresh processes.

// callItem is one call: a text and an entry point (0..2 Parse with a dialect,
// 3..5 the named functions, 6 ParseForce).
type callItem struct {
	Text  string
	Entry int
}

func (c callItem) name() string {
	return []string{"Parse(SQLite)", "Parse(PostgreSQL)", "Parse(MySQL)", "ParseSQLite", "ParsePostgreSQL", "ParseMySQL", "ParseForce"}[c.Entry]
}

func (c callItem) do() (t []ddlparse.Table, err error, pan string) {
	defer func() {
		if r := recover(); r != nil {
			pan = fmt.Sprint(r) + "\n" + firstLines(string(debug.Stack()), 16)
		}
	}()
	switch c.Entry {
	case 0:
		t, err = ddlparse.Parse(c.Text, ddlparse.SQLite)
	case 1:
		t, err = ddlparse.Parse(c.Text, ddlparse.PostgreSQL)
	case 2:
		t, err = ddlparse.Parse(c.Text, ddlparse.MySQL)
	case 3:
		t, err = ddlparse.ParseSQLite(c.Text)
	case 4:
		t, err = ddlparse.ParsePostgreSQL(c.Text)
	case 5:
		t, err = ddlparse.ParseMySQL(c.Text)
	default:
		t, err = ddlparse.ParseForce(c.Text)
	}
	return
}

func same(s string) string { return s }

// print of a result: equal exactly for equal results.
func print(t []ddlparse.Table, err error, pan string) string {
	if pan != "" {
		return "panic: " + firstLines(pan, 1)
	}
	s := fmt.Sprintf("%#v", mapTables(convert(t), same))
	if err != nil {
		s += fmt.Sprintf("|%T %v", err, err)
	}
	return s
}

func hash(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

// scribble overwrites everything reachable from a result, also behind the
// lengths of its slices.
func scribble(ts []ddlparse.Table) {
	strs := func(s []string) {
		s = s[:cap(s)]
		for i := range s {
			s[i] = "SCRIBBLE"
		}
	}
	ts = ts[:cap(ts)]
	for i := range ts {
		t := &ts[i]
		t.Name, t.Schema, t.IfNotExists = "SCRIBBLE", "SCRIBBLE", !t.IfNotExists
		cols := t.Columns[:cap(t.Columns)]
		for j := range cols {
			c := &cols[j]
			strs(c.Constraint.References.ColumnNames)
			c.Name, c.DataType.Name, c.DataType.DigitN = "SCRIBBLE", "SCRIBBLE", -7
			c.Constraint.Name, c.Constraint.Default, c.Constraint.Check, c.Constraint.Collate = "SCRIBBLE", "SCRIBBLE", "SCRIBBLE", "SCRIBBLE"
			c.Constraint.IsNotNull, c.Constraint.IsPrimaryKey, c.Constraint.IsUnique = !c.Constraint.IsNotNull, !c.Constraint.IsPrimaryKey, !c.Constraint.IsUnique
			c.Constraint.References.TableName = "SCRIBBLE"
		}
		k := &t.Constraints
		pk := k.PrimaryKey[:cap(k.PrimaryKey)]
		for j := range pk {
			pk[j].Name = "SCRIBBLE"
			strs(pk[j].ColumnNames)
		}
		uq := k.Unique[:cap(k.Unique)]
		for j := range uq {
			uq[j].Name = "SCRIBBLE"
			strs(uq[j].ColumnNames)
		}
		ch := k.Check[:cap(k.Check)]
		for j := range ch {
			ch[j].Name, ch[j].Expr = "SCRIBBLE", "SCRIBBLE"
		}
		fk := k.ForeignKey[:cap(k.ForeignKey)]
		for j := range fk {
			fk[j].Name, fk[j].References.TableName = "SCRIBBLE", "SCRIBBLE"
			strs(fk[j].ColumnNames)
			strs(fk[j].References.ColumnNames)
		}
	}
}

// items makes the calls of one process: families of related texts.
func raceItems(r *rand.Rand, dict *gen.Dict, n int) []callItem {
	e := &Env{R: r, Dict: dict, Tier: "quick"}
	var its []callItem
	for len(its) < n {
		d := e.dialect()
		p := e.profile()
		p.MaxDefs = 1 + r.Intn(5)
		g := e.gen(d, p)
		t := g.DDL()
		s := gen.Render(r, d, t, e.layout())
		fam := []string{s}
		switch r.Intn(10) {
		case 8: // read differently by the dialects
			x := ambiguous(r)
			its = append(its, callItem{x, 6}, callItem{x, r.Intn(6)})
			if r.Intn(2) == 0 {
				its = append(its, callItem{s, 6})
			}
		case 0: // one token changed: same prefix, often same length
			fam = append(fam, gen.Render(r, d, g.MutateTokens(t), gen.Plain), gen.Render(r, d, g.MutateTokens(t), gen.Plain), gen.Render(r, d, t, gen.Plain))
		case 1: // same length, one character changed
			b := []byte(s)
			for k := 0; k < 3 && len(b) > 0; k++ {
				c := append([]byte(nil), b...)
				i := r.Intn(len(c))
				if c[i] >= 'a' && c[i] <= 'z' {
					c[i] = 'a' + byte(r.Intn(26))
				} else if c[i] >= '0' && c[i] <= '9' {
					c[i] = '0' + byte(r.Intn(10))
				}
				fam = append(fam, string(c))
			}
		case 2: // names in another case
			fam = append(fam, strings.ToUpper(s), strings.ToLower(s))
		case 3: // repeated, and as a prefix of another
			fam = append(fam, s+"\n"+s, s+"\n"+gen.Render(r, d, g.DDL(), gen.Plain))
		case 4: // other layout
			fam = append(fam, gen.Render(r, d, t, gen.Hostile), gen.Render(r, d, t, gen.Plain), "\n"+s, s+" ")
		case 5:
			fam = append(fam, gen.MutateText(r, s), gen.MutateText(r, s))
		case 6: // small tables that differ in one word
			w := []string{"id", "ID", "Id", "name", "x", "users", "USERS", "日本"}
			for k := 0; k < 4; k++ {
				fam = append(fam, fmt.Sprintf("create table %s (%s text, b %s, check(%s), unique(%s));", w[r.Intn(7)], w[r.Intn(7)], []string{"text", "integer", "numeric"}[r.Intn(3)], w[r.Intn(8)], w[r.Intn(7)]))
			}
		case 7: // truncated
			for k := 0; k < 2; k++ {
				fam = append(fam, s[:r.Intn(len(s)+1)])
			}
		}
		for _, x := range fam {
			// the same text through several entry points
			k := 1 + r.Intn(3)
			for _, en := range r.Perm(7)[:k] {
				its = append(its, callItem{x, en})
			}
			its = append(its, callItem{x, int(d)})
		}
	}
	r.Shuffle(len(its), func(i, j int) { its[i], its[j] = its[j], its[i] })
	return its
}

// fresh makes the call in a process of its own, in another environment.
func (c callItem) fresh(ctx context.Context, bin string, env ...string) ([]byte, error) {
	in, _ := json.Marshal(struct {
		Text  []byte
		Entry int
	}{[]byte(c.Text), c.Entry})
	cmd := exec.CommandContext(ctx, bin, "one")
	cmd.Stdin = bytes.NewReader(in)
	cmd.Dir = "/"
	cmd.Env = append([]string{"GOMAXPROCS=1", "LANG=C", "TZ=Asia/Tokyo"}, env...)
	return cmd.Output()
}

// longFrom: processes from this number on run without the race detector, and so
// many more calls.
const longFrom = 1000

func raceSize(tier string) int {
	if tier == "thorough" {
		return 2500
	}
	return 300
}

// race TIER SEED K DICT
func raceMain(a []string) {
	tier := a[0]
	seed, _ := strconv.ParseInt(a[1], 10, 64)
	k, _ := strconv.Atoi(a[2])
	dict := &gen.Dict{}
	b, err := os.ReadFile(a[3])
	must(err)
	must(json.Unmarshal(b, dict))
	r := rng(seed, "C03", "race", k)
	n, hist, fresh, workers := raceSize(tier), 3000, 30, 8
	if tier == "thorough" {
		hist, fresh = 60000, 150
	}
	if k%3 == 2 {
		workers = 24
	}
	long := k >= longFrom // without the race detector
	if long {
		n, hist = 3*n, 5*hist
	}
	its := raceItems(r, dict, n)
	watchdog(isolateCPU, workerMem)
	found := 0
	report := func(it callItem, f string, a ...interface{}) {
		if found++; found > 5 {
			return
		}
		m, _ := json.Marshal(Message{Kind: "violation", Index: k, Work: "concurrent and historical calls", What: fmt.Sprintf(f, a...),
			Case: &Case{Rel: "diff", D: spec.Dialect(it.Entry % 3), Texts: []string{it.Text}}})
		fmt.Println(string(m))
	}
	// phase 1: concurrent, first calls of the process
	type seen struct {
		h   uint64
		pan string
	}
	got := make([][]seen, workers)
	held := make([][]ddlparse.Table, len(its))
	heldPrint := make([]uint64, len(its))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w := 0; w < workers; w++ {
		got[w] = make([]seen, len(its))
		wr := rng(seed, "C03", fmt.Sprintf("race%d", k), w)
		order := wr.Perm(len(its))
		if w%2 == 0 { // half of the goroutines go through the calls in step
			order = nil
			for i := range its {
				order = append(order, i)
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, i := range order {
				t, err, pan := its[i].do()
				current.Add(1)
				got[w][i] = seen{hash(print(t, err, pan)), pan}
				switch {
				case w == 0:
					held[i], heldPrint[i] = t, hash(print(t, nil, ""))
				case w%2 == 1:
					scribble(t) // only this goroutine's own result
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	calls := workers * len(its)
	// phase 2: each call alone
	base := make([]uint64, len(its))
	full := make([]string, len(its))
	distinct := map[uint64]bool{}
	for i, it := range its {
		current.Add(1)
		t, err, pan := it.do()
		calls++
		full[i] = print(t, err, pan)
		base[i] = hash(full[i])
		distinct[hash(it.name()+it.Text)] = true
		if i%2 == 0 {
			scribble(t)
		}
		for w := range got {
			if got[w][i].h != base[i] {
				report(it, "%s: one of %d concurrent calls returned something else than the call alone, which returns %s", it.name(), workers, clip(full[i], 400))
				break
			}
		}
	}
	// phase 3: results that were kept are unchanged
	check := func(when string) {
		for i := range its {
			if hash(print(held[i], nil, "")) != heldPrint[i] {
				report(its[i], "%s: a returned result changed later (%s)", its[i].name(), when)
				return
			}
		}
	}
	check("after the sequential calls")
	// phase 4: long histories
	kept := map[int][]ddlparse.Table{}
	keptPrint := map[int]uint64{}
	for c := 0; c < hist; c++ {
		i := r.Intn(len(its))
		if c%50 < 5 { // the same call many times in a row
			i = (c / 50) % len(its)
		}
		current.Add(1)
		t, err, pan := its[i].do()
		calls++
		if c%400 == 399 {
			runtime.GC() // pools and weak references are emptied
		}
		if p := print(t, err, pan); hash(p) != base[i] {
			report(its[i], "%s: after %d other calls the result differs: %s instead of %s", its[i].name(), calls, clip(p, 400), clip(full[i], 400))
			break
		}
		switch r.Intn(4) {
		case 0:
			scribble(t)
		case 1:
			kept[i], keptPrint[i] = t, hash(print(t, nil, ""))
		}
	}
	// phase 5: very many different small texts, each of which says what its
	// result is, with some of them again after a while and at last all again: a
	// table of earlier calls that fills up or mixes up its entries shows
	many := 3000
	if k < 6 {
		many = 24000
	}
	if long {
		many = 160000
	}
	if tier == "thorough" {
		many *= 5
	}
	for c, last := 0, many+many/2; c < last && found == 0; c++ {
		current.Add(1)
		x := c
		if c >= many {
			x = (c - many) * 2 // the second time
		}
		if msg := manyCall(x); msg != "" {
			report(manyItem(x), "after %d other calls: %s", calls, msg)
		}
		calls++
		if c%3 == 0 {
			y := max(0, min(x, many-1)-r.Intn(1<<uint(r.Intn(18))))
			if msg := manyCall(y); msg != "" {
				report(manyItem(y), "after %d other calls: %s", calls, msg)
			}
			calls++
		}
	}
	for i, it := range its {
		current.Add(1)
		t, err, pan := it.do()
		calls++
		if p := print(t, err, pan); hash(p) != base[i] {
			report(it, "%s: after %d other calls the result differs: %s instead of %s", it.name(), calls, clip(p, 400), clip(full[i], 400))
			break
		}
	}
	for i, t := range kept {
		if hash(print(t, nil, "")) != keptPrint[i] {
			report(its[i], "%s: a returned result changed during later calls", its[i].name())
		}
	}
	check("after a long history")
	// phase 6: the same calls in fresh processes; every text constant of the
	// code is set as an environment variable in half of them
	var allEnv []string
	for _, s := range dict.Strings {
		if envName.MatchString(s) && !strings.HasPrefix(s, "GO") {
			allEnv = append(allEnv, s+"=1")
		}
	}
	fr := 0
	var fmu sync.Mutex
	sem := make(chan bool, 4)
	for j := 0; j < fresh; j++ {
		i := r.Intn(len(its))
		if len(its[i].Text) > 20000 {
			continue
		}
		sem <- true
		wg.Add(1)
		go func() {
			defer func() { <-sem; wg.Done() }()
			var env []string
			if j%2 == 1 {
				env = allEnv
			}
			out, err := its[i].fresh(context.Background(), os.Getenv("VH_PLAIN"), env...)
			current.Add(1)
			if err != nil {
				return // a call that does not return concerns C01
			}
			fmu.Lock()
			defer fmu.Unlock()
			fr++
			if string(out) != full[i] {
				report(its[i], "%s: a fresh process returns %s, this one %s", its[i].name(), clip(string(out), 400), clip(full[i], 400))
			}
		}()
	}
	wg.Wait()
	s := newStats()
	s.Calls, s.Cases = calls+fr, len(its)
	for _, it := range its {
		if it.Entry < 3 {
			if o := predict(it.Text, spec.Dialect(it.Entry)); o != nil {
				if o.Err == nil {
					s.Accept++
				} else {
					s.Reject++
				}
			}
		}
	}
	s.Extra["concurrent_calls"] = workers * len(its)
	s.Extra["history_calls"] = calls
	s.Extra["held_results_rechecked"] = 2*len(its) + len(kept)
	s.Extra["fresh_process_calls"] = fr
	s.Extra["distinct_calls"] = len(distinct)
	s.Samples = append(s.Samples, its[0].name()+" "+clip(its[0].Text, 300))
	m, _ := json.Marshal(Message{Kind: "done", Stats: s})
	fmt.Println(string(m))
}

var envName = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)

// one call in a fresh process
func one() {
	var in struct {
		Text  []byte
		Entry int
	}
	must(json.NewDecoder(bufio.NewReader(os.Stdin)).Decode(&in))
	watchdog(isolateCPU, 2*workerMem)
	os.Stdout.WriteString(print(callItem{string(in.Text), in.Entry}.do()))
}

// checkRace runs the race detector processes.
func checkRace(r *run, extra map[string]interface{}) {
	bin := os.Getenv("VH_RACE")
	if bin == "" {
		must(fmt.Errorf("VH_RACE is not set"))
	}
	self, _ := os.Executable()
	procs, longs := 12, 4
	if r.tier == "thorough" {
		procs, longs = 60, 12
	}
	races := 0
	distinct := 0
	var wg sync.WaitGroup
	sem := make(chan bool, 6)
	for j := 0; j < procs+longs; j++ {
		k, bin := j-longs, bin
		if j < longs {
			k, bin = longFrom+j, self
		}
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			log := filepath.Join(r.dir, fmt.Sprintf("race%d", k))
			cmd := exec.CommandContext(r.ctx, bin, "race", r.tier, strconv.FormatInt(r.seed, 10), strconv.Itoa(k), filepath.Join(r.dir, "dict.json"))
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+log, "VH_PLAIN="+self,
				"GOMAXPROCS="+[]string{"2", "4", "8", "16"}[k%4])
			var stderr bytes.Buffer
			cmd.Stderr = &limited{b: &stderr, max: 1 << 16}
			out, err := cmd.Output()
			done := false
			for _, l := range bytes.Split(out, []byte("\n")) {
				var m Message
				if json.Unmarshal(l, &m) != nil {
					continue
				}
				if m.Kind == "violation" {
					r.add(finding{m.Index, m.Work, m.What, m.Case, ""})
				} else if m.Kind == "done" {
					done = true
					r.mu.Lock()
					distinct += m.Stats.Extra["distinct_calls"]
					r.stats.merge(m.Stats)
					r.mu.Unlock()
				}
			}
			logs, _ := filepath.Glob(log + ".*")
			for _, l := range logs {
				b, _ := os.ReadFile(l)
				if n := strings.Count(string(b), "WARNING: DATA RACE"); n > 0 {
					r.mu.Lock()
					races += n
					r.mu.Unlock()
					if strings.Contains(string(b), "kodaimura/ddlparse") {
						r.add(finding{k, "race detector", "data race: " + clip(firstLines(string(b), 40), 3000), nil, ""})
					}
				}
			}
			if !done && !r.stop() {
				how := exitReason(cmd) + " " + clip(firstLines(stderr.String(), 6), 1500)
				// A call that does not return alone either concerns C01.
				if r.aloneToo(k, self) {
					r.mu.Lock()
					r.notes = append(r.notes, fmt.Sprintf("process %d ended early: %v %s", k, err, how))
					r.mu.Unlock()
				} else if !r.stop() {
					r.add(finding{k, "concurrent and historical calls", "a process that makes concurrent calls does not end: " + how + "; each of the calls returns in a process of its own", nil, ""})
				}
			}
		}()
	}
	wg.Wait()
	extra["race_processes"] = procs
	extra["long_processes_without_race_detector"] = longs
	extra["data_races_reported"] = races
	extra["distinct"] = distinct
}

// aloneToo: one of the calls of process k does not return alone.
func (r *run) aloneToo(k int, bin string) bool {
	n := raceSize(r.tier)
	if k >= longFrom {
		n *= 3
	}
	its := raceItems(rng(r.seed, "C03", "race", k), r.dict, n)
	for _, it := range its {
		if _, err := it.fresh(r.ctx, bin); err != nil {
			return true
		}
	}
	return false
}

func manyItem(x int) callItem {
	s := fmt.Sprintf("create table t%d (c%d text, d integer default %d);", x, x/3, x%10)
	switch x % 9 {
	case 4:
		s = fmt.Sprintf("create table t%d (c%d text, d integer default %d", x, x/3, x%10) // rejected at its end
	case 7:
		s = fmt.Sprintf("create table t%d (c%d text, unique (u%d, v%d), check (w%d));", x, x/3, x/2, x%10, x)
	case 8:
		s = fmt.Sprintf("create table t%d (c%d text default '%s', d integer default %d);", x, x/3, strings.Repeat("long ", 60), x%10)
	}
	return callItem{s, x % 7}
}

// manyCall makes the call and says how its result is wrong.
func manyCall(x int) string {
	it := manyItem(x)
	t, err, pan := it.do()
	ok := pan == "" && err == nil && len(t) == 1 && t[0].Name == fmt.Sprintf("t%d", x) && len(t[0].Columns) > 0 && t[0].Columns[0].Name == fmt.Sprintf("c%d", x/3)
	switch {
	case x%9 == 4:
		ok = pan == "" && len(t) == 0 && err != nil && err.Error() == "ValidateError: Syntax error: near '<EOF>' at line 1."
	case x%9 == 7:
		ok = ok && len(t[0].Columns) == 1 && len(t[0].Constraints.Unique) == 1 && fmt.Sprint(t[0].Constraints.Unique[0].ColumnNames) == fmt.Sprintf("[u%d v%d]", x/2, x%10) &&
			len(t[0].Constraints.Check) == 1 && t[0].Constraints.Check[0].Expr == fmt.Sprintf("(w%d)", x)
	default:
		ok = ok && len(t[0].Columns) == 2 && t[0].Columns[1].Constraint.Default == float64(x%10)
	}
	if !ok {
		return fmt.Sprintf("%s returns %s", it.name(), clip(print(t, err, pan), 400))
	}
	if x%5 == 0 {
		scribble(t)
	}
	return ""
}
