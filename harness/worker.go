package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"verifharness/gen"
	"verifharness/spec"
)

// Message is one line of a worker's output.
type Message struct {
	Kind  string `json:"kind"` // violation, done
	Index int    `json:"index"`
	Work  string `json:"work,omitempty"`
	What  string `json:"what,omitempty"`
	Case  *Case  `json:"case,omitempty"`
	Stats *Stats `json:"stats,omitempty"`
}

// Exit codes of the watchdog.
const (
	exitCPU  = 77
	exitMem  = 78
	exitBug  = 79 // a panic of the harness itself, not of the code under test
	exitDead = 80 // blocked for good
)

// ownPanic ends the process in a way that is never taken for a violation.
func ownPanic() {
	if r := recover(); r != nil {
		fmt.Fprintf(os.Stderr, "vh: panic in the harness: %v\n%s\n", r, debug.Stack())
		os.Exit(exitBug)
	}
}

var current atomic.Int64 // what the watchdog watches: changes with every case

func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func rssBytes() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

// watchdog ends the process when one case uses too much CPU time (not wall
// clock: a loaded machine changes nothing) or memory, or when every call is
// blocked (waits for a lock, a channel, ...) whenever it is looked at.
func watchdog(cpu time.Duration, mem int64) {
	debug.SetMaxStack(maxStack)
	debug.SetMemoryLimit(mem * 2 / 3) // collect more often before it is reached
	go func() {
		last, since := int64(-1), time.Duration(0)
		quiet, dead := 0, 0
		for {
			time.Sleep(50 * time.Millisecond)
			c, t := current.Load(), cpuTime()
			if c != last {
				last, since = c, t
				quiet, dead = 0, 0
			}
			if quiet++; quiet%20 == 0 {
				if !allBlocked() {
					dead = 0
				} else if dead++; dead >= 10 {
					os.Exit(exitDead)
				}
			}
			if t-since > cpu {
				os.Exit(exitCPU)
			}
			if rssBytes() > mem {
				debug.FreeOSMemory() // what is garbage does not count
				if rssBytes() > mem {
					os.Exit(exitMem)
				}
			}
		}
	}()
}

// allBlocked: there are goroutines in the code under test, and all of them
// wait for something that only another goroutine could give them.
func allBlocked() bool {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	n := 0
	for _, g := range strings.Split(string(buf), "\n\n") {
		if !strings.Contains(g, "kodaimura/ddlparse") {
			continue
		}
		n++
		state, _, _ := strings.Cut(strings.TrimPrefix(g[strings.IndexByte(g, '[')+1:], "["), "]")
		wait := false
		for _, w := range []string{"Mutex", "semacquire", "chan ", "select", "WaitGroup", "Cond"} {
			wait = wait || strings.Contains(state, w)
		}
		if !wait {
			return false
		}
	}
	return n > 0
}

const (
	isolateCPU = 60 * time.Second
	workerMem  = 3 << 30
	maxStack   = 250000000 // Go's own limit on 32 bit platforms
)

// workerCPU: after so much CPU time a case is taken out and run alone.
func workerCPU(prop string) time.Duration {
	switch prop {
	case "C01", "C23", "C24":
		return 20 * time.Second
	}
	return 5 * time.Second
}

// worker PROP TIER SEED SHARD SHARDS FROM JOURNAL HASHES DICT [TO]
func worker(a []string) {
	defer ownPanic()
	prop, tier := a[0], a[1]
	num := func(s string) int { n, err := strconv.Atoi(s); must(err); return n }
	seed, shard, shards, from := int64(num(a[2])), num(a[3]), num(a[4]), num(a[5])
	journal, err := os.OpenFile(a[6], os.O_RDWR|os.O_CREATE, 0o644)
	must(err)
	dict := &gen.Dict{}
	b, err := os.ReadFile(a[8])
	must(err)
	must(json.Unmarshal(b, dict))
	if prop == "C25" {
		effWorker(tier, seed, shard, shards, dict, a[7])
		return
	}
	plan := planFor(prop, tier)
	n := total(plan)
	if len(a) > 9 {
		n = num(a[9])
	}
	out := bufio.NewWriter(os.Stdout)
	send := func(m Message) { x, _ := json.Marshal(m); out.Write(x); out.WriteByte('\n'); out.Flush() }
	watchdog(workerCPU(prop), workerMem)
	hashes := map[uint64]struct{}{}
	found, sent := 0, time.Now()
	var buf [8]byte
	for i := from; i < n; i++ {
		if i%shards != shard {
			continue
		}
		binary.LittleEndian.PutUint64(buf[:], uint64(i)+1)
		journal.WriteAt(buf[:], 0)
		current.Add(1)
		c, w := makeCase(plan, i, prop, tier, seed, dict)
		if c == nil {
			stats.Skipped++
			continue
		}
		stats.Cases++
		stats.Work[w]++
		t0, c0 := time.Now(), cpuTime()
		acc, valid := stats.Accept+stats.Reject, stats.Accept
		v := judge(*c)
		if stats.Accept > valid {
			stats.Extra["valid\x00"+w+"\x00"+c.D.String()]++
		}
		stats.Extra["us_"+w] += int(time.Since(t0).Microseconds())
		stats.Max["case_cpu_ms"] = max(stats.Max["case_cpu_ms"], int((cpuTime() - c0).Milliseconds()))
		l := 0
		for _, t := range c.Texts {
			l += len(t)
		}
		stats.MaxText = max(stats.MaxText, l)
		if stats.Accept+stats.Reject > acc && len(hashes) < 4000000 {
			hashes[hashCase(c)] = struct{}{}
		}
		if len(stats.Samples) < 2 && shard < 6 && i%97 == shard && l < 400 {
			stats.Samples = append(stats.Samples, fmt.Sprintf("%s %v: %s", w, c.D, strings.Join(c.Texts, " ||| ")))
		}
		if prop == "ALL" && len(v) > 0 { // development: whatever is violated
			for _, p := range sortedKeys(v) {
				send(Message{Kind: "violation", Index: i, Work: w, What: p + " " + v[p], Case: c})
			}
			if found++; found >= 5 {
				break
			}
			continue
		}
		if time.Since(sent) > time.Second { // what was observed so far, should the next case end the process
			send(Message{Kind: "stats", Stats: stats})
			sent = time.Now()
		}
		if what := v[prop]; what != "" {
			small := shrink(*c, prop)
			if sv := judge(small)[prop]; sv != "" {
				what = sv
			}
			send(Message{Kind: "violation", Index: i, Work: w, What: what, Case: &small})
			if found++; found >= 3 {
				break
			}
		}
	}
	for d, m := range specCover {
		stats.Nodes[d.String()] = m
	}
	hs := make([]uint64, 0, len(hashes))
	for h := range hashes {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	hb := make([]byte, 8*len(hs))
	for i, h := range hs {
		binary.LittleEndian.PutUint64(hb[8*i:], h)
	}
	os.WriteFile(a[7], hb, 0o644)
	send(Message{Kind: "done", Stats: stats})
}

func hashCase(c *Case) uint64 {
	// FNV-1a over relation, dialect and texts
	h := uint64(14695981039346656037)
	add := func(s string) {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
		h = (h ^ 0xff) * 1099511628211
	}
	add(c.Rel)
	add(c.D.String())
	for _, t := range c.Texts {
		add(t)
	}
	return h
}

// shrink removes pieces of a single-text case while it still violates the
// property. Only for the reader of a report; it decides nothing.
func shrink(c Case, prop string) Case {
	if prop == "C03" || len(c.Texts) != 1 || len(c.Texts[0]) > 20000 {
		return c
	}
	tries := 0
	bad := func(s string) bool {
		if tries++; tries > 400 {
			return false
		}
		current.Add(1)
		d := c
		d.Texts = []string{s}
		return judge(d)[prop] != ""
	}
	s := c.Texts[0]
	for size := len(s) / 2; size > 0; size /= 2 {
		for i := 0; i+size <= len(s); {
			t := s[:i] + s[i+size:]
			if bad(t) {
				s = t
			} else {
				i += size
			}
		}
	}
	c.Texts = []string{s}
	return c
}

// isolate runs one case in a process of its own.
func isolate(file string) {
	defer ownPanic()
	c := readCase(file)
	watchdog(isolateCPU, 2*workerMem)
	v := judge(c)
	b, _ := json.Marshal(v)
	fmt.Println(string(b))
}

func readCase(file string) Case {
	b, err := os.ReadFile(file)
	must(err)
	var r Replay
	must(json.Unmarshal(b, &r))
	if r.Case == nil {
		fmt.Fprintln(os.Stderr, "vh: no case in", file)
		os.Exit(2)
	}
	c := *r.Case
	for i, x := range r.Raw {
		c.Texts[i] = string(x)
	}
	return c
}

// Replay is a recorded violation.
type Replay struct {
	Property string   `json:"property"`
	What     string   `json:"what"`
	Workload string   `json:"workload,omitempty"`
	Index    int      `json:"index"`
	Case     *Case    `json:"case"`
	Raw      [][]byte `json:"raw,omitempty"` // the texts, where they are not valid UTF-8
	History  bool     `json:"history,omitempty"`
}

// replay runs a recorded case again and says what it shows.
func replay(file string) int {
	b, err := os.ReadFile(file)
	must(err)
	var r Replay
	must(json.Unmarshal(b, &r))
	if r.Case == nil {
		fmt.Println("this violation needs a history of calls; recorded observation:", r.What)
		return 1
	}
	c := readCase(file)
	if r.Property == "C25" {
		return effReplay(r, c)
	}
	watchdog(isolateCPU, 2*workerMem)
	for _, t := range c.Texts {
		fmt.Printf("--- %v\n%s\n", c.D, clip(t, 3000))
	}
	v := judge(c)
	rc := 0
	for _, p := range sortedKeys(v) {
		fmt.Printf("%s: %s\n", p, v[p])
		if p == r.Property {
			rc = 1
		}
	}
	return rc
}

func sortedKeys(v Verdict) []string {
	var r []string
	for k := range v {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// crashProps: the properties that a call that never returned violates.
func crashProps(c Case) []string {
	r := []string{"C01"}
	rel := map[string]string{"layout": "C12", "quoted": "C13", "case": "C14", "concat": "C18", "entry": "C19", "json": "C21", "strip": "C20", "good+bad": "C02", "empty": "C02", "again": "C03", "history": "C03", "cost": "C24"}
	if p := rel[c.Rel]; p != "" {
		r = append(r, p)
	}
	tag := map[string]string{"cross": "C22", "size": "C23", "quotes": "C13", "layouts": "C12", "options": "C20", "statements": "C18"}
	if p := tag[c.Tag]; p != "" {
		r = append(r, p)
	}
	for _, t := range c.Texts {
		if c.Rel == "cost" {
			break
		}
		if o := predict(t, c.D); o == nil {
			continue
		} else if o.Err == nil {
			r = append(r, validProps...)
		} else {
			r = append(r, "C02", "C16", "C17")
		}
	}
	return r
}

var _ = spec.SQLite
