package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"log"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verifharness/gen"
	"verifharness/spec"
)

// C25: a call has no effect but its result. The calls are made in small
// processes whose system calls are filtered by the kernel: what the Go runtime
// needs for memory, threads and time passes, anything else (files, sockets,
// processes, signals, settings, output) ends the process with SIGSYS and the
// stack of the culprit. Around batches of calls the process's own settings,
// goroutines and standard error are compared, and the heap that is still live
// is measured while texts that all differ go through.

type effItem struct {
	Text  []byte `json:"t"`
	Entry int    `json:"e"`
	Unit  []byte `json:"u,omitempty"` // a template: %d becomes the number of the call
	Work  string `json:"w"`
	Index int    `json:"i"`
}

func (x effItem) text(i int) string {
	if x.Unit != nil {
		return strings.ReplaceAll(string(x.Unit), "%d", strconv.Itoa(i))
	}
	return "-- " + strconv.Itoa(i) + "\n" + string(x.Text)
}

func (x effItem) do(text string) (err error, pan string) {
	_, err, pan = callItem{text, x.Entry}.do()
	return
}

// ---- the process under observation

const (
	effFD     = 3 // messages
	effGroup  = 64
	effLeak   = 16 // bytes per call that count as kept
	effIgnore = 1 << 10
)

type sockFilter struct {
	code   uint16
	jt, jf uint8
	k      uint32
}

// allowed: what the runtime needs (amd64).
var allowed = []uint32{
	5 /*fstat*/, 9, 10, 11, 12 /*mmap mprotect munmap brk*/, 13, 14, 15 /*rt_sig...*/, 24 /*sched_yield*/, 25 /*mremap*/, 28 /*madvise*/, 35, 230 /*nanosleep*/, 39, 186, /*getpid gettid*/
	56, 435 /*clone*/, 60, 231 /*exit*/, 96, 228 /*clock*/, 98 /*getrusage*/, 131 /*sigaltstack*/, 157, 158 /*prctl arch_prctl*/, 202 /*futex*/, 203, 204 /*affinity*/, 219 /*restart_syscall*/, 232, 233, 281, 290, 291, 441, /*epoll eventfd*/
	234 /*tgkill*/, 273, 334 /*robust_list rseq*/, 318 /*getrandom*/, 324 /*membarrier*/, 449, 454, 455, 456, /*futex*/
}

// confine installs the filter in all threads of the process.
func confine() error {
	if runtime.GOARCH != "amd64" {
		return fmt.Errorf("no filter for %s", runtime.GOARCH)
	}
	const (
		ld, jeq, ret = 0x20, 0x15, 0x06
		allow, trap  = 0x7fff0000, 0x00030000
	)
	// reads and writes of the runtime's own event descriptor
	events := -1
	for fd := 0; fd < 64; fd++ {
		if l, err := os.Readlink(fmt.Sprintf("/proc/self/fd/%d", fd)); err == nil && strings.Contains(l, "eventfd") {
			events = fd
		}
	}
	p := []sockFilter{{ld, 0, 0, 4}, {jeq, 1, 0, 0xc000003e}, {ret, 0, 0, trap}, {ld, 0, 0, 0}}
	for _, n := range allowed {
		p = append(p, sockFilter{jeq, 0, 1, n}, sockFilter{ret, 0, 0, allow})
	}
	fds := func(nr uint32, fds ...int) {
		body := []sockFilter{{ld, 0, 0, 16}}
		for _, fd := range fds {
			if fd >= 0 {
				body = append(body, sockFilter{jeq, 0, 1, uint32(fd)}, sockFilter{ret, 0, 0, allow})
			}
		}
		body = append(body, sockFilter{ret, 0, 0, trap})
		p = append(p, sockFilter{jeq, 0, uint8(len(body)), nr})
		p = append(p, body...)
	}
	fds(0, events)
	fds(1, 2, effFD, events)
	p = append(p, sockFilter{ret, 0, 0, trap})
	prog := struct {
		n uint16
		_ [6]byte
		p *sockFilter
	}{n: uint16(len(p)), p: &p[0]}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if _, _, e := syscall.RawSyscall6(157, 38, 1, 0, 0, 0, 0); e != 0 { // no_new_privs
		return e
	}
	if r, _, e := syscall.RawSyscall(317, 1, 1, uintptr(unsafe.Pointer(&prog))); e != 0 || r != 0 { // all threads
		return fmt.Errorf("seccomp: %v %v", r, e)
	}
	return nil
}

// settings of the process that a library must leave alone.
func settings() string {
	var b strings.Builder
	put := func(k string, v interface{}) { fmt.Fprintf(&b, "%s=%v\n", k, v) }
	put("environment", strings.Join(os.Environ(), "\x00"))
	put("arguments", os.Args)
	put("standard files", fmt.Sprintf("%p %p %p", os.Stdin, os.Stdout, os.Stderr))
	put("log", fmt.Sprintf("%d %q %p", log.Flags(), log.Prefix(), log.Writer()))
	put("threads", runtime.GOMAXPROCS(0))
	g := debug.SetGCPercent(100)
	debug.SetGCPercent(g)
	put("gc percent", g)
	put("memory limit", debug.SetMemoryLimit(-1))
	m := debug.SetMaxStack(maxStack)
	debug.SetMaxStack(m)
	put("stack limit", m)
	t := debug.SetMaxThreads(10000)
	debug.SetMaxThreads(t)
	put("thread limit", t)
	put("time zone", fmt.Sprintf("%p %s", time.Local, time.Local.String()))
	put("profile rates", fmt.Sprint(runtime.MemProfileRate, runtime.SetMutexProfileFraction(-1)))
	for s := syscall.Signal(1); s < 32; s++ {
		if signal.Ignored(s) {
			put("ignores signal", int(s))
		}
	}
	return b.String()
}

func difference(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i < len(y) && x[i] != y[i] {
			k, _, _ := strings.Cut(x[i], "=")
			return fmt.Sprintf("%s: before %q, after %q", k, clip(x[i], 300), clip(y[i], 300))
		}
	}
	return clip(a, 200) + " / " + clip(b, 200)
}

func stderrSize() int64 {
	var st syscall.Stat_t
	if syscall.Fstat(2, &st) != nil {
		return 0
	}
	return st.Size
}

// live is the size of the heap that is still in use.
func live() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

type effDone struct {
	Calls, Accept, Reject, Batches, Kept, Looked, Escalated int
	MaxNoise                                                int64
}

func effSend(m interface{}) {
	b, _ := json.Marshal(m)
	b = append(b, '\n')
	for len(b) > 0 {
		n, err := syscall.Write(effFD, b)
		if err != nil {
			os.Exit(exitBug)
		}
		b = b[n:]
	}
}

// effects FILE JOURNAL FROM FILTER EVERY
func effects(a []string) {
	defer ownPanic()
	b, err := os.ReadFile(a[0])
	must(err)
	var items []effItem
	must(json.Unmarshal(b, &items))
	from, err := strconv.Atoi(a[2])
	must(err)
	every, err := strconv.Atoi(a[4]) // the heap is measured for one of so many groups
	must(err)
	jf, err := os.OpenFile(a[1], os.O_RDWR|os.O_CREATE, 0o644)
	must(err)
	must(jf.Truncate(8))
	journal, err := syscall.Mmap(int(jf.Fd()), 0, 8, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	must(err)
	jf.Close()
	at := func(i int) {
		binary.LittleEndian.PutUint64(journal, uint64(i)+1)
		current.Add(1)
	}
	debug.SetMaxStack(maxStack)
	debug.SetMemoryLimit(workerMem / 4)
	debug.SetGCPercent(1000)
	go func() { // the watchdog, without files
		last, since, quiet, dead := int64(-1), time.Duration(0), 0, 0
		mem := []metrics.Sample{{Name: "/memory/classes/total:bytes"}, {Name: "/memory/classes/heap/released:bytes"}}
		for {
			time.Sleep(50 * time.Millisecond)
			c, t := current.Load(), cpuTime()
			if c != last {
				last, since, quiet, dead = c, t, 0, 0
			}
			if quiet++; quiet%20 == 0 {
				if !allBlocked() {
					dead = 0
				} else if dead++; dead >= 10 {
					os.Exit(exitDead)
				}
			}
			if t-since > 20*time.Second {
				os.Exit(exitCPU)
			}
			if metrics.Read(mem); mem[0].Value.Uint64()-mem[1].Value.Uint64() > workerMem/2 {
				os.Exit(exitMem)
			}
		}
	}()
	time.Sleep(time.Millisecond)
	os.Environ()
	_ = time.Now().Local().String() // reads the time zone
	settings()
	if a[3] == "filter" {
		if err := confine(); err != nil {
			effSend(map[string]string{"kind": "unconfined", "what": err.Error()})
			os.Exit(0)
		}
	}
	if from < 0 { // show that the filter works
		at(0)
		os.Stat("/verif-no-such-file")
		os.Exit(0)
	}
	var done effDone
	routines, set, errs := runtime.NumGoroutine(), settings(), stderrSize()
	// changed: what differs from the beginning
	changed := func() string {
		if n := stderrSize(); n != errs {
			errs = n
			return "something was written on standard error"
		}
		if s := settings(); s != set {
			d := difference(set, s)
			set = s
			return "a setting of the process was changed: " + d
		}
		for i := 0; i < 200 && runtime.NumGoroutine() > routines; i++ { // one may be about to end
			runtime.Gosched()
			time.Sleep(time.Duration(min(i, 20)) * time.Millisecond)
		}
		if n := runtime.NumGoroutine(); n > routines {
			d := n - routines
			routines = n
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			for _, g := range strings.Split(string(buf), "\n\n") {
				if strings.Contains(g, "kodaimura/ddlparse") {
					return fmt.Sprintf("%d goroutines were left behind: %s", d, clip(g, 600))
				}
			}
			return fmt.Sprintf("%d goroutines were left behind", d)
		}
		return ""
	}
	violation := func(i int, what string) {
		effSend(Message{Kind: "violation", Index: i, What: what})
	}
	one := func(i int, text string) {
		at(i)
		keep := strings.Clone(text) // (a conversion to bytes may share the memory)
		err, pan := items[i].do(text)
		done.Calls++
		switch {
		case pan != "":
		case err == nil:
			done.Accept++
		default:
			done.Reject++
		}
		if keep != text {
			violation(i, "the text that was passed was changed")
		}
	}
	// kept: the bytes that n calls with new texts leave in use
	serial := 0
	kept := func(lo, hi, n int) int64 {
		before := live()
		for k := 0; k < n; k++ {
			for i := lo; i < hi; i++ {
				serial++
				at(i)
				items[i].do(items[i].text(serial))
			}
		}
		done.Calls += n * (hi - lo)
		return live() - before
	}
	for lo := from; lo < len(items); lo += effGroup {
		hi := min(lo+effGroup, len(items))
		for i := lo; i < hi; i++ {
			one(i, string(items[i].Text))
			if items[i].Unit != nil {
				one(i, items[i].text(0))
			}
		}
		done.Batches++
		if what := changed(); what != "" {
			effSend(map[string]interface{}{"kind": "violation", "index": lo, "to": hi, "what": what})
			break
		}
		var size int
		for i := lo; i < hi; i++ {
			size += len(items[i].Text)
		}
		if size > 1<<20 || lo/effGroup%every != 0 && items[lo].Work != "templates" {
			continue
		}
		kept(lo, hi, 3)
		done.Kept++
		d := kept(lo, hi, 16)
		if d < effIgnore {
			done.MaxNoise = max(done.MaxNoise, d)
			continue
		}
		done.Looked++
		for i := lo; i < hi; i++ {
			kept(i, i+1, 8)
			if kept(i, i+1, 64) < 64*effLeak {
				continue
			}
			// It may be a cache with a limit: does it go on?
			done.Escalated++
			l := len(items[i].Text) + 100
			ok := true
			for _, n := range []int{300, 3000, 40000, 20000, 20000} {
				n = min(n, max(300, (64<<20)/l))
				if d = kept(i, i+1, n); d < int64(n)*effLeak {
					ok = false
					break
				}
			}
			if ok {
				violation(i, fmt.Sprintf("the last 20000 or so calls of many with texts that differ in a number left %d bytes in use", d))
				break
			}
		}
	}
	effSend(map[string]interface{}{"kind": "done", "done": done})
}

// effFound: an item, or one of the items up to To, has an effect.
type effFound struct {
	Kind  string `json:"kind"`
	Index int    `json:"index"`
	To    int    `json:"to"`
	What  string `json:"what"`
}

func keyword(s string, d spec.Dialect) bool {
	g, u := spec.Grammars[d], strings.ToUpper(s)
	return g.Vocab[u] || g.Reserved[u]
}

// template makes a template of a text: a number in every name, string and
// number, where the specification says that this does not matter.
func template(text string, d spec.Dialect) []byte {
	t, _, err := spec.Lex(text, d)
	if err != nil || len(text) > 4000 || strings.Contains(text, "%d") {
		return nil
	}
	was := predict(text, d)
	for _, what := range []string{"qwn", "qw", "q"} {
		var b strings.Builder
		n := 0
		for _, x := range t {
			s := x.Text
			c := s[0]
			switch {
			case len(s) > 1 && strings.ContainsRune("'\"`", rune(c)) && strings.Contains(what, "q"):
				s = s[:len(s)-1] + "%d" + s[len(s)-1:]
				n++
			case c >= '0' && c <= '9' && strings.Contains(what, "n"):
				s += "%d"
				n++
			case (c == '_' || c|0x20 >= 'a' && c|0x20 <= 'z') && !keyword(s, d) && strings.Contains(what, "w"):
				s += "_%d"
				n++
			}
			b.WriteString(s + " ")
		}
		if n == 0 {
			continue
		}
		r := b.String()
		if is := predict(strings.ReplaceAll(r, "%d", "123456"), d); is != nil && was != nil && (is.Err == nil) == (was.Err == nil) {
			return []byte(r)
		}
	}
	return nil
}

// ---- one shard: makes the texts and starts the processes

// effRun runs items in a process of their own and returns the violations and
// the items that ended it (by index), with what is known about that.
func effRun(ctx context.Context, dir, name string, items []effItem, from int, filter string, every int, done *effDone) (bad []effFound, unconfined string) {
	self, _ := os.Executable()
	file := filepath.Join(dir, name+".json")
	b, _ := json.Marshal(items)
	must(os.WriteFile(file, b, 0o644))
	scratch := filepath.Join(dir, name+".d")
	must(os.MkdirAll(scratch, 0o755))
	defer os.RemoveAll(scratch)
	for tries := 0; tries < 6 && (from < len(items) || tries == 0); tries++ {
		pr, pw, err := os.Pipe()
		must(err)
		stderr, err := os.Create(filepath.Join(scratch, "stderr"))
		must(err)
		stdout, err := os.Create(filepath.Join(scratch, "stdout"))
		must(err)
		journal := filepath.Join(scratch, "journal")
		os.Remove(journal)
		cmd := exec.CommandContext(ctx, self, "effects", file, journal, strconv.Itoa(from), filter, strconv.Itoa(every))
		cmd.Dir = scratch
		cmd.Stdout, cmd.Stderr = stdout, stderr
		cmd.ExtraFiles = []*os.File{pw}
		cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + scratch, "TMPDIR=" + scratch, "GOMAXPROCS=2", "GOTRACEBACK=single", "LANG=C"}
		must(cmd.Start())
		pw.Close()
		ended := false
		sc := bufio.NewScanner(pr)
		sc.Buffer(make([]byte, 1<<16), 1<<26)
		for sc.Scan() {
			var m struct {
				effFound
				Done effDone `json:"done"`
			}
			if json.Unmarshal(sc.Bytes(), &m) != nil {
				continue
			}
			switch m.Kind {
			case "violation":
				bad = append(bad, m.effFound)
			case "unconfined":
				unconfined = m.What
			case "done":
				ended = true
				done.Calls += m.Done.Calls
				done.Accept += m.Done.Accept
				done.Reject += m.Done.Reject
				done.Batches += m.Done.Batches
				done.Kept += m.Done.Kept
				done.Looked += m.Done.Looked
				done.Escalated += m.Done.Escalated
				done.MaxNoise = max(done.MaxNoise, m.Done.MaxNoise)
			}
		}
		pr.Close()
		cmd.Wait()
		stdout.Close()
		stderr.Close()
		if ended || ctx.Err() != nil || unconfined != "" {
			if ended && filter == "" {
				if b, _ := os.ReadFile(filepath.Join(scratch, "stdout")); len(b) > 0 {
					bad = append(bad, effFound{Index: 0, To: len(items), What: "something was written on standard output: " + clip(string(b), 200)})
				}
			}
			return
		}
		e, _ := os.ReadFile(filepath.Join(scratch, "stderr"))
		if cmd.ProcessState.ExitCode() == exitBug {
			must(fmt.Errorf("%s", e))
		}
		j, _ := os.ReadFile(journal)
		if len(j) < 8 || binary.LittleEndian.Uint64(j) == 0 {
			must(fmt.Errorf("effects process failed before its first call: %v\n%s", cmd.ProcessState, clip(string(e), 3000)))
		}
		i := int(binary.LittleEndian.Uint64(j)) - 1
		if x := bytes.Index(e, []byte("SIGSYS")); x >= 0 && (from < 0 || strings.Contains(firstStack(string(e[x:])), "kodaimura/ddlparse")) {
			bad = append(bad, effFound{Index: i, What: "the call asks the operating system for something other than memory, threads or time: " + culprit(string(e[x:]))})
			return
		}
		// the code under test ended it in another way: not this property
		from = i + 1
	}
	return
}

// firstStack is that of the goroutine that made the system call.
func firstStack(trace string) string {
	i := strings.Index(trace, "\ngoroutine ")
	if i < 0 {
		return ""
	}
	s, _, _ := strings.Cut(trace[i+1:], "\n\n")
	return s
}

// culprit picks the functions of the first stack of a trace.
func culprit(trace string) string {
	var r []string
	lines := strings.Split(trace, "\n")
	in := false
	for i, l := range lines {
		if strings.HasPrefix(l, "goroutine ") {
			if in {
				break
			}
			in = true
			continue
		}
		if in && l != "" && !strings.HasPrefix(l, "\t") && i+1 < len(lines) {
			f, _, _ := strings.Cut(l, "(0x")
			r = append(r, strings.TrimSuffix(f, "(...)"))
		}
	}
	if len(r) > 8 {
		r = r[:8]
	}
	return strings.Join(r, " < ")
}

const effBatch = 4096

// effWorker: like worker, for C25.
func effWorker(tier string, seed int64, shard, shards int, dict *gen.Dict, hashFile string) {
	plan := planFor("C25", tier)
	n := total(plan)
	dir, err := os.MkdirTemp(filepath.Dir(hashFile), "effects")
	must(err)
	out := bufio.NewWriter(os.Stdout)
	send := func(m Message) { x, _ := json.Marshal(m); out.Write(x); out.WriteByte('\n'); out.Flush() }
	ctx := context.Background()
	filter := "filter"
	if bad, why := effRun(ctx, dir, "selftest", []effItem{{Text: []byte("x")}}, -1, filter, 1, &effDone{}); why != "" || len(bad) == 0 {
		filter = ""
		stats.Extra["shards_without_system_call_filter"]++
	} else {
		stats.Extra["shards_whose_filter_stopped_a_system_call_in_the_self_test"]++
	}
	hashes := map[uint64]struct{}{}
	var items []effItem
	found, batch, every := 0, 0, 6
	if tier == "thorough" {
		every = 2
	}
	flush := func() {
		if len(items) == 0 {
			return
		}
		var done effDone
		bad, _ := effRun(ctx, dir, fmt.Sprintf("batch%d", batch), items, 0, filter, every, &done)
		os.Remove(filepath.Join(dir, fmt.Sprintf("batch%d.json", batch)))
		batch++
		stats.Calls += done.Calls
		stats.Accept += done.Accept
		stats.Reject += done.Reject
		stats.Extra["groups_of_calls_with_settings_goroutines_and_output_compared"] += done.Batches
		stats.Extra["live_heap_measurements"] += done.Kept
		stats.Extra["live_heap_groups_looked_at_one_by_one"] += done.Looked
		stats.Extra["live_heap_suspicions_followed_up"] += done.Escalated
		stats.Extra["processes"]++
		stats.Max["live_heap_noise_bytes"] = max(stats.Max["live_heap_noise_bytes"], int(done.MaxNoise))
		alone := func(its []effItem) string {
			if x, _ := effRun(ctx, dir, "again", its, 0, filter, 1, &effDone{}); len(x) > 0 {
				return x[0].What
			}
			return ""
		}
		for _, m := range bad {
			lo, hi := m.Index, max(m.To, m.Index+1)
			for hi-lo > 1 { // which one?
				if mid := (lo + hi) / 2; alone(items[lo:mid]) != "" {
					hi = mid
				} else if alone(items[mid:hi]) != "" {
					lo = mid
				} else {
					break
				}
			}
			it := items[hi-1]
			text := string(it.Text)
			if it.Unit != nil {
				text = string(it.Unit)
			}
			if what := alone(items[lo:hi]); what != "" {
				m.What = what
				if hi-lo == 1 && alone([]effItem{{Text: it.Text, Entry: it.Entry}}) != "" {
					text = string(it.Text)
				}
			} else if what := alone(items[:max(m.To, m.Index+1)]); what != "" {
				lo = 0
			} else {
				stats.Extra["observations_that_did_not_repeat"]++
				continue
			}
			if hi-lo > 1 {
				m.What += " (only after other calls in the same process)"
			}
			send(Message{Kind: "violation", Index: it.Index, Work: it.Work, What: callItem{Entry: it.Entry}.name() + ": " + m.What, Case: &Case{Rel: "effects", D: spec.Dialect(min(it.Entry%3, 2)), Texts: []string{text}, Tag: strconv.Itoa(it.Entry)}})
			if found++; found >= 3 {
				break
			}
		}
		items = items[:0]
		send(Message{Kind: "stats", Stats: stats})
	}
	// templates: texts whose names all differ
	kinds := lists["cost-kinds"]
	for i := shard; i < kinds.n() && found < 3; i += shards {
		c := kinds.f(i)
		if c == nil {
			continue
		}
		u := c.Texts[0] + c.Texts[1] + strings.ReplaceAll(c.Texts[2], "%r", strings.Repeat(")", strings.Count(c.Texts[1], "(")))
		for _, e := range []int{int(c.D), 3 + int(c.D), 6} {
			items = append(items, effItem{Text: []byte(u), Unit: []byte(u), Entry: e, Work: "templates", Index: i})
		}
		if !strings.Contains(u, "%d") {
			items[len(items)-1].Unit = nil
		}
		stats.Work["templates"]++
		stats.Cases++
	}
	flush()
	for i := shard; i < n && found < 3; i += shards {
		c, w := makeCase(plan, i, "C25", tier, seed, dict)
		if c == nil {
			stats.Skipped++
			continue
		}
		stats.Cases++
		stats.Work[w]++
		entries := []int{int(c.D), 3 + int(c.D), int(c.D), 6}
		for k, t := range c.Texts {
			if len(t) > 1<<20 {
				continue
			}
			stats.MaxText = max(stats.MaxText, len(t))
			if h := hash(t); len(hashes) < 4000000 {
				hashes[h] = struct{}{}
			}
			it := effItem{Text: []byte(t), Entry: entries[(i/shards+k)%4], Work: w, Index: i}
			if len(items)/effGroup%every == 0 {
				if it.Unit = template(t, c.D); it.Unit != nil {
					stats.Extra["texts_with_a_number_in_every_name_and_value"]++
				}
			}
			items = append(items, it)
			if len(stats.Samples) < 2 && i%97 == shard && len(t) < 400 {
				stats.Samples = append(stats.Samples, fmt.Sprintf("%s %v: %s", w, c.D, t))
			}
		}
		if len(items) >= effBatch {
			flush()
		}
	}
	if found < 3 {
		flush()
	}
	hs := make([]uint64, 0, len(hashes))
	for h := range hashes {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	hb := make([]byte, 8*len(hs))
	for i, h := range hs {
		binary.LittleEndian.PutUint64(hb[8*i:], h)
	}
	os.WriteFile(hashFile, hb, 0o644)
	send(Message{Kind: "done", Stats: stats})
}

// effReplay runs a recorded violation of C25 again.
func effReplay(r Replay, c Case) int {
	dir, err := os.MkdirTemp("", "vh-replay-")
	must(err)
	defer os.RemoveAll(dir)
	e, _ := strconv.Atoi(c.Tag)
	it := effItem{Text: []byte(c.Texts[0]), Unit: []byte(c.Texts[0]), Entry: e}
	if !strings.Contains(c.Texts[0], "%d") {
		it.Unit = nil
	}
	fmt.Printf("--- %s\n%s\n", callItem{Entry: e}.name(), clip(c.Texts[0], 3000))
	bad, why := effRun(context.Background(), dir, "replay", []effItem{it}, 0, "filter", 1, &effDone{})
	if why != "" {
		bad, _ = effRun(context.Background(), dir, "replay", []effItem{it}, 0, "", 1, &effDone{})
	}
	for _, m := range bad {
		fmt.Println("C25:", m.What)
	}
	if len(bad) > 0 {
		return 1
	}
	return 0
}
