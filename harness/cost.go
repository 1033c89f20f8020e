package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"verifharness/gen"
	"verifharness/spec"
)

// C24: the memory a call allocates and the CPU time it takes grow in
// proportion to the text. A case is a head, a unit that is repeated, and a
// tail; it is measured at growing sizes. Allocation is an exact count; CPU
// time is that of the process, taken several times, with wide margins.

const (
	costSmall = 32 << 10
	costLarge = 32 * costSmall
	costHuge  = 4 * costLarge
)

// A unit may contain %d, which becomes the number of the repetition: names
// that all differ, for anything that keeps a table of them.
func costText(c Case, size int) string {
	head, unit, tail := c.Texts[0], c.Texts[1], c.Texts[2]
	var b strings.Builder
	b.WriteString(head)
	for i := 0; b.Len() < size; i++ {
		if strings.Contains(unit, "%d") {
			b.WriteString(strings.ReplaceAll(unit, "%d", fmt.Sprint(i)))
		} else {
			b.WriteString(unit)
		}
	}
	if n := strings.Count(tail, "%r"); n > 0 { // as many closing brackets as opening ones
		tail = strings.ReplaceAll(tail, "%r", strings.Repeat(")", strings.Count(b.String(), "(")-strings.Count(head, "(")))
	}
	b.WriteString(tail)
	return b.String()
}

type cost struct {
	bytes uint64
	cpu   time.Duration
}

func measure(text string, d spec.Dialect) (c cost, a Actual) {
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	t0 := cpuTime()
	a = parse(text, d)
	c.cpu = cpuTime() - t0
	runtime.ReadMemStats(&m1)
	c.bytes = m1.TotalAlloc - m0.TotalAlloc
	return c, a
}

func judgeCost(v Verdict, c Case) {
	what := c.D.String()
	debug.SetMemoryLimit(2 << 30) // collects even though the percentage is off
	large := costLarge
	if c.Tag == "random" {
		large /= 4
	}
	s, l := costText(c, costSmall), costText(c, large)
	a, ra := measure(s, c.D)
	b, rb := measure(l, c.D)
	contract(v, ra, what)
	contract(v, rb, what)
	if ra.Panic != "" || rb.Panic != "" {
		v.add("C24", "%s panicked: %s", what, ra.Panic+rb.Panic)
		return
	}
	compare(v, predict(s, c.D), ra, what)
	stats.Extra["cost_pairs"]++
	perByte := func(c cost, n int) (float64, float64) {
		return float64(c.bytes) / float64(n), float64(c.cpu.Nanoseconds()) / float64(n)
	}
	am, at := perByte(a, len(s))
	bm, bt := perByte(b, len(l))
	stats.Max["cost_alloc_per_byte_growth_x100"] = max(stats.Max["cost_alloc_per_byte_growth_x100"], int(100*bm/am))
	stats.Max["cost_alloc_per_byte"] = max(stats.Max["cost_alloc_per_byte"], int(bm))
	if b.cpu > 100*time.Millisecond {
		stats.Max["cost_cpu_per_byte_growth_x100"] = max(stats.Max["cost_cpu_per_byte_growth_x100"], int(100*bt/at))
	}
	if b.bytes > 64<<20 && bm > 3*am {
		v.add("C24", "%s: %d bytes of text allocate %d bytes, %d bytes of text allocate %d: not in proportion", what, len(s), a.bytes, len(l), b.bytes)
		return
	}
	slow := 300 * time.Millisecond
	if b.cpu < slow || bt < 4*at {
		return
	}
	// suspicious: take the least of several runs
	for i := 0; i < 3; i++ {
		if x, _ := measure(s, c.D); x.cpu < a.cpu {
			a = x
		}
		if x, _ := measure(l, c.D); x.cpu < b.cpu {
			b = x
		}
		_, at = perByte(a, len(s))
		_, bt = perByte(b, len(l))
		if b.cpu < slow || bt < 4*at {
			stats.Extra["cost_suspicions_dropped"]++
			return
		}
	}
	if b.cpu < 2*time.Second {
		h := costText(c, costHuge)
		x, _ := measure(h, c.D)
		if _, xt := perByte(x, len(h)); xt < 2.2*bt {
			stats.Extra["cost_suspicions_dropped"]++
			return
		}
	}
	v.add("C24", "%s: %d bytes of text take %v, %d bytes of text take %v of CPU time: not in proportion", what, len(s), a.cpu, len(l), b.cpu)
}

var costCases = lazy(func() []Case {
	var r []Case
	add := func(head, unit, tail string) {
		for _, d := range spec.Dialects {
			r = append(r, Case{Rel: "cost", D: d, Texts: []string{head, unit, tail}})
		}
	}
	col := "create table t (e text "
	add("", "create table t%d (e text);\n", "")
	add("", "create table t (e text);", "")
	add("", "create table s%d.t%d (a%d integer primary key, b text not null default 'x%d', check(e > %d));\n", "")
	add("", "create table if not exists t (e text);", "x")
	add("", "create view v%d as select %d;\n", "")
	add("create trigger x begin ", "select %d; ", "end;")
	add("create trigger x ", "begin ", "")
	add("create trigger x ", "begin x; end ", ";")
	add("create trigger x begin ", "case x end ", "end;")
	add("create view v as ", "'s%d',\n", "x;")
	add("create table t (", "c%d text,", "z text);")
	add("create table t (", "c text,\n", "z text);")
	add("create table t (", "c%d varchar(10) not null default %d unique check (c%d > %d) references u(x),", "z text);")
	add("create table t (e text,", "c%d numeric(10,2) constraint k%d not null,", ");")
	for _, k := range []string{"unique(", "primary key(", "constraint x unique (", "foreign key("} {
		add(col+","+k, "k%d,", "z));")
	}
	add(col+",foreign key(e) references u(", "k%d,", "z));")
	add(col, ",unique(c%d)", ");")
	add(col, ",primary key(e,b,d)", ");")
	add(col, ",constraint k%d check(x = %d)", ");")
	add(col, ",constraint k%d foreign key (e) references u%d (b) on delete cascade", ");")
	add(col, ",index i%d (a)", ");")
	add(col, ",fulltext key i%d (e)", ");")
	add(col, ",exclude using gist (a%d)", ");")
	add(col+"references u ", "on delete cascade ", ");")
	add(col+",foreign key (e) references u (b) ", "on update set null match full ", ");")
	add(col+") ", "tablespace x ", ";")
	add(col+") ", "comment 'x',", "comment 'y';")
	add(col+") ", "with (x=%d) ", ";")
	add(col+") union=(", "u%d,", "u);")
	add(col+"check(", "(", "x%r));")
	add(col+"check(", "(", "")
	add(col+"check(", "x+", "x));")
	add(col+"check(", "x + ", "x));")
	add(col+"check(", "x, ", "x));")
	add(col+"check(", "x", "));")
	add(col+"check(", "'x'", "));")
	add(col+"check(", "''", "));")
	add(col+"check(", "1.5 ", "));")
	add(col+"check(", "1.", "5));")
	add(col+"check(", "-", "x));")
	add(col+"check(", "- ", "x));")
	add(col+"check(", "*", " x));")
	add(col+"check(", "/", " x));")
	add(col+"check(", "=", "x));")
	add(col+"check(", "/**/", "x));")
	add(col+"check(", "-- x\n", "x));")
	add(col+"check(", "x\n", "));")
	add(col+", check(", "f(x,", "x%r));")
	add(col+"default (", "x || ", "x));")
	add(col+"default (", "(", "x%r));")
	add(col+"as (", "(x + ", "x%r));")
	add(col+"default ", "1", ");")
	add(col+"default 1.", "1", ");")
	add(col+"default '", "x", "');")
	add(col+"default '", "''", "');")
	add(col+"default '", "\\\\", "');")
	add(col+"default '", "\n", "');")
	add(col+"default '", "日本", "');")
	add(col+"default '", "x\n", "")
	add("create table ", "n", " (e text);")
	add("create table \"", "n", "\" (e text);")
	add("create table `", "n", "` (e text);")
	add("create table t (", "n", " text);")
	add("create table t (\"", "n\n", "\" text);")
	add(col+"constraint ", "n", " not null);")
	add(col+"references ", "n", "(x));")
	add(col+"references u(", "n", "));")
	add(col+", unique(", "n", "));")
	add(col+"collate ", "n", ");")
	add(col+"default ", "n", ");")
	add("create table t (e varchar(", "1", "));")
	add("", "\n", "create table t (e text);")
	add("", " ", "create table t (e text);")
	add("create table t (a", "\r\n\t", "text);")
	add("", "-- comment\n", "create table t (e text);")
	add("", "# comment\n", "create table t (e text);")
	add("", "/* comment\n */", "create table t (e text);")
	add("/*", "x", "*/create table t (e text);")
	add("/*", "*", "*/create table t (e text);")
	add("/*", "\n", "*/create table t (e text);")
	add("/*", "x", "")
	add("--", "x", "")
	add("", "x", "")
	add("", "x ", "")
	add("", "(", "")
	add("", ";", "")
	add("", "日", "")
	add("", "a-", "")
	add("", "'", "")
	add("", "\\", "")
	add("create ", "unique ", "")
	return r
})

// costCase: a random unit made of the pieces of the language, in a random place.
func costCase(e *Env) *Case {
	d := e.dialect()
	p := e.profile()
	p.PHuge = 0
	g := e.gen(d, p)
	txt := func(t []gen.Tok) string {
		return gen.Render(e.R, d, t, []int{gen.Plain, gen.Pretty, gen.Minimal}[e.R.Intn(3)])
	}
	col := "create table t (e text "
	var c Case
	switch e.R.Intn(7) {
	case 0:
		c.Texts = []string{"", txt(withSemicolon(g.Rule("stmt"))) + "\n", ""}
	case 1:
		c.Texts = []string{"create table t (", txt(g.Rule("column")) + ",", "z text);"}
	case 2:
		c.Texts = []string{col, "," + txt(g.Rule("tcon")), ");"}
	case 3:
		if d == spec.SQLite {
			c.Texts = []string{"", txt(withSemicolon(g.Rule("stmt"))), ""}
		} else {
			c.Texts = []string{col + ") ", txt(g.Rule("tabopt")) + " ", ";"}
		}
	case 4:
		c.Texts = []string{col + "check(", txt(g.Rule("expr")) + " ", "));"}
	case 5:
		c.Texts = []string{col + "," + []string{"unique", "primary key"}[e.R.Intn(2)] + "(", txt(g.Rule("nm")) + ",", "z));"}
	default:
		c.Texts = []string{"create trigger x begin ", txt(g.Rule("expr")) + "; ", "end;"}
	}
	c.Rel, c.D, c.Tag = "cost", d, "random"
	return &c
}
