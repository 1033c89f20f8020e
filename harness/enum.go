package main

import (
	"encoding/binary"
	"sort"
	"strings"
	"sync"

	"verifharness/gen"
	"verifharness/spec"
)

// Systematic workloads: every case of a fixed list, in every run.

// lazy computes a list once.
func lazy[T any](f func() []T) func() []T {
	var once sync.Once
	var l []T
	return func() []T { once.Do(func() { l = f() }); return l }
}

// listed marks a list that fromList packs: it is made once and not kept.
func listed(f func() []Case) func() []Case { return f }

type sentence struct {
	d    spec.Dialect
	toks []gen.Tok
}

var allWords = lazy(func() []string {
	m := map[string]bool{}
	for _, d := range spec.Dialects {
		g := spec.Grammars[d]
		for w := range g.Reserved {
			m[w] = true
		}
		for w := range g.Vocab {
			m[w] = true
		}
	}
	for _, w := range strings.Fields(`ID NAME USERS T A X1 _X DATE1 CURRENT CLOB ENUM NCHAR UNSIGNED ZEROFILL INTERVAL LONGTEXT TINYTEXT NVARCHAR STRING ROWID OID
		TABLES COLUMNS INDEXES KEYS1 REFERENCE CREATED ALTERED SELECTED ORDERS GROUPS1 USERS1 LEVEL TITLE STATUS TYPE VALUE LABEL DATA1 PARENT`) {
		m[w] = true
	}
	delete(m, "0")
	delete(m, "1")
	var r []string
	for w := range m {
		r = append(r, w)
	}
	sort.Strings(r)
	return r
})

// Positions of names: W stands for the word.
var namePositions = map[spec.Dialect][]string{
	spec.SQLite: {
		"create table W (e text);", "create table W.t (e text);", "create table s.W (e text);", "CREATE TABLE IF NOT EXISTS W (e TEXT);",
		"create table t (W text);", "create table t (e text, W integer not null);", "create table t (W integer, b text, check(b));",
		"create table t (e text constraint W not null);", "create table t (e text, constraint W unique(e));", "create table t (e text, constraint W check(e), b text);",
		"create table t (e text references W);", "create table t (e text references W.u);", "create table t (e text references s.W (b));",
		"create table t (e text references u(W));", "create table t (e text, primary key(W));", "create table t (e text, primary key(b, W));",
		"create table t (e text, unique(W, b));", "create table t (e text, foreign key(W) references u);", "create table t (e text, foreign key(b, W) references u(d, W));",
		"create table t (e text, foreign key(b) references W(d));", "create table t (e text, foreign key(b) references W.u(d));", "create table t (e text, foreign key(b) references s.W);",
		"create table t (e text references u match W);", "create table t (e text collate W);", "create table t (e text default W);", "create W v as x;", "create table t (e W);",
		"create table t (e text check (W));", "create table t (e text W);", "create table t (e text, W (e));", "create table t (e text) W;", "create table t (e text default (W) not null);",
		"create table t (e text unique on conflict W);", "create table t (e text references u on delete W);", "create table t (e text references u on W cascade);",
		"create table t (e text primary key W);", "W table t (e text);", "create table t (e text) strict, W;", "create table t (e text as (x) W);", "create W table t (e text);", "create view W as x;"},
	spec.PostgreSQL: {
		"create table W (e text);", "create table W.t (e text);", "create table s.W (e text);", "CREATE TABLE IF NOT EXISTS W (e TEXT);",
		"create table t (W text);", "create table t (e text, W integer not null);", "create table t (W integer, b text, check(b));",
		"create table t (e text constraint W not null);", "create table t (e text, constraint W unique(e));", "create table t (e text, constraint W check(e), b text);",
		"create table t (e text references W);", "create table t (e text references W.u);", "create table t (e text references s.W (b));",
		"create table t (e text references u(W));", "create table t (e text, primary key(W));", "create table t (e text, primary key(b, W));",
		"create table t (e text, unique(W, b));", "create table t (e text, foreign key(W) references u);", "create table t (e text, foreign key(b, W) references u(d, W));",
		"create table t (e text, foreign key(b) references W(d));", "create table t (e text, foreign key(b) references W.u(d));", "create table t (e text, foreign key(b) references s.W);",
		"create table t (e text references u match W);", "create table t (e text default W);", "create W v as x;", "create table t (e W);",
		"create table t (e text check (W));", "create table t (e text W);", "create table t (e text, W (e));", "create table t (e text) W;", "create table t (e text default (W) not null);",
		"create table t (e text references u on delete W);", "create table t (e text references u on W cascade);", "W table t (e text);",
		"create table t (e text unique include (W));", "create table t (e text primary key using index tablespace W);", "create table t (e text, exclude using W (e));",
		"create table t (e text) tablespace W;", "create table t (e text) using W;", "create table t (e text) partition by W (e);", "create table t (e text, W using x (e));",
		"create table t (e text generated W as identity);", "create table t (e text) with (W);", "create W table t (e text);", "create view W as x;"},
	spec.MySQL: {
		"create table W (e text);", "create table W.t (e text);", "create table s.W (e text);", "CREATE TABLE IF NOT EXISTS W (e TEXT);",
		"create table t (W text);", "create table t (e text, W integer not null);", "create table t (W integer, b text, check(b));",
		"create table t (e text constraint W not null);", "create table t (e text, constraint W unique(e));", "create table t (e text, constraint W check(e), b text);",
		"create table t (e text references W);", "create table t (e text references W.u);", "create table t (e text references s.W (b));",
		"create table t (e text references u(W));", "create table t (e text, primary key(W));", "create table t (e text, primary key(b, W));",
		"create table t (e text, unique(W, b));", "create table t (e text, foreign key(W) references u(x));", "create table t (e text, foreign key(b, W) references u(d, W));",
		"create table t (e text, foreign key(b) references W(d));", "create table t (e text, foreign key(b) references W.u(d));", "create table t (e text, foreign key(b) references s.W(d));",
		"create table t (e text references u match W);", "create table t (e text collate W);", "create table t (e text default W);", "create W v as x;", "create table t (e W);",
		"create table t (e text check (W));", "create table t (e text W);", "create table t (e text, W (e));", "create table t (e text) W;", "create table t (e text default (W) not null);",
		"create table t (e text references u on delete W);", "create table t (e text references u on W cascade);", "W table t (e text);",
		"create table t (e text, unique W (e));", "create table t (e text, unique key W (e));", "create table t (e text, index W (e));", "create table t (e text, key W using btree (e));",
		"create table t (e text, fulltext W (e));", "create table t (e text, foreign key W (e) references u(b));", "create table t (e text) engine = W;", "create table t (e text) collate W;",
		"create table t (e text) tablespace W;", "create table t (e text) W = 1;", "create table t (e text) W = 'x';", "create table t (e text) W = x;", "create table t (e text) row_format = W;",
		"create table t (e text) union = (W, s.W);", "create table t (e text, primary key using W (e));", "create table t (e text storage W);", "create table t (e text default 1 on update W);",
		"create table t (e text, index i (e) with parser W);", "create table t (e text, key (e) W);", "create table t (e text, key (e W));", "create table t (e text column_format W);",
		"create W table t (e text);", "create view W as x;"},
}

func quotesOf(d spec.Dialect) []string {
	switch d {
	case spec.SQLite:
		return []string{`"`, "`"}
	case spec.MySQL:
		return []string{"`"}
	}
	return []string{`"`}
}

// enumWords: every word in every position, in both cases.
var enumWords = listed(func() []Case {
	var r []Case
	for _, d := range spec.Dialects {
		for _, p := range namePositions[d] {
			for _, w := range allWords() {
				for _, x := range []string{w, strings.ToLower(w)} {
					r = append(r, Case{Rel: "diff", D: d, Texts: []string{strings.ReplaceAll(p, "W", x)}})
				}
			}
		}
	}
	return r
})

// enumBodies: all short sequences of the words that open and close bodies, in
// a statement that is skipped, before a table.
var enumBodies = listed(func() []Case {
	var r []Case
	seqs := func(words []string, n int, pre, post string) {
		idx := make([]int, n)
		for {
			var b strings.Builder
			b.WriteString(pre)
			for _, i := range idx {
				b.WriteString(" " + words[i])
			}
			b.WriteString(post)
			for _, d := range spec.Dialects {
				r = append(r, Case{Rel: "case", D: d, Tag: "bodies", Texts: []string{strings.ToLower(b.String()), b.String()}})
			}
			k := n - 1
			for ; k >= 0; k-- {
				if idx[k]++; idx[k] < len(words) {
					break
				}
				idx[k] = 0
			}
			if k < 0 {
				return
			}
		}
	}
	end := "; create table t (e text);"
	all := strings.Fields("BEGIN begin END end CASE case IF if LOOP loop WHILE REPEAT ; x")
	seqs(all, 1, "create trigger g", end)
	seqs(all, 2, "create trigger g", end)
	seqs(all, 2, "CREATE TRIGGER g BEGIN", " ; END"+end)
	seqs(all, 3, "create trigger g begin x", " ; end"+end)
	few := strings.Fields("BEGIN END end CASE IF ;")
	seqs(few, 4, "create trigger g begin", " end"+end)
	seqs(few, 5, "create trigger g", end)
	return r
})

// enumChars: every character at the start, in the middle and at the end of a word, in every position.
var enumChars = listed(func() []Case {
	var r []Case
	var cs []string
	for c := rune(0); c < 0x180; c++ {
		cs = append(cs, string(c))
	}
	for _, c := range []rune{0x3b1, 0x430, 0x5d0, 0x661, 0xe01, 0x1e9e, 0x200b, 0x2003, 0x2013, 0x2028, 0x212a, 0x3000, 0x3042, 0x6f22, 0xac00, 0xfeff, 0xff0c, 0xff11, 0xff41, 0xfffd, 0x1d7ce, 0x1f600, 0x10ffff} {
		cs = append(cs, string(c))
	}
	cs = append(cs, "$$", "__", "..", "::", "@@", "--", "9_", "_9", "$1", "\x00\x00")
	for _, d := range spec.Dialects {
		for _, p := range namePositions[d] {
			for _, c := range cs {
				for _, w := range []string{c, c + "a", "a" + c, "a" + c + "b", "x1" + c + "_2"} {
					tag := ""
					if strings.ContainsAny(c, "\u0131\u017f\u212a") {
						tag = "letters" // letters that fold to I, S and K: see derive.go
					}
					r = append(r, Case{Rel: "diff", D: d, Tag: tag, Texts: []string{strings.ReplaceAll(p, "W", w)}})
				}
			}
		}
	}
	return r
})

// enumQuoted: every reserved word and some awkward contents, quoted, in every position.
var enumQuoted = listed(func() []Case {
	var r []Case
	awkward := []string{"", " ", "a b", "a.b", "(", ")", ",", ";", "--", "/*", "*/", "#", "'", "''", `\`, `\\`, "a\nb", "\r\n", "日本語", "\u3000", "1", "1.5", "<EOF>", "é", "😀",
		"a'b", "x;y", "END", "begin", "[", "%s", "%", "$$", "null", "a`b", "a\"b", "a``b", "a\"\"b", "\t", "\x00", "it's", "=", "?"}
	for _, d := range spec.Dialects {
		for _, p := range namePositions[d] {
			var ws []string
			for i, w := range allWords() {
				if i%7 == 0 {
					ws = append(ws, strings.ToLower(w))
				}
			}
			for _, w := range append(ws, awkward...) {
				for _, q := range []string{`"`, "`", "'"} {
					if strings.Count(w, q)%2 == 1 && !strings.Contains(w, q+q) {
						continue
					}
					if d == spec.MySQL && strings.HasSuffix(w, `\`) && w != `\\` {
						continue
					}
					r = append(r, Case{Rel: "diff", D: d, Tag: "quotes", Texts: []string{strings.ReplaceAll(p, "W", q+w+q)}})
				}
			}
		}
	}
	return r
})

// enumTypes: every type of every dialect with all kinds of digits and suffixes.
var enumTypes = listed(func() []Case {
	m := map[string]bool{}
	var types []string
	for _, d := range spec.Dialects {
		for _, t := range gen.EnumRule(spec.Grammars[d], "type", 2000) {
			if w := t[0].Text; !m[w] {
				m[w] = true
				types = append(types, w)
			}
		}
	}
	for _, w := range strings.Fields("ENUM SET INTERVAL LONGTEXT MEDIUMTEXT TINYTEXT LONGBLOB STRING NVARCHAR CLOB DEC FIXED INT3 INT1 FLOAT8 FLOAT16 VARYING PRECISION UNKNOWN ANY BLOB DATETIME") {
		if !m[w] {
			types = append(types, w)
		}
	}
	suffix := []string{"", "(1)", "(10)", "(255)", "(65535)", "(2147483648)", "(9223372036854775807)", "(9223372036854775808)", "(0)", "(-1)", "(+5)", "(007)", "(010)", "(08)", "(0x10)", "(0b11)", "(0o17)", "(1_0)", "(00)", "(+010)", "(10,010)", "(020,08)", "(1,+02)", "(1.5)", "(1e2)", "()", "(a)",
		"('1')", "(1 2)", "(1,)", "(,1)", "(1,2)", "(10,2)", "(38,38)", "(1,0)", "(0,1)", "(1,-1)", "(1,2,3)", "((1))", " varying", " varying(5)", " varying(0)", " varying(1,2)", " VARYING (12)",
		" precision", " precision(3)", " precision(3,2)", " with time zone", " without time zone", " WITH TIME ZONE", "(3) with time zone", "(3) without time zone", "(0) with time zone", " with time", " with zone",
		" time zone", " unsigned", "[]", "[3]", " array", " character set utf8", " zerofill", "(10) unsigned", " varying varying", " with time zone(3)", "(1) (2)", " (  4  )", "( 4 , 2 )", "(1", "1)"}
	rest := []string{"", " not null", " default 1", ", b text", " primary key", " unique"}
	var r []Case
	for _, d := range spec.Dialects {
		for i, t := range types {
			for j, s := range suffix {
				for k, x := range []string{t, strings.ToLower(t)} {
					r = append(r, Case{Rel: "diff", D: d, Texts: []string{"create table t (e " + x + s + rest[(i+j+k)%len(rest)] + ");"}})
				}
			}
		}
	}
	return r
})

// sentences: valid single-table texts covering each rule systematically.
var sentences = lazy(func() []sentence {
	var r []sentence
	for _, d := range spec.Dialects {
		g := spec.Grammars[d]
		head := gen.Toks("CREATE", "TABLE", "t", "(")
		tail := gen.Toks(")", ";")
		wrap := func(parts ...[]gen.Tok) {
			var t []gen.Tok
			for _, p := range parts {
				t = append(t, p...)
			}
			r = append(r, sentence{d, t})
		}
		after := [][]gen.Tok{nil, gen.Toks(",", "z", "TEXT", "NOT", "NULL"), gen.Toks(",", "UNIQUE", "(", "u1", ",", "u2", ")")}
		col := gen.Toks("d", "TEXT")
		for i, t := range gen.EnumRule(g, "type", 600) {
			wrap(head, gen.Toks("d"), t, after[i%3], tail)
			wrap(head, gen.Toks("d"), t, gen.Toks("NOT", "NULL"), tail)
		}
		ccs := gen.EnumRule(g, "cc", 300)
		for i, t := range ccs {
			wrap(head, col, t, after[i%3], tail)
			wrap(head, col, gen.Toks("CONSTRAINT", "k1"), t, tail)
			wrap(head, col, t, gen.Toks("NOT", "NULL"), tail)
			wrap(head, col, gen.Toks("NOT", "NULL"), t, tail)
			wrap(head, col, t, gen.Toks("CHECK", "(", "x", ")"), tail)
			wrap(head, col, gen.Toks("DEFAULT", "1"), t, tail)
		}
		for i, t := range gen.EnumRule(g, "tcon", 600) {
			wrap(head, col, gen.Toks(","), t, after[i%3], tail)
		}
		for i, t := range gen.EnumRule(g, "refs", 400) {
			wrap(head, col, t, after[i%3], tail)
			wrap(head, col, t, gen.Toks("UNIQUE"), tail)
		}
		for i, t := range gen.EnumRule(g, "tabopt", 400) {
			wrap(head, col, gen.Toks(")"), t, gen.Toks(";"))
			o := gen.EnumRule(g, "tabopt", 60)
			if d != spec.SQLite {
				wrap(head, col, gen.Toks(")"), t, o[(i*7+3)%len(o)], gen.Toks(";"))
				wrap(head, col, gen.Toks(")"), t, gen.Toks(","), o[(i*5+1)%len(o)], gen.Toks(";"))
			}
		}
		for _, t := range gen.EnumRule(g, "other", 200) {
			wrap(gen.Toks("CREATE"), t, head, col, tail)
		}
		for _, t := range gen.EnumRule(g, "tname", 50) {
			wrap(gen.Toks("CREATE", "TABLE"), t, gen.Toks("("), col, tail)
			wrap(gen.Toks("CREATE", "TABLE", "IF", "NOT", "EXISTS"), t, gen.Toks("("), col, tail)
		}
		if d == spec.SQLite {
			for _, w := range []string{"TEMP", "TEMPORARY"} {
				wrap(gen.Toks("CREATE", w, "TABLE", "t", "("), col, tail)
				wrap(gen.Toks("CREATE", w, "VIEW", "v", "as", "x", ";"))
			}
		}
	}
	return r
})

func plain(d spec.Dialect, t []gen.Tok) string { return gen.Render(nil, d, t, gen.Plain) }

// enumSentences: the sentences in upper and lower case, and with one keyword flipped.
type sentCase struct{ sent, kind int } // kind -1 as written, -2 all lower, else the flipped token

var enumSentences = lazy(func() []sentCase {
	var r []sentCase
	for i, s := range sentences() {
		g := spec.Grammars[s.d]
		r = append(r, sentCase{i, -1}, sentCase{i, -2})
		for k, t := range s.toks {
			if t.Kind == spec.Word && g.Vocab[t.Text] && (k+i)%4 == 0 {
				r = append(r, sentCase{i, k})
			}
		}
	}
	return r
})

func (c sentCase) make() *Case {
	s := sentences()[c.sent]
	up := plain(s.d, s.toks)
	low := gen.Lower(spec.Grammars[s.d], s.toks)
	switch c.kind {
	case -1:
		return &Case{Rel: "diff", D: s.d, Texts: []string{up}}
	case -2:
		return &Case{Rel: "case", D: s.d, Texts: []string{up, plain(s.d, low)}}
	}
	x := append([]gen.Tok(nil), s.toks...)
	x[c.kind] = low[c.kind]
	return &Case{Rel: "diff", D: s.d, Texts: []string{plain(s.d, x)}}
}

var intruders = gen.Toks("(", ")", ",", ";", ".", "=", "x", "NOT", "NULL", "'s'", "1", "0", "KEY", "ON", "TABLE", "DEFAULT", "CHECK", "UNIQUE", "CONSTRAINT", "-", "`b`", `"d"`)

// enumMutations: every sentence with every token deleted, doubled, swapped,
// replaced, or something inserted before it, and cut off before it.
type mutation struct{ sent, pos, kind int }

const perToken = 12

// mutationSums: how many mutations there are before each sentence.
var mutationSums = lazy(func() []int {
	r := []int{0}
	for i, s := range sentences() {
		r = append(r, r[len(r)-1]+perToken*mutable(i, s))
	}
	return r
})

// mutable: the common head CREATE TABLE t ( is changed only now and then.
func mutable(i int, s sentence) int {
	if i%50 != 0 {
		return len(s.toks) - 3
	}
	return len(s.toks)
}

func mutationAt(i int) mutation {
	sums := mutationSums()
	k := sort.SearchInts(sums, i+1) - 1
	j := i - sums[k]
	p, x := j/perToken, j%perToken
	if k%50 != 0 && p > 0 {
		p += 3
	}
	switch {
	case x < 4:
		return mutation{k, p, x}
	case x < 8:
		return mutation{k, p, 4 + (k*3+p*5+(x-4)*6)%len(intruders)}
	}
	return mutation{k, p, 4 + len(intruders) + (k*5+p*3+(x-8)*6)%len(intruders)}
}

func (m mutation) make() Case {
	s := sentences()[m.sent]
	t := append([]gen.Tok(nil), s.toks...)
	p := m.pos
	switch {
	case m.kind == 0:
		t = append(t[:p], t[p+1:]...)
	case m.kind == 1:
		t = append(t[:p:p], append([]gen.Tok{t[p]}, t[p:]...)...)
	case m.kind == 2:
		t = t[:p]
	case m.kind == 3:
		if p+1 < len(t) {
			t[p], t[p+1] = t[p+1], t[p]
		}
	case m.kind < 4+len(intruders):
		t[p] = intruders[m.kind-4]
	default:
		t = append(t[:p:p], append([]gen.Tok{intruders[m.kind-4-len(intruders)]}, t[p:]...)...)
	}
	if m.sent%2 == 1 {
		t = gen.Lower(spec.Grammars[s.d], t)
	}
	return Case{Rel: "diff", D: s.d, Texts: []string{plain(s.d, t)}}
}

// enumPairs: all ordered pairs of column constraints.
var ccLists = lazy(func() [][][]gen.Tok {
	var r [][][]gen.Tok
	for _, d := range spec.Dialects {
		r = append(r, gen.EnumRule(spec.Grammars[d], "cc", 24))
	}
	return r
})

func pairCount() int {
	n := 0
	for _, l := range ccLists() {
		n += len(l) * len(l)
	}
	return n
}

func pairAt(k int) *Case {
	n := k
	for di, l := range ccLists() {
		if k >= len(l)*len(l) {
			k -= len(l) * len(l)
			continue
		}
		d := spec.Dialects[di]
		i, j := k/len(l), k%len(l)
		t := gen.Toks("CREATE", "TABLE", "t", "(", "d", "TEXT")
		if (i+j)%5 == 1 {
			t = append(t, gen.Toks("CONSTRAINT", "k1")...)
		}
		t = append(t, l[i]...)
		if (i+j)%5 == 2 {
			t = append(t, gen.Toks("CONSTRAINT", "k2")...)
		}
		t = append(t, l[j]...)
		if (i+j)%3 == 0 {
			t = append(t, gen.Toks(",", "z", "TEXT")...)
		}
		t = append(t, gen.Toks(")", ";")...)
		if n%2 == 0 {
			t = gen.Lower(spec.Grammars[d], t)
		}
		return &Case{Rel: "diff", D: d, Texts: []string{plain(d, t)}}
	}
	return nil
}

// enumDefaults: a list of default values in every dialect and context.
var enumDefaults = listed(func() []Case {
	vals := strings.Split(`0|1|-1|+1|00|007|010|08|-010|+09|010.5|08e1|-0x10|1_0|0_1|10|123456789|9007199254740993|9223372036854775807|9223372036854775808|18446744073709551616|99999999999999999999999|-9223372036854775808|1.0|1.5|-1.5|+1.5|0.1|0.30000000000000004|3.14159265358979323846|123456789012345678901234567890.5|1.50|001.500|-0|-0.0|1e3|1E3|1e-3|1e+3|-1e3|1.5e3|1.5e-3|1.5E+3|1e308|1e309|1e400|-1e400|1e-400|4.9e-324|1.7976931348623157e308|2e308|.5|5.|1.2.3|1..2|--1|+-1|1_000|0x10|0X1F|0b11|0o7|0x1p4|1e|1e+|e3|nan|NaN|inf|Inf|infinity|-inf|+nan|Infinity|true|false|TRUE|FALSE|True|null|NULL|Null|t|f|yes|''|' '|'a'|'A b'|'it''s'|''''|'''a'|'a'''|'a''''b'|'1'|'1.5'|'true'|'null'|'NULL'|'()'|'(x)'|'a,b'|'a;b'|'--x'|'/*x*/'|'*/'|'日本'|'a
b'|'"'|'\\'|'\'|'\n'|'\''|'%s'|"a"|"a""b"|"it's"|`+"`a`"+`|''a|'a''b'|(1)|(-1)|('x')|(a+b)|(f(1,2))|((1))|( 1 )|()|(null)|(now())|(1, 2)|(')')|(a 'b' d)|current_time|current_date|current_timestamp|CURRENT_TIME|CURRENT_DATE|CURRENT_TIMESTAMP|Current_Timestamp|current_timestamp()|current_timestamp(3)|now()|now|x|abc|-x|1 2|'a' 'b'|1,|1a|a1|1-1|1+1|1*2|-|+|*|?|$1|:x|@x|now|localtime|localtimestamp|current_user|x'00'|b'1'|N'a'|E'a'|'a'::text|1::int|nextval('s')|default|unknown`, "|")
	ctx := []string{"V", "V not null", "V unique", "V primary key", "V check (x)", "V default 2", "V, b text", "V on update current_timestamp", "V ON UPDATE CURRENT_TIMESTAMP not null", "V references u", "V /* c */ not null", "V -- c\n", "V collate nocase", "V comment 'c'"}
	var r []Case
	for _, d := range spec.Dialects {
		for _, v := range vals {
			for i, c := range ctx {
				kw := []string{"default ", "DEFAULT "}[i%2]
				r = append(r, Case{Rel: "diff", D: d, Texts: []string{"create table t (e text " + kw + strings.Replace(c, "V", v, 1) + ");"}})
				if i < 6 {
					r = append(r, Case{Rel: "diff", D: d, Texts: []string{"create table t (e text not null " + kw + strings.Replace(c, "V", v, 1) + ");"}})
				}
			}
			r = append(r, Case{Rel: "json", D: d, Texts: []string{"create table t (e text default " + v + ");"}})
		}
	}
	return r
})

// enumLayout: every kind of gap at every place of some sentences.
type gapCase struct {
	sent, pos, gap int
}

var gaps = map[spec.Dialect][]string{}

func init() {
	base := []string{" ", "\n", "\r\n", "\t", "\r", "\n\n", " \n ", "-- c\n", "--\n", "-- it's\n", "/**/", "/* c */", "/***/", "/* * / */", "/*\n*/", "/* -- */", "-- /*\n", "/* ' */", "/* \" ; ) */", "--;\n", "/*/*/", "/* a */ /* b */", "-- a\n-- b\n", "/*日本*/", "--\u3000\n", "-- `\r\n", "/* # */", "---\n", "/*\r\n\r\n*/"}
	for _, d := range spec.Dialects {
		gaps[d] = base
		if d == spec.MySQL {
			gaps[d] = append(append([]string(nil), base...), "# c\n", "#\n", "# '\n", "#/*\n", "#-- ;\n")
		}
	}
}

var layoutSentences = lazy(func() []int {
	var r []int
	seen := map[spec.Dialect]int{}
	for i, s := range sentences() {
		if seen[s.d]++; seen[s.d]%37 == 1 {
			r = append(r, i)
		}
	}
	return r
})

var enumLayout = lazy(func() []gapCase {
	var r []gapCase
	for _, i := range layoutSentences() {
		s := sentences()[i]
		for p := 0; p <= len(s.toks); p++ {
			for k := range gaps[s.d] {
				r = append(r, gapCase{i, p, k})
			}
		}
	}
	return r
})

func (c gapCase) make() *Case {
	s := sentences()[c.sent]
	a := plain(s.d, s.toks)
	toks, _, _ := spec.Lex(a, s.d)
	if len(toks) != len(s.toks) {
		return nil
	}
	at := len(a)
	if c.pos < len(toks) {
		at = toks[c.pos].Start
	}
	b := strings.TrimRight(a[:at], " ") + gaps[s.d][c.gap] + a[at:]
	if !gen.LexesTo(b, s.d, s.toks) {
		b = a[:at] + gaps[s.d][c.gap] + a[at:]
		if !gen.LexesTo(b, s.d, s.toks) {
			return nil
		}
	}
	return &Case{Rel: "layout", D: s.d, Texts: []string{a, b}}
}

// enumCross: every sentence of one dialect under the two others.
func crossAt(i int) *Case {
	s := sentences()[i/2]
	d := spec.Dialects[(int(s.d)+1+i%2)%3]
	return &Case{Rel: "diff", D: d, Tag: "cross", Texts: []string{plain(s.d, s.toks)}}
}

// enumLex: short texts over the characters that matter to a lexer, alone and
// inside a statement.
var lexBits = []string{"'", "\"", "`", "--", "/*", "*/", "#", "\n", "\r", " ", "\\", "a", "1", ".", "-", "(", ")", ",", ";", "=", "*", "/", "\u3000", "日", "+", "e", "\t"}

func lexCase(i int) Case {
	d := spec.Dialects[i%3]
	i /= 3
	var b strings.Builder
	w := i % 4
	i /= 4
	for k := 0; k < 4; k++ {
		if x := i % (len(lexBits) + 1); x > 0 {
			b.WriteString(lexBits[x-1])
		}
		i /= len(lexBits) + 1
	}
	t := []string{"", "create table t (e text default ", "create table t (e text check(", "create table t (e text); "}[w]
	e := []string{"", ");", "));", " create table u (b text);"}[w]
	return Case{Rel: "total", D: d, Texts: []string{t + b.String() + e}}
}

func lexCount(k int) int {
	n := 12
	for ; k > 0; k-- {
		n *= len(lexBits) + 1
	}
	return n
}

// A systematic workload: how many cases, and the i-th of them.
type listWorkload struct {
	n func() int
	f func(i int) *Case
}

// fromList keeps a list packed: all workers hold all lists.
func fromList(l func() []Case) listWorkload {
	type kind struct {
		rel, tag, only string
		d              spec.Dialect
		n              int
	}
	var once sync.Once
	var blob []byte
	var at []uint32 // where a case starts
	var kinds []kind
	load := func() {
		ids := map[kind]int{}
		for _, c := range l() {
			if c.Subst != nil {
				panic("a listed case with substitutions")
			}
			k := kind{c.Rel, c.Tag, c.OnlyFor, c.D, len(c.Texts)}
			id, is := ids[k]
			if !is {
				id = len(kinds)
				ids[k] = id
				kinds = append(kinds, k)
			}
			at = append(at, uint32(len(blob)))
			blob = binary.AppendUvarint(blob, uint64(id))
			for _, t := range c.Texts {
				blob = append(binary.AppendUvarint(blob, uint64(len(t))), t...)
			}
			if len(blob) > 1<<31 {
				panic("the list is too large")
			}
		}
	}
	return listWorkload{
		func() int { once.Do(load); return len(at) },
		func(i int) *Case {
			once.Do(load)
			b := blob[at[i]:]
			num := func() int {
				x, n := binary.Uvarint(b)
				b = b[n:]
				return int(x)
			}
			k := kinds[num()]
			c := &Case{Rel: k.rel, Tag: k.tag, OnlyFor: k.only, D: k.d, Texts: make([]string, k.n)}
			for j := range c.Texts {
				n := num()
				c.Texts[j] = string(b[:n])
				b = b[n:]
			}
			return c
		},
	}
}

// hugeTexts: millions of characters or hundreds of thousands of tokens of one
// kind, so that anything that recurses per character, token or entry runs out
// of stack.
var hugeTexts = lazy(func() []func() *Case {
	const mb = 1 << 20
	var r []func() *Case
	add := func(head, unit, tail string, size int) {
		d := spec.Dialects[len(r)%3]
		r = append(r, func() *Case {
			return &Case{Rel: "huge", D: d, Texts: []string{head + strings.Repeat(unit, size/len(unit)) + tail}}
		})
	}
	add("create table t (e text check(", "(", "", 6*mb)
	add("create table t (e text, b text default ", "(", "", 6*mb)
	add("create table t (e text check", "( ", strings.Repeat(")", 2*mb)+");", 4*mb)
	add("create table t (e text, check(", "x ", "));", 3*mb)
	add("/*", "x", "*/create table t (e text);", 8*mb)
	add("/*", "* \n", "*/create table t (e text);", 8*mb)
	add("create table t (e text); --", "x", "\ncreate table t (e text);", 8*mb)
	add("create table t (", "-- x\n", "a text);", 8*mb)
	add("create table t (e text default '", "x", "');", 8*mb)
	add("create table t (e text default '", "''", "');", 8*mb)
	add("create table t (e text default '", "\n", "');", 8*mb)
	add("create table t (\"", "n", "\" text);", 8*mb)
	add("create table `", "n\n", "` (e text);", 8*mb)
	add("create table t (", "n", " text);", 4*mb)
	add("create table t (e text check(", "x+", "x));", 4*mb)
	add("create table t (e text check(", "- ", "x));", 4*mb)
	add("", "*", " x", 4*mb)
	add("", "\n", "create table t (e text);", 8*mb)
	add("", " ", "create table t (e text);", 8*mb)
	add("create table t (e", " \t\r", "text);", 8*mb)
	add("create", "/**/", "table t (e text);", 8*mb)
	add("create view v as ", "x;create view v as ", "x;", 3*mb)
	add("create trigger v begin ", "x; ", "end;", 3*mb)
	add("create trigger v ", "begin ", "", 4*mb)
	add("create trigger v ", "(", "", 3*mb)
	add("", "create table t(e text);", "", 2*mb)
	add("create table t (", "e text,", "b text);", mb/2)
	add("create table t (e text, unique(", "e,", "b));", mb/4)
	add("create table t (e text, primary key(", "e,", "b));", mb/4)
	add("create table t (e text, foreign key(", "e,", "b) references t(e));", mb/4)
	add("create table t (e text, foreign key(e) references t(", "e,", "b));", mb/4)
	add("create table t (e text references t ", "on delete cascade ", ");", 2*mb)
	add("create table t (e text) ", "tablespace x ", ";", mb)
	add("create table t (e text) ", "tablespace x ", ";", mb)
	add("create table t (e text, ", "check(e), ", "b text);", mb)
	return r
})

var lists = map[string]listWorkload{
	"huge":           {func() int { return len(hugeTexts()) }, func(i int) *Case { return hugeTexts()[i]() }},
	"cost-kinds":     fromList(costCases),
	"enum-comments":  fromList(enumComments),
	"enum-contents":  fromList(enumContents),
	"enum-sizes":     {func() int { return len(sizeSpecs()) }, func(i int) *Case { return sizeSpecs()[i].make() }},
	"enum-small":     {func() int { return len(smallSizes()) }, func(i int) *Case { return smallSizes()[i].make() }},
	"enum-cuts":      {func() int { return len(enumCuts()) }, func(i int) *Case { return enumCuts()[i].make(i) }},
	"enum-contexts":  contextAt(shortContexts),
	"enum-contexts6": contextAt(longContexts),
	"enum-clauses":   clauseAt(shortContexts),
	"enum-clauses6":  clauseAt(longContexts),
	"enum-repeat":    {func() int { return len(repeatSpecs()) }, func(i int) *Case { return repeatSpecs()[i].make(i) }},
	"enum-column":    {func() int { return len(columnSpecs()) }, func(i int) *Case { return columnSpecs()[i].make(i) }},
	"enum-defs":      {func() int { return len(defPairs()) }, defPairAt},
	"enum-stmts":     {func() int { return len(stmtPairs()) }, stmtPairAt},
	"enum-words":     fromList(enumWords),
	"enum-chars":     fromList(enumChars),
	"enum-numbers":   fromList(enumNumbers),
	"enum-unicode":   fromList(enumUnicode),
	"enum-planes":    {planeCount, planeAt},
	"enum-wraps":     fromList(enumWraps),
	"enum-bodies":    fromList(enumBodies),
	"enum-quoted":    fromList(enumQuoted),
	"enum-types":     fromList(enumTypes),
	"enum-sentences": {func() int { return len(enumSentences()) }, func(i int) *Case { return enumSentences()[i].make() }},
	"enum-pairs":     {pairCount, pairAt},
	"enum-defaults":  fromList(enumDefaults),
	"enum-cross":     {func() int { return 2 * len(sentences()) }, crossAt},
	"enum-mutations": {func() int { return mutationSums()[len(sentences())] }, func(i int) *Case { c := mutationAt(i).make(); return &c }},
	"enum-layout":    {func() int { return len(enumLayout()) }, func(i int) *Case { return enumLayout()[i].make() }},
	"enum-lex":       {func() int { return lexCount(2) }, func(i int) *Case { c := lexCase(i); return &c }},
	"enum-lex3":      {func() int { return lexCount(3) }, func(i int) *Case { c := lexCase(i); return &c }},
	"enum-lex4":      {func() int { return lexCount(4) }, func(i int) *Case { c := lexCase(i); return &c }},
}
