package main

import (
	"fmt"
	"strings"

	"verifharness/gen"
	"verifharness/spec"
)

// enumComments: comments with every kind of first, last and only character,
// with text in them that would mean something if it were not a comment.
var enumComments = listed(func() []Case {
	var inner []string
	for c := ' '; c <= '~'; c++ {
		s := string(c)
		inner = append(inner, s, s+s, s+"x", " "+s, s+"50100 unique ", s+" unique "+s, "50100"+s, s+" create table z (e text);", "x"+s)
	}
	inner = append(inner, "", "M!100100 unique ", "!50100 not null", "+ hint", "\t", "\r", "\r\n", "\n", "\nunique\n", "\u3000", "\ufeff", "日本", "é", "\x00", "\x01", "\x7f", "\v", "\f", "\u0085", "\u00a0", "\u2028",
		"unique", "primary key", "default 1", "; create table z (e text);", ") ; --", "*", "**", "***", "/", "/ *", "* /", "/*", "/**", "'", "\"", "`", "it's", "$$", "\\", "\\\n", "\\*", "<EOF>", "begin", "end", "end;", "case", "(", ")", ",", ";", "=", ".")
	type tmpl struct{ a, b string }
	ts := []tmpl{{"create table t (e text", "not null);"}, {"create table t (e text check(x", "y), b text);"}, {"create table t (e text);", "create table u (b text);"}, {"", "create table t (e text);"}, {"create table t (e text);", ""},
		{"create view v as x", "; create table t (e text);"}, {"create table t (e text, unique(e", ", b));"}}
	var r []Case
	k := 0
	for _, d := range spec.Dialects {
		for _, in := range inner {
			cs := []string{}
			if !strings.Contains(in, "*/") {
				cs = append(cs, "/*"+in+"*/")
			}
			if !strings.Contains(in, "\n") {
				cs = append(cs, "--"+in+"\n")
				if d == spec.MySQL {
					cs = append(cs, "#"+in+"\n")
				}
			}
			for _, c := range cs {
				for j := 0; j < 3; j++ {
					t := ts[(k+j*3)%len(ts)]
					a, b := t.a+" "+t.b, t.a+c+t.b
					x, _, e1 := spec.Lex(a, d)
					if e1 != nil || !gen.LexesTo(b, d, gen.FromSpec(x)) {
						b = t.a + " " + c + t.b
					}
					if gen.LexesTo(b, d, gen.FromSpec(x)) {
						r = append(r, Case{Rel: "layout", D: d, Texts: []string{a, b}})
					} else {
						r = append(r, Case{Rel: "diff", D: d, Tag: "layouts", Texts: []string{b}})
					}
				}
				k++
			}
		}
	}
	return r
})

// enumContents: every character, and every pair of punctuation characters, as
// the content of quoted names and strings.
var enumContents = listed(func() []Case {
	var in []string
	punct := ""
	for c := ' '; c <= '~'; c++ {
		s := string(c)
		in = append(in, s, s+s, s+"x", "x"+s, " "+s+" ", "x"+s+"y")
		if !(c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z') {
			punct += s
		}
	}
	for _, a := range punct + "\n\\" {
		for _, b := range punct + "\n\\" {
			in = append(in, string(a)+string(b))
		}
	}
	for _, c := range "\x00\x01\t\r\n\v\f\x1a\x1b\x7f\u0080\u0085\u00a0\u00ad\u00e9\u0130\u0131\u017f\u212a\u200b\u2028\u3000\ufeff\ufffd日😀\U0010ffff" {
		in = append(in, string(c), "x"+string(c), string(c)+"x", string(c)+string(c))
	}
	in = append(in, "<EOF>", "null", "NULL", "true", "FALSE", "current_timestamp", "1", "-1.5", "0", "nan", "(x)", "( x )", "a,b", "a, b", "a.b", "s.t", "primary key", "constraint", "check", "unique", "foreign", "key", "index", "if", "if not exists", "create table z (e text);", "%d", "%!", "\\n", "\\'", "''", "a''b", "\"\"", "``", strings.Repeat("'", 4), strings.Repeat("'", 10))
	var r []Case
	k := 0
	for _, d := range spec.Dialects {
		for _, c := range in {
			for _, q := range []string{"'", `"`, "`"} {
				t := q + c + q
				x, _, err := spec.Lex(t+" ", d)
				if err != nil || len(x) != 1 {
					continue
				}
				var ps []string
				if q == "'" || q == `"` && d == spec.MySQL {
					ps = []string{"create table t (e text default W, b text);", "create table t (e text check(x = W) not null);", "create table t (e text default (f(W, 1)));", "create table t (e text, check(W), b text);", "create view v as W; create table t (e text);", "create table t (W text);"}
				} else {
					ps = []string{"create table W (e text);", "create table t (W text, b text);", "create table s.W (e text, primary key(W, b), unique(W));", "create table t (e text constraint W not null, constraint W unique(e));", "create table t (e text references W (W));",
						"create table t (e text, foreign key(W) references s.W (W, x));", "create table W.t (e text check(x + W));", "create table t (e text default W);"}
				}
				for j := 0; j < 4; j++ {
					r = append(r, Case{Rel: "diff", D: d, Tag: "quotes", Texts: []string{strings.ReplaceAll(ps[(k+j)%len(ps)], "W", t)}})
				}
				k++
			}
		}
	}
	return r
})

// enumSizes: every dimension at sizes around the usual limits.
type sizeSpec struct {
	dim  string
	n    int
	kind int
	d    spec.Dialect
}

func around(ns ...int) []int {
	var r []int
	for _, n := range ns {
		r = append(r, n-1, n, n+1)
	}
	return r
}

var sizeSpecs = lazy(func() []sizeSpec {
	var r []sizeSpec
	k := 0
	add := func(dim string, kinds int, all bool, ns ...int) {
		for _, n := range ns {
			for kind := 0; kind < kinds; kind++ {
				if all {
					for _, d := range spec.Dialects {
						r = append(r, sizeSpec{dim, n, kind, d})
					}
				} else {
					r = append(r, sizeSpec{dim, n, kind, spec.Dialects[k%3]})
				}
				k++
			}
		}
	}
	small := append([]int{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 25, 30, 31, 32, 33, 40, 48, 50, 60}, around(64, 100, 128, 200, 256, 300, 400, 500, 512)...)
	mid := around(1000, 1017, 1024, 1600, 2000, 2048, 4096, 5000)
	large := around(8192, 10000, 16384, 32768, 65536)
	huge := []int{70000, 100001, 131073}
	add("columns", 1, true, small...)
	add("columns", 1, false, mid...)
	add("columns", 1, false, 10001, 32769, 65537)
	add("statements", 2, true, small...)
	add("statements", 1, false, mid...)
	add("statements", 1, false, 10001, 32769, 65537)
	add("constraints", 4, false, small...)
	add("constraints", 4, false, 1025, 4097)
	add("constraints", 1, false, 32769, 65537)
	add("colcons", 1, false, small...)
	add("list", 4, true, small...)
	add("list", 4, false, 1025, 4097)
	add("list", 4, false, 65537)
	add("name", 7, true, append([]int{63, 64, 65, 127, 128, 129, 255, 256, 257}, 31, 32, 33, 59, 60, 61, 99, 100, 101)...)
	add("name", 7, false, 1025, 2049, 4097, 32769, 65537)
	add("qname", 7, false, append(append(small, 1025, 4097), 32769, 65537)...)
	add("string", 5, false, append(append(append(small, mid...), large...), huge...)...)
	add("string", 5, false, 1<<20+1)
	add("comment", 6, false, append(append(append(small, mid...), large...), huge...)...)
	add("comment", 6, false, 1<<20+1)
	add("lines", 6, false, append(append(append(small, mid...), large...), huge...)...)
	add("lines", 2, false, 1<<20+1)
	add("blanks", 3, false, append(append(append(small, mid...), large...), huge...)...)
	add("blanks", 3, false, 1<<20+1)
	add("nesting", 3, true, small...)
	add("nesting", 3, false, append(append(mid, large...), huge...)...)
	add("expr", 3, false, append(small, mid...)...)
	add("expr", 3, false, 10001, 32769, 65537)
	add("body", 3, false, append(append(small, 1025, 4097), 32769, 65537)...)
	add("blocks", 1, false, append(append(small, 1025, 4097), 32769, 65537)...)
	add("digits", 3, true, 1, 2, 3, 5, 8, 9, 10, 11, 15, 16, 17, 18, 19, 20, 21, 22, 30, 40, 60, 100, 200, 300, 308, 309, 310, 400, 1000)
	add("near", 3, true, append(append(small, 1000, 1024, 2000, 4097, 65537), 255)...)
	// beyond a megabyte
	add("string", 3, false, 1<<21+1, 5000001)
	add("comment", 2, false, 1<<21+1, 5000001)
	add("lines", 1, false, 1<<21+1)
	add("blanks", 1, false, 1<<20+1, 1<<21+1)
	add("name", 7, false, 1<<20+1)
	add("qname", 7, false, 1<<20+1)
	add("near", 3, false, 1<<20+1, 1<<21+1)
	add("longexpr", 3, false, 100001, 1<<20+1)
	add("expr", 3, false, 200001)
	add("list", 4, false, 140001)
	add("columns", 1, false, 140001)
	add("constraints", 4, false, 70001)
	add("statements", 1, false, 80001)
	add("nesting", 3, false, 300001)
	add("body", 3, false, 300001)
	add("bytes", 1, false, 1<<22+1)
	add("manybytes", 1, false, 1<<22+1, 1<<23+1)
	add("bytes", 2, false, 1<<16-30, 1<<16, 1<<16+30, 1<<17, 1<<18, 1<<19+1, 1<<20-30, 1<<20+30, 1500000, 1<<21+1)
	return r
})

// smallSizes: those that take no second.
var smallSizes = lazy(func() []sizeSpec {
	var r []sizeSpec
	for _, s := range sizeSpecs() {
		if max := map[string]int{"columns": 5001, "statements": 5001, "constraints": 5000, "list": 33000, "expr": 33000, "nesting": 33000, "body": 33000, "blocks": 33000, "longexpr": 0, "bytes": 1 << 19}[s.dim]; s.n <= max || max == 0 && s.dim != "longexpr" && s.n <= 140000 {
			r = append(r, s)
		}
	}
	return r
})

func (s sizeSpec) make() *Case {
	rep := strings.Repeat
	n, kind, d := s.n, s.kind, s.d
	seq := func(n int, sep string, f func(i int) string) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString(sep)
			}
			b.WriteString(f(i))
		}
		return b.String()
	}
	q := map[spec.Dialect]string{spec.SQLite: `"`, spec.PostgreSQL: `"`, spec.MySQL: "`"}[d]
	const tail = " create table last (z integer not null, zz text);"
	t := ""
	switch s.dim {
	case "columns":
		t = "create table t (" + seq(n, ", ", func(i int) string {
			return fmt.Sprintf("c%d %s%s", i, []string{"text", "integer", "numeric"}[i%3], []string{"", " not null", " default 5", " check(x)", " unique"}[i%5])
		}) + ", unique(c1));" + tail
	case "statements":
		t = seq(n, "\n", func(i int) string {
			if kind == 1 && i%3 == 1 {
				return fmt.Sprintf("create view v%d as x;", i)
			}
			return fmt.Sprintf("create table t%d (c%d text, unique(c%d));", i, i, i)
		}) + tail
	case "constraints":
		t = "create table t (e text, " + seq(n, ", ", func(i int) string {
			nm := ""
			if i%2 == 0 {
				nm = fmt.Sprintf("constraint k%d ", i)
			}
			return nm + []string{fmt.Sprintf("unique(u%d)", i), fmt.Sprintf("primary key(p%d, q)", i), fmt.Sprintf("check(x%d)", i), fmt.Sprintf("foreign key(f%d) references r%d(g%d)", i, i, i)}[kind]
		}) + ", last text);" + tail
	case "colcons": // n columns with all constraints each
		t = "create table t (" + seq(n, ", ", func(i int) string {
			return fmt.Sprintf("c%d text constraint k%d not null unique default %d check(y%d) primary key references r%d(s%d)", i, i, i, i, i, i)
		}) + ");" + tail
	case "list":
		l := seq(n, ", ", func(i int) string { return fmt.Sprintf("c%d", i) })
		t = "create table t (b text, " + []string{"primary key(" + l + ")", "unique(" + l + ")", "foreign key(" + l + ") references r(x)", "foreign key(x) references r(" + l + ")"}[kind] + ", last text, unique(last));" + tail
	case "name", "qname":
		w := "n" + rep("m", n-1)
		if s.dim == "qname" {
			w = q + rep("n ", n/2) + rep("x", n%2) + q
		}
		t = strings.ReplaceAll([]string{"create table W (b text);", "create table W.W (b text);", "create table t (W text not null, b text);", "create table t (b text constraint W unique, constraint W check(b));", "create table t (b text references W(W));", "create table t (b text, primary key(W, b), foreign key(W) references W(W));", "create table t (b text check(W = 1) default (W));"}[kind], "W", w) + tail
	case "string":
		c := []string{"x", "''", "日", "a\n", "( ;"}[kind]
		t = "create table t (b text default '" + rep(c, n) + "', d text check('" + rep(c, 3) + "'));" + tail
	case "comment":
		c := []string{"/*" + rep("x", n) + "*/", "--" + rep("x", n) + "\n", rep("-- c\n", n), rep("/* */", n), "/*" + rep("* \n", n) + "*/", "/*" + rep("/* ' ", n) + "*/"}[kind]
		t = "create table t (b text " + c + " not null, d text);" + c[:len(c)] + tail + " oops"
	case "lines":
		c := []string{rep("\n", n), rep("\r\n", n), rep(" \n", n), rep("--\n", n), "/*" + rep("\n", n) + "*/", ""}[kind]
		if kind == 5 {
			t = "create table t (b text default '" + rep("\n", n) + "', d text)\n;\n create table u (d text oops);"
		} else {
			t = "create table t (b text);" + c + "create table u (d text oops);"
		}
	case "blanks":
		c := rep([]string{" ", "\t", "\r"}[kind], n)
		t = c + "create" + c + "table t" + c + "(b" + c + "text not" + c + "null" + c + ")" + c + ";" + tail + c + "oops"
	case "nesting":
		e := rep("(", n) + "x" + rep(")", n)
		t = []string{"create table t (b text check" + e + " not null, d text);", "create table t (b text default " + e + ", check" + e + ", d text);", "create table t (b text check" + rep("(", n) + rep("a)", n) + " unique, d text);"}[kind] + tail
	case "expr":
		e := "(" + seq(n, []string{" ", ",", "+"}[kind], func(i int) string {
			if kind == 0 && i%7 == 3 {
				return "'s " + fmt.Sprint(i) + "'"
			}
			return fmt.Sprintf("x%d", i)
		}) + ")"
		t = "create table t (b text check" + e + " not null, d text default " + e + ", check" + e + ");" + tail
	case "longexpr":
		e := "(" + []string{rep("x ", n) + "y", "'" + rep("x ", n) + "' + y", "xx" + rep("y", n) + " + z"}[kind] + ")"
		t = "create table t (b text check" + e + " not null, d text default " + e + ", check" + e + ");" + tail
	case "body":
		t = []string{"create view v as " + seq(n, " ", func(i int) string { return fmt.Sprintf("x%d", i) }) + ";", "create trigger tr begin " + rep("select 1; ", n) + "end;", "create trigger tr begin " + rep("case when x then y end; ", n) + "end;"}[kind] + tail
	case "blocks":
		t = "create trigger tr " + rep("begin x; ", n) + rep("end; ", n) + tail
	case "digits":
		num := rep("1234567890", n/10+1)[:n]
		t = []string{"create table t (b text default " + num + ", d text default -" + num + ".5);", "create table t (b text default 0." + num + ", d text default 1e" + num[:min(n, 5)] + ");", "create table t (b numeric(" + num + "), d text default " + rep("0", n) + "7);"}[kind] + tail
	case "near":
		w := "n" + rep("m", n-1)
		t = "create table t (b text);\ncreate table u (b text,\n d text " + []string{w, "'" + w + "'", `"` + w + `"`}[kind] + ");"
	case "bytes", "manybytes":
		unit := "create table t (b text default 'some text', d integer not null); -- a comment\n"
		if kind == 1 || s.dim == "manybytes" {
			unit = "create table t (b text default '" + rep("x", 5000) + "'); /* " + rep("y ", 2500) + "*/\n"
		}
		t = rep(unit, n/len(unit)+1) + tail
	}
	return &Case{Rel: "diff", D: d, Tag: "size", Texts: []string{t}}
}

// enumCuts: every sentence cut off after each of its tokens, without
// repetitions: all the ways in which a text can end too early. Every other one
// ends in a line break or a comment.
type cut struct{ sent, pos int32 }

var enumCuts = lazy(func() []cut {
	seen := map[uint64]bool{}
	var r []cut
	for i, s := range sentences() {
		h := uint64(14695981039346656037) ^ uint64(s.d+1)
		for p, t := range s.toks {
			for k := 0; k < len(t.Text); k++ {
				h = (h ^ uint64(t.Text[k])) * 1099511628211
			}
			h = (h ^ 0xff) * 1099511628211
			if !seen[h] {
				seen[h] = true
				r = append(r, cut{int32(i), int32(p + 1)})
			}
		}
	}
	return r
})

func (c cut) make(i int) *Case {
	s := sentences()[c.sent]
	t := s.toks[:c.pos]
	if i%2 == 1 {
		t = gen.Lower(spec.Grammars[s.d], t)
	}
	end := []string{"", "", "\n", " -- x", "\n\n/* x\n */", " /* x"}[i%6]
	return &Case{Rel: "diff", D: s.d, Texts: []string{plain(s.d, t) + end}}
}

// enumContexts: at every distinct place of the sentences (the kind of
// definition, the last few tokens and, in the long list, the next one) a token
// is deleted, doubled, swapped or replaced, or a token or a few are inserted, so
// that whatever continues wrongly after an extra list element, operand, clause
// or bracket shows.
var phrases, clauses = phraseList(`, x|x ,|, x ,|, ;|( x )|( 1 )|( )|( x , y )|. x|x .|= x|= 1|= 's'|= ( x )|x = y|x y|x . y|, 's'|'s' , 's'|, 1|1 , 2|, ( x )|; x|x (|( ;|( ( x ) )|x ( y )|) (|) , (|) ;|) x|, )|( ,|, ,|1 1|'s' 's'|- 1|x 1|1 x|= =|x x x`), phraseList(`CONSTRAINT x|CONSTRAINT x ,|PRIMARY KEY|UNIQUE|UNIQUE ( x )|CHECK ( x )|REFERENCES x|REFERENCES x ( y )|ON DELETE CASCADE|ON UPDATE SET NULL|COLLATE x|COMMENT 's'|WITH ( x = 1 )|INCLUDE ( x )|USING BTREE|DEFERRABLE|NOT DEFERRABLE|INITIALLY DEFERRED|MATCH FULL|NO INHERIT|NULLS NOT DISTINCT|ENFORCED|ASC|DESC|NULL|NULLS FIRST|IF NOT EXISTS|AS ( x )|GENERATED ALWAYS AS ( x )|STORED|ON CONFLICT IGNORE|AUTOINCREMENT|AUTO_INCREMENT|STRICT|TABLESPACE x|ENGINE = x|, ENGINE = x|WITH|WITHOUT ROWID|, STRICT|UNSIGNED|CHARACTER SET x|VARYING|PRECISION|WITH TIME ZONE|"q" 's'|, "q"|TABLE x|CREATE TABLE x ( y TEXT ) ;|create view v as x ;|END ;|BEGIN|KEY x ( y )|INDEX ( x ) ,|FOREIGN KEY ( x ) REFERENCES y ( z )|WHERE ( x )|EXCLUDE ( x WITH = )|VISIBLE|KEY_BLOCK_SIZE = 1|KEY_BLOCK_SIZE 1|ON|ON UPDATE CURRENT_TIMESTAMP|STORAGE DISK|COLUMN_FORMAT FIXED|NOT NULL|DEFAULT 1|USING x|, x TEXT|x TEXT ,`)

func phraseList(l string) [][]gen.Tok {
	var r [][]gen.Tok
	for _, p := range strings.Split(l, "|") {
		r = append(r, gen.Toks(strings.Fields(p)...))
	}
	return r
}

func contexts(before, after int) []cut {
	seen := map[string]bool{}
	var r []cut
	var k strings.Builder
	for i, s := range sentences() {
		vocab := spec.Grammars[s.d].Vocab
		kind := func(t gen.Tok) string {
			if t.Kind == spec.Symbol || vocab[t.Text] {
				return t.Text
			}
			if t.Kind == spec.Quoted {
				return t.Text[:1]
			}
			return "n"
		}
		def, depth := "", 0
		for p := 0; p <= len(s.toks); p++ {
			if p > 0 {
				switch s.toks[p-1].Text {
				case "(":
					depth++
				case ")":
					depth--
				}
				if x := s.toks[p-1].Text; p < len(s.toks) && depth == 1 && (x == "(" || x == ",") {
					def = kind(s.toks[p])
					if def == "CONSTRAINT" && p+2 < len(s.toks) {
						def += kind(s.toks[p+2])
					}
				} else if x == ")" && depth == 0 {
					def = ")"
				}
			}
			k.Reset()
			k.WriteByte(byte(s.d))
			k.WriteString(def)
			for j := max(0, p-before); j < min(len(s.toks), p+after); j++ {
				k.WriteByte(' ')
				k.WriteString(kind(s.toks[j]))
			}
			if !seen[k.String()] {
				seen[k.String()] = true
				r = append(r, cut{int32(i), int32(p)})
			}
		}
	}
	return r
}

var (
	shortContexts = lazy(func() []cut { return contexts(4, 0) })
	longContexts  = lazy(func() []cut { return contexts(6, 1) })
)

// contextAt: each context with each change of a token and each phrase.
func contextAt(l func() []cut) listWorkload {
	per := 3 + 2*len(intruders) + len(phrases)
	return listWorkload{func() int { return len(l()) * per }, func(i int) *Case {
		c := l()[i/per]
		s := sentences()[c.sent]
		p, k := int(c.pos), i%per
		t := append([]gen.Tok(nil), s.toks[:p]...)
		rest := s.toks[p:]
		switch {
		case k < 3+len(intruders) && len(rest) == 0:
			return nil
		case k == 0:
			rest = rest[1:]
		case k == 1:
			t = append(t, rest[0])
		case k == 2 && len(rest) > 1:
			t = append(t, rest[1], rest[0])
			rest = rest[2:]
		case k == 2:
			return nil
		case k < 3+len(intruders):
			t = append(t, intruders[k-3])
			rest = rest[1:]
		case k < 3+2*len(intruders):
			t = append(t, intruders[k-3-len(intruders)])
		default:
			t = append(t, phrases[k-3-2*len(intruders)]...)
		}
		t = append(t, rest...)
		if (i+i/per)%2 == 1 {
			t = gen.Lower(spec.Grammars[s.d], t)
		}
		return &Case{Rel: "diff", D: s.d, Texts: []string{plain(s.d, t)}}
	}}
}

// clauseAt: each context with each clause inserted.
func clauseAt(l func() []cut) listWorkload {
	per := len(clauses)
	return listWorkload{func() int { return len(l()) * per }, func(i int) *Case {
		c := l()[i/per]
		s := sentences()[c.sent]
		t := append(append([]gen.Tok(nil), s.toks[:c.pos]...), clauses[i%per]...)
		t = append(t, s.toks[c.pos:]...)
		if (i+i/per)%2 == 1 {
			t = gen.Lower(spec.Grammars[s.d], t)
		}
		return &Case{Rel: "diff", D: s.d, Texts: []string{plain(s.d, t)}}
	}}
}
