package main

import (
	"fmt"
	"sort"
	"strings"

	"verifharness/gen"
	"verifharness/spec"
)

// enumRepeat: every repetition of the grammars, at every place where it occurs
// in the sentences, with many items: copies of the item that is there, or all
// the different items that occur in that repetition anywhere, in turn. So a
// second or seventeenth reference option, key part, table option, included
// column, union member and so on is seen after each of the others. Some have
// something wrong behind the last item.
type repeatSpec struct {
	site, n, kind int // kind: 0 copies, 1 different items, 2 and more: with an error
	from          int // the first of the different items
}

type repeatSite struct {
	sent       int
	from, to   int // tokens of the repetition
	first, end int // tokens of its first item
	node       *spec.Node
	d          spec.Dialect
	comma      bool
	pool       *repeatPool
}

// repeatPool: all items of one repetition.
type repeatPool struct {
	seen  map[string]bool
	items [][]gen.Tok
}

var repeatSites = lazy(func() []*repeatSite {
	pools := map[*spec.Node]*repeatPool{}
	seen := map[string]bool{}
	var r []*repeatSite
	for i, s := range sentences() {
		g := spec.Grammars[s.d]
		o := g.Recognise(plain(s.d, s.toks), nil)
		if o.Tree == nil || len(o.Toks) != len(s.toks) {
			continue
		}
		sig := func(from, to int) string {
			var b strings.Builder
			for _, t := range s.toks[from:to] {
				switch {
				case t.Kind == spec.Symbol || g.Vocab[strings.ToUpper(t.Text)]:
					b.WriteString(t.Text)
				case t.Kind == spec.Quoted:
					b.WriteString(t.Text[:1])
				default:
					b.WriteString("n")
				}
				b.WriteByte(' ')
			}
			return b.String()
		}
		var walk func(t *spec.Tree, path string)
		walk = func(t *spec.Tree, path string) {
			if t.Rule != "" {
				path += "/" + t.Rule
			}
			if n := t.N; (n.Op == spec.OpMany || n.Op == spec.OpList) && len(t.Kids) > 0 {
				p := pools[n]
				if p == nil {
					p = &repeatPool{seen: map[string]bool{}}
					pools[n] = p
				}
				all := t.Leaves()
				st := &repeatSite{sent: i, from: all[0], to: all[len(all)-1] + 1, node: n, d: s.d, comma: n.Op == spec.OpList, pool: p}
				for k, kid := range t.Kids {
					l := kid.Leaves()
					if len(l) == 0 || st.comma && k%2 == 1 {
						continue
					}
					if st.end == 0 {
						st.first, st.end = l[0], l[len(l)-1]+1
					}
					if x := sig(l[0], l[len(l)-1]+1); !p.seen[x] {
						p.seen[x] = true
						p.items = append(p.items, s.toks[l[0]:l[len(l)-1]+1])
					}
				}
				after := ""
				if st.to < len(s.toks) {
					after = s.toks[st.to].Text
				}
				head := 4
				if st.end-st.first > 6 || strings.HasSuffix(path, "/table") || path == "" {
					head = 2
				}
				if k := fmt.Sprint(s.d, n.ID, path, sig(st.first, min(st.end, st.first+head)), after); st.end > 0 && !seen[k] {
					seen[k] = true
					r = append(r, st)
				}
			}
			for _, k := range t.Kids {
				walk(k, path)
			}
		}
		walk(o.Tree, "")
	}
	return r
})

var repeatSizes = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 50, 51, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257}

var repeatSpecs = lazy(func() []repeatSpec {
	var r []repeatSpec
	for i, s := range repeatSites() {
		_ = s
		for k, n := range repeatSizes {
			if n > 12 && (i+k)%4 != 0 {
				continue
			}
			r = append(r, repeatSpec{i, n, 0, 0})
			r = append(r, repeatSpec{i, n, 2 + (i+k)%5, i * 7})
			if n > 1 {
				r = append(r, repeatSpec{i, n, 1, i*5 + k*3})
			}
		}
	}
	sort.SliceStable(r, func(a, b int) bool { return r[a].n < r[b].n })
	return r
})

// numbered: the item with different names.
func numbered(g *spec.Grammar, item []gen.Tok, i int) []gen.Tok {
	if i == 0 {
		return item
	}
	r := append([]gen.Tok(nil), item...)
	for j, t := range r {
		if t.Kind == spec.Word && !g.Vocab[strings.ToUpper(t.Text)] && !g.Reserved[strings.ToUpper(t.Text)] && (t.Text[0] >= 'a' && t.Text[0] <= 'z' || t.Text[0] >= 'A' && t.Text[0] <= 'Z') {
			r[j].Text = t.Text + fmt.Sprint(i)
		}
	}
	return r
}

func (c repeatSpec) make(i int) *Case {
	st := repeatSites()[c.site]
	s := sentences()[st.sent]
	g := spec.Grammars[s.d]
	t := append([]gen.Tok(nil), s.toks[:st.from]...)
	for k := 0; k < c.n; k++ {
		if k > 0 && st.comma {
			t = append(t, gen.Toks(",")...)
		}
		item := s.toks[st.first:st.end]
		if c.kind == 1 && k > 0 || c.kind > 1 && k%2 == 1 {
			item = st.pool.items[(c.from+k)%len(st.pool.items)]
		}
		t = append(t, numbered(g, item, k)...)
	}
	switch c.kind {
	case 2:
		t = append(t, gen.Toks("oops")...)
	case 3:
		t = append(t, gen.Toks(",")...)
	case 4:
		t = append(t, gen.Toks(",", "(")...)
	case 5:
		t = append(t, gen.Toks("'s'")...)
	case 6: // cut off
		return &Case{Rel: "diff", D: s.d, Tag: "repeat", Texts: []string{plain(s.d, t)}}
	}
	t = append(t, s.toks[st.to:]...)
	if i%2 == 1 {
		t = gen.Lower(g, t)
	}
	return &Case{Rel: "diff", D: s.d, Tag: "repeat", Texts: []string{plain(s.d, t)}}
}

// enumColumn: three and more constraints in a column, of different kinds, in
// many orders, with and without names, some with one of them repeated.
type columnSpec struct {
	d    int
	n, r int
}

var columnSpecs = lazy(func() []columnSpec {
	var r []columnSpec
	for d := range spec.Dialects {
		for n := 3; n <= 12; n++ {
			for k := 0; k < 1500; k++ {
				r = append(r, columnSpec{d, n, k})
			}
		}
	}
	return r
})

func (c columnSpec) make(i int) *Case {
	d := spec.Dialects[c.d]
	g := spec.Grammars[d]
	e := rng(1, "", "enum-column", i)
	all := allCcs()[c.d]
	used := map[string]bool{}
	t := gen.Toks("CREATE", "TABLE", "t", "(", "d", "TEXT")
	var first []gen.Tok
	for tries, n := 0, 0; n < c.n && tries < 60; tries++ {
		x := all[e.Intn(len(all))]
		k := x[0].Text
		switch k {
		case "NOT":
			k = "NULL"
		case "KEY":
			k = "PRIMARY"
		case "AS":
			k = "GENERATED"
		}
		if used[k] {
			continue
		}
		used[k] = true
		if n == 0 {
			first = x
		}
		if e.Intn(4) == 0 {
			t = append(t, gen.Toks("CONSTRAINT", fmt.Sprintf("k%d", n))...)
		}
		t = append(t, x...)
		n++
	}
	if e.Intn(8) == 0 {
		t = append(t, first...) // again
	}
	t = append(t, [][]gen.Tok{nil, gen.Toks(",", "z", "TEXT", "NOT", "NULL"), gen.Toks(",", "UNIQUE", "(", "d", ")")}[i%3]...)
	t = append(t, gen.Toks(")", ";")...)
	if i%2 == 1 {
		t = gen.Lower(g, t)
	}
	return &Case{Rel: "diff", D: d, Tag: "column", Texts: []string{plain(d, t)}}
}

var allCcs = lazy(func() [][][]gen.Tok {
	var r [][][]gen.Tok
	for _, d := range spec.Dialects {
		r = append(r, gen.EnumRule(spec.Grammars[d], "cc", 300))
	}
	return r
})

// defLists: definitions of every kind: columns with one constraint or none, and
// table constraints.
var defLists = lazy(func() [][][]gen.Tok {
	var r [][][]gen.Tok
	for _, d := range spec.Dialects {
		g := spec.Grammars[d]
		l := [][]gen.Tok{gen.Toks("d1", "TEXT")}
		for i, c := range gen.EnumRule(g, "cc", 60) {
			x := gen.Toks(fmt.Sprintf("d%d", i+2), []string{"TEXT", "INTEGER", "NUMERIC"}[i%3])
			if i%5 == 4 {
				x = append(x, gen.Toks("CONSTRAINT", fmt.Sprintf("kc%d", i))...)
			}
			l = append(l, append(x, c...))
		}
		ts := gen.EnumRule(g, "tcon1", 400)
		step := max(1, len(ts)/48)
		for i := 0; i < len(ts); i += step {
			x := ts[i]
			if i/step%3 == 1 {
				x = append(gen.Toks("CONSTRAINT", fmt.Sprintf("kt%d", i)), x...)
			}
			l = append(l, x)
		}
		types := gen.EnumRule(g, "type", 600)
		for i := 0; i < len(types); i += max(1, len(types)/12) {
			l = append(l, append(gen.Toks(fmt.Sprintf("e%d", i)), types[i]...))
		}
		r = append(r, l)
	}
	return r
})

// enumDefs: every ordered pair of definitions, alone and between others.
var defPairs = pairList(defLists)

func pairList(l func() [][][]gen.Tok) func() []columnSpec {
	return lazy(func() []columnSpec {
		var r []columnSpec
		for d, x := range l() {
			for i := range x {
				for j := range x {
					r = append(r, columnSpec{d, i, j})
				}
			}
		}
		return r
	})
}

func defPairAt(i int) *Case {
	c := defPairs()[i]
	d := spec.Dialects[c.d]
	l := defLists()[c.d]
	t := gen.Toks("CREATE", "TABLE", "t", "(")
	switch i % 3 {
	case 0:
		t = append(t, gen.Toks("h", "TEXT", "UNIQUE", ",")...)
	case 1:
		t = append(t, gen.Toks("UNIQUE", "(", "d1", ")", ",")...)
	}
	t = append(t, l[c.n]...)
	t = append(t, gen.Toks(",")...)
	t = append(t, l[c.r]...)
	if i%2 == 0 {
		t = append(t, gen.Toks(",", "z", "INTEGER")...)
	}
	if i%7 == 0 {
		t = append(t, gen.Toks(",", "CHECK", "(", "z", ")")...)
	}
	t = append(t, gen.Toks(")", ";")...)
	if (c.n+c.r)%2 == 1 {
		t = gen.Lower(spec.Grammars[d], t)
	}
	return &Case{Rel: "diff", D: d, Tag: "defs", Texts: []string{plain(d, t)}}
}

// stmtLists: statements of every kind.
var stmtLists = lazy(func() [][][]gen.Tok {
	var r [][][]gen.Tok
	for di, d := range spec.Dialects {
		g := spec.Grammars[d]
		var l [][]gen.Tok
		add := func(head []gen.Tok, parts ...[]gen.Tok) {
			x := append([]gen.Tok(nil), head...)
			for _, p := range parts {
				x = append(x, p...)
			}
			l = append(l, x)
		}
		table := func(name ...string) []gen.Tok { return append(gen.Toks("CREATE", "TABLE"), gen.Toks(name...)...) }
		for i, x := range gen.EnumRule(g, "other", 200) {
			if i < 70 {
				add(gen.Toks("CREATE"), x)
			}
		}
		defs := defLists()[di]
		for i := 0; i < len(defs); i += max(1, len(defs)/24) {
			n := fmt.Sprintf("tb%d", i)
			switch i % 4 {
			case 0:
				add(table(n, "("), defs[i], gen.Toks(")", ";"))
			case 1:
				add(table("IF", "NOT", "EXISTS", n, "("), defs[i], gen.Toks(")", ";"))
			case 2:
				add(table("s1", ".", n, "("), defs[i], gen.Toks(",", "last", "TEXT", ")", ";"))
			case 3:
				add(table("IF", "NOT", "EXISTS", "s2", ".", n, "(", "d0", "TEXT", ","), defs[i], gen.Toks(")", ";"))
			}
		}
		opts := gen.EnumRule(g, "tabopt", 400)
		for i := 0; i < len(opts); i += max(1, len(opts)/16) {
			add(table(fmt.Sprintf("to%d", i), "(", "d", "TEXT", ")"), opts[i], gen.Toks(";"))
		}
		for _, b := range []string{"TRIGGER tr BEGIN x ; END ;", "TRIGGER tr BEGIN CASE WHEN x THEN y END ; END ;", "TRIGGER tr BEGIN BEGIN x ; END ; y ; END ;", "VIEW v as CREATE TABLE x ( y TEXT ) ;", "TRIGGER tr BEGIN IF x THEN y ; END IF ; END ;", "INDEX i on x ( y ) ;", "VIEW v as END ;", "VIEW v as 'x ; y' , \"BEGIN\" ;"} {
			add(gen.Toks("CREATE"), gen.Toks(strings.Fields(strings.ReplaceAll(b, "'x ; y'", "'x;y'"))...))
		}
		r = append(r, l)
	}
	return r
})

// enumStmts: every ordered pair of statements, before another one.
var stmtPairs = pairList(stmtLists)

func stmtPairAt(i int) *Case {
	c := stmtPairs()[i]
	d := spec.Dialects[c.d]
	l := stmtLists()[c.d]
	g := spec.Grammars[d]
	text := func(t []gen.Tok, k int) string {
		if k%2 == 1 {
			t = gen.Lower(g, t)
		}
		return plain(d, t) + []string{"\n", "", " ", "-- c\n", "/* ; */", "\n\n"}[k%6]
	}
	texts := []string{text(l[c.n], i), text(l[c.r], i/2)}
	if i%3 > 0 {
		texts = append(texts, text(l[(i*31+7)%len(l)], i/3))
	}
	if i%11 == 0 {
		texts = append(texts, "create table z (e text oops);\n")
	}
	if i%2 == 0 {
		return &Case{Rel: "concat", D: d, Texts: texts}
	}
	return &Case{Rel: "diff", D: d, Tag: "stmts", Texts: []string{strings.Join(texts, "")}}
}

// enumWraps: words that start and end with any two signs, in every position of
// a name, a type, digits and a default.
var enumWraps = listed(func() []Case {
	var r []Case
	signs := append(strings.Split("!#$%&*+-/:;<=>?@[\\]^_{|}~.,()'`\"09", ""), "")
	for _, d := range spec.Dialects {
		ps := append([]string{"create table t (x W);", "create table t (x text default W);", "create table t (x varchar(W));", "create table t (x text W);", "create W (x text);"}, namePositions[d]...)
		for _, p := range ps {
			for _, a := range signs {
				for _, b := range signs {
					for i, w := range []string{"x", "id1", "5", ""} {
						if i > 1 && a != b && !strings.Contains("[] {} <> () ", a+b+" ") {
							continue
						}
						r = append(r, Case{Rel: "diff", D: d, Texts: []string{strings.ReplaceAll(p, "W", a+w+b)}})
						if i == 1 {
							r = append(r, Case{Rel: "diff", D: d, Texts: []string{strings.ReplaceAll(p, "W", a+"x"+a+w+b)}})
						}
					}
				}
			}
		}
	}
	return r
})

// enumNumbers: signs, digits, fractions and exponents in all combinations, as a
// default, as digits of a type and in an expression.
var enumNumbers = listed(func() []Case {
	var r []Case
	for _, d := range spec.Dialects {
		for _, sign := range []string{"", "+", "-", "++", "+-", "-+", "- ", "+ ", "- -"} {
			for _, n := range []string{"", "0", "5", "12", "007", "1_0", "x"} {
				for _, f := range []string{"", ".", ".5", ".50", ".0", ".5.5", ".x", ". 5", " .5"} {
					for _, e := range []string{"", "e3", "E+3", "e-3", "e", "e+", "e3.5"} {
						w := sign + n + f + e
						if w == "" {
							continue
						}
						for _, p := range []string{"create table t (x text default W);", "create table t (x numeric(W), y text default W check (W) not null);", "create table t (x decimal(5, W));"} {
							r = append(r, Case{Rel: "diff", D: d, Texts: []string{strings.ReplaceAll(p, "W", w)}})
						}
					}
				}
			}
		}
	}
	return r
})
