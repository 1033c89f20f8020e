package main

import (
	"math/rand"
	"strings"

	"verifharness/gen"
	"verifharness/spec"
)

// derive makes, of a text of the general workloads and lists, a case of the
// relation that the property is about, so that every text of them is observed
// under every relation. What cannot be derived from stays as it is.
func derive(c *Case, prop string, e *Env) *Case {
	if c != nil && c.Tag == "letters" && prop != "C16" && prop != "ALL" {
		return nil // letters that only fold to A to Z are C16's business
	}
	if c != nil && c.Rel == "case" && prop != "C14" {
		t := c.Texts[e.R.Intn(2)]
		if a, b, is := strings.Cut(t, "; create table"); is && prop == "C18" && c.Tag == "bodies" {
			return &Case{Rel: "concat", D: c.D, Texts: []string{a + ";\n", "create table" + b}}
		}
		c = &Case{Rel: "diff", D: c.D, Texts: []string{t}, Tag: c.Tag}
	}
	if c == nil || c.Rel != "diff" {
		return c
	}
	if len(c.Texts[0]) > 100000 {
		if (prop == "C19" || prop == "C02") && len(c.Texts[0]) < 1<<20 {
			return &Case{Rel: "entry", D: c.D, Texts: c.Texts, Tag: c.Tag}
		}
		return c
	}
	s, r := c.Texts[0], e.R
	or := func(x *Case) *Case {
		if x == nil {
			return c
		}
		return x
	}
	switch prop {
	case "C01":
		if r.Intn(4) == 0 {
			return &Case{Rel: "total", D: c.D, Texts: []string{s}, Tag: c.Tag}
		}
	case "C02":
		if r.Intn(8) == 0 || c.Tag == "size" && r.Intn(2) == 0 {
			return &Case{Rel: "entry", D: c.D, Texts: []string{s}, Tag: c.Tag}
		}
		if r.Intn(3) == 0 {
			a := goodStatement(r, c.D)
			b := goodStatement(r, c.D)
			return &Case{Rel: "good+bad", D: c.D, Texts: []string{a + b, a + s + "\n" + b}}
		}
	case "C03":
		return &Case{Rel: "history", D: c.D, Texts: []string{s}, Tag: c.Tag}
	case "C12":
		return or(layoutOf(r, c.D, s))
	case "C13":
		if strings.ContainsAny(s, "'\"`") {
			if t, _, err := spec.Lex(s, c.D); err == nil {
				return or(quotedOf(r, c.D, s, gen.FromSpec(t)))
			}
		}
	case "C14":
		return or(caseOf(r, c.D, s))
	case "C18":
		return or(concatOf(r, c.D, s))
	case "C19":
		if r.Intn(3) == 0 || c.Tag == "ambiguous" || c.Tag == "size" {
			if r.Intn(16) == 0 {
				s = decorate(r, s)
			}
			return &Case{Rel: "entry", D: c.D, Texts: []string{s}}
		}
	case "C20":
		if o := spec.Grammars[c.D].Recognise(s, nil); o.Tree != nil {
			return or(stripOf(e, c.D, s))
		}
	case "C21":
		return &Case{Rel: "json", D: c.D, Texts: c.Texts, Tag: c.Tag}
	case "C22":
		if c.Tag != "cross" && r.Intn(3) == 0 {
			return &Case{Rel: "diff", D: spec.Dialects[(int(c.D)+1+r.Intn(2))%3], Texts: c.Texts, Tag: "cross"}
		}
	}
	return c
}

func goodStatement(r *rand.Rand, d spec.Dialect) string {
	return []string{"create table h (e text);\n", "CREATE TABLE s.g2 (e TEXT NOT NULL, b INTEGER, UNIQUE(e, b));\n", "create view v as x;\n", "create table if not exists g3 (y integer primary key, u text default 'x' check (u));",
		"create trigger r begin x; end;\n", "create table g4 (e text, foreign key (e) references h (e)); -- c\n", "/* c */ create index i on h (e);\n", ""}[r.Intn(8)]
}

// layoutOf: the tokens of a text in a plain and in another layout.
func layoutOf(r *rand.Rand, d spec.Dialect, s string) *Case {
	toks, _, err := spec.Lex(s, d)
	if err != nil || len(toks) == 0 || !spec.Specified(s, d) {
		return nil
	}
	t := gen.FromSpec(toks)
	a := gen.Render(r, d, t, gen.Plain)
	if r.Intn(2) == 0 {
		a = s
	}
	b := gen.Render(r, d, t, []int{gen.Hostile, gen.Hostile, gen.Hostile, gen.Blank, gen.CRLF, gen.Minimal, gen.Pretty}[r.Intn(7)])
	if !gen.LexesTo(a, d, t) || !gen.LexesTo(b, d, t) {
		return nil
	}
	return &Case{Rel: "layout", D: d, Texts: []string{a, b}}
}

// shortParts: last parts that are hardly statements, most of them rejected.
var shortParts = []string{";", "; ;", ";\n", "\n;", "-- c\n;", ")", "(", ",", ".", "=", "x", "create", "create ;", "create table", "create table ;", "create table t", "create table t (", "create table t (x text", "create table t (x text)", "create view", "create view v", "create trigger t begin x;",
	"/* c */", "-- c", "", " ", "\n", "'", "\"", "`", "/*", "*/", "\u3000", "begin", "end", "end;", "commit;", "drop table t;", "insert", "'x';", "\"x\";", "1", "1;", "<EOF>", "\ufeff", "\x00", "#", "# c\n;"}

// concatOf: a text together with other statements. It counts as ending at a
// statement boundary if its last token is a semicolon.
func concatOf(r *rand.Rand, d spec.Dialect, s string) *Case {
	toks, _, err := spec.Lex(s+"\n", d)
	if err != nil || len(toks) == 0 || toks[len(toks)-1].Text != ";" {
		return nil
	}
	glued := false
	if strings.HasSuffix(s, ";") && r.Intn(2) == 0 {
		if t, _, err := spec.Lex(s[:len(s)-1], d); err == nil && len(t) == len(toks)-1 {
			glued = true // its semicolon is the last character
		}
	}
	if !glued {
		s += "\n"
	}
	x, y := goodStatement(r, d), goodStatement(r, d)
	switch r.Intn(6) {
	case 5:
		t := []string{s, shortParts[r.Intn(len(shortParts))]}
		if r.Intn(2) == 0 {
			t = []string{x, s, shortParts[r.Intn(len(shortParts))]}
		}
		return &Case{Rel: "concat", D: d, Texts: t}
	case 0:
		return &Case{Rel: "concat", D: d, Texts: []string{s, x}}
	case 1:
		return &Case{Rel: "concat", D: d, Texts: []string{x, s, y}}
	case 2:
		return &Case{Rel: "concat", D: d, Texts: []string{s, s}}
	case 3:
		return &Case{Rel: "concat", D: d, Texts: []string{s, x, y, s}}
	}
	return &Case{Rel: "concat", D: d, Texts: []string{x, s}}
}
