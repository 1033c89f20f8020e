package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"verifharness/gen"
	"verifharness/spec"
)

// Env is what workloads draw from.
type Env struct {
	R    *rand.Rand
	I    int // index of the case within its workload
	Dict *gen.Dict
	Tier string
}

// Workload makes the case with the given index, or nothing.
type Workload func(e *Env) *Case

func (e *Env) dialect() spec.Dialect { return spec.Dialects[e.R.Intn(3)] }

func (e *Env) gen(d spec.Dialect, p gen.Profile) *gen.Gen {
	return gen.New(e.R, spec.Grammars[d], p, e.Dict)
}

func (e *Env) layout() int {
	return []int{gen.Plain, gen.Pretty, gen.Pretty, gen.Minimal, gen.Hostile, gen.Hostile, gen.CRLF, gen.Blank}[e.R.Intn(8)]
}

func (e *Env) profile() gen.Profile { return gen.DefaultProfile(e.R) }

func (e *Env) diff(d spec.Dialect, toks []gen.Tok, tag string) *Case {
	return &Case{Rel: "diff", D: d, Texts: []string{gen.Render(e.R, d, toks, e.layout())}, Tag: tag}
}

var workloads = map[string]Workload{
	// cost in proportion to the text
	"cost": costCase,
	// sentences of the grammar
	"valid": func(e *Env) *Case {
		d := e.dialect()
		return e.diff(d, e.gen(d, e.profile()).DDL(), "")
	},
	// one table, many columns of random types
	"types": func(e *Env) *Case {
		d := e.dialect()
		p := e.profile()
		p.POpt = 0.6
		g := e.gen(d, p)
		var defs [][]gen.Tok
		for n := 1 + e.R.Intn(8); n > 0; n-- {
			def := append([]gen.Tok{{Text: "c" + strconv.Itoa(n), Kind: spec.Word}}, g.Rule("type")...)
			if e.R.Intn(4) == 0 {
				def = append(def, g.Rule("ccs")...)
			}
			defs = append(defs, def)
		}
		return e.diff(d, g.Table(defs), "")
	},
	// columns with all sets and orders of constraints
	"constraints": func(e *Env) *Case {
		d := e.dialect()
		p := e.profile()
		p.POpt = []float64{0.5, 0.8, 0.95}[e.R.Intn(3)]
		g := e.gen(d, p)
		var defs [][]gen.Tok
		for n := 1 + e.R.Intn(4); n > 0; n-- {
			def := append([]gen.Tok{{Text: "c" + strconv.Itoa(n), Kind: spec.Word}}, g.Rule("type")...)
			defs = append(defs, append(def, g.Rule("ccs")...))
		}
		return e.diff(d, g.Table(defs), "")
	},
	// every default, alone and next to other constraints
	"defaults": func(e *Env) *Case {
		d := e.dialect()
		p := e.profile()
		p.PDict = 0.1
		g := e.gen(d, p)
		rule := "default"
		if d == spec.MySQL {
			rule = "mdefault"
		}
		var defs [][]gen.Tok
		for n := 1 + e.R.Intn(5); n > 0; n-- {
			def := append([]gen.Tok{{Text: "c" + strconv.Itoa(n), Kind: spec.Word}}, g.Rule("type")...)
			def = append(def, g.Around(rule, e.R.Intn(3), e.R.Intn(3))...)
			defs = append(defs, def)
		}
		return e.diff(d, g.Table(defs), "")
	},
	// expressions
	"exprs": func(e *Env) *Case {
		d := e.dialect()
		p := e.profile()
		p.ExprLen = []int{1, 4, 12, 40}[e.R.Intn(4)]
		p.PHostile = []float64{0.2, 0.9}[e.R.Intn(2)]
		p.PHuge = 0.05
		g := e.gen(d, p)
		var defs [][]gen.Tok
		for n := 1 + e.R.Intn(3); n > 0; n-- {
			kw := gen.Tok{Text: []string{"CHECK", "check", "DEFAULT", "default"}[e.R.Intn(4)], Kind: spec.Word}
			var def []gen.Tok
			if e.R.Intn(3) == 0 {
				if e.R.Intn(2) == 0 {
					def = append(def, g.Rule("cname")...)
				}
				def = append(def, gen.Tok{Text: "CHECK", Kind: spec.Word})
			} else {
				def = append(def, gen.Tok{Text: "c" + strconv.Itoa(n), Kind: spec.Word})
				def = append(def, g.Rule("type")...)
				def = append(def, kw)
			}
			def = append(def, g.Rule("expr")...)
			defs = append(defs, def)
		}
		return e.diff(d, g.Table(defs), "")
	},
	// table constraints between columns
	"tablecons": func(e *Env) *Case {
		d := e.dialect()
		p := e.profile()
		p.MaxList = 1 + e.R.Intn(6)
		p.PInv = []float64{0, 0.3, 0.7}[e.R.Intn(3)]
		g := e.gen(d, p)
		var defs [][]gen.Tok
		for n := 1 + e.R.Intn(8); n > 0; n-- {
			if e.R.Intn(3) == 0 {
				defs = append(defs, g.Rule("column"))
			} else {
				defs = append(defs, g.Rule("tcon"))
			}
		}
		return e.diff(d, g.Table(defs), "")
	},
	// references
	"refs": func(e *Env) *Case {
		d := e.dialect()
		p := e.profile()
		p.PInv = []float64{0.2, 0.5, 0.8}[e.R.Intn(3)]
		p.POpt = []float64{0.3, 0.7}[e.R.Intn(2)]
		g := e.gen(d, p)
		var defs [][]gen.Tok
		for n := 1 + e.R.Intn(5); n > 0; n-- {
			if e.R.Intn(3) == 0 {
				var def []gen.Tok
				if e.R.Intn(2) == 0 {
					def = g.Rule("cname")
				}
				defs = append(defs, append(def, g.Rule("tfk")...))
				continue
			}
			def := append([]gen.Tok{{Text: "c" + strconv.Itoa(n), Kind: spec.Word}}, g.Rule("type")...)
			def = append(def, g.Around("refs", e.R.Intn(3), e.R.Intn(3))...)
			defs = append(defs, def)
		}
		return e.diff(d, g.Table(defs), "")
	},
	// several statements of all kinds
	"statements": func(e *Env) *Case {
		d := e.dialect()
		p := e.profile()
		p.MaxStmts = 8
		p.MaxDefs = 2
		p.POther = 0.5
		return e.diff(d, e.gen(d, p).DDL(), "statements")
	},
	// everything optional that the result does not represent
	"options": func(e *Env) *Case {
		d := e.dialect()
		p := e.profile()
		p.PInv = 0.85
		p.POpt = 0.5
		return e.diff(d, e.gen(d, p).DDL(), "options")
	},
	"quotes": func(e *Env) *Case {
		d := e.dialect()
		p := e.profile()
		p.PQuoted, p.PHostile = 0.8, 0.9
		return e.diff(d, e.gen(d, p).DDL(), "quotes")
	},
	"layouts": func(e *Env) *Case {
		d := e.dialect()
		return &Case{Rel: "diff", D: d, Tag: "layouts",
			Texts: []string{gen.Render(e.R, d, e.gen(d, e.profile()).DDL(), []int{gen.Hostile, gen.Hostile, gen.Blank, gen.CRLF, gen.Minimal}[e.R.Intn(5)])}}
	},
	// sentences with a few tokens changed
	"mutated": func(e *Env) *Case {
		d := e.dialect()
		p := e.profile()
		p.MaxStmts = 2
		p.MaxDefs = 3
		g := e.gen(d, p)
		return e.diff(d, g.MutateTokens(g.DDL()), "")
	},
	// one small construct with a token changed
	"mutated-small": func(e *Env) *Case {
		d := e.dialect()
		p := e.profile()
		p.MaxList = 2
		p.ExprLen = 2
		g := e.gen(d, p)
		def := g.Rule([]string{"column", "tcon", "column", "def"}[e.R.Intn(4)])
		if e.R.Intn(3) > 0 {
			def = g.MutateTokens(def)
			return e.diff(d, g.Table([][]gen.Tok{{{Text: "y", Kind: spec.Word}, {Text: []string{"text", "TEXT"}[e.R.Intn(2)], Kind: spec.Word}}, def}), "")
		}
		return e.diff(d, g.MutateTokens(g.Table([][]gen.Tok{def})), "")
	},
	// table options with a token changed
	"mutated-options": func(e *Env) *Case {
		d := e.dialect()
		g := e.gen(d, e.profile())
		t := []gen.Tok{{Text: "CREATE"}, {Text: "TABLE"}, {Text: "t"}, {Text: "(", Kind: spec.Symbol}, {Text: "e"}, {Text: "TEXT"}, {Text: ")", Kind: spec.Symbol}}
		var o []gen.Tok
		for n := 1 + e.R.Intn(3); n > 0; n-- {
			o = append(o, g.Rule("tabopt")...)
			if e.R.Intn(5) == 0 {
				o = append(o, gen.Tok{Text: ",", Kind: spec.Symbol})
			}
		}
		if e.R.Intn(2) == 0 {
			o = g.MutateTokens(o)
		}
		t = append(append(t, o...), gen.Tok{Text: ";", Kind: spec.Symbol})
		return e.diff(d, t, "")
	},
	"soup": func(e *Env) *Case {
		d := e.dialect()
		g := e.gen(d, e.profile())
		t := g.Soup(e.R.Intn(25))
		if e.R.Intn(2) == 0 {
			t = append([]gen.Tok{{Text: "CREATE"}, {Text: "TABLE"}, {Text: "t"}, {Text: "(", Kind: spec.Symbol}}, t...)
		}
		return e.diff(d, t, "")
	},
	"text-mutated": func(e *Env) *Case {
		d := e.dialect()
		p := e.profile()
		p.MaxStmts = 2
		p.MaxDefs = 3
		g := e.gen(d, p)
		return &Case{Rel: "diff", D: d, Texts: []string{gen.MutateText(e.R, gen.Render(e.R, d, g.DDL(), e.layout()))}}
	},
	// texts cut off after a token or in the middle of one
	"truncated": func(e *Env) *Case {
		d := e.dialect()
		p := e.profile()
		p.MaxStmts = 2
		g := e.gen(d, p)
		t := g.DDL()
		if e.R.Intn(2) == 0 && len(t) > 0 {
			return e.diff(d, t[:e.R.Intn(len(t))], "")
		}
		s := []rune(gen.Render(e.R, d, t, e.layout()))
		return &Case{Rel: "diff", D: d, Texts: []string{string(s[:e.R.Intn(len(s)+1)])}}
	},
	// only that calls return and honour the contract
	"total": func(e *Env) *Case {
		d := e.dialect()
		p := e.profile()
		p.MaxStmts = 2
		g := e.gen(d, p)
		var s string
		switch e.R.Intn(8) {
		case 0:
			s = gen.Bytes(e.R)
		case 1:
			s = gen.MutateText(e.R, gen.Bytes(e.R)+gen.Render(e.R, d, g.DDL(), e.layout()))
		case 2:
			s = gen.Render(e.R, d, g.Soup(e.R.Intn(40)), e.layout())
		case 3:
			s = gen.Render(e.R, d, g.MutateTokens(g.MutateTokens(g.DDL())), e.layout())
		case 4:
			s = gen.MutateText(e.R, gen.MutateText(e.R, gen.Render(e.R, d, g.DDL(), e.layout())))
		case 5:
			t := g.MutateTokens(g.DDL())
			s = gen.Render(e.R, d, t[:e.R.Intn(len(t)+1)], e.layout())
		case 6:
			r := []rune(gen.Render(e.R, d, g.DDL(), e.layout()))
			s = string(r[:e.R.Intn(len(r)+1)])
		default:
			b := []byte(gen.Render(e.R, d, g.DDL(), e.layout()))
			for n := 1 + e.R.Intn(4); n > 0 && len(b) > 0; n-- {
				b[e.R.Intn(len(b))] = byte(e.R.Intn(256))
			}
			s = string(b)
		}
		if e.R.Intn(10) == 0 {
			s = decorate(e.R, s)
		}
		return &Case{Rel: "total", D: d, Texts: []string{s}}
	},
	// many bad statements in a row, long and deep inputs
	"total-large": func(e *Env) *Case {
		d := e.dialect()
		return &Case{Rel: "total", D: d, Texts: []string{largeText(e, d)}}
	},
	"good+bad": func(e *Env) *Case {
		d := e.dialect()
		p := e.profile()
		p.MaxDefs = 3
		g := e.gen(d, p)
		p.MaxStmts = 1
		var good, all []gen.Tok
		n := 1 + e.R.Intn(5)
		bad := e.R.Intn(n + 1)
		for i := 0; i <= n; i++ {
			gg := e.gen(d, p)
			t := withSemicolon(gg.DDL())
			if i == bad {
				t = g.MutateTokens(t)
			} else {
				good = append(good, t...)
			}
			all = append(all, t...)
		}
		l := e.layout()
		return &Case{Rel: "good+bad", D: d, Texts: []string{gen.Render(e.R, d, good, l), gen.Render(e.R, d, all, l)}}
	},
	"empty": func(e *Env) *Case {
		d := e.dialect()
		return &Case{Rel: "empty", D: d, Texts: []string{gen.Render(e.R, d, nil, []int{gen.Hostile, gen.Blank, gen.Pretty}[e.R.Intn(3)])}}
	},
	// ---- relations
	"layout-relation": func(e *Env) *Case {
		d := e.dialect()
		g := e.gen(d, e.profile())
		t := g.DDL()
		if e.R.Intn(4) == 0 {
			t = g.MutateTokens(t)
		}
		a := gen.Render(e.R, d, t, gen.Plain)
		if !gen.LexesTo(a, d, t) { // a mutation can make tokens that do not lex
			return nil
		}
		style := []int{gen.Hostile, gen.Hostile, gen.Hostile, gen.Blank, gen.CRLF, gen.Minimal, gen.Pretty}[e.R.Intn(7)]
		return &Case{Rel: "layout", D: d, Texts: []string{a, gen.Render(e.R, d, t, style)}}
	},
	// one special gap at one place
	"layout-one": func(e *Env) *Case {
		d := e.dialect()
		g := e.gen(d, e.profile())
		t := g.DDL()
		a := gen.Render(e.R, d, t, gen.Plain)
		if !gen.LexesTo(a, d, t) || len(t) == 0 {
			return nil
		}
		toks, _, _ := spec.Lex(a, d)
		k := e.R.Intn(len(toks) + 1)
		at := len(a)
		if k < len(toks) {
			at = toks[k].Start
		}
		var ins strings.Builder
		for n := 1 + e.R.Intn(3); n > 0; n-- {
			if e.R.Intn(3) == 0 {
				ins.WriteString([]string{"\n", "\r\n", "\t", "\r", "  ", "\n\n"}[e.R.Intn(6)])
			} else {
				ins.WriteString(gen.Comment(e.R, d))
			}
		}
		b := a[:at] + ins.String() + a[at:]
		if !gen.LexesTo(b, d, t) {
			return nil
		}
		return &Case{Rel: "layout", D: d, Texts: []string{a, b}}
	},
	"quoted-relation": func(e *Env) *Case {
		d := e.dialect()
		p := e.profile()
		p.PQuoted, p.PHostile = 0.5, 1
		g := e.gen(d, p)
		t := g.DDL()
		if e.R.Intn(6) == 0 {
			t = g.MutateTokens(t)
		}
		a := gen.Render(e.R, d, t, e.layout())
		if !gen.LexesTo(a, d, t) {
			return nil
		}
		return quotedOf(e.R, d, a, t)
	},
	"case-relation": func(e *Env) *Case {
		d := e.dialect()
		g := e.gen(d, e.profile())
		t := g.DDL()
		s := gen.Render(e.R, d, t, e.layout())
		return caseOf(e.R, d, s)
	},
	"concat": func(e *Env) *Case {
		d := e.dialect()
		p := e.profile()
		p.MaxStmts = 2
		p.MaxDefs = 3
		var parts []string
		n := 2 + e.R.Intn(4)
		bad := e.R.Intn(3) == 0
		for i := 0; i < n; i++ {
			g := e.gen(d, p)
			t := withSemicolon(g.DDL())
			if bad && e.R.Intn(n) == 0 {
				t = g.MutateTokens(t)
			}
			s := gen.Render(e.R, d, t, e.layout()) + "\n"
			if !gen.LexesTo(s, d, t) {
				return nil
			}
			if len(t) > 0 && t[len(t)-1].Text != ";" {
				return nil // does not end at a statement boundary
			}
			parts = append(parts, s)
		}
		return &Case{Rel: "concat", D: d, Texts: parts}
	},
	"entry": func(e *Env) *Case {
		d := e.dialect()
		p := e.profile()
		p.MaxStmts = 2
		p.MaxDefs = 3
		if e.R.Intn(2) == 0 {
			p.PQuoted, p.PInv = 0, 0 // more often accepted by several dialects
		}
		g := e.gen(d, p)
		t := g.DDL()
		if e.R.Intn(3) == 0 {
			t = g.MutateTokens(t)
		}
		s := gen.Render(e.R, d, t, e.layout())
		if e.R.Intn(10) == 0 {
			s = gen.MutateText(e.R, s)
		}
		if e.R.Intn(12) == 0 {
			s = decorate(e.R, s)
		}
		return &Case{Rel: "entry", D: d, Texts: []string{s}}
	},
	// read differently by dialects that accept it
	"ambiguous": func(e *Env) *Case {
		return &Case{Rel: "diff", D: e.dialect(), Tag: "ambiguous", Texts: []string{ambiguous(e.R)}}
	},
	"json": func(e *Env) *Case {
		d := e.dialect()
		p := e.profile()
		p.MaxDefs = 5
		return &Case{Rel: "json", D: d, Texts: []string{gen.Render(e.R, d, e.gen(d, p).DDL(), e.layout())}}
	},
	// texts of one dialect under another
	"cross": func(e *Env) *Case {
		d := e.dialect()
		to := spec.Dialects[(int(d)+1+e.R.Intn(2))%3]
		p := e.profile()
		p.MaxStmts = 2
		p.MaxDefs = 1 + e.R.Intn(3)
		p.POpt = []float64{0.1, 0.2, 0.4}[e.R.Intn(3)]
		p.PInv = []float64{0, 0.1, 0.3}[e.R.Intn(3)]
		t := e.gen(d, p).DDL()
		return &Case{Rel: "diff", D: to, Tag: "cross", Texts: []string{gen.Render(e.R, d, t, e.layout())}}
	},
	// a table of one dialect with a single clause or type of another
	"cross-clause": func(e *Env) *Case {
		d := e.dialect()
		o := spec.Dialects[(int(d)+1+e.R.Intn(2))%3]
		p := e.profile()
		p.MaxList, p.ExprLen = 2, 2
		g, h := e.gen(d, p), e.gen(o, p)
		def := []gen.Tok{{Text: "d", Kind: spec.Word}}
		if e.R.Intn(2) == 0 {
			def = append(def, h.Rule("type")...)
		} else {
			def = append(def, g.Rule("type")...)
		}
		switch e.R.Intn(4) {
		case 0:
			def = append(def, h.Rule("cc")...)
		case 1:
			def = append(def, g.Rule("ccs")...)
			def = append(def, h.Rule("cc")...)
		}
		defs := [][]gen.Tok{def}
		if e.R.Intn(3) == 0 {
			defs = append(defs, h.Rule("tcon"))
		}
		t := g.Table(defs)
		if e.R.Intn(3) == 0 {
			t = append(t[:len(t)-1], h.Rule("tabopt")...)
			t = append(t, gen.Tok{Text: ";", Kind: spec.Symbol})
		}
		if e.R.Intn(4) == 0 {
			t = append(t, h.Rule("stmt")...)
		}
		return &Case{Rel: "diff", D: d, Tag: "cross", Texts: []string{gen.Render(e.R, []spec.Dialect{d, o}[e.R.Intn(2)], t, e.layout())}}
	},
	"strip": stripCase,
	"size":  sizeCase,
	"again": func(e *Env) *Case {
		d := e.dialect()
		var ts []string
		for n := 2 + e.R.Intn(4); n > 0; n-- {
			g := e.gen(d, e.profile())
			t := g.DDL()
			if e.R.Intn(4) == 0 {
				t = g.MutateTokens(t)
			}
			ts = append(ts, gen.Render(e.R, d, t, e.layout()))
		}
		return &Case{Rel: "again", D: d, Texts: ts}
	},
}

func withSemicolon(t []gen.Tok) []gen.Tok {
	if len(t) > 0 && t[len(t)-1].Text != ";" {
		t = append(t, gen.Tok{Text: ";", Kind: spec.Symbol})
	}
	return t
}

// stripCase removes clauses that the result does not represent.
func stripCase(e *Env) *Case {
	d := e.dialect()
	p := e.profile()
	p.PInv = []float64{0.3, 0.6, 0.9}[e.R.Intn(3)]
	p.POther = 0.2
	return stripOf(e, d, gen.Render(e.R, d, e.gen(d, p).DDL(), e.layout()))
}

func stripOf(e *Env, d spec.Dialect, s string) *Case {
	gr := spec.Grammars[d]
	o := gr.Recognise(s, nil)
	if o.Tree == nil {
		return nil
	}
	drop := map[int]bool{}
	dropAll := func(t *spec.Tree) {
		for _, i := range t.Leaves() {
			drop[i] = true
		}
	}
	pr := []float64{0.3, 0.6, 1}[e.R.Intn(3)]
	var walk func(t *spec.Tree)
	walk = func(t *spec.Tree) {
		if t.N != nil && t.N.Inv {
			// each repetition on its own
			for _, k := range t.Kids {
				if e.R.Float64() < pr {
					dropAll(k)
				} else {
					walk(k)
				}
			}
			return
		}
		switch t.Rule {
		case "generated", "null", "comment", "colformat", "engattr", "storage", "attr":
			l := t.Leaves()
			if e.R.Float64() < pr && l[0] > 1 && !isConstraintName(o.Toks, l[0]) {
				dropAll(t)
				return
			}
		case "stmt":
			if t.First("other") != nil && e.R.Float64() < pr {
				dropAll(t)
				return
			}
		}
		if t.N != nil && t.N.Op == spec.OpList && t.N.Kids[0].Ref == "def" {
			kept := 0
			var defs [][2]*spec.Tree // definition, comma before it
			var comma *spec.Tree
			for _, k := range t.Kids {
				if k.Rule == "def" {
					defs = append(defs, [2]*spec.Tree{k, comma})
				} else {
					comma = k
				}
			}
			for i, x := range defs {
				inv := x[0].First("index") != nil || x[0].First("ftindex") != nil || x[0].First("texclude") != nil
				if inv && e.R.Float64() < pr && (kept > 0 || i < len(defs)-1) {
					dropAll(x[0])
					if x[1] != nil {
						dropAll(x[1])
					}
					continue
				}
				if kept == 0 && x[1] != nil {
					dropAll(x[1])
				}
				kept++
				walk(x[0])
			}
			return
		}
		for _, k := range t.Kids {
			walk(k)
		}
	}
	walk(o.Tree)
	if len(drop) == 0 {
		return nil
	}
	var u []gen.Tok
	for i, t := range o.Toks {
		if !drop[i] {
			u = append(u, gen.Tok{Text: t.Text, Kind: t.Kind})
		}
	}
	s2 := gen.Render(e.R, d, u, e.layout())
	// only where the specification itself says that nothing changes
	o2 := gr.Recognise(s2, nil)
	if o2.Err != nil || len(diffTables(o.Tables, o2.Tables)) > 0 {
		return nil
	}
	return &Case{Rel: "strip", D: d, Texts: []string{s, s2}}
}

func isConstraintName(toks []spec.Token, i int) bool {
	return spec.IsKw(toks[i-1].Text, "CONSTRAINT") || i > 1 && spec.IsKw(toks[i-2].Text, "CONSTRAINT")
}

// pickSize draws a size: around constants of the source, powers of two and of ten.
func pickSize(e *Env, max int) int {
	n := 0
	switch e.R.Intn(4) {
	case 0:
		if len(e.Dict.Ints) > 0 {
			n = e.Dict.Ints[e.R.Intn(len(e.Dict.Ints))]
		} else {
			n = 100
		}
	case 1:
		n = 1 << uint(e.R.Intn(18))
	case 2:
		n = []int{10, 20, 50, 60, 63, 64, 100, 127, 200, 255, 500, 999, 1000, 1023, 1024, 2000, 4095, 5000, 10000, 32767, 65535, 100000}[e.R.Intn(22)]
	default:
		n = 1 + e.R.Intn(max)
	}
	n += e.R.Intn(3) - 1
	if n < 1 {
		n = 1
	}
	if n > max {
		n = 1 + n%max
	}
	return n
}

// sizeCase scales one dimension of a small valid text.
func sizeCase(e *Env) *Case {
	d := e.dialect()
	p := e.profile()
	p.MaxDefs, p.MaxStmts = 3, 1
	p.PHuge = 0
	p.PQuoted, p.PHostile = 0.2, 0.2
	g := e.gen(d, p)
	big := 3000
	if e.Tier == "thorough" {
		big = 20000
	}
	w := func(s string) gen.Tok { return gen.Tok{Text: s, Kind: spec.Word} }
	y := func(s string) gen.Tok { return gen.Tok{Text: s, Kind: spec.Symbol} }
	names := func(n int) []gen.Tok {
		t := []gen.Tok{y("(")}
		for i := 0; i < n; i++ {
			if i > 0 {
				t = append(t, y(","))
			}
			t = append(t, w("k"+strconv.Itoa(i)))
		}
		return append(t, y(")"))
	}
	tail := g.Rule("column")
	var toks []gen.Tok
	style := e.layout()
	switch k := e.R.Intn(14); k {
	case 0: // columns
		n := pickSize(e, big)
		var defs [][]gen.Tok
		for i := 0; i < n; i++ {
			if i%17 == 3 || n < 50 {
				defs = append(defs, append([]gen.Tok{w("c" + strconv.Itoa(i))}, append(g.Rule("type"), g.Rule("ccs")...)...))
			} else {
				defs = append(defs, append([]gen.Tok{w("c" + strconv.Itoa(i))}, g.Rule("type")...))
			}
		}
		toks = g.Table(defs)
	case 1: // statements
		n := pickSize(e, big/2)
		for i := 0; i < n; i++ {
			if i%9 == 5 {
				toks = append(toks, g.Rule("stmt")...)
			} else {
				toks = append(toks, w("CREATE"), w("TABLE"), w("t"+strconv.Itoa(i)), y("("), w("a"+strconv.Itoa(i)), w("text"), y(")"), y(";"))
			}
		}
		toks = withSemicolon(toks)
	case 2: // table constraints
		n := pickSize(e, big/2)
		defs := [][]gen.Tok{tail}
		for i := 0; i < n; i++ {
			defs = append(defs, g.Rule("tcon"))
		}
		toks = g.Table(append(defs, tail))
	case 3: // names in lists
		n := pickSize(e, big)
		defs := [][]gen.Tok{tail, append([]gen.Tok{w("UNIQUE")}, names(n)...), append([]gen.Tok{w("PRIMARY"), w("KEY")}, names(1+e.R.Intn(n))...)}
		fk := append([]gen.Tok{w("FOREIGN"), w("KEY")}, names(1+e.R.Intn(n))...)
		fk = append(fk, w("REFERENCES"), w("par"))
		defs = append(defs, append(fk, names(n)...), tail)
		toks = g.Table(defs)
	case 4: // long names
		n := pickSize(e, big)
		nm := strings.Repeat("n", n)
		toks = g.Table([][]gen.Tok{{w(nm + "a"), w("TEXT"), w("CONSTRAINT"), w("c" + nm), w("REFERENCES"), w("r" + nm), y("("), w("x" + nm), y(")")},
			{w("CONSTRAINT"), w("q" + nm), w("UNIQUE"), y("("), w("z" + nm), y(",")}, nil, tail})
		toks = fixHoles(toks, w("y"+nm))
	case 5: // long strings and quoted names
		n := pickSize(e, big*5)
		bit := []string{"ab'", "x;", "日本", "-- ", "a\n", "(", "\\\\", " "}[e.R.Intn(8)]
		str := "'" + strings.ReplaceAll(strings.Repeat(bit, n/len(bit)+1), "'", "''") + "'"
		q := map[spec.Dialect]string{spec.SQLite: `"`, spec.PostgreSQL: `"`, spec.MySQL: "`"}[d]
		toks = g.Table([][]gen.Tok{{{Text: q + strings.Repeat("n ", n) + q, Kind: spec.Quoted}, w("TEXT"), w("DEFAULT"), {Text: str, Kind: spec.Quoted}}, tail})
	case 6: // long comments
		n := pickSize(e, big*5)
		c := "/*" + strings.Repeat([]string{"* ", "x\n", "'", "-- ", "日", "/"}[e.R.Intn(6)], n) + "*/"
		if e.R.Intn(2) == 0 {
			c = strings.Repeat("-- c\n", n)
		}
		s := gen.Render(e.R, d, g.Table([][]gen.Tok{tail}), gen.Plain)
		s2 := c + s + c + s
		if e.R.Intn(2) == 0 {
			s2 += "oops"
		}
		return &Case{Rel: "diff", D: d, Tag: "size", Texts: []string{s2}}
	case 7: // nesting depth
		n := pickSize(e, big*3)
		e1 := []gen.Tok{}
		for i := 0; i < n; i++ {
			e1 = append(e1, y("("))
		}
		e1 = append(e1, w("a"))
		for i := 0; i < n; i++ {
			e1 = append(e1, y(")"))
		}
		toks = g.Table([][]gen.Tok{append([]gen.Tok{w("e"), w("TEXT"), w("CHECK")}, e1...), append([]gen.Tok{w("b"), w("TEXT"), w("DEFAULT")}, e1...), tail})
		style = gen.Minimal
	case 8: // long expressions
		n := pickSize(e, big*2)
		p.ExprLen = n
		g2 := e.gen(d, p)
		toks = g2.Table([][]gen.Tok{append([]gen.Tok{w("e"), w("TEXT"), w("CHECK")}, g2.Rule("expr")...), tail, append([]gen.Tok{w("CHECK")}, g2.Rule("expr")...)})
	case 9: // many lines before an error
		n := pickSize(e, big*5)
		s := gen.Render(e.R, d, g.Table([][]gen.Tok{tail}), gen.Plain)
		return &Case{Rel: "diff", D: d, Tag: "size", Texts: []string{s + strings.Repeat([]string{"\n", "\r\n", "-- x\n", " \n"}[e.R.Intn(4)], n) + "create table t (e text x);"}}
	case 10: // skipped statements with large bodies
		n := pickSize(e, big)
		toks = append(toks, w("CREATE"), w("TRIGGER"), w("tr"), w("BEGIN"))
		for i := 0; i < n; i++ {
			toks = append(toks, w("SELECT"), w(strconv.Itoa(i)), y(";"))
		}
		toks = append(toks, w("END"), y(";"))
		toks = append(toks, g.Table([][]gen.Tok{tail})...)
	case 11: // wide white space
		n := pickSize(e, big*5)
		s := gen.Render(e.R, d, g.Table([][]gen.Tok{tail}), gen.Plain)
		return &Case{Rel: "diff", D: d, Tag: "size", Texts: []string{strings.Repeat([]string{" ", "\t", "\n", "\r\n"}[e.R.Intn(4)], n) + s}}
	case 12: // deep nesting of blocks
		n := pickSize(e, big)
		toks = append(toks, w("CREATE"), w("TRIGGER"), w("tr"))
		for i := 0; i < n; i++ {
			toks = append(toks, w("BEGIN"), w("x"), y(";"))
		}
		for i := 0; i < n; i++ {
			toks = append(toks, w("END"), y(";"))
		}
		toks = append(toks, g.Table([][]gen.Tok{tail})...)
	default: // digits and long numbers
		n := 1 + e.R.Intn(300)
		num := strings.Repeat("1234567890", n/10+1)[:n]
		toks = g.Table([][]gen.Tok{{w("e"), w("TEXT"), w("DEFAULT"), w(num + "." + num)}, {w("b"), w("TEXT"), w("DEFAULT"), w("-" + num)}, tail})
	}
	if len(toks) > 20000 && style == gen.Hostile {
		style = gen.Pretty
	}
	return &Case{Rel: "diff", D: d, Tag: "size", Texts: []string{gen.Render(e.R, d, toks, style)}}
}

func fixHoles(t []gen.Tok, fill gen.Tok) []gen.Tok {
	// the unfinished list of the "long names" case: ", <nothing> ,"
	var r []gen.Tok
	for i := 0; i < len(t); i++ {
		if t[i].Text == "," && i+2 < len(t) && t[i+1].Text == "," && t[i+2].Text == "," {
			r = append(r, t[i], fill, gen.Tok{Text: ")", Kind: spec.Symbol}, gen.Tok{Text: ",", Kind: spec.Symbol})
			i += 2
			continue
		}
		r = append(r, t[i])
	}
	return r
}

// largeText makes large hostile texts for the totality check.
func largeText(e *Env, d spec.Dialect) string {
	n := pickSize(e, 20000)
	if e.Tier == "thorough" {
		n = pickSize(e, 200000)
	}
	head := []string{"", "create table t (", "create table t (e text check", "create table t (e text default ", "create view v as ", "create table t (e text, primary key(",
		"create table t (e text) ", "create trigger x begin "}[e.R.Intn(8)]
	unit := []string{"(", ")", "()", "a text,", "a text check(", ",", ";", "'", "''", "\"", "`", "/*", "*/", "--", "-- \n", "\n", " ", "create ", "create table t(e text);", "begin ", "end ", "case ",
		"x ", "(x", "with(", "constraint c ", "default ", "not null ", "index i(a),", "key(", "unique ", "references t ", "on delete cascade ", "1.", "=", ".", "#", "\\", "日", "\u3000", "create view v as x;"}[e.R.Intn(41)]
	return head + strings.Repeat(unit, n) + []string{"", ");", ";", "end;"}[e.R.Intn(4)]
}

// decorate adds something odd at an end of the text, or at both.
func decorate(r *rand.Rand, s string) string {
	odd := []string{"\ufeff", "\ufffe", "\xef\xbb", "\xff", "\xfe\xff", "\x00", "\x1a", "\x04", "\u200b", "\u00a0", "\u0085", "\u2028", "\u3000", "\v", "\f", "\b", "\x1b[0m", ";", ";;", " ", "\n", "\r", "\r\n", "\t", "\\", "\\n",
		"#", "--", "/*", "*/", "'", "\"", "`", "GO", "\nGO\n", "delimiter //", "//", "$$", "x", "1", "(", ")", "<EOF>", "日", "%", "\n.", "/", "@", "BEGIN;", "COMMIT;", "end", "?", "BOM", "-- x", "# x\n", "/**/", "/*!*/", "<?xml?>", "{", "[", "\"\"", "''"}
	x := odd[r.Intn(len(odd))]
	if r.Intn(6) == 0 {
		x += odd[r.Intn(len(odd))]
	}
	switch r.Intn(3) {
	case 0:
		return s + x
	case 1:
		return x + s + x
	}
	return x + s
}

// quotedOf: a text, and the same with its quoted contents replaced by placeholders.
func quotedOf(r *rand.Rand, d spec.Dialect, a string, t []gen.Tok) *Case {
	sub := map[string]string{}
	u := append([]gen.Tok(nil), t...)
	for i, x := range u {
		if x.Kind == spec.Quoted {
			if len(x.Text) == 2 && i > 0 && spec.IsKw(u[i-1].Text, "CONSTRAINT") {
				return nil // an empty name is no name
			}
			ph := fmt.Sprintf("zq%dqz", i)
			sub[ph] = x.Text[1 : len(x.Text)-1]
			u[i].Text = x.Text[:1] + ph + x.Text[len(x.Text)-1:]
		}
	}
	if len(sub) == 0 {
		return nil
	}
	return &Case{Rel: "quoted", D: d, Texts: []string{a, gen.Render(r, d, u, gen.Plain)}, Subst: sub}
}

// caseOf: a text, and the same with its keywords in other cases.
func caseOf(r *rand.Rand, d spec.Dialect, s string) *Case {
	o := spec.Grammars[d].Recognise(s, nil)
	if o.Tree == nil {
		return nil
	}
	u := gen.FromSpec(o.Toks)
	mode := r.Intn(3)
	skipped := map[int]bool{}
	var walk func(x *spec.Tree)
	walk = func(x *spec.Tree) {
		if x.N != nil && x.N.Op == spec.OpSkip {
			for _, i := range x.Toks {
				skipped[i] = true
			}
		}
		if x.N != nil && x.N.Op == spec.OpKw {
			for _, i := range x.Toks {
				w := u[i].Text
				if mode == 0 || mode == 2 && r.Intn(2) == 0 {
					u[i].Text = strings.ToUpper(w)
				} else {
					u[i].Text = strings.ToLower(w)
				}
			}
		}
		for _, k := range x.Kids {
			walk(k)
		}
	}
	walk(o.Tree)
	for i, x := range u { // in bodies too
		if x.Kind == spec.Word && r.Intn(2) == 0 {
			switch strings.ToUpper(x.Text) {
			case "BEGIN", "END", "CASE", "IF", "LOOP", "WHILE", "REPEAT":
				if skipped[i] {
					if u[i].Text = strings.ToUpper(x.Text); r.Intn(2) == 0 {
						u[i].Text = strings.ToLower(x.Text)
					}
				}
			}
		}
	}
	return &Case{Rel: "case", D: d, Texts: []string{s, gen.Render(r, d, u, gen.Plain)}}
}

// ambiguous makes a text that SQLite and PostgreSQL read in one way and MySQL
// in another, though all of them accept it: a backslash before a closing quote
// or a # hides a part of it from one side.
func ambiguous(r *rand.Rand) string {
	pick := func(w ...string) string { return w[r.Intn(len(w))] }
	n := 0
	types := []string{"text", "integer", "NUMERIC", "real"}
	if r.Intn(3) == 0 { // SQLite does not know some of these
		types = append(types, "varchar(3)", "date", "int", "decimal(4,2)")
	}
	column := func() string {
		n++
		return fmt.Sprintf("%s%d %s%s", pick("x", "y", "id", "nm"), n, pick(types...), pick("", "", " not null", " unique", " primary key", " default 1", " default 'q'", " check (x1 = 2)", " references u (z)"))
	}
	some := func() string {
		s := ""
		for k := r.Intn(3); k > 0; k-- {
			s += ", " + column()
		}
		return s + pick("", "", ", unique (x1)", ", check (y)", ", foreign key (x1) references u (y)", ", primary key (x1, y)")
	}
	other := func() string {
		s := ""
		for k := r.Intn(4) * r.Intn(2); k >= 0; k-- {
			s += pick("", "", "create table o (e text);", "create view v as x;", "create table s.o (e integer, u real);", "create table p ("+column()+");")
		}
		return s
	}
	var s string
	if r.Intn(3) == 0 {
		s = other() + "\n"
	}
	if r.Intn(2) == 0 {
		// MySQL goes on in the string, and its text ends in a comment
		s += "create table " + pick("", "if not exists ") + pick("t", "s.t", "users") + " (" + pick("", column()+", ") + "x text default '" + pick("", "a", "it''s") + `\', y text` + some() + ", z text default ' " + some() + ") ; " + other() + pick("--", "#") + " ' " + some() + ") ;" + other()
	} else {
		s += "create table " + pick("", "if not exists ") + pick("t", "s.t", "users") + " (" + pick("", column()+", ") + "x text check (x " + pick("# ", "> 1 # ") + "'\n)" + some() + ") ; " + other() + "# ' )" + some() + ") ;" + other()
	}
	return s + pick("", "\n", "\n"+other())
}
