package gen

import (
	"strings"

	"verifharness/spec"
)

// Enum lists sentences of a node systematically: all alternatives and all
// keywords, every optional part present and absent, repetitions of none, one
// and two. Products larger than limit are covered choice by choice (every
// choice of every part occurs, and neighbouring parts are paired off
// differently in each round) instead of completely.
func Enum(g *spec.Grammar, n *spec.Node, limit int) [][]Tok {
	e := &enum{g: g, limit: limit}
	return e.node(n, 0)
}

// EnumRule is Enum for a rule of the grammar.
func EnumRule(g *spec.Grammar, rule string, limit int) [][]Tok { return Enum(g, g.Rules[rule], limit) }

type enum struct {
	g     *spec.Grammar
	limit int
	names int
}

func tok1(s string) Tok {
	kind := spec.Word
	if spec.IsSymbol(s) {
		kind = spec.Symbol
	} else if strings.ContainsAny(s[:1], "'\"`") {
		kind = spec.Quoted
	}
	return Tok{s, kind}
}

func toks(s ...string) []Tok {
	var r []Tok
	for _, x := range s {
		r = append(r, tok1(x))
	}
	return r
}

func (e *enum) name() string {
	e.names++
	return []string{"n1", "name_a", "tbl", "Zed", "k9", "col_b"}[e.names%6]
}

func cat(a, b []Tok) []Tok { return append(append(make([]Tok, 0, len(a)+len(b)), a...), b...) }

func (e *enum) cross(a, b [][]Tok) [][]Tok {
	var r [][]Tok
	if len(a)*len(b) <= e.limit {
		for _, x := range a {
			for _, y := range b {
				r = append(r, cat(x, y))
			}
		}
		return r
	}
	n := e.limit
	if len(a) > n {
		n = len(a)
	}
	if len(b) > n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		r = append(r, cat(a[i%len(a)], b[(i+i/len(a))%len(b)]))
	}
	return r
}

func (e *enum) node(n *spec.Node, depth int) [][]Tok {
	switch n.Op {
	case spec.OpKw:
		var r [][]Tok
		for _, k := range n.Kws {
			r = append(r, toks(k))
		}
		return r
	case spec.OpName:
		r := [][]Tok{toks(e.name())}
		if e.names%3 == 0 {
			q := `"`
			if e.g.D == spec.MySQL {
				q = "`"
			}
			r = append(r, toks(q+"q "+e.name()+q))
		}
		return r
	case spec.OpStr:
		return [][]Tok{toks("'s t'")}
	case spec.OpNum:
		return [][]Tok{toks("12"), toks("0"), toks("-1.5")}
	case spec.OpPosInt:
		return [][]Tok{toks("7"), toks("255")}
	case spec.OpExpr:
		return [][]Tok{toks("(", "x", ")"), toks("(", "f", "(", "a", ",", "1", ")", "=", "')'", ")")}
	case spec.OpSkip:
		return [][]Tok{toks("v1", "as", "select", "(", "1", ")"), toks("tr", "on", "t1", "BEGIN", "x", ";", "y", ";", "END"), {}}
	case spec.OpEnd, spec.OpLook:
		return [][]Tok{{}}
	case spec.OpSeq:
		r := [][]Tok{{}}
		for _, k := range n.Kids {
			r = e.cross(r, e.node(k, depth))
		}
		return r
	case spec.OpAlt:
		var r [][]Tok
		for _, k := range n.Kids {
			r = append(r, e.node(k, depth)...)
		}
		return r
	case spec.OpOpt:
		return append([][]Tok{{}}, e.node(n.Kids[0], depth)...)
	case spec.OpMany:
		one := e.node(n.Kids[0], depth)
		r := append([][]Tok{{}}, one...)
		return append(r, e.cross(one, one)...)
	case spec.OpList:
		one := e.node(n.Kids[0], depth)
		var two [][]Tok
		for i, x := range one {
			two = append(two, cat(cat(x, toks(",")), one[(i+1)%len(one)]))
		}
		return append(one, two...)
	case spec.OpRef:
		return e.node(e.g.Rules[n.Ref], depth+1)
	case spec.OpUniq:
		return [][]Tok{{}}
	case spec.OpUnless, spec.OpElse:
		return e.node(n.Kids[0], depth)
	}
	return nil
}

// Lower writes all keywords of the tokens in lower case.
func Lower(g *spec.Grammar, t []Tok) []Tok {
	r := append([]Tok(nil), t...)
	for i := range r {
		if r[i].Kind == spec.Word && g.Vocab[r[i].Text] {
			r[i].Text = strings.ToLower(r[i].Text)
		}
	}
	return r
}

// Toks makes tokens of texts.
func Toks(s ...string) []Tok { return toks(s...) }
