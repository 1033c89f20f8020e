package spec

import (
	_ "embed"
	"math"
	"regexp"
	"strconv"
	"strings"
)

// ---- grammar nodes ---------------------------------------------------------

// Op is the kind of a grammar node.
type Op int

const (
	OpKw     Op = iota // one of some keywords, in upper or lower case
	OpName             // a table, column, ... name
	OpStr              // a string literal
	OpNum              // a number
	OpPosInt           // a positive integer
	OpExpr             // ( ... ) with balanced brackets
	OpSkip             // the rest of a statement that is not converted, without its ;
	OpEnd              // end of input (consumes nothing)
	OpSeq
	OpAlt
	OpOpt
	OpMany
	OpList   // comma separated, at least one
	OpRef    // a named rule
	OpUniq   // constraints of a column: [Kids[0]] [Kids[1] ...] each kind at most once
	OpUnless // Kids[0], but only if the token after the next is none of Kws
	OpLook   // consumes nothing; the next token must be one of Kws
	OpElse   // Kids[0], but only if the next token is none of Kws
)

// Node is a node of a grammar.
type Node struct {
	Op    Op
	Kws   []string
	Kids  []*Node
	Ref   string
	Inv   bool              // the result does not represent this optional part
	Alias map[string]string // OpUniq: keyword -> kind
	W     []int             // OpAlt: weights for generation
	ID    int               // unique id for coverage
}

// K matches one of some keywords or symbols, Seq etc. combine nodes.
func K(kws ...string) *Node               { return &Node{Op: OpKw, Kws: kws} }
func Seq(n ...*Node) *Node                { return &Node{Op: OpSeq, Kids: n} }
func Alt(n ...*Node) *Node                { return &Node{Op: OpAlt, Kids: n} }
func Opt(n ...*Node) *Node                { return &Node{Op: OpOpt, Kids: []*Node{one(n)}} }
func Inv(n ...*Node) *Node                { return &Node{Op: OpOpt, Kids: []*Node{one(n)}, Inv: true} }
func Many(n ...*Node) *Node               { return &Node{Op: OpMany, Kids: []*Node{one(n)}} }
func InvMany(n ...*Node) *Node            { return &Node{Op: OpMany, Kids: []*Node{one(n)}, Inv: true} }
func List(n ...*Node) *Node               { return &Node{Op: OpList, Kids: []*Node{one(n)}} }
func R(name string) *Node                 { return &Node{Op: OpRef, Ref: name} }
func Unless(n *Node, kws ...string) *Node { return &Node{Op: OpUnless, Kids: []*Node{n}, Kws: kws} }
func Else(n *Node, kws ...string) *Node   { return &Node{Op: OpElse, Kids: []*Node{n}, Kws: kws} }
func Look(kws ...string) *Node            { return &Node{Op: OpLook, Kws: kws} }
func Prim(op Op) *Node                    { return &Node{Op: op} }
func Kseq(words string) *Node { // "SET NULL" -> Seq(K("SET"), K("NULL"))
	var ns []*Node
	for _, w := range strings.Fields(words) {
		ns = append(ns, K(w))
	}
	return one(ns)
}
func one(n []*Node) *Node {
	if len(n) == 1 {
		return n[0]
	}
	return Seq(n...)
}

// Grammar is the grammar of one dialect.
type Grammar struct {
	D        Dialect
	Rules    map[string]*Node
	Reserved map[string]bool
	Vocab    map[string]bool // all keywords (upper case) of the grammar
	Nodes    []*Node
}

// ---- parse trees -----------------------------------------------------------

// Tree is a parse tree: a leaf has a token, an inner node a grammar node.
type Tree struct {
	N    *Node
	Rule string // for OpRef
	Kids []*Tree
	Toks []int // leaves: token indices (OpExpr and OpSkip have several)
}

// Find returns all descendants for a rule, without descending into them.
func (t *Tree) Find(rule string) []*Tree {
	if t == nil {
		return nil
	}
	var r []*Tree
	for _, k := range t.Kids {
		if k.Rule == rule {
			r = append(r, k)
		} else {
			r = append(r, k.Find(rule)...)
		}
	}
	return r
}

// First is the first tree of Find, or nil.
func (t *Tree) First(rule string) *Tree {
	if r := t.Find(rule); len(r) > 0 {
		return r[0]
	}
	return nil
}

// Leaves returns the token indices below t, in order.
func (t *Tree) Leaves() []int {
	if t == nil {
		return nil
	}
	r := append([]int(nil), t.Toks...)
	for _, k := range t.Kids {
		r = append(r, k.Leaves()...)
	}
	return r
}

// ---- token classes ---------------------------------------------------------

// IsKw reports whether a token is the given keyword, in upper or lower case.
func IsKw(text, kw string) bool { return text == kw || text == strings.ToLower(kw) }

var nameRe = regexp.MustCompile(`^[a-zA-Z_][a-zA-Z0-9_]*$`)

// IsQuotedName reports whether a quoted token is a name in the dialect.
func IsQuotedName(t string, d Dialect) bool {
	switch d {
	case SQLite:
		return t[0] == '"' || t[0] == '`'
	case MySQL:
		return t[0] == '`'
	}
	return t[0] == '"'
}

// IsString reports whether a quoted token is a string in the dialect.
func IsString(t string, d Dialect) bool {
	return t[0] == '\'' || (d == MySQL && t[0] == '"')
}

func (g *Grammar) isName(t Token) bool {
	if t.Kind == Quoted {
		return IsQuotedName(t.Text, g.D)
	}
	return t.Kind == Word && nameRe.MatchString(t.Text) && !g.Reserved[strings.ToUpper(t.Text)]
}

// Number returns the value of a number token.
func Number(t Token) (float64, bool) {
	if t.Kind != Word {
		return 0, false
	}
	f, err := strconv.ParseFloat(t.Text, 64)
	return f, err == nil && !math.IsNaN(f) && !math.IsInf(f, 0)
}

func posInt(t Token) (int, bool) {
	n, err := strconv.Atoi(t.Text)
	return n, err == nil && n > 0 && t.Kind == Word
}

// ---- parser ----------------------------------------------------------------

type status int

const (
	ok      status = iota
	noMatch        // nothing consumed
	failed         // committed, and failed at p.errPos
)

// Parser recognises a token list.
type Parser struct {
	G      *Grammar
	T      []Token
	errPos int
	Cover  map[int]int // node id -> how often matched
}

func (p *Parser) kw(pos int, kws []string) bool {
	if pos >= len(p.T) || p.T[pos].Kind == Quoted {
		return false
	}
	for _, k := range kws {
		if IsKw(p.T[pos].Text, k) {
			return true
		}
	}
	return false
}

func (p *Parser) leaf(n *Node, pos, cnt int) (*Tree, int, status) {
	t := &Tree{N: n, Toks: make([]int, cnt)}
	for i := range t.Toks {
		t.Toks[i] = pos + i
	}
	p.hit(n)
	return t, pos + cnt, ok
}

func (p *Parser) hit(n *Node) {
	if p.Cover != nil {
		p.Cover[n.ID]++
	}
}

func (p *Parser) fail(pos int) (*Tree, int, status) {
	p.errPos = pos
	return nil, pos, failed
}

func (p *Parser) parse(n *Node, pos int) (*Tree, int, status) {
	none := func() (*Tree, int, status) { return nil, pos, noMatch }
	has := pos < len(p.T)
	switch n.Op {
	case OpKw:
		if p.kw(pos, n.Kws) {
			return p.leaf(n, pos, 1)
		}
		return none()
	case OpName:
		if has && p.G.isName(p.T[pos]) {
			return p.leaf(n, pos, 1)
		}
		return none()
	case OpStr:
		if has && p.T[pos].Kind == Quoted && IsString(p.T[pos].Text, p.G.D) {
			return p.leaf(n, pos, 1)
		}
		return none()
	case OpNum:
		if has {
			if _, yes := Number(p.T[pos]); yes {
				return p.leaf(n, pos, 1)
			}
		}
		return none()
	case OpPosInt:
		if has {
			if _, yes := posInt(p.T[pos]); yes {
				return p.leaf(n, pos, 1)
			}
		}
		return none()
	case OpExpr:
		if !p.kw(pos, []string{"("}) {
			return none()
		}
		depth := 0
		for q := pos; q < len(p.T); q++ {
			if p.kw(q, []string{"("}) {
				depth++
			} else if p.kw(q, []string{")"}) {
				if depth--; depth == 0 {
					return p.leaf(n, pos, q+1-pos)
				}
			}
		}
		return p.fail(len(p.T))
	case OpSkip:
		return p.skip(n, pos)
	case OpEnd:
		if has {
			return none()
		}
		return p.leaf(n, pos, 0)
	case OpSeq:
		t := &Tree{N: n}
		q := pos
		for _, k := range n.Kids {
			kt, r, st := p.parse(k, q)
			switch st {
			case failed:
				return nil, r, failed
			case noMatch:
				if q > pos {
					return p.fail(q)
				}
				return none()
			}
			t.Kids = append(t.Kids, kt)
			q = r
		}
		p.hit(n)
		return t, q, ok
	case OpAlt:
		for _, k := range n.Kids {
			kt, r, st := p.parse(k, pos)
			if st == failed {
				return nil, r, failed
			}
			if st == ok {
				p.hit(n)
				return &Tree{N: n, Kids: []*Tree{kt}}, r, ok
			}
		}
		return none()
	case OpOpt:
		kt, r, st := p.parse(n.Kids[0], pos)
		switch st {
		case failed:
			return nil, r, failed
		case noMatch:
			return &Tree{N: n}, pos, ok
		}
		p.hit(n)
		return &Tree{N: n, Kids: []*Tree{kt}}, r, ok
	case OpMany:
		t := &Tree{N: n}
		q := pos
		for {
			kt, r, st := p.parse(n.Kids[0], q)
			if st == failed {
				return nil, r, failed
			}
			if st == noMatch || r == q {
				return t, q, ok
			}
			p.hit(n)
			t.Kids = append(t.Kids, kt)
			q = r
		}
	case OpList:
		t := &Tree{N: n}
		q := pos
		for {
			kt, r, st := p.parse(n.Kids[0], q)
			if st == failed {
				return nil, r, failed
			}
			if st == noMatch {
				if q == pos {
					return none()
				}
				return p.fail(q)
			}
			t.Kids = append(t.Kids, kt)
			q = r
			if !p.kw(q, []string{","}) {
				p.hit(n)
				return t, q, ok
			}
			t.Kids = append(t.Kids, &Tree{N: comma, Toks: []int{q}})
			q++
		}
	case OpRef:
		kt, r, st := p.parse(p.G.Rules[n.Ref], pos)
		if st != ok {
			return nil, r, st
		}
		p.hit(n)
		return &Tree{N: n, Rule: n.Ref, Kids: []*Tree{kt}}, r, ok
	case OpUniq:
		t := &Tree{N: n}
		q := pos
		seen := map[string]bool{}
		for {
			kt, r, st := p.parse(n.Kids[0], q)
			if st == failed {
				return nil, r, failed
			}
			if st == ok && r > q {
				t.Kids = append(t.Kids, kt)
				q = r
			}
			if q < len(p.T) && p.T[q].Kind == Word {
				if seen[n.kindOf(p.T[q].Text)] {
					return t, q, ok // a repeated constraint is not part of the column
				}
			}
			kt, r, st = p.parse(n.Kids[1], q)
			if st == failed {
				return nil, r, failed
			}
			if st == noMatch {
				return t, q, ok
			}
			p.hit(n)
			seen[n.kindOf(p.T[q].Text)] = true
			t.Kids = append(t.Kids, kt)
			q = r
		}
	case OpUnless:
		if p.kw(pos+1, n.Kws) {
			return none()
		}
		return p.parse(n.Kids[0], pos)
	case OpLook:
		if !p.kw(pos, n.Kws) {
			return none()
		}
		return p.leaf(n, pos, 0)
	case OpElse:
		if p.kw(pos, n.Kws) {
			return none()
		}
		return p.parse(n.Kids[0], pos)
	}
	panic("op")
}

var comma = K(",")

func (n *Node) kindOf(tok string) string {
	u := strings.ToUpper(tok)
	if tok != u && tok != strings.ToLower(tok) {
		return "?"
	}
	if a, is := n.Alias[u]; is {
		return a
	}
	return u
}

// skip matches the rest of a statement up to, not including, its semicolon.
// Semicolons inside BEGIN ... END belong to the statement. Blocks nest; CASE
// inside a block is closed by END or END CASE, while END IF, END LOOP, END
// WHILE and END REPEAT close statements whose start is not a BEGIN.
func (p *Parser) skip(n *Node, pos int) (*Tree, int, status) {
	depth := 0
	is := func(q int, kws ...string) bool { return p.kw(q, kws) }
	q := pos
	for ; q < len(p.T); q++ {
		if depth == 0 {
			if is(q, ";") {
				return p.leaf(n, pos, q-pos)
			}
			if is(q, "BEGIN") {
				depth = 1
			}
			continue
		}
		switch {
		case is(q, "BEGIN", "CASE"):
			depth++
		case is(q, "END"):
			if is(q+1, "IF", "LOOP", "WHILE", "REPEAT") {
				q++
			} else {
				depth--
				if is(q+1, "CASE") {
					q++
				}
			}
		}
	}
	return p.fail(len(p.T))
}

// ---- entry -----------------------------------------------------------------

// Outcome is what the specification says about a text.
type Outcome struct {
	Tables []Table
	Err    *Err // nil if accepted
	LexErr bool
	Toks   []Token
	Tree   *Tree
}

// Recognise predicts the outcome of parsing s.
func (g *Grammar) Recognise(s string, cover map[int]int) *Outcome {
	toks, endLine, lerr := Lex(s, g.D)
	if lerr != nil {
		return &Outcome{Err: lerr, LexErr: true}
	}
	p := &Parser{G: g, T: toks, Cover: cover}
	t, q, st := p.parse(g.Rules["ddl"], 0)
	o := &Outcome{Toks: toks}
	if st == ok && q == len(toks) {
		o.Tree = t
		o.Tables = Interpret(t, toks, g.D)
		return o
	}
	if st == failed {
		q = p.errPos
	}
	if q < len(toks) {
		o.Err = &Err{toks[q].Line, toks[q].Text}
	} else {
		o.Err = &Err{endLine, EOFNear}
	}
	return o
}

// MixedCase reports whether some unquoted word is a keyword of the grammar in
// mixed case, about which the specification says nothing.
func (g *Grammar) MixedCase(toks []Token) bool {
	for _, t := range toks {
		if t.Kind == Word {
			u := strings.ToUpper(t.Text)
			if t.Text != u && t.Text != strings.ToLower(t.Text) && g.Vocab[u] {
				return true
			}
		}
	}
	return false
}

func (g *Grammar) finish() *Grammar {
	g.Vocab = map[string]bool{}
	seen := map[*Node]bool{}
	var walk func(n *Node)
	walk = func(n *Node) {
		if seen[n] {
			return
		}
		seen[n] = true
		n.ID = len(g.Nodes)
		g.Nodes = append(g.Nodes, n)
		for _, k := range n.Kws {
			if !IsSymbol(k) {
				g.Vocab[k] = true
			}
		}
		for _, k := range n.Kids {
			walk(k)
		}
		if n.Op == OpRef {
			r, is := g.Rules[n.Ref]
			if !is {
				panic("no rule " + n.Ref)
			}
			walk(r)
		}
	}
	walk(g.Rules["ddl"])
	for _, w := range []string{"BEGIN", "END", "CASE", "IF", "LOOP", "WHILE", "REPEAT"} {
		g.Vocab[w] = true
	}
	return g
}

//go:embed data/reserved_sqlite.txt
var reservedSQLite string

//go:embed data/reserved_postgresql.txt
var reservedPostgreSQL string

//go:embed data/reserved_mysql.txt
var reservedMySQL string

func words(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(s) {
		m[w] = true
	}
	return m
}
