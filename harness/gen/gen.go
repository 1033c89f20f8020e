// Package gen makes workloads: sentences of the grammars in package spec with
// hostile names, strings, numbers and expressions, layouts around them, and
// mutations of them. Every choice comes from the given random source.
package gen

import (
	"math/rand"
	"strconv"
	"strings"

	"verifharness/spec"
)

// Dict holds literals found in the source of the code under test. They only
// bias the workload (as a fuzzing dictionary does), never the verdict.
type Dict struct {
	Strings []string
	Ints    []int
}

// Tok is a generated token.
type Tok struct {
	Text string
	Kind int // spec.Word, Symbol, Quoted
}

// Profile tunes the generator.
type Profile struct {
	POpt     float64 // probability of an optional part
	PInv     float64 // probability of an optional part that the result does not represent
	MaxStmts int
	MaxDefs  int
	MaxList  int
	PQuoted  float64 // probability that a name is quoted
	PHostile float64 // probability that quoted content is hostile
	POther   float64 // probability of a statement other than CREATE TABLE
	Case     int     // 0 random per keyword, 1 upper, 2 lower, 3 random per text
	ExprLen  int
	PHuge    float64 // probability of an unusually large size somewhere
	Huge     int     // how large
	PDict    float64
}

// DefaultProfile draws a profile.
func DefaultProfile(r *rand.Rand) Profile {
	p := Profile{
		POpt: []float64{0.1, 0.3, 0.5, 0.8}[r.Intn(4)], PInv: []float64{0, 0.1, 0.3, 0.6}[r.Intn(4)],
		MaxStmts: 1 + r.Intn(3), MaxDefs: 1 + r.Intn(7), MaxList: 1 + r.Intn(4),
		PQuoted: []float64{0, 0.1, 0.3, 0.7}[r.Intn(4)], PHostile: []float64{0, 0.3, 0.8}[r.Intn(3)],
		POther: []float64{0, 0.15, 0.4}[r.Intn(3)], Case: r.Intn(4), ExprLen: 1 + r.Intn(8), PDict: 0.05,
		PHuge: 0.002, Huge: 300,
	}
	return p
}

// Gen generates tokens.
type Gen struct {
	R    *rand.Rand
	G    *spec.Grammar
	P    Profile
	Dict *Dict
	out  []Tok
	up   bool
	look []string // keywords the next alternative must start with
}

// New returns a generator.
func New(r *rand.Rand, g *spec.Grammar, p Profile, d *Dict) *Gen {
	if d == nil {
		d = &Dict{}
	}
	return &Gen{R: r, G: g, P: p, Dict: d, up: r.Intn(2) == 0}
}

func (g *Gen) chance(p float64) bool { return g.R.Float64() < p }

func (g *Gen) pick(ss []string) string { return ss[g.R.Intn(len(ss))] }

func (g *Gen) emit(text string) {
	kind := spec.Word
	if spec.IsSymbol(text) {
		kind = spec.Symbol
	} else if strings.ContainsAny(text[:1], "'\"`") {
		kind = spec.Quoted
	}
	g.out = append(g.out, Tok{text, kind})
}

func (g *Gen) kw(k string) {
	switch g.P.Case {
	case 1:
	case 2:
		k = strings.ToLower(k)
	case 3:
		if !g.up {
			k = strings.ToLower(k)
		}
	default:
		if g.R.Intn(2) == 0 {
			k = strings.ToLower(k)
		}
	}
	g.emit(k)
}

// count draws a list length: mostly small, sometimes at a dictionary constant,
// rarely huge.
func (g *Gen) count(max int) int {
	if g.chance(g.P.PHuge) {
		if len(g.Dict.Ints) > 0 && g.R.Intn(2) == 0 {
			if n := g.Dict.Ints[g.R.Intn(len(g.Dict.Ints))] + g.R.Intn(3) - 1; n > 0 && n <= 4*g.P.Huge {
				return n
			}
		}
		return 1 + g.R.Intn(g.P.Huge)
	}
	return 1 + g.R.Intn(max)
}

// DDL generates a whole text.
func (g *Gen) DDL() []Tok {
	g.out = nil
	n := g.count(g.P.MaxStmts)
	for i := 0; i < n; i++ {
		g.Stmt()
	}
	// SQLite: the last semicolon is optional
	if g.G.D == spec.SQLite && n > 0 && g.R.Intn(6) == 0 {
		if l := len(g.out); g.out[l-1].Text == ";" {
			g.out = g.out[:l-1]
		}
	}
	return g.out
}

// Stmt appends one statement.
func (g *Gen) Stmt() { g.node(g.G.Rules["stmt"]) }

// Rule returns the tokens of one rule.
func (g *Gen) Rule(name string) []Tok {
	save := g.out
	g.out = nil
	g.node(g.G.Rules[name])
	r := g.out
	g.out = save
	return r
}

// Table generates one CREATE TABLE statement around the given definitions.
func (g *Gen) Table(defs [][]Tok) []Tok {
	save := g.out
	g.out = nil
	g.kw("CREATE")
	g.kw("TABLE")
	if g.chance(g.P.POpt) {
		g.node(g.G.Rules["ifne"])
	}
	g.node(g.G.Rules["tname"])
	g.emit("(")
	for i, d := range defs {
		if i > 0 {
			g.emit(",")
		}
		g.out = append(g.out, d...)
	}
	g.emit(")")
	if g.chance(g.P.PInv) {
		g.node(g.G.Rules["tabopt"])
	}
	g.emit(";")
	r := g.out
	g.out = save
	return r
}

func (g *Gen) node(n *spec.Node) {
	switch n.Op {
	case spec.OpKw:
		g.kw(n.Kws[g.R.Intn(len(n.Kws))])
	case spec.OpName:
		g.emit(g.Name())
	case spec.OpStr:
		g.emit(g.Str())
	case spec.OpNum:
		g.emit(g.Num())
	case spec.OpPosInt:
		g.emit(g.PosInt())
	case spec.OpExpr:
		g.Expr()
	case spec.OpSkip:
		g.Skip()
	case spec.OpEnd, spec.OpLook:
	case spec.OpSeq:
		for i, k := range n.Kids {
			if i+1 < len(n.Kids) && n.Kids[i+1].Op == spec.OpAlt {
				_ = k
			}
			g.node(k)
		}
	case spec.OpAlt:
		g.alt(n)
	case spec.OpOpt:
		p := g.P.POpt
		if n.Inv {
			p = g.P.PInv
		}
		if g.chance(p) {
			g.node(n.Kids[0])
		}
	case spec.OpMany:
		p := g.P.POpt
		if n.Inv {
			p = g.P.PInv
		}
		for i := 0; i < 12 && g.chance(p); i++ {
			g.node(n.Kids[0])
		}
	case spec.OpList:
		max := g.P.MaxList
		if n.Kids[0].Ref == "def" {
			max = g.P.MaxDefs
		}
		c := g.count(max)
		for i := 0; i < c; i++ {
			if i > 0 {
				g.emit(",")
			}
			g.node(n.Kids[0])
		}
	case spec.OpRef:
		g.node(g.G.Rules[n.Ref])
	case spec.OpUniq:
		g.uniq(n)
	case spec.OpUnless, spec.OpElse:
		g.node(n.Kids[0])
	}
}

func (g *Gen) alt(n *spec.Node) {
	kids := n.Kids
	switch {
	case kids[0].Ref == "table" && len(kids) == 2:
		if g.chance(g.P.POther) {
			g.node(kids[1])
		} else {
			g.node(kids[0])
		}
		return
	case kids[0].Ref == "tcon" && len(kids) == 2: // def
		if g.R.Intn(3) == 0 {
			g.node(kids[0])
		} else {
			g.node(kids[1])
		}
		return
	case kids[len(kids)-1].Op == spec.OpEnd:
		g.node(kids[0])
		return
	case kids[len(kids)-1].Op == spec.OpLook:
		// CONSTRAINT without a name: only sometimes right here, the
		// recogniser decides
		if g.R.Intn(5) > 0 {
			g.node(kids[0])
		}
		return
	}
	// long keyword sets count by their number of keywords
	w := make([]int, len(kids))
	sum := 0
	for i, k := range kids {
		w[i] = 2
		if k.Op == spec.OpKw {
			w[i] = 1 + len(k.Kws)
		}
		sum += w[i]
	}
	x := g.R.Intn(sum)
	for i := range kids {
		if x -= w[i]; x < 0 {
			g.node(kids[i])
			return
		}
	}
}

// uniq generates the constraints of a column: a random subset in random order.
func (g *Gen) uniq(n *spec.Node) {
	alts := g.G.Rules["cc"].Kids
	cnt := 0
	for cnt < len(alts)+2 && g.chance(0.25+0.6*g.P.POpt) {
		cnt++
	}
	seen := map[string]bool{}
	for _, i := range g.R.Perm(len(alts)) {
		if cnt == 0 {
			break
		}
		k := alts[i]
		start := len(g.out)
		if g.chance(g.P.POpt * 0.4) {
			g.node(n.Kids[0].Kids[0])
		}
		mid := len(g.out)
		g.node(k)
		u := strings.ToUpper(g.out[mid].Text)
		if a, is := n.Alias[u]; is {
			u = a
		}
		if seen[u] {
			g.out = g.out[:start]
			continue
		}
		seen[u] = true
		cnt--
	}
	if g.chance(0.01) {
		g.node(n.Kids[0].Kids[0]) // CONSTRAINT name without a constraint
	}
}

// Around generates column constraints, one of them of the given rule with so
// many others before and after it, none twice.
func (g *Gen) Around(rule string, pre, post int) []Tok {
	n := g.G.Rules["ccs"]
	one := func(k *spec.Node) ([]Tok, string) {
		save := g.out
		g.out = nil
		if g.chance(g.P.POpt * 0.4) {
			g.node(n.Kids[0].Kids[0])
		}
		mid := len(g.out)
		g.node(k)
		r := g.out
		g.out = save
		u := strings.ToUpper(r[mid].Text)
		if a, is := n.Alias[u]; is {
			u = a
		}
		return r, u
	}
	t, u := one(g.G.Rules[rule])
	seen := map[string]bool{u: true}
	alts := g.G.Rules["cc"].Kids
	for try := 0; pre+post > 0 && try < 12; try++ {
		x, u := one(alts[g.R.Intn(len(alts))])
		if seen[u] {
			continue
		}
		seen[u] = true
		if pre > 0 {
			t = append(x, t...)
			pre--
		} else {
			t = append(t, x...)
			post--
		}
	}
	return t
}

// ---- leaves ----------------------------------------------------------------

var commonNames = strings.Fields(`id name users user_id email password created_at updated_at t a b c1 c2 x y z price qty orders items
 title body status kind flag note amount total code memo val v1 tbl parent child author_id Zz_9 camelCase PascalCase _ _x __ x1y2z3 A1 naïve`)

var trickyNames = strings.Fields(`primary_key primarykey not_null checks check_ uniq unique1 create_ created tables table1 constraint_1
 foreign_key references_ refs default_ defaults autoincrement_ auto_increment1 null_ nulls truely falsey current_ts collate_ generated_
 ifx if_ exists1 not1 asx index_a keyx keyed fulltext1 exclude1 begin1 end_ cases ends beginning intx varchar2 texts bit1 time_zone
 e1 E5 nan inf infinity NaN Inf eof EOF e x0 0x _1 _0 l1 I O0`)

// Name generates a name token.
func (g *Gen) Name() string {
	if g.chance(g.P.PQuoted) {
		q := `"`
		switch g.G.D {
		case spec.MySQL:
			q = "`"
		case spec.SQLite:
			if g.R.Intn(2) == 0 {
				q = "`"
			}
		}
		return g.Quote(q, g.chance(g.P.PHostile))
	}
	for try := 0; try < 20; try++ {
		s := g.bareName()
		if !nameOK(s) || g.G.Reserved[strings.ToUpper(s)] {
			continue
		}
		u := strings.ToUpper(s)
		if g.G.Vocab[u] {
			if s != u && s != strings.ToLower(s) {
				continue // mixed case keyword: unspecified
			}
			if g.R.Intn(8) > 0 {
				continue // an unreserved keyword as a name: legal only in some places
			}
		}
		return s
	}
	return "nm" + strconv.Itoa(g.R.Intn(1000))
}

func nameOK(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return true
}

func (g *Gen) bareName() string {
	if g.chance(g.P.PDict) && len(g.Dict.Strings) > 0 {
		s := g.pick(g.Dict.Strings)
		switch g.R.Intn(4) {
		case 0:
			s = strings.ToLower(s)
		case 1:
			s += "_" + strconv.Itoa(g.R.Intn(3))
		case 2:
			s = "x" + s
		}
		return s
	}
	switch g.R.Intn(10) {
	case 0, 1, 2, 3:
		return g.pick(commonNames)
	case 4, 5:
		return g.pick(trickyNames)
	case 6:
		return g.otherWord()
	default:
		n := g.count(12)
		b := make([]byte, n)
		const cs = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"
		for i := range b {
			if i == 0 {
				b[i] = cs[g.R.Intn(53)]
			} else {
				b[i] = cs[g.R.Intn(len(cs))]
			}
		}
		return string(b)
	}
}

// AllWords are the keywords and reserved words of all dialects.
var AllWords = func() []string {
	var r []string
	seen := map[string]bool{}
	for _, d := range spec.Dialects {
		g := spec.Grammars[d]
		for _, m := range []map[string]bool{g.Vocab, g.Reserved} {
			for w := range m {
				if !seen[w] {
					seen[w] = true
					r = append(r, w)
				}
			}
		}
	}
	sortStrings(r)
	return r
}()

func (g *Gen) otherWord() string {
	w := g.pick(AllWords)
	if g.R.Intn(2) == 0 {
		w = strings.ToLower(w)
	}
	return w
}

var hostileBits = []string{"--", "/*", "*/", "/* x */", "#", ";", ")", "(", "((", "))", ",", "\n", "\r\n", "\n\n", "\t", " ", "  ",
	"create table", "CREATE TABLE z (", "NOT NULL", "primary key", "begin", "END", "default 1", "\u3000", "日本語", "😀", "é", "e\u0301", "\u00a0", "\u200b",
	"<EOF>", "%s%d", "\\n", "=", ".", "a.b", "'", "\"", "`", "''", "\"\"", "``", "-", "/", "*", "--\n", "x", "id", "0", "1.5", "$$", "$1", "[", "]", "\x00", "\x01", "\x7f",
	"NULL", "true", "CONSTRAINT", "check(", "//", "***/", "\ufffe", "𝒳", "ǅ", "ß", "İ", "ſ", "K"}

// Quote generates a quoted token.
func (g *Gen) Quote(q string, hostile bool) string {
	var b strings.Builder
	if !hostile {
		switch g.R.Intn(6) {
		case 0:
			b.WriteString(g.pick(commonNames))
		case 4, 5:
			b.WriteString(strings.ReplaceAll(g.content(), q, q+q))
		case 1:
			b.WriteString(g.otherWord()) // reserved words are fine in quotes
		case 2:
			b.WriteString(g.pick(commonNames) + " " + g.pick(commonNames))
		default:
			b.WriteString(g.bareName())
		}
	} else {
		n := g.R.Intn(5)
		if g.chance(g.P.PHuge) {
			n = g.count(10)
		}
		for i := 0; i < n; i++ {
			bit := g.pick(hostileBits)
			if len(g.Dict.Strings) > 0 && g.R.Intn(12) == 0 {
				bit = g.pick(g.Dict.Strings)
			}
			if g.R.Intn(5) == 0 {
				bit = g.pick(commonNames)
			}
			b.WriteString(strings.ReplaceAll(bit, q, q+q))
			if g.G.D == spec.MySQL && q != "`" && g.R.Intn(6) == 0 {
				b.WriteString(g.pick([]string{`\\`, `\'`, `\"`, `\n`, "\\\n", `\0`, "\\`", `\\\\`, `\日`}))
			} else if g.R.Intn(12) == 0 {
				b.WriteString(`\`)
			}
		}
	}
	s := q + b.String() + q
	if toks, _, err := spec.Lex(s, g.G.D); err != nil || len(toks) != 1 || toks[0].Text != s {
		// e.g. a trailing backslash or half of a doubled quote
		s = q + strings.ReplaceAll(strings.ReplaceAll(b.String(), `\`, "_"), q, q+q) + q
		if toks, _, err := spec.Lex(s, g.G.D); err != nil || len(toks) != 1 || toks[0].Text != s {
			return q + "plain" + q
		}
	}
	return s
}

var contents = strings.Split(`true|TRUE|false|null|NULL|Null|CURRENT_TIMESTAMP|current_date|now()|NaN|Inf|-inf|+Infinity|0x1F|1_000|1e5|.5|5.|-|+|--|1,2|1.2.3|(1)|()|2024-01-31|2024-01-31 23:59:59|23:59:59.123+09:00|{}|[]|{"a": [1, null]}|http://example.com/x?y=1&z=2#f|a@b.c|C:\\x|/usr/bin|50%|100 %|%|_|*|**|?|:x|$1|@x|!|~|^|<>|<=|a=b|a;b|a,b|a.b|a.b.c|a b|a-b|a/b|a\b|a+b|it's|"x"|'x'|x''y| x|x | x |  ||tab	x|0|1|-1|+1|00|007|1.0|-0.5|1e400|-1e-400|e9d1c5a0-0000-4000-8000-1234567890ab|日本語|ｘ|ÀÉ|Ω|0日|PRIMARY KEY|not null|create table|id|ID|Id|default|yes|no|on|off|Y|N|t|f`, "|")

// content is what people write between quotes.
func (g *Gen) content() string {
	switch g.R.Intn(8) {
	case 0:
		return g.Num()
	case 1:
		return string(rune(' ' + g.R.Intn(95)))
	case 2:
		return g.pick(contents) + g.pick(contents)
	}
	return g.pick(contents)
}

// Str generates a string literal.
func (g *Gen) Str() string {
	q := "'"
	if g.G.D == spec.MySQL && g.R.Intn(3) == 0 {
		q = `"`
	}
	return g.Quote(q, g.chance(0.2+g.P.PHostile))
}

// Num generates a number.
func (g *Gen) Num() string {
	if g.chance(g.P.PDict*2) && len(g.Dict.Ints) > 0 {
		return strconv.Itoa(g.Dict.Ints[g.R.Intn(len(g.Dict.Ints))] + g.R.Intn(3) - 1)
	}
	sign := g.pick([]string{"", "", "", "-", "+"})
	digits := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + g.R.Intn(10))
		}
		return string(b)
	}
	switch g.R.Intn(12) {
	case 0:
		return g.pick([]string{"0", "-0", "+0", "00", "0.0", "-0.0", "1", "-1", "0.5", "007", "1e0", "0e5", "1E5", "0.1", "2.50"})
	case 1:
		return sign + digits(1+g.R.Intn(6)) + "." + digits(1+g.R.Intn(6))
	case 2:
		return sign + digits(1+g.R.Intn(3)) + g.pick([]string{"e", "E"}) + g.pick([]string{"", "+", "-"}) + strconv.Itoa(g.R.Intn(40))
	case 3:
		return sign + digits(1+g.R.Intn(3)) + "." + digits(1+g.R.Intn(3)) + g.pick([]string{"e", "E"}) + g.pick([]string{"", "+", "-"}) + strconv.Itoa(g.R.Intn(300))
	case 4:
		return sign + digits(15+g.R.Intn(30))
	case 5:
		return sign + digits(1+g.R.Intn(25)) + "." + digits(1+g.R.Intn(25))
	case 6:
		return g.pick([]string{"2147483647", "-2147483648", "2147483648", "4294967296", "9007199254740993", "9223372036854775807", "9223372036854775808",
			"-9223372036854775809", "18446744073709551616", "1.7976931348623157e308", "4.9e-324", "255", "256", "65536", "32768", "1000000", "1e21", "1e-7"})
	case 7:
		return sign + "0" + strconv.Itoa(g.R.Intn(1000)) + g.pick([]string{"", "", ".5", "e1"})
	default:
		return sign + strconv.Itoa(g.R.Intn(1000))
	}
}

// PosInt generates a positive integer.
func (g *Gen) PosInt() string {
	if g.chance(g.P.PDict*2) && len(g.Dict.Ints) > 0 {
		if n := g.Dict.Ints[g.R.Intn(len(g.Dict.Ints))] + g.R.Intn(3) - 1; n > 0 {
			return strconv.Itoa(n)
		}
	}
	switch g.R.Intn(8) {
	case 0:
		return g.pick([]string{"1", "2", "9", "10", "38", "53", "64", "65", "127", "128", "255", "256", "999", "1000", "4000", "65535", "65536", "16777215",
			"2147483647", "2147483648", "4294967295", "9223372036854775807", "007", "+7", "+255", "0001", "100", "99"})
	case 1:
		switch g.R.Intn(4) {
		case 0:
			return strings.Repeat("0", 1+g.R.Intn(3)) + strconv.Itoa(1+g.R.Intn(300))
		case 1:
			return strconv.Itoa(1 + g.R.Intn(100000))
		}
		return "0" + strconv.Itoa(8+g.R.Intn(100))
	default:
		return strconv.Itoa(1 + g.R.Intn(300))
	}
}

var operators = []string{"<", ">", "=", "<>", "!=", "+", "-", "*", "/", "%", "||", "::", "~", "&", "|", "^", "!", "@>", "->", "->>", "?", ":", "[", "]", "{", "}", "$1", "@x"}

// Expr emits a bracketed expression.
func (g *Gen) Expr() {
	g.emit("(")
	g.exprBody(g.count(g.P.ExprLen), 0)
	g.emit(")")
}

func (g *Gen) exprBody(n, depth int) {
	if g.R.Intn(40) == 0 {
		return // empty brackets
	}
	for i := 0; i < n; i++ {
		switch g.R.Intn(16) {
		case 0, 1, 2:
			g.emit(g.pick(commonNames))
		case 3:
			g.emit(g.Num())
		case 4:
			g.emit(g.Str())
		case 5:
			if g.G.D == spec.PostgreSQL || g.R.Intn(2) == 0 {
				g.emit(g.Quote(`"`, g.chance(g.P.PHostile)))
			} else {
				g.emit(g.Quote("`", g.chance(g.P.PHostile)))
			}
		case 6, 7:
			g.emit(g.pick(operators))
		case 8:
			g.emit(g.pick([]string{",", ".", ";", "=", ","}))
		case 9, 10:
			g.emit(g.otherWord())
		case 11, 12:
			if depth < 6 {
				if g.R.Intn(2) == 0 {
					g.emit(g.pick([]string{"length", "lower", "f", "IN", "coalesce", "DATETIME"}))
				}
				d := 1
				if g.chance(g.P.PHuge) {
					d = g.count(3)
				}
				for j := 0; j < d; j++ {
					g.emit("(")
				}
				g.exprBody(g.R.Intn(4), depth+1)
				for j := 0; j < d; j++ {
					g.emit(")")
				}
			}
		case 13:
			g.emit(g.pick(trickyNames))
		case 14:
			g.emit(g.pick([]string{"AND", "or", "NOT", "is", "NULL", "between", "LIKE", "in", "CASE", "end"}))
		default:
			if len(g.Dict.Strings) > 0 && g.R.Intn(3) == 0 {
				g.emit(wordOr(g.pick(g.Dict.Strings), "dict"))
			} else {
				g.emit(g.pick([]string{"日本", "ünï", "a+b", "x*2", "a/b", "n%2", "!x", "a<b", "µ", "x::int", "@", "~", "1a", "a1", "-x"}))
			}
		}
	}
}

func wordOr(s, alt string) string {
	for _, d := range spec.Dialects {
		toks, _, err := spec.Lex(s, d)
		if err != nil || len(toks) != 1 || toks[0].Text != s || toks[0].Kind == spec.Quoted {
			return alt
		}
	}
	return s
}

// Skip emits the rest of a statement that is not converted.
func (g *Gen) Skip() {
	w := func(s string) {
		for _, x := range strings.Fields(s) {
			if g.R.Intn(2) == 0 {
				x = strings.ToLower(x)
			}
			g.emit(x)
		}
	}
	switch g.R.Intn(8) {
	case 0:
		g.emit(g.pick(commonNames))
		w("ON")
		g.emit(g.pick(commonNames))
		g.Expr()
	case 1:
		g.emit(g.pick(commonNames))
		w("AS SELECT * FROM t WHERE a")
		g.emit("=")
		g.emit(g.Str())
	case 2, 3:
		g.emit(g.pick(commonNames))
		w("AFTER INSERT ON t FOR EACH ROW")
		g.block(0)
	case 4:
		w("TABLE t") // looks like a table, e.g. CREATE VIRTUAL TABLE, CREATE FOREIGN TABLE
		g.Expr()
	case 5:
		g.emit(g.Name())
		w("CREATE TABLE q")
		g.emit("(")
		w("id INTEGER")
		g.emit(")")
	case 6:
		// nothing or a single word
		if g.R.Intn(2) == 0 {
			g.emit(g.Name())
		}
	default:
		n := g.count(8)
		for i := 0; i < n; i++ {
			switch g.R.Intn(6) {
			case 0:
				g.emit(g.Str())
			case 1:
				g.emit(g.pick([]string{"(", ")", ",", ".", "="}))
			case 2:
				x := g.otherWord()
				switch strings.ToUpper(x) {
				case "BEGIN":
					x = "x"
				}
				g.emit(x)
			default:
				g.emit(g.pick(commonNames))
			}
		}
	}
}

func (g *Gen) block(depth int) {
	w := func(s string) {
		for _, x := range strings.Fields(s) {
			if x == ";" {
				g.emit(";")
				continue
			}
			if g.R.Intn(2) == 0 {
				x = strings.ToLower(x)
			}
			g.emit(x)
		}
	}
	w("BEGIN")
	n := g.R.Intn(4)
	for i := 0; i < n; i++ {
		switch g.R.Intn(9) {
		case 0:
			w("UPDATE t SET a")
			g.emit("=")
			w("CASE WHEN x THEN 1 ELSE 2 END ;")
		case 1:
			w("INSERT INTO t VALUES")
			g.Expr()
			w(";")
		case 2:
			w("CREATE TABLE inner_t")
			g.emit("(")
			w("id INTEGER")
			g.emit(")")
			w(";")
		case 3:
			if g.G.D == spec.MySQL {
				w("IF a THEN SET x")
				g.emit("=")
				w("1 ; END IF ;")
			} else {
				w("SELECT 1 ;")
			}
		case 4:
			if g.G.D == spec.MySQL {
				w("WHILE x DO SET y")
				g.emit("=")
				w("2 ; END WHILE ;")
			} else {
				w("DELETE FROM t ;")
			}
		case 5:
			if g.G.D == spec.MySQL {
				w("CASE x WHEN 1 THEN SELECT 1 ; END CASE ;")
			}
		case 6:
			if depth < 3 {
				g.block(depth + 1)
				w(";")
			}
		case 7:
			w("SELECT")
			g.emit(g.Str())
			w(";")
		default:
			w("LOOP_ x ;")
		}
	}
	w("END")
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}
