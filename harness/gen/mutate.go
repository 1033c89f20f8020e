package gen

import (
	"math/rand"
	"strings"

	"verifharness/spec"
)

// MutateTokens changes a few tokens: most results are outside the grammar.
func (g *Gen) MutateTokens(in []Tok) []Tok {
	t := append([]Tok(nil), in...)
	r := g.R
	word := func() Tok {
		switch r.Intn(9) {
		case 0:
			return g.tok(g.otherWord())
		case 1:
			return g.tok(g.pick([]string{"(", ")", ",", ";", ".", "="}))
		case 2:
			return g.tok(g.Name())
		case 3:
			return g.tok(g.Str())
		case 4:
			return g.tok(g.pick([]string{"0", "-1", "1.5", "+3", "12", "1e3", "007", "010", "08", "0x10", "0b1", "0o7", "1_0", "0_8", "0.0", "99999999999999999999"}))
		case 5:
			return g.tok(g.Quote(g.pick([]string{`"`, "'", "`"}), false))
		case 6:
			return g.tok(g.pick([]string{"日本", "1abc", "a-b", "@x", "$1", "<EOF>", "x!", "-", "/", "*", "[", "<", "a+b", "%"}))
		default:
			w := g.vocabWord()
			return g.tok(w)
		}
	}
	for n := 1 + r.Intn(2); n > 0; n-- {
		if len(t) == 0 {
			t = append(t, word())
			continue
		}
		i := r.Intn(len(t))
		switch r.Intn(13) {
		case 9: // a list element or an operand more
			x := []Tok{g.tok(g.pick([]string{",", ",", ",", ".", "=", "-", "("})), word()}
			if r.Intn(2) == 0 {
				x[0], x[1] = x[1], x[0]
			}
			t = append(t[:i:i], append(x, t[i:]...)...)
		case 10, 11: // some phrase of the grammar
			p := g.phrase()
			if r.Intn(3) == 0 {
				p = append([]Tok{g.tok(",")}, p...)
			}
			t = append(t[:i:i], append(p, t[i:]...)...)
		case 12: // move or delete a piece
			j := min(i+1+r.Intn(5), len(t))
			p := append([]Tok(nil), t[i:j]...)
			t = append(t[:i:i], t[j:]...)
			if r.Intn(2) == 0 {
				k := r.Intn(len(t) + 1)
				t = append(t[:k:k], append(p, t[k:]...)...)
			}
		case 0, 1: // delete
			t = append(t[:i], t[i+1:]...)
		case 2: // duplicate
			t = append(t[:i], append([]Tok{t[i]}, t[i:]...)...)
		case 3: // swap
			if i+1 < len(t) {
				t[i], t[i+1] = t[i+1], t[i]
			}
		case 4, 5: // replace
			t[i] = word()
		case 6: // insert
			t = append(t[:i], append([]Tok{word()}, t[i:]...)...)
		case 7: // truncate
			t = t[:i]
		case 8: // copy a piece elsewhere
			j := i + 1 + r.Intn(4)
			if j > len(t) {
				j = len(t)
			}
			p := append([]Tok(nil), t[i:j]...)
			k := r.Intn(len(t) + 1)
			t = append(t[:k:k], append(p, t[k:]...)...)
		}
	}
	return t
}

// phrase derives some rule of the grammar.
func (g *Gen) phrase() []Tok {
	rs := ruleNames[g.G.D]
	p := g.Rule(rs[g.R.Intn(len(rs))])
	if len(p) > 12 {
		p = p[:12]
	}
	return p
}

var ruleNames = func() map[spec.Dialect][]string {
	m := map[spec.Dialect][]string{}
	for _, d := range spec.Dialects {
		var l []string
		for n := range spec.Grammars[d].Rules {
			switch n {
			case "ddl", "stmt", "other":
			default:
				l = append(l, n)
			}
		}
		sortStrings(l)
		m[d] = l
	}
	return m
}()

func (g *Gen) tok(s string) Tok {
	kind := spec.Word
	if spec.IsSymbol(s) {
		kind = spec.Symbol
	} else if strings.ContainsAny(s[:1], "'\"`") {
		kind = spec.Quoted
	}
	return Tok{s, kind}
}

var vocabLists = func() map[spec.Dialect][]string {
	m := map[spec.Dialect][]string{}
	for _, d := range spec.Dialects {
		var l []string
		for w := range spec.Grammars[d].Vocab {
			l = append(l, w)
		}
		sortStrings(l)
		m[d] = l
	}
	return m
}()

// Vocab returns the keywords of the dialect in order.
func Vocab(d spec.Dialect) []string { return vocabLists[d] }

func (g *Gen) vocabWord() string {
	w := g.pick(vocabLists[g.G.D])
	if g.R.Intn(2) == 0 {
		w = strings.ToLower(w)
	}
	return w
}

// Soup generates a token sequence without regard to the grammar.
func (g *Gen) Soup(n int) []Tok {
	g.out = nil
	for i := 0; i < n; i++ {
		switch g.R.Intn(10) {
		case 0, 1, 2, 3:
			g.emit(g.vocabWord())
		case 4, 5:
			g.emit(g.pick([]string{"(", ")", ",", ";", "(", ")", ",", "=", "."}))
		case 6:
			g.emit(g.Name())
		case 7:
			g.emit(g.Str())
		case 8:
			g.emit(g.Num())
		default:
			g.emit(g.otherWord())
		}
	}
	return g.out
}

// MutateText changes characters.
func MutateText(r *rand.Rand, s string) string {
	b := []rune(s)
	bits := []rune("'\"`();,.=-/*#\\\n\r\t \u3000aA_01日\x00")
	for n := 1 + r.Intn(3); n > 0; n-- {
		if len(b) == 0 {
			b = append(b, bits[r.Intn(len(bits))])
			continue
		}
		i := r.Intn(len(b))
		switch r.Intn(6) {
		case 0:
			b = append(b[:i], b[i+1:]...)
		case 1, 2:
			b = append(b[:i:i], append([]rune{bits[r.Intn(len(bits))]}, b[i:]...)...)
		case 3:
			b[i] = bits[r.Intn(len(bits))]
		case 4:
			b = b[:i]
		case 5:
			j := i + r.Intn(len(b)-i)
			k := r.Intn(len(b) + 1)
			p := append([]rune(nil), b[i:j]...)
			if len(p) < 200 {
				b = append(b[:k:k], append(p, b[k:]...)...)
			}
		}
	}
	return string(b)
}

// Bytes generates arbitrary bytes, also invalid UTF-8.
func Bytes(r *rand.Rand) string {
	n := r.Intn(60)
	b := make([]byte, n)
	for i := range b {
		if r.Intn(3) == 0 {
			b[i] = byte(r.Intn(256))
		} else {
			const set = "'\"`();,.=-/*#\\\n\r\t createablx01"
			b[i] = set[r.Intn(len(set))]
		}
	}
	return string(b)
}
