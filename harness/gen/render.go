package gen

import (
	"math/rand"
	"strings"

	"verifharness/spec"
)

// Layout styles.
const (
	Plain   = iota // one space between tokens
	Pretty         // conventional indentation
	Minimal        // nothing where nothing is needed
	Hostile        // any mix of blanks, line breaks and comments
	CRLF           // conventional, with CR LF
	Blank          // blanks, tabs, CR and LF only
	NumLayouts
)

var commentBits = []string{"x", " ", "create table z (", "'", "\"", "`", ";", ")", "(", "--", "/*", "*", "**", "/", "日本語", "\u3000", "😀", "#", "<EOF>", "it's", "NOT NULL", ",", "\\", "\r", "\t", "end", "BEGIN", "***", "/ *", "* /", "-- --", "\x00", "=", "//", "unique", "not null", "default 1", "; create table z (a text);", "$$", "!", "end;"}

func commentText(r *rand.Rand) string {
	var b strings.Builder
	switch r.Intn(8) {
	case 0:
		b.WriteByte(byte(33 + r.Intn(94)))
	case 1:
		b.WriteString([]string{"!", "!50100 ", "!40101 SET x ", "+", "M!", "@", "$", "%", "-", " !", "*", "**"}[r.Intn(12)])
	}
	for n := r.Intn(5); n > 0; n-- {
		b.WriteString(commentBits[r.Intn(len(commentBits))])
	}
	return b.String()
}

// Comment generates one comment of the dialect, with its line break if it
// needs one.
func Comment(r *rand.Rand, d spec.Dialect) string {
	k := r.Intn(5)
	if k == 4 && d != spec.MySQL {
		k = r.Intn(4)
	}
	switch k {
	case 0, 1:
		s := commentText(r)
		if r.Intn(3) == 0 {
			s += "\n" + commentText(r)
		}
		if r.Intn(10) == 0 {
			s = ""
		}
		return "/*" + strings.ReplaceAll(strings.ReplaceAll(s, "*/", "* /"), "\\", "\\") + closeComment(s)
	case 4:
		return "#" + commentText(r) + "\n"
	default:
		return "--" + commentText(r) + "\n"
	}
}

func closeComment(s string) string { return "*/" }

func gap(r *rand.Rand, d spec.Dialect, style int, need bool, prev, next Tok) string {
	switch style {
	case Plain:
		return " "
	case Minimal:
		if need {
			return " "
		}
		return ""
	case Pretty, CRLF:
		nl := "\n"
		if style == CRLF {
			nl = "\r\n"
		}
		switch {
		case next.Text == "," || next.Text == ";" || next.Text == ")" || prev.Text == "." || next.Text == ".":
			if need {
				return " "
			}
			return ""
		case prev.Text == "," || prev.Text == ";" || (prev.Text == "(" && r.Intn(3) == 0):
			return nl + strings.Repeat(" ", r.Intn(5))
		case r.Intn(30) == 0:
			return " -- note" + nl
		}
		return " "
	case Blank:
		n := r.Intn(4)
		if need && n == 0 {
			n = 1
		}
		var b strings.Builder
		for ; n > 0; n-- {
			b.WriteString([]string{" ", "\t", "\r", "\n", "\r\n", "  "}[r.Intn(6)])
		}
		return b.String()
	}
	// Hostile
	if !need && r.Intn(3) == 0 {
		return ""
	}
	var b strings.Builder
	for n := 1 + r.Intn(3); n > 0; n-- {
		switch r.Intn(7) {
		case 0, 1:
			b.WriteString(" ")
		case 2:
			b.WriteString([]string{"\t", "\r", "\r\n", "\n", "\n\n"}[r.Intn(5)])
		case 3:
			b.WriteString("\n")
		default:
			b.WriteString(Comment(r, d))
		}
	}
	return b.String()
}

// Render lays the tokens out. The result always lexes back to the tokens.
func Render(r *rand.Rand, d spec.Dialect, toks []Tok, style int) string {
	s := render(r, d, toks, style)
	if !lexesTo(s, d, toks) {
		s = render(r, d, toks, Plain)
	}
	return s
}

func render(r *rand.Rand, d spec.Dialect, toks []Tok, style int) string {
	var b strings.Builder
	edge := func() {
		if style == Hostile || style == Blank {
			if r.Intn(2) == 0 {
				b.WriteString(gap(r, d, style, true, Tok{}, Tok{}))
			}
		} else if style == Pretty && r.Intn(2) == 0 {
			b.WriteString("\n")
		}
	}
	edge()
	for i, t := range toks {
		if i > 0 {
			p := toks[i-1]
			need := p.Kind == spec.Word && t.Kind == spec.Word ||
				p.Kind == spec.Quoted && t.Kind == spec.Quoted && p.Text[0] == t.Text[0]
			b.WriteString(gap(r, d, style, need, p, t))
		}
		b.WriteString(t.Text)
	}
	edge()
	s := b.String()
	if style == Hostile && r.Intn(4) == 0 {
		s += "-- last line" // a comment that ends with the input
	}
	return s
}

func lexesTo(s string, d spec.Dialect, toks []Tok) bool {
	got, _, err := spec.Lex(s, d)
	if err != nil || len(got) != len(toks) {
		return false
	}
	for i := range got {
		if got[i].Text != toks[i].Text {
			return false
		}
	}
	return true
}

// LexesTo is the exported form of the renderer's self check.
func LexesTo(s string, d spec.Dialect, toks []Tok) bool { return lexesTo(s, d, toks) }

// FromSpec converts lexed tokens.
func FromSpec(ts []spec.Token) []Tok {
	r := make([]Tok, len(ts))
	for i, t := range ts {
		r[i] = Tok{t.Text, t.Kind}
	}
	return r
}
