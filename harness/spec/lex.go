// Package spec is an executable specification of ddlparse, written from its
// documentation and property list and independent of its code: a reference
// lexer, one declarative grammar per dialect, a generic predictive parser over
// those grammars, and an interpretation of the parse tree as tables.
package spec

import (
	"strings"
	"unicode/utf8"
)

// Dialect is one of the three supported dialects.
type Dialect int

const (
	SQLite Dialect = iota
	PostgreSQL
	MySQL
)

// Dialects lists the dialects in the order ParseForce tries them.
var Dialects = []Dialect{SQLite, PostgreSQL, MySQL}

func (d Dialect) String() string { return [...]string{"SQLite", "PostgreSQL", "MySQL"}[d] }

// Token kinds.
const (
	Word   = iota // unquoted run of characters
	Symbol        // ( ) , . ; =
	Quoted        // a quoted token, with its quotes
)

// Token is one token with its position. Line is the line on which it ends.
type Token struct {
	Text       string
	Kind       int
	Line       int
	Start, End int // byte offsets
}

// Err is a predicted ValidateError.
type Err struct {
	Line int
	Near string
}

// EOFNear is reported for errors at the end of input.
const EOFNear = "<EOF>"

const ideographicSpace = "\u3000"

// IsSymbol reports whether s is a one character token of its own.
func IsSymbol(s string) bool { return len(s) == 1 && strings.Contains("(),.;=", s) }

func isQuote(c byte) bool { return c == '\'' || c == '"' || c == '`' }

// quotedEnd returns the offset after the closing quote of the token starting
// at i, or -1 if it is never closed.
func quotedEnd(s string, i int, d Dialect) int {
	q := s[i]
	for j := i + 1; j < len(s); j++ {
		switch {
		case s[j] == '\\' && d == MySQL && q != '`':
			if j+1 < len(s) {
				_, n := utf8.DecodeRuneInString(s[j+1:])
				j += n
			}
		case s[j] == q:
			if j+1 < len(s) && s[j+1] == q {
				j++
				continue
			}
			return j + 1
		}
	}
	return -1
}

// commentEnd returns the offset after a comment starting at i, i itself if
// none starts there, or -1 if a block comment is never closed. A line comment
// ends before its line break.
func commentEnd(s string, i int, d Dialect) int {
	rest := s[i:]
	if strings.HasPrefix(rest, "--") || (d == MySQL && rest[0] == '#') {
		if n := strings.IndexByte(rest, '\n'); n >= 0 {
			return i + n
		}
		return len(s)
	}
	if strings.HasPrefix(rest, "/*") {
		if n := strings.Index(rest[2:], "*/"); n >= 0 {
			return i + 2 + n + 2
		}
		return -1
	}
	return i
}

func isInteger(w string) bool {
	if w != "" && (w[0] == '+' || w[0] == '-') {
		w = w[1:]
	}
	return w != "" && strings.Trim(w, "0123456789") == ""
}

// Lex splits valid UTF-8 text into tokens. It returns the line of the end of
// input and, if some character cannot be lexed, the error that must be
// reported for the text.
func Lex(s string, d Dialect) (toks []Token, endLine int, err *Err) {
	line := 1
	endLine = 1 + strings.Count(s, "\n")
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == '\n':
			line++
			i++
			continue
		case c == ' ' || c == '\t' || c == '\r':
			i++
			continue
		}
		if e := commentEnd(s, i, d); e < 0 {
			return nil, endLine, &Err{endLine, EOFNear}
		} else if e > i {
			line += strings.Count(s[i:e], "\n")
			i = e
			continue
		}
		switch {
		case strings.HasPrefix(s[i:], "*/"):
			return nil, endLine, &Err{line, "*"}
		case strings.HasPrefix(s[i:], ideographicSpace):
			return nil, endLine, &Err{line, ideographicSpace}
		case c == '`' && d == PostgreSQL:
			return nil, endLine, &Err{line, "`"}
		case isQuote(c):
			e := quotedEnd(s, i, d)
			if e < 0 {
				return nil, endLine, &Err{endLine, EOFNear}
			}
			line += strings.Count(s[i:e], "\n")
			toks = append(toks, Token{s[i:e], Quoted, line, i, e})
			i = e
			continue
		case IsSymbol(string(c)):
			toks = append(toks, Token{string(c), Symbol, line, i, i + 1})
			i++
			continue
		}
		j := i
		for j < len(s) {
			b := s[j]
			if b == '\n' || b == ' ' || b == '\t' || b == '\r' || isQuote(b) {
				break
			}
			if b == '.' && isInteger(s[i:j]) && j+1 < len(s) && '0' <= s[j+1] && s[j+1] <= '9' {
				j++
				continue
			}
			if IsSymbol(string(b)) || strings.HasPrefix(s[j:], "*/") || strings.HasPrefix(s[j:], ideographicSpace) {
				break
			}
			if b == '-' || b == '/' || b == '#' {
				if e := commentEnd(s, j, d); e != j {
					break
				}
			}
			j++
		}
		toks = append(toks, Token{s[i:j], Word, line, i, j})
		i = j
	}
	return toks, endLine, nil
}

// Specified reports whether the specification says anything about the text:
// it must be valid UTF-8.
func Specified(s string, d Dialect) bool {
	return utf8.ValidString(s) && !strings.ContainsRune(s, utf8.RuneError)
}
