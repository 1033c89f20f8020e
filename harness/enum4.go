package main

import (
	"strings"
	"unicode"

	"verifharness/gen"
	"verifharness/spec"
)

// enumUnicode: every character of the basic plane, and some beyond, outside
// quotes: between two words and at other boundaries, where only blanks, tabs,
// CR and LF are white space and everything else belongs to a word. And every
// keyword with a letter that Unicode, but no SQL, takes for the same letter.
var enumUnicode = listed(func() []Case {
	var r []Case
	at := []string{"create table t (xWtext);", "create table t (x textW, y text);", "Wcreate table t (x text);", "create table t (x text);W", "create table t (x textWnot null, y text);",
		"create table t (x text default 1W, y text);", "create table t (x text check (aWb), y text);", "create table tW(x text);", "create view v as xWy; create table t (x text);", "create tableWt (x text);",
		"create table t (x text, primary keyW(x));", "create table t (x text default W1);", "create table t (x text -- W\n, y text);", "create table t (x text /* W*/, y text);", "create table t (x text) W;"}
	k := 0
	for c := rune(0); c <= 0x10ffff; c++ {
		if c >= 0xd800 && c < 0xe000 || c > 0x1ffff && c%0x3fff != 0 {
			continue
		}
		n := 1
		switch {
		case c < 0x80:
			continue // enum-chars, enum-wraps
		case c < 0x100 || unicode.Is(unicode.White_Space, c) || unicode.Is(unicode.Zs, c) || unicode.Is(unicode.Cf, c) && c < 0x10000 || c >= 0xff00 && c < 0x10000 || unicode.In(c, unicode.Pi, unicode.Pf, unicode.Pc) || c >= 0x2000 && c < 0x2070:
			n = len(at)
		case c >= 0x3400 && c < 0xa000 || c >= 0xac00 && c < 0xf900 || c >= 0x10000:
			if c%16 != 0 {
				continue
			}
		}
		for _, d := range spec.Dialects {
			for j := 0; j < n; j++ {
				r = append(r, Case{Rel: "diff", D: d, Texts: []string{strings.ReplaceAll(at[(k+j)%len(at)], "W", string(c))}})
			}
			k++
		}
	}
	// letters
	like := map[rune][]rune{}
	for c := rune(0x80); c < 0x20000; c++ {
		for _, f := range []rune{unicode.ToLower(c), unicode.ToUpper(c), unicode.ToLower(unicode.ToUpper(c)), unicode.SimpleFold(c), unicode.SimpleFold(unicode.SimpleFold(c))} {
			if f < 0x80 && unicode.IsLetter(f) {
				f = unicode.ToLower(f)
				if l := like[f]; len(l) == 0 || l[len(l)-1] != c {
					like[f] = append(like[f], c)
				}
			}
		}
	}
	for c := 'a'; c <= 'z'; c++ {
		like[c] = append(like[c], c-'a'+0xff41, c-'a'+0xff21)
	}
	done := map[string]bool{}
	for i, s := range sentences() {
		g := spec.Grammars[s.d]
		for j, t := range s.toks {
			u := strings.ToUpper(t.Text)
			if t.Kind != spec.Word || !g.Vocab[u] {
				continue
			}
			prev := ""
			if j > 0 {
				prev = strings.ToUpper(s.toks[j-1].Text)
			}
			key := s.d.String() + " " + prev + " " + u
			if done[key] {
				continue
			}
			done[key] = true
			for k, c := range strings.ToLower(t.Text) {
				for m, x := range like[c] {
					if x >= 0xff00 && (i+k+m)%8 != 0 {
						continue
					}
					for _, w := range []string{u, strings.ToLower(u)} {
						toks := append([]gen.Tok{}, s.toks...)
						toks[j].Text = w[:k] + string(x) + w[k+1:]
						r = append(r, Case{Rel: "diff", D: s.d, Tag: "letters", Texts: []string{plain(s.d, toks)}})
					}
				}
			}
		}
	}
	return r
})

// enumPlanes: every character of Unicode in quoted names, strings, comments
// and expressions, many of them at a time.
var planeBlocks = lazy(func() []rune { // where a block starts
	var r []rune
	for c := rune(0x20); c <= 0x10ffff; {
		r = append(r, c)
		if c < 0x3000 {
			c += 32
		} else {
			c += 256
		}
	}
	return append(r, 0x110000)
})

var planeTexts = []string{"create table t (x text default 'W', y text);", "create table t (QWQ text, y text);", "create table t (x text check (x = 'W'), y text);", "create table QWQ (x text /* W */, y text);",
	"create table t (x text, constraint QWQ unique (QWQ, y));", "create table t (x text references QWQ (QWQ), y text);", "create view v as 'W'; create table t (x text -- W\n, y text);"}

func planeCount() int { return 9 * (len(planeBlocks()) - 1) }

func planeAt(i int) *Case {
	d := spec.Dialects[i%3]
	var b strings.Builder
	for c := planeBlocks()[i/9]; c < planeBlocks()[i/9+1]; c++ {
		if c >= 0xd800 && c < 0xe000 || strings.ContainsRune("\"'`\\*/", c) {
			continue
		}
		b.WriteRune(c)
	}
	q := "\""
	if d == spec.MySQL {
		q = "`"
	}
	t := strings.ReplaceAll(strings.ReplaceAll(planeTexts[i%len(planeTexts)], "Q", q), "W", b.String())
	return &Case{Rel: "diff", D: d, Tag: "quotes", Texts: []string{t}}
}
