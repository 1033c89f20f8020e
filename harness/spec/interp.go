package spec

import (
	"strconv"
	"strings"
)

// Table and the types below describe the specified result.
type Table struct {
	Schema, Name string
	IfNotExists  bool
	Columns      []Column
	PK, UQ       []Key
	Checks       []Check
	FKs          []FK
}

type Column struct {
	Name         string
	Type         Type
	CName        string
	PK, UQ       bool
	NotNull, Inc bool
	Default      interface{} // nil, bool, float64, string
	Check        string
	Collate      string
	Ref          Ref
}

type Type struct {
	Name string
	N, M int
}

type Ref struct {
	Table string
	Cols  []string
}

type Key struct {
	Name string
	Cols []string
}

type Check struct{ Name, Expr string }

type FK struct {
	Name string
	Cols []string
	Ref  Ref
}

type interp struct {
	t []Token
	d Dialect
}

// Interpret turns the parse tree of a text into the tables it describes.
func Interpret(root *Tree, toks []Token, d Dialect) []Table {
	in := interp{toks, d}
	r := []Table{}
	for _, t := range root.Find("table") {
		r = append(r, in.table(t))
	}
	return r
}

func (in interp) text(t *Tree) string {
	var b strings.Builder
	for _, i := range t.Leaves() {
		b.WriteString(in.t[i].Text)
	}
	return b.String()
}

func (in interp) unquote(i int) string {
	t := in.t[i]
	if t.Kind == Quoted {
		return t.Text[1 : len(t.Text)-1]
	}
	return t.Text
}

// names returns the unquoted name leaves directly below t.
func (in interp) nameLeaves(t *Tree) []string {
	var r []string
	if t.N.Op == OpName {
		return []string{in.unquote(t.Toks[0])}
	}
	for _, k := range t.Kids {
		r = append(r, in.nameLeaves(k)...)
	}
	return r
}

// colList returns a bracketed column list as written.
func (in interp) colList(t *Tree) []string {
	r := []string{}
	for _, n := range t.Find("nm") {
		r = append(r, in.text(n))
	}
	return r
}

func (in interp) table(t *Tree) Table {
	var r Table
	r.IfNotExists = t.First("ifne") != nil
	if n := in.nameLeaves(t.First("tname")); len(n) == 2 {
		r.Schema, r.Name = n[0], n[1]
	} else {
		r.Name = n[0]
	}
	for _, d := range t.Find("def") {
		if c := d.First("column"); c != nil {
			r.Columns = append(r.Columns, in.column(c))
			continue
		}
		con := d.First("tcon")
		name := ""
		if c := con.First("cname"); c != nil {
			name = in.nameLeaves(c)[0]
		} else if c := con.First("tcname"); c != nil {
			if n := in.nameLeaves(c); len(n) > 0 {
				name = n[0]
			}
		}
		body := con.First("tcon1")
		if k := body.First("tpk"); k != nil {
			r.PK = append(r.PK, Key{name, in.keyCols(k)})
		} else if k := body.First("tuq"); k != nil {
			r.UQ = append(r.UQ, Key{name, in.keyCols(k)})
		} else if k := body.First("tcheck"); k != nil {
			r.Checks = append(r.Checks, Check{name, in.text(k.First("expr"))})
		} else if k := body.First("tfk"); k != nil {
			r.FKs = append(r.FKs, FK{name, in.colList(k.First("names")), in.ref(k.First("trefs"))})
		}
	}
	return r
}

func (in interp) keyCols(k *Tree) []string {
	if n := k.First("names"); n != nil {
		return in.colList(n)
	}
	r := []string{}
	for _, p := range k.First("keyparts").Find("keypart") {
		r = append(r, in.colList(p)...)
	}
	return r
}

func (in interp) ref(t *Tree) Ref {
	n := in.nameLeaves(t.First("tname"))
	r := Ref{Table: n[len(n)-1]}
	for _, rule := range []string{"name1", "names"} {
		if l := t.First(rule); l != nil {
			r.Cols = in.colList(l)
		}
	}
	if t.First("keyparts") != nil {
		r.Cols = in.keyCols(t)
	}
	return r
}

func (in interp) column(t *Tree) Column {
	var c Column
	c.Name = in.nameLeaves(t.First("nm"))[0]
	c.Type = in.typ(t.First("type"))
	ccs := t.First("ccs")
	for _, rule := range []string{"cname", "cnameopt"} {
		for _, n := range ccs.Find(rule) {
			if l := in.nameLeaves(n); len(l) > 0 && c.CName == "" {
				c.CName = l[0]
			}
		}
	}
	for _, cc := range ccs.Find("cc") {
		has := func(rule string) *Tree { return cc.First(rule) }
		if has("pk") != nil {
			c.PK = true
			if has("pk").First("auto") != nil {
				c.Inc = true
			}
		}
		c.Inc = c.Inc || has("auto") != nil
		c.UQ = c.UQ || has("uq") != nil
		c.NotNull = c.NotNull || has("notnull") != nil
		if k := has("check"); k != nil {
			c.Check = in.text(k.First("expr"))
		}
		for _, rule := range []string{"pcheck", "mcheck"} {
			if k := has(rule); k != nil {
				c.Check = in.text(k.First("check").First("expr"))
			}
		}
		for _, rule := range []string{"default", "mdefault"} {
			if k := has(rule); k != nil {
				c.Default = in.def(k)
			}
		}
		if k := has("collate"); k != nil {
			l := k.First("collname").Leaves()
			c.Collate = in.unquote(l[0])
		}
		if k := has("refs"); k != nil {
			c.Ref = in.ref(k)
		}
	}
	return c
}

func (in interp) typ(t *Tree) Type {
	l := t.Leaves()
	ty := Type{Name: strings.ToUpper(in.t[l[0]].Text)}
	if len(l) > 1 && IsKw(in.t[l[1]].Text, "VARYING") {
		ty.Name = map[string]string{"BIT": "VARBIT", "CHARACTER": "VARCHAR"}[ty.Name]
	}
	var nums []int
	for _, rule := range []string{"digN", "digPS"} {
		if d := t.First(rule); d != nil {
			for _, i := range d.Leaves() {
				if n, err := strconv.Atoi(in.t[i].Text); err == nil {
					nums = append(nums, n)
				}
			}
		}
	}
	if len(nums) > 0 {
		ty.N = nums[0]
	}
	if len(nums) > 1 {
		ty.M = nums[1]
	}
	return ty
}

func (in interp) def(t *Tree) interface{} {
	if e := t.First("expr"); e != nil {
		return in.text(e)
	}
	tok := in.t[t.First("literal").Leaves()[0]]
	if tok.Kind == Quoted {
		return tok.Text[1 : len(tok.Text)-1]
	}
	if f, is := Number(tok); is {
		return f
	}
	switch {
	case IsKw(tok.Text, "NULL"):
		return nil
	case IsKw(tok.Text, "TRUE"):
		return true
	case IsKw(tok.Text, "FALSE"):
		return false
	}
	return tok.Text
}
