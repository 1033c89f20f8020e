package main

import (
	"errors"
	"fmt"
	"math"
	"runtime/debug"

	"github.com/kodaimura/ddlparse"

	"verifharness/spec"
)

// Actual is what a call to the code under test was observed to do.
type Actual struct {
	Raw    []ddlparse.Table
	Tables []spec.Table
	Err    *spec.Err
	Msg    string // the error's message
	Odd    string // an error that is no ValidateError
	Panic  string
	HasErr bool
}

var rdbms = map[spec.Dialect]ddlparse.Rdbms{spec.SQLite: ddlparse.SQLite, spec.PostgreSQL: ddlparse.PostgreSQL, spec.MySQL: ddlparse.MySQL}

// call runs f and records everything observable about the call.
func call(f func() ([]ddlparse.Table, error)) (a Actual) {
	defer func() {
		if r := recover(); r != nil {
			a.Panic = fmt.Sprint(r) + "\n" + firstLines(string(debug.Stack()), 24)
		}
	}()
	stats.Calls++
	t, err := f()
	a.Raw = t
	a.Tables = convert(t)
	if err != nil {
		a.HasErr = true
		a.Msg = err.Error()
		var ve ddlparse.ValidateError
		var pve *ddlparse.ValidateError
		if x, is := err.(ddlparse.ValidateError); is {
			a.Err = &spec.Err{Line: x.Line, Near: x.Near}
		} else if errors.As(err, &ve) {
			a.Odd = fmt.Sprintf("%T around a ValidateError: %v", err, err)
			a.Err = &spec.Err{Line: ve.Line, Near: ve.Near}
		} else if errors.As(err, &pve) && pve != nil {
			a.Odd = fmt.Sprintf("a pointer to a ValidateError: %v", err)
			a.Err = &spec.Err{Line: pve.Line, Near: pve.Near}
		} else {
			a.Odd = fmt.Sprintf("%T: %v", err, err)
			a.Err = &spec.Err{}
		}
	}
	return a
}

func parse(s string, d spec.Dialect) Actual {
	return call(func() ([]ddlparse.Table, error) { return ddlparse.Parse(s, rdbms[d]) })
}

func parseNamed(s string, d spec.Dialect) Actual {
	f := map[spec.Dialect]func(string) ([]ddlparse.Table, error){
		spec.SQLite: ddlparse.ParseSQLite, spec.PostgreSQL: ddlparse.ParsePostgreSQL, spec.MySQL: ddlparse.ParseMySQL}[d]
	return call(func() ([]ddlparse.Table, error) { return f(s) })
}

func parseForce(s string) Actual {
	return call(func() ([]ddlparse.Table, error) { return ddlparse.ParseForce(s) })
}

func convert(ts []ddlparse.Table) []spec.Table {
	var r []spec.Table
	for _, t := range ts {
		x := spec.Table{Schema: t.Schema, Name: t.Name, IfNotExists: t.IfNotExists}
		for _, c := range t.Columns {
			x.Columns = append(x.Columns, spec.Column{
				Name: c.Name, Type: spec.Type{Name: c.DataType.Name, N: c.DataType.DigitN, M: c.DataType.DigitM},
				CName: c.Constraint.Name, PK: c.Constraint.IsPrimaryKey, UQ: c.Constraint.IsUnique, NotNull: c.Constraint.IsNotNull,
				Inc: c.Constraint.IsAutoincrement, Default: c.Constraint.Default, Check: c.Constraint.Check, Collate: c.Constraint.Collate,
				Ref: spec.Ref{Table: c.Constraint.References.TableName, Cols: c.Constraint.References.ColumnNames}})
		}
		for _, k := range t.Constraints.PrimaryKey {
			x.PK = append(x.PK, spec.Key{Name: k.Name, Cols: k.ColumnNames})
		}
		for _, k := range t.Constraints.Unique {
			x.UQ = append(x.UQ, spec.Key{Name: k.Name, Cols: k.ColumnNames})
		}
		for _, k := range t.Constraints.Check {
			x.Checks = append(x.Checks, spec.Check{Name: k.Name, Expr: k.Expr})
		}
		for _, k := range t.Constraints.ForeignKey {
			x.FKs = append(x.FKs, spec.FK{Name: k.Name, Cols: k.ColumnNames, Ref: spec.Ref{Table: k.References.TableName, Cols: k.References.ColumnNames}})
		}
		r = append(r, x)
	}
	return r
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameDefault(a, b interface{}) bool {
	if x, is := a.(float64); is {
		y, is2 := b.(float64)
		return is2 && (x == y || math.IsNaN(x) && math.IsNaN(y))
	}
	switch a.(type) {
	case nil, bool, string:
	default:
		return false
	}
	switch b.(type) {
	case nil, bool, string, float64:
	default:
		return false
	}
	return a == b
}

func sameRef(a, b spec.Ref) bool { return a.Table == b.Table && sameStrings(a.Cols, b.Cols) }

func sameKeys(a, b []spec.Key) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Name != b[i].Name || !sameStrings(a[i].Cols, b[i].Cols) {
			return false
		}
	}
	return true
}

// diffTables compares two results and returns, per property, the first
// difference that concerns it. Nil and empty lists are the same.
func diffTables(want, got []spec.Table) map[string]string {
	d := map[string]string{}
	add := func(p, f string, a ...interface{}) {
		if d[p] == "" {
			d[p] = fmt.Sprintf(f, a...)
		}
	}
	if len(want) != len(got) {
		add("C04", "%d tables expected, %d returned", len(want), len(got))
		return d
	}
	for i := range want {
		w, g := want[i], got[i]
		if w.Schema != g.Schema || w.Name != g.Name || w.IfNotExists != g.IfNotExists {
			add("C04", "table %d: want schema %q name %q ifnotexists %v, got %q %q %v", i, w.Schema, w.Name, w.IfNotExists, g.Schema, g.Name, g.IfNotExists)
		}
		colsSame := len(w.Columns) == len(g.Columns)
		if !colsSame {
			add("C05", "table %d: %d columns expected, %d returned", i, len(w.Columns), len(g.Columns))
		}
		for j := 0; colsSame && j < len(w.Columns); j++ {
			if w.Columns[j].Name != g.Columns[j].Name {
				add("C05", "table %d column %d: want name %q, got %q", i, j, w.Columns[j].Name, g.Columns[j].Name)
				colsSame = false
			}
		}
		for j := 0; j < len(w.Columns) && j < len(g.Columns); j++ {
			if !colsSame && w.Columns[j].Name != g.Columns[j].Name {
				break
			}
			a, b := w.Columns[j], g.Columns[j]
			at := fmt.Sprintf("table %d column %d (%q)", i, j, clip(a.Name, 40))
			if a.Type != b.Type {
				add("C06", "%s: want type %+v, got %+v", at, a.Type, b.Type)
			}
			if a.PK != b.PK || a.UQ != b.UQ || a.NotNull != b.NotNull || a.Inc != b.Inc || a.CName != b.CName || a.Collate != b.Collate {
				add("C07", "%s: want pk %v unique %v notnull %v autoinc %v constraint name %q collate %q, got %v %v %v %v %q %q", at,
					a.PK, a.UQ, a.NotNull, a.Inc, a.CName, a.Collate, b.PK, b.UQ, b.NotNull, b.Inc, b.CName, b.Collate)
			}
			if !sameDefault(a.Default, b.Default) {
				add("C08", "%s: want default %T %v, got %T %v", at, a.Default, clip(fmt.Sprintf("%#v", a.Default), 200), b.Default, clip(fmt.Sprintf("%#v", b.Default), 200))
				if s, is := a.Default.(string); is && len(s) > 0 && s[0] == '(' {
					add("C09", "%s: want default expression %q, got %v", at, clip(s, 200), clip(fmt.Sprintf("%#v", b.Default), 200))
				}
			}
			if a.Check != b.Check {
				add("C09", "%s: want check %q, got %q", at, clip(a.Check, 200), clip(b.Check, 200))
			}
			if !sameRef(a.Ref, b.Ref) {
				add("C11", "%s: want reference %q, got %q", at, a.Ref, b.Ref)
			}
		}
		if !sameKeys(w.PK, g.PK) {
			add("C10", "table %d: want primary keys %q, got %q", i, w.PK, g.PK)
		}
		if !sameKeys(w.UQ, g.UQ) {
			add("C10", "table %d: want unique %q, got %q", i, w.UQ, g.UQ)
		}
		if len(w.Checks) != len(g.Checks) {
			add("C10", "table %d: %d checks expected, %d returned", i, len(w.Checks), len(g.Checks))
		} else {
			for j := range w.Checks {
				if w.Checks[j].Name != g.Checks[j].Name {
					add("C10", "table %d check %d: want name %q, got %q", i, j, w.Checks[j].Name, g.Checks[j].Name)
				}
				if w.Checks[j].Expr != g.Checks[j].Expr {
					add("C09", "table %d check %d: want %q, got %q", i, j, clip(w.Checks[j].Expr, 200), clip(g.Checks[j].Expr, 200))
					add("C10", "table %d check %d: want %q, got %q", i, j, clip(w.Checks[j].Expr, 200), clip(g.Checks[j].Expr, 200))
				}
			}
		}
		if len(w.FKs) != len(g.FKs) {
			add("C10", "table %d: %d foreign keys expected, %d returned", i, len(w.FKs), len(g.FKs))
			add("C11", "table %d: %d foreign keys expected, %d returned", i, len(w.FKs), len(g.FKs))
		} else {
			for j := range w.FKs {
				if w.FKs[j].Name != g.FKs[j].Name || !sameStrings(w.FKs[j].Cols, g.FKs[j].Cols) {
					add("C10", "table %d foreign key %d: want %q, got %q", i, j, w.FKs[j], g.FKs[j])
				}
				if !sameRef(w.FKs[j].Ref, g.FKs[j].Ref) {
					add("C11", "table %d foreign key %d: want reference %q, got %q", i, j, w.FKs[j].Ref, g.FKs[j].Ref)
				}
			}
		}
	}
	return d
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

func firstLines(s string, n int) string {
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			if n--; n == 0 {
				return s[:i]
			}
		}
	}
	return s
}
