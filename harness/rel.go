package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/kodaimura/ddlparse"

	"verifharness/spec"
)

// A Case is one thing to observe: a relation over some texts.
type Case struct {
	Rel     string            `json:"relation"`
	D       spec.Dialect      `json:"dialect"`
	Texts   []string          `json:"texts"`
	Subst   map[string]string `json:"subst,omitempty"`
	Tag     string            `json:"workload,omitempty"`
	OnlyFor string            `json:"-"`
}

// Verdict: property -> what was observed to violate it.
type Verdict map[string]string

func (v Verdict) add(p, f string, a ...interface{}) {
	if v[p] == "" {
		v[p] = fmt.Sprintf(f, a...)
	}
}

// Properties that promise something about every valid text.
var validProps = []string{"C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C15"}

var resultProps = []string{"C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11"}

var specCover = map[spec.Dialect]map[int]int{spec.SQLite: {}, spec.PostgreSQL: {}, spec.MySQL: {}}

// predict returns the specified outcome, or nil if the text is unspecified.
func predict(s string, d spec.Dialect) *spec.Outcome {
	if !spec.Specified(s, d) {
		return nil
	}
	g := spec.Grammars[d]
	o := g.Recognise(s, specCover[d])
	if g.MixedCase(o.Toks) {
		return nil
	}
	return o
}

// contract checks what holds for every call whatever the text.
func contract(v Verdict, a Actual, what string) {
	if a.Panic != "" {
		v.add("C01", "%s panicked: %s", what, a.Panic)
		v.add("C02", "%s panicked: %s", what, a.Panic)
		return
	}
	if a.HasErr {
		if len(a.Raw) != 0 {
			v.add("C02", "%s returned %d tables together with the error %q", what, len(a.Raw), a.Msg)
		}
		if a.Odd != "" {
			v.add("C02", "%s returned an error that is no ValidateError: %s", what, a.Odd)
			return
		}
		if a.Err.Line < 1 || a.Err.Near == "" {
			v.add("C02", "%s returned an error without position: line %d near %q", what, a.Err.Line, a.Err.Near)
		}
		if want := fmt.Sprintf("ValidateError: Syntax error: near '%s' at line %d.", a.Err.Near, a.Err.Line); a.Msg != want {
			v.add("C17", "%s: error message %q, want %q", what, clip(a.Msg, 300), clip(want, 300))
		}
	}
}

// compare judges one observed call against the specified outcome.
func compare(v Verdict, o *spec.Outcome, a Actual, what string) {
	if o == nil {
		return
	}
	if o.Err == nil {
		stats.Accept++
		switch {
		case a.Panic != "":
			for _, p := range validProps {
				v.add(p, "%s panicked on valid DDL: %s", what, a.Panic)
			}
		case a.HasErr:
			for _, p := range validProps {
				v.add(p, "%s rejected valid DDL: %s", what, clip(a.Msg, 300))
			}
		default:
			for p, s := range diffTables(o.Tables, a.Tables) {
				v.add(p, "%s: %s", what, s)
				v.add("ANY", "%s: %s", what, s)
			}
			for _, t := range o.Tables {
				stats.Tables++
				stats.Columns += len(t.Columns)
				stats.TCons += len(t.PK) + len(t.UQ) + len(t.Checks) + len(t.FKs)
			}
		}
		if a.Panic != "" || a.HasErr {
			v.add("ANY", "%s failed on valid DDL: %s", what, clip(a.Panic+a.Msg, 500))
		}
		return
	}
	stats.Reject++
	switch {
	case a.Panic != "":
		for _, p := range []string{"C16", "C17", "ANY"} {
			v.add(p, "%s panicked: %s", what, a.Panic)
		}
	case !a.HasErr:
		for _, p := range []string{"C16", "C17", "ANY"} {
			v.add(p, "%s accepted (%d tables) what must be rejected near %q at line %d", what, len(a.Tables), clip(o.Err.Near, 100), o.Err.Line)
		}
	default:
		if a.Err.Near != o.Err.Near || a.Err.Line != o.Err.Line {
			v.add("C17", "%s: want error near %q at line %d, got near %q at line %d", what, clip(o.Err.Near, 100), o.Err.Line, clip(a.Err.Near, 100), a.Err.Line)
			v.add("ANY", "%s: want error near %q at line %d, got near %q at line %d", what, clip(o.Err.Near, 100), o.Err.Line, clip(a.Err.Near, 100), a.Err.Line)
		}
	}
}

// sameOutcome compares two observed outcomes. Lines of errors are not compared.
func sameOutcome(a, b Actual) string {
	if a.Panic != "" || b.Panic != "" {
		return "panic: " + a.Panic + b.Panic
	}
	if a.HasErr != b.HasErr {
		return fmt.Sprintf("one is accepted, the other not: %q / %q", clip(a.Msg, 200), clip(b.Msg, 200))
	}
	if a.HasErr {
		if a.Err.Near != b.Err.Near {
			return fmt.Sprintf("different errors: near %q / near %q", clip(a.Err.Near, 100), clip(b.Err.Near, 100))
		}
		return ""
	}
	for p, s := range diffTables(a.Tables, b.Tables) {
		return p + ": " + s
	}
	return ""
}

func identical(a, b Actual) string {
	if a.Panic != "" || b.Panic != "" {
		return "panic: " + a.Panic + b.Panic
	}
	if a.HasErr != b.HasErr || a.Msg != b.Msg {
		return fmt.Sprintf("different errors: %q / %q", clip(a.Msg, 200), clip(b.Msg, 200))
	}
	for p, s := range diffTables(a.Tables, b.Tables) {
		return p + ": " + s
	}
	return ""
}

// judge runs the case against the code under test.
func judge(c Case) Verdict {
	v := Verdict{}
	what := c.D.String()
	switch c.Rel {
	case "total":
		// only: returns, and honours the contract; all entry points
		for _, d := range spec.Dialects {
			a := parse(c.Texts[0], d)
			contract(v, a, d.String())
			if d == c.D {
				compare(v, predict(c.Texts[0], d), a, d.String())
			}
		}
		contract(v, parseForce(c.Texts[0]), "ParseForce")
	case "cost":
		judgeCost(v, c)
	case "huge":
		contract(v, parse(c.Texts[0], c.D), what)
	case "diff":
		a := parse(c.Texts[0], c.D)
		contract(v, a, what)
		o := predict(c.Texts[0], c.D)
		compare(v, o, a, what)
		if o != nil {
			alias(v, o)
		}
	case "good+bad":
		// texts: accepted statements, then the same with one bad statement somewhere
		a, b := parse(c.Texts[0], c.D), parse(c.Texts[1], c.D)
		contract(v, a, what)
		contract(v, b, what)
		o := predict(c.Texts[1], c.D)
		compare(v, o, b, what)
		if o != nil && o.Err != nil && b.Panic == "" && !b.HasErr {
			v.add("C02", "%s returned %d tables and no error although a statement is wrong near %q at line %d", what, len(b.Tables), clip(o.Err.Near, 80), o.Err.Line)
		}
	case "empty":
		for _, d := range spec.Dialects {
			if o := predict(c.Texts[0], d); o != nil && o.Err == nil && len(o.Toks) == 0 {
				a := parse(c.Texts[0], d)
				contract(v, a, d.String())
				compare(v, o, a, d.String())
				if a.HasErr || len(a.Raw) != 0 {
					v.add("C02", "%v: input without statements: %d tables, error %q", d, len(a.Raw), a.Msg)
				}
			}
		}
	case "layout":
		a, b := parse(c.Texts[0], c.D), parse(c.Texts[1], c.D)
		contract(v, a, what)
		contract(v, b, what)
		if s := sameOutcome(a, b); s != "" {
			v.add("C12", "%s: layout changes the outcome: %s", what, s)
		}
		o := predict(c.Texts[1], c.D)
		compare(v, o, b, what)
		if o != nil && o.Err != nil && !o.LexErr && b.HasErr && a.HasErr && b.Err.Line != o.Err.Line {
			v.add("C12", "%s: the line does not follow the token: near %q at line %d, want line %d", what, clip(b.Err.Near, 80), b.Err.Line, o.Err.Line)
		}
	case "quoted":
		// Texts[1] is Texts[0] with quoted contents replaced by placeholders
		a, b := parse(c.Texts[0], c.D), parse(c.Texts[1], c.D)
		contract(v, a, what)
		contract(v, b, what)
		compare(v, predict(c.Texts[0], c.D), a, what)
		if s := sameOutcome(substitute(b, c.Subst), a); s != "" {
			v.add("C13", "%s: quoted content matters: %s", what, s)
		}
	case "case":
		a, b := parse(c.Texts[0], c.D), parse(c.Texts[1], c.D)
		contract(v, a, what)
		contract(v, b, what)
		compare(v, predict(c.Texts[1], c.D), b, what)
		if s := sameOutcome(foldValues(a), foldValues(b)); s != "" {
			v.add("C14", "%s: keyword case matters: %s", what, s)
		}
		if o := predict(c.Texts[1], c.D); o != nil && o.Err == nil {
			if b.HasErr {
				v.add("C14", "%s rejects keywords in this case: %s", what, clip(b.Msg, 200))
			} else if s := diffTables(o.Tables, b.Tables); len(s) > 0 {
				v.add("C14", "%s: %v", what, s)
			}
		}
	case "concat":
		judgeConcat(v, c)
	case "entry":
		judgeEntry(v, c.Texts[0])
	case "json":
		a := parse(c.Texts[0], c.D)
		contract(v, a, what)
		compare(v, predict(c.Texts[0], c.D), a, what)
		if s := jsonCheck(a.Raw, c.Texts[0]); s != "" {
			v.add("C21", "%s: %s", what, s)
		}
	case "strip":
		a, b := parse(c.Texts[0], c.D), parse(c.Texts[1], c.D)
		contract(v, a, what)
		contract(v, b, what)
		o := predict(c.Texts[0], c.D)
		compare(v, o, a, what)
		if s := sameOutcome(a, b); s != "" {
			v.add("C20", "%s: an unrepresented clause leaves a trace: %s", what, s)
		} else if o != nil && o.Err == nil && a.HasErr {
			v.add("C20", "%s: rejected with and without the clauses: %s", what, clip(a.Msg, 200))
		}
	case "history":
		judgeHistory(v, c)
	case "again":
		a := parse(c.Texts[0], c.D)
		for _, t := range c.Texts[1:] {
			parse(t, c.D)
		}
		if s := identical(a, parse(c.Texts[0], c.D)); s != "" {
			v.add("C03", "%s: a second call differs: %s", what, s)
		}
	default:
		panic("relation " + c.Rel)
	}
	switch c.Tag {
	case "cross":
		if v["ANY"] != "" {
			v.add("C22", "%s", v["ANY"])
		}
	case "size":
		if v["ANY"] != "" {
			v.add("C23", "%s", v["ANY"])
		}
	case "quotes":
		if v["ANY"] != "" {
			v.add("C13", "%s", v["ANY"])
		}
	case "layouts":
		if v["ANY"] != "" {
			v.add("C12", "%s", v["ANY"])
		}
	case "options":
		if v["ANY"] != "" {
			v.add("C20", "%s", v["ANY"])
		}
	case "statements":
		if v["ANY"] != "" {
			v.add("C18", "%s", v["ANY"])
		}
	}
	delete(v, "ANY")
	return v
}

// alias: a difference in one aspect concerns further properties.
func alias(v Verdict, o *spec.Outcome) {}

func judgeConcat(v Verdict, c Case) {
	what := c.D.String()
	var want []spec.Table
	var wantErr *spec.Err
	off := 0
	full := ""
	for i, t := range c.Texts {
		a := parse(t, c.D)
		contract(v, a, what)
		if a.Panic != "" {
			v.add("C18", "%s panicked: %s", what, a.Panic)
			return
		}
		if wantErr != nil {
			if _, _, err := spec.Lex(t, c.D); err != nil {
				return // what cannot be lexed is reported first
			}
		}
		if wantErr == nil {
			if o := predict(t, c.D); a.HasErr && o != nil && o.Err == nil && len(o.Tables) == 0 {
				// nothing but statements that are skipped: they change nothing
			} else if a.HasErr {
				if a.Err.Near == spec.EOFNear && i < len(c.Texts)-1 {
					return // an unfinished statement: what follows may finish it
				}
				wantErr = &spec.Err{Line: a.Err.Line + off, Near: a.Err.Near}
			} else {
				want = append(want, a.Tables...)
			}
		}
		off += strings.Count(t, "\n")
		full += t
	}
	a := parse(full, c.D)
	contract(v, a, what)
	compare(v, predict(full, c.D), a, what)
	switch {
	case a.Panic != "":
		v.add("C18", "%s panicked: %s", what, a.Panic)
	case wantErr != nil && !a.HasErr:
		v.add("C18", "%s: a part is rejected near %q but the whole is accepted", what, clip(wantErr.Near, 80))
	case wantErr != nil:
		if *wantErr != *a.Err {
			v.add("C18", "%s: the parts give an error near %q at line %d, the whole near %q at line %d", what, clip(wantErr.Near, 80), wantErr.Line, clip(a.Err.Near, 80), a.Err.Line)
		}
	case a.HasErr:
		v.add("C18", "%s: all parts are accepted but the whole is rejected: %s", what, clip(a.Msg, 200))
	default:
		for p, s := range diffTables(want, a.Tables) {
			v.add("C18", "%s: the whole differs from its parts: %s %s", what, p, s)
		}
	}
}

func judgeEntry(v Verdict, s string) {
	var first *Actual
	var errs []string
	for _, d := range spec.Dialects {
		a, b := parse(s, d), parseNamed(s, d)
		contract(v, a, d.String())
		contract(v, b, d.String())
		if x := identical(a, b); x != "" {
			v.add("C19", "Parse(%v) and Parse%v differ: %s", d, d, x)
		}
		compare(v, predict(s, d), a, d.String())
		if o := predict(s, d); o != nil && o.Err == nil && !b.HasErr && b.Panic == "" {
			for p, x := range diffTables(o.Tables, b.Tables) {
				v.add("C19", "Parse%v does not return the result of %v: %s %s", d, d, p, x)
			}
		} else if o != nil && (o.Err == nil) != (!b.HasErr) && b.Panic == "" {
			v.add("C19", "Parse%v does not follow the grammar of %v: %q", d, d, clip(b.Msg, 200))
		}
		if a.Panic == "" && !a.HasErr && first == nil {
			x := a
			first = &x
		}
		errs = append(errs, a.Msg)
	}
	f := parseForce(s)
	contract(v, f, "ParseForce")
	if f.Panic != "" {
		v.add("C19", "ParseForce panicked: %s", f.Panic)
		return
	}
	if first != nil {
		stats.Extra["parseforce_accept"]++
		if x := identical(*first, f); x != "" {
			v.add("C19", "ParseForce does not return the result of the first dialect that accepts: %s", x)
		}
		return
	}
	stats.Extra["parseforce_reject"]++
	if !f.HasErr {
		v.add("C19", "no dialect accepts the text, but ParseForce returns no error (%d tables)", len(f.Raw))
		v.add("C02", "no dialect accepts the text, but ParseForce returns no error (%d tables)", len(f.Raw))
		return
	}
	if len(f.Raw) != 0 {
		v.add("C19", "ParseForce returns %d tables with an error", len(f.Raw))
	}
	for _, e := range errs {
		if e == f.Msg {
			return
		}
	}
	v.add("C19", "ParseForce reports %q, which no dialect reports (%q)", clip(f.Msg, 200), errs)
}

// substitute replaces placeholders in all texts of an outcome.
func substitute(a Actual, m map[string]string) Actual {
	var kv []string
	for k, x := range m {
		kv = append(kv, k, x)
	}
	rep := strings.NewReplacer(kv...)
	b := a
	b.Tables = mapTables(a.Tables, rep.Replace)
	if a.Err != nil {
		b.Err = &spec.Err{Line: a.Err.Line, Near: rep.Replace(a.Err.Near)}
	}
	return b
}

func mapTables(ts []spec.Table, f func(string) string) []spec.Table {
	fs := func(s []string) []string {
		var r []string
		for _, x := range s {
			r = append(r, f(x))
		}
		return r
	}
	var r []spec.Table
	for _, t := range ts {
		t.Schema, t.Name = f(t.Schema), f(t.Name)
		var cols []spec.Column
		for _, c := range t.Columns {
			c.Name, c.CName, c.Check, c.Collate = f(c.Name), f(c.CName), f(c.Check), f(c.Collate)
			if s, is := c.Default.(string); is {
				c.Default = f(s)
			}
			c.Ref = spec.Ref{Table: f(c.Ref.Table), Cols: fs(c.Ref.Cols)}
			cols = append(cols, c)
		}
		t.Columns = cols
		key := func(ks []spec.Key) []spec.Key {
			var r []spec.Key
			for _, k := range ks {
				r = append(r, spec.Key{Name: f(k.Name), Cols: fs(k.Cols)})
			}
			return r
		}
		t.PK, t.UQ = key(t.PK), key(t.UQ)
		var ch []spec.Check
		for _, k := range t.Checks {
			ch = append(ch, spec.Check{Name: f(k.Name), Expr: f(k.Expr)})
		}
		t.Checks = ch
		var fk []spec.FK
		for _, k := range t.FKs {
			fk = append(fk, spec.FK{Name: f(k.Name), Cols: fs(k.Cols), Ref: spec.Ref{Table: f(k.Ref.Table), Cols: fs(k.Ref.Cols)}})
		}
		t.FKs = fk
		r = append(r, t)
	}
	return r
}

// foldValues removes the case of keywords that are reported as written.
func foldValues(a Actual) Actual {
	b := a
	b.Tables = nil
	for _, t := range a.Tables {
		var cols []spec.Column
		for _, c := range t.Columns {
			if s, is := c.Default.(string); is {
				switch strings.ToUpper(s) {
				case "CURRENT_TIME", "CURRENT_DATE", "CURRENT_TIMESTAMP":
					c.Default = strings.ToUpper(s)
				}
			}
			switch strings.ToUpper(c.Collate) {
			case "BINARY", "NOCASE", "RTRIM":
				c.Collate = strings.ToUpper(c.Collate)
			}
			cols = append(cols, c)
		}
		t.Columns = cols
		b.Tables = append(b.Tables, t)
	}
	if a.Err != nil {
		b.Err = &spec.Err{Line: a.Err.Line, Near: strings.ToUpper(a.Err.Near)}
	}
	return b
}

// ---- JSON ------------------------------------------------------------------

var jsonKeys = map[string][]string{
	"table":      {"schema", "name", "if_not_exists", "columns", "constraints"},
	"column":     {"name", "data_type", "constraint"},
	"type":       {"name", "digit_n", "digit_m"},
	"constraint": {"name", "is_primary_key", "is_unique", "is_not_null", "is_autoincrement", "default", "check", "collate", "references"},
	"ref":        {"table_name", "column_names"},
	"tcon":       {"primary_key", "unique", "check", "foreign_key"},
	"key":        {"name", "column_names"},
	"check":      {"name", "expr"},
	"fk":         {"name", "column_names", "references"},
}

func jsonCheck(ts []ddlparse.Table, text string) string {
	b, err := json.Marshal(ts)
	if err != nil {
		return "cannot be encoded as JSON: " + err.Error()
	}
	var back []ddlparse.Table
	if err := json.Unmarshal(b, &back); err != nil {
		return "cannot be decoded from JSON: " + err.Error()
	}
	if len(back) != len(ts) || len(ts) > 0 && !reflect.DeepEqual(back, ts) {
		for p, s := range diffTables(convert(ts), convert(back)) {
			return "JSON round trip: " + p + " " + s
		}
		b2, _ := json.Marshal(back)
		if !bytes.Equal(b, b2) {
			return "JSON round trip changes the value"
		}
	}
	var g interface{}
	json.Unmarshal(b, &g)
	arr, _ := g.([]interface{})
	for _, t := range arr {
		if s := jsonShape(t, "table"); s != "" {
			return s
		}
	}
	want := make([]interface{}, 0, len(ts))
	for _, t := range convert(ts) {
		want = append(want, jsonOf(t))
	}
	if g == nil {
		g = []interface{}{}
	}
	if w := normal(want); !reflect.DeepEqual(w, normal(g)) {
		wb, _ := json.Marshal(want)
		return fmt.Sprintf("JSON does not carry the values under the documented keys: %s, want %s", clip(string(b), 400), clip(string(wb), 400))
	}
	stats.Extra["json_tables"] += len(arr)
	for _, t := range ts {
		for _, c := range t.Columns {
			if c.DataType.DigitN < 0 || c.DataType.DigitM < 0 {
				return fmt.Sprintf("negative digits: %+v", c.DataType)
			}
			switch x := c.Constraint.Default.(type) {
			case nil, bool, string:
			case float64:
				if x-x != 0 {
					return fmt.Sprintf("default is not finite: %v", x)
				}
			default:
				return fmt.Sprintf("default has type %T", x)
			}
			stats.Extra[fmt.Sprintf("default_%T", c.Constraint.Default)]++
		}
	}
	if utf8.ValidString(text) {
		bad := ""
		mapTables(convert(ts), func(s string) string {
			if !utf8.ValidString(s) {
				bad = s
			}
			return s
		})
		if bad != "" {
			return fmt.Sprintf("invalid UTF-8 in the result: %q", bad)
		}
	}
	return ""
}

func jsonShape(x interface{}, kind string) string {
	m, is := x.(map[string]interface{})
	if !is {
		return fmt.Sprintf("JSON %s is no object: %v", kind, x)
	}
	if len(m) != len(jsonKeys[kind]) {
		return fmt.Sprintf("JSON %s has keys %v, want %v", kind, keysOf(m), jsonKeys[kind])
	}
	for _, k := range jsonKeys[kind] {
		if _, has := m[k]; !has {
			return fmt.Sprintf("JSON %s has keys %v, want %v", kind, keysOf(m), jsonKeys[kind])
		}
	}
	each := func(key, kind string) string {
		l, _ := m[key].([]interface{})
		for _, y := range l {
			if s := jsonShape(y, kind); s != "" {
				return s
			}
		}
		return ""
	}
	sub := map[string][][2]string{
		"table": {{"columns", "column"}}, "tcon": {{"primary_key", "key"}, {"unique", "key"}, {"check", "check"}, {"foreign_key", "fk"}}}
	for _, s := range sub[kind] {
		if r := each(s[0], s[1]); r != "" {
			return r
		}
	}
	one := map[string][][2]string{"table": {{"constraints", "tcon"}}, "column": {{"data_type", "type"}, {"constraint", "constraint"}},
		"constraint": {{"references", "ref"}}, "fk": {{"references", "ref"}}}
	for _, s := range one[kind] {
		if r := jsonShape(m[s[0]], s[1]); r != "" {
			return r
		}
	}
	return ""
}

func keysOf(m map[string]interface{}) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	return r
}

type obj = map[string]interface{}

func list(s []string) []interface{} {
	r := []interface{}{}
	for _, x := range s {
		r = append(r, x)
	}
	return r
}

// jsonOf writes a table under the documented keys.
func jsonOf(t spec.Table) interface{} {
	ref := func(r spec.Ref) obj { return obj{"table_name": r.Table, "column_names": list(r.Cols)} }
	cols, pk, uq, ch, fk := []interface{}{}, []interface{}{}, []interface{}{}, []interface{}{}, []interface{}{}
	for _, c := range t.Columns {
		cols = append(cols, obj{"name": c.Name,
			"data_type": obj{"name": c.Type.Name, "digit_n": float64(c.Type.N), "digit_m": float64(c.Type.M)},
			"constraint": obj{"name": c.CName, "is_primary_key": c.PK, "is_unique": c.UQ, "is_not_null": c.NotNull, "is_autoincrement": c.Inc,
				"default": c.Default, "check": c.Check, "collate": c.Collate, "references": ref(c.Ref)}})
	}
	for _, k := range t.PK {
		pk = append(pk, obj{"name": k.Name, "column_names": list(k.Cols)})
	}
	for _, k := range t.UQ {
		uq = append(uq, obj{"name": k.Name, "column_names": list(k.Cols)})
	}
	for _, k := range t.Checks {
		ch = append(ch, obj{"name": k.Name, "expr": k.Expr})
	}
	for _, k := range t.FKs {
		fk = append(fk, obj{"name": k.Name, "column_names": list(k.Cols), "references": ref(k.Ref)})
	}
	return obj{"schema": t.Schema, "name": t.Name, "if_not_exists": t.IfNotExists, "columns": cols,
		"constraints": obj{"primary_key": pk, "unique": uq, "check": ch, "foreign_key": fk}}
}

// normal makes null and [] the same, except for a default.
func normal(x interface{}) interface{} {
	switch y := x.(type) {
	case obj:
		r := obj{}
		for k, v := range y {
			if v == nil && k != "default" {
				v = []interface{}{}
			}
			r[k] = normal(v)
		}
		return r
	case []interface{}:
		r := []interface{}{}
		for _, v := range y {
			r = append(r, normal(v))
		}
		return r
	case nil:
		return nil
	}
	return x
}
