package main

import (
	"context"
	"math/rand"
	"os"

	"github.com/kodaimura/ddlparse"

	"verifharness/spec"
)

// C03 within one long-lived process: all general workloads and lists, one text
// after the other. Each result is compared with the specification; one that
// differs is compared with that of the same call in a fresh process. Earlier
// calls are made again after some others, results are kept and looked at again,
// and others are overwritten.

type past struct {
	call  callItem
	hash  uint64
	kept  []ddlparse.Table // nil if it was overwritten
	after int
}

var (
	pasts     [64]past
	calls     int
	freshDone int
	histRand  = rand.New(&splitmix{7})
)

func judgeHistory(v Verdict, c Case) {
	what := c.D.String()
	it := callItem{c.Texts[0], int(c.D)}
	if calls%5 == 4 {
		it.Entry = 3 + int(c.D) // the same through ParseSQLite etc.
	}
	if c.Tag == "ambiguous" && calls%2 == 0 || calls%11 == 10 {
		it.Entry = 6
	}
	calls++
	t, err, pan := it.do()
	got := print(t, err, pan)
	w := Verdict{}
	a := call(func() ([]ddlparse.Table, error) { return t, err })
	a.Panic = pan
	contract(w, a, what)
	if it.Entry < 6 {
		compare(w, predict(it.Text, c.D), a, what)
	} else {
		// ParseForce: as the first dialect that accepts
		for _, d := range []spec.Dialect{spec.SQLite, spec.PostgreSQL, spec.MySQL} {
			o := predict(it.Text, d)
			if o == nil || o.Err == nil {
				compare(w, o, a, "ParseForce")
				break
			}
		}
	}
	if len(w) > 0 && freshDone < 150 {
		// not as specified: does it depend on the calls before?
		freshDone++
		self, _ := os.Executable()
		if out, err := it.fresh(context.Background(), self); err == nil && string(out) != got {
			v.add("C03", "%s: a fresh process returns %s, this one after %d other calls %s", it.name(), clip(string(out), 400), calls, clip(got, 400))
			return
		}
	}
	if len(it.Text) > 20000 {
		return
	}
	// an earlier call again
	p := &pasts[histRand.Intn(len(pasts))]
	if p.call.Text != "" {
		calls++
		stats.Calls++
		t2, err, pan := p.call.do()
		if s := print(t2, err, pan); hash(s) != p.hash {
			v.add("C03", "%s of %q: a call that is repeated after %d others returns something else: %s", p.call.name(), clip(p.call.Text, 300), calls-p.after, clip(s, 400))
			*p = past{}
			return
		}
		if p.kept != nil && hash(print(p.kept, nil, "")) != hash(print(t2, nil, "")) {
			v.add("C03", "%s of %q: a kept result changed during %d later calls: %s", p.call.name(), clip(p.call.Text, 300), calls-p.after, clip(print(p.kept, nil, ""), 400))
			*p = past{}
			return
		}
		stats.Extra["calls_repeated_later"]++
		if p.kept != nil {
			stats.Extra["kept_results_rechecked"]++
		}
		if histRand.Intn(2) == 0 {
			scribble(t2)
		}
	}
	if histRand.Intn(2) == 0 {
		n := past{call: it, hash: hash(got), after: calls}
		if pan == "" && err == nil && histRand.Intn(2) == 0 {
			n.kept = t
		} else if histRand.Intn(2) == 0 {
			scribble(t)
		}
		*p = n
	}
}
