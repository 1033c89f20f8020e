package main

import (
	"hash/fnv"
	"math/rand"
	"os"
	"sort"
	"strconv"

	"verifharness/gen"
)

// A plan lists how many cases of each workload a check runs. Every check runs
// the general mix and all systematic lists, and more of what concerns it.

type item struct {
	name string
	n    int
}

var general = map[string]int{
	"valid": 24000, "types": 12000, "constraints": 16000, "defaults": 16000, "exprs": 12000, "tablecons": 16000, "refs": 12000,
	"statements": 8000, "options": 16000, "quotes": 12000, "layouts": 10000, "mutated": 20000, "mutated-small": 30000, "mutated-options": 8000,
	"soup": 10000, "text-mutated": 12000, "truncated": 8000, "cross": 10000, "cross-clause": 12000, "size": 500, "total": 6000, "ambiguous": 2000,
}

var generalLists = []string{"enum-words", "enum-quoted", "enum-types", "enum-sentences", "enum-pairs", "enum-defaults", "enum-cross", "enum-mutations", "enum-cuts", "enum-layout", "enum-lex", "enum-comments", "enum-contents", "enum-chars", "enum-wraps", "enum-numbers", "enum-unicode", "enum-planes", "enum-bodies", "enum-contexts", "enum-clauses", "enum-repeat", "enum-column", "enum-defs", "enum-stmts"}

// focus: additional random cases per property.
var focus = map[string]map[string]int{
	"C01": {"total": 80000, "total-large": 600, "truncated": 30000, "text-mutated": 30000, "soup": 20000, "mutated": 20000, "size": 300},
	"C02": {"good+bad": 50000, "empty": 10000, "entry": 20000, "total": 20000, "concat": 5000},
	"C03": {"again": 10000, "ambiguous": 8000, "valid": 20000, "concat": 5000},
	"C04": {"statements": 40000, "valid": 30000, "concat": 5000},
	"C05": {"tablecons": 40000, "valid": 30000, "options": 20000},
	"C06": {"types": 60000, "cross-clause": 10000, "mutated-small": 10000},
	"C07": {"constraints": 60000, "options": 20000, "refs": 10000},
	"C08": {"defaults": 70000, "constraints": 10000},
	"C09": {"exprs": 50000, "defaults": 10000, "tablecons": 10000},
	"C10": {"tablecons": 60000, "options": 15000, "refs": 10000},
	"C11": {"refs": 60000, "tablecons": 20000},
	"C12": {"layout-relation": 30000, "layout-one": 40000, "layouts": 20000},
	"C13": {"quoted-relation": 50000, "quotes": 40000},
	"C14": {"case-relation": 60000, "valid": 10000},
	"C15": {"valid": 60000, "options": 30000, "constraints": 20000, "mutated-options": 10000},
	"C16": {"mutated-small": 60000, "mutated": 40000, "mutated-options": 15000, "soup": 20000},
	"C17": {"mutated": 40000, "text-mutated": 40000, "truncated": 30000, "layouts": 10000},
	"C18": {"concat": 40000, "statements": 20000},
	"C19": {"entry": 60000, "ambiguous": 15000, "cross": 10000},
	"C20": {"strip": 50000, "options": 40000},
	"C21": {"json": 60000, "defaults": 10000},
	"C22": {"ambiguous": 8000, "cross": 50000, "cross-clause": 50000},
	"C23": {"size": 2500},
	"C24": {"cost": 300},
	"C25": {"valid": 10000, "mutated": 10000, "total": 20000, "statements": 10000},
}

// thorough runs longer lists too.
var thoroughLists = map[string][]string{"": {"enum-lex3", "enum-contexts6", "enum-clauses6"}, "C01": {"enum-lex3", "enum-lex4", "enum-contexts6", "enum-clauses6"}, "C13": {"enum-lex3", "enum-lex4", "enum-contexts6", "enum-clauses6"}, "C12": {"enum-lex3", "enum-lex4", "enum-contexts6", "enum-clauses6"}, "C17": {"enum-lex3", "enum-lex4", "enum-contexts6", "enum-clauses6"}}

// strideOf: the quick tier runs one case, drawn at random, of each block of so
// many neighbouring cases of a long list.
func strideOf(prop, tier, list string) int {
	if n, err := strconv.Atoi(os.Getenv("VH_STRIDE")); err == nil { // development
		return n * stride(prop, tier, list)
	}
	return stride(prop, tier, list)
}

func stride(prop, tier, list string) int {
	if tier == "thorough" {
		if (list == "enum-contexts6" || list == "enum-clauses6") && prop != "C16" && prop != "C17" {
			return 4
		}
		return 1
	}
	switch list {
	case "enum-small":
		switch prop {
		case "C02", "C04", "C05", "C10", "C17", "C19", "C21":
			return 4
		}
		return 12
	case "enum-mutations":
		switch prop {
		case "C01", "C02", "C16", "C17", "ALL":
			return 18
		case "C15", "C19", "C22":
			return 36
		}
		return 160
	case "enum-cuts":
		switch prop {
		case "C01", "C02", "C16", "C17", "ALL":
			return 1
		}
		return 8
	case "enum-layout":
		if prop == "C12" {
			return 2
		}
		return 16
	case "enum-comments":
		switch prop {
		case "C12", "C17", "C22", "ALL":
			return 1
		}
		return 4
	case "enum-contents":
		switch prop {
		case "C13", "ALL":
			return 1
		case "C04", "C08", "C09", "C22":
			return 2
		}
		return 6
	case "enum-bodies":
		switch prop {
		case "C01", "C04", "C14", "C15", "C16", "C18", "ALL":
			return 1
		}
		return 10
	case "enum-numbers":
		switch prop {
		case "C06", "C08", "C15", "C16", "C17", "C22", "ALL":
			return 1
		}
		return 6
	case "enum-unicode":
		switch prop {
		case "C16", "ALL":
			return 1
		case "C12", "C15", "C17", "C22":
			return 4
		}
		return 24
	case "enum-planes":
		switch prop {
		case "C13", "ALL":
			return 1
		case "C08", "C09", "C12":
			return 4
		}
		return 24
	case "enum-wraps":
		switch prop {
		case "C16", "ALL":
			return 1
		case "C01", "C15", "C17", "C22":
			return 4
		}
		return 24
	case "enum-chars":
		switch prop {
		case "C15", "C16", "C17", "ALL":
			return 4
		}
		return 24
	case "enum-clauses":
		switch prop {
		case "C16", "C17", "ALL":
			return 4
		case "C01", "C02":
			return 12
		case "C12", "C14", "C15", "C19", "C22":
			return 16
		}
		return 48
	case "enum-contexts":
		switch prop {
		case "C16", "C17", "ALL":
			return 1
		case "C01", "C02":
			return 4
		case "C12", "C14", "C15", "C19", "C22":
			return 8
		}
		return 24
	case "enum-repeat":
		switch prop {
		case "C10", "C11", "C15", "C16", "C17", "C20", "C23", "ALL":
			return 1
		}
		return 4
	case "enum-column":
		switch prop {
		case "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C15", "C16", "C17", "ALL":
			return 1
		}
		return 4
	case "enum-defs":
		switch prop {
		case "C04", "C05", "C07", "C10", "C11", "C15", "ALL":
			return 4
		}
		return 16
	case "enum-stmts":
		switch prop {
		case "C02", "C04", "C15", "C17", "C18", "ALL":
			return 1
		}
		return 4
	case "enum-words":
		switch prop {
		case "C15", "C16", "C22", "C17", "ALL":
			return 1
		}
		return 4
	}
	return 1
}

// aboutValid: properties that say something about accepted texts only.
func aboutValid(prop string) bool {
	switch prop {
	case "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C20", "C21", "C23":
		return true
	}
	return false
}

func planFor(prop, tier string) []item {
	n := map[string]int{}
	for w, c := range general {
		if prop == "C24" {
			break
		}
		switch w {
		case "mutated", "mutated-small", "mutated-options", "soup", "text-mutated", "truncated", "total":
			if aboutValid(prop) {
				c /= 4
			}
		}
		n[w] += c
	}
	for p, f := range focus {
		if p == prop || prop == "ALL" {
			for w, c := range f {
				n[w] += c
			}
		}
	}
	if tier == "thorough" {
		for w := range n {
			switch w {
			case "size", "total-large", "cost":
				n[w] *= 8
			default:
				n[w] *= 25
			}
		}
	}
	if sc, err := strconv.Atoi(os.Getenv("VH_SCALE")); err == nil { // development: percent of the random cases
		for w := range n {
			n[w] = max(n[w]*sc/100, 1)
		}
	}
	var r []item
	for w, c := range n {
		r = append(r, item{w, c})
	}
	sort.Slice(r, func(i, j int) bool { // what concerns the property first
		if a, b := focus[prop][r[i].name], focus[prop][r[j].name]; a != b {
			return a > b
		}
		return r[i].name < r[j].name
	})
	if prop == "C24" {
		return append(r, item{"cost-kinds", lists["cost-kinds"].n()})
	}
	ls := append([]string(nil), generalLists...)
	if tier == "thorough" {
		x := thoroughLists[prop]
		if x == nil {
			x = thoroughLists[""]
		}
		ls = append(ls, x...)
	}
	if prop == "ALL" && os.Getenv("VH_SCALE") == "" {
		ls = append(ls, "huge", "cost-kinds", "enum-sizes")
	}
	if prop == "C01" {
		ls = append(ls, "huge")
	}
	switch {
	case prop == "C23":
		ls = append(ls, "enum-sizes")
	case prop != "ALL":
		ls = append(ls, "enum-small")
	}
	for _, l := range ls {
		n := lists[l].n()
		r = append(r, item{l, n / strideOf(prop, tier, l)})
	}
	return r
}

func total(p []item) int {
	n := 0
	for _, x := range p {
		n += x.n
	}
	return n
}

// locate finds the workload and index within it of the i-th case.
func locate(p []item, i int) (string, int) {
	for _, x := range p {
		if i < x.n {
			return x.name, i
		}
		i -= x.n
	}
	panic("index")
}

func rng(seed int64, prop, workload string, i int) *rand.Rand {
	h := fnv.New64a()
	h.Write([]byte(strconv.FormatInt(seed, 10) + "/" + prop + "/" + workload + "/" + strconv.Itoa(i)))
	return rand.New(&splitmix{h.Sum64()})
}

// splitmix is a cheap random source: seeding the default one for every case
// would dominate the run time.
type splitmix struct{ s uint64 }

func (x *splitmix) Seed(s int64) { x.s = uint64(s) }
func (x *splitmix) Uint64() uint64 {
	x.s += 0x9e3779b97f4a7c15
	z := x.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}
func (x *splitmix) Int63() int64 { return int64(x.Uint64() >> 1) }

// makeCase makes the i-th case of a plan; nil if there is none for this index.
func makeCase(p []item, i int, prop, tier string, seed int64, dict *gen.Dict) (*Case, string) {
	w, j := locate(p, i)
	if l, is := lists[w]; is {
		if s := strideOf(prop, tier, w); s > 1 {
			j = j*s + int(rng(seed, prop, w, j).Uint64()%uint64(s)) // one of each block
		}
		return derive(l.f(j), prop, &Env{R: rng(seed, prop, "derive/"+w, j), I: j, Dict: dict, Tier: tier}), w
	}
	e := &Env{R: rng(seed, prop, w, j), I: j, Dict: dict, Tier: tier}
	return derive(workloads[w](e), prop, e), w
}
