// Command vh runs the code under test under hostile workloads while monitors
// compare what they observe with the specification in package spec.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh check ID | worker ... | isolate FILE | replay FILE | one | race ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2]))
	case "worker":
		worker(os.Args[2:])
	case "isolate":
		isolate(os.Args[2])
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "one":
		one()
	case "effects":
		effects(os.Args[2:])
	case "race":
		raceMain(os.Args[2:])
	case "case": // print the i-th case of a plan
		i, _ := strconv.Atoi(os.Args[3])
		tier, seed := tierSeed()
		c, w := makeCase(planFor(os.Args[2], tier), i, os.Args[2], tier, seed, scanDict())
		b, _ := json.MarshalIndent(c, "", " ")
		fmt.Println(w, string(b))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

func tierSeed() (string, int64) {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	return tier, seed
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "vh:", err)
		os.Exit(2)
	}
}
