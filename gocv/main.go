package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	cdir := flag.String("contracts", "/verif/contracts", "contract sources")
	only := flag.String("contract", "", "verify one contract")
	list := flag.Bool("list", false, "list contracts as JSON")
	secs := flag.Int("secs", 30, "solver seconds per obligation")
	par := flag.Int("par", 4, "parallel solver runs")
	jsonOut := flag.Bool("json", false, "JSON result")
	flag.Parse()
	t0 := time.Now()
	v, err := LoadAll(*repo, *cdir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gocv:", err)
		if *jsonOut || *list {
			json.NewEncoder(os.Stdout).Encode(map[string]any{"error": err.Error()})
		}
		os.Exit(3)
	}
	if *list {
		json.NewEncoder(os.Stdout).Encode(map[string]any{"contracts": v.contracts, "dropped": v.dropped, "notes": v.notes})
		return
	}
	for _, c := range v.contracts {
		if *only != "" && c.Name != *only && !strings.HasSuffix(c.Name, "."+*only) {
			continue
		}
		solverSecs, solverCalls = 0, 0
		factSyms = map[*Term]map[string]bool{}
		indexVars = map[*Term]bool{}
		v.notes = nil
		t := time.Now()
		r := v.Verify(c, *secs, *par)
		if *jsonOut {
			json.NewEncoder(os.Stdout).Encode(r)
			continue
		}
		fmt.Printf("== %s [%s] %s %s (%d obligations, %d trivial, %d invariants, %.2fs exec %.2fs, solver %.2fs/%d) vacuous=%v\n", c.Name, strings.Join(c.Props, ","), r.Status, r.Reason, len(r.Obligations), r.Trivial, r.Invariants, time.Since(t).Seconds(), r.ExecSecs, r.SolverSecs, r.SolverCalls, r.Vacuous)
		for _, o := range r.Obligations {
			if o.Result != "proved" || os.Getenv("GOCV_V") != "" {
				fmt.Printf("   %-8s %-9s %s  at %s in %s (%s %.2fs)\n", o.Result, o.Kind, o.Label, o.Pos, o.Func, o.Solver, o.Secs)
			}
		}
		for _, n := range r.Notes {
			fmt.Println("   note:", n)
		}
		for _, m := range r.Models {
			b, _ := json.Marshal(m.Inputs)
			fmt.Println("   model for", m.Obligation, string(b))
		}
		if os.Getenv("GOCV_V") != "" {
			for _, a := range r.Assumptions {
				fmt.Println("   assume:", a)
			}
		}
	}
	if !*jsonOut {
		for _, d := range v.dropped {
			fmt.Println("dropped:", d)
		}
		fmt.Printf("total %.2fs\n", time.Since(t0).Seconds())
	}
}
