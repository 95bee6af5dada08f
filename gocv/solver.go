package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

type solverSpec struct {
	name string
	cmd  []string
}

func specs(secs int) []solverSpec {
	return []solverSpec{
		{"z3-new", []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", secs)}},
		{"z3", []string{"z3", "-in", "-smt2", fmt.Sprintf("-T:%d", secs)}},
		{"cvc5", []string{"cvc5", "--lang=smt2", "--strings-exp", fmt.Sprintf("--tlimit=%d", secs*1000), "-"}},
		noStr(secs, 3),
		noStr(secs, 11),
		{"z3-new-nombqi", []string{"z3-new", "-in", "-smt2", "smt.mbqi=false", "smt.random_seed=7", fmt.Sprintf("-T:%d", secs)}},
	}
}

// noStr leaves the string operations uninterpreted: only its "unsat" counts.
func noStr(secs, seed int) solverSpec {
	return solverSpec{"z3-new-nostr", []string{"z3-new", "-in", "-smt2", "smt.string_solver=none", "smt.mbqi=false", fmt.Sprintf("smt.random_seed=%d", seed), fmt.Sprintf("-T:%d", secs)}}
}

// quick runs the default solver and the one without string theory.
func quick(ctx context.Context, sc string, secs int) (string, string) {
	type res struct{ r, s string }
	ch := make(chan res, 2)
	qctx, cancel := context.WithCancel(ctx)
	defer cancel()
	sps := []solverSpec{{"z3-new", []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", secs)}}, noStr(secs, 0)}
	for _, sp := range sps {
		sp := sp
		go func() {
			r, _ := runSolver(qctx, sp, sc)
			ch <- res{r, sp.name}
		}()
	}
	for range sps {
		if x := <-ch; x.r == "unsat" || x.r == "sat" {
			return x.r, x.s
		}
	}
	return "unknown", ""
}

var solverSecs float64
var solverCalls int
var solverMu sync.Mutex

func runSolver(ctx context.Context, sp solverSpec, script string) (string, string) {
	t := time.Now()
	cmd := exec.CommandContext(ctx, sp.cmd[0], sp.cmd[1:]...)
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	solverMu.Lock()
	solverSecs += time.Since(t).Seconds()
	solverCalls++
	solverMu.Unlock()
	s := strings.TrimSpace(out.String())
	first, rest, _ := strings.Cut(s, "\n")
	switch first {
	case "sat", "unsat", "unknown":
		if first == "sat" && sp.name == "z3-new-nostr" {
			return "unknown", rest
		}
		return first, rest
	}
	if strings.HasPrefix(first, "(error") || strings.Contains(s, "Parse Error") {
		if os.Getenv("GOCV_DEBUG") != "" {
			os.WriteFile("/tmp/gocv_err.smt2", []byte(script), 0o644)
			fmt.Fprintln(os.Stderr, "solver error", sp.name, s[:min(len(s), 500)])
		}
		return "error", s
	}
	return "unknown", s
}

// relevant keeps the facts connected to the goal's symbols.
func relevant(facts []*Term, goal *Term, depth int) []*Term {
	symCache := factSyms
	get := func(t *Term) map[string]bool {
		if s, ok := symCache[t]; ok {
			return s
		}
		c := &collector{count: map[*Term]int{}, syms: map[string]bool{}}
		c.visit(t)
		symCache[t] = c.syms
		return c.syms
	}
	have := map[string]bool{}
	for s := range get(goal) {
		have[s] = true
	}
	used := make([]bool, len(facts))
	for d := 0; d < depth; d++ {
		add := map[string]bool{}
		changed := false
		for i, f := range facts {
			if used[i] {
				continue
			}
			fs := get(f)
			hit := len(fs) == 0
			for s := range fs {
				if have[s] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				for s := range fs {
					add[s] = true
				}
			}
		}
		for s := range add {
			have[s] = true
		}
		if !changed {
			break
		}
	}
	var out []*Term
	for i, f := range facts {
		if used[i] {
			out = append(out, f)
		}
	}
	return out
}

var factSyms = map[*Term]map[string]bool{}

func hasString(ts []*Term) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if strings.HasPrefix(t.Op, "str.") {
			return true
		}
		for _, a := range t.Args {
			if w(a) {
				return true
			}
		}
		return false
	}
	for _, t := range ts {
		if w(t) {
			return true
		}
	}
	return false
}

func script(facts []*Term, goal *Term, model bool) string {
	as := append(append([]*Term{}, facts...), Not(goal))
	s := Script(as, nil)
	pre := "(set-logic ALL)\n"
	if model {
		pre = "(set-option :produce-models true)\n" + pre
	}
	return pre + s + "(check-sat)\n"
}

// ask proves a goal during execution (loop invariants).
func (e *Exec) ask(goal *Term, secs int) bool {
	p := e.askPrep(goal)
	if p.done {
		return p.res
	}
	return e.askRun(p, secs)
}

type asked struct {
	done, res bool
	sc        string
}

// askPrep writes the query (terms are shared state: one goroutine only).
func (e *Exec) askPrep(goal *Term) asked {
	if goal.IsTrue() || e.factSet[goal] {
		return asked{done: true, res: true}
	}
	if goal = trimGoal(goal, e.facts); goal.IsTrue() {
		return asked{done: true, res: true}
	}
	facts := relevant(e.facts, goal, 12)
	return asked{sc: script(facts, goal, false)}
}

func (e *Exec) askRun(p asked, secs int) (res0 bool) {
	sc := p.sc
	if os.Getenv("GOCV_ASK") != "" {
		t0 := time.Now()
		defer func() {
			if d := os.Getenv("GOCV_DUMP"); d != "" && !res0 {
				f, _ := os.CreateTemp(d, "ask*.smt2")
				f.WriteString(sc)
				f.Close()
			}
			fmt.Fprintf(os.Stderr, "ask %.2fs size=%d secs=%d %v\n", time.Since(t0).Seconds(), len(sc), secs, res0)
		}()
	}
	if os.Getenv("GOCV_SLOW") != "" {
		secs *= 4
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+2)*time.Second)
	defer cancel()
	type res struct{ r, s string }
	sps := specs(secs)
	ch := make(chan res, len(sps))
	r0, _ := quick(ctx, sc, 1)
	if r0 == "unsat" || r0 == "sat" {
		return r0 == "unsat"
	}
	for _, sp := range sps {
		sp := sp
		go func() {
			r, _ := runSolver(ctx, sp, sc)
			ch <- res{r, sp.name}
		}()
	}
	for range sps {
		r := <-ch
		if r.r == "unsat" {
			return true
		}
		if r.r == "sat" {
			return false
		}
	}
	return false
}

// discharge decides the obligations of a finished execution.
func (e *Exec) discharge(par int, secs int) {
	sem := make(chan bool, par)
	var wg sync.WaitGroup
	for _, o := range e.obls {
		if o.Result != "" {
			continue
		}
		o := o
		var bare, semi []*Term
		for _, f := range e.facts[:o.NFacts] {
			if !e.opaqueDef[f] {
				bare = append(bare, f)
			}
			if !e.opaqueApplied[f] {
				semi = append(semi, f)
			}
		}
		var alts []string
		if len(bare) < o.NFacts && (o.Kind == "ensures" || o.Kind == "check" || o.Kind == "requires") {
			alts = append(alts, script(relevant(bare, o.Goal, 30), o.Goal, false))
			if len(semi) > len(bare) && len(semi) < o.NFacts {
				alts = append(alts, script(relevant(semi, o.Goal, 30), o.Goal, false))
			}
		}
		facts := relevant(e.facts[:o.NFacts], o.Goal, 30)
		sc := script(facts, o.Goal, false)
		if d := os.Getenv("GOCV_DUMP"); d != "" {
			for i, a := range alts {
				os.WriteFile(fmt.Sprintf("%s/%s_%d_alt%d.smt2", d, sanitize(o.Label), o.NFacts, i), []byte(a), 0o644)
			}
			os.WriteFile(fmt.Sprintf("%s/%s_%d.smt2", d, sanitize(o.Label), o.NFacts), []byte(sc), 0o644)
		}
		wg.Add(1)
		go func() {
			sem <- true
			defer func() { <-sem; wg.Done() }()
			t := time.Now()
			for _, a := range alts {
				if r, _ := proveQuickUnsat(a); r {
					o.Result, o.Solver = "proved", "z3-new"
					break
				}
			}
			if o.Result == "" {
				o.Result, o.Solver = prove(sc, secs)
			}
			o.Secs = time.Since(t).Seconds()
		}()
	}
	wg.Wait()
}

// prove returns proved / failed (a solver found a model) / unknown.
func prove(sc string, secs int) (string, string) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+3)*time.Second)
	defer cancel()
	r, by := quick(ctx, sc, 3)
	if r == "unsat" {
		return "proved", by
	}
	sawSat := ""
	if r == "sat" {
		return "failed", by
	}
	type res struct{ r, s string }
	sps := specs(secs)
	ch := make(chan res, len(sps))
	for _, sp := range sps {
		sp := sp
		go func() {
			r, _ := runSolver(ctx, sp, sc)
			ch <- res{r, sp.name}
		}()
	}
	for range sps {
		x := <-ch
		if x.r == "unsat" {
			return "proved", x.s
		}
		if x.r == "sat" {
			sawSat = x.s
			break
		}
	}
	if sawSat != "" {
		return "failed", sawSat
	}
	return "unknown", ""
}

// trimGoal drops the conjuncts of a goal that are facts under a weaker guard.
func trimGoal(goal *Term, facts []*Term) *Term {
	ant, con := True(), goal
	if goal.Op == "=>" {
		ant, con = goal.Args[0], goal.Args[1]
	}
	want := map[*Term]bool{}
	for _, c := range conjs(con) {
		if len(c.Args) > 0 {
			want[c] = true
		}
	}
	have := map[*Term]bool{}
	for _, c := range conjs(ant) {
		have[c] = true
	}
	drop := map[*Term]bool{}
	for _, f := range facts {
		if want[f] {
			drop[f] = true
			continue
		}
		if f.Op != "=>" || !want[f.Args[1]] {
			continue
		}
		ok := true
		for _, c := range conjs(f.Args[0]) {
			ok = ok && have[c]
		}
		if ok {
			drop[f.Args[1]] = true
		}
	}
	if len(drop) == 0 {
		return goal
	}
	var keep []*Term
	for _, c := range conjs(con) {
		if !drop[c] {
			keep = append(keep, c)
		}
	}
	return Imp(ant, And(keep...))
}
