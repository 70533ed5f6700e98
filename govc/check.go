package main

// The check of one property: every contract and lemma the property rests on is
// verified against the current source.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

type known struct {
	prop, id, what string
}

// loadKnown reads known-findings.txt: lines
//
//	known: property=<id> obligation="<id>" <what fails>
//	fixed: property=<id> <commit> <what failed>       (suppresses nothing)
func loadKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		k := known{}
		rest := strings.TrimSpace(l[6:])
		if strings.HasPrefix(rest, "property=") {
			i := strings.IndexByte(rest, ' ')
			k.prop = rest[9:i]
			rest = strings.TrimSpace(rest[i:])
		}
		if strings.HasPrefix(rest, "obligation=\"") {
			j := strings.IndexByte(rest[12:], '"')
			k.id = rest[12 : 12+j]
			rest = strings.TrimSpace(rest[13+j:])
		}
		k.what = rest
		out = append(out, k)
	}
	return out
}

// targets: everything a property rests on.
type checker struct {
	x       *Exec
	prop    string
	results map[string]*FnResult
	dropped map[string]string
	skipped []string
}

func (c *checker) verify(key string) *FnResult {
	if r := c.results[key]; r != nil {
		return r
	}
	var r *FnResult
	switch {
	case strings.HasPrefix(key, "lemma "):
		r = c.x.verifyLemma(key[6:])
	case strings.HasPrefix(key, "spec "):
		r = c.x.verifyFnDef(key[5:])
	default:
		r = c.x.verifyFn(key)
	}
	c.results[key] = r
	return r
}

func (c *checker) deps(key string, r *FnResult) []string {
	var out []string
	for k := range r.v.uses {
		if con := c.x.specs.contracts[k]; con != nil && con.assumed == "" && !strings.HasPrefix(k, "interface ") {
			out = append(out, k)
		}
	}
	for l := range r.v.lemmas {
		out = append(out, "lemma "+l)
	}
	var fns map[string]bool
	if strings.HasPrefix(key, "lemma ") {
		fns = c.x.lemmaFns(c.x.specs.lemmas[key[6:]])
	} else if con := c.x.specs.contracts[key]; con != nil {
		fns = c.x.relevantFns(con)
	}
	for f := range fns {
		if d := c.x.specs.fns[f]; d != nil && d.rec && d.body != nil {
			out = append(out, "spec "+f)
		}
	}
	sort.Strings(out)
	return out
}

func (x *Exec) lemmaFns(l *Lemma) map[string]bool {
	fake := &Contract{}
	for _, e := range append(append([]*Ex{}, l.req...), l.ens...) {
		fake.clauses = append(fake.clauses, &Clause{ex: e})
	}
	return x.relevantFns(fake)
}

// lemmaCycle reports a circular use of lemmas.
func (x *Exec) lemmaCycle() string {
	state := map[string]int{}
	var bad string
	var rec func(n string)
	rec = func(n string) {
		state[n] = 1
		if l := x.specs.lemmas[n]; l != nil {
			for _, u := range l.uses {
				if u.name == n {
					continue // induction, checked by its decreases obligation
				}
				switch state[u.name] {
				case 0:
					rec(u.name)
				case 1:
					bad = n + " <-> " + u.name
				}
			}
		}
		state[n] = 2
	}
	for _, n := range sortedKeys(x.specs.lemmas) {
		if state[n] == 0 {
			rec(n)
		}
	}
	return bad
}

func runCheck(prop string) int {
	t0 := time.Now()
	solveDeadline.Store(t0.Add(8 * time.Minute).UnixNano())
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	// The real code is run against the same oracles at the same time: for the
	// failing input when an obligation fails, and as a check of what the proof
	// assumes about libraries and of the parts labelled bounded.
	hch := make(chan struct{})
	var hr *harnessRes
	go func() {
		hr = runHarness(prop, seed, tier, "")
		if hr != nil && hr.failed {
			solveDeadline.Store(time.Now().Add(100 * time.Second).UnixNano())
		}
		close(hch)
	}()
	P, err := loadProgram(repoDir)
	if err != nil {
		fmt.Println("the repository does not load:", err)
		return 1
	}
	activeProp = prop
	sp := loadSpecs(filepath.Join(verifDir, "contracts"))
	P.analyseMutation(sp.singles)
	x := newExec(P, sp)
	x.declareFns()
	if cy := x.lemmaCycle(); cy != "" {
		fmt.Println("circular lemmas:", cy)
		return 1
	}
	c := &checker{x: x, prop: prop, results: map[string]*FnResult{}, dropped: map[string]string{}}
	roots := map[string]bool{}
	for k, con := range sp.contracts {
		if con.props[prop] {
			roots[k] = true
		}
	}
	for n, l := range sp.lemmas {
		if l.props[prop] {
			roots["lemma "+n] = true
		}
	}
	if len(roots) == 0 {
		fmt.Println("no contracts for", prop)
		return 1
	}
	// Verify to a fixpoint.  An auxiliary contract (one that does not state the
	// property) that fails or no longer fits is dropped, and its users are
	// verified again with the function's body in place of the contract.
	swept, searched := false, false
	for round := 0; round < 14; round++ {
		var order []string
		seen := map[string]bool{}
		var visit func(k string)
		visit = func(k string) {
			if seen[k] {
				return
			}
			seen[k] = true
			order = append(order, k)
			r := c.verify(k)
			for _, d := range c.deps(k, r) {
				visit(d)
			}
		}
		for _, k := range sortedKeys(roots) {
			visit(k)
		}
		again := false
		for _, k := range order {
			r := c.results[k]
			r.v.wait()
			if roots[k] || strings.HasPrefix(k, "lemma ") || strings.HasPrefix(k, "spec ") {
				continue
			}
			why := ""
			if r.missing {
				why = "no such function"
			} else if f := r.v.failed(); len(f) > 0 {
				why = "not proved: " + f[0].Kind + " " + f[0].Name
			}
			if why != "" {
				c.dropped[k] = why
				x.disabled[k] = true
				again = true
			}
		}
		bad := false
		for _, k := range order {
			bad = bad || c.results[k].missing || len(c.results[k].v.failed()) > 0
		}
		if bad && !searched {
			// the proof has a gap: look for a failing input on the real code first
			<-hch
			searched = true
			if hr == nil || !hr.failed {
				hr = hr.join(runHarness(prop, seed, tier, "replay"))
			}
		}
		if bad && hr != nil && hr.failed {
			break
		}
		if !again && (prop == "C19" || prop == "C20") && !swept {
			swept = true
			found := c.sweep
			if prop == "C20" {
				found = c.sweepGo
			}
			for _, k := range found() {
				roots[k] = true
				again = true
			}
			if again {
				continue
			}
		}
		if !again {
			for k := range c.results {
				if !seen[k] {
					delete(c.results, k)
				}
			}
			break
		}
		failBudget.Lock()
		failBudget.fails = 0
		failBudget.Unlock()
		// forget the results that relied on a dropped contract
		for changed := true; changed; {
			changed = false
			for k, r := range c.results {
				bad := x.disabled[k]
				for u := range r.v.uses {
					bad = bad || x.disabled[u]
				}
				if bad {
					delete(c.results, k)
					changed = true
				}
			}
		}
	}
	// outcome
	kn := loadKnown(filepath.Join(verifDir, "known-findings.txt"))
	var fails []*Ob
	var allObs []*Ob
	loops := []string{}
	inlined := map[string]bool{}
	usesAssumed := map[string]string{}
	bounded := map[string]string{}
	var fns []string
	for _, k := range sortedKeys(c.results) {
		r := c.results[k]
		if r.missing {
			fails = append(fails, &Ob{Fn: k, Kind: "exists", Name: "the function under contract exists", Status: "failed", By: "generator", Out: "no function " + k + " in the current tree"})
			continue
		}
		allObs = append(allObs, r.v.obs...)
		fails = append(fails, r.v.failed()...)
		loops = append(loops, r.v.loops...)
		for i := range r.v.inlined {
			inlined[i] = true
		}
		for u := range r.v.uses {
			if con := sp.contracts[u]; con != nil && (con.assumed != "" || strings.HasPrefix(u, "interface ")) {
				w := con.assumed
				if w == "" {
					w = "behaviour of any implementation left open except: " + clauseText(con)
				}
				usesAssumed[u] = w
			}
		}
		if con := sp.contracts[k]; con != nil && con.bounded != "" {
			bounded[k] = con.bounded
		}
		if !strings.HasPrefix(k, "lemma ") && !strings.HasPrefix(k, "spec ") {
			fns = append(fns, k)
		}
	}
	if prop == "C18" {
		for _, o := range c.atomicObs() {
			allObs = append(allObs, o)
			if o.Status == "failed" {
				fails = append(fails, o)
			}
		}
	}
	if len(allObs) == 0 {
		fails = append(fails, &Ob{Fn: prop, Kind: "generator", Name: "obligations were generated", Status: "failed"})
	}
	var fresh []*Ob
	shown := map[string]bool{}
	for _, o := range fails {
		hit := false
		for _, k := range kn {
			if k.prop == prop && k.id == o.id() {
				hit = true
				if !shown[k.id] {
					shown[k.id] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.what)
				}
			}
		}
		if !hit {
			fresh = append(fresh, o)
		}
	}
	<-hch
	if !searched && (len(fresh) > 0 || tier == "thorough") && (hr == nil || !hr.failed) {
		hr = hr.join(runHarness(prop, seed, tier, "replay"))
	}
	code := 0
	viol := 0
	if len(fresh) > 0 || hr != nil && hr.failed {
		code, viol = 1, 1
		path := writeReplay(prop, fresh, hr, c)
		suffix := " no-failing-input-found"
		if hr != nil && hr.failed {
			suffix = ""
		}
		for i, o := range fresh {
			if i < 5 {
				fmt.Printf("failed obligation: %s (%s) %s\n", o.id(), o.Pos, firstLine(o.Out))
			}
		}
		if len(fresh) == 0 {
			fmt.Println("every obligation is discharged, but the real code fails on a concrete input: an assumption of the proof, or a part only checked within bounds, is broken")
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, path, suffix)
	}
	writeEvidence(prop, tier, seed, t0, c, allObs, fails, fns, loops, inlined, usesAssumed, bounded, viol, hr)
	if code == 0 {
		fmt.Printf("%s: %d obligations over %d functions and %d lemmas discharged in %.1fs\n", prop, len(allObs), len(fns), len(c.results)-len(fns), time.Since(t0).Seconds())
		for _, k := range sortedKeys(c.dropped) {
			fmt.Printf("note: auxiliary contract of %s set aside (%s); its body is verified inside its callers\n", k, c.dropped[k])
		}
	}
	return code
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func clauseText(c *Contract) string {
	var out []string
	for _, cl := range c.clauses {
		out = append(out, cl.kind+" "+cl.text)
	}
	if c.may {
		out = append(out, "may panic")
	}
	return strings.Join(out, "; ")
}

type harnessRes struct {
	failed  bool
	ran     bool
	nobuild bool
	cases   int
	cmd     string
	out     string
	secs    float64
}

// join adds the result of a further run.
func (h *harnessRes) join(g *harnessRes) *harnessRes {
	if h == nil || g == nil {
		if h == nil {
			return g
		}
		return h
	}
	return &harnessRes{failed: h.failed || g.failed, ran: h.ran || g.ran, nobuild: h.nobuild || g.nobuild, cases: h.cases + g.cases,
		cmd: h.cmd + g.cmd, out: h.out + g.out, secs: h.secs + g.secs}
}

// runHarness looks for a concrete failing input by running the real code: the
// harness files are laid over the repository, nothing is written to it.
//
// Tests named _replay only run when an obligation has failed.
func runHarness(prop string, seed int, tier string, which string) *harnessRes {
	dir := filepath.Join(verifDir, "harness")
	idx, err := os.ReadFile(filepath.Join(dir, "index.txt"))
	if err != nil {
		return nil
	}
	tmp, err := os.MkdirTemp("", "govc-harness-")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(tmp)
	res := &harnessRes{}
	t0 := time.Now()
	for _, l := range strings.Split(string(idx), "\n") {
		f := strings.Fields(l)
		if len(f) < 2 || strings.HasPrefix(l, "#") {
			continue
		}
		src, err := os.ReadFile(filepath.Join(dir, f[0]))
		re := regexp.MustCompile(`func TestVerif` + prop + `(_bounded[0-9]*)?\(`)
		run := "^TestVerif" + prop + "(_bounded[0-9]*)?$"
		if which != "" {
			re = regexp.MustCompile(`func TestVerif` + prop + `_` + which + `\(`)
			run = "^TestVerif" + prop + "_" + which + "$"
		}
		if err != nil || !re.Match(src) {
			continue
		}
		pkg := f[1]
		rep := map[string]string{}
		args := []string{"test", "-c", "-o", filepath.Join(tmp, "h.test"), "-vet=off", "-overlay", filepath.Join(tmp, "overlay.json")}
		for i, x := range f {
			switch {
			case i == 1:
			case strings.HasPrefix(x, "-"):
				args = append(args, x)
			default:
				rep[filepath.Join(repoDir, pkg, "zz_"+strings.TrimSuffix(x, ".go")+"_verif_test.go")] = filepath.Join(dir, x)
			}
		}
		// the repository's own tests are left out
		own, _ := filepath.Glob(filepath.Join(repoDir, pkg, "*_test.go"))
		for _, o := range own {
			rep[o] = ""
		}
		for o, b := range repoOverlay {
			to := filepath.Join(tmp, strings.ReplaceAll(strings.TrimPrefix(o, repoDir+"/"), "/", "__"))
			os.WriteFile(to, b, 0o644)
			rep[o] = to
		}
		j, _ := json.Marshal(map[string]any{"Replace": rep})
		os.WriteFile(filepath.Join(tmp, "overlay.json"), j, 0o644)
		res.cmd += "tools/harness.sh " + prop + " (" + f[0] + " laid over /repo/" + pkg + ")\n"
		cmd := exec.Command("timeout", append([]string{"300", "go"}, append(args, "./"+pkg)...)...)
		cmd.Dir = repoDir
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")
		if out, err := cmd.CombinedOutput(); err != nil {
			res.out += "does not build: " + trunc(string(out), 4000) + "\n"
			res.nobuild = true
			continue
		}
		res.ran = true
		cmd = exec.Command("timeout", "240", filepath.Join(tmp, "h.test"), "-test.run", run)
		cmd.Dir = tmp
		cmd.Env = append(os.Environ(), "VERIF_SEED="+strconv.Itoa(seed), "VERIF_TIER="+tier)
		out, err := cmd.CombinedOutput()
		s := string(out)
		res.out += trunc(s, 20000)
		for _, m := range regexp.MustCompile(`(?m)^CASES \S+ (\d+)`).FindAllStringSubmatch(s, -1) {
			n, _ := strconv.Atoi(m[1])
			res.cases += n
		}
		if err != nil && (strings.Contains(s, "FAILING INPUT") || strings.Contains(s, "DATA RACE") || strings.Contains(s, "fatal error: concurrent map")) {
			res.failed = true
		}
	}
	res.secs = time.Since(t0).Seconds()
	return res
}

func writeReplay(prop string, fails []*Ob, hr *harnessRes, c *checker) string {
	dir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, prop+".txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\n\n", prop)
	if hr != nil && hr.failed {
		fmt.Fprintf(&sb, "== failing input on the real code ==\n%s\n%s\n", hr.cmd, hr.out)
	} else if hr != nil && hr.ran {
		fmt.Fprintf(&sb, "== search for a failing input on the real code found none ==\n%s\n%s\n", hr.cmd, trunc(hr.out, 2000))
	}
	fmt.Fprintf(&sb, "== failed obligations ==\n")
	for _, o := range fails {
		fmt.Fprintf(&sb, "\n%s\n  at %s, back end %s\n", o.id(), o.Pos, o.By)
		if o.goal != nil {
			fmt.Fprintf(&sb, "  goal: %s\n", trunc(o.goal.String(), 3000))
			for _, a := range o.assume {
				fmt.Fprintf(&sb, "  given: %s\n", trunc(a.String(), 600))
			}
		}
		fmt.Fprintf(&sb, "  verifier output: %s\n", trunc(o.Out, 4000))
	}
	if len(c.dropped) > 0 {
		fmt.Fprintf(&sb, "\n== auxiliary contracts set aside ==\n")
		for _, k := range sortedKeys(c.dropped) {
			fmt.Fprintf(&sb, "%s: %s\n", k, c.dropped[k])
		}
	}
	os.WriteFile(path, []byte(sb.String()), 0o644)
	return path
}

// initName: a library's package initialiser.
func initName(m string) bool {
	return strings.HasSuffix(strings.TrimSuffix(m, " (deterministic, uninterpreted)"), ".init")
}

func writeEvidence(prop, tier string, seed int, t0 time.Time, c *checker, obs, fails []*Ob, fns, loops []string, inlined map[string]bool, assumed map[string]string, bounded map[string]string, viol int, hr *harnessRes) {
	by := map[string]int{}
	kinds := map[string]int{}
	done := 0
	perFn := map[string]int{}
	var samples []map[string]any
	for _, o := range obs {
		if o.Status == "proved" {
			done++
			by[o.By]++
			kinds[o.Kind]++
			perFn[o.Fn]++
			if o.Kind == "ensures" && len(samples) < 12 && o.By != "simplifier" {
				samples = append(samples, map[string]any{"obligation": o.id(), "at": o.Pos, "back_end": o.By, "seconds": o.Secs})
			}
		}
	}
	trusted := []string{
		"govc (this framework): translation of go/ssa instructions to logical obligations, and its simplifier",
		"golang.org/x/tools/go/ssa and the Go type checker: construction of SSA from /repo's source",
		"SMT solvers z3 5.3.2, z3 4.8.12, cvc5 1.1.2",
	}
	var assumptions []string
	for _, m := range sortedKeys(c.x.modeled) {
		if initName(m) {
			continue
		}
		assumptions = append(assumptions, "library model: "+m)
	}
	for _, m := range sortedKeys(c.x.assumed) {
		if initName(m) {
			continue
		}
		assumptions = append(assumptions, "unspecified library function, arbitrary result, touches only its slice and pointer arguments: "+m)
	}
	for _, m := range sortedKeys(assumed) {
		assumptions = append(assumptions, "assumed contract: "+m+": "+assumed[m])
	}
	for n, r := range c.results {
		for _, s := range r.v.notes {
			assumptions = append(assumptions, n+": "+s)
		}
	}
	for _, s := range c.x.P.notes {
		assumptions = append(assumptions, "reading of the source: "+s)
	}
	sort.Strings(assumptions)
	assumptions = append(assumptions,
		"slicing or reading past the length of a slice counts as a run-time failure even where spare capacity would let it proceed",
		"each function is verified as sequential code; interference by other goroutines enters only through the lock discipline obligations",
		"distinct pointer-typed inputs may alias unless typed apart; interior pointers into the same object are not tracked across calls",
		"package initialisers of libraries do not touch the server's variables",
		"memory allocation succeeds; stack depth is unbounded; floating point is left uninterpreted")
	cov := map[string]any{
		"obligations":              len(obs),
		"discharged":               done,
		"checker_cmd":              "bin/govc check " + prop,
		"trusted_base":             trusted,
		"functions_under_contract": fns,
		"functions_inlined":        sortedKeys(inlined),
		"loops_with_invariants":    loops,
		"lemmas_and_definitions":   len(c.results) - len(fns),
		"obligations_by_kind":      kinds,
		"discharged_by":            by,
		"obligations_per_function": perFn,
		"solver_calls":             solverCalls,
		"solver_seconds":           float64(solverTime) / 1e9,
		"samples":                  samples,
	}
	if len(c.dropped) > 0 {
		cov["auxiliary_contracts_set_aside"] = c.dropped
	}
	if len(bounded) > 0 {
		cov["bounded_not_proved"] = bounded
	}
	if hr != nil {
		cov["concrete_search"] = map[string]any{"ran": hr.ran, "built": !hr.nobuild, "cases": hr.cases, "found_failing_input": hr.failed, "seconds": hr.secs,
			"role": "replay of violations on the real code, and a bounded check of the proof's assumptions and of bounded_not_proved; not counted as proof"}
	}
	var fl []string
	for _, o := range fails {
		fl = append(fl, o.id())
	}
	if len(fl) > 0 {
		cov["failed"] = fl
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"coverage": cov, "assumptions": assumptions,
		"wall_s": time.Since(t0).Seconds(), "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0o644)
}
