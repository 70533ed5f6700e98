package main

// Verification of a function against its contract, and of lemmas.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Ob struct {
	sassume []*Term
	sgoal   *Term

	Fn     string  `json:"function"`
	Kind   string  `json:"kind"`
	Name   string  `json:"name"`
	Pos    string  `json:"position,omitempty"`
	Status string  `json:"status"`
	By     string  `json:"back_end"`
	Secs   float64 `json:"seconds"`
	Out    string  `json:"solver_output,omitempty"`
	Paths  int     `json:"paths,omitempty"`

	assume []*Term
	goal   *Term
	query  string
	wg     *sync.WaitGroup
}

func (o *Ob) id() string { return o.Fn + " :: " + o.Kind + " :: " + o.Name }

type Verif struct {
	key            string
	simpFor        []*Term
	simpCtx        *ctxSimp
	noPanic        bool
	allowPanic     bool
	allPanic       bool // in a new goroutine: any call may panic
	callerRecovers bool
	onecrit        bool   // an operation of a store: one critical section
	pre            *State // at entry
	recv           *Term  // the receiver
	uses           map[string]bool
	inlined        map[string]bool
	locks          int
	obs            []*Ob
	quiet          int // >0: discovery, nothing is recorded
	notes          []string
	recs           map[string]bool // spec functions relevant to loop invariants
	loops          []string
	lemmas         map[string]bool
	routes         map[string]bool
	mapinvs        map[string]bool // entry invariants relied upon
}

type sem chan struct{}

// no solver call is started after this
var solveDeadline = func() *atomic.Int64 {
	var d atomic.Int64
	d.Store(time.Now().Add(24 * time.Hour).UnixNano())
	return &d
}()

var solveSem = make(sem, 7)
var failBudget struct {
	sync.Mutex
	fails int
}

func (v *Verif) oblige(st *State, kind, name string, goal *Term, pos token.Position) {
	if v.quiet > 0 {
		return
	}
	p := ""
	if pos.IsValid() {
		p = fmt.Sprintf("%s:%d", strings.TrimPrefix(pos.Filename, repoDir+"/"), pos.Line)
	}
	v.add(&Ob{Fn: v.key, Kind: kind, Name: name, Pos: p}, st.pc, goal)
}

func (v *Verif) add(o *Ob, assume []*Term, goal *Term) {
	if v.quiet > 0 {
		return
	}
	v.obs = append(v.obs, o)
	if goal == tTrue {
		o.Status, o.By = "proved", "simplifier"
		return
	}
	for _, a := range assume {
		if a == goal || a == tFalse {
			o.Status, o.By = "proved", "simplifier"
			return
		}
	}
	sa, sg, _ := v.simplified(assume, goal)
	if sg == tTrue {
		o.Status, o.By = "proved", "simplifier"
		return
	}
	for _, a := range sa {
		if a == sg {
			o.Status, o.By = "proved", "simplifier"
			return
		}
	}
	qs := buildQuery(sa, sg, 0)
	o.sassume, o.sgoal = sa, sg
	o.assume = append([]*Term{}, assume...)
	o.goal = goal
	if goal.op == "and" && len(goal.args) > 1 {
		// prove conjuncts one by one, with the earlier ones available
		o.query = ""
	}
	q := buildQuery(o.assume, goal, defFuel)
	rec := strings.Contains(q, "declare-fun |")
	q3, q4 := "", ""
	_ = rec
	q3 = buildQuery(o.assume, goal, defFuel+1)
	q1 := buildQuery(o.assume, goal, 1)
	q4 = buildQuery(o.assume, goal, defFuel+3)
	q0 := buildQuery(o.assume, goal, 0)
	tries := []string{qs, q0, buildQuery(sa, sg, defFuel), q1, q, q3, q4}
	var parts []string
	for _, g := range alignGoal(goal) {
		parts = append(parts, buildQuery(o.assume, g, defFuel))
	}
	if strings.Contains(q, "bxor") {
		tries = append(tries, buildQueryM(o.assume, goal, 1, true))
	}
	o.wg = &sync.WaitGroup{}
	o.wg.Add(1)
	go func() {
		solveSem <- struct{}{}
		defer func() { <-solveSem; o.wg.Done() }()
		t0 := time.Now()
		defer func() { o.Secs = time.Since(t0).Seconds() }()
		failBudget.Lock()
		many := failBudget.fails >= 6
		failBudget.Unlock()
		to := 8 * time.Second
		if many {
			to = 3 * time.Second
		}
		if time.Now().UnixNano() > solveDeadline.Load() {
			o.Status, o.By, o.Out = "failed", "none", "not attempted: the time for this check is used up"
			return
		}
		var last solverRes
		if len(parts) > 0 {
			ok, by := true, ""
			for _, p := range parts {
				r := checkQuick(p, 2*time.Second)
				if r.r != Unsat {
					ok = false
					break
				}
				by = r.by
			}
			if ok {
				o.Status, o.By = "proved", by
				return
			}
		}
		seen := map[string]bool{}
		for i, qq := range tries {
			if seen[qq] || qq == "" {
				continue
			}
			seen[qq] = true
			t := to
			if i <= 3 {
				t = 3 * time.Second
			}
			last = check(qq, t, false)
			if last.r == Unsat {
				o.Status, o.By = "proved", last.by
				return
			}
			if many && i >= 3 {
				break
			}
		}
		o.Status = "failed"
		o.By = last.by
		m := check(q+"; model\n", 4*time.Second, true)
		o.Out = "result: " + last.r.String() + "\n" + trunc(m.out, 4000)
		o.query = q
		failBudget.Lock()
		failBudget.fails++
		failBudget.Unlock()
	}()
}

// alignGoal: subgoals sufficient for an equation of two concatenations with
// equally many pieces, or nil.
func alignGoal(g *Term) []*Term {
	if g.op != "=" || g.args[0].sort != SSeqI {
		return nil
	}
	a, b := pieces(g.args[0]), pieces(g.args[1])
	if len(a) != len(b) || len(a) < 2 {
		return nil
	}
	var out []*Term
	for i := range a {
		e := Eq(a[i], b[i])
		if e == tFalse {
			return nil
		}
		if e != tTrue {
			out = append(out, e)
		}
	}
	return out
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (v *Verif) wait() {
	for _, o := range v.obs {
		if o.wg != nil {
			o.wg.Wait()
		}
	}
}

func (v *Verif) failed() []*Ob {
	var out []*Ob
	for _, o := range v.obs {
		if o.Status != "proved" {
			out = append(out, o)
		}
	}
	return out
}

type FnResult struct {
	v       *Verif
	c       *Contract
	missing bool
	paths   int
	inputs  map[string]SV
}

var verbose = os.Getenv("GOVC_V") != ""

func (x *Exec) fail(v *Verif, kind, name, why string) {
	v.obs = append(v.obs, &Ob{Fn: v.key, Kind: kind, Name: name, Status: "failed", By: "generator", Out: why})
}

// relevantFns: spec functions reachable from the contract's clauses.
func (x *Exec) relevantFns(c *Contract) map[string]bool {
	out := map[string]bool{}
	var rec func(ex *Ex)
	rec = func(ex *Ex) {
		if ex == nil {
			return
		}
		if ex.op == "call" || ex.op == "id" {
			if f := x.specs.fns[ex.name]; f != nil && !out[ex.name] {
				out[ex.name] = true
				rec(f.body)
			}
		}
		for _, a := range ex.args {
			rec(a)
		}
	}
	cls := c.clauses
	for _, r := range c.serves {
		cls = append(append([]*Clause{}, cls...), x.specs.routes[r].clauses...)
	}
	for _, cl := range cls {
		rec(cl.ex)
		if cl.kind == "use" {
			for _, a := range cl.exs {
				rec(a)
			}
		}
	}
	if c.mayWhen != nil {
		rec(c.mayWhen)
	}
	if c.panics != nil {
		rec(c.panics)
	}
	return out
}

func (x *Exec) verifyFn(key string) (res *FnResult) {
	c := x.specs.contracts[key]
	fn := x.P.funcs[key]
	v := &Verif{key: key, uses: map[string]bool{}, inlined: map[string]bool{}, lemmas: map[string]bool{}, mapinvs: map[string]bool{}}
	res = &FnResult{v: v, c: c}
	if fn == nil || len(fn.Blocks) == 0 {
		res.missing = true
		return
	}
	v.noPanic = c.panics == nil && !c.may
	v.recs = x.relevantFns(c)
	x.v = v
	defer func() {
		x.v = nil
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				x.fail(v, "subset", "function is within the verifier's subset", e.msg)
			case specErr:
				x.fail(v, "spec", "contract is well-formed for this code", e.msg)
			case needInvariant:
				x.fail(v, "invariant", "loop invariant found", fmt.Sprintf("loop at %s", x.P.prog.Fset.Position(e.l.header.Instrs[0].Pos())))
			default:
				if verbose {
					panic(r)
				}
				x.fail(v, "generator", "obligations could be generated", fmt.Sprint(r))
			}
		}
	}()
	if len(c.params) != len(fn.Params) {
		spanic("contract of %s names %d parameters, the function has %d", key, len(c.params), len(fn.Params))
	}
	if len(c.results) != fn.Signature.Results().Len() {
		spanic("contract of %s names %d results, the function has %d", key, len(c.results), fn.Signature.Results().Len())
	}
	st := &State{heap: map[string]*Store{}, regions: map[int]*Region{}, base: "0", x: x}
	vars := map[string]SV{}
	var args, binds []Value
	mkParam := func(name string, t types.Type) Value {
		a := x.fresh(st, t, name)
		if a.k == KSlice {
			r := *st.regions[a.sl.reg]
			r.param = name
			st.regions[a.sl.reg] = &r
		}
		if _, ok := t.Underlying().(*types.Pointer); ok && !c.nilable[name] {
			st.assume(Ne(a.t, Int(0)))
		}
		vars[name] = SV{v: a, t: t}
		return a
	}
	for i, p := range fn.Params {
		args = append(args, mkParam(c.params[i], p.Type()))
	}
	for _, p := range fn.FreeVars {
		binds = append(binds, mkParam(p.Name(), p.Type()))
	}
	env := &SpecEnv{x: x, st: st, old: st, vars: vars, pkg: fn.Pkg.Pkg}
	for _, cl := range c.clauses {
		// requires p == value: p is that value
		if cl.kind == "requires" {
			for _, e := range exConj(cl.ex) {
				if e.op == "bin" && e.name == "==" && e.args[0].op == "field" {
					// requires p.f == value of a singleton: the field holds it
					if t := env.term(e.args[1]); t.isInt() && t.n.Int64() >= initBase {
						x.setLoc(st, env, e.args[0], lv(t))
					}
					continue
				}
				if e.op != "bin" || e.name != "==" || e.args[0].op != "id" {
					continue
				}
				n := e.args[0].name
				for i := range c.params {
					if c.params[i] == n && args[i].k == KTerm {
						if t := env.term(e.args[1]); t.isInt() {
							args[i] = term(t)
							vars[n] = SV{v: args[i], t: vars[n].t}
						}
					}
				}
			}
		}
		if cl.kind == "requires" {
			st.assume(env.boolean(cl.ex))
		}
	}
	res.inputs = vars
	if len(st.pc) > 0 && check(buildQuery(st.pc, nil, 1), 5*time.Second, false).r == Unsat {
		x.fail(v, "vacuity", "precondition is satisfiable", "the requires clauses contradict each other")
		return
	}
	for _, cl := range c.clauses {
		if cl.kind == "begins" { // ghost assignment
			x.setLoc(st, env, cl.loc, env.eval(cl.ex))
		}
	}
	pre := st.clone()
	v.pre, v.onecrit = pre, c.props["C19"]
	if fn.Signature.Recv() != nil && len(args) > 0 && args[0].k == KTerm {
		v.recv = args[0].t
	}
	var outs []Outcome
	if c.deferred {
		ps := st.clone()
		ps.panic = Fresh("panicval", SVal)
		ps.assume(Ne(ps.panic, tVNil))
		outs = x.run(fn, args, binds, ps, true, 0)
		outs = append(outs, x.run(fn, args, binds, st, true, 0)...)
	} else {
		outs = x.run(fn, args, binds, st, false, 0)
	}
	res.paths = len(outs)
	for _, r := range c.serves {
		if !v.routes[r] {
			x.fail(v, "route", r+" is served", "no handler with a known function is registered for it")
		}
	}
	for _, f := range sortedKeys(v.mapinvs) {
		if why := x.mapInvStable(f); why != "" {
			x.fail(v, "mapinv", "entry invariant of "+f+" is stable", why)
		} else {
			v.obs = append(v.obs, &Ob{Fn: key, Kind: "mapinv", Name: "entry invariant of " + f + " is stable", Status: "proved", By: "generator"})
		}
	}
	normal := 0
	vac := newVac(v, "some path returns without contradiction")
	defer vac.done(x)
	for i := range outs {
		o := &outs[i]
		if dead(o.st) {
			continue
		}
		if !o.panic {
			normal++
			vac.add(o.st.pc)
		}
		x.exitObligations(v, c, fn.Pkg.Pkg, pre, o, vars, fn.Signature.Results(), fn.Pos())
	}
	if normal == 0 {
		onlyLoops := len(outs) == 0 && len(v.loops) > 0
		if !onlyLoops && !(c.panics != nil || c.may) {
			x.fail(v, "vacuity", "some path returns", "no path of the function reaches a return")
		}
	}
	return
}

func splitConj(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

func (x *Exec) exitObligations(v *Verif, c *Contract, pkg *types.Package, pre *State, o *Outcome, params map[string]SV, rs *types.Tuple, pos token.Pos) {
	st := o.st
	if len(st.rebase) > 0 {
		// the operation takes effect in its last critical section
		pre = pre.clone()
		for _, r := range st.rebase {
			x.storeLoc(pre, r.key, r.ref, r.val, r.mt)
		}
	}
	vars := map[string]SV{}
	for k, p := range params {
		vars[k] = p
	}
	preEnv := &SpecEnv{x: x, st: pre, old: pre, vars: params, pkg: pkg}
	where := x.P.prog.Fset.Position(pos)
	if o.panic {
		seen := map[*Term]bool{}
		for n := st.heap["L:held"]; n != nil && n.ref != nil; n = n.prev {
			if !seen[n.ref] {
				seen[n.ref] = true
				v.oblige(st, "lock", "the mutex is released when a panic leaves the function", Not(x.held(st, n.ref)), where)
			}
		}
		x.postconditions(v, c, &SpecEnv{x: x, st: st, old: pre, vars: vars, pkg: pkg, evs: st.events}, st, where, true)
		if c.may {
			if c.mayWhen != nil {
				v.oblige(st, "panics", "panics only when "+c.mayWhen.src, preEnv.boolean(c.mayWhen), where)
			}
			return
		}
		if c.panics == nil {
			v.oblige(st, "nopanic", "no panic escapes", tFalse, where)
			return
		}
		v.oblige(st, "panics", "panics only when "+c.panics.src, preEnv.boolean(c.panics), where)
		return
	}
	for i, n := range c.results {
		vars[n] = SV{v: o.res[i], t: rs.At(i).Type()}
		if o.res[i].guard != nil {
			v.oblige(st, "lock", "a shared table is not handed out", tFalse, where)
		}
	}
	env := &SpecEnv{x: x, st: st, old: pre, vars: vars, pkg: pkg, evs: st.events}
	if c.panics != nil {
		v.oblige(st, "panics", "panics whenever "+c.panics.src, Not(preEnv.boolean(c.panics)), where)
		// without the panic, its condition is known false (just proved)
		st.assume(Not(preEnv.boolean(c.panics)))
	}
	for _, cl := range c.clauses {
		if cl.kind == "use" {
			x.useLemma(v, st, env, cl.name, cl.exs, cl.ex)
		}
	}
	x.postconditions(v, c, env, st, where, false)
	x.frame(v, c, pre, st, preEnv, vars, pkg, where)
}

// postconditions: the ensures clauses, or only those that hold on every exit.
func (x *Exec) postconditions(v *Verif, c *Contract, env *SpecEnv, st *State, where token.Position, panicking bool) {
	doneWD := map[*Term]bool{}
	for _, cl := range c.clauses {
		if cl.kind != "ensures" || panicking && !cl.always {
			continue
		}
		name := cl.name
		if panicking {
			name += " (panic)"
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(noEvent); ok {
						// fewer calls than the clause speaks of
						v.oblige(st, "ensures", name, tFalse, where)
						return
					}
					panic(r)
				}
			}()
			g, wd := env.defined(cl.ex)
			if g.sort != SBool {
				spanic("boolean expected: %s", cl.text)
			}
			for _, w := range wd {
				if !doneWD[w] {
					doneWD[w] = true
					v.oblige(st, "defined", name, w, where)
				}
			}
			for _, cj := range splitConj(g) {
				v.oblige(st, "ensures", name, cj, where)
			}
		}()
	}
}

// frame: apart from the sets/modifies clauses nothing that existed before the
// call has changed, and the sets clauses hold exactly.
func (x *Exec) frame(v *Verif, c *Contract, pre, st *State, preEnv *SpecEnv, vars map[string]SV, pkg *types.Package, where token.Position) {
	exp := pre.clone()
	anyKey := map[string]bool{}
	heapAny := false
	resEnv := &SpecEnv{x: x, st: pre, old: pre, vars: vars, pkg: pkg}
	named := map[string][]*Term{}
	for _, cl := range c.clauses {
		switch cl.kind {
		case "modifies":
			cond := tTrue
			if cl.ex != nil {
				cond = x.underPC(st, preEnv.boolean(cl.ex))
			}
			if cond == tFalse {
				continue
			}
			for _, lx := range cl.exs {
				for _, l := range x.locsOf(resEnv, lx) {
					switch {
					case l.all:
						heapAny = true
					case l.reg != 0:
						exp.regions[l.reg] = st.regions[l.reg]
					case l.ref == nil:
						anyKey[l.key] = true
					case isMapKey(l.key):
						exp.heap[l.key] = &Store{ref: l.ref, val: MapIte(cond, x.loadMap(st, l.typ, l.ref), x.loadMap(exp, l.typ, l.ref)), prev: exp.heap[l.key]}
					default:
						x.storeLoc(exp, l.key, l.ref, Ite(cond, x.loadLoc(st, l.key, l.ref, l.typ), x.loadLoc(exp, l.key, l.ref, l.typ)), l.typ)
					}
				}
			}
		}
	}
	for _, cl := range c.clauses {
		if cl.kind == "sets" && !isGhost(cl.loc) {
			x.setLoc(exp, resEnv, cl.loc, resEnv.eval(cl.ex))
			ls := x.locsOf(resEnv, cl.loc)
			for _, l := range ls {
				if l.ref != nil {
					named[l.key] = append(named[l.key], l.ref)
				}
			}
		}
	}
	// parameter slices
	for id, r := range pre.regions {
		n := st.regions[id]
		if n == nil || n.content == exp.regions[id].content {
			continue
		}
		_ = r
		v.oblige(st, "frame", "slice "+r.param+" has the specified content", Eq(n.content, exp.regions[id].content), where)
	}
	keys := map[string]bool{}
	for k := range st.heap {
		keys[k] = true
	}
	for k := range exp.heap {
		keys[k] = true
	}
	if st.base != pre.base && !heapAny {
		v.oblige(st, "frame", "only the named state changes", tFalse, where)
		return
	}
	for _, k := range sortedKeys(keys) {
		if k == "C:clock" || k == "L:shared" || strings.HasPrefix(k, "L:g:") || k == "L:called" && named[k] == nil || anyKey[k] || heapAny && !strings.HasPrefix(k, "L:") {
			continue
		}
		if st.heap[k] == exp.heap[k] {
			continue
		}
		t := x.keyRng[k]
		refs := map[*Term]bool{}
		symbolic := false
		for _, h := range []*Store{st.heap[k], exp.heap[k]} {
			for n := h; n != nil; n = n.prev {
				if n.ref == nil {
					symbolic = true
					break
				}
				if n == pre.heap[k] {
					break
				}
				if n.ref.isInt() {
					if r := n.ref.n.Int64(); r >= allocBase && r < closBase {
						continue
					}
					refs[n.ref] = true
				} else {
					symbolic = true
				}
			}
		}
		var qs []*Term
		if symbolic {
			q := Fresh("anyref", SInt)
			setRng(q, mkRng(0, allocBase-1))
			qs = append(qs, q)
		}
		var cs []*Term
		for r := range refs {
			cs = append(cs, r)
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i].n.Cmp(cs[j].n) < 0 })
		qs = append(qs, cs...)
		for _, q := range qs {
			var g *Term
			if isMapKey(k) {
				g = mapEq(x.loadMapChain(st, st.heap[k], k, q, t), x.loadMapChain(exp, exp.heap[k], k, q, t))
			} else {
				g = Eq(x.loadChain(st, st.heap[k], k, q, t), x.loadChain(exp, exp.heap[k], k, q, t))
			}
			v.oblige(st, "frame", k+" changes exactly as specified", g, where)
		}
	}
}

// ---- lemmas ----

func (x *Exec) useLemma(v *Verif, st *State, env *SpecEnv, name string, args []*Ex, cond *Ex) {
	l := x.specs.lemmas[name]
	if l == nil {
		spanic("unknown lemma %s", name)
	}
	v.lemmas[name] = true
	vars := map[string]SV{}
	for i, p := range l.params {
		vars[p] = lv(env.tm(env.eval(args[i])))
	}
	le := &SpecEnv{x: x, st: env.st, old: env.old, vars: vars}
	ante := tTrue
	if cond != nil {
		ante = env.boolean(cond)
	}
	for _, r := range l.req {
		ante = And(ante, le.boolean(r))
	}
	for _, e := range l.ens {
		st.assume(Implies(ante, le.boolean(e)))
	}
}

func (x *Exec) verifyLemma(name string) *FnResult {
	l := x.specs.lemmas[name]
	v := &Verif{key: "lemma " + name, uses: map[string]bool{}, inlined: map[string]bool{}, lemmas: map[string]bool{}, mapinvs: map[string]bool{}}
	res := &FnResult{v: v}
	if l.assumed != "" {
		v.notes = append(v.notes, "assumed: "+l.assumed)
		return res
	}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				x.fail(v, "spec", "lemma is well-formed", e.msg)
				return
			}
			panic(r)
		}
	}()
	st := &State{heap: map[string]*Store{}, regions: map[int]*Region{}, base: "0", x: x}
	vars := map[string]SV{}
	measure := -1
	for i, p := range l.params {
		s := Sym("lem_"+name+"_"+p, l.sorts[i])
		if l.elems[i] != nil {
			setElem(s, l.elems[i])
		}
		vars[p] = lv(s)
		if measure < 0 && l.sorts[i] == SSeqI {
			measure = i
		}
	}
	if measure < 0 {
		for i := range l.params {
			if l.sorts[i] == SInt {
				measure = i
				break
			}
		}
	}
	env := &SpecEnv{x: x, st: st, old: st, vars: vars}
	for _, r := range l.req {
		st.assume(env.boolean(r))
	}
	if check(buildQuery(st.pc, nil, 1), 5*time.Second, false).r == Unsat {
		x.fail(v, "vacuity", "lemma hypothesis is satisfiable", "")
	}
	for _, e := range l.ens {
		_, wd := env.defined(e)
		for _, w := range wd {
			v.oblige(st, "defined", "conclusion is meaningful: "+e.src, w, token.Position{})
		}
	}
	for _, u := range l.uses {
		if u.name == name {
			// the induction hypothesis needs a smaller argument
			m := func(t *Term) *Term {
				if t.sort == SSeqI {
					return Len(t)
				}
				return t
			}
			cur := m(env.tm(vars[l.params[measure]]))
			arg := m(env.term(u.args[measure]))
			c := tTrue
			if u.cond != nil {
				c = env.boolean(u.cond)
			}
			v.oblige(st, "decreases", "induction is well-founded", Implies(c, And(Le(Int(0), arg), Lt(arg, cur))), token.Position{})
		}
		x.useLemma(v, st, env, u.name, u.args, u.cond)
	}
	delete(v.lemmas, name)
	vac := newVac(v, "lemma assumptions are consistent")
	vac.add(st.pc)
	vac.done(x)
	for i, e := range l.ens {
		g := env.boolean(e)
		for _, cj := range splitConj(g) {
			v.oblige(st, "lemma", fmt.Sprintf("conclusion %d: %s", i+1, e.src), cj, token.Position{})
		}
	}
	return res
}

// verifyFnDef checks that a recursive specification function only looks at
// elements and subsequences that exist, and that its first sequence (or
// integer) argument shrinks at every recursive call.
func (x *Exec) verifyFnDef(name string) *FnResult {
	f := x.specs.fns[name]
	v := &Verif{key: "spec " + name, uses: map[string]bool{}, inlined: map[string]bool{}, lemmas: map[string]bool{}, mapinvs: map[string]bool{}}
	res := &FnResult{v: v}
	if f.body == nil || !f.rec {
		return res
	}
	st := &State{heap: map[string]*Store{}, regions: map[int]*Region{}, base: "0", x: x}
	vars := map[string]SV{}
	var first *Term
	for i, p := range f.params {
		s := Sym("def_"+name+"_"+p, f.sorts[i])
		if f.elems[i] != nil {
			setElem(s, f.elems[i])
		}
		vars[p] = lv(s)
		if first == nil && f.sorts[i] == SSeqI {
			first = Len(s)
		}
	}
	byInt := first == nil || f.sorts[0] == SInt
	if byInt {
		first = vars[f.params[0]].v.t
	}
	env := &SpecEnv{x: x, st: st, old: st, vars: vars, self: name}
	env.selfNeed = func(args []*Term) *Term {
		for i := range f.params {
			if f.sorts[i] == SSeqI && !byInt {
				return Lt(Len(args[i]), first)
			}
		}
		return And(Le(Int(0), args[0]), Lt(args[0], first))
	}
	body, wd := env.defined(f.body)
	for _, w := range wd {
		v.oblige(st, "defined", "definition of "+name+" is meaningful and well-founded", w, token.Position{})
	}
	// facts about the result, by induction (they are available for the
	// recursive calls, whose argument is smaller)
	if f.rrng != nil {
		g := tTrue
		if f.rrng.lo != nil {
			g = And(g, Le(BigInt(f.rrng.lo), body))
		}
		if f.rrng.hi != nil {
			g = And(g, Le(body, BigInt(f.rrng.hi)))
		}
		v.oblige(st, "fact", "range of "+name, g, token.Position{})
	}
	if f.clen != nil {
		v.oblige(st, "fact", "length of "+name, Eq(Len(body), env.term(f.clen)), token.Position{})
	}
	for _, fx := range f.facts {
		vars["result"] = lv(body)
		v.oblige(st, "fact", fx.src, env.boolean(fx), token.Position{})
		delete(vars, "result")
	}
	if f.ret == SSeqI && f.elem != nil {
		var rec func(t, path *Term)
		rec = func(t, path *Term) {
			switch t.op {
			case "ite":
				rec(t.args[1], And(path, t.args[0]))
				rec(t.args[2], And(path, Not(t.args[0])))
			case "++":
				for _, a := range t.args {
					rec(a, path)
				}
			case "empty":
			case "unit":
				v.oblige(st, "fact", "elements of "+name, Implies(path, And(Le(BigInt(f.elem.lo), t.args[0]), Le(t.args[0], BigInt(f.elem.hi)))), token.Position{})
			default:
				e := elemRangeOf(t)
				ok := e != nil && e.lo != nil && e.hi != nil && e.lo.Cmp(f.elem.lo) >= 0 && e.hi.Cmp(f.elem.hi) <= 0
				v.oblige(st, "fact", "elements of "+name, Implies(path, Bool(ok)), token.Position{})
			}
		}
		rec(body, tTrue)
	}
	return res
}

// vac checks that at least one of several path conditions is satisfiable as
// far as the solver can tell (an inconsistent axiom or model would make every
// obligation trivially true).
type vac struct {
	v    *Verif
	name string
	qs   []string
	n    int
}

func newVac(v *Verif, name string) *vac { return &vac{v: v, name: name} }

func (c *vac) add(pc []*Term) {
	c.n++
	if len(c.qs) < 6 {
		c.qs = append(c.qs, buildQuery(pc, nil, 1))
	}
}

func (c *vac) done(x *Exec) {
	if c.n == 0 {
		return
	}
	o := &Ob{Fn: c.v.key, Kind: "vacuity", Name: c.name, wg: &sync.WaitGroup{}}
	c.v.obs = append(c.v.obs, o)
	o.wg.Add(1)
	go func() {
		solveSem <- struct{}{}
		defer func() { <-solveSem; o.wg.Done() }()
		t0 := time.Now()
		defer func() { o.Secs = time.Since(t0).Seconds() }()
		for _, q := range c.qs {
			if r := checkQuick(q, 2*time.Second); r.r != Unsat {
				o.Status, o.By = "proved", r.by
				return
			}
		}
		o.Status, o.Out = "failed", "every examined path condition is contradictory"
	}()
}

func exConj(e *Ex) []*Ex {
	if e.op == "bin" && e.name == "&&" {
		return append(exConj(e.args[0]), exConj(e.args[1])...)
	}
	return []*Ex{e}
}
