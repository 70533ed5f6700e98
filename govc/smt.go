package main

import (
	"bytes"
	"context"
	"fmt"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

func (r SatResult) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// occurrences of terms
func walk(seen map[*Term]bool, t *Term, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.args {
		walk(seen, a, f)
	}
	f(t)
}

const defFuel = 2

// wfAll: every subsequence taken inside the terms lies within its sequence
// (the simplifier and SMT agree on subsequences only then).
func wfAll(ts []*Term) *Term {
	seen := map[*Term]bool{}
	g := tTrue
	for _, t := range ts {
		walk(seen, t, func(x *Term) {
			if x.op == "sub" {
				s, o, n := x.args[0], x.args[1], x.args[2]
				g = And(g, Le(Int(0), o), Le(Int(0), n), Le(Add(o, n), Len(s)))
			}
		})
	}
	return g
}

// buildQuery renders assumptions /\ not(goal).  Recursive spec functions are
// unfolded `fuel` times; ranges of machine integers are asserted.
func buildQuery(assume []*Term, goal *Term, fuel int) string {
	return buildQueryM(assume, goal, fuel, false)
}

// xorFacts: bxor is an Abelian group operation of exponent two; recursive
// functions are unfolded under it so that associativity is applied by the
// normal form of BXor.
func xorFacts(t *Term, unfold bool) []*Term {
	a, b := t.args[0], t.args[1]
	out := []*Term{
		Implies(Eq(a, Int(0)), mk("=", SBool, "", nil, t, b)),
		Implies(Eq(b, Int(0)), mk("=", SBool, "", nil, t, a)),
		mk("=", SBool, "", nil, Eq(t, Int(0)), Eq(a, b)),
	}
	var leaves []*Term
	var rec func(x *Term)
	rec = func(x *Term) {
		if x.op == "uf" && x.name == "bxor" {
			rec(x.args[0])
			rec(x.args[1])
			return
		}
		leaves = append(leaves, x)
	}
	rec(t)
	bytes := true
	for _, l := range leaves {
		r := rangeOf(l)
		if r.lo == nil || r.hi == nil || r.lo.Sign() < 0 || r.hi.Cmp(byteRng.hi) > 0 {
			bytes = false
		}
	}
	if bytes {
		out = append(out, mk("<=", SBool, "", nil, Int(0), t), mk("<=", SBool, "", nil, t, Int(255)))
	}
	if unfold {
		for i, l := range leaves {
			if l.op != "uf" {
				continue
			}
			d := getFn(l.name)
			if d == nil || d.unfold == nil {
				continue
			}
			body := d.unfold(l.args)
			if body == nil {
				continue
			}
			rest := Int(0)
			for j, o := range leaves {
				if j != i {
					rest = BXor(rest, o)
				}
			}
			var lift func(b *Term) *Term
			lift = func(b *Term) *Term {
				if b.op == "ite" {
					return mk("ite", SInt, "", nil, b.args[0], lift(b.args[1]), lift(b.args[2]))
				}
				return BXor(rest, b)
			}
			out = append(out, Implies(wfAll(l.args), mk("=", SBool, "", nil, t, lift(body))))
		}
	}
	return out
}

func buildQueryM(assume []*Term, goal *Term, fuel int, bvMode bool) string {
	all := append([]*Term{}, assume...)
	if goal != nil {
		all = append(all, Not(goal))
	}
	seen := map[*Term]bool{}
	var order []*Term
	level := map[*Term]int{}
	frontier := append([]*Term{}, all...)
	extra := []*Term{}
	for depth := 0; ; depth++ {
		var newT []*Term
		for _, t := range frontier {
			walk(seen, t, func(x *Term) {
				order = append(order, x)
				level[x] = depth
				newT = append(newT, x)
			})
		}
		if len(newT) == 0 {
			break
		}
		var next []*Term
		for _, x := range newT {
			if x.op != "uf" {
				continue
			}
			if x.name == "bxor" && !bvMode {
				next = append(next, xorFacts(x, depth < fuel)...)
				continue
			}
			d := getFn(x.name)
			if d == nil {
				continue
			}
			if d.facts != nil && depth <= fuel+1 {
				g := wfAll(x.args)
				for _, f := range d.facts(x.args) {
					next = append(next, Implies(g, f))
				}
			}
			if d.unfold != nil && depth < fuel {
				if b := d.unfold(x.args); b != nil {
					next = append(next, Implies(wfAll(x.args), mk("=", SBool, "", nil, x, b)))
				}
			}
		}
		if depth <= 1 {
			// elements of a sequence that equals a repetition
			for _, r := range order {
				if r.op != "uf" || r.name != "replv" {
					continue
				}
				for _, n := range order {
					if n.op == "nth" && n.args[0].sort == SSeqV && n.args[0] != r && (level[r] == depth || level[n] == depth) {
						next = append(next, Implies(And(Eq(n.args[0], r), Le(Int(0), n.args[1]), Lt(n.args[1], r.args[1])), mk("=", SBool, "", nil, n, r.args[0])))
					}
				}
			}
		}
		extra = append(extra, next...)
		frontier = next
		if len(next) == 0 {
			break
		}
	}
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	needVal := false
	for _, t := range order {
		if t.sort == SVal || t.sort == SSeqV {
			needVal = true
		}
	}
	if needVal {
		sb.WriteString("(declare-datatypes ((Val 0)) (((VNil) (VI (vt Int) (vi Int)) (VS (st Int) (ss (Seq Int))))))\n")
		sb.WriteString("(define-fun vtag ((v Val)) Int (ite ((_ is VNil) v) 0 (ite ((_ is VI) v) (vt v) (st v))))\n")
	}
	decl := map[string]bool{}
	var asserts []string
	name := map[*Term]string{}
	uses := map[*Term]int{}
	for _, t := range order {
		for _, a := range t.args {
			uses[a]++
		}
	}
	var rend func(t *Term) string
	rend = func(t *Term) string {
		if n, ok := name[t]; ok {
			return n
		}
		var s string
		switch {
		case len(t.args) == 0:
			s = t.smtHead()
		case t.op == "uf" && (t.name == "bxor" && bvMode || t.name == "bor" || t.name == "band"):
			s = "(" + t.name + " " + rend(t.args[0]) + " " + rend(t.args[1]) + ")"
		default:
			var b strings.Builder
			b.WriteByte('(')
			b.WriteString(t.smtHead())
			for _, a := range t.args {
				b.WriteByte(' ')
				b.WriteString(rend(a))
			}
			b.WriteByte(')')
			s = b.String()
		}
		return s
	}
	var defs strings.Builder
	for _, t := range order {
		if t.op == "sym" && !decl[t.name] {
			decl[t.name] = true
			fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", smtName(t.name), t.sort)
		}
		if t.op == "uf" && !decl["f:"+t.name] {
			decl["f:"+t.name] = true
			if t.name == "bxor" && bvMode || t.name == "bor" || t.name == "band" {
				fmt.Fprintf(&sb, "(define-fun %s ((x Int) (y Int)) Int (bv2nat (%s ((_ int2bv 64) x) ((_ int2bv 64) y))))\n", t.name, map[string]string{"bxor": "bvxor", "bor": "bvor", "band": "bvand"}[t.name])
			} else {
				var ps []string
				for _, a := range t.args {
					ps = append(ps, string(a.sort))
				}
				fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", smtName(t.name), strings.Join(ps, " "), t.sort)
			}
		}
		if len(t.args) > 0 && (uses[t] > 1 || t.op == "uf") && t.sort != SMap {
			r := rend(t)
			n := fmt.Sprintf("t%d", t.id)
			fmt.Fprintf(&defs, "(define-fun %s () %s %s)\n", n, t.sort, r)
			name[t] = n
		}
		// ranges
		if t.sort == SInt && (t.op == "sym" || t.op == "uf" || t.op == "nth") {
			if t.op == "uf" && (t.name == "bxor" && bvMode || t.name == "bor" || t.name == "band") {
				continue
			}
			r := rangeOf(t)
			x := rend(t)
			if r.lo != nil {
				asserts = append(asserts, "(assert (<= "+BigInt(r.lo).smtHead()+" "+x+"))")
			}
			if r.hi != nil {
				asserts = append(asserts, "(assert (<= "+x+" "+BigInt(r.hi).smtHead()+"))")
			}
		}
	}
	sb.WriteString(defs.String())
	for _, a := range asserts {
		sb.WriteString(a)
		sb.WriteByte('\n')
	}
	for _, t := range extra {
		if t != tTrue {
			fmt.Fprintf(&sb, "(assert %s)\n", rend(t))
		}
	}
	for _, t := range all {
		if t != tTrue {
			fmt.Fprintf(&sb, "(assert %s)\n", rend(t))
		}
	}
	return sb.String()
}

// ---- solver processes ----

var (
	solverTime  int64 // ns
	solverCalls int64
	qcache      sync.Map
	solverUse   sync.Map // solver -> *int64
)

type solverRes struct {
	r   SatResult
	out string
	by  string
}

func runOne(name string, args []string, q string, to time.Duration) (SatResult, string) {
	return runCtx(context.Background(), name, args, q, to)
}

func runCtx(parent context.Context, name string, args []string, q string, to time.Duration) (SatResult, string) {
	ctx, cancel := context.WithTimeout(parent, to+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Stdin = strings.NewReader(q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	_ = cmd.Run()
	atomic.AddInt64(&solverTime, int64(time.Since(t0)))
	atomic.AddInt64(&solverCalls, 1)
	s := strings.TrimSpace(out.String())
	switch {
	case strings.HasPrefix(s, "unsat"):
		return Unsat, s
	case strings.HasPrefix(s, "sat"):
		return Sat, s
	}
	return Unknown, s
}

func countUse(n string) {
	v, _ := solverUse.LoadOrStore(n, new(int64))
	atomic.AddInt64(v.(*int64), 1)
}

// check decides a query with the z3 back end; on unknown, tries the older z3
// and cvc5.
func check(q string, to time.Duration, model bool) solverRes {
	if v, ok := qcache.Load(q); ok {
		return v.(solverRes)
	}
	full := q + "(check-sat)\n"
	if model {
		full += "(get-model)\n"
	}
	first := 1500 * time.Millisecond
	if to < first {
		first = to
	}
	r, out := runOne("z3-new", []string{"-in", "-smt2", fmt.Sprintf("-t:%d", first.Milliseconds())}, full, first)
	by := "z3-5.3.2"
	if r == Unknown {
		// the three back ends race
		ctx, cancel := context.WithCancel(context.Background())
		type ans struct {
			r       SatResult
			out, by string
		}
		ch := make(chan ans, 3)
		ms := fmt.Sprintf("-t:%d", to.Milliseconds())
		n := 0
		race := func(by, bin string, args ...string) {
			n++
			go func() {
				r, o := runCtx(ctx, bin, args, full, to)
				ch <- ans{r, o, by}
			}()
		}
		race("z3-5.3.2", "z3-new", "-in", "-smt2", ms)
		race("z3-4.8.12", "z3", "-in", "-smt2", ms)
		if !strings.Contains(q, "int2bv") {
			race("cvc5-1.1.2", "cvc5", "--lang=smt2", "--strings-exp", fmt.Sprintf("--tlimit=%d", to.Milliseconds()))
		}
		for ; n > 0; n-- {
			a := <-ch
			if a.r == Unsat || a.r == Sat && a.by == "z3-5.3.2" {
				r, out, by = a.r, a.out, a.by
				break
			}
			if a.by == "z3-5.3.2" {
				out = a.out
			}
		}
		cancel()
	}
	countUse(by)
	res := solverRes{r, out, by}
	qcache.Store(q, res)
	return res
}

// checkQuick uses one back end only.
func checkQuick(q string, to time.Duration) solverRes {
	if v, ok := qcache.Load(q); ok {
		return v.(solverRes)
	}
	r, out := runOne("z3-new", []string{"-in", "-smt2", fmt.Sprintf("-t:%d", to.Milliseconds())}, q+"(check-sat)\n", to)
	countUse("z3-5.3.2")
	res := solverRes{r, out, "z3-5.3.2"}
	if r == Unsat || r == Sat {
		qcache.Store(q, res)
	}
	return res
}

// ---- relevance ----

var atomCache sync.Map // *Term -> []*Term

// atomsOf: the symbols and applications a formula speaks about; a heap read
// counts as one atom (its arguments are not followed).
func atomsOf(t *Term) []*Term {
	if v, ok := atomCache.Load(t); ok {
		return v.([]*Term)
	}
	set := map[*Term]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "sym":
			set[t] = true
			return
		case "uf":
			set[t] = true
			if strings.Contains(t.name, ":F:") || strings.Contains(t.name, ":G:") {
				return
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	var out []*Term
	for a := range set {
		out = append(out, a)
	}
	atomCache.Store(t, out)
	return out
}

// cone keeps the assumptions that share atoms, directly or not, with roots.
// Dropping assumptions only makes fewer paths infeasible: always sound.
func cone(assume []*Term, roots ...*Term) []*Term {
	rel := map[*Term]bool{}
	add := func(t *Term) {
		for _, a := range atomsOf(t) {
			rel[a] = true
		}
	}
	for _, r := range roots {
		add(r)
	}
	keep := make([]bool, len(assume))
	for changed := true; changed; {
		changed = false
		for i, a := range assume {
			if keep[i] {
				continue
			}
			for _, x := range atomsOf(a) {
				if rel[x] {
					keep[i], changed = true, true
					add(a)
					break
				}
			}
		}
	}
	var out []*Term
	for i, a := range assume {
		if keep[i] {
			out = append(out, a)
		}
	}
	return out
}

// entails: assumptions |- goal, quick syntactic cases first.
func entails(assume []*Term, goal *Term, to time.Duration) solverRes {
	if goal == tTrue {
		return solverRes{Unsat, "", "syntactic"}
	}
	for _, a := range assume {
		if a == goal || a == tFalse {
			return solverRes{Unsat, "", "syntactic"}
		}
	}
	return check(buildQuery(assume, goal, defFuel), to, false)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
