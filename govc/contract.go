package main

// Use of a contract at a call site.

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) applyContract(f *Frame, c *Contract, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
	var pts []types.Type
	for _, p := range fn.Params {
		pts = append(pts, p.Type())
	}
	var pkg *types.Package
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg
	}
	return x.applyWith(f, c, pts, fn.Signature.Results(), args, pos, pkg)
}

func (x *Exec) applyContractSig(f *Frame, c *Contract, sig *types.Signature, args []Value, pos token.Pos, name string) []Outcome {
	// args[0] is the interface receiver
	pts := []types.Type{types.NewInterfaceType(nil, nil)}
	for i := 0; i < sig.Params().Len(); i++ {
		pts = append(pts, sig.Params().At(i).Type())
	}
	return x.applyWith(f, c, pts, sig.Results(), args, pos, nil)
}

func (x *Exec) applyWith(f *Frame, c *Contract, pts []types.Type, rs *types.Tuple, args []Value, pos token.Pos, pkg *types.Package) []Outcome {
	st := f.st
	var outs []Outcome
	if len(c.params) != len(args) {
		unsup("contract of %s: %d parameters, call has %d", c.key, len(c.params), len(args))
	}
	vars := map[string]SV{}
	for i, p := range c.params {
		vars[p] = SV{v: args[i], t: pts[i]}
		if _, ok := pts[i].Underlying().(*types.Pointer); ok && args[i].k == KTerm && !c.nilable[p] {
			if !x.guardOK(f, "nil argument "+p+" of "+c.key, Ne(args[i].t, Int(0)), pos, &outs) {
				return outs
			}
		}
	}
	if c.props["C19"] {
		for _, s := range x.storesOf(c.key) {
			x.acquire(st, s, pos)
		}
	}
	pre := st.clone()
	env := &SpecEnv{x: x, st: pre, old: pre, vars: vars, pkg: pkg}
	for _, cl := range c.clauses {
		if cl.kind == "requires" {
			g := env.boolean(cl.ex)
			x.oblige(st, "requires", c.key+" requires "+cl.text, g, pos)
			if !st.assume(g) {
				return outs
			}
		}
	}
	ev := &Event{name: "call:" + c.key, args: args, at: pts, pre: pre}
	if c.panics != nil || c.may || x.v != nil && x.v.allPanic && !c.props["C20"] {
		p := tTrue
		if c.panics != nil {
			p = x.underPC(st, env.boolean(c.panics))
		} else if c.mayWhen != nil {
			p = x.underPC(st, env.boolean(c.mayWhen))
		}
		if p != tFalse {
			if x.v != nil && x.v.noPanic && !x.v.allowPanic {
				if c.panics != nil {
					x.oblige(st, "nopanic", c.key+" panics when "+c.panics.src, Not(p), pos)
				} else {
					x.oblige(st, "nopanic", c.key+" may panic", Not(p), pos)
					st.assume(Not(p))
				}
			} else {
				ps := st.clone()
				if ps.assume(p) && x.feasible(ps) {
					x.applyEffects(c, ps, env, true)
					ps.panic = VI(x.extID("panic:"+c.key), Fresh("pv", SInt))
					ps.events = append(ps.events, ev)
					outs = append(outs, Outcome{st: ps, panic: true})
				}
			}
			if c.panics != nil && !st.assume(Not(p)) {
				return outs
			}
		}
	}
	for i := 0; i < rs.Len(); i++ {
		ev.rt = append(ev.rt, rs.At(i).Type())
	}
	a := &applier{x: x, c: c, pre: pre, vars: vars, rs: rs, pkg: pkg, ev: ev}
	a.start(st, &outs)
	return outs
}

// applyEffects performs the modifies/sets clauses on st.
func (x *Exec) applyEffects(c *Contract, st *State, pre *SpecEnv, panicking bool) {
	for _, cl := range c.clauses {
		if cl.kind == "modifies" {
			cond := tTrue
			if cl.ex != nil {
				cond = x.underPC(st, pre.boolean(cl.ex))
			}
			if cond == tFalse {
				continue
			}
			for _, l := range cl.exs {
				was := st.clone()
				x.havocLoc(st, pre, l)
				if cond == tTrue {
					continue
				}
				for _, lc := range x.locsOf(pre, l) {
					switch {
					case lc.all || lc.reg != 0 || lc.ref == nil:
					case isMapKey(lc.key):
						st.heap[lc.key] = &Store{ref: lc.ref, val: MapIte(cond, x.loadMap(st, lc.typ, lc.ref), x.loadMap(was, lc.typ, lc.ref)), prev: st.heap[lc.key]}
					default:
						x.storeLoc(st, lc.key, lc.ref, Ite(cond, x.loadLoc(st, lc.key, lc.ref, lc.typ), x.loadLoc(was, lc.key, lc.ref, lc.typ)), lc.typ)
					}
				}
			}
		}
	}
	for _, cl := range c.clauses {
		if cl.kind == "sets" {
			if panicking && (!isGhost(cl.loc) || mentionsAny(cl.ex, c.results)) {
				x.havocLoc(st, pre, cl.loc)
				continue
			}
			x.setLoc(st, pre, cl.loc, pre.eval(cl.ex))
		}
	}
}

// isGhost: "sets" of a ghost variable is an assignment made when the function
// ends; the code has no part in it.
func isGhost(ex *Ex) bool {
	return ex.op == "call" && (ex.name == "ghost" || ex.name == "ghostv" || ex.name == "ghosts")
}

// Loc names a heap component: (key, ref) or a parameter's slice region.
type Loc struct {
	key string
	ref *Term // nil: the whole component
	typ types.Type
	reg int
	all bool // everything
}

func (x *Exec) locsOf(pre *SpecEnv, ex *Ex) []Loc {
	switch ex.op {
	case "id":
		if ex.name == "heap" {
			return []Loc{{all: true}}
		}
		v := pre.eval(ex)
		if v.v.k == KSlice {
			return []Loc{{reg: v.v.sl.reg}}
		}
		if pre.pkg != nil {
			return x.globLoc(pre, pre.pkg, ex.name)
		}
	case "field":
		if b := ex.args[0]; b.op == "id" {
			if p := pre.isPkg(b.name); p != nil {
				return x.globLoc(pre, p, ex.name)
			}
		}
		b := pre.eval(ex.args[0])
		a, ft, _, ok := pre.fieldLoc(b, ex.name)
		if !ok {
			spanic("not a location: %s", ex.name)
		}
		if a.k == KAddr {
			return []Loc{{key: a.addr.key, ref: a.addr.ref, typ: ft}}
		}
		return x.deepLocs(pre.st, a, ft)
	case "un":
		if ex.name == "*" {
			p := pre.eval(ex.args[0])
			t := p.t.Underlying().(*types.Pointer).Elem()
			return x.deepLocs(pre.st, p.v, t)
		}
	case "call":
		switch ex.name {
		case "mapof":
			b := pre.eval(ex.args[0])
			return []Loc{{key: x.mapKey(b.t), ref: pre.tm(b), typ: b.t}}
		case "pos":
			return []Loc{{key: "S:pos", ref: pre.term(ex.args[0]), typ: types.Typ[types.Int]}}
		case "ghost":
			return []Loc{{key: "L:g:" + ex.args[0].name, ref: Int(0), typ: types.Typ[types.Int]}}
		case "ghosts":
			return []Loc{{key: "L:g:" + ex.args[0].name, ref: Int(0), typ: calledType}}
		case "ghostv":
			return []Loc{{key: "L:g:" + ex.args[0].name, ref: Int(0), typ: tAny}}
		case "called":
			return []Loc{{key: "L:called", ref: Int(0), typ: calledType}}
		case "out":
			return []Loc{{key: "S:out", ref: App("ifaceid", SInt, pre.term(ex.args[0])), typ: types.Typ[types.String]}}
		case "rderr":
			return []Loc{{key: "S:rderr", ref: pre.term(ex.args[0]), typ: tAny}}
		case "wrerr":
			return []Loc{{key: "S:wrerr", ref: App("ifaceid", SInt, pre.term(ex.args[0])), typ: tAny}}
		case "held":
			return []Loc{{key: "L:held", ref: pre.term(ex.args[0]), typ: tBool}}
		case "oncedone":
			return []Loc{{key: "O:sync.Once", ref: pre.tm(pre.eval(ex.args[0])), typ: tBool}}
		case "any": // any("model.Device.Status"): that field of every object
			k := "F:" + ex.args[0].name
			return []Loc{{key: k}}
		case "anymap": // anymap(m): every map of m's type
			b := pre.eval(ex.args[0])
			return []Loc{{key: x.mapKey(b.t)}}
		case "key":
			return []Loc{{key: ex.args[0].name}}
		}
	}
	spanic("not a location: %s", ex.src)
	return nil
}

func (x *Exec) globLoc(pre *SpecEnv, p *types.Package, name string) []Loc {
	sp := x.P.prog.Package(p)
	if sp == nil || sp.Var(name) == nil {
		spanic("unknown global %s", name)
	}
	a := x.globalAddr(pre.st, sp.Var(name))
	t := sp.Var(name).Type().Underlying().(*types.Pointer).Elem()
	if a.k == KAddr {
		return []Loc{{key: a.addr.key, ref: a.addr.ref, typ: t}}
	}
	return x.deepLocs(pre.st, a, t)
}

// deepLocs: the components of the object of type t at p.
func (x *Exec) deepLocs(st *State, p Value, t types.Type) []Loc {
	if p.k == KAddr {
		return []Loc{{key: p.addr.key, ref: p.addr.ref, typ: t}}
	}
	if x.isObj(t) {
		return []Loc{{key: "O:" + x.P.typeKey(t), ref: p.t, typ: x.objType(t)}}
	}
	if x.isRefStruct(t) {
		var out []Loc
		u := t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, x.deepLocs(st, x.fieldAddr(st, p, t, i), u.Field(i).Type())...)
		}
		return out
	}
	return []Loc{{key: "C:" + x.P.typeKey(t), ref: p.t, typ: t}}
}

func isMapKey(k string) bool { return len(k) > 2 && k[:2] == "M:" }

func (x *Exec) havocLoc(st *State, pre *SpecEnv, ex *Ex) {
	for _, l := range x.locsOf(pre, ex) {
		x.havocOne(st, l)
	}
}

func (x *Exec) havocOne(st *State, l Loc) {
	switch {
	case l.all:
		x.havocAll(st)
	case l.reg != 0:
		x.clobber(st, Value{k: KSlice, sl: &Slice{reg: l.reg}})
	case l.ref == nil:
		x.havocKey(st, l.key)
	case isMapKey(l.key):
		x.storeLoc(st, l.key, l.ref, x.mapBase(Fresh("anymap", SInt), l.typ), l.typ)
	default:
		v := x.freshTerm(l.typ, "havoc")
		x.storeLoc(st, l.key, l.ref, v, l.typ)
	}
}

// freshTerm: an arbitrary term of a scalar/sequence type; pointers may also be
// objects that did not exist before.
func (x *Exec) freshTerm(t types.Type, hint string) *Term {
	s := Fresh(hint, x.sortOf(t))
	r := x.valRng(t)
	if r == refRng || r == oldRng {
		r = mkRng(0, closBase-1)
	}
	setRng(s, r)
	if s.sort == SSeqI {
		setElem(s, x.elRng(t))
	}
	return s
}

func (x *Exec) setLoc(st *State, pre *SpecEnv, loc *Ex, v SV) {
	ls := x.locsOf(pre, loc)
	if len(ls) != 1 || ls[0].ref == nil && ls[0].reg == 0 {
		spanic("sets needs one location")
	}
	l := ls[0]
	t := pre.tm(v)
	if v.nilc {
		t = zeroOfSort(x.sortOf(l.typ))
	}
	if l.reg != 0 {
		r := *st.regions[l.reg]
		r.content = t
		st.regions[l.reg] = &r
		return
	}
	if !isMapKey(l.key) {
		so := x.sortOf(l.typ)
		if so == SSeqV && t == tEmpty {
			t = tEmpV
		}
		if so == SVal && t.sort != SVal && v.t != nil {
			t = x.box(st, v.t, v.v)
		}
		if t.sort != so {
			spanic("sets %s: sort %s, want %s", l.key, t.sort, so)
		}
	}
	x.storeLoc(st, l.key, l.ref, t, l.typ)
}

// applier evaluates the postconditions at a call site.
type applier struct {
	x       *Exec
	c       *Contract
	pre     *State
	vars    map[string]SV
	rs      *types.Tuple
	pkg     *types.Package
	ev      *Event
	mark    int64
	defined map[string]bool
}

func (a *applier) resIdx(name string) int {
	for i, r := range a.c.results {
		if r == name {
			return i
		}
	}
	return -1
}

func (a *applier) start(st *State, outs *[]Outcome) {
	x := a.x
	a.mark = x.nalloc
	a.defined = map[string]bool{}
	preEnv := &SpecEnv{x: x, st: a.pre, old: a.pre, vars: a.vars, pkg: a.pkg}
	hasResSets := false
	for _, cl := range a.c.clauses {
		if cl.kind == "sets" && mentionsAny(cl.ex, a.c.results) {
			hasResSets = true
		}
	}
	if !hasResSets {
		x.applyEffects(a.c, st, preEnv, false)
	}
	bound := map[string]SV{}
	for k, v := range a.vars {
		bound[k] = v
	}
	// case split on results
	var cases []*Ex
	for _, cl := range a.c.clauses {
		if cl.kind == "cases" {
			cases = append(cases, cl.ex)
		}
	}
	var rec func(i int, st *State, vars map[string]SV)
	rec = func(i int, st *State, vars map[string]SV) {
		if i == len(cases) {
			a.finish(st, vars, outs, hasResSets)
			return
		}
		ex := cases[i]
		for _, r := range a.c.results {
			if _, ok := vars[r]; !ok && mentions(ex, r) {
				vars[r] = SV{v: a.freshRes(st, r), t: a.rs.At(a.resIdx(r)).Type()}
			}
		}
		for _, b := range []bool{true, false} {
			s2 := st.clone()
			v2 := map[string]SV{}
			for k, v := range vars {
				v2[k] = v
			}
			env := &SpecEnv{x: x, st: s2, old: a.pre, vars: v2, pkg: a.pkg}
			g := env.boolean(ex)
			if !b {
				g = Not(g)
			}
			g = x.underPC(s2, g)
			if g == tFalse || !s2.assume(g) {
				continue
			}
			if b && ex.op == "bin" && ex.name == "==" && ex.args[0].op == "id" && ex.args[1].op == "id" && ex.args[1].name == "nil" {
				n := ex.args[0].name
				if k := a.resIdx(n); k >= 0 {
					v2[n] = SV{v: x.zero(s2, a.rs.At(k).Type()), t: a.rs.At(k).Type()}
				}
			}
			rec(i+1, s2, v2)
		}
	}
	rec(0, st, bound)
}

func (a *applier) freshRes(st *State, name string) Value {
	i := a.resIdx(name)
	t := a.rs.At(i).Type()
	v := a.x.safeFresh(st, t, "r_"+name)
	if _, ok := t.Underlying().(*types.Pointer); ok {
		// may be an object created by the callee
		v = term(a.x.freshTerm(t, "r_"+name))
	}
	return v
}

func mentions(ex *Ex, name string) bool {
	if ex == nil {
		return false
	}
	if ex.op == "id" && ex.name == name {
		return true
	}
	for _, b := range ex.args {
		if mentions(b, name) {
			return true
		}
	}
	return false
}

func mentionsAny(ex *Ex, names []string) bool {
	for _, n := range names {
		if mentions(ex, n) {
			return true
		}
	}
	return false
}

func (a *applier) finish(st *State, vars map[string]SV, outs *[]Outcome, resSets bool) {
	x := a.x
	env := &SpecEnv{x: x, st: st, old: a.pre, vars: vars, pkg: a.pkg}
	// 1. results that are new objects
	var pass func(ex *Ex, env *SpecEnv, k func(ex *Ex, env *SpecEnv))
	pass = func(ex *Ex, env *SpecEnv, k func(ex *Ex, env *SpecEnv)) {
		switch {
		case ex.op == "bin" && ex.name == "&&":
			pass(ex.args[0], env, k)
			pass(ex.args[1], env, k)
		case ex.op == "bin" && ex.name == "==>":
			if usesEvents(ex.args[0], x.specs) {
				return
			}
			if g, ok := a.tryBool(ex.args[0], env); ok {
				g = x.underPC(st, g)
				if g == tTrue {
					pass(ex.args[1], env, k)
					return
				}
				if g == tFalse {
					return
				}
			}
			k(ex, env)
		case ex.op == "call" && x.specs.fns[ex.name] != nil && !x.specs.fns[ex.name].rec && a.isPredicate(x.specs.fns[ex.name]):
			f := x.specs.fns[ex.name]
			v := map[string]SV{}
			ok := true
			for i, p := range f.params {
				sv, good := a.tryEval(ex.args[i], env)
				if !good {
					ok = false
					break
				}
				v[p] = sv
			}
			if !ok {
				k(ex, env)
				return
			}
			pass(f.body, env.with(v), k)
		default:
			k(ex, env)
		}
	}
	each := func(k func(ex *Ex, env *SpecEnv)) {
		for _, cl := range a.c.clauses {
			if cl.kind == "ensures" {
				pass(cl.ex, env, k)
			}
		}
	}
	each(func(ex *Ex, e *SpecEnv) {
		if ex.op == "call" && ex.name == "fresh" && ex.args[0].op == "id" {
			n := ex.args[0].name
			if i := a.resIdx(n); i >= 0 {
				if _, ok := vars[n]; !ok {
					vars[n] = SV{v: term(x.alloc()), t: a.rs.At(i).Type()}
				}
			}
		}
	})
	// 2. results defined by an equation
	for round := 0; round < 3; round++ {
		each(func(ex *Ex, e *SpecEnv) {
			if ex.op != "bin" || ex.name != "==" || ex.args[0].op != "id" {
				return
			}
			n := ex.args[0].name
			i := a.resIdx(n)
			if i < 0 {
				return
			}
			if _, ok := vars[n]; ok {
				return
			}
			sv, ok := a.tryEval(ex.args[1], e)
			if !ok {
				return
			}
			t := a.rs.At(i).Type()
			if sv.nilc {
				vars[n] = SV{v: x.zero(st, t), t: t}
				return
			}
			tm := e.tm(sv)
			if tm.sort == SMap {
				return
			}
			if tm.sort != x.sortOf(t) {
				if x.sortOf(t) == SVal && sv.t != nil {
					tm = x.box(st, sv.t, sv.v)
				} else {
					return
				}
			}
			if isSliceT(t) {
				vars[n] = SV{v: x.sliceOf(st, tm, true), t: t}
			} else {
				vars[n] = SV{v: x.fromTerm(st, t, tm), t: t}
			}
			vars[n] = SV{v: vars[n].v, t: t}
		})
	}
	// 3. the rest are arbitrary
	for i, n := range a.c.results {
		if _, ok := vars[n]; !ok {
			vars[n] = SV{v: a.freshRes(st, n), t: a.rs.At(i).Type()}
		}
	}
	if resSets {
		ps := a.pre.clone() // with the slices returned
		for id, r := range st.regions {
			if ps.regions[id] == nil {
				ps.regions[id] = r
			}
		}
		pe := &SpecEnv{x: x, st: ps, old: a.pre, vars: vars, pkg: a.pkg}
		x.applyEffects(a.c, st, pe, false)
	}
	// 4. everything else: definitions of fields of new objects, or assumptions
	each(func(ex *Ex, e *SpecEnv) {
		if ex.op == "call" && ex.name == "fresh" {
			if ex.args[0].op == "id" && a.resIdx(ex.args[0].name) >= 0 {
				return
			}
			if ex.args[0].op == "field" && a.define(st, e, ex.args[0], func() (*Term, bool) { return x.alloc(), true }) {
				return
			}
		}
		if ex.op == "bin" && ex.name == "==" && (ex.args[0].op == "field" || ex.args[0].op == "un" && ex.args[0].name == "*") {
			if a.define(st, e, ex.args[0], func() (*Term, bool) {
				sv := e.eval(ex.args[1])
				if sv.nilc {
					return nil, true
				}
				return e.tm(sv), true
			}) {
				return
			}
		}
		if usesEvents(ex, x.specs) {
			return
		}
		st.assume(e.boolean(ex))
	})
	var res []Value
	for _, n := range a.c.results {
		res = append(res, vars[n].v)
	}
	ev := *a.ev
	ev.res = res
	st.events = append(st.events, &ev)
	if dead(st) {
		return
	}
	*outs = append(*outs, Outcome{st: st, res: res})
}

// usesEvents: clauses about the calls made by the callee say nothing to callers.
func usesEvents(ex *Ex, sp *Specs) bool {
	if ex == nil {
		return false
	}
	if ex.op == "call" {
		switch ex.name {
		case "ncalls", "arg", "res", "before", "at":
			return true
		}
		if f := sp.fns[ex.name]; f != nil && !f.rec && usesEvents(f.body, sp) {
			return true
		}
	}
	for _, b := range ex.args {
		if usesEvents(b, sp) {
			return true
		}
	}
	return false
}

func (a *applier) isPredicate(f *SpecFn) bool {
	b := f.body
	return b.op == "bin" && (b.name == "&&" || b.name == "==>" || b.name == "==") || b.op == "call" && (b.name == "fresh" || a.x.specs.fns[b.name] != nil && !a.x.specs.fns[b.name].rec && a.isPredicate(a.x.specs.fns[b.name]))
}

func (a *applier) tryBool(ex *Ex, e *SpecEnv) (t *Term, ok bool) {
	sv, ok := a.tryEval(ex, e)
	if !ok {
		return nil, false
	}
	t = e.tm(sv)
	return t, t.sort == SBool
}

func (a *applier) tryEval(ex *Ex, e *SpecEnv) (sv SV, ok bool) {
	for _, n := range a.c.results {
		if _, bound := e.vars[n]; !bound && mentions(ex, n) {
			return SV{}, false
		}
	}
	if usesEvents(ex, a.x.specs) {
		return SV{}, false
	}
	return e.eval(ex), true
}

// define stores the value of a field of an object created by this call.
func (a *applier) define(st *State, e *SpecEnv, loc *Ex, val func() (*Term, bool)) bool {
	x := a.x
	if loc.op == "un" && loc.name == "*" {
		b := e.eval(loc.args[0])
		if b.v.k != KTerm || !b.v.t.isInt() || b.t == nil {
			return false
		}
		if n := b.v.t.n.Int64(); n < allocBase+1024*(a.mark+1) || n >= closBase {
			return false
		}
		t := b.t.Underlying().(*types.Pointer).Elem()
		key := "C:" + x.P.typeKey(t)
		k := fmt.Sprintf("%s@%d", key, b.v.t.id)
		if x.hasRef(t) || isArrayT(t) || a.defined[k] {
			return false
		}
		v, good := val()
		if !good || v == nil || v.sort != x.sortOf(t) {
			return false
		}
		a.defined[k] = true
		x.storeLoc(st, key, b.v.t, v, t)
		return true
	}
	if b := loc.args[0]; b.op == "id" && e.isPkg(b.name) != nil {
		return false
	}
	b := e.eval(loc.args[0])
	if b.v.k != KTerm || !b.v.t.isInt() || b.t == nil {
		return false
	}
	n := b.v.t.n.Int64()
	if n < allocBase+1024*(a.mark+1) || n >= closBase {
		return false
	}
	p, ft, _, ok := e.fieldLoc(b, loc.name)
	if !ok || p.k != KAddr {
		return false
	}
	k := fmt.Sprintf("%s@%d", p.addr.key, p.addr.ref.id)
	if a.defined[k] {
		return false
	}
	v, good := val()
	if !good {
		return false
	}
	if v == nil {
		v = zeroOfSort(x.sortOf(ft))
	}
	so := x.sortOf(ft)
	if so == SSeqV && v == tEmpty {
		v = tEmpV
	}
	if v.sort != so {
		return false
	}
	a.defined[k] = true
	x.storeLoc(st, p.addr.key, p.addr.ref, v, ft)
	return true
}
