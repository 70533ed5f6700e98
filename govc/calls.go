package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var calledType = types.NewSlice(types.Typ[types.Int])

func one(st *State, res ...Value) []Outcome { return []Outcome{{st: st, res: res}} }

// callCommon performs a call; f.st is the state before it.
func (x *Exec) callCommon(f *Frame, c *ssa.CallCommon, fnv Value, args []Value, isDefer bool, pos token.Pos) []Outcome {
	st := f.st
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return x.builtin(f, b, c, args, pos)
	}
	if c.IsInvoke() {
		return x.invoke(f, c, fnv.t, args, isDefer, pos)
	}
	if callee := c.StaticCallee(); callee != nil {
		var binds []Value
		if fnv.k == KFunc && fnv.fn != nil {
			binds = fnv.fn.binds
		}
		return x.callFn(f, callee, args, binds, isDefer, pos)
	}
	// dynamic function value
	if fnv.k == KFunc {
		return x.callFn(f, fnv.fn.fn, args, fnv.fn.binds, isDefer, pos)
	}
	var outs []Outcome
	x.dynamic(f, st, fnv.t, c, args, isDefer, pos, &outs)
	return outs
}

// dynamic calls a function value given by a term: one case per known target.
func (x *Exec) dynamic(f *Frame, st *State, t *Term, c *ssa.CallCommon, args []Value, isDefer bool, pos token.Pos, outs *[]Outcome) {
	leaves := map[*Term]*Term{} // leaf -> condition
	var order []*Term
	var rec func(t, cond *Term)
	rec = func(t, cond *Term) {
		if t.op == "ite" {
			rec(t.args[1], And(cond, t.args[0]))
			rec(t.args[2], And(cond, Not(t.args[0])))
			return
		}
		if old, ok := leaves[t]; ok {
			leaves[t] = Or(old, cond)
			return
		}
		leaves[t] = cond
		order = append(order, t)
	}
	rec(t, tTrue)
	for _, leaf := range order {
		cond := x.underPC(st, leaves[leaf])
		if cond == tFalse {
			continue
		}
		g := f.clone()
		g.st = st.clone()
		if !g.st.assume(cond) || cond != tTrue && !x.feasible(g.st) {
			continue
		}
		if !x.guardOK(g, "call of nil function", Ne(leaf, Int(0)), pos, outs) {
			continue
		}
		if leaf.isInt() {
			if cl := x.closBy[leaf.n.Int64()]; cl != nil {
				*outs = append(*outs, x.callFn(g, cl.fn, args, cl.binds, isDefer, pos)...)
				continue
			}
		}
		*outs = append(*outs, x.unknownCall(g, c, leaf, args)...)
	}
}

// unknownCall: a function value from outside.  It may change the heap, return
// anything, or panic.
func (x *Exec) unknownCall(f *Frame, c *ssa.CallCommon, fn *Term, args []Value) []Outcome {
	st := f.st
	ev := &Event{name: "fnvalue", args: append([]Value{term(fn)}, args...)}
	x.storeLoc(st, "L:called", Int(0), Concat(SSeqI, x.loadLoc(st, "L:called", Int(0), calledType), Unit(fn)), calledType)
	x.havocAll(st)
	var outs []Outcome
	p := st.clone()
	p.events = append(p.events, ev)
	p.panic = Fresh("panicval", SVal)
	p.assume(Ne(p.panic, tVNil))
	if x.v != nil && x.v.noPanic && !x.v.allowPanic && !x.v.callerRecovers {
		// contracts of the function value are unknown: the panic is the caller's business
	}
	outs = append(outs, Outcome{st: p, panic: true})
	var res []Value
	sig := c.Signature().Results()
	for i := 0; i < sig.Len(); i++ {
		res = append(res, x.fresh(st, sig.At(i).Type(), "fnres"))
	}
	ev.res = res
	st.events = append(st.events, ev)
	return append(outs, Outcome{st: st, res: res})
}

func (x *Exec) callFn(f *Frame, fn *ssa.Function, args, binds []Value, isDefer bool, pos token.Pos) []Outcome {
	st := f.st
	if fn.Pkg == nil && fn.Object() == nil && len(fn.Blocks) > 0 || strings.HasPrefix(fn.Synthetic, "bound method") || strings.HasPrefix(fn.Synthetic, "wrapper") || strings.HasPrefix(fn.Synthetic, "thunk") {
		if len(fn.Blocks) > 0 {
			return x.run(fn, args, binds, st, isDefer, f.depth+1)
		}
	}
	var pkg *types.Package
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg
	} else if fn.Object() != nil {
		pkg = fn.Object().Pkg()
	}
	if x.P.inRepo(pkg) && len(fn.Blocks) > 0 {
		key := x.P.key(fn)
		if c := x.specs.contracts[key]; c != nil && !c.inline && !c.deferred && !x.disabled[key] && x.v != nil {
			x.v.uses[key] = true
			if len(x.heldLocks(st)) > 0 && x.P.mayLock(fn) {
				x.oblige(st, "lock", "no locking function is called while a store's lock is held", tFalse, pos)
			}
			return x.applyContract(f, c, fn, args, pos)
		}
		// no contract: the body is verified as part of the caller
		if f.depth+1 > maxDepth {
			unsup("call depth exceeded at %s", key)
		}
		if x.v != nil {
			x.v.inlined[key] = true
		}
		ev := &Event{name: "call:" + key, args: args}
		st.events = append(st.events, ev)
		outs := x.run(fn, args, binds, st, isDefer, f.depth+1)
		return outs
	}
	return x.external(f, x.extName(fn), fn.Signature, args, isDefer, pos)
}

func (x *Exec) extName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	s := fn.String()
	return s
}

func (x *Exec) invoke(f *Frame, c *ssa.CallCommon, recv *Term, args []Value, isDefer bool, pos token.Pos) []Outcome {
	var outs []Outcome
	if !x.guardOK(f, "method call on nil interface", Ne(recv, tVNil), pos, &outs) {
		return outs
	}
	st := f.st
	it := c.Value.Type()
	iname := x.P.typeKey(it) + "." + c.Method.Name()
	tg := VTag(recv)
	if tg.isInt() {
		if t := x.tagType[tg.n.Int64()]; t != nil {
			return append(outs, x.invokeOn(f, t, c, recv, args, isDefer, pos)...)
		}
		return append(outs, x.external(f, iname, c.Signature(), append([]Value{term(recv)}, args...), isDefer, pos)...)
	}
	// abstract interface contract
	if k := x.specs.contracts["interface "+iname]; k != nil {
		x.v.uses["interface "+iname] = true
		return append(outs, x.applyContractSig(f, k, c.Signature(), append([]Value{term(recv)}, args...), pos, "interface "+iname)...)
	}
	n, named := it.(*types.Named)
	if !named || !x.P.inRepo(n.Obj().Pkg()) {
		return append(outs, x.external(f, iname, c.Signature(), append([]Value{term(recv)}, args...), isDefer, pos)...)
	}
	for _, t := range x.P.implementers(it.Underlying().(*types.Interface)) {
		cond := x.underPC(st, Eq(tg, x.tag(t)))
		if cond == tFalse {
			continue
		}
		g := f.clone()
		if !g.st.assume(cond) || !x.feasible(g.st) {
			continue
		}
		outs = append(outs, x.invokeOn(g, t, c, recv, args, isDefer, pos)...)
	}
	return outs
}

func (x *Exec) invokeOn(f *Frame, t types.Type, c *ssa.CallCommon, recv *Term, args []Value, isDefer bool, pos token.Pos) []Outcome {
	fn := x.P.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name())
	if fn == nil {
		unsup("method %s on %s", c.Method.Name(), t)
	}
	r := x.unbox(f.st, t, recv)
	return x.callFn(f, fn, append([]Value{r}, args...), nil, isDefer, pos)
}

// ---- builtins ----

func (x *Exec) builtin(f *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []Value, pos token.Pos) []Outcome {
	st := f.st
	switch b.Name() {
	case "len":
		a := args[0]
		switch c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return one(st, term(a.sl.len))
		case *types.Map:
			x.checkGuard(f, a, pos)
			l := Fresh("maplen", SInt)
			setRng(l, &rng{lo: Int(0).n})
			return one(st, term(l))
		case *types.Basic:
			return one(st, term(Len(a.t)))
		}
		unsup("len of %s", c.Args[0].Type())
	case "cap":
		n := Fresh("cap", SInt)
		st.assume(Le(args[0].sl.len, n))
		return one(st, term(n))
	case "append":
		return one(st, x.doAppend(st, args, c))
	case "copy":
		return x.doCopy(st, args, c)
	case "delete":
		m := args[0]
		x.checkGuardW(f, m, pos)
		mt := c.Args[0].Type()
		ct := x.loadMap(st, mt, m.t)
		x.storeLoc(st, x.mapKey(mt), m.t, MapDel(ct, x.toTerm(st, args[1])), mt)
		return one(st)
	case "recover":
		if f.isDefer && st.panic != nil {
			v := st.panic
			st.panic = nil
			return one(st, term(v))
		}
		return one(st, term(tVNil))
	case "close":
		st.events = append(st.events, &Event{name: "close", args: args})
		return one(st)
	case "print", "println":
		return one(st)
	case "min", "max":
		r := args[0].t
		for _, a := range args[1:] {
			if b.Name() == "min" {
				r = Ite(Le(r, a.t), r, a.t)
			} else {
				r = Ite(Le(r, a.t), a.t, r)
			}
		}
		return one(st, term(r))
	case "ssa:wrapnilchk":
		return one(st, args[0])
	}
	unsup("builtin %s", b.Name())
	return nil
}

func (x *Exec) doAppend(st *State, args []Value, c *ssa.CallCommon) Value {
	s := args[0]
	if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && x.isRefStruct(sl.Elem()) {
		// the elements are copied: only a list built for this call may lend its objects
		v, ok := c.Args[1].(*ssa.Slice)
		if ok {
			a, isA := v.X.(*ssa.Alloc)
			ok = isA && a.Comment == "varargs"
		}
		if !ok {
			unsup("append to a slice of struct values")
		}
	}
	var add *Term
	if args[1].k == KSlice {
		add = st.content(args[1].sl)
	} else {
		add = args[1].t
	}
	old := st.content(s.sl)
	reg := st.regions[s.sl.reg]
	fresh := reg.fresh && len(reg.homes) == 0
	if s.sl.isnil == tTrue || s.sl.len == Int(0) && reg.content == emptyOf(reg.content.sort) && reg.fresh {
		fresh = true
	}
	// Appending to a window that ends before its backing array does writes over
	// the elements behind it.
	end := Add(s.sl.off, s.sl.len)
	if full := Len(reg.content); end != full && add != emptyOf(add.sort) {
		if fits := x.underPC(st, Le(Add(end, Len(add)), full)); fits == tTrue || entails(st.pc, fits, 2e9).r == Unsat {
			// entirely in place
			nr := *reg
			nc := Concat(old.sort, Extract(reg.content, Int(0), end), add, Extract(reg.content, Add(end, Len(add)), Sub(full, Add(end, Len(add)))))
			for _, h := range reg.homes {
				t := x.keyRng[h.key]
				if x.loadLoc(st, h.key, h.ref, t) == reg.content {
					x.storeLoc(st, h.key, h.ref, nc, t)
				}
			}
			nr.content = nc
			st.regions[s.sl.reg] = &nr
			return Value{k: KSlice, sl: &Slice{reg: s.sl.reg, off: s.sl.off, len: Add(s.sl.len, Len(add)), isnil: tFalse}}
		}
		// may be in place or not: the bytes behind the window become unknown
		nr := *reg
		un := Fresh("overwritten", old.sort)
		if old.sort == SSeqI {
			setElem(un, elemRangeOf(reg.content))
		}
		st.assume(Eq(Len(un), Sub(full, end)))
		nc := Concat(old.sort, Extract(reg.content, Int(0), end), un)
		for _, h := range reg.homes {
			t := x.keyRng[h.key]
			if x.loadLoc(st, h.key, h.ref, t) == reg.content {
				x.storeLoc(st, h.key, h.ref, nc, t)
			}
		}
		nr.content = nc
		st.regions[s.sl.reg] = &nr
		fresh = false
	}
	r := x.sliceOf(st, Concat(old.sort, old, add), fresh)
	if s.sl.isnil == tTrue {
		r.sl.isnil = Eq(Len(add), Int(0))
	} else if s.sl.isnil != tFalse {
		r.sl.isnil = And(s.sl.isnil, Eq(Len(add), Int(0)))
	}
	return r
}

func (x *Exec) doCopy(st *State, args []Value, c *ssa.CallCommon) []Outcome {
	d := args[0].sl
	if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && x.isRefStruct(sl.Elem()) {
		unsup("copy of struct values")
	}
	var src *Term
	if args[1].k == KSlice {
		src = st.content(args[1].sl)
	} else {
		src = args[1].t
	}
	fits := Le(Len(src), d.len)
	n := d.len
	if fits == tTrue || entails(st.pc, fits, 2e9).r == Unsat {
		n = Len(src)
	} else if entails(st.pc, Le(d.len, Len(src)), 2e9).r != Unsat {
		cut := st.clone()
		cut.assume(Not(fits))
		x.writeRegion(cut, d.reg, d.off, Extract(src, Int(0), n))
		st.assume(fits)
		x.writeRegion(st, d.reg, d.off, src)
		return []Outcome{{st: cut, res: []Value{term(n)}}, {st: st, res: []Value{term(Len(src))}}}
	}
	x.writeRegion(st, d.reg, d.off, Extract(src, Int(0), n))
	return one(st, term(n))
}

// writeRegion overwrites region[off : off+len(c)] with c.
func (x *Exec) writeRegion(st *State, reg int, off, c *Term) {
	r := *st.regions[reg]
	full := Len(r.content)
	nc := Concat(r.content.sort, Extract(r.content, Int(0), off), c, Extract(r.content, Add(off, Len(c)), Sub(full, Add(off, Len(c)))))
	for _, h := range r.homes {
		t := x.keyRng[h.key]
		if x.loadLoc(st, h.key, h.ref, t) == r.content {
			x.storeLoc(st, h.key, h.ref, nc, t)
		}
	}
	r.content = nc
	st.regions[reg] = &r
}

// ---- globals ----

func (x *Exec) globalLoad(st *State, g *ssa.Global) (Value, bool) {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	if g.Pkg != nil && x.P.inRepo(g.Pkg.Pkg) {
		if x.P.globals[g] || x.initing {
			return Value{}, false
		}
		x.ensureInit(g.Pkg)
		if !x.inits["ok:"+g.Pkg.Pkg.Path()] {
			return Value{}, false
		}
		return x.load(x.initSt, x.globalAddr(x.initSt, g), t), true
	}
	name := g.String()
	if types.IsInterface(t) {
		if x.P.typeKey(t) == "error" {
			return term(VI(x.extID("tag:errors"), x.extID("err:"+name))), true
		}
		return term(VI(x.extID("tag:"+name), x.extID("glob:"+name))), true
	}
	if x.hasRef(t) || x.sortOf(t) != SInt {
		return Value{}, false
	}
	return term(x.extID("glob:" + name)), true
}

// ensureInit symbolically executes a package initialiser once; its writes give
// the values of globals that nothing else assigns.
func (x *Exec) ensureInit(p *ssa.Package) {
	k := p.Pkg.Path()
	if x.inits[k] {
		return
	}
	x.inits[k] = true
	for _, imp := range p.Pkg.Imports() {
		if x.P.inRepo(imp) {
			if sp := x.P.prog.Package(imp); sp != nil {
				x.ensureInit(sp)
			}
		}
	}
	saveV, saveI := x.v, x.initing
	x.v, x.initing = nil, true
	defer func() {
		x.v, x.initing = saveV, saveI
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				fmt.Printf("note: package init of %s not modelled: %s\n", k, u.msg)
				return
			}
			panic(r)
		}
	}()
	fn := p.Func("init")
	st := x.initSt.clone()
	// initialise every global to zero first
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			t := g.Type().Underlying().(*types.Pointer).Elem()
			if !x.hasRef(t) && !isArrayT(t) {
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(unsupported); !ok {
								panic(r)
							}
						}
					}()
					x.store(st, x.globalAddr(st, g), t, x.zero(st, t))
				}()
			}
		}
	}
	outs := x.run(fn, nil, nil, st, false, 0)
	if len(outs) != 1 || outs[0].panic {
		return
	}
	cur := outs[0].st
	var ss []*Single
	for _, s := range x.P.singles {
		if s.lit.Pkg == p {
			ss = append(ss, s)
		}
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i].glob.Name() < ss[j].glob.Name() })
	ran := map[*ssa.Function]bool{}
	for _, s := range ss {
		if ran[s.lit] {
			continue
		}
		ran[s.lit] = true
		o := x.run(s.lit, nil, nil, cur, false, 0)
		if len(o) != 1 || o[0].panic {
			fmt.Printf("note: the initialiser of %s does not have one normal outcome\n", x.P.globName(s.glob))
			return
		}
		cur = o[0].st
	}
	x.initSt.heap = cur.heap
	x.initSt.regions = cur.regions
	x.inits["ok:"+k] = true
}
