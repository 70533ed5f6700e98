package main

// Symbolic execution of go/ssa functions, one path at a time.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Outcome struct {
	st    *State
	res   []Value
	panic bool // unwinding: st.panic holds the value
}

type deferred struct {
	call *ssa.CallCommon
	fnv  Value
	args []Value
	pos  token.Pos
}

type Frame struct {
	fn       *ssa.Function
	env      map[ssa.Value]Value
	defers   []deferred
	st       *State
	isDefer  bool // directly deferred during unwinding: recover works here
	unroll   map[*ssa.BasicBlock]int
	cut      map[*ssa.BasicBlock]*Cut // loops being cut on this path
	depth    int
	top      bool
	recovers bool
}

func (f *Frame) clone() *Frame {
	n := &Frame{fn: f.fn, st: f.st.clone(), isDefer: f.isDefer, depth: f.depth, top: f.top}
	n.env = make(map[ssa.Value]Value, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred{}, f.defers...)
	n.unroll = map[*ssa.BasicBlock]int{}
	for k, v := range f.unroll {
		n.unroll[k] = v
	}
	n.cut = map[*ssa.BasicBlock]*Cut{}
	for k, v := range f.cut {
		n.cut[k] = v
	}
	return n
}

type needInvariant struct{ l *Loop }

const (
	maxDepth  = 14
	maxUnroll = 400
	maxPaths  = 4000
)

// run executes fn from the given state.
func (x *Exec) run(fn *ssa.Function, args []Value, binds []Value, st *State, isDefer bool, depth int) []Outcome {
	if len(fn.Blocks) == 0 {
		unsup("no body: %s", fn)
	}
	if depth > maxDepth {
		unsup("call depth exceeded at %s", fn)
	}
	f := &Frame{fn: fn, env: map[ssa.Value]Value{}, st: st, isDefer: isDefer, depth: depth, unroll: map[*ssa.BasicBlock]int{}, cut: map[*ssa.BasicBlock]*Cut{}}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.env[p] = binds[i]
	}
	var outs []Outcome
	x.block(f, fn.Blocks[0], nil, &outs)
	return outs
}

func (x *Exec) val(f *Frame, v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(f.st, c)
	case *ssa.Function:
		return x.mkClosure(c, nil)
	case *ssa.Global:
		return x.globalAddr(f.st, c)
	case *ssa.Builtin:
		return Value{k: KFunc}
	}
	if r, ok := f.env[v]; ok {
		return r
	}
	unsup("undefined value %s in %s", v.Name(), f.fn)
	return Value{}
}

func (x *Exec) globalAddr(st *State, g *ssa.Global) Value {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	name := g.String()
	if g.Pkg != nil {
		name = shortPkg(g.Pkg.Pkg.Path(), x.P.module) + "." + g.Name()
	}
	if x.hasRef(t) || isArrayT(t) {
		return term(x.extID("glob:" + name))
	}
	return Value{k: KAddr, addr: &Addr{key: "G:" + name, ref: Int(0), typ: t}}
}

// oblige records a proof obligation at the current path.
func (x *Exec) oblige(st *State, kind, name string, goal *Term, pos token.Pos) {
	if x.v != nil {
		x.v.oblige(st, kind, name, goal, x.P.prog.Fset.Position(pos))
	}
}

func dead(st *State) bool {
	return len(st.pc) > 0 && st.pc[len(st.pc)-1] == tFalse
}

// feasible asks the solver whether the path can be taken (unknown counts as yes).
func (x *Exec) feasible(st *State) bool {
	c := make(chan bool, 1)
	x.feasibleC(st, c)
	return <-c
}

// feasibleC delivers the answer on c; the query is built before it returns.
func (x *Exec) feasibleC(st *State, c chan<- bool) {
	if dead(st) {
		c <- false
		return
	}
	if st.checked > len(st.pc) {
		st.checked = 0
	}
	fresh := st.pc[st.checked:]
	if len(fresh) == 0 && len(st.pc) > 0 {
		c <- true
		return
	}
	q := buildQuery(cone(st.pc, fresh...), nil, 1)
	st.checked = len(st.pc)
	go func() { c <- checkQuick(q, 1500*time.Millisecond).r != Unsat }()
}

// guardOK: the instruction needs ok; otherwise the program panics.
// Returns false when this path cannot continue.
func (x *Exec) guardOK(f *Frame, kind string, ok *Term, pos token.Pos, outs *[]Outcome) bool {
	st := f.st
	if ok == tTrue {
		return true
	}
	for _, p := range st.pc {
		if p == ok {
			return true
		}
	}
	if x.v != nil && x.v.noPanic && !x.v.allowPanic {
		x.oblige(st, "nopanic", kind, ok, pos)
		st.assume(ok)
		return !dead(st)
	}
	if entails(cone(st.pc, ok), ok, 3*time.Second).r != Unsat {
		pf := f.clone()
		pf.st.assume(Not(ok))
		if x.feasible(pf.st) {
			pf.st.panic = VI(x.extID("panic:"+kind), Fresh("pv", SInt))
			x.unwind(pf, pos, outs)
		}
	}
	st.assume(ok)
	return !dead(st)
}

// unwind runs deferred calls while panicking, then reports the outcome.
func (x *Exec) unwind(f *Frame, pos token.Pos, outs *[]Outcome) {
	x.runDefers(f, func(g *Frame) {
		if g.st.panic != nil {
			*outs = append(*outs, Outcome{st: g.st, panic: true})
			return
		}
		// recovered: return with the current results
		if g.fn.Recover != nil {
			x.block(g, g.fn.Recover, nil, outs)
			return
		}
		var res []Value
		sig := g.fn.Signature.Results()
		for i := 0; i < sig.Len(); i++ {
			res = append(res, x.zero(g.st, sig.At(i).Type()))
		}
		*outs = append(*outs, Outcome{st: g.st, res: res})
	})
}

func (x *Exec) runDefers(f *Frame, k func(*Frame)) {
	if len(f.defers) == 0 {
		k(f)
		return
	}
	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[:len(f.defers)-1]
	saved := f.st.panic
	for _, o := range x.callCommon(f, d.call, d.fnv, d.args, true, d.pos) {
		g := f.clone()
		g.st = o.st
		if o.panic && saved != nil {
			// a panic inside a deferred call replaces the old one
		}
		x.runDefers(g, k)
	}
}

// ---- blocks ----

func (x *Exec) block(f *Frame, b, prev *ssa.BasicBlock, outs *[]Outcome) {
	if len(*outs) > maxPaths {
		unsup("too many paths in %s", f.fn)
	}
	for _, c := range f.cut {
		if !c.l.blocks[b] {
			if c.discover {
				return // discovery looks at the loop body only
			}
			delete(f.cut, c.l.header)
		}
	}
	if l := x.P.loopsOf(f.fn)[b]; l != nil {
		if prev == nil || !l.blocks[prev] {
			// entering the loop from outside
			if c := f.cut[b]; c != nil {
				delete(f.cut, b)
			}
			x.enterLoop(f, l, prev, outs)
			return
		}
		if c := f.cut[b]; c != nil {
			x.backEdge(f, c, prev)
			return
		}
		f.unroll[b]++
		if f.unroll[b] > maxUnroll || f.unroll[b] > 2 && !counted(l) {
			panic(needInvariant{l})
		}
	}
	x.phis(f, b, prev)
	x.instrs(f, b, x.firstNonPhi(b), outs)
}

func (x *Exec) firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func (x *Exec) phis(f *Frame, b, prev *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
		}
	}
	var vals []Value
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, ph)
		vals = append(vals, x.val(f, ph.Edges[pi]))
	}
	for i, ph := range ps {
		f.env[ph] = vals[i]
	}
}

// goTo continues at block s; a Jump.
func (x *Exec) instrs(f *Frame, b *ssa.BasicBlock, i int, outs *[]Outcome) {
	for ; i < len(b.Instrs); i++ {
		if dead(f.st) {
			return
		}
		in := b.Instrs[i]
		switch v := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Jump:
			x.block(f, b.Succs[0], b, outs)
			return
		case *ssa.If:
			c := x.val(f, v.Cond).t
			c = x.underPC(f.st, c)
			if c == tTrue {
				x.block(f, b.Succs[0], b, outs)
				return
			}
			if c == tFalse {
				x.block(f, b.Succs[1], b, outs)
				return
			}
			if l := x.P.loopsOf(f.fn)[b]; l != nil && f.cut[b] == nil && l.exits {
				// a symbolic loop condition: decide by the path condition, else cut
				if entails(cone(f.st.pc, c), c, time.Second).r == Unsat {
					x.block(f, b.Succs[0], b, outs)
					return
				}
				if entails(cone(f.st.pc, c), Not(c), time.Second).r == Unsat {
					x.block(f, b.Succs[1], b, outs)
					return
				}
				panic(needInvariant{l})
			}
			g := f.clone()
			okT, okF := f.st.assume(c), g.st.assume(Not(c))
			done := make(chan bool, 1)
			if okF {
				x.feasibleC(g.st, done)
			} else {
				done <- false
			}
			okT = okT && x.feasible(f.st)
			okF = <-done
			if okT {
				x.block(f, b.Succs[0], b, outs)
			}
			if okF {
				x.block(g, b.Succs[1], b, outs)
			}
			return
		case *ssa.Return:
			var res []Value
			for _, r := range v.Results {
				res = append(res, x.val(f, r))
			}
			*outs = append(*outs, Outcome{st: f.st, res: res})
			return
		case *ssa.Panic:
			if x.v != nil && x.v.noPanic && !x.v.allowPanic {
				x.oblige(f.st, "nopanic", "explicit panic", tFalse, v.Pos())
				return
			}
			f.st.panic = x.val(f, v.X).t
			x.unwind(f, v.Pos(), outs)
			return
		case *ssa.RunDefers:
			done := false
			x.runDefers(f, func(g *Frame) {
				if g.st.panic != nil {
					*outs = append(*outs, Outcome{st: g.st, panic: true})
					return
				}
				x.instrs(g, b, i+1, outs)
			})
			_ = done
			return
		case *ssa.Defer:
			d := deferred{call: &v.Call, pos: v.Pos()}
			if !v.Call.IsInvoke() {
				if _, isB := v.Call.Value.(*ssa.Builtin); !isB {
					d.fnv = x.val(f, v.Call.Value)
				}
			} else {
				d.fnv = x.val(f, v.Call.Value)
			}
			for _, a := range v.Call.Args {
				d.args = append(d.args, x.val(f, a))
			}
			f.defers = append(f.defers, d)
		case *ssa.Go:
			x.goStmt(f, v)
		case *ssa.Call:
			var fnv Value
			if !v.Call.IsInvoke() {
				if _, isB := v.Call.Value.(*ssa.Builtin); !isB {
					fnv = x.val(f, v.Call.Value)
				}
			} else {
				fnv = x.val(f, v.Call.Value)
			}
			var args []Value
			for _, a := range v.Call.Args {
				args = append(args, x.val(f, a))
			}
			os := x.callCommon(f, &v.Call, fnv, args, false, v.Pos())
			if len(os) == 1 && !os[0].panic {
				f.st = os[0].st
				x.bindCall(f, v, os[0].res)
				continue
			}
			for _, o := range os {
				g := f.clone()
				g.st = o.st
				if o.panic {
					x.unwind(g, v.Pos(), outs)
					continue
				}
				x.bindCall(g, v, o.res)
				x.instrs(g, b, i+1, outs)
			}
			return
		case *ssa.TypeAssert:
			if v.CommaOk {
				iv := x.val(f, v.X).t
				ok := x.underPC(f.st, x.hasType(iv, v.AssertedType))
				if ok != tFalse {
					g := f
					if ok != tTrue {
						g = f.clone()
					}
					if g.st.assume(ok) && (ok == tTrue || x.feasible(g.st)) {
						g.env[v] = Value{k: KStruct, fs: []Value{x.unbox(g.st, v.AssertedType, iv), term(tTrue)}}
						x.instrs(g, b, i+1, outs)
					}
				}
				if ok != tTrue {
					if f.st.assume(Not(ok)) && x.feasible(f.st) {
						f.env[v] = Value{k: KStruct, fs: []Value{x.zero(f.st, v.AssertedType), term(tFalse)}}
						x.instrs(f, b, i+1, outs)
					}
				}
				return
			}
			iv := x.val(f, v.X).t
			ok := x.hasType(iv, v.AssertedType)
			if !x.guardOK(f, "type assertion", ok, v.Pos(), outs) {
				return
			}
			f.env[v] = x.unbox(f.st, v.AssertedType, iv)
		case *ssa.Select:
			x.selectStmt(f, v, b, i, outs)
			return
		default:
			if !x.simple(f, in, outs) {
				return
			}
		}
	}
}

func (x *Exec) bindCall(f *Frame, v *ssa.Call, res []Value) {
	if tup, ok := v.Type().(*types.Tuple); ok {
		if tup.Len() == 0 {
			return
		}
		f.env[v] = Value{k: KStruct, fs: res}
		return
	}
	if len(res) == 1 {
		f.env[v] = res[0]
	}
}

// underPC simplifies a condition that is literally on the path.
func (x *Exec) underPC(st *State, c *Term) *Term {
	if c == tTrue || c == tFalse {
		return c
	}
	nc := Not(c)
	for _, p := range st.pc {
		if p == c {
			return tTrue
		}
		if p == nc {
			return tFalse
		}
	}
	if c.op == "and" {
		var left []*Term
		for _, a := range c.args {
			switch r := x.underPC(st, a); r {
			case tTrue:
			case tFalse:
				return tFalse
			default:
				left = append(left, r)
			}
		}
		if len(left) < len(c.args) {
			return And(left...)
		}
	}
	return c
}

// hasType: the interface value v holds type t (or implements interface t).
func (x *Exec) hasType(v *Term, t types.Type) *Term {
	if !types.IsInterface(t) {
		return Eq(VTag(v), x.tag(t))
	}
	it := t.Underlying().(*types.Interface)
	if it.NumMethods() == 0 {
		return Ne(v, tVNil)
	}
	tg := VTag(v)
	if tg.isInt() {
		if tt := x.tagType[tg.n.Int64()]; tt != nil {
			return Bool(types.Implements(tt, it))
		}
		return tFalse
	}
	var cs []*Term
	for _, im := range x.P.implementers(it) {
		cs = append(cs, Eq(tg, x.tag(im)))
	}
	if n, ok := t.(*types.Named); !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), x.P.module) {
		// types outside the module implement it, too
		cs = append(cs, App("implements:"+x.P.typeKey(t), SBool, tg))
	}
	return Or(cs...)
}

func (x *Exec) selectStmt(f *Frame, v *ssa.Select, b *ssa.BasicBlock, i int, outs *[]Outcome) {
	n := len(v.States)
	if !v.Blocking {
		n++
	}
	if n == 0 { // select {}: blocks for ever
		return
	}
	for k := 0; k < n; k++ {
		g := f.clone()
		idx := int64(k)
		if k == len(v.States) {
			idx = -1
		}
		fs := []Value{term(Int(idx)), term(Fresh("recvOk", SBool))}
		tup := v.Type().(*types.Tuple)
		for j := 2; j < tup.Len(); j++ {
			fs = append(fs, x.fresh(g.st, tup.At(j).Type(), "recv"))
		}
		g.env[v] = Value{k: KStruct, fs: fs}
		x.instrs(g, b, i+1, outs)
	}
}

// goStmt: the new goroutine runs on its own.  Whatever happens in it, no panic
// may leave it: that would end the whole server.
func (x *Exec) goStmt(f *Frame, v *ssa.Go) {
	var args []Value
	for _, a := range v.Call.Args {
		args = append(args, x.val(f, a))
	}
	var fnv Value
	if v.Call.IsInvoke() {
		fnv = x.val(f, v.Call.Value)
	} else if _, isB := v.Call.Value.(*ssa.Builtin); !isB {
		fnv = x.val(f, v.Call.Value)
	}
	ev := &Event{name: "go"}
	f.st.events = append(f.st.events, ev)
	if activeProp != "C20" && activeProp != "C21" && activeProp != "" || x.v == nil {
		return
	}
	g := f.clone()
	g.st.events = nil
	g.defers = nil
	x.races(f, g.st, fnv, args)
	saved := *x.v
	x.v.noPanic, x.v.allPanic = false, activeProp != "C21"
	outs := x.callCommon(g, &v.Call, fnv, args, false, v.Pos())
	x.v.noPanic, x.v.allPanic = saved.noPanic, saved.allPanic
	// what it has called when it ends, if that is always the same
	defer x.ghosts(f.st, outs)
	var ran *Term
	for i, o := range outs {
		x.oblige(o.st, "nopanic", "no panic leaves the goroutine", Bool(!o.panic), v.Pos())
		c := x.loadLoc(o.st, "L:called", Int(0), calledType)
		if i > 0 && c != ran {
			return
		}
		ran = c
	}
	if ran != nil {
		ev.args = []Value{term(ran)}
	}
}

// ghosts: what starting the goroutine means for the ghost variables.
func (x *Exec) ghosts(st *State, outs []Outcome) {
	keys := map[string]bool{}
	for _, o := range outs {
		for k := range o.st.heap {
			if strings.HasPrefix(k, "L:g:") {
				keys[k] = true
			}
		}
	}
next:
	for _, k := range sortedKeys(keys) {
		var v *Term
		for _, o := range outs {
			w := x.loadLoc(o.st, k, Int(0), x.keyRng[k])
			if v != nil && v != w {
				continue next
			}
			v = w
		}
		x.storeLoc(st, k, Int(0), v, x.keyRng[k])
	}
}

// races: a variable that is assigned again after the goroutine was started
// has no definite value in it.
func (x *Exec) races(f *Frame, st *State, fnv Value, args []Value) {
	for _, v := range append([]Value{fnv}, args...) {
		if v.k == KTerm && v.t != nil && v.t.isInt() {
			if c := x.closBy[v.t.n.Int64()]; c != nil {
				v = Value{k: KFunc, fn: c}
			}
		}
		if v.k != KFunc || v.fn == nil || v.fn.made == nil {
			continue
		}
		for i, b := range v.fn.made.Bindings {
			a, ok := b.(*ssa.Alloc)
			if !ok || !assignedAfter(a, v.fn.made) {
				continue
			}
			t := a.Type().Underlying().(*types.Pointer).Elem()
			for _, l := range x.deepLocs(st, v.fn.binds[i], t) {
				x.havocOne(st, l)
			}
		}
	}
}

// assignedAfter: the variable can be stored to after mc, before it is made anew.
func assignedAfter(a *ssa.Alloc, mc *ssa.MakeClosure) bool {
	stores := map[ssa.Instruction]bool{}
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == a {
			stores[s] = true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var scan func(b *ssa.BasicBlock, from int) bool
	scan = func(b *ssa.BasicBlock, from int) bool {
		for _, in := range b.Instrs[from:] {
			if in == ssa.Instruction(a) {
				return false
			}
			if stores[in] {
				return true
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if scan(s, 0) {
					return true
				}
			}
		}
		return false
	}
	for i, in := range mc.Block().Instrs {
		if in == ssa.Instruction(mc) {
			return scan(mc.Block(), i+1)
		}
	}
	return false
}

// simple executes an instruction without control flow; false: path ended.
func (x *Exec) simple(f *Frame, in ssa.Instruction, outs *[]Outcome) bool {
	st := f.st
	switch v := in.(type) {
	case *ssa.Alloc:
		t := v.Type().Underlying().(*types.Pointer).Elem()
		ref := x.alloc()
		if isArrayT(t) {
			var c *Term
			if at := t.Underlying().(*types.Array); x.isRefStruct(at.Elem()) {
				if at.Len() > 64 {
					unsup("array of %d struct values", at.Len())
				}
				us := make([]*Term, at.Len())
				for i := range us {
					el := x.alloc()
					x.initObj(st, term(el), at.Elem())
					us[i] = Unit(el)
				}
				c = Concat(SSeqI, us...)
			} else {
				c = x.zero(st, t).t
			}
			r := x.newRegion(st, c, true)
			arrRegs[fmt.Sprintf("%s@%d", x.P.typeKey(t), ref.id)] = r
			f.env[v] = term(ref)
			return true
		}
		f.env[v] = term(ref)
		x.initObj(st, term(ref), t)
	case *ssa.Store:
		p := x.val(f, v.Addr)
		t := v.Addr.Type().Underlying().(*types.Pointer).Elem()
		if !x.derefOK(f, p, t, v.Pos(), outs) {
			return false
		}
		if sv := x.val(f, v.Val); sv.guard != nil && x.v != nil {
			x.oblige(st, "lock", "a shared table is not handed out", tFalse, v.Pos())
		}
		x.store(st, p, t, x.val(f, v.Val))
	case *ssa.UnOp:
		return x.unop(f, v, outs)
	case *ssa.BinOp:
		r, ok := x.binop(f, v, outs)
		if !ok {
			return false
		}
		f.env[v] = r
	case *ssa.FieldAddr:
		p := x.val(f, v.X)
		T := v.X.Type().Underlying().(*types.Pointer).Elem()
		if p.k == KTerm {
			if !x.guardOK(f, "nil dereference", Ne(p.t, Int(0)), v.Pos(), outs) {
				return false
			}
		}
		f.env[v] = x.fieldAddr(st, p, T, v.Field)
	case *ssa.Field:
		s := x.val(f, v.X)
		if s.k != KStruct {
			f.env[v] = x.fresh(st, v.Type(), "extfield")
			return true
		}
		f.env[v] = s.fs[v.Field]
	case *ssa.Extract:
		f.env[v] = x.val(f, v.Tuple).fs[v.Index]
	case *ssa.IndexAddr:
		return x.indexAddr(f, v, outs)
	case *ssa.Index:
		s := x.val(f, v.X)
		i := x.val(f, v.Index).t
		if s.k == KStruct { // an array of structs
			if !i.isInt() || i.n.Sign() < 0 || i.n.Int64() >= int64(len(s.fs)) {
				unsup("element of an array of struct values")
			}
			f.env[v] = s.fs[i.n.Int64()]
			return true
		}
		if !x.guardOK(f, "index out of range", And(Le(Int(0), i), Lt(i, Len(s.t))), v.Pos(), outs) {
			return false
		}
		f.env[v] = x.fromTerm(st, v.Type(), Nth(s.t, i))
	case *ssa.Lookup:
		return x.lookup(f, v, outs)
	case *ssa.MapUpdate:
		m := x.val(f, v.Map)
		if !x.guardOK(f, "assignment to nil map", Ne(m.t, Int(0)), v.Pos(), outs) {
			return false
		}
		x.checkGuardW(f, m, v.Pos())
		mt := v.Map.Type()
		c := x.loadMap(st, mt, m.t)
		nv := x.val(f, v.Value)
		if inv := x.mapInv(st, m, mt.Underlying().(*types.Map), x.toTerm(st, x.val(f, v.Key)), x.toTerm(st, nv)); inv != nil {
			x.oblige(st, "mapinv", "entry invariant of "+m.mfield, inv, v.Pos())
		} else if m.mfield == "" && x.invMapType(mt) && !(m.t.isInt() && m.t.n.Int64() >= allocBase) {
			x.oblige(st, "mapinv", "map written through an unknown reference", tFalse, v.Pos())
		}
		x.storeLoc(st, x.mapKey(mt), m.t, MapPut(c, x.toTerm(st, x.val(f, v.Key)), x.toTerm(st, nv)), mt)
	case *ssa.MakeMap:
		ref := x.alloc()
		x.storeLoc(st, x.mapKey(v.Type()), ref, MapEmpty(x.mapSig(v.Type())), v.Type())
		f.env[v] = term(ref)
	case *ssa.MakeSlice:
		n := x.val(f, v.Len).t
		c := x.val(f, v.Cap).t
		if !x.guardOK(f, "makeslice: len out of range", And(Le(Int(0), n), Le(n, c)), v.Pos(), outs) {
			return false
		}
		el := v.Type().Underlying().(*types.Slice).Elem()
		if x.isRefStruct(el) {
			if n != Int(0) {
				unsup("make of a slice of struct values")
			}
			f.env[v] = x.sliceOf(st, emptyOf(SSeqI), true)
			return true
		}
		z := x.elemTerm(x.toTerm(st, x.zero(st, el)))
		s := x.sliceOf(st, replicate(z, n), true)
		s.sl.len = n
		f.env[v] = s
	case *ssa.MakeChan:
		f.env[v] = term(x.alloc())
	case *ssa.MakeClosure:
		var bs []Value
		for _, b := range v.Bindings {
			bs = append(bs, x.val(f, b))
		}
		f.env[v] = x.mkClosure(v.Fn.(*ssa.Function), bs)
		f.env[v].fn.made = v
	case *ssa.MakeInterface:
		xv := x.val(f, v.X)
		bv := term(x.box(st, v.X.Type(), xv))
		if xv.k == KSlice {
			bv.sl = xv.sl // sort.Slice writes through it
		}
		f.env[v] = bv
	case *ssa.ChangeInterface:
		f.env[v] = x.val(f, v.X)
	case *ssa.ChangeType:
		f.env[v] = x.val(f, v.X)
	case *ssa.Convert:
		f.env[v] = x.convert(f, v)
	case *ssa.Slice:
		return x.slice(f, v, outs)
	case *ssa.SliceToArrayPointer:
		unsup("slice to array pointer")
	case *ssa.Range:
		f.env[v] = x.val(f, v.X)
	case *ssa.Next:
		x.next(f, v)
	case *ssa.Send:
		st.events = append(st.events, &Event{name: "send", args: []Value{x.val(f, v.Chan), x.val(f, v.X)}})
	default:
		unsup("instruction %T in %s", in, f.fn)
	}
	return true
}

// initObj zeroes a freshly allocated object.
func (x *Exec) initObj(st *State, p Value, t types.Type) {
	if x.isObj(t) {
		x.storeLoc(st, "O:"+x.P.typeKey(t), p.t, x.objZero(t), nil2(x.objType(t)))
		return
	}
	if x.isRefStruct(t) {
		u := t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			a := x.fieldAddr(st, p, t, i)
			if x.hasRef(ft) {
				x.initObj(st, a, ft)
			} else {
				x.store(st, a, ft, x.zero(st, ft))
			}
		}
		return
	}
	x.store(st, p, t, x.zero(st, t))
}

func nil2(t types.Type) types.Type { return t }

// objType: the logical content of a synchronisation or builder object.
func (x *Exec) objType(t types.Type) types.Type {
	switch x.P.typeKey(t) {
	case "strings.Builder", "bytes.Buffer":
		return types.Typ[types.String]
	}
	return types.Typ[types.Bool]
}

func (x *Exec) objZero(t types.Type) *Term { return zeroOfSort(x.sortOf(x.objType(t))) }

func (x *Exec) derefOK(f *Frame, p Value, t types.Type, pos token.Pos, outs *[]Outcome) bool {
	if p.k != KTerm {
		return true
	}
	return x.guardOK(f, "nil dereference", Ne(p.t, Int(0)), pos, outs)
}

// replicate: n copies of z.
func replicate(z, n *Term) *Term {
	if k, ok := n.int64(); ok && k <= 4096 {
		u := make([]*Term, k)
		for i := range u {
			u[i] = Unit(z)
		}
		s := SSeqI
		if z.sort == SVal {
			s = SSeqV
		}
		return Concat(s, u...)
	}
	if z.sort == SInt {
		return App("repl", SSeqI, z, n)
	}
	return App("replv", SSeqV, z, n)
}

func init() {
	declFn(&recFn{name: "repl", params: []Sort{SInt, SInt}, ret: SSeqI,
		constLen: func(a []*Term) *Term { return Ite(Le(Int(0), a[1]), a[1], Int(0)) },
		unfold: func(a []*Term) *Term {
			return Ite(Le(a[1], Int(0)), tEmpty, Concat(SSeqI, Unit(a[0]), App("repl", SSeqI, a[0], Sub(a[1], Int(1)))))
		},
		facts: func(a []*Term) []*Term {
			t := mk("uf", SSeqI, "repl", nil, a...)
			p := mk("uf", SSeqI, "repl", nil, a[0], Sub(a[1], Int(1)))
			return []*Term{Eq(mk("len", SInt, "", nil, t), Ite(Le(Int(0), a[1]), a[1], Int(0))),
				Implies(Lt(Int(0), a[1]), Eq(t, Concat(SSeqI, p, Unit(a[0]))))}
		},
		simp: func(a []*Term) *Term {
			if k, ok := a[1].int64(); ok && k <= 4096 {
				u := []*Term{}
				for i := int64(0); i < k; i++ {
					u = append(u, Unit(a[0]))
				}
				return Concat(SSeqI, u...)
			}
			return nil
		}})
	declFn(&recFn{name: "replv", params: []Sort{SVal, SInt}, ret: SSeqV,
		constLen: func(a []*Term) *Term { return Ite(Le(Int(0), a[1]), a[1], Int(0)) },
		facts: func(a []*Term) []*Term {
			t := mk("uf", SSeqV, "replv", nil, a...)
			return []*Term{Eq(mk("len", SInt, "", nil, t), Ite(Le(Int(0), a[1]), a[1], Int(0)))}
		}})
}

func (x *Exec) unop(f *Frame, v *ssa.UnOp, outs *[]Outcome) bool {
	st := f.st
	switch v.Op {
	case token.MUL:
		p := x.val(f, v.X)
		if g, ok := v.X.(*ssa.Global); ok {
			if r, ok := x.globalLoad(st, g); ok {
				f.env[v] = r
				return true
			}
		}
		if !x.derefOK(f, p, v.Type(), v.Pos(), outs) {
			return false
		}
		r := x.load(st, p, v.Type())
		if p.k == KAddr && !p.addr.el {
			if x.specs.mapinvs[strings.TrimPrefix(p.addr.key, "F:")] != nil {
				r.mfield = p.addr.key[2:]
			}
			if gf := x.guardField(p.addr.key); gf != "" {
				r.guard = x.guardOf(st, p.addr, gf)
			}
		}
		f.env[v] = r
	case token.NOT:
		f.env[v] = term(Not(x.val(f, v.X).t))
	case token.SUB:
		a := x.val(f, v.X).t
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			f.env[v] = term(App("fneg", SInt, a))
		} else {
			f.env[v] = term(wrap(Neg(a), v.Type()))
		}
	case token.XOR: // bitwise complement
		a := x.val(f, v.X).t
		bits, signed := intInfo(v.Type())
		if signed {
			f.env[v] = term(Sub(Int(-1), a))
		} else {
			f.env[v] = term(Sub(Sub(BigInt(pow2(bits)), Int(1)), a))
		}
	case token.ARROW:
		r := x.fresh(st, v.Type(), "recv")
		f.env[v] = r
	default:
		unsup("unary %s", v.Op)
	}
	return true
}

func (x *Exec) binop(f *Frame, v *ssa.BinOp, outs *[]Outcome) (Value, bool) {
	st := f.st
	a, b := x.val(f, v.X), x.val(f, v.Y)
	t := v.X.Type()
	if v.Op == token.EQL || v.Op == token.NEQ {
		e := x.equal(st, a, b, v.X, v.Y)
		if v.Op == token.NEQ {
			e = Not(e)
		}
		return term(e), true
	}
	ub, _ := t.Underlying().(*types.Basic)
	if ub == nil {
		unsup("binary %s on %s", v.Op, t)
	}
	A, B := a.t, b.t
	if ub.Info()&types.IsString != 0 {
		switch v.Op {
		case token.ADD:
			return term(Concat(SSeqI, A, B)), true
		case token.LSS:
			return term(App("strlt", SBool, A, B)), true
		case token.GTR:
			return term(App("strlt", SBool, B, A)), true
		case token.LEQ:
			return term(Not(App("strlt", SBool, B, A))), true
		case token.GEQ:
			return term(Not(App("strlt", SBool, A, B))), true
		}
	}
	if ub.Info()&types.IsFloat != 0 {
		switch v.Op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return term(App("f"+v.Op.String(), SInt, A, B)), true
		case token.LSS:
			return term(App("flt", SBool, A, B)), true
		case token.GTR:
			return term(App("flt", SBool, B, A)), true
		case token.LEQ:
			return term(App("fle", SBool, A, B)), true
		case token.GEQ:
			return term(App("fle", SBool, B, A)), true
		}
	}
	switch v.Op {
	case token.ADD:
		return term(wrap(Add(A, B), v.Type())), true
	case token.SUB:
		return term(wrap(Sub(A, B), v.Type())), true
	case token.MUL:
		return term(wrap(Mul(A, B), v.Type())), true
	case token.QUO:
		if !x.guardOK(f, "division by zero", Ne(B, Int(0)), v.Pos(), outs) {
			return Value{}, false
		}
		return term(goDiv(A, B)), true
	case token.REM:
		if !x.guardOK(f, "division by zero", Ne(B, Int(0)), v.Pos(), outs) {
			return Value{}, false
		}
		return term(goRem(A, B)), true
	case token.AND:
		if _, signed := intInfo(t); signed && !(nonneg(A) || nonneg(B)) {
			unsup("& on signed operands")
		}
		return term(BAnd(A, B)), true
	case token.OR:
		return term(BOr(A, B)), true
	case token.XOR:
		return term(BXor(A, B)), true
	case token.AND_NOT:
		if B.isInt() && B.n.Sign() >= 0 {
			return term(Sub(A, bandMask(A, B.n))), true
		}
		return term(Sub(A, BAnd(A, B))), true
	case token.SHL:
		k, ok := B.int64()
		if !ok || k < 0 {
			return term(wrap(Mul(A, App("pow2", SInt, B)), v.Type())), true
		}
		if k > 64 {
			return term(Int(0)), true
		}
		return term(wrap(Mul(A, BigInt(pow2(uint(k)))), v.Type())), true
	case token.SHR:
		k, ok := B.int64()
		if !ok || k < 0 {
			return term(Div(A, App("pow2", SInt, B))), true
		}
		return term(Div(A, BigInt(pow2(uint(k))))), true
	case token.LSS:
		return term(Lt(A, B)), true
	case token.LEQ:
		return term(Le(A, B)), true
	case token.GTR:
		return term(Gt(A, B)), true
	case token.GEQ:
		return term(Ge(A, B)), true
	}
	unsup("binary %s", v.Op)
	return Value{}, false
}

func init() {
	declFn(&recFn{name: "pow2", params: []Sort{SInt}, ret: SInt, rng: mkRng(1, 1<<62), simp: func(a []*Term) *Term {
		if k, ok := a[0].int64(); ok && k >= 0 && k <= 64 {
			return BigInt(pow2(uint(k)))
		}
		return nil
	}})
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (x *Exec) equal(st *State, a, b Value, xa, xb ssa.Value) *Term {
	if a.k == KSlice || b.k == KSlice {
		if isNilConst(xb) {
			return a.sl.isnil
		}
		if isNilConst(xa) {
			return b.sl.isnil
		}
		unsup("slice comparison")
	}
	if a.k == KStruct {
		var cs []*Term
		for i := range a.fs {
			cs = append(cs, x.equal(st, a.fs[i], b.fs[i], nil, nil))
		}
		return And(cs...)
	}
	if a.k == KFunc || b.k == KFunc {
		return Eq(x.toTerm(st, a), x.toTerm(st, b))
	}
	if a.k == KAddr || b.k == KAddr {
		if a.k == KAddr && b.k == KAddr {
			if a.addr.key != b.addr.key || a.addr.el != b.addr.el {
				return tFalse
			}
			if a.addr.el {
				return And(Bool(a.addr.reg == b.addr.reg), Eq(a.addr.idx, b.addr.idx))
			}
			return Eq(a.addr.ref, b.addr.ref)
		}
		return tFalse // an interior address is never nil
	}
	// interface against concrete: go/ssa inserts MakeInterface
	return Eq(a.t, b.t)
}

func (x *Exec) indexAddr(f *Frame, v *ssa.IndexAddr, outs *[]Outcome) bool {
	st := f.st
	s := x.val(f, v.X)
	i := x.val(f, v.Index).t
	switch u := v.X.Type().Underlying().(type) {
	case *types.Slice:
		if !x.guardOK(f, "index out of range", And(Le(Int(0), i), Lt(i, s.sl.len)), v.Pos(), outs) {
			return false
		}
		if x.isRefStruct(u.Elem()) {
			f.env[v] = x.structElem(st, s.sl.reg, Add(s.sl.off, i))
			return true
		}
		f.env[v] = Value{k: KAddr, addr: &Addr{el: true, reg: s.sl.reg, idx: Add(s.sl.off, i), typ: u.Elem()}}
	case *types.Pointer:
		at := u.Elem()
		r := x.arrayRegion(st, s.t, at)
		n := at.Underlying().(*types.Array).Len()
		if !x.guardOK(f, "index out of range", And(Le(Int(0), i), Lt(i, Int(n))), v.Pos(), outs) {
			return false
		}
		if x.isRefStruct(at.Underlying().(*types.Array).Elem()) {
			f.env[v] = x.structElem(st, r, i)
			return true
		}
		f.env[v] = Value{k: KAddr, addr: &Addr{el: true, reg: r, idx: i, typ: at.Underlying().(*types.Array).Elem()}}
	}
	return true
}

// structElem: the object that holds an element of a slice of struct values
// (only where it is known which).
func (x *Exec) structElem(st *State, reg int, i *Term) Value {
	r := Nth(st.regions[reg].content, i)
	if !r.isInt() {
		unsup("element of a slice of struct values")
	}
	return term(r)
}

func (x *Exec) slice(f *Frame, v *ssa.Slice, outs *[]Outcome) bool {
	s := x.val(f, v.X)
	lo := Int(0)
	if v.Low != nil {
		lo = x.val(f, v.Low).t
	}
	var n *Term
	var sl *Slice
	isStr := false
	switch u := v.X.Type().Underlying().(type) {
	case *types.Slice:
		sl = s.sl
		n = sl.len
	case *types.Pointer:
		r := x.arrayRegion(f.st, s.t, u.Elem())
		n = Int(u.Elem().Underlying().(*types.Array).Len())
		sl = &Slice{reg: r, off: Int(0), len: n, isnil: tFalse}
	default:
		isStr = true
		n = Len(s.t)
	}
	hi := n
	if v.High != nil {
		hi = x.val(f, v.High).t
	}
	lim := n
	if v.Max != nil {
		lim = x.val(f, v.Max).t
		if ok := Le(lim, n); ok != tTrue && entails(f.st.pc, ok, 2e9).r != Unsat {
			unsup("slice expression with a maximum beyond the length")
		}
	}
	if _, isSl := v.X.Type().Underlying().(*types.Slice); isSl && v.High != nil && v.Max == nil && x.v != nil && !(x.v.noPanic && !x.v.allowPanic) {
		in := x.underPC(f.st, Le(hi, n))
		if in != tTrue && entails(f.st.pc, in, 2e9).r != Unsat {
			// s[lo:hi] may reach past the length, up to the capacity: what is there is unknown
			capn := Fresh("cap", SInt)
			f.st.assume(Le(n, capn))
			if !x.guardOK(f, "slice bounds out of range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, capn)), v.Pos(), outs) {
				return false
			}
			r := f.st.regions[sl.reg]
			c := Fresh("beyond", r.content.sort)
			if c.sort == SSeqI {
				setElem(c, elemRangeOf(r.content))
			}
			f.st.assume(Eq(Len(c), Sub(hi, lo)))
			f.st.assume(Implies(Le(hi, n), Eq(c, Extract(r.content, Add(sl.off, lo), Sub(hi, lo)))))
			w := x.sliceOf(f.st, c, false)
			w.sl.isnil = sl.isnil
			f.env[v] = w
			return true
		}
	}
	if !x.guardOK(f, "slice bounds out of range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, lim)), v.Pos(), outs) {
		return false
	}
	if isStr {
		f.env[v] = term(Extract(s.t, lo, Sub(hi, lo)))
		return true
	}
	f.env[v] = Value{k: KSlice, sl: &Slice{reg: sl.reg, off: Add(sl.off, lo), len: Sub(hi, lo), isnil: sl.isnil}}
	return true
}

func (x *Exec) lookup(f *Frame, v *ssa.Lookup, outs *[]Outcome) bool {
	st := f.st
	m := x.val(f, v.X)
	mt, ok := v.X.Type().Underlying().(*types.Map)
	if !ok { // string index
		i := x.val(f, v.Index).t
		if !x.guardOK(f, "index out of range", And(Le(Int(0), i), Lt(i, Len(m.t))), v.Pos(), outs) {
			return false
		}
		f.env[v] = term(Nth(m.t, i))
		return true
	}
	x.checkGuard(f, m, v.Pos())
	k := x.toTerm(st, x.val(f, v.Index))
	c := x.loadMap(st, v.X.Type(), m.t)
	has := MapHas(c, k)
	get := MapGet(c, k)
	if m.t == Int(0) {
		has, get = tFalse, zeroOfSort(x.sortOf(mt.Elem()))
	}
	if !has.isConstBool() && m.t.op != "int" {
		// nil map reads as empty
		nz := Ne(m.t, Int(0))
		if x.underPC(st, nz) != tTrue {
			has = And(nz, has)
		}
	}
	val := x.fromTerm(st, mt.Elem(), Ite(has, get, zeroOfSort(x.sortOf(mt.Elem()))))
	if inv := x.mapInv(st, m, mt, k, get); inv != nil && has != tFalse {
		st.assume(Implies(has, inv))
	}
	if v.CommaOk {
		f.env[v] = Value{k: KStruct, fs: []Value{val, term(has)}}
	} else {
		f.env[v] = val
	}
	return true
}

func (t *Term) isConstBool() bool { return t == tTrue || t == tFalse }

func (x *Exec) next(f *Frame, v *ssa.Next) {
	st := f.st
	if v.IsString {
		unsup("range over string")
	}
	rg := v.Iter.(*ssa.Range)
	m := x.val(f, rg.X)
	x.checkGuard(f, m, v.Pos())
	mt := rg.X.Type().Underlying().(*types.Map)
	ok := Fresh("mapnext", SBool)
	kv := x.fresh(st, mt.Key(), "mapkey")
	k := x.toTerm(st, kv)
	c := x.loadMap(st, rg.X.Type(), m.t)
	st.assume(Implies(ok, MapHas(c, k)))
	if inv := x.mapInv(st, m, mt, k, MapGet(c, k)); inv != nil {
		st.assume(Implies(ok, inv))
	}
	f.env[v] = Value{k: KStruct, fs: []Value{term(ok), kv, x.fromTerm(st, mt.Elem(), MapGet(c, k))}}
}

func (x *Exec) convert(f *Frame, v *ssa.Convert) Value {
	st := f.st
	a := x.val(f, v.X)
	from, to := v.X.Type().Underlying(), v.Type().Underlying()
	fb, _ := from.(*types.Basic)
	tb, _ := to.(*types.Basic)
	switch {
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		return term(wrap(a.t, v.Type()))
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
		if tb.Kind() == types.Float32 {
			return term(App("i2f32", SInt, a.t))
		}
		return term(App("i2f", SInt, a.t))
	case fb != nil && tb != nil && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
		// float64 holds every integer up to 2^53 exactly
		if a.t.op == "uf" && a.t.name == "i2f" {
			r := rangeOf(a.t.args[0])
			if r.lo != nil && r.hi != nil && r.lo.BitLen() <= 53 && r.hi.BitLen() <= 53 {
				return term(wrap(a.t.args[0], v.Type()))
			}
		}
		n := "f2i_" + tb.Name()
		if getFn(n) == nil {
			declFn(&recFn{name: n, params: []Sort{SInt}, ret: SInt, rng: typeRng(v.Type())})
		}
		return term(App(n, SInt, a.t))
	case fb != nil && tb != nil && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		if fb.Kind() == tb.Kind() {
			return a
		}
		return term(App("f2f_"+tb.Name(), SInt, a.t))
	case tb != nil && tb.Info()&types.IsString != 0:
		if isSliceT(from) {
			return term(st.content(a.sl))
		}
		if fb != nil && fb.Info()&types.IsString != 0 {
			return a
		}
		if fb != nil { // string(rune)
			return term(utf8enc(a.t))
		}
	case fb != nil && fb.Info()&types.IsString != 0 && isSliceT(to):
		return x.sliceOf(st, a.t, true)
	}
	unsup("conversion %s -> %s", v.X.Type(), v.Type())
	return Value{}
}

// utf8enc: UTF-8 encoding of a code point; surrogates and out-of-range values
// are written as U+FFFD.
func utf8enc(r *Term) *Term { return App("utf8enc", SSeqI, r) }

func utf8ok(r *Term) *Term {
	return And(Le(Int(0), r), Or(Lt(r, Int(0xd800)), And(Lt(Int(0xdfff), r), Le(r, Int(0x10ffff)))))
}

func init() {
	part := func(r *Term, div int64) *Term { return Unit(Add(Int(0x80), Mod(Div(r, Int(div)), Int(64)))) }
	declFn(&recFn{name: "utf8enc", params: []Sort{SInt}, ret: SSeqI, elem: byteRng,
		unfold: func(a []*Term) *Term {
			r := a[0]
			return Ite(Not(utf8ok(r)), SeqLit([]byte{0xef, 0xbf, 0xbd}),
				Ite(Lt(r, Int(0x80)), Unit(r),
					Ite(Lt(r, Int(0x800)), Concat(SSeqI, Unit(Add(Int(0xc0), Div(r, Int(64)))), part(r, 1)),
						Ite(Lt(r, Int(0x10000)), Concat(SSeqI, Unit(Add(Int(0xe0), Div(r, Int(4096)))), part(r, 64), part(r, 1)),
							Concat(SSeqI, Unit(Add(Int(0xf0), Div(r, Int(262144)))), part(r, 4096), part(r, 64), part(r, 1))))))
		},
		facts: func(a []*Term) []*Term {
			t := mk("uf", SSeqI, "utf8enc", nil, a...)
			return []*Term{Implies(utf8ok(a[0]), Eq(App("utf8dec", SInt, t), a[0])), Le(Int(1), mk("len", SInt, "", nil, t)), Le(mk("len", SInt, "", nil, t), Int(4))}
		}})
}

// mapInv: the invariant of the entries of a stored map, for one entry.
func (x *Exec) mapInv(st *State, m Value, mt *types.Map, k, v *Term) *Term {
	mi := x.specs.mapinvs[m.mfield]
	if mi == nil {
		return nil
	}
	s2 := st.clone()
	env := &SpecEnv{x: x, st: s2, old: s2, vars: map[string]SV{
		mi.params[0]: {v: x.fromTerm(s2, mt.Key(), k), t: mt.Key()},
		mi.params[1]: {v: x.fromTerm(s2, mt.Elem(), v), t: mt.Elem()}}}
	if x.v != nil {
		x.v.mapinvs[m.mfield] = true
	}
	return env.boolean(mi.body)
}

// invMapType: some stored map of this type has an entry invariant.
func (x *Exec) invMapType(t types.Type) bool {
	for f := range x.specs.mapinvs {
		if ft := x.fieldType(f); ft != nil && types.Identical(ft.Underlying(), t.Underlying()) {
			return true
		}
	}
	return false
}

// fieldType: the type of "pkg.T.f".
func (x *Exec) fieldType(f string) types.Type {
	i := strings.LastIndex(f, ".")
	for _, n := range x.P.named {
		if x.P.typeKey(n) == f[:i] {
			if u, ok := n.Underlying().(*types.Struct); ok {
				for k := 0; k < u.NumFields(); k++ {
					if u.Field(k).Name() == f[i+1:] {
						return u.Field(k).Type()
					}
				}
			}
		}
	}
	return nil
}

// mapInvStable: why the entry invariant of a map field could be broken by a
// write to an entry that is already stored ("" if it cannot).
func (x *Exec) mapInvStable(f string) string {
	mi := x.specs.mapinvs[f]
	mt, ok := x.fieldType(f).Underlying().(*types.Map)
	if !ok {
		return "no such map field"
	}
	p, ok := mt.Elem().Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	el := x.P.typeKey(p.Elem())
	why := ""
	var rec func(e *Ex)
	rec = func(e *Ex) {
		if e == nil {
			return
		}
		if e.op == "field" {
			key := "F:" + el + "." + e.name
			if x.P.mutKeys[key] {
				why = key + " is written at run time"
			}
		}
		if e.op == "call" && e.name == x.specs.typeinvs[el] {
			if w := x.typeInvKept(el, e.name, p.Elem()); w != "" {
				why = w
			}
			return
		}
		if e.op == "call" {
			if fn := x.specs.fns[e.name]; fn != nil {
				rec(fn.body)
			}
		}
		for _, a := range e.args {
			rec(a)
		}
	}
	rec(mi.body)
	return why
}

// typeInvKept: every function that writes a field of T ensures the predicate.
func (x *Exec) typeInvKept(el, pred string, T types.Type) string {
	u := T.Underlying().(*types.Struct)
	ok := map[string]bool{}
	var kept func(k string, depth int) bool
	kept = func(k string, depth int) bool {
		if ok[k] {
			return true
		}
		if c := x.specs.contracts[k]; c != nil && !c.inline {
			for _, cl := range c.clauses {
				if cl.kind == "ensures" && cl.ex.op == "call" && cl.ex.name == pred {
					ok[k] = true
					return true
				}
			}
			return false
		}
		fn := x.P.funcs[k]
		if fn == nil || depth > 4 || x.P.escapes[fn] || len(x.P.callers[fn]) == 0 {
			return false
		}
		for _, c := range x.P.callers[fn] {
			if !kept(x.P.key(c), depth+1) {
				return false
			}
		}
		ok[k] = true
		return true
	}
	for i := 0; i < u.NumFields(); i++ {
		key := "F:" + el + "." + u.Field(i).Name()
		for _, k := range sortedKeys(x.P.mutBy[key]) {
			if !kept(k, 0) {
				return k + " writes " + key + " and is not shown to keep " + pred
			}
		}
	}
	return ""
}

// ---- guarded fields ----

func (x *Exec) guardField(key string) string {
	if len(key) > 2 && key[:2] == "F:" {
		return x.specs.guards[key[2:]]
	}
	return ""
}

// guardOf: the mutex (reference) guarding the field at address a.
func (x *Exec) guardOf(st *State, a *Addr, mutex string) *Term {
	// a.key = F:pkg.T.field ; the mutex is a field of the same struct
	i := len(a.key) - 1
	for a.key[i] != '.' {
		i--
	}
	if n, k := x.P.mutexField(a.key[2:i], mutex); n != nil {
		ft := n.Underlying().(*types.Struct).Field(k).Type()
		p := x.fieldAddr(st, term(a.ref), n, k)
		if x.isObj(ft) {
			return p.t
		}
		return x.load(st, p, ft).t
	}
	return x.extID("nomutex")
}

func isMutex(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.String() == "sync.Mutex" || t.String() == "sync.RWMutex"
}

// mutexField: the mutex of a struct: the field of that name, otherwise the only
// field of a mutex type.
func (P *Program) mutexField(tk, name string) (*types.Named, int) {
	for _, n := range P.named {
		if P.typeKey(n) != tk {
			continue
		}
		u, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		at, cnt := -1, 0
		for k := 0; k < u.NumFields(); k++ {
			if u.Field(k).Name() == name {
				return n, k
			}
			if isMutex(u.Field(k).Type()) {
				at, cnt = k, cnt+1
			}
		}
		if cnt == 1 {
			return n, at
		}
	}
	return nil, 0
}

func (x *Exec) held(st *State, mu *Term) *Term { return x.heldKey(st, "L:held", mu) }

// rheld: held for reading only.
func (x *Exec) rheld(st *State, mu *Term) *Term { return x.heldKey(st, "L:rheld", mu) }

func (x *Exec) heldKey(st *State, key string, mu *Term) *Term {
	x.keyRng[key] = tBool
	res := tFalse // nothing is held when a function starts
	type pend struct{ c, v *Term }
	var ps []pend
	for n := st.heap[key]; n != nil && n.ref != nil; n = n.prev {
		c := Eq(n.ref, mu)
		if c == tTrue {
			res = n.val
			break
		}
		if c != tFalse {
			ps = append(ps, pend{c, n.val})
		}
	}
	for i := len(ps) - 1; i >= 0; i-- {
		res = Ite(ps[i].c, ps[i].v, res)
	}
	return res
}

// heldLocks: mutexes this path holds, apart from the server's own.
func (x *Exec) heldLocks(st *State) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for n := st.heap["L:held"]; n != nil && n.ref != nil; n = n.prev {
		if seen[n.ref] {
			continue
		}
		seen[n.ref] = true
		if n.val != tFalse && !(n.ref.op == "uf" && strings.HasSuffix(n.ref.name, ":F:server.TCPServer.mutex")) {
			out = append(out, n.ref)
		}
	}
	return out
}

func (x *Exec) checkGuard(f *Frame, m Value, pos token.Pos) {
	if m.guard == nil || x.v == nil {
		return
	}
	x.v.locks++
	x.oblige(f.st, "lock", "shared map accessed with its mutex held", x.held(f.st, m.guard), pos)
}

// checkGuardW: a write needs more than a read lock.
func (x *Exec) checkGuardW(f *Frame, m Value, pos token.Pos) {
	x.checkGuard(f, m, pos)
	if m.guard != nil && x.v != nil && f.st.heap["L:rheld"] != nil {
		x.oblige(f.st, "lock", "shared map changed under more than a read lock", Not(x.rheld(f.st, m.guard)), pos)
	}
}

// ---- critical sections ----
//
// Another goroutine may change a store between two critical sections of one
// operation.  So within an operation of a store (a function with property C19),
// taking a store's lock again finds tables of arbitrary content; the contract is
// then about the content found by the last acquisition, and the earlier sections
// may not have changed the tables.

// storeObj: the singleton of a guarded store type "pkg.T", or nil.
func (x *Exec) storeObj(st *State, tk string) *Term {
	for _, p := range x.P.prog.AllPackages() {
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			pt, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Pointer)
			if !ok || x.P.typeKey(pt.Elem()) != tk {
				continue
			}
			if v, ok := x.globalLoad(st, g); ok && v.k == KTerm && v.t.isInt() {
				return v.t
			}
		}
	}
	return nil
}

// guardedOf: the guarded fields by store type.
func (x *Exec) guardedOf() map[string][]string {
	out := map[string][]string{}
	for f := range x.specs.guards {
		i := strings.LastIndex(f, ".")
		out[f[:i]] = append(out[f[:i]], f)
	}
	return out
}

func (x *Exec) storeOfMutex(st *State, mu *Term) string {
	if x.v == nil || !x.v.onecrit {
		return ""
	}
	for tk, fs := range x.guardedOf() {
		if o := x.storeObj(st, tk); o != nil && x.guardOf(st, &Addr{key: "F:" + fs[0], ref: o}, x.specs.guards[fs[0]]) == mu {
			return tk
		}
	}
	return ""
}

// storesOf: the stores whose tables a function touches.
func (x *Exec) storesOf(key string) []string {
	if x.v == nil || !x.v.onecrit {
		return nil
	}
	found := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	gs := x.guardedOf()
	var rec func(fn *ssa.Function)
	rec = func(fn *ssa.Function) {
		if fn == nil || seen[fn] {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					tk := x.P.typeKey(fa.X.Type().Underlying().(*types.Pointer).Elem())
					if gs[tk] != nil {
						found[tk] = true
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g.Pkg == fn.Pkg {
						rec(g)
					}
				}
			}
		}
	}
	rec(x.P.funcs[key])
	return sortedKeys(found)
}

func (x *Exec) acquire(st *State, tk string, pos token.Pos) {
	if tk == "" || x.v == nil || !x.v.onecrit {
		return
	}
	if st.acq == nil {
		st.acq = map[string]bool{}
	}
	if !st.acq[tk] {
		st.acq[tk] = true
		return
	}
	o := x.storeObj(st, tk)
	if o == nil {
		return
	}
	was := x.v.pre.clone()
	for _, r := range st.rebase {
		x.storeLoc(was, r.key, r.ref, r.val, r.mt)
	}
	for _, f := range x.guardedOf()[tk] {
		mt := x.fieldType(f)
		if _, ok := mt.Underlying().(*types.Map); !ok {
			continue
		}
		ref := x.loadLoc(st, "F:"+f, o, mt)
		key := x.mapKey(mt)
		x.oblige(st, "lock", "a store is changed in one critical section of an operation only", mapEq(x.loadMap(st, mt, ref), x.loadMap(was, mt, ref)), pos)
		nw := x.mapBase(Fresh("anymap", SInt), mt)
		x.storeLoc(st, key, ref, nw, mt)
		st.rebase = append(st.rebase, rebased{key, ref, nw, mt})
	}
}
