package main

// Loops: unrolled when every header condition is decided by the path, otherwise
// cut at the header with an inferred inductive invariant (Houdini over the
// template instances of the contract files).

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Cut struct {
	l        *Loop
	discover bool
	backs    []*backState
}

type backState struct {
	st   *State
	phis []Value
}

var loopDebug = os.Getenv("GOVC_LOOP") != ""

// counted: the header compares an integer phi.
func counted(l *Loop) bool {
	h := l.header
	if _, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); !ok {
		return false
	}
	isPhi := func(v ssa.Value) bool {
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
			v = b.X
		}
		p, ok := v.(*ssa.Phi)
		return ok && p.Block() == h
	}
	for _, in := range h.Instrs {
		if b, ok := in.(*ssa.BinOp); ok {
			switch b.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
				if isPhi(b.X) || isPhi(b.Y) {
					return true
				}
			}
		}
	}
	return false
}

func (x *Exec) enterLoop(f *Frame, l *Loop, prev *ssa.BasicBlock, outs *[]Outcome) {
	if x.tryUnroll(f, l, prev, outs) {
		return
	}
	x.cutLoop(f, l, prev, outs)
}

func (x *Exec) tryUnroll(f *Frame, l *Loop, prev *ssa.BasicBlock, outs *[]Outcome) (ok bool) {
	n := len(*outs)
	var nobs, nloops int
	q := 0
	if x.v != nil {
		nobs, q, nloops = len(x.v.obs), x.v.quiet, len(x.v.loops)
	}
	defer func() {
		if r := recover(); r != nil {
			if e, is := r.(needInvariant); is && e.l == l {
				*outs = (*outs)[:n]
				if x.v != nil {
					x.v.obs = x.v.obs[:nobs]
					x.v.quiet = q
					x.v.loops = x.v.loops[:nloops]
				}
				ok = false
				return
			}
			panic(r)
		}
	}()
	g := f.clone()
	g.unroll[l.header] = 0
	x.phis(g, l.header, prev)
	x.instrs(g, l.header, x.firstNonPhi(l.header), outs)
	return true
}

// writeSet: what one iteration may change.
type writeSet struct {
	phi   map[int]bool
	cells map[string]map[*Term]bool
	keys  map[string]bool
	regs  map[int]bool
	all   bool
}

func (w *writeSet) size() int {
	n := len(w.phi) + len(w.keys) + len(w.regs)
	for _, c := range w.cells {
		n += len(c)
	}
	if w.all {
		n += 1000
	}
	return n
}

// lvar is a loop variable: a phi, a heap cell or a region.
type lvar struct {
	name        string
	typ         types.Type
	hdr         *Term
	entry       *Term
	back        func(b *backState) *Term
	isPos       bool
	ref         *Term
	nonTemplate bool
}

func (x *Exec) loopPhis(l *Loop) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
	}
	return ps
}

func sameVal(a, b Value) bool {
	if a.k != b.k {
		return false
	}
	switch a.k {
	case KTerm:
		return a.t == b.t
	case KSlice:
		return *a.sl == *b.sl
	case KFunc:
		return a.fn == b.fn
	case KAddr:
		return *a.addr == *b.addr
	case KStruct:
		if len(a.fs) != len(b.fs) {
			return false
		}
		for i := range a.fs {
			if !sameVal(a.fs[i], b.fs[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func (x *Exec) phiEntry(f *Frame, l *Loop, prev *ssa.BasicBlock) []Value {
	pi := -1
	for i, p := range l.header.Preds {
		if p == prev {
			pi = i
		}
	}
	var out []Value
	for _, ph := range x.loopPhis(l) {
		out = append(out, x.val(f, ph.Edges[pi]))
	}
	return out
}

// backEdge records the state at the end of an iteration.
func (x *Exec) backEdge(f *Frame, c *Cut, prev *ssa.BasicBlock) {
	if !c.discover {
		return // the invariant was shown inductive by the discovery run
	}
	c.backs = append(c.backs, &backState{st: f.st, phis: x.phiEntry(f, c.l, prev)})
}

// havocHeader: the state at the header of an arbitrary iteration.
func (x *Exec) havocHeader(f *Frame, l *Loop, entry []Value, w *writeSet) *Frame {
	g := f.clone()
	st := g.st
	for i, ph := range x.loopPhis(l) {
		if !w.phi[i] {
			g.env[ph] = entry[i]
			continue
		}
		e := entry[i]
		switch e.k {
		case KTerm:
			g.env[ph] = x.fromTerm(st, ph.Type(), x.freshTerm(ph.Type(), "loop_"+phName(ph)))
		case KSlice:
			s := x.freshTerm(ph.Type(), "loop_"+phName(ph))
			er := st.regions[e.sl.reg]
			v := x.sliceOf(st, s, er.fresh && len(er.homes) == 0)
			v.sl.isnil = And(Eq(Len(s), Int(0)), Fresh("loopnil", SBool))
			g.env[ph] = v
		default:
			unsup("loop-carried %s", ph.Type())
		}
	}
	if w.all {
		x.havocAll(st)
	}
	for _, k := range sortedKeys(w.keys) {
		x.havocKey(st, k)
	}
	for _, k := range sortedKeys(w.cells) {
		for _, r := range sortedTerms(w.cells[k]) {
			t := x.keyRng[k]
			if isMapKey(k) {
				x.storeLoc(st, k, r, x.mapBase(Fresh("loopmap", SInt), t), t)
			} else {
				x.storeLoc(st, k, r, x.freshTerm(t, "loop_cell"), t)
			}
		}
	}
	var rs []int
	for r := range w.regs {
		rs = append(rs, r)
	}
	sort.Ints(rs)
	for _, r := range rs {
		reg := *st.regions[r]
		n := Fresh("loop_reg", reg.content.sort)
		if n.sort == SSeqI {
			setElem(n, elemRangeOf(reg.content))
		}
		st.assume(Eq(Len(n), Len(reg.content)))
		reg.content = n
		st.regions[r] = &reg
	}
	return g
}

func phName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (x *Exec) cutLoop(f *Frame, l *Loop, prev *ssa.BasicBlock, outs *[]Outcome) {
	entry := x.phiEntry(f, l, prev)
	w := &writeSet{phi: map[int]bool{}, cells: map[string]map[*Term]bool{}, keys: map[string]bool{}, regs: map[int]bool{}}
	ps := x.loopPhis(l)
	var hdr *Frame
	var cut *Cut
	for iter := 0; ; iter++ {
		if iter > 8 {
			unsup("loop write set does not stabilise in %s", f.fn)
		}
		mark := x.nalloc
		maxTerm := termCount
		hdr = x.havocHeader(f, l, entry, w)
		cut = &Cut{l: l, discover: true}
		g := hdr.clone()
		g.cut[l.header] = cut
		var dump []Outcome
		if x.v != nil {
			x.v.quiet++
		}
		x.instrs(g, l.header, x.firstNonPhi(l.header), &dump)
		if x.v != nil {
			x.v.quiet--
		}
		before := w.size()
		for _, b := range cut.backs {
			for i := range ps {
				if !w.phi[i] && !sameVal(b.phis[i], entry[i]) {
					w.phi[i] = true
				}
			}
			if b.st.base != hdr.st.base {
				w.all = true
			}
			for k, ch := range b.st.heap {
				if ch == hdr.st.heap[k] || w.keys[k] {
					continue
				}
				if b.st.base != hdr.st.base && !strings.HasPrefix(k, "L:") {
					continue
				}
				for n := ch; n != nil && n != hdr.st.heap[k]; n = n.prev {
					if n.ref == nil {
						w.keys[k] = true
						break
					}
					if n.ref.isInt() {
						if r := n.ref.n.Int64(); r > allocBase+1024*mark && r < closBase {
							continue // an object of this iteration
						}
					} else if n.ref.id > maxTerm {
						w.keys[k] = true // depends on the iteration
						break
					}
					if w.cells[k] == nil {
						w.cells[k] = map[*Term]bool{}
					}
					w.cells[k][n.ref] = true
				}
			}
			for id, r := range hdr.st.regions {
				if n := b.st.regions[id]; n != nil && n.content != r.content {
					w.regs[id] = true
				}
			}
		}
		// phis whose havocked region was rewritten are covered by the phi itself
		for i, ph := range ps {
			if w.phi[i] {
				if hv := hdr.env[ph]; hv.k == KSlice {
					delete(w.regs, hv.sl.reg)
				}
			}
		}
		for id := range w.regs {
			if f.st.regions[id] == nil {
				delete(w.regs, id)
			}
		}
		if w.size() == before {
			break
		}
	}
	vars := x.loopVars(f, hdr, l, ps, entry, w)
	cands := x.candidates(f, hdr, l, vars)
	kept := x.houdini(f, hdr, cut, cands)
	where := x.P.prog.Fset.Position(l.header.Instrs[0].Pos())
	if !where.IsValid() {
		for b := range l.blocks {
			for _, in := range b.Instrs {
				if p := in.Pos(); p.IsValid() && (!where.IsValid() || x.P.prog.Fset.Position(p).Line < where.Line) {
					where = x.P.prog.Fset.Position(p)
				}
			}
		}
	}
	if x.v != nil && x.v.quiet == 0 {
		x.v.loops = append(x.v.loops, fmt.Sprintf("%s loop %d (%d invariants)", x.P.key(f.fn), l.ord, len(kept)))
		for _, c := range kept {
			x.v.obs = append(x.v.obs, &Ob{Fn: x.v.key, Kind: "invariant", Name: "loop of " + x.P.key(f.fn) + ": " + c.text, Status: "proved", By: c.by, Secs: c.secs})
		}
		if con := x.specs.contracts[x.v.key]; con != nil && con.terminates {
			x.ranking(hdr, cut, vars, kept, f)
		}
	}
	// continue from the header of an arbitrary iteration
	g := hdr.clone()
	for _, c := range kept {
		g.st.assume(c.hdr)
	}
	x.substInv(g, ps, w, kept)
	nEv := len(f.st.events)
	var sub []*Event
	for _, b := range cut.backs {
		if len(b.st.events) > nEv {
			sub = append(sub, b.st.events[nEv:]...)
		}
	}
	if len(sub) > 0 {
		g.st.events = append(g.st.events, &Event{name: "loop", loop: true, sub: sub})
	}
	g.cut[l.header] = &Cut{l: l}
	x.instrs(g, l.header, x.firstNonPhi(l.header), outs)
}

// substInv replaces a loop variable by the value an invariant gives it (the
// equation itself stays assumed).
func (x *Exec) substInv(g *Frame, ps []*ssa.Phi, w *writeSet, kept []*cand) {
	isVar := map[*Term]bool{}
	for i, ph := range ps {
		if v := g.env[ph]; w.phi[i] && v.k == KSlice {
			isVar[g.st.regions[v.sl.reg].content] = true
		}
	}
	for i, ph := range ps {
		v := g.env[ph]
		if !w.phi[i] || v.k != KSlice {
			continue
		}
		c := g.st.regions[v.sl.reg].content
		if !isVar[c] || g.st.content(v.sl) != c {
			continue
		}
		for _, k := range kept {
			var val *Term
			for _, e := range conjuncts(k.hdr) {
				if e.op != "=" {
					continue
				}
				for n := 0; n < 2; n++ {
					if o := e.args[1-n]; e.args[n] == c && !hasAny(o, isVar) {
						val = o
					}
				}
			}
			if val != nil {
				r := *g.st.regions[v.sl.reg]
				r.content = val
				g.st.regions[v.sl.reg] = &r
				break
			}
		}
	}
}

func hasAny(t *Term, set map[*Term]bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if set[t] {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func conjuncts(t *Term) []*Term {
	if t.op == "and" {
		var out []*Term
		for _, a := range t.args {
			out = append(out, conjuncts(a)...)
		}
		return out
	}
	return []*Term{t}
}

func (x *Exec) loopVars(f, hdr *Frame, l *Loop, ps []*ssa.Phi, entry []Value, w *writeSet) []*lvar {
	var vars []*lvar
	for i, ph := range ps {
		if !w.phi[i] {
			continue
		}
		i := i
		v := &lvar{name: phName(ph), typ: ph.Type()}
		v.hdr = x.toTerm(hdr.st, hdr.env[ph])
		v.entry = x.toTerm(f.st, entry[i])
		v.back = func(b *backState) *Term { return x.toTerm(b.st, b.phis[i]) }
		vars = append(vars, v)
	}
	for _, k := range sortedKeys(w.cells) {
		if isMapKey(k) || w.keys[k] || w.all && !strings.HasPrefix(k, "L:") {
			continue
		}
		t := x.keyRng[k]
		for _, r := range sortedTerms(w.cells[k]) {
			k, r := k, r
			v := &lvar{name: k, typ: t, ref: r, isPos: k == "S:pos"}
			v.hdr = x.loadLoc(hdr.st, k, r, t)
			v.entry = x.loadLoc(f.st, k, r, t)
			v.back = func(b *backState) *Term { return x.loadLoc(b.st, k, r, t) }
			vars = append(vars, v)
		}
	}
	var rs []int
	for r := range w.regs {
		rs = append(rs, r)
	}
	sort.Ints(rs)
	for _, r := range rs {
		r := r
		v := &lvar{name: fmt.Sprintf("array#%d", r), hdr: hdr.st.regions[r].content, entry: f.st.regions[r].content}
		v.back = func(b *backState) *Term { return b.st.regions[r].content }
		vars = append(vars, v)
	}
	return vars
}

type cand struct {
	text   string
	hdr    *Term
	entry  *Term
	back   []*Term
	by     string
	secs   float64
	dead   bool
	unk    bool
	backFn func(sel func(v *lvar, which int) *Term, which int) *Term
}

func (x *Exec) candidates(f, hdr *Frame, l *Loop, vars []*lvar) []*cand {
	var out []*cand
	seen := map[*Term]bool{}
	add := func(text string, mkT func(sel func(v *lvar, which int) *Term, which int) *Term) {
		c := &cand{text: text}
		selH := func(v *lvar, which int) *Term { return v.hdr }
		selE := func(v *lvar, which int) *Term { return v.entry }
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(specErr); ok {
					return
				}
				panic(r)
			}
		}()
		c.hdr = mkT(selH, -2)
		if c.hdr == tTrue || seen[c.hdr] {
			return
		}
		seen[c.hdr] = true
		c.entry = mkT(selE, -1)
		if c.entry == tFalse {
			return
		}
		c.back = nil
		mk := mkT
		cc := c
		cc.mkBack(mk)
		out = append(out, cc)
	}
	// sequences in scope that the loop does not change
	var seqs []*Term
	seqSeen := map[*Term]bool{}
	addSeq := func(t *Term) {
		if t != nil && t.sort == SSeqI && t.op != "empty" && units(t) == nil && !seqSeen[t] && len(seqs) < 8 {
			seqSeen[t] = true
			seqs = append(seqs, t)
		}
	}
	var names []ssa.Value
	for v := range f.env {
		names = append(names, v)
	}
	sort.Slice(names, func(i, j int) bool { return names[i].Name() < names[j].Name() })
	var ints []*Term
	intSeen := map[*Term]bool{}
	addInt := func(t *Term) {
		if t != nil && t.sort == SInt && !intSeen[t] && len(ints) < 10 {
			intSeen[t] = true
			ints = append(ints, t)
		}
	}
	for _, n := range names {
		v := f.env[n]
		switch v.k {
		case KSlice:
			if hdr.st.regions[v.sl.reg] != nil && hdr.st.regions[v.sl.reg].content == f.st.regions[v.sl.reg].content {
				addSeq(f.st.content(v.sl))
			}
		case KTerm:
			if v.t != nil && v.t.sort == SSeqI {
				addSeq(v.t)
			}
		}
	}
	for _, v := range vars {
		if v.isPos {
			addSeq(x.stream(v.ref))
		}
	}
	// bounds the loop compares against
	for b := range l.blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
				for _, o := range []ssa.Value{bo.X, bo.Y} {
					if c, ok := o.(*ssa.Const); ok && c.Value != nil {
						if bits, _ := intInfo(c.Type()); bits > 0 {
							addInt(x.constVal(f.st, c).t)
						}
					} else if cv, ok := o.(*ssa.Convert); ok && f.env[cv.X].k == KTerm && f.env[cv.X].t != nil && f.env[cv.X].t.sort == SInt {
						fb, _ := intInfo(cv.X.Type())
						if tb, _ := intInfo(cv.Type()); fb > 0 && tb > 0 {
							addInt(wrap(f.env[cv.X].t, cv.Type()))
						}
					} else if v, ok := f.env[o]; ok && v.k == KTerm && v.t.sort == SInt {
						if bits, _ := intInfo(o.Type()); bits > 0 {
							addInt(v.t)
						}
					}
				}
			}
		}
	}
	sort.Slice(ints, func(i, j int) bool { return ints[i].id < ints[j].id })
	type V = *lvar
	for _, v := range vars {
		v := v
		add(v.name+" unchanged", func(sel func(V, int) *Term, w int) *Term { return Eq(sel(v, w), v.entry) })
		if v.hdr.sort == SInt && v.typ != nil {
			if bits, _ := intInfo(v.typ); bits == 0 {
				continue
			}
			add(v.name+" >= initial", func(sel func(V, int) *Term, w int) *Term { return Le(v.entry, sel(v, w)) })
			add(v.name+" <= initial", func(sel func(V, int) *Term, w int) *Term { return Le(sel(v, w), v.entry) })
			bs := append([]*Term{}, ints...)
			for _, s := range seqs {
				bs = append(bs, Len(s))
			}
			for _, n := range bs {
				n := n
				for k := int64(-1); k <= 1; k++ {
					k := k
					add(fmt.Sprintf("%s%+d <= %s", v.name, k, short(n)), func(sel func(V, int) *Term, w int) *Term { return Le(Add(sel(v, w), Int(k)), n) })
				}
				add(fmt.Sprintf("%s <= max(initial, %s)", v.name, short(n)), func(sel func(V, int) *Term, w int) *Term {
					return Le(sel(v, w), Ite(Le(v.entry, n), n, v.entry))
				})
				add(fmt.Sprintf("%s >= %s", v.name, short(n)), func(sel func(V, int) *Term, w int) *Term { return Le(n, sel(v, w)) })
			}
		}
	}
	// templates
	for _, tp := range x.specs.templates {
		if !x.templateRelevant(tp) {
			continue
		}
		holes := templateHoles(tp)
		type opt struct {
			v    *lvar
			k    int64
			t    *Term
			text string
		}
		opts := make([][]opt, len(holes))
		for i, h := range holes {
			switch h[1] {
			case 'd': // sequence changed by the loop
				for _, v := range vars {
					if v.hdr.sort == SSeqI {
						opts[i] = append(opts[i], opt{v: v, text: v.name})
					}
				}
			case 's': // any sequence
				for _, s := range seqs {
					opts[i] = append(opts[i], opt{t: s, text: short(s)})
				}
				for _, v := range vars {
					if v.hdr.sort == SSeqI {
						opts[i] = append(opts[i], opt{v: v, text: v.name})
					}
				}
			case 'i': // index changed by the loop, possibly off by one
				for _, v := range vars {
					if v.hdr.sort == SInt {
						opts[i] = append(opts[i], opt{v: v, text: v.name}, opt{v: v, k: 1, text: v.name + "+1"})
					}
				}
			case 'x': // integer changed by the loop
				for _, v := range vars {
					if v.hdr.sort == SInt {
						opts[i] = append(opts[i], opt{v: v, text: v.name})
					}
				}
			case 'n': // integer bound
				for _, n := range ints {
					opts[i] = append(opts[i], opt{t: n, text: short(n)})
				}
			case 'v': // interface value changed by the loop
				for _, v := range vars {
					if v.hdr.sort == SVal {
						opts[i] = append(opts[i], opt{v: v, text: v.name})
					}
				}
			case 'b':
				for _, v := range vars {
					if v.hdr.sort == SBool {
						opts[i] = append(opts[i], opt{v: v, text: v.name})
					}
				}
			}
		}
		pick := make([]opt, len(holes))
		var rec func(i int)
		rec = func(i int) {
			if len(out) > 400 {
				return
			}
			if i < len(holes) {
				for _, o := range opts[i] {
					pick[i] = o
					rec(i + 1)
				}
				return
			}
			for i := range pick {
				for j := range pick {
					if i < j && pick[i].v != nil && pick[i].v == pick[j].v {
						return
					}
				}
			}
			ch := append([]opt{}, pick...)
			text := tp.src + " ["
			for i, h := range holes {
				text += h + "=" + ch[i].text + " "
			}
			text = strings.TrimSpace(text) + "] conserved"
			wd := tTrue
			ev := func(sel func(V, int) *Term, w int) *Term {
				env := &SpecEnv{x: x, st: hdr.st, vars: map[string]SV{}}
				for i, h := range holes {
					t := ch[i].t
					if ch[i].v != nil {
						t = sel(ch[i].v, w)
						if ch[i].k != 0 {
							t = Add(t, Int(ch[i].k))
						}
					}
					env.vars[h] = lv(t)
				}
				t, d := env.defined(tp)
				wd = And(d...)
				return t
			}
			add(text, func(sel func(V, int) *Term, w int) *Term {
				now := ev(sel, w)
				wd1 := wd
				if now.sort == SBool {
					return And(wd1, now)
				}
				at0 := ev(func(v V, _ int) *Term { return v.entry }, -1)
				return And(wd, wd1, Eq(now, at0))
			})
		}
		rec(0)
	}
	return out
}

func short(t *Term) string { return trunc(t.String(), 60) }

// mkBack defers the valuation at back edges.
func (c *cand) mkBack(mk func(sel func(v *lvar, which int) *Term, which int) *Term) {
	c.backFn = mk
}

func templateHoles(tp *Ex) []string {
	seen := map[string]bool{}
	var out []string
	var rec func(e *Ex)
	rec = func(e *Ex) {
		if e == nil {
			return
		}
		if e.op == "id" && strings.HasPrefix(e.name, "$") && !seen[e.name] {
			seen[e.name] = true
			out = append(out, e.name)
		}
		for _, a := range e.args {
			rec(a)
		}
	}
	rec(tp)
	return out
}

func (x *Exec) templateRelevant(tp *Ex) bool {
	ok := true
	var rec func(e *Ex)
	rec = func(e *Ex) {
		if e == nil {
			return
		}
		if e.op == "call" {
			if f := x.specs.fns[e.name]; f != nil && e.name != "cut" && (x.v == nil || !x.v.recs[e.name]) {
				ok = false
			}
		}
		for _, a := range e.args {
			rec(a)
		}
	}
	rec(tp)
	return ok
}

// houdini keeps the largest inductive subset of the candidates.
func (x *Exec) houdini(f, hdr *Frame, cut *Cut, cands []*cand) []*cand {
	var live []*cand
	var ewg sync.WaitGroup
	for _, c := range cands {
		c := c
		if c.entry == tTrue {
			continue
		}
		triv := false
		for _, a := range f.st.pc {
			triv = triv || a == c.entry || a == tFalse
		}
		if triv {
			continue
		}
		q := buildQuery(f.st.pc, c.entry, 1)
		c.dead = true
		ewg.Add(1)
		go func() {
			defer ewg.Done()
			solveSem <- struct{}{}
			defer func() { <-solveSem }()
			c.dead = checkQuick(q, 2*time.Second).r != Unsat
		}()
	}
	ewg.Wait()
	for _, c := range cands {
		if !c.dead {
			live = append(live, c)
		} else if loopDebug {
			fmt.Println("  not at entry", c.text)
		}
	}
	for _, c := range live {
		for _, b := range cut.backs {
			b := b
			c.back = append(c.back, c.backFn(func(v *lvar, _ int) *Term { return v.back(b) }, 0))
		}
	}
	type job struct {
		c *cand
		q []string
	}
	solve := func(live []*cand, to time.Duration) ([]*cand, int) {
		unknown := 0
		for {
			var hs []*Term
			for _, c := range live {
				hs = append(hs, c.hdr)
			}
			var jobs []job
			for _, c := range live {
				j := job{c: c}
				for k, b := range cut.backs {
					as := append(append([]*Term{}, b.st.pc...), hs...)
					g := c.back[k]
					triv := g == tTrue
					for _, a := range as {
						if a == g || a == tFalse {
							triv = true
						}
					}
					if triv {
						continue
					}
					j.q = append(j.q, buildQuery(as, g, 1))
				}
				jobs = append(jobs, j)
			}
			var wg sync.WaitGroup
			var mu sync.Mutex
			for i := range jobs {
				j := &jobs[i]
				j.c.dead = false
				wg.Add(1)
				go func() {
					defer wg.Done()
					solveSem <- struct{}{}
					defer func() { <-solveSem }()
					j.c.by = "simplifier"
					t0 := time.Now()
					for _, q := range j.q {
						r := checkQuick(q, to)
						if r.r != Unsat {
							j.c.dead = true
							if loopDebug && os.Getenv("GOVC_LOOPQ") != "" && strings.Contains(j.c.text, os.Getenv("GOVC_LOOPQ")) {
								os.WriteFile("/tmp/loopq.smt2", []byte(q), 0o644)
								fmt.Println("  ", r.r, j.c.text)
							}
							if r.r == Unknown {
								mu.Lock()
								if !j.c.unk {
									j.c.unk = true
									unknown++
								}
								mu.Unlock()
							}
							break
						}
						j.c.by = r.by
					}
					j.c.secs = time.Since(t0).Seconds()
				}()
			}
			wg.Wait()
			var nl []*cand
			for _, c := range live {
				if !c.dead {
					nl = append(nl, c)
				} else if loopDebug {
					fmt.Println("  drop", c.text)
				}
			}
			if len(nl) == len(live) {
				return nl, unknown
			}
			live = nl
		}
	}
	all := live
	live, unk := solve(all, 800*time.Millisecond)
	if unk > 0 {
		// give those the solver did not decide a second, longer try
		keep := map[*cand]bool{}
		for _, c := range live {
			keep[c] = true
		}
		var again []*cand
		for _, c := range all {
			if keep[c] || c.unk {
				again = append(again, c)
			}
		}
		live, _ = solve(again, 5*time.Second)
	}
	if loopDebug {
		fmt.Printf("loop of %s: %d candidates, %d kept, %d back edges\n", f.fn, len(cands), len(live), len(cut.backs))
		for _, c := range live {
			fmt.Println("  keep", c.text)
		}
	}
	return live
}

// ranking: some integer decreases and stays non-negative on every iteration.
func (x *Exec) ranking(hdr *Frame, cut *Cut, vars []*lvar, inv []*cand, f *Frame) {
	type ms struct {
		text string
		at   func(sel func(*lvar) *Term) *Term
	}
	var list []ms
	var bounds []*Term
	for _, c := range inv {
		// v <= n candidates give upper bounds
		if c.hdr.op == "<=" {
			bounds = append(bounds, c.hdr.args[1])
		}
	}
	for _, v := range vars {
		v := v
		switch v.hdr.sort {
		case SSeqI:
			list = append(list, ms{"len " + v.name, func(sel func(*lvar) *Term) *Term { return Len(sel(v)) }})
		case SInt:
			list = append(list, ms{v.name, func(sel func(*lvar) *Term) *Term { return sel(v) }})
			for _, b := range bounds {
				b := b
				list = append(list, ms{short(b) + " - " + v.name, func(sel func(*lvar) *Term) *Term { return Sub(b, sel(v)) }})
			}
		}
	}
	var hs []*Term
	for _, c := range inv {
		hs = append(hs, c.hdr)
	}
	for _, m := range list {
		ok := true
		h := m.at(func(v *lvar) *Term { return v.hdr })
		for _, b := range cut.backs {
			as := append(append([]*Term{}, b.st.pc...), hs...)
			g := And(Le(Int(0), h), Lt(m.at(func(v *lvar) *Term { return v.back(b) }), h))
			if checkQuick(buildQuery(as, g, 1), 2*time.Second).r != Unsat {
				ok = false
				break
			}
		}
		if ok {
			x.v.obs = append(x.v.obs, &Ob{Fn: x.v.key, Kind: "terminates", Name: "loop of " + x.P.key(f.fn) + " terminates", Status: "proved", By: "z3-5.3.2", Out: m.text})
			return
		}
	}
	x.fail(x.v, "terminates", "loop of "+x.P.key(f.fn)+" terminates", "no ranking expression decreases on every iteration")
}
