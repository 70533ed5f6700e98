package main

// Evaluation of specification expressions over a state and its pre-state.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"
)

// SV is a specification value: a program value (typed) or a logical term.
type SV struct {
	v    Value
	t    types.Type
	nilc bool // the literal nil
}

type SpecEnv struct {
	x    *Exec
	st   *State
	old  *State
	vars map[string]SV
	pkg  *types.Package
	evs  []*Event // events of the call under consideration
	deep int
	wd   *[]*Term // collects well-definedness conditions when not nil
	path *Term    // condition under which the current subexpression matters

	self     string // the specification function being defined
	selfNeed func(args []*Term) *Term
}

// need records that c has to hold for the expression to be meaningful.
func (e *SpecEnv) need(c *Term) {
	if e.wd == nil || c == tTrue {
		return
	}
	if e.path != nil {
		c = Implies(e.path, c)
	}
	if c != tTrue {
		*e.wd = append(*e.wd, c)
	}
}

func (e *SpecEnv) under(c *Term) *SpecEnv {
	if e.wd == nil {
		return e
	}
	n := *e
	if n.path == nil {
		n.path = c
	} else {
		n.path = And(n.path, c)
	}
	return &n
}

// defined evaluates ex together with the condition for it to be meaningful.
func (e *SpecEnv) defined(ex *Ex) (*Term, []*Term) {
	n := *e
	var wd []*Term
	n.wd = &wd
	return n.term(ex), wd
}

func (e *SpecEnv) with(vars map[string]SV) *SpecEnv {
	n := *e
	n.vars = vars
	n.deep++
	if n.deep > 60 {
		panic("spec macro recursion")
	}
	return &n
}

func (e *SpecEnv) at(st *State) *SpecEnv {
	n := *e
	n.st = st
	return &n
}

func spanic(f string, a ...any) { panic(specErr{fmt.Sprintf(f, a...)}) }

type specErr struct{ msg string }

// tm gives the logical term of a value in the environment's state.
func (e *SpecEnv) tm(v SV) *Term {
	if v.v.k == KSlice {
		st := e.st
		if st.regions[v.v.sl.reg] == nil && e.old != nil {
			st = e.old
		}
		return st.content(v.v.sl)
	}
	return e.x.toTerm(e.st, v.v)
}

func (e *SpecEnv) term(ex *Ex) *Term { return e.tm(e.eval(ex)) }

func (e *SpecEnv) boolean(ex *Ex) *Term {
	t := e.term(ex)
	if t.sort != SBool {
		spanic("boolean expected: %s", ex.src)
	}
	return t
}

func lv(t *Term) SV { return SV{v: term(t)} }

func (e *SpecEnv) isPkg(name string) *types.Package {
	if _, ok := e.vars[name]; ok {
		return nil
	}
	return e.x.P.byName[name]
}

func (e *SpecEnv) eval(ex *Ex) SV {
	x := e.x
	switch ex.op {
	case "int":
		return lv(BigInt(ex.n))
	case "str":
		return lv(StrLit(ex.name))
	case "seq":
		var us []*Term
		so := SSeqI
		for _, a := range ex.args {
			t := e.term(a)
			if t.sort == SVal {
				so = SSeqV
			}
			us = append(us, Unit(t))
		}
		return lv(Concat(so, us...))
	case "id":
		switch ex.name {
		case "true":
			return lv(tTrue)
		case "false":
			return lv(tFalse)
		case "nil":
			return SV{nilc: true, v: term(Int(0))}
		}
		if v, ok := e.vars[ex.name]; ok {
			return v
		}
		if f := x.specs.fns[ex.name]; f != nil && len(f.params) == 0 {
			return e.callFn(f, nil)
		}
		if e.pkg != nil {
			if o := e.pkg.Scope().Lookup(ex.name); o != nil {
				return e.object(o)
			}
		}
		spanic("unknown name %s", ex.name)
	case "field":
		if b := ex.args[0]; b.op == "id" {
			if p := e.isPkg(b.name); p != nil {
				o := p.Scope().Lookup(ex.name)
				if o == nil {
					spanic("unknown %s.%s", b.name, ex.name)
				}
				return e.object(o)
			}
		}
		return e.field(e.eval(ex.args[0]), ex.name)
	case "index":
		b := e.eval(ex.args[0])
		if b.t != nil {
			if mt, ok := b.t.Underlying().(*types.Map); ok {
				k := e.term(ex.args[1])
				m := e.mapContent(b)
				return e.wrapT(Ite(MapHas(m, k), MapGet(m, k), zeroOfSort(x.sortOf(mt.Elem()))), mt.Elem())
			}
		}
		s := e.tm(b)
		ix := e.term(ex.args[1])
		e.need(And(Le(Int(0), ix), Lt(ix, Len(s))))
		r := Nth(s, ix)
		var et types.Type
		if b.t != nil {
			if sl, ok := b.t.Underlying().(*types.Slice); ok {
				et = sl.Elem()
			}
		}
		return SV{v: term(r), t: et}
	case "slice":
		s := e.term(ex.args[0])
		lo := Int(0)
		if ex.args[1] != nil {
			lo = e.term(ex.args[1])
		}
		hi := Len(s)
		if ex.args[2] != nil {
			hi = e.term(ex.args[2])
		}
		e.need(And(Le(Int(0), lo), Le(lo, hi), Le(hi, Len(s))))
		return lv(Extract(s, lo, Sub(hi, lo)))
	case "un":
		switch ex.name {
		case "!":
			return lv(Not(e.boolean(ex.args[0])))
		case "-":
			return lv(Neg(e.term(ex.args[0])))
		case "*":
			p := e.eval(ex.args[0])
			pt, ok := p.t.Underlying().(*types.Pointer)
			if !ok {
				spanic("* of non-pointer %s", ex.src)
			}
			return e.loadAt(p.v, pt.Elem())
		}
	case "cond":
		c := e.boolean(ex.args[0])
		if c == tTrue {
			return e.eval(ex.args[1])
		}
		if c == tFalse {
			return e.eval(ex.args[2])
		}
		a, b := e.under(c).eval(ex.args[1]), e.under(Not(c)).eval(ex.args[2])
		ta, tb := e.coerce(a, b)
		r := lv(Ite(c, ta, tb))
		if a.t != nil {
			r.t = a.t
		} else {
			r.t = b.t
		}
		return r
	case "bin":
		return e.bin(ex)
	case "call":
		return e.call(ex)
	}
	spanic("cannot evaluate %s", ex.op)
	return SV{}
}

// coerce gives both terms, resolving nil against the other operand.
func (e *SpecEnv) coerce(a, b SV) (*Term, *Term) {
	if a.nilc && !b.nilc {
		return e.nilFor(b), e.tm(b)
	}
	if b.nilc && !a.nilc {
		return e.tm(a), e.nilFor(a)
	}
	return e.tm(a), e.tm(b)
}

func (e *SpecEnv) nilFor(v SV) *Term { return zeroOfSort(e.tm(v).sort) }

func (e *SpecEnv) eq(a, b SV) *Term {
	if a.nilc {
		a, b = b, a
	}
	if b.nilc && !a.nilc {
		if a.v.k == KSlice {
			return a.v.sl.isnil
		}
		if a.v.k == KAddr || a.v.k == KFunc {
			return tFalse
		}
		t := e.tm(a)
		if t.sort == SSeqI && a.t != nil && isSliceT(a.t) {
			return And(Eq(Len(t), Int(0)), App("nilslice", SBool, t))
		}
		return Eq(t, zeroOfSort(t.sort))
	}
	if a.v.k == KStruct && b.v.k == KStruct {
		var cs []*Term
		for i := range a.v.fs {
			cs = append(cs, e.eq(SV{v: a.v.fs[i]}, SV{v: b.v.fs[i]}))
		}
		return And(cs...)
	}
	ta, tb := e.tm(a), e.tm(b)
	if ta.sort != tb.sort {
		if ta.sort == SVal {
			if b.t != nil {
				tb = e.x.box(e.st, b.t, b.v)
			}
		} else if tb.sort == SVal && a.t != nil {
			ta = e.x.box(e.st, a.t, a.v)
		}
		if ta == emptyOf(SSeqI) && tb.sort == SSeqV {
			ta = tEmpV
		}
		if tb == emptyOf(SSeqI) && ta.sort == SSeqV {
			tb = tEmpV
		}
	}
	if ta.sort != tb.sort {
		spanic("comparison of %s and %s: %s / %s", ta.sort, tb.sort, ta, tb)
	}
	return Eq(ta, tb)
}

// orAny evaluates ex; a reference to a call that did not happen makes it an
// unconstrained boolean (as part of a goal: unprovable).
func (e *SpecEnv) orAny(ex *Ex) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(noEvent); ok {
				t = Fresh("nocall", SBool)
				return
			}
			panic(r)
		}
	}()
	return e.boolean(ex)
}

func (e *SpecEnv) bin(ex *Ex) SV {
	switch ex.name {
	case "==>":
		a := e.boolean(ex.args[0])
		if a == tFalse {
			return lv(tTrue)
		}
		return lv(Implies(a, e.under(a).orAny(ex.args[1])))
	case "&&":
		a := e.boolean(ex.args[0])
		if a == tFalse {
			return lv(tFalse)
		}
		return lv(And(a, e.under(a).boolean(ex.args[1])))
	case "||":
		a := e.boolean(ex.args[0])
		if a == tTrue {
			return lv(tTrue)
		}
		return lv(Or(a, e.under(Not(a)).boolean(ex.args[1])))
	}
	a, b := e.eval(ex.args[0]), e.eval(ex.args[1])
	switch ex.name {
	case "==":
		return lv(e.eq(a, b))
	case "!=":
		return lv(Not(e.eq(a, b)))
	}
	A, B := e.tm(a), e.tm(b)
	switch ex.name {
	case "<==>":
		return lv(Eq(A, B))
	case "++":
		so := A.sort
		if A == tEmpty {
			so = B.sort
		}
		return lv(Concat(so, A, B))
	case "+":
		if A.sort == SSeqI {
			return lv(Concat(SSeqI, A, B))
		}
		return lv(Add(A, B))
	case "-":
		return lv(Sub(A, B))
	case "*":
		return lv(Mul(A, B))
	case "/":
		return lv(Div(A, B))
	case "%":
		return lv(Mod(A, B))
	case "<<":
		k, ok := B.int64()
		if !ok {
			spanic("shift by a non-constant")
		}
		return lv(Mul(A, BigInt(pow2(uint(k)))))
	case ">>":
		k, ok := B.int64()
		if !ok {
			spanic("shift by a non-constant")
		}
		return lv(Div(A, BigInt(pow2(uint(k)))))
	case "<":
		return lv(Lt(A, B))
	case "<=":
		return lv(Le(A, B))
	case ">":
		return lv(Gt(A, B))
	case ">=":
		return lv(Ge(A, B))
	}
	spanic("operator %s", ex.name)
	return SV{}
}

// wrapT: a loaded term of Go type t.
func (e *SpecEnv) wrapT(t *Term, ty types.Type) SV {
	if isSliceT(ty) {
		return SV{v: term(t), t: ty}
	}
	return SV{v: e.x.fromTerm(e.st, ty, t), t: ty}
}

func (e *SpecEnv) loadAt(p Value, t types.Type) SV {
	x := e.x
	if p.k == KAddr && !p.addr.el {
		return e.wrapT(x.loadLoc(e.st, p.addr.key, p.addr.ref, t), t)
	}
	if p.k == KAddr {
		return SV{v: x.load(e.st, p, t), t: t}
	}
	if x.isRefStruct(t) || x.isObj(t) {
		return SV{v: p, t: types.NewPointer(t)} // a struct in place
	}
	if isSliceT(t) {
		return SV{v: term(x.loadLoc(e.st, "C:"+x.P.typeKey(t), p.t, t)), t: t}
	}
	return SV{v: x.load(e.st, p, t), t: t}
}

func (e *SpecEnv) fieldLoc(b SV, name string) (Value, types.Type, *types.Struct, bool) {
	t := b.t
	if t == nil {
		spanic("field %s of an untyped value", name)
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		spanic("field %s of %s", name, t)
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			if b.v.k == KStruct {
				return Value{}, nil, u, false
			}
			return e.x.fieldAddr(e.st, b.v, t, i), u.Field(i).Type(), u, true
		}
	}
	// promoted through embedded fields
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Embedded() {
			ft := u.Field(i).Type()
			a := e.x.fieldAddr(e.st, b.v, t, i)
			nb := SV{v: a, t: types.NewPointer(ft)}
			if _, isP := ft.Underlying().(*types.Pointer); isP {
				nb = e.loadAt(a, ft)
			}
			if hasField(nb.t, name) {
				return e.fieldLoc(nb, name)
			}
		}
	}
	spanic("no field %s in %s", name, t)
	return Value{}, nil, nil, false
}

func hasField(t types.Type, name string) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name || u.Field(i).Embedded() && hasField(u.Field(i).Type(), name) {
			return true
		}
	}
	return false
}

func (e *SpecEnv) field(b SV, name string) SV {
	if b.v.k == KStruct && b.t != nil {
		u := b.t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return SV{v: b.v.fs[i], t: u.Field(i).Type()}
			}
		}
		spanic("no field %s", name)
	}
	a, ft, _, _ := e.fieldLoc(b, name)
	return e.loadAt(a, ft)
}

func (e *SpecEnv) object(o types.Object) SV {
	x := e.x
	switch v := o.(type) {
	case *types.Const:
		switch v.Val().Kind() {
		case constant.Int:
			n, _ := new(big.Int).SetString(v.Val().ExactString(), 10)
			return SV{v: term(BigInt(n)), t: v.Type()}
		case constant.String:
			return SV{v: term(StrLit(constant.StringVal(v.Val()))), t: v.Type()}
		case constant.Bool:
			return SV{v: term(Bool(constant.BoolVal(v.Val()))), t: v.Type()}
		case constant.Float:
			return SV{v: term(fconst(v.Val().ExactString())), t: v.Type()}
		}
	case *types.Var:
		sp := x.P.prog.Package(v.Pkg())
		if sp != nil {
			if g := sp.Var(v.Name()); g != nil {
				if r, ok := x.globalLoad(e.st, g); ok {
					return SV{v: r, t: v.Type()}
				}
				a := x.globalAddr(e.st, g)
				if a.k == KAddr {
					return e.loadAt(a, v.Type())
				}
				return SV{v: a, t: types.NewPointer(v.Type())}
			}
		}
		if types.IsInterface(v.Type()) && x.P.typeKey(v.Type()) == "error" {
			return SV{v: term(VI(x.extID("tag:errors"), x.extID("err:"+v.Pkg().Path()+"."+v.Name()))), t: v.Type()}
		}
		return SV{v: term(x.extID("glob:" + v.Pkg().Path() + "." + v.Name())), t: v.Type()}
	case *types.Func:
		if fn := x.P.prog.FuncValue(v); fn != nil {
			return SV{v: x.mkClosure(fn, nil), t: v.Type()}
		}
	}
	spanic("cannot use %s in a specification", o)
	return SV{}
}

func (e *SpecEnv) mapContent(b SV) *Term {
	if b.t == nil {
		if b.v.t != nil && b.v.t.sort == SMap {
			return b.v.t
		}
		spanic("map of unknown type")
	}
	return e.x.loadMap(e.st, b.t, e.tm(b))
}

// typeByName resolves "*model.Msg0100", "model.RegisteredStatus", "string"...
func (x *Exec) typeByName(s string) types.Type {
	if strings.HasPrefix(s, "*") {
		return types.NewPointer(x.typeByName(s[1:]))
	}
	if strings.HasPrefix(s, "[]") {
		return types.NewSlice(x.typeByName(s[2:]))
	}
	for _, n := range x.P.named {
		if x.P.typeKey(n) == s {
			return n
		}
	}
	for _, b := range types.Typ {
		if b.Name() == s {
			return b
		}
	}
	if s == "byte" {
		return types.Typ[types.Uint8]
	}
	if i := strings.LastIndex(s, "."); i >= 0 {
		if p := x.P.byName[s[:i]]; p != nil {
			if o, ok := p.Scope().Lookup(s[i+1:]).(*types.TypeName); ok {
				return o.Type()
			}
		}
	}
	spanic("unknown type %s", s)
	return nil
}

func (e *SpecEnv) events(name string) []*Event {
	var out []*Event
	for _, ev := range e.evs {
		if ev.name == name || ev.name == "call:"+name {
			out = append(out, ev)
		}
		if ev.loop {
			for _, s := range ev.sub {
				if s.name == name || s.name == "call:"+name {
					out = append(out, &Event{name: "loop", loop: true})
				}
			}
		}
	}
	return out
}

func (e *SpecEnv) call(ex *Ex) SV {
	x := e.x
	a := ex.args
	str := func(i int) string {
		if a[i].op != "str" {
			spanic("%s: argument %d must be a string literal", ex.name, i)
		}
		return a[i].name
	}
	switch ex.name {
	case "old":
		if e.old == nil {
			return e.eval(a[0])
		}
		return e.at(e.old).eval(a[0])
	case "len":
		return lv(Len(e.term(a[0])))
	case "min":
		p, q := e.term(a[0]), e.term(a[1])
		return lv(Ite(Le(p, q), p, q))
	case "max":
		p, q := e.term(a[0]), e.term(a[1])
		return lv(Ite(Le(p, q), q, p))
	case "band":
		return lv(BAnd(e.term(a[0]), e.term(a[1])))
	case "bor":
		return lv(BOr(e.term(a[0]), e.term(a[1])))
	case "bxor":
		return lv(BXor(e.term(a[0]), e.term(a[1])))
	case "bit": // bit(x, k)
		k, _ := e.term(a[1]).int64()
		return lv(bitsOf(e.term(a[0]), uint(k), 1))
	case "bits": // bits(x, lo, n)
		k, _ := e.term(a[1]).int64()
		n, _ := e.term(a[2]).int64()
		return lv(bitsOf(e.term(a[0]), uint(k), uint(n)))
	case "b2i":
		return lv(Ite(e.boolean(a[0]), Int(1), Int(0)))
	case "u8", "u16", "u32":
		n := map[string]uint{"u8": 8, "u16": 16, "u32": 32}[ex.name]
		return lv(Mod(e.term(a[0]), BigInt(pow2(n))))
	case "be16":
		if len(a) == 1 {
			return lv(beBytes(e.term(a[0]), 2))
		}
		e.need(And(Le(Int(0), e.term(a[1])), Le(Add(e.term(a[1]), Int(2)), Len(e.term(a[0])))))
		return lv(be(e.term(a[0]), e.term(a[1]), 2))
	case "be32":
		if len(a) == 1 {
			return lv(beBytes(e.term(a[0]), 4))
		}
		e.need(And(Le(Int(0), e.term(a[1])), Le(Add(e.term(a[1]), Int(4)), Len(e.term(a[0])))))
		return lv(be(e.term(a[0]), e.term(a[1]), 4))
	case "sub": // sub(s, off, n)
		{
			s, o, n := e.term(a[0]), e.term(a[1]), e.term(a[2])
			e.need(And(Le(Int(0), o), Le(Int(0), n), Le(Add(o, n), Len(s))))
			return lv(Extract(s, o, n))
		}
	case "repl":
		return lv(replicate(e.term(a[0]), e.term(a[1])))
	case "nils": // n nil interfaces
		return lv(App("replv", SSeqV, tVNil, e.term(a[0])))
	case "upd":
		return lv(SeqUpdate(e.term(a[0]), e.term(a[1]), e.term(a[2])))
	case "has":
		return lv(MapHas(e.mapContent(e.eval(a[0])), e.term(a[1])))
	case "get":
		mv := e.eval(a[0])
		g := MapGet(e.mapContent(mv), e.term(a[1]))
		if mv.t != nil {
			if mt, ok := mv.t.Underlying().(*types.Map); ok && g.sort == SInt {
				return SV{v: term(g), t: mt.Elem()}
			}
		}
		return lv(g)
	case "mapof": // content of a map value
		return lv(e.mapContent(e.eval(a[0])))
	case "put":
		return lv(MapPut(e.mapContent(e.eval(a[0])), e.term(a[1]), e.term(a[2])))
	case "del":
		return lv(MapDel(e.mapContent(e.eval(a[0])), e.term(a[1])))
	case "mapeq": // equal contents
		m1, m2 := e.mapContent(e.eval(a[0])), e.mapContent(e.eval(a[1]))
		return lv(mapEq(m1, m2))
	case "isempty":
		m := e.mapContent(e.eval(a[0]))
		return lv(mapEq(m, MapEmpty(m.name)))
	case "fresh":
		// allocated during the call: distinct from everything that existed before
		return lv(x.isFresh(e.tm(e.eval(a[0]))))
	case "unshared": // the slices have different backing arrays
		p, q := e.eval(a[0]), e.eval(a[1])
		return lv(Bool(p.v.k != KSlice || q.v.k != KSlice || p.v.sl.reg != q.v.sl.reg))
	case "typeis":
		t := x.typeByName(str(1))
		return lv(x.hasType(e.term(a[0]), t))
	case "as":
		t := x.typeByName(str(1))
		v := e.eval(a[0])
		if tt := e.tm(v); tt.sort == SVal && !types.IsInterface(t) {
			st := e.st.clone()
			return SV{v: x.unbox(st, t, tt), t: t}
		}
		return SV{v: v.v, t: t}
	case "boxed": // boxed("T", v)
		t := x.typeByName(str(0))
		v := e.eval(a[1])
		return lv(x.box(e.st, t, v.v))
	case "zero": // zero("T"): the zero value of a type
		t := x.typeByName(str(0))
		return SV{v: x.zero(e.st.clone(), t), t: t}
	case "ctxget": // ctxget(ctx, "KeyType"): what ctx carries under that key
		t := x.typeByName(str(1))
		st := e.st.clone()
		return lv(x.ctxValue(e.term(a[0]), x.box(st, t, x.zero(st, t))))
	case "iserr":
		return lv(errIs(e.term(a[0]), e.term(a[1])))
	case "held":
		v := e.eval(a[0])
		return lv(x.held(e.st, e.tm(v)))
	case "pos":
		return lv(x.loadLoc(e.st, "S:pos", e.term(a[0]), types.Typ[types.Int]))
	case "rderr": // why the last read failed
		return lv(x.loadLoc(e.st, "S:rderr", e.term(a[0]), tAny))
	case "wrerr":
		return lv(x.loadLoc(e.st, "S:wrerr", App("ifaceid", SInt, e.term(a[0])), tAny))
	case "src":
		return lv(x.loadLoc(e.st, "S:src", e.term(a[0]), types.NewInterfaceType(nil, nil)))
	case "stream":
		return lv(x.stream(e.term(a[0])))
	case "out":
		return lv(x.loadLoc(e.st, "S:out", App("ifaceid", SInt, e.term(a[0])), types.Typ[types.String]))
	case "clock": // the latest time read so far, in ms
		return lv(x.loadLoc(e.st, "C:clock", Int(0), types.Typ[types.Int64]))
	case "called": // the function values called so far, in order
		return lv(x.loadLoc(e.st, "L:called", Int(0), calledType))
	case "ginparam": // a named part of the path of a request
		return SV{v: term(ginParam(e.term(a[0]), StrLit(str(1)))), t: types.Typ[types.String]}
	case "ghost": // a number that only contracts mention
		return lv(x.loadLoc(e.st, "L:g:"+str(0), Int(0), types.Typ[types.Int]))
	case "ghostv": // likewise, an interface value
		return SV{v: term(x.loadLoc(e.st, "L:g:"+str(0), Int(0), tAny)), t: tAny}
	case "ghosts": // likewise, a sequence of numbers
		return lv(x.loadLoc(e.st, "L:g:"+str(0), Int(0), calledType))
	case "panicking": // a panic is under way
		return lv(Bool(e.st.panic != nil))
	case "jobs": // running jobs of the timer: id -> period
		return SV{v: term(x.extID("ghost:jobs")), t: jobsType}
	case "oncedone":
		return lv(x.loadLoc(e.st, "O:sync.Once", e.tm(e.eval(a[0])), tBool))
	case "remoteaddr":
		if getFn("addrstr") == nil {
			declFn(&recFn{name: "addrstr", params: []Sort{SVal}, ret: SSeqI, elem: byteRng})
		}
		return lv(App("addrstr", SSeqI, VI(x.extID("tag:addr"), App("remote", SInt, e.term(a[0])))))
	case "ctxval":
		return lv(x.ctxValue(e.term(a[0]), e.term(a[1])))
	case "fconst":
		return lv(fconst(str(0)))
	case "ncalls":
		evs := e.events(str(0))
		for _, ev := range evs {
			if ev.loop {
				return lv(Fresh("ncalls", SInt))
			}
		}
		return lv(Int(int64(len(evs))))
	case "arg", "res": // arg("name", k, i): i-th argument of the k-th call
		k, _ := e.term(a[1]).int64()
		i, _ := e.term(a[2]).int64()
		evs := e.events(str(0))
		if int(k) < len(evs) && !evs[k].loop {
			l, ts := evs[k].args, evs[k].at
			if ex.name == "res" {
				l, ts = evs[k].res, evs[k].rt
			}
			if int(i) < len(l) {
				sv := SV{v: l[i]}
				if int(i) < len(ts) {
					sv.t = ts[i]
				}
				return sv
			}
		}
		// no such call: an unconstrained value of the expected sort is wanted;
		// the accompanying ncalls() conjunct decides
		panic(noEvent{str(0)})
	case "at": // at("name", k, ex): the value of ex when the k-th call was made
		k, _ := e.term(a[1]).int64()
		evs := e.events(str(0))
		if int(k) < len(evs) && !evs[k].loop && evs[k].pre != nil {
			g := *e
			g.st = evs[k].pre
			return g.eval(a[2])
		}
		panic(noEvent{str(0)})
	case "before": // before("a","b"): every a precedes every b
		ok := true
		seenB := false
		for _, ev := range e.evs {
			if ev.name == str(1) || ev.name == "call:"+str(1) {
				seenB = true
			}
			if (ev.name == str(0) || ev.name == "call:"+str(0)) && seenB {
				ok = false
			}
			if ev.loop {
				ok = ok && false
			}
		}
		return lv(Bool(ok))
	case "forall", "exists": // forall(i, lo, hi, body), constant bounds
		lo, ok1 := e.term(a[1]).int64()
		hi, ok2 := e.term(a[2]).int64()
		if !ok1 || !ok2 {
			spanic("%s needs constant bounds", ex.name)
		}
		var cs []*Term
		for k := lo; k < hi; k++ {
			vars := map[string]SV{}
			for n, v := range e.vars {
				vars[n] = v
			}
			vars[a[0].name] = lv(Int(k))
			cs = append(cs, e.with(vars).boolean(a[3]))
		}
		if ex.name == "exists" {
			return lv(Or(cs...))
		}
		return lv(And(cs...))
	case "let": // let(name, value, body)
		vars := map[string]SV{}
		for n, v := range e.vars {
			vars[n] = v
		}
		vars[a[0].name] = e.eval(a[1])
		return e.with(vars).eval(a[2])
	case "uf": // uf("name", sort, args...)
		so, el, _ := parseSort(str(1))
		var ts []*Term
		for _, b := range a[2:] {
			ts = append(ts, e.term(b))
		}
		if getFn(str(0)) == nil {
			var ps []Sort
			for _, t := range ts {
				ps = append(ps, t.sort)
			}
			d := &recFn{name: str(0), params: ps, ret: so, elem: el}
			if n, ok := strings.CutPrefix(str(0), "f2i_"); ok { // conversion to that type
				d.rng = typeRng(types.Universe.Lookup(n).Type())
			}
			declFn(d)
		}
		return lv(App(str(0), so, ts...))
	}
	if f := x.specs.fns[ex.name]; f != nil {
		return e.callFn(f, a)
	}
	spanic("unknown function %s", ex.name)
	return SV{}
}

type noEvent struct{ name string }

func (e *SpecEnv) callFn(f *SpecFn, a []*Ex) SV {
	if len(a) != len(f.params) {
		spanic("%s: %d arguments, %d expected", f.name, len(a), len(f.params))
	}
	if !f.rec {
		vars := map[string]SV{}
		for i, p := range f.params {
			vars[p] = e.eval(a[i])
		}
		ne := e.with(vars)
		return ne.eval(f.body)
	}
	var ts []*Term
	for i := range a {
		v := e.eval(a[i])
		t := e.tm(v)
		if v.nilc {
			t = zeroOfSort(f.sorts[i])
		}
		if t == tEmpty && f.sorts[i] == SSeqV {
			t = tEmpV
		}
		if t.sort != f.sorts[i] {
			spanic("%s: argument %d has sort %s", f.name, i, t.sort)
		}
		ts = append(ts, t)
	}
	if f.name == e.self {
		e.need(e.selfNeed(ts))
	}
	return lv(liftApp(f.name, f.ret, ts, 0))
}

// liftApp moves conditionals out of the arguments.
func liftApp(name string, ret Sort, ts []*Term, n int) *Term {
	if n < 6 {
		for i, t := range ts {
			if t.op == "ite" && t.sort == SSeqI {
				a, b := append([]*Term{}, ts...), append([]*Term{}, ts...)
				a[i], b[i] = t.args[1], t.args[2]
				return Ite(t.args[0], liftApp(name, ret, a, n+1), liftApp(name, ret, b, n+1))
			}
		}
	}
	return App(name, ret, ts...)
}

// declareFns registers the recursive specification functions.
func (x *Exec) declareFns() {
	x.findUnderMutex()
	for _, f := range x.specs.fns {
		if !f.rec {
			continue
		}
		f := f
		d := &recFn{name: f.name, params: f.sorts, ret: f.ret, rng: f.rrng, elem: f.elem, assumed: f.assume}
		env := func(args []*Term) *SpecEnv {
			vars := map[string]SV{}
			for i, p := range f.params {
				vars[p] = lv(args[i])
			}
			st := &State{heap: map[string]*Store{}, regions: map[int]*Region{}, base: "0", x: x}
			return &SpecEnv{x: x, st: st, vars: vars}
		}
		if f.body != nil {
			d.unfold = func(args []*Term) *Term { return env(args).term(f.body) }
			// applied to sequences whose elements are all known: evaluate
			si := -1
			for i, so := range f.sorts {
				if so == SSeqI && si < 0 {
					si = i
				}
			}
			if si >= 0 {
				d.simp = func(args []*Term) *Term {
					a := args[si]
					if a == tEmpty || a.op != "empty" && len(units(a)) > 0 && len(units(a)) <= 40 {
						return d.unfold(args)
					}
					return nil
				}
			}
		}
		if f.clen != nil {
			d.constLen = func(args []*Term) *Term { return env(args).term(f.clen) }
		}
		if len(f.facts) > 0 || f.clen != nil {
			d.facts = func(args []*Term) []*Term {
				var out []*Term
				t := mk("uf", f.ret, d.name, nil, args...)
				if f.clen != nil {
					out = append(out, Eq(mk("len", SInt, "", nil, t), env(args).term(f.clen)))
				}
				for _, fx := range f.facts {
					en := env(args)
					en.vars["result"] = lv(t)
					out = append(out, en.boolean(fx))
				}
				return out
			}
		}
		declFn(d)
	}
}

// mapEq: extensional equality, by a fresh key (valid as a goal; as an
// assumption it only says something about that key).
func mapEq(a, b *Term) *Term {
	ks, _ := sigSorts(a.name)
	k := Fresh("anykey", ks)
	if ks == SSeqI {
		setElem(k, byteRng)
	}
	return And(Eq(MapHas(a, k), MapHas(b, k)), Implies(MapHas(b, k), Eq(MapGet(a, k), MapGet(b, k))))
}

// isFresh: the reference was allocated after function entry.
func (x *Exec) isFresh(t *Term) *Term {
	if t.isInt() {
		n := t.n.Int64()
		return Bool(n >= allocBase && n < closBase)
	}
	if t.op == "ite" {
		return Ite(t.args[0], x.isFresh(t.args[1]), x.isFresh(t.args[2]))
	}
	return Le(Int(allocBase), t)
}
