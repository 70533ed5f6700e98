package main

// Models of functions outside the repository.  Each is an assumption and is
// listed in the evidence.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome

var models = map[string]modelFn{}

// pureExt: deterministic functions of their arguments, kept uninterpreted.
var purePrefix = []string{"strings.", "strconv.", "bytes.", "unicode", "math.", "(time.Time).", "(time.Duration).", "(*time.Time).", "time.Parse", "time.Date", "time.Unix",
	"fmt.Sprint", "encoding/hex.", "encoding/binary.", "path", "hash/fnv.", "golang.org/x/text/", "(*golang.org/x/text/", "(golang.org/x/text/",
	"(*github.com/cn/GB2260.go.", "github.com/cn/GB2260.go.", "golang.org/x/exp/maps.", "maps.", "slices.", "io.ReadAll", "error.Error",
	"net.Conn.RemoteAddr", "net.Conn.LocalAddr", "net.Addr.String", "net.Addr.Network", "(*github.com/gin-gonic/gin.Context).Query", "errors.Cause", "github.com/pkg/errors.Cause", "(*github.com/rs/zerolog.Logger).GetLevel0"}

// quiet: logging and similar, no effect on the properties.
var quietPrefix = []string{"github.com/rs/zerolog", "(*github.com/rs/zerolog", "(github.com/rs/zerolog", "runtime/debug.", "fmt.Print", "fmt.Fprint", "encoding/json.Marshal", "log."}

func hasPrefixAny(s string, ps []string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

func (x *Exec) external(f *Frame, name string, sig *types.Signature, args []Value, isDefer bool, pos token.Pos) []Outcome {
	st := f.st
	if m := models[name]; m != nil {
		x.modeled[name] = true
		return m(x, f, st, sig, args, pos)
	}
	// maps handed to external code are accesses
	for _, a := range args {
		if a.guard != nil {
			x.checkGuard(f, a, pos)
		}
	}
	if hasPrefixAny(name, quietPrefix) {
		x.modeled["logging/formatting (no effect): "+strings.SplitN(strings.TrimLeft(name, "(*"), ".", 3)[0]] = true
		return one(st, x.freshResults(st, sig, "log", true)...)
	}
	if hasPrefixAny(name, purePrefix) {
		x.modeled[name+" (deterministic, uninterpreted)"] = true
		return one(st, x.pureApp(st, name, sig, args)...)
	}
	// unspecified: arbitrary results, slices passed in are overwritten
	x.assumed[name] = true
	for _, a := range args {
		x.clobber(st, a)
	}
	res := x.freshResults(st, sig, "ext", false)
	st.events = append(st.events, &Event{name: name, args: args, res: res})
	return one(st, res...)
}

// now: the time, not before any time read earlier.
func (x *Exec) now(st *State) *Term {
	n := Fresh("now", SInt)
	ms := App("tnano", SInt, n)
	c := x.loadLoc(st, "C:clock", Int(0), types.Typ[types.Int64])
	st.assume(Le(c, ms))
	x.storeLoc(st, "C:clock", Int(0), ms, types.Typ[types.Int64])
	return n
}

func (x *Exec) clobber(st *State, a Value) {
	switch a.k {
	case KSlice:
		r := *st.regions[a.sl.reg]
		n := Fresh("clob", r.content.sort)
		if n.sort == SSeqI {
			setElem(n, elemRangeOf(r.content))
		}
		st.assume(Eq(Len(n), Len(r.content)))
		r.content = n
		st.regions[a.sl.reg] = &r
	case KAddr:
		if !a.addr.el {
			x.store(st, a, a.addr.typ, x.fresh(st, a.addr.typ, "clob"))
		}
	}
}

func (x *Exec) freshResults(st *State, sig *types.Signature, hint string, nonnil bool) []Value {
	var res []Value
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := x.safeFresh(st, t, hint)
		if nonnil {
			if _, ok := t.Underlying().(*types.Pointer); ok {
				st.assume(Ne(v.t, Int(0)))
			}
		}
		res = append(res, v)
	}
	return res
}

func (x *Exec) safeFresh(st *State, t types.Type, hint string) (v Value) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				v = term(Fresh(hint, SInt))
				return
			}
			panic(r)
		}
	}()
	return x.fresh(st, t, hint)
}

// pureApp: results are uninterpreted functions of the argument contents.
func (x *Exec) pureApp(st *State, name string, sig *types.Signature, args []Value) []Value {
	var ts []*Term
	for i, a := range args {
		if a.k == KStruct {
			unsup("aggregate argument of %s", name)
		}
		t := x.toTerm(st, a)
		// maps are functions of their content
		if a.k == KTerm && t.sort == SInt && i < sig.Params().Len()+1 {
			if mt := argType(sig, i, len(args)); mt != nil {
				if _, ok := mt.Underlying().(*types.Map); ok {
					c := x.loadMap(st, mt, t)
					t = Int(int64(c.id) + (1 << 50))
				}
			}
		}
		ts = append(ts, t)
	}
	var res []Value
	n := sig.Results().Len()
	for i := 0; i < n; i++ {
		rt := sig.Results().At(i).Type()
		u := "x:" + name
		if n > 1 {
			u += fmt.Sprintf("#%d", i)
		}
		var so Sort
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupported); !ok {
						panic(r)
					}
					so = SInt
				}
			}()
			so = x.sortOf(rt)
		}()
		if getFn(u) == nil {
			var ps []Sort
			for _, t := range ts {
				ps = append(ps, t.sort)
			}
			d := &recFn{name: u, params: ps, ret: so}
			if so == SInt {
				d.rng = x.valRng(rt)
			}
			if so == SSeqI {
				d.elem = x.elRng(rt)
			}
			declFn(d)
		}
		if so == SInt && isSliceT(rt) {
			res = append(res, term(App(u, so, ts...)))
			continue
		}
		res = append(res, x.fromTerm(st, rt, App(u, so, ts...)))
	}
	return res
}

func argType(sig *types.Signature, i, n int) types.Type {
	if sig.Recv() != nil && n == sig.Params().Len()+1 {
		if i == 0 {
			return sig.Recv().Type()
		}
		i--
	}
	if i < sig.Params().Len() {
		return sig.Params().At(i).Type()
	}
	return nil
}

func (x *Exec) event(st *State, name string, args []Value, res ...Value) {
	st.events = append(st.events, &Event{name: name, args: args, res: res})
}

// errIs is errors.Is over the wrapping structure that is known.
func errIs(e, target *Term) *Term {
	switch e.op {
	case "VNil":
		return Eq(target, tVNil)
	case "ite":
		return Ite(e.args[0], errIs(e.args[1], target), errIs(e.args[2], target))
	case "VI":
		if p := e.args[1]; p.op == "uf" && p.name == "wrap" {
			return Or(Eq(e, target), errIs(p.args[0], target))
		}
		if e.args[0].isInt() && e.args[1].isInt() {
			return Eq(e, target)
		}
	}
	return App("errIs", SBool, e, target)
}

func init() {
	declFn(&recFn{name: "errIs", params: []Sort{SVal, SVal}, ret: SBool, facts: func(a []*Term) []*Term {
		t := mk("uf", SBool, "errIs", nil, a...)
		return []*Term{Implies(Eq(a[0], a[1]), t), Implies(And(Eq(a[0], tVNil), Ne(a[1], tVNil)), Not(t))}
	}})
	declFn(&recFn{name: "nilslice", params: []Sort{SSeqI}, ret: SBool})
}

func (x *Exec) wrapErr(e *Term) *Term {
	w := VI(x.extID("tag:wrapped"), App("wrap", SInt, e))
	return Ite(Eq(e, tVNil), tVNil, w)
}

func (x *Exec) newErr(hint string) *Term {
	return VI(x.extID("tag:errors"), x.alloc())
}

var tBool = types.Typ[types.Bool]
var tAny types.Type = types.NewInterfaceType(nil, nil)

func be(content, off *Term, n int) *Term {
	r := Int(0)
	for i := 0; i < n; i++ {
		r = Add(Mul(r, Int(256)), Nth(content, Add(off, Int(int64(i)))))
	}
	return r
}

func beBytes(v *Term, n int) *Term {
	var us []*Term
	for i := n - 1; i >= 0; i-- {
		us = append(us, Unit(bitsOf(v, uint(8*i), 8)))
	}
	return Concat(SSeqI, us...)
}

func hexDigit(n *Term, upper bool) *Term {
	b := int64('a')
	if upper {
		b = 'A'
	}
	return Ite(Le(n, Int(9)), Add(n, Int(48)), Add(n, Int(b-10)))
}

// decDigits: exactly w decimal digits of n, for 0 <= n < 10^w.
func decDigits(n *Term, w int) *Term {
	var us []*Term
	p := int64(1)
	for i := 1; i < w; i++ {
		p *= 10
	}
	for ; p > 0; p /= 10 {
		us = append(us, Unit(Add(Int(48), Mod(Div(n, Int(p)), Int(10)))))
	}
	return Concat(SSeqI, us...)
}

func (x *Exec) sprintf(st *State, format *Term, elems []*Term) *Term {
	us := units(format)
	if us == nil {
		return nil
	}
	var fb []byte
	for _, u := range us {
		if !u.isInt() {
			return nil
		}
		fb = append(fb, byte(u.n.Int64()))
	}
	fs := string(fb)
	var parts []*Term
	k := 0
	lit := ""
	flush := func() {
		if lit != "" {
			parts = append(parts, StrLit(lit))
			lit = ""
		}
	}
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			lit += string(fs[i])
			continue
		}
		j := i + 1
		for j < len(fs) && (fs[j] >= '0' && fs[j] <= '9' || fs[j] == '+' || fs[j] == '-' || fs[j] == '#' || fs[j] == '.') {
			j++
		}
		if j >= len(fs) {
			return nil
		}
		verb := fs[i : j+1]
		i = j
		if verb == "%%" {
			lit += "%"
			continue
		}
		flush()
		if k >= len(elems) {
			return nil
		}
		a := elems[k]
		k++
		n := VInt(a)
		// wider verbs over a known range
		var t *Term
		r := rangeOf(n)
		small := func(mx int64) bool {
			return r.lo != nil && r.hi != nil && r.lo.Sign() >= 0 && r.hi.Cmp(Int(mx).n) <= 0
		}
		isIntArg := a.op == "VI"
		switch {
		case (verb == "%02X" || verb == "%02x") && isIntArg && small(255):
			t = Concat(SSeqI, Unit(hexDigit(Div(n, Int(16)), verb == "%02X")), Unit(hexDigit(Mod(n, Int(16)), verb == "%02X")))
		case verb == "%02d" && isIntArg:
			if small(99) {
				t = decDigits(n, 2)
			} else {
				t = Ite(And(Le(Int(0), n), Le(n, Int(99))), decDigits(n, 2), App("fmt%02d", SSeqI, n))
			}
		case verb == "%04d" && isIntArg:
			t = Ite(And(Le(Int(0), n), Le(n, Int(9999))), decDigits(n, 4), App("fmt%04d", SSeqI, n))
		case (verb == "%s" || verb == "%v") && a.op == "VS":
			t = a.args[1]
		case verb == "%c" && isIntArg:
			t = utf8enc(n)
		case verb == "%d" && isIntArg, verb == "%v" && isIntArg:
			t = App("x:strconv.Itoa", SSeqI, n)
		default:
			t = App("fmt:"+verb, SSeqI, a)
		}
		parts = append(parts, t)
	}
	flush()
	return Concat(SSeqI, parts...)
}

func seqElems(t *Term) []*Term { return units(t) }

func lastIndexByte(s, c *Term) *Term { return App("lastidx", SInt, s, c) }

func init() {
	m := func(names string, fn modelFn) {
		for _, n := range strings.Fields(names) {
			models[n] = fn
		}
	}
	// --- errors ---
	m("errors.New github.com/pkg/errors.New github.com/pkg/errors.Errorf fmt.Errorf", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		return one(st, term(x.newErr("err")))
	})
	m("github.com/pkg/errors.Wrap github.com/pkg/errors.Wrapf github.com/pkg/errors.WithMessage github.com/pkg/errors.WithMessagef github.com/pkg/errors.WithStack", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		return one(st, term(x.wrapErr(a[0].t)))
	})
	m("errors.Is github.com/pkg/errors.Is", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		return one(st, term(errIs(a[0].t, a[1].t)))
	})
	// --- sync ---
	lock := func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		var outs []Outcome
		if !x.guardOK(f, "nil mutex", Ne(a[0].t, Int(0)), pos, &outs) {
			return outs
		}
		x.oblige(st, "lock", "mutex not already held by this goroutine", Not(x.held(st, a[0].t)), pos)
		if len(x.heldLocks(st)) > 0 {
			x.oblige(st, "lock", "no lock is taken while a store's lock is held", tFalse, pos)
		}
		x.storeLoc(st, "L:held", a[0].t, tTrue, tBool)
		x.acquire(st, x.storeOfMutex(st, a[0].t), pos)
		x.sharedLock(st, a[0].t)
		return append(outs, Outcome{st: st})
	}
	unlock := func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		x.oblige(st, "lock", "unlock of a held mutex", x.held(st, a[0].t), pos)
		x.storeLoc(st, "L:held", a[0].t, tFalse, tBool)
		x.sharedUnlock(st, a[0].t)
		return one(st)
	}
	m("(*sync.Mutex).Lock (*sync.RWMutex).Lock", lock)
	m("(*sync.RWMutex).RLock", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		outs := lock(x, f, st, sig, a, pos)
		for _, o := range outs {
			if !o.panic {
				x.keyRng["L:rheld"] = tBool
				x.storeLoc(o.st, "L:rheld", a[0].t, tTrue, tBool)
			}
		}
		return outs
	})
	m("(*sync.Mutex).Unlock (*sync.RWMutex).Unlock", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		if st.heap["L:rheld"] != nil {
			x.oblige(st, "lock", "a read lock is given back with RUnlock", Not(x.rheld(st, a[0].t)), pos)
		}
		return unlock(x, f, st, sig, a, pos)
	})
	m("(*sync.RWMutex).RUnlock", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		x.oblige(st, "lock", "RUnlock gives back a read lock", x.rheld(st, a[0].t), pos)
		x.keyRng["L:rheld"] = tBool
		x.storeLoc(st, "L:rheld", a[0].t, tFalse, tBool)
		return unlock(x, f, st, sig, a, pos)
	})
	m("(*sync.Once).Do", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		for g := range x.P.onces {
			if x.globalAddr(st, g).t == a[0].t {
				return one(st) // ran during initialisation
			}
		}
		done := x.underPC(st, x.loadLoc(st, "O:sync.Once", a[0].t, tBool))
		var outs []Outcome
		if done != tFalse {
			s2 := st.clone()
			if s2.assume(done) && x.feasible(s2) {
				outs = append(outs, Outcome{st: s2})
			}
		}
		if done != tTrue {
			if st.assume(Not(done)) && x.feasible(st) {
				x.storeLoc(st, "O:sync.Once", a[0].t, tTrue, tBool)
				if a[1].k != KFunc {
					unsup("Once.Do of an unknown function")
				}
				g := f.clone()
				g.st = st
				for _, o := range x.callFn(g, a[1].fn.fn, nil, a[1].fn.binds, false, pos) {
					o.res = nil
					outs = append(outs, o)
				}
			}
		}
		return outs
	})
	m("(*sync.WaitGroup).Add (*sync.WaitGroup).Done (*sync.WaitGroup).Wait time.Sleep time.After (*time.Timer).Stop", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		res := x.freshResults(st, sig, "t", true)
		x.event(st, "wait", a, res...)
		return one(st, res...)
	})
	// --- atomic operations; when the property is about concurrent callers, other
	// goroutines may have changed the value before each operation ---
	atomicStep := func(x *Exec, st *State, kind string, t types.Type, cur *Term, set func(st *State, v *Term), a []Value) []Outcome {
		if activeProp == "C18" {
			cur = x.fresh(st, t, "other").t
			set(st, cur)
		}
		rmw := func(st *State, v *Term) {
			set(st, v)
			x.event(st, "atomic.rmw", []Value{term(cur), term(v)})
		}
		switch kind {
		case "load":
			return one(st, term(cur))
		case "store":
			rmw(st, a[1].t)
			return one(st)
		case "add":
			n := wrap(Add(cur, a[1].t), t)
			rmw(st, n)
			return one(st, term(n))
		case "swap":
			rmw(st, a[1].t)
			return one(st, term(cur))
		}
		var outs []Outcome
		eq := x.underPC(st, Eq(cur, a[1].t))
		s2 := st.clone()
		if eq != tTrue && s2.assume(Not(eq)) && x.feasible(s2) {
			outs = append(outs, Outcome{st: s2, res: []Value{term(tFalse)}})
		}
		if eq != tFalse && st.assume(eq) {
			rmw(st, a[2].t)
			outs = append(outs, Outcome{st: st, res: []Value{term(tTrue)}})
		}
		return outs
	}
	atomicOp := func(name, kind string, t types.Type) {
		T := strings.ToUpper(t.String()[:1]) + t.String()[1:]
		models["sync/atomic."+name+T] = func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
			var outs []Outcome
			if !x.derefOK(f, a[0], t, pos, &outs) {
				return outs
			}
			set := func(st *State, v *Term) { x.store(st, a[0], t, term(v)) }
			return append(outs, atomicStep(x, st, kind, t, x.load(st, a[0], t).t, set, a)...)
		}
		models["(*sync/atomic."+T+")."+name] = func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
			key, ref := "O:atomic."+T, a[0].t
			if a[0].k == KAddr {
				key, ref = a[0].addr.key, a[0].addr.ref
			}
			if ref == nil {
				unsup("address of an atomic value")
			}
			set := func(st *State, v *Term) { x.storeLoc(st, key, ref, v, t) }
			return atomicStep(x, st, kind, t, x.loadLoc(st, key, ref, t), set, a)
		}
	}
	for _, t := range []types.Type{types.Typ[types.Int32], types.Typ[types.Uint32], types.Typ[types.Int64], types.Typ[types.Uint64]} {
		atomicOp("Load", "load", t)
		atomicOp("Store", "store", t)
		atomicOp("Add", "add", t)
		atomicOp("Swap", "swap", t)
		atomicOp("CompareAndSwap", "cas", t)
	}
	// --- encoding/binary ---
	for _, bits := range []int{16, 32, 64} {
		n := bits / 8
		models[fmt.Sprintf("(encoding/binary.bigEndian).Uint%d", bits)] = func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
			s := a[1].sl
			var outs []Outcome
			if !x.guardOK(f, "index out of range", Le(Int(int64(n)), s.len), pos, &outs) {
				return outs
			}
			return append(outs, Outcome{st: st, res: []Value{term(be(st.regions[s.reg].content, s.off, n))}})
		}
		models[fmt.Sprintf("(encoding/binary.littleEndian).Uint%d", bits)] = func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
			s := a[1].sl
			var outs []Outcome
			if !x.guardOK(f, "index out of range", Le(Int(int64(n)), s.len), pos, &outs) {
				return outs
			}
			r := Int(0)
			for i := n - 1; i >= 0; i-- {
				r = Add(Mul(r, Int(256)), Nth(st.regions[s.reg].content, Add(s.off, Int(int64(i)))))
			}
			return append(outs, Outcome{st: st, res: []Value{term(r)}})
		}
		models[fmt.Sprintf("(encoding/binary.bigEndian).PutUint%d", bits)] = func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
			s := a[1].sl
			var outs []Outcome
			if !x.guardOK(f, "index out of range", Le(Int(int64(n)), s.len), pos, &outs) {
				return outs
			}
			x.writeRegion(st, s.reg, s.off, beBytes(a[2].t, n))
			return append(outs, Outcome{st: st})
		}
		models[fmt.Sprintf("(encoding/binary.littleEndian).PutUint%d", bits)] = func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
			s := a[1].sl
			var outs []Outcome
			if !x.guardOK(f, "index out of range", Le(Int(int64(n)), s.len), pos, &outs) {
				return outs
			}
			bs := units(beBytes(a[2].t, n))
			for i, j := 0, len(bs)-1; i < j; i, j = i+1, j-1 {
				bs[i], bs[j] = bs[j], bs[i]
			}
			var us []*Term
			for _, b := range bs {
				us = append(us, Unit(b))
			}
			x.writeRegion(st, s.reg, s.off, Concat(SSeqI, us...))
			return append(outs, Outcome{st: st})
		}
		models[fmt.Sprintf("(encoding/binary.bigEndian).AppendUint%d", bits)] = func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
			return one(st, x.doAppend(st, []Value{a[1], term(beBytes(a[2].t, n))}, nil))
		}
	}
	// --- encoding/hex ---
	m("encoding/hex.DecodeString", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		s := a[0].t
		d := App("hexd", SSeqI, s)
		if us := units(s); us != nil {
			if c, ok := constHex(us); ok {
				return one(st, x.sliceOf(st, c, true), term(tVNil))
			}
		}
		e := Ite(App("hexok", SBool, s), tVNil, VI(x.extID("tag:hexerr"), App("hexerr", SInt, s)))
		return one(st, x.sliceOf(st, d, true), term(e))
	})
	m("encoding/hex.EncodeToString", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		return one(st, term(App("hexl", SSeqI, st.content(a[0].sl))))
	})
	// --- fmt ---
	m("fmt.Sprintf", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		args := st.content(a[1].sl)
		if el := units(args); el != nil {
			if r := x.sprintf(st, a[0].t, el); r != nil {
				return one(st, term(r))
			}
		}
		return one(st, term(App("x:fmt.Sprintf", SSeqI, a[0].t, args)))
	})
	// --- strings ---
	m("strings.LastIndex", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		if us := units(a[1].t); len(us) == 1 {
			return one(st, term(lastIndexByte(a[0].t, us[0])))
		}
		r := App("x:strings.LastIndex", SInt, a[0].t, a[1].t)
		st.assume(Le(Int(-1), r))
		st.assume(Le(r, Len(a[0].t)))
		return one(st, term(r))
	})
	m("strings.LastIndexByte", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		return one(st, term(lastIndexByte(a[0].t, a[1].t)))
	})
	m("strings.TrimRight", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		if us := units(a[1].t); len(us) == 1 && us[0].isInt() && us[0].n.Int64() < 128 {
			return one(st, term(App("trimr", SSeqI, a[0].t, us[0])))
		}
		return one(st, term(App("x:strings.TrimRight", SSeqI, a[0].t, a[1].t)))
	})
	for _, up := range []bool{true, false} {
		up := up
		name, from, to := "strings.ToUpper", "hexl", "hexu"
		if !up {
			name, from, to = "strings.ToLower", "hexu", "hexl"
		}
		m(name, func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
			s := a[0].t
			if s.op == "uf" && s.name == from {
				return one(st, term(App(to, SSeqI, s.args...)))
			}
			if s.op == "uf" && s.name == to {
				return one(st, term(s))
			}
			if us := units(s); us != nil || s == tEmpty {
				b := make([]byte, len(us))
				for i, u := range us {
					k, ok := u.int64()
					if !ok || k > 127 {
						b = nil
						break
					}
					b[i] = byte(k)
				}
				if b != nil {
					if up {
						return one(st, term(StrLit(strings.ToUpper(string(b)))))
					}
					return one(st, term(StrLit(strings.ToLower(string(b)))))
				}
			}
			return one(st, term(App("x:"+name, SSeqI, s)))
		})
	}
	m("strings.Join", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		c := st.content(a[0].sl)
		us := units(c)
		if us == nil && c != tEmpV && c != tEmpty {
			return one(st, term(App("x:strings.Join", SSeqI, c, a[1].t)))
		}
		var ps []*Term
		for i, u := range us {
			if i > 0 {
				ps = append(ps, a[1].t)
			}
			ps = append(ps, VStr(u))
		}
		return one(st, term(Concat(SSeqI, ps...)))
	})
	m("strings.Repeat", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		var outs []Outcome
		if !x.guardOK(f, "negative Repeat count", Le(Int(0), a[1].t), pos, &outs) {
			return outs
		}
		if us := units(a[0].t); len(us) == 1 {
			return append(outs, Outcome{st: st, res: []Value{term(replicate(us[0], a[1].t))}})
		}
		return append(outs, Outcome{st: st, res: []Value{term(App("x:strings.Repeat", SSeqI, a[0].t, a[1].t))}})
	})
	m("bytes.Repeat", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		var outs []Outcome
		if !x.guardOK(f, "negative Repeat count", Le(Int(0), a[1].t), pos, &outs) {
			return outs
		}
		c := st.content(a[0].sl)
		if us := units(c); len(us) == 1 {
			return append(outs, Outcome{st: st, res: []Value{x.sliceOf(st, replicate(us[0], a[1].t), true)}})
		}
		return append(outs, Outcome{st: st, res: []Value{x.sliceOf(st, App("x:bytes.Repeat", SSeqI, c, a[1].t), true)}})
	})
	str := types.Typ[types.String]
	for _, bt := range []string{"strings.Builder", "bytes.Buffer"} {
		k := "O:" + bt
		app := func(x *Exec, st *State, ref, s *Term) {
			x.storeLoc(st, k, ref, Concat(SSeqI, x.loadLoc(st, k, ref, str), s), str)
		}
		m("(*"+bt+").WriteString", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
			app(x, st, a[0].t, a[1].t)
			return one(st, term(Len(a[1].t)), term(tVNil))
		})
		m("(*"+bt+").Write", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
			app(x, st, a[0].t, st.content(a[1].sl))
			return one(st, term(a[1].sl.len), term(tVNil))
		})
		m("(*"+bt+").WriteByte", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
			app(x, st, a[0].t, Unit(a[1].t))
			return one(st, term(tVNil))
		})
		m("(*"+bt+").WriteRune", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
			e := utf8enc(a[1].t)
			app(x, st, a[0].t, e)
			return one(st, term(Len(e)), term(tVNil))
		})
		m("(*"+bt+").String", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
			return one(st, term(x.loadLoc(st, k, a[0].t, str)))
		})
		m("(*"+bt+").Bytes", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
			return one(st, x.sliceOf(st, x.loadLoc(st, k, a[0].t, str), false))
		})
		m("(*"+bt+").Len", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
			return one(st, term(Len(x.loadLoc(st, k, a[0].t, str))))
		})
		m("(*"+bt+").Grow (*"+bt+").Reset", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
			if sig.Params().Len() == 0 {
				x.storeLoc(st, k, a[0].t, tEmpty, str)
			}
			return one(st)
		})
	}
	// --- strconv ---
	m("strconv.Itoa strconv.FormatInt strconv.FormatUint", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		if len(a) == 2 && a[1].t != Int(10) {
			return one(st, term(App("x:strconv.FormatInt", SSeqI, a[0].t, a[1].t)))
		}
		return one(st, term(App("x:strconv.Itoa", SSeqI, a[0].t)))
	})
	// --- hash/fnv ---
	m("hash/fnv.New32a hash/fnv.New32 hash/fnv.New64a hash/fnv.New64", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		return nil
	})
	for _, h := range []string{"New32a", "New32"} {
		tagN := "tag:fnv" + h
		models["hash/fnv."+h] = func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
			r := x.alloc()
			x.storeLoc(st, "O:fnv", r, tEmpty, str)
			return one(st, term(VI(x.extID(tagN), r)))
		}
	}
	m("hash.Hash32.Write hash.Hash.Write", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		r := VInt(a[0].t)
		x.storeLoc(st, "O:fnv", r, Concat(SSeqI, x.loadLoc(st, "O:fnv", r, str), st.content(a[1].sl)), str)
		return one(st, term(a[1].sl.len), term(tVNil))
	})
	m("hash.Hash32.Sum32", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		r := VInt(a[0].t)
		if VTag(a[0].t) == x.extID("tag:fnvNew32a") {
			if getFn("fnv32a") == nil {
				declFn(&recFn{name: "fnv32a", params: []Sort{SSeqI}, ret: SInt, rng: typeRng(types.Typ[types.Uint32])})
			}
			return one(st, term(App("fnv32a", SInt, x.loadLoc(st, "O:fnv", r, str))))
		}
		if getFn("fnv") == nil {
			declFn(&recFn{name: "fnv", params: []Sort{SInt, SSeqI}, ret: SInt, rng: typeRng(types.Typ[types.Uint32])})
		}
		return one(st, term(App("fnv", SInt, VTag(a[0].t), x.loadLoc(st, "O:fnv", r, str))))
	})
	// --- time ---
	m("time.Now", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		n := x.now(st)
		x.event(st, "time.Now", nil, term(n))
		return one(st, term(n))
	})
	m("time.Parse", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		ok := App("timeok", SBool, a[0].t, a[1].t)
		t := App("tparse", SInt, a[0].t, a[1].t)
		e := Ite(ok, tVNil, VI(x.extID("tag:timeerr"), App("timeerr", SInt, a[1].t)))
		return one(st, term(t), term(e))
	})
	timeFn := func(method, fn string) {
		models["(time.Time)."+method] = func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
			return one(st, term(App(fn, SInt, a[0].t)))
		}
	}
	timeFn("Year", "tyear")
	timeFn("Month", "tmonth")
	timeFn("Day", "tday")
	timeFn("Hour", "thour")
	timeFn("Minute", "tmin")
	timeFn("Second", "tsec")
	nano := func(t *Term) *Term { return App("tnano", SInt, t) }
	div := func(t *Term, by int64) *Term { return Div(t, Int(by)) }
	m("(time.Time).UnixNano", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		return one(st, term(nano(a[0].t)))
	})
	m("(time.Time).UnixMicro", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		return one(st, term(div(nano(a[0].t), 1000)))
	})
	m("(time.Time).UnixMilli", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		return one(st, term(div(nano(a[0].t), 1000000)))
	})
	m("(time.Time).Unix", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		return one(st, term(div(nano(a[0].t), 1000000000)))
	})
	m("(time.Time).After", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		return one(st, term(Lt(nano(a[1].t), nano(a[0].t))))
	})
	m("(time.Time).Before", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		return one(st, term(Lt(nano(a[0].t), nano(a[1].t))))
	})
	m("(time.Time).Add", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		t := App("tadd", SInt, a[0].t, a[1].t)
		st.assume(Eq(nano(t), Add(nano(a[0].t), a[1].t)))
		return one(st, term(t))
	})
	durDiv := func(name string, by int64) {
		models["(time.Duration)."+name] = func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
			d := a[0].t // truncates towards zero
			return one(st, term(Ite(Le(Int(0), d), div(d, by), Neg(div(Neg(d), by)))))
		}
	}
	durDiv("Milliseconds", 1000000)
	durDiv("Microseconds", 1000)
	durDiv("Nanoseconds", 1)
	m("(time.Time).Format", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		if a[1].t == StrLit("060102150405") {
			y := App("tyear", SInt, a[0].t)
			var parts []*Term
			yy := Mod(y, Int(100))
			parts = append(parts, Ite(Le(Int(0), y), decDigits(yy, 2), App("fmt%02d", SSeqI, y)))
			for _, n := range []string{"tmonth", "tday", "thour", "tmin", "tsec"} {
				parts = append(parts, decDigits(App(n, SInt, a[0].t), 2))
			}
			return one(st, term(Concat(SSeqI, parts...)))
		}
		return one(st, term(App("tformat", SSeqI, a[0].t, a[1].t)))
	})
	m("(time.Time).Date", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		return one(st, term(App("tyear", SInt, a[0].t)), term(App("tmonth", SInt, a[0].t)), term(App("tday", SInt, a[0].t)))
	})
	m("(time.Time).Clock", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		return one(st, term(App("thour", SInt, a[0].t)), term(App("tmin", SInt, a[0].t)), term(App("tsec", SInt, a[0].t)))
	})
	m("time.Since", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		n := x.now(st)
		x.event(st, "time.Now", nil, term(n))
		return one(st, term(Sub(App("tnano", SInt, n), App("tnano", SInt, a[0].t))))
	})
	m("(time.Time).Sub", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		return one(st, term(Sub(App("tnano", SInt, a[0].t), App("tnano", SInt, a[1].t))))
	})
	// --- golang.org/x/text: a transforming reader over a buffer ---
	m("(golang.org/x/text/encoding/simplifiedchinese.gbk).NewDecoder (golang.org/x/text/encoding.Encoding).NewDecoder golang.org/x/text/encoding.Encoding.NewDecoder", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		return one(st, term(App("codec", SInt, x.codecID(a[0]), Int(1))))
	})
	m("(golang.org/x/text/encoding/simplifiedchinese.gbk).NewEncoder golang.org/x/text/encoding.Encoding.NewEncoder", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		return one(st, term(App("codec", SInt, x.codecID(a[0]), Int(2))))
	})
	m("bytes.NewBuffer", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		r := x.alloc()
		x.storeLoc(st, "O:bytes.Buffer", r, st.content(a[0].sl), str)
		return one(st, term(r))
	})
	m("bytes.NewBufferString", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		r := x.alloc()
		x.storeLoc(st, "O:bytes.Buffer", r, a[0].t, str)
		return one(st, term(r))
	})
	m("bytes.NewReader", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		r := x.alloc()
		x.storeLoc(st, "O:bytes.Reader", r, st.content(a[0].sl), str)
		return one(st, term(r))
	})
	m("golang.org/x/text/transform.NewReader", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		r := x.alloc()
		x.storeLoc(st, "X:tsrc", r, a[0].t, tAny)
		x.storeLoc(st, "X:ttr", r, VInt(a[1].t), types.Typ[types.Int])
		return one(st, term(r))
	})
	m("io.ReadAll io/ioutil.ReadAll", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		ref := VInt(a[0].t)
		if tp := x.tagOf(a[0].t); tp == "*golang.org/x/text/transform.Reader" && ref.isInt() {
			src := x.loadLoc(st, "X:tsrc", ref, tAny)
			tr := x.loadLoc(st, "X:ttr", ref, types.Typ[types.Int])
			var c *Term
			switch x.tagOf(src) {
			case "*bytes.Buffer":
				c = x.loadLoc(st, "O:bytes.Buffer", VInt(src), str)
			case "*bytes.Reader":
				c = x.loadLoc(st, "O:bytes.Reader", VInt(src), str)
			}
			if c != nil && tr.op == "uf" && tr.name == "codec" {
				return x.transformed(st, tr, c)
			}
		}
		unsup("io.ReadAll of an unknown reader %s %v", x.tagOf(a[0].t), a[0].t)
		return nil
	})
	m("(*golang.org/x/text/encoding.Decoder).Bytes (*golang.org/x/text/encoding.Encoder).Bytes", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		return x.transformed(st, a[0].t, st.content(a[1].sl))
	})
	m("(*golang.org/x/text/encoding.Decoder).String (*golang.org/x/text/encoding.Encoder).String", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		outs := x.transformed(st, a[0].t, a[1].t)
		for i := range outs {
			outs[i].res[0] = term(outs[i].st.content(outs[i].res[0].sl))
		}
		return outs
	})
	m("golang.org/x/text/transform.Bytes", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		outs := x.transformed(st, VInt(a[0].t), st.content(a[1].sl))
		for i := range outs {
			c := outs[i].st.content(a[1].sl)
			outs[i].res = []Value{outs[i].res[0], term(Len(c)), outs[i].res[1]}
		}
		return outs
	})
	m("(time.Duration).Milliseconds", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		return one(st, term(goDiv(a[0].t, Int(1000000))))
	})
	m("(time.Duration).Seconds", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		return one(st, term(App("x:Duration.Seconds", SInt, a[0].t)))
	})
	// --- context ---
	m("context.Background context.TODO", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		return one(st, term(VI(x.extID("tag:ctxbg"), Int(1))))
	})
	m("context.WithValue", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		return one(st, term(VI(x.extID("tag:ctxval"), App("ctxv", SInt, a[0].t, a[1].t, a[2].t))))
	})
	m("context.Context.Value", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		return one(st, term(x.ctxValue(a[0].t, a[1].t)))
	})
	// --- byte streams ---
	// bufio.Reader: the bytes not yet delivered are stream(ref)[pos:]
	m("(*bufio.Reader).Read", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		var outs []Outcome
		if !x.guardOK(f, "nil dereference", Ne(a[0].t, Int(0)), pos, &outs) {
			return outs
		}
		s := a[1].sl
		e := st.clone()
		ev := Fresh("rderr", SVal)
		e.assume(Ne(ev, tVNil))
		x.storeLoc(e, "S:rderr", a[0].t, ev, tAny)
		outs = append(outs, Outcome{st: e, res: []Value{term(Int(0)), term(ev)}})
		n := Fresh("rdn", SInt)
		if s.len == Int(1) {
			n = Int(1)
		} else {
			st.assume(And(Le(Int(1), n), Le(n, s.len)))
		}
		p := x.loadLoc(st, "S:pos", a[0].t, types.Typ[types.Int])
		stream := x.stream(a[0].t)
		st.assume(Le(Int(0), p))
		st.assume(Le(Add(p, n), Len(stream)))
		x.writeRegion(st, s.reg, s.off, extractN(stream, p, n))
		x.storeLoc(st, "S:pos", a[0].t, Add(p, n), types.Typ[types.Int])
		outs = append(outs, Outcome{st: st, res: []Value{term(n), term(tVNil)}})
		return outs
	})
	m("io.ReadFull", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		if x.tagOf(a[0].t) != "*bufio.Reader" || a[1].k != KSlice || a[1].sl.len != Int(1) {
			unsup("io.ReadFull of this reader or length")
		}
		return models["(*bufio.Reader).Read"](x, f, st, sig, []Value{term(VInt(a[0].t)), a[1]}, pos)
	})
	m("(*bufio.Reader).ReadByte", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		var outs []Outcome
		if !x.guardOK(f, "nil dereference", Ne(a[0].t, Int(0)), pos, &outs) {
			return outs
		}
		e := st.clone()
		ev := Fresh("rderr", SVal)
		e.assume(Ne(ev, tVNil))
		x.storeLoc(e, "S:rderr", a[0].t, ev, tAny)
		outs = append(outs, Outcome{st: e, res: []Value{term(Int(0)), term(ev)}})
		p := x.loadLoc(st, "S:pos", a[0].t, types.Typ[types.Int])
		stream := x.stream(a[0].t)
		st.assume(Le(Int(0), p))
		st.assume(Le(Add(p, Int(1)), Len(stream)))
		x.storeLoc(st, "S:pos", a[0].t, Add(p, Int(1)), types.Typ[types.Int])
		return append(outs, Outcome{st: st, res: []Value{term(Nth(stream, p)), term(tVNil)}})
	})
	// up to and including the next delimiter; expressed with the contracts' own
	// functions on streams, so only for the delimiter of frames
	m("(*bufio.Reader).ReadBytes (*bufio.Reader).ReadString", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		var outs []Outcome
		if !x.guardOK(f, "nil dereference", Ne(a[0].t, Int(0)), pos, &outs) {
			return outs
		}
		for _, n := range []string{"scan", "used", "no7e"} {
			if f := x.specs.fns[n]; f == nil || !f.rec {
				unsup("no specification function %s", n)
			}
		}
		if a[1].t != Int(0x7e) {
			unsup("reading up to a delimiter other than 7e")
		}
		ret := func(st *State, c *Term) Value {
			if _, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); ok {
				return term(c)
			}
			return x.sliceOf(st, c, true)
		}
		p := x.loadLoc(st, "S:pos", a[0].t, types.Typ[types.Int])
		stream := x.stream(a[0].t)
		st.assume(And(Le(Int(0), p), Le(p, Len(stream))))
		t := extractN(stream, p, Sub(Len(stream), p))
		e := st.clone()
		ev := Fresh("rderr", SVal)
		e.assume(Ne(ev, tVNil))
		n := Fresh("rdn", SInt) // the stream failed after n more bytes without a delimiter
		part := extractN(t, Int(0), n)
		e.assume(And(Le(Int(0), n), Le(n, Len(t)), App("no7e", SBool, part)))
		x.storeLoc(e, "S:pos", a[0].t, Add(p, n), types.Typ[types.Int])
		x.storeLoc(e, "S:rderr", a[0].t, ev, tAny)
		outs = append(outs, Outcome{st: e, res: []Value{ret(e, part), term(ev)}})
		st.assume(Not(App("no7e", SBool, t)))
		x.storeLoc(st, "S:pos", a[0].t, Add(p, App("used", SInt, t, tTrue)), types.Typ[types.Int])
		return append(outs, Outcome{st: st, res: []Value{ret(st, App("scan", SSeqI, t, tTrue)), term(tVNil)}})
	})
	m("bufio.NewReader bufio.NewReaderSize", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		r := x.alloc()
		x.storeLoc(st, "S:src", r, a[0].t, types.NewInterfaceType(nil, nil))
		x.storeLoc(st, "S:pos", r, Int(0), types.Typ[types.Int])
		return one(st, term(r))
	})
	// io.Writer: out(w) collects what was accepted
	m("io.Writer.Write net.Conn.Write", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		w := App("ifaceid", SInt, a[0].t)
		c := st.content(a[1].sl)
		cur := x.loadLoc(st, "S:out", w, str)
		n := Fresh("wrn", SInt)
		ev := Fresh("wrerr", SVal)
		st.assume(And(Le(Int(0), n), Le(n, Len(c))))
		x.storeLoc(st, "S:out", w, Concat(SSeqI, cur, extractN(c, Int(0), n)), str)
		e := st.clone()
		e.assume(Ne(ev, tVNil))
		x.storeLoc(e, "S:wrerr", w, ev, tAny)
		x.event(e, "write", []Value{a[0], term(c)}, term(n), term(ev))
		x.event(st, "write", []Value{a[0], term(c)}, term(n), term(tVNil))
		return []Outcome{{st: e, res: []Value{term(n), term(ev)}}, {st: st, res: []Value{term(n), term(tVNil)}}}
	})
	m("net.Conn.Close net.Listener.Close", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		r := Fresh("closeerr", SVal)
		x.event(st, "conn.Close", a, term(r))
		return one(st, term(r))
	})
	m("net.Listener.Accept", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		e := st.clone()
		ev := Fresh("accerr", SVal)
		e.assume(Ne(ev, tVNil))
		c := Fresh("conn", SVal)
		st.assume(Ne(c, tVNil))
		x.event(st, "accept", a, term(c))
		if x.v != nil && (activeProp == "C21" || activeProp == "") {
			// ghost state: the connection that waits to be served
			p := x.loadLoc(st, "L:g:waiting", Int(0), types.Typ[types.Int])
			x.oblige(e, "served", "the accepted connection is served before the next is accepted", Eq(p, Int(0)), pos)
			x.storeLoc(st, "L:g:waiting", Int(0), Int(1), types.Typ[types.Int])
			x.storeLoc(st, "L:g:accepted", Int(0), c, tAny)
			x.storeLoc(st, "L:g:lasterr", Int(0), tVNil, tAny)
		}
		return []Outcome{{st: e, res: []Value{term(tVNil), term(ev)}}, {st: st, res: []Value{term(c), term(tVNil)}}}
	})
	m("net.Listen net.Dial", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		e := st.clone()
		ev := Fresh("neterr", SVal)
		e.assume(Ne(ev, tVNil))
		c := Fresh("netobj", SVal)
		st.assume(Ne(c, tVNil))
		return []Outcome{{st: e, res: []Value{term(tVNil), term(ev)}}, {st: st, res: []Value{term(c), term(tVNil)}}}
	})
	m("net.Conn.RemoteAddr", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		return one(st, term(VI(x.extID("tag:addr"), App("remote", SInt, a[0].t))))
	})
	m("net.Addr.String", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		if getFn("addrstr") == nil {
			declFn(&recFn{name: "addrstr", params: []Sort{SVal}, ret: SSeqI, elem: byteRng})
		}
		return one(st, term(App("addrstr", SSeqI, a[0].t)))
	})
	// --- gron ---
	ev := func(name string) modelFn {
		return func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
			res := x.freshResults(st, sig, name, true)
			x.event(st, name, a, res...)
			return one(st, res...)
		}
	}
	// a Cron is the set of its jobs; a job's id is what its JobID method returns
	m("(*github.com/fakeyanss/gron.Cron).Add (*github.com/fakeyanss/gron.Cron).AddCancelingJob", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		x.event(st, "cron.Add", a)
		tg := VTag(a[2].t)
		if !tg.isInt() {
			unsup("job of unknown type")
		}
		T := x.tagType[tg.n.Int64()]
		var id *ssa.Function
		if T != nil {
			if sel := x.P.prog.MethodSets.MethodSet(T).Lookup(nil, "JobID"); sel != nil {
				id = x.P.prog.MethodValue(sel)
			}
		}
		per := VInt(a[1].t)
		if t1 := VTag(a[1].t); t1 != x.extID("tag:gron.every") {
			per = Fresh("period", SInt)
		}
		if id == nil {
			return one(st) // cannot be cancelled
		}
		var outs []Outcome
		for _, o := range x.callFn(f, id, []Value{x.unbox(st, T, a[2].t)}, nil, false, pos) {
			if !o.panic {
				x.putJob(o.st, o.res[0].t, per)
				o.res = nil
			}
			outs = append(outs, o)
		}
		return outs
	})
	m("(*github.com/fakeyanss/gron.Cron).Cancel", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		x.event(st, "cron.Cancel", a)
		k := x.mapKey(jobsType)
		r := x.extID("ghost:jobs")
		st.heap[k] = &Store{ref: r, val: MapDel(x.loadMap(st, jobsType, r), a[1].t), prev: st.heap[k]}
		return one(st)
	})
	m("github.com/fakeyanss/gron.Every", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		return one(st, term(VI(x.extID("tag:gron.every"), a[0].t)))
	})
	m("encoding/json.Marshal", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		r := x.freshResults(st, sig, "json", true)
		return one(st, r[0], term(tVNil))
	})
	m("(*github.com/fakeyanss/gron.Cron).Start", ev("cron.Start"))
	m("github.com/fakeyanss/gron.New", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		return one(st, term(x.alloc()))
	})
	// --- gin ---
	const gin = "github.com/gin-gonic/gin."
	m("(*"+gin+"Context).JSON (*"+gin+"Context).AbortWithStatusJSON (*"+gin+"Context).IndentedJSON (*"+gin+"Context).PureJSON", ev("gin.JSON"))
	for _, k := range []string{"GET", "PUT", "POST", "DELETE", "PATCH", "Handle"} {
		k := k
		m("(*"+gin+"RouterGroup)."+k+" "+gin+"IRoutes."+k, func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
			k := k
			if k == "Handle" {
				k = a[1].t.litStr()
				a = append([]Value{a[0]}, a[2:]...)
			}
			x.route(f, k+" "+x.routePre[a[0].t]+a[1].t.litStr(), a[2], pos)
			return one(st, x.freshResults(st, sig, "routes", true)...)
		})
	}
	m("(*"+gin+"RouterGroup).Group", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		r := x.alloc()
		if x.routePre == nil {
			x.routePre = map[*Term]string{}
		}
		x.routePre[r] = x.routePre[a[0].t] + a[1].t.litStr()
		return one(st, term(r))
	})
	m(gin+"Default "+gin+"New", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		return one(st, term(x.alloc()))
	})
	m("(*"+gin+"Context).Param", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		return one(st, term(ginParam(a[0].t, a[1].t)))
	})
	m("(*github.com/gin-gonic/gin.Context).ShouldBind (*github.com/gin-gonic/gin.Context).ShouldBindJSON", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		// fills the struct behind the pointer with anything
		tg := VTag(a[1].t)
		if tg.isInt() {
			if pt, ok := x.tagType[tg.n.Int64()].(*types.Pointer); ok {
				x.store(st, term(VInt(a[1].t)), pt.Elem(), x.fresh(st, pt.Elem(), "bound"))
			}
		}
		e := st.clone()
		evv := Fresh("binderr", SVal)
		e.assume(Ne(evv, tVNil))
		e.events = append(e.events, &Event{name: "gin.bind", args: a, res: []Value{term(evv)}, pre: e.clone()})
		st.events = append(st.events, &Event{name: "gin.bind", args: a, res: []Value{term(tVNil)}, pre: st.clone()})
		return []Outcome{{st: e, res: []Value{term(evv)}}, {st: st, res: []Value{term(tVNil)}}}
	})
	m("os.Exit", func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
		return nil // the process ends
	})
	// the order that results is not modelled: the elements become unknown
	for _, n := range []string{"sort.Slice", "sort.SliceStable"} {
		n := n
		m(n, func(x *Exec, f *Frame, st *State, sig *types.Signature, a []Value, pos token.Pos) []Outcome {
			sl := a[0].sl
			if sl == nil {
				unsup("%s of a value that is not a slice in the same function", n)
			}
			x.event(st, "sort.Slice", a)
			c := st.content(sl)
			un := Fresh("sorted", c.sort)
			if c.sort == SSeqI {
				setElem(un, elemRangeOf(c))
			}
			st.assume(Eq(Len(un), Len(c)))
			x.writeRegion(st, sl.reg, sl.off, un)
			return one(st)
		})
	}
}

// ginParam: a named part of the path of a request.
func ginParam(c, name *Term) *Term {
	if getFn("ginparam") == nil {
		declFn(&recFn{name: "ginparam", params: []Sort{SInt, SSeqI}, ret: SSeqI, elem: byteRng})
	}
	return App("ginparam", SSeqI, c, name)
}

// litStr: the text of a literal string, "?" if it is none.
func (t *Term) litStr() string {
	var b []byte
	for _, p := range pieces(t) {
		if p == tEmpty {
			continue
		}
		if p.op != "unit" || !p.args[0].isInt() {
			return "?"
		}
		b = append(b, byte(p.args[0].n.Int64()))
	}
	return string(b)
}

// route: a handler is registered; it is verified against the contract of its
// route, on its own: when a request comes, anything but the variables it
// captured may have changed.
func (x *Exec) route(f *Frame, name string, hs Value, pos token.Pos) {
	c := x.specs.routes[name]
	if c == nil || x.v == nil || activeProp != "" && !c.props[activeProp] {
		return
	}
	var cl *Closure
	if hs.k == KSlice {
		ps := pieces(f.st.content(hs.sl))
		if n := len(ps); n > 0 && ps[n-1].op == "unit" && ps[n-1].args[0].isInt() {
			cl = x.closBy[ps[n-1].args[0].n.Int64()]
		}
	}
	if cl == nil || len(cl.fn.Params) != len(c.params) {
		return
	}
	v := x.v
	if v.routes == nil {
		v.routes = map[string]bool{}
	}
	v.routes[name] = true
	g := f.clone()
	st := g.st
	st.events = nil
	var restore []func()
	if cl.made != nil {
		for i, b := range cl.made.Bindings {
			a, ok := b.(*ssa.Alloc)
			if !ok {
				continue
			}
			t := a.Type().Underlying().(*types.Pointer).Elem()
			if assignedAfter(a, cl.made) {
				continue
			}
			p, val := cl.binds[i], x.load(st, cl.binds[i], t)
			restore = append(restore, func() { x.store(st, p, t, val) })
		}
	}
	x.havocAll(st)
	for _, r := range restore {
		r()
	}
	vars := map[string]SV{}
	var args []Value
	for i, p := range cl.fn.Params {
		a := x.fresh(st, p.Type(), c.params[i])
		if a.k == KTerm && a.t.sort == SInt {
			st.assume(Ne(a.t, Int(0)))
		}
		args = append(args, a)
		vars[c.params[i]] = SV{v: a, t: p.Type()}
	}
	pkg := cl.fn.Pkg.Pkg
	env := &SpecEnv{x: x, st: st, old: st, vars: vars, pkg: pkg}
	for _, r := range c.clauses {
		if r.kind == "requires" {
			st.assume(env.boolean(r.ex))
		}
	}
	pre := st.clone()
	save := v.noPanic
	v.noPanic = c.panics == nil && !c.may
	outs := x.run(cl.fn, args, cl.binds, st, false, 0)
	for i := range outs {
		if !dead(outs[i].st) {
			x.exitObligations(v, c, pkg, pre, &outs[i], vars, cl.fn.Signature.Results(), pos)
		}
	}
	v.noPanic = save
}

// jobsType: the type of the ghost table of timer jobs.
var jobsType = types.NewMap(types.Typ[types.String], types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("ghost", "ghost"), "job", nil), types.Typ[types.Int64], nil))

func (x *Exec) putJob(st *State, id, period *Term) {
	k := x.mapKey(jobsType)
	r := x.extID("ghost:jobs")
	st.heap[k] = &Store{ref: r, val: MapPut(x.loadMap(st, jobsType, r), id, period), prev: st.heap[k]}
}

// codecID names the character encoding behind an encoding.Encoding value.
func (x *Exec) codecID(v Value) *Term {
	if v.t != nil && v.t.sort == SVal {
		return VInt(v.t)
	}
	if v.t != nil {
		return v.t
	}
	unsup("unknown encoding")
	return nil
}

// transformed: the result of pushing c through an encoder or decoder.  For GBK
// the result is gbkdec/gbkenc of the specification.
func (x *Exec) transformed(st *State, tr, c *Term) []Outcome {
	if tr.op != "uf" || tr.name != "codec" {
		unsup("unknown transformer")
	}
	res, ok := "", ""
	if tr.args[0] == x.extID("glob:golang.org/x/text/encoding/simplifiedchinese.GBK") {
		res, ok = "gbkdec", "gbkdecok"
		if tr.args[1] == Int(2) {
			res, ok = "gbkenc", "gbkencok"
		}
	} else {
		res, ok = "xdec:"+tr.String(), "xdecok:"+tr.String()
		if getFn(res) == nil {
			declFn(&recFn{name: res, params: []Sort{SSeqI}, ret: SSeqI, elem: byteRng})
			declFn(&recFn{name: ok, params: []Sort{SSeqI}, ret: SBool})
		}
	}
	e := st.clone()
	okT := App(ok, SBool, c)
	var outs []Outcome
	if e.assume(Not(okT)) {
		part := x.freshTerm(types.NewSlice(types.Typ[types.Uint8]), "partial")
		outs = append(outs, Outcome{st: e, res: []Value{x.sliceOf(e, part, true), term(VI(x.extID("tag:gbkerr"), Fresh("gbkerr", SInt)))}})
	}
	if st.assume(okT) {
		outs = append(outs, Outcome{st: st, res: []Value{x.sliceOf(st, App(res, SSeqI, c), true), term(tVNil)}})
	}
	return outs
}

// tagOf gives the dynamic type of an interface value, when known.
func (x *Exec) tagOf(v *Term) string {
	tg := VTag(v)
	if tg.isInt() {
		if t := x.tagType[tg.n.Int64()]; t != nil {
			return x.P.typeKey(t)
		}
	}
	return ""
}

func (x *Exec) stream(ref *Term) *Term {
	if getFn("stream") == nil {
		declFn(&recFn{name: "stream", params: []Sort{SInt}, ret: SSeqI, elem: byteRng})
	}
	return App("stream", SSeqI, ref)
}

func extractN(s, o, n *Term) *Term {
	if n == Int(1) {
		return Unit(Nth(s, o))
	}
	return Extract(s, o, n)
}

func constHex(us []*Term) (*Term, bool) {
	if len(us)%2 != 0 {
		return nil, false
	}
	var out []byte
	for i := 0; i < len(us); i += 2 {
		if !us[i].isInt() || !us[i+1].isInt() {
			return nil, false
		}
		h, l := hv(byte(us[i].n.Int64())), hv(byte(us[i+1].n.Int64()))
		if h < 0 || l < 0 {
			return nil, false
		}
		out = append(out, byte(h*16+l))
	}
	return SeqLit(out), true
}

func hv(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// ctxValue is ctx.Value(key) over WithValue chains.
func (x *Exec) ctxValue(ctx, key *Term) *Term {
	if ctx.op == "ite" {
		return Ite(ctx.args[0], x.ctxValue(ctx.args[1], key), x.ctxValue(ctx.args[2], key))
	}
	if ctx.op == "VI" && ctx.args[0].isInt() {
		if p := ctx.args[1]; p.op == "uf" && p.name == "ctxv" {
			return Ite(Eq(p.args[1], key), p.args[2], x.ctxValue(p.args[0], key))
		}
		if ctx.args[0] == x.extID("tag:ctxbg") {
			return tVNil
		}
	}
	return App("ctxval", SVal, ctx, key)
}
