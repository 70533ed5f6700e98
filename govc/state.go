package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type VKind int

const (
	KTerm VKind = iota
	KAddr
	KSlice
	KStruct
	KFunc
)

type Value struct {
	k      VKind
	t      *Term
	addr   *Addr
	sl     *Slice
	fs     []Value // struct fields or tuple
	fn     *Closure
	mfield string // the field a map reference was loaded from
	guard  *Term  // map reference loaded from a guarded field: the guarding mutex
}

// Addr is an interior address: a heap location or an element of a region.
type Addr struct {
	key string
	ref *Term
	reg int // region id when elem
	idx *Term
	el  bool
	typ types.Type // pointee
}

type Slice struct {
	reg      int
	off, len *Term
	isnil    *Term
}

type Closure struct {
	id    int64
	fn    *ssa.Function
	binds []Value
	bound string // bound external method value
	made  *ssa.MakeClosure
}

type Region struct {
	content *Term
	fresh   bool
	homes   []home
	param   string
	maxlen  *Term // when set, an upper bound on the capacity
}

type home struct {
	key string
	ref *Term
}

// rebased: the content a shared table had when its lock was taken again.
type rebased struct {
	key      string
	ref, val *Term
	mt       types.Type
}

// Store is a persistent list of writes to one heap component.
type Store struct {
	ref, val *Term
	prev     *Store
	base     string // epoch, when prev == nil and ref == nil
}

type Event struct {
	name string
	args []Value
	res  []Value
	at   []types.Type // argument types
	rt   []types.Type // result types
	loop bool         // stands for an unknown number of events of a loop
	sub  []*Event
	pre  *State // the state of the call
	post *State // shallow snapshot after the event, for contracts over sequences
}

type State struct {
	pc      []*Term
	heap    map[string]*Store
	regions map[int]*Region
	events  []*Event
	base    string
	panic   *Term // non-nil: unwinding with this value
	x       *Exec
	checked int             // the path condition up to here is known to be feasible
	acq     map[string]bool // stores whose lock this path has taken before
	rebase  []rebased       // table contents found when a lock was taken again
}

func (s *State) clone() *State {
	n := &State{base: s.base, panic: s.panic, x: s.x, checked: s.checked}
	n.pc = append([]*Term{}, s.pc...)
	if s.acq != nil {
		n.acq = map[string]bool{}
		for k := range s.acq {
			n.acq[k] = true
		}
		n.rebase = append([]rebased{}, s.rebase...)
	}
	n.heap = make(map[string]*Store, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.regions = make(map[int]*Region, len(s.regions))
	for k, v := range s.regions {
		n.regions[k] = v
	}
	n.events = append([]*Event{}, s.events...)
	return n
}

func (s *State) assume(t *Term) bool {
	if t == tTrue {
		return true
	}
	if t.op == "and" {
		for _, a := range t.args {
			if !s.assume(a) {
				return false
			}
		}
		return true
	}
	for _, p := range s.pc {
		if p == t {
			return true
		}
		if p == Not(t) {
			s.pc = append(s.pc, tFalse)
			return false
		}
	}
	s.pc = append(s.pc, t)
	return t != tFalse
}

const (
	refMax    = 1 << 30
	initBase  = 1 << 31
	allocBase = 1 << 34
	closBase  = 1 << 44
	addrBase  = 1 << 46
	extBase   = 1 << 48
)

var refRng = mkRng(0, refMax)
var oldRng = mkRng(0, allocBase-1)
var newRng = mkRng(0, closBase-1)

type Exec struct {
	P        *Program
	specs    *Specs
	nalloc   int64
	nreg     int
	clos     map[string]*Closure
	closBy   map[int64]*Closure
	routePre map[*Term]string // prefix of a group of routes
	nclos    int64
	addrs    map[string]int64
	addrBy   map[int64]*Addr
	naddr    int64
	tags     map[string]int64
	tagType  map[int64]types.Type
	ext      map[string]int64
	keyRng   map[string]types.Type // heap key -> value type
	epoch    int
	initSt   *State
	inits    map[string]bool
	initing  bool

	v        *Verif // current verification
	depth    int
	assumed  map[string]bool // external functions treated as unspecified
	modeled  map[string]bool // external functions with a model
	disabled map[string]bool // contracts set aside
}

func newExec(P *Program, sp *Specs) *Exec {
	x := &Exec{P: P, specs: sp, clos: map[string]*Closure{}, closBy: map[int64]*Closure{}, addrs: map[string]int64{},
		addrBy: map[int64]*Addr{}, tags: map[string]int64{}, tagType: map[int64]types.Type{}, ext: map[string]int64{},
		keyRng: map[string]types.Type{}, inits: map[string]bool{}, assumed: map[string]bool{}, modeled: map[string]bool{}, disabled: map[string]bool{}}
	x.initSt = &State{heap: map[string]*Store{}, regions: map[int]*Region{}, base: "I", x: x}
	return x
}

type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// ---- types ----

var objTypes = map[string]bool{"sync.Mutex": true, "sync.RWMutex": true, "sync.Once": true, "sync.WaitGroup": true,
	"strings.Builder": true, "bytes.Buffer": true}

func (x *Exec) isObj(t types.Type) bool { return objTypes[x.P.typeKey(t)] }

// isRefStruct: structs whose address is a reference and whose fields live in
// their own heap components.
func (x *Exec) isRefStruct(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return false
	}
	if n, ok := t.(*types.Named); ok && !x.P.inRepo(n.Obj().Pkg()) {
		return false
	}
	return true
}

func (x *Exec) hasRef(t types.Type) bool { return x.isRefStruct(t) || x.isObj(t) }

func (x *Exec) flatSize(t types.Type) int64 {
	if !x.isRefStruct(t) {
		return 1
	}
	st := t.Underlying().(*types.Struct)
	n := int64(1)
	for i := 0; i < st.NumFields(); i++ {
		n += x.flatSize(st.Field(i).Type())
	}
	return n
}

func (x *Exec) fieldOff(st *types.Struct, i int) int64 {
	n := int64(1)
	for k := 0; k < i; k++ {
		n += x.flatSize(st.Field(k).Type())
	}
	return n
}

func (x *Exec) sortOf(t types.Type) Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UntypedNil:
			return SVal
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SSeqI
		}
		return SInt
	case *types.Slice:
		return x.seqSort(u.Elem())
	case *types.Array:
		return x.seqSort(u.Elem())
	case *types.Interface:
		return SVal
	}
	return SInt
}

func (x *Exec) seqSort(el types.Type) Sort {
	switch x.sortOf(el) {
	case SInt:
		return SSeqI // structs are kept as references to objects of their own
	case SVal:
		return SSeqV
	case SSeqI:
		if b, ok := el.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return SSeqV // strings are kept boxed
		}
	}
	unsup("slice of %s", el)
	return ""
}

func (x *Exec) elRng(t types.Type) *rng {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return x.valRng(u.Elem())
	case *types.Array:
		return x.valRng(u.Elem())
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return byteRng
		}
	}
	return nil
}

func (x *Exec) valRng(t types.Type) *rng {
	if r := typeRng(t); r != nil {
		return r
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		if x.P.singleTypes[x.P.typeKey(t)] {
			return oldRng // may be the object its package keeps
		}
		return refRng
	}
	return nil
}

func (x *Exec) tag(t types.Type) *Term {
	k := x.P.typeKey(t)
	id, ok := x.tags[k]
	if !ok {
		id = int64(len(x.tags) + 1)
		x.tags[k] = id
		x.tagType[id] = t
	}
	return Int(id)
}

// extID: a constant naming an external opaque thing.
func (x *Exec) extID(name string) *Term {
	id, ok := x.ext[name]
	if !ok {
		id = extBase + int64(len(x.ext))
		x.ext[name] = id
	}
	return Int(id)
}

// ---- values ----

func term(t *Term) Value { return Value{k: KTerm, t: t} }

func (x *Exec) newRegion(st *State, content *Term, fresh bool) int {
	x.nreg++
	st.regions[x.nreg] = &Region{content: content, fresh: fresh}
	return x.nreg
}

func (x *Exec) sliceOf(st *State, content *Term, fresh bool) Value {
	r := x.newRegion(st, content, fresh)
	return Value{k: KSlice, sl: &Slice{reg: r, off: Int(0), len: Len(content), isnil: tFalse}}
}

func (st *State) content(s *Slice) *Term {
	r := st.regions[s.reg]
	if r == nil {
		unsup("dangling region")
	}
	return Extract(r.content, s.off, s.len)
}

func isSliceT(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }
func isArrayT(t types.Type) bool { _, ok := t.Underlying().(*types.Array); return ok }

// fromTerm wraps a logical term as a value of type t.
func (x *Exec) fromTerm(st *State, t types.Type, v *Term) Value {
	if isSliceT(t) {
		s := x.sliceOf(st, v, false)
		if v == emptyOf(v.sort) || units(v) != nil {
			s.sl.isnil = Bool(false)
			if v == emptyOf(v.sort) {
				s.sl.isnil = App("nilslice", SBool, v)
			}
		} else {
			s.sl.isnil = And(Eq(Len(v), Int(0)), App("nilslice", SBool, v))
		}
		return s
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && v.sort == SVal {
		return term(VStr(v))
	}
	if v.isInt() {
		n := v.n.Int64()
		if _, ok := t.Underlying().(*types.Signature); ok {
			if c := x.closBy[n]; c != nil {
				return Value{k: KFunc, fn: c, t: v}
			}
		}
		if _, ok := t.Underlying().(*types.Pointer); ok {
			if a := x.addrBy[n]; a != nil {
				return Value{k: KAddr, addr: a}
			}
		}
	}
	return term(v)
}

func (x *Exec) closTerm(c *Closure) *Term { return Int(closBase + c.id) }

func (x *Exec) mkClosure(fn *ssa.Function, binds []Value) Value {
	if len(binds) == 0 {
		k := fn.String()
		if c := x.clos[k]; c != nil {
			return Value{k: KFunc, fn: c}
		}
		x.nclos++
		c := &Closure{id: x.nclos, fn: fn}
		x.clos[k] = c
		x.closBy[closBase+c.id] = c
		return Value{k: KFunc, fn: c}
	}
	x.nclos++
	c := &Closure{id: x.nclos, fn: fn, binds: binds}
	x.closBy[closBase+c.id] = c
	return Value{k: KFunc, fn: c}
}

// toTerm turns a value into the term stored in the heap or an interface.
func (x *Exec) toTerm(st *State, v Value) *Term {
	switch v.k {
	case KTerm:
		return v.t
	case KSlice:
		return st.content(v.sl)
	case KFunc:
		return x.closTerm(v.fn)
	case KAddr:
		k := fmt.Sprintf("%s|%v|%d|%v|%v", v.addr.key, v.addr.ref, v.addr.reg, v.addr.idx, v.addr.el)
		id, ok := x.addrs[k]
		if !ok {
			x.naddr++
			id = addrBase + x.naddr
			x.addrs[k] = id
			x.addrBy[id] = v.addr
		}
		return Int(id)
	}
	unsup("aggregate value as a term")
	return nil
}

func (x *Exec) zero(st *State, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if x.isRefStruct(t) {
			fs := make([]Value, u.NumFields())
			for i := range fs {
				fs[i] = x.zero(st, u.Field(i).Type())
			}
			return Value{k: KStruct, fs: fs}
		}
		return term(x.extID("zero:" + x.P.typeKey(t)))
	case *types.Slice:
		s := x.sliceOf(st, emptyOf(x.seqSort(u.Elem())), true)
		s.sl.isnil = tTrue
		return s
	case *types.Array:
		var us []*Term
		z := x.elemTerm(x.toTerm(st, x.zero(st, u.Elem())))
		for i := int64(0); i < u.Len(); i++ {
			us = append(us, Unit(z))
		}
		return term(Concat(x.seqSort(u.Elem()), us...))
	case *types.Tuple:
		fs := make([]Value, u.Len())
		for i := range fs {
			fs[i] = x.zero(st, u.At(i).Type())
		}
		return Value{k: KStruct, fs: fs}
	case *types.Basic:
		if u.Info()&types.IsFloat != 0 {
			return term(fconst("0"))
		}
	}
	return term(zeroOfSort(x.sortOf(t)))
}

func fconst(s string) *Term { return App("fconst:"+s, SInt) }

// fresh makes an arbitrary value of type t (well-typed).
func (x *Exec) fresh(st *State, t types.Type, hint string) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if x.isRefStruct(t) {
			fs := make([]Value, u.NumFields())
			for i := range fs {
				fs[i] = x.fresh(st, u.Field(i).Type(), hint+"."+u.Field(i).Name())
			}
			return Value{k: KStruct, fs: fs}
		}
	case *types.Tuple:
		fs := make([]Value, u.Len())
		for i := range fs {
			fs[i] = x.fresh(st, u.At(i).Type(), fmt.Sprintf("%s.%d", hint, i))
		}
		return Value{k: KStruct, fs: fs}
	}
	s := Fresh(hint, x.sortOf(t))
	setRng(s, x.valRng(t))
	if s.sort == SSeqI {
		setElem(s, x.elRng(t))
	}
	return x.fromTerm(st, t, s)
}

func (x *Exec) alloc() *Term {
	x.nalloc++
	if x.initing {
		return Int(initBase + 1024*x.nalloc)
	}
	return Int(allocBase + 1024*x.nalloc)
}

// ---- heap ----

func (x *Exec) baseLoad(st *State, key string, base string, ref *Term, t types.Type) *Term {
	x.keyRng[key] = t
	name := base + ":" + key
	srt := x.sortOf(t)
	if getFn(name) == nil {
		d := &recFn{name: name, params: []Sort{SInt}, ret: srt}
		d.rng = x.valRng(t)
		if srt == SSeqI {
			d.elem = x.elRng(t)
		}
		if key == "S:pos" { // a reader is never beyond the end of its stream
			d.facts = func(a []*Term) []*Term {
				p := mk("uf", srt, name, nil, a...)
				return []*Term{And(Le(Int(0), p), Le(p, Len(x.stream(a[0]))))}
			}
		}
		declFn(d)
	}
	return App(name, srt, ref)
}

func (x *Exec) loadLoc(st *State, key string, ref *Term, t types.Type) *Term {
	return x.loadChain(st, st.heap[key], key, ref, t)
}

func (x *Exec) loadChain(st *State, n *Store, key string, ref *Term, t types.Type) *Term {
	if ref.op == "ite" {
		// distribute over a choice of objects
		if ref.args[1].isInt() || ref.args[2].isInt() {
			return Ite(ref.args[0], x.loadChain(st, n, key, ref.args[1], t), x.loadChain(st, n, key, ref.args[2], t))
		}
	}
	base := st.base
	if x.P.fixed(key) {
		base = "0"
	}
	type pend struct{ c, v *Term }
	var ps []pend
	var res *Term
	for ; n != nil; n = n.prev {
		if n.ref == nil {
			base = n.base
			break
		}
		c := Eq(n.ref, ref)
		if c == tFalse {
			continue
		}
		if c == tTrue {
			res = n.val
			break
		}
		ps = append(ps, pend{c, n.val})
	}
	if res == nil {
		// objects built by package initialisation
		if key == "L:held" || key == "L:rheld" {
			res = tFalse // nothing is held when a function starts
		} else if ref.isInt() && ref.n.Int64() >= initBase && ref.n.Int64() < allocBase && st != x.initSt && !x.P.mutKeys[key] {
			res = x.loadChain(x.initSt, x.initSt.heap[key], key, ref, t)
		} else {
			if strings.HasPrefix(key, "L:g:") {
				base = "0" // only contracts change ghost variables
			}
			res = x.baseLoad(st, key, base, ref, t)
		}
	}
	for i := len(ps) - 1; i >= 0; i-- {
		res = Ite(ps[i].c, ps[i].v, res)
	}
	return res
}

func (x *Exec) storeLoc(st *State, key string, ref, val *Term, t types.Type) {
	x.keyRng[key] = t
	st.heap[key] = &Store{ref: ref, val: val, prev: st.heap[key]}
}

// map contents
func (x *Exec) mapSig(t types.Type) string {
	m := t.Underlying().(*types.Map)
	return string(x.sortOf(m.Key())) + "=>" + string(x.sortOf(m.Elem())) + "|" + x.P.typeKey(m)
}

func (x *Exec) mapKey(t types.Type) string { return "M:" + x.P.typeKey(t.Underlying()) }

func (x *Exec) loadMap(st *State, mt types.Type, ref *Term) *Term {
	key := x.mapKey(mt)
	x.keyRng[key] = mt
	n := st.heap[key]
	return x.loadMapChain(st, n, key, ref, mt)
}

func (x *Exec) loadMapChain(st *State, n *Store, key string, ref *Term, mt types.Type) *Term {
	base := st.base
	type pend struct{ c, v *Term }
	var ps []pend
	var res *Term
	for ; n != nil; n = n.prev {
		if n.ref == nil {
			base = n.base
			break
		}
		c := Eq(n.ref, ref)
		if c == tFalse {
			continue
		}
		if c == tTrue {
			res = n.val
			break
		}
		ps = append(ps, pend{c, n.val})
	}
	if res == nil {
		if key == "L:held" || key == "L:rheld" {
			res = tFalse // nothing is held when a function starts
		} else if ref.isInt() && ref.n.Int64() >= initBase && ref.n.Int64() < allocBase && st != x.initSt && !x.P.mutKeys[key] {
			res = x.loadMapChain(x.initSt, x.initSt.heap[key], key, ref, mt)
		} else {
			res = x.mapBase(App(base+":"+key, SInt, ref), mt)
		}
	}
	for i := len(ps) - 1; i >= 0; i-- {
		res = MapIte(ps[i].c, ps[i].v, res)
	}
	return res
}

// mapBase: an arbitrary map content named by id.
func (x *Exec) mapBase(id *Term, mt types.Type) *Term {
	sig := x.mapSig(mt)
	m := mt.Underlying().(*types.Map)
	vn := "mget_" + sanitize(sig)
	if getFn(vn) == nil {
		vs := x.sortOf(m.Elem())
		d := &recFn{name: vn, params: []Sort{SInt, x.sortOf(m.Key())}, ret: vs, rng: x.valRng(m.Elem())}
		if vs == SSeqI {
			d.elem = x.elRng(m.Elem())
		}
		hn := "mhas_" + sanitize(sig)
		// absent keys read as the zero value
		d.facts = func(a []*Term) []*Term {
			return []*Term{Or(App(hn, SBool, a...), Eq(mk("uf", vs, vn, nil, a...), zeroOfSort(vs)))}
		}
		declFn(d)
	}
	return MapBase(id, sig)
}

func (x *Exec) havocKey(st *State, key string) {
	x.epoch++
	st.heap[key] = &Store{base: fmt.Sprintf("E%d", x.epoch)}
}

func (x *Exec) havocAll(st *State) {
	x.epoch++
	keep := map[string]*Store{}
	for k, s := range st.heap {
		if strings.HasPrefix(k, "L:") || x.P.fixed(k) {
			keep[k] = s // lock ownership is thread-local; fields set once keep their value
		}
	}
	st.heap = keep
	st.base = fmt.Sprintf("E%d", x.epoch)
}

// ---- addressed loads and stores ----

// load reads the value of type t at pointer p.
func (x *Exec) load(st *State, p Value, t types.Type) Value {
	if p.k == KAddr {
		a := p.addr
		if a.el {
			r := st.regions[a.reg]
			return x.fromTerm(st, t, Nth(r.content, a.idx))
		}
		if isSliceT(t) {
			return x.loadSlice(st, a.key, a.ref, t)
		}
		v := x.fromTerm(st, t, x.loadLoc(st, a.key, a.ref, t))
		return v
	}
	ref := p.t
	if x.isRefStruct(t) {
		u := t.Underlying().(*types.Struct)
		fs := make([]Value, u.NumFields())
		for i := range fs {
			fs[i] = x.load(st, x.fieldAddr(st, p, t, i), u.Field(i).Type())
		}
		return Value{k: KStruct, fs: fs}
	}
	if isArrayT(t) {
		if at := t.Underlying().(*types.Array); x.isRefStruct(at.Elem()) {
			r := x.arrayRegion(st, ref, t)
			fs := make([]Value, at.Len())
			for i := range fs {
				fs[i] = x.load(st, x.structElem(st, r, Int(int64(i))), at.Elem())
			}
			return Value{k: KStruct, fs: fs}
		}
		return term(st.regions[x.arrayRegion(st, ref, t)].content)
	}
	key := "C:" + x.P.typeKey(t)
	if isSliceT(t) {
		return x.loadSlice(st, key, ref, t)
	}
	return x.fromTerm(st, t, x.loadLoc(st, key, ref, t))
}

// loadSlice gives the slice held at a heap location a region that remembers
// its home, so that element writes through it are seen there.
func (x *Exec) loadSlice(st *State, key string, ref *Term, t types.Type) Value {
	c := x.loadLoc(st, key, ref, t)
	// an existing region with this home and this content
	for id, r := range st.regions {
		for _, h := range r.homes {
			if h.key == key && h.ref == ref && r.content == c {
				v := x.fromTerm(st, t, c)
				delete(st.regions, v.sl.reg)
				v.sl.reg = id
				return v
			}
		}
	}
	v := x.fromTerm(st, t, c)
	nr := *st.regions[v.sl.reg]
	nr.homes = []home{{key, ref}}
	st.regions[v.sl.reg] = &nr
	return v
}

func (x *Exec) store(st *State, p Value, t types.Type, v Value) {
	if p.k == KAddr {
		a := p.addr
		if a.el {
			x.storeElem(st, a.reg, a.idx, x.toTerm(st, v))
			return
		}
		x.storeLoc(st, a.key, a.ref, x.toTerm(st, v), t)
		x.escape(st, v, a.key, a.ref)
		return
	}
	ref := p.t
	if x.isRefStruct(t) {
		u := t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			x.store(st, x.fieldAddr(st, p, t, i), u.Field(i).Type(), v.fs[i])
		}
		return
	}
	if x.isObj(t) {
		return // zeroing of a synchronisation object
	}
	if isArrayT(t) {
		if at := t.Underlying().(*types.Array); x.isRefStruct(at.Elem()) {
			if v.k != KStruct {
				unsup("array of struct values as a value")
			}
			r := x.arrayRegion(st, ref, t)
			for i, e := range v.fs {
				x.store(st, x.structElem(st, r, Int(int64(i))), at.Elem(), e)
			}
			return
		}
		r := x.arrayRegion(st, ref, t)
		nr := *st.regions[r]
		nr.content = v.t
		st.regions[r] = &nr
		return
	}
	key := "C:" + x.P.typeKey(t)
	x.storeLoc(st, key, ref, x.toTerm(st, v), t)
	x.escape(st, v, key, ref)
}

func (x *Exec) escape(st *State, v Value, key string, ref *Term) {
	if v.k != KSlice {
		return
	}
	r := st.regions[v.sl.reg]
	if v.sl.off != Int(0) || v.sl.len != Len(r.content) {
		// a window: later element writes through either name are not tracked
		nr := *r
		nr.fresh = false
		st.regions[v.sl.reg] = &nr
		return
	}
	nr := *r
	nr.homes = append(append([]home{}, r.homes...), home{key, ref})
	st.regions[v.sl.reg] = &nr
}

// elemTerm: the term that stands for a value inside a sequence.
func (x *Exec) elemTerm(v *Term) *Term {
	if v.sort == SSeqI {
		return VS(x.tag(types.Typ[types.String]), v)
	}
	return v
}

func (x *Exec) storeElem(st *State, reg int, idx, v *Term) {
	r := *st.regions[reg]
	old := r.content
	r.content = SeqUpdate(r.content, idx, x.elemTerm(v))
	for _, h := range r.homes {
		t := x.keyRng[h.key]
		if x.loadLoc(st, h.key, h.ref, t) == old {
			x.storeLoc(st, h.key, h.ref, r.content, t)
		}
	}
	st.regions[reg] = &r
}

var arrRegs = map[string]int{}

func (x *Exec) arrayRegion(st *State, ref *Term, t types.Type) int {
	k := fmt.Sprintf("%s@%d", x.P.typeKey(t), ref.id)
	if r, ok := arrRegs[k]; ok {
		if st.regions[r] != nil {
			return r
		}
	}
	if !ref.isInt() {
		unsup("pointer to array from outside")
	}
	r := x.newRegion(st, x.zero(st, t).t, true)
	arrRegs[k] = r
	return r
}

func (x *Exec) fieldKey(T types.Type, i int) string {
	st := T.Underlying().(*types.Struct)
	return "F:" + x.P.typeKey(T) + "." + st.Field(i).Name()
}

// fieldAddr: address of field i of the struct of type T at p.
func (x *Exec) fieldAddr(st *State, p Value, T types.Type, i int) Value {
	u := T.Underlying().(*types.Struct)
	ft := u.Field(i).Type()
	if p.k == KAddr {
		unsup("field of interior address")
	}
	if x.hasRef(ft) {
		return term(Add(p.t, Int(x.fieldOff(u, i))))
	}
	if isArrayT(ft) {
		unsup("array field")
	}
	return Value{k: KAddr, addr: &Addr{key: x.fieldKey(T, i), ref: p.t, typ: ft}}
}

// box / unbox interface values
func (x *Exec) box(st *State, t types.Type, v Value) *Term {
	if types.IsInterface(t) {
		return v.t
	}
	tag := x.tag(t)
	if v.k == KStruct {
		if len(v.fs) == 0 {
			return VI(tag, Int(0))
		}
		var ts []*Term
		for _, f := range v.fs {
			if f.k == KStruct {
				return VI(tag, Fresh("boxed", SInt))
			}
			ts = append(ts, x.toTerm(st, f))
		}
		return VI(tag, App("box:"+x.P.typeKey(t), SInt, ts...))
	}
	tm := x.toTerm(st, v)
	switch tm.sort {
	case SInt:
		return VI(tag, tm)
	case SBool:
		return VI(tag, Ite(tm, Int(1), Int(0)))
	case SSeqI:
		return VS(tag, tm)
	}
	return VI(tag, Fresh("boxed", SInt))
}

func (x *Exec) unbox(st *State, t types.Type, v *Term) Value {
	if types.IsInterface(t) {
		return term(v)
	}
	if x.isRefStruct(t) {
		u := t.Underlying().(*types.Struct)
		if u.NumFields() == 0 {
			return Value{k: KStruct}
		}
		if i := VInt(v); i.op == "uf" && i.name == "box:"+x.P.typeKey(t) {
			fs := make([]Value, u.NumFields())
			for k := range fs {
				fs[k] = x.fromTerm(st, u.Field(k).Type(), i.args[k])
			}
			return Value{k: KStruct, fs: fs}
		}
		return x.fresh(st, t, "unboxed")
	}
	switch x.sortOf(t) {
	case SInt:
		i := VInt(v)
		if r := x.valRng(t); r != nil && !i.isInt() && !(r.lo != nil && r.hi != nil && within(i, r.lo, r.hi)) {
			if (x.valRng(t) == refRng || x.valRng(t) == oldRng) && i.op != "vi" {
				// an allocated object: no input range
			} else {
				st.assume(Le(BigInt(r.lo), i))
				st.assume(Le(i, BigInt(r.hi)))
			}
		}
		return x.fromTerm(st, t, i)
	case SBool:
		return term(Eq(VInt(v), Int(1)))
	case SSeqI:
		return x.fromTerm(st, t, VStr(v))
	}
	return x.fresh(st, t, "unboxed")
}

func (x *Exec) constVal(st *State, c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return x.zero(st, t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return term(Bool(constant.BoolVal(c.Value)))
		case u.Info()&types.IsString != 0:
			return term(StrLit(constant.StringVal(c.Value)))
		case u.Info()&types.IsInteger != 0:
			n, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			return term(BigInt(n))
		case u.Info()&types.IsFloat != 0:
			return term(fconst(c.Value.ExactString()))
		}
	}
	unsup("constant %v", c)
	return Value{}
}
