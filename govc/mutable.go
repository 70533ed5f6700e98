package main

// What can change at run time: fields and map types written outside package
// initialisation, and the singletons a sync.Once initialises.
//
// A singleton is a global that is written only by the one function literal given
// to the Do of one sync.Once (used nowhere else) and read only after that Do in
// the same function (or by a function named in a `singleton` declaration).  Such
// a literal is treated as part of package initialisation: since nothing can read
// the global earlier, when exactly it runs cannot be observed.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Single struct {
	glob   *ssa.Global
	once   *ssa.Global
	lit    *ssa.Function
	getter *ssa.Function
	reads  []string // functions that read it without calling Do
	bad    string   // why it does not count as a singleton
}

func isInitFn(fn *ssa.Function) bool {
	return fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
}

func (P *Program) analyseMutation(allowed map[string][]string) {
	P.singles = map[*ssa.Global]*Single{}
	P.onces = map[*ssa.Global]bool{}
	P.mutKeys = map[string]bool{}
	P.mutBy = map[string]map[string]bool{}
	var fns []*ssa.Function
	for _, k := range sortedKeys(P.funcs) {
		fns = append(fns, P.funcs[k])
	}
	onceUses := map[*ssa.Global]int{}
	type do struct {
		once *ssa.Global
		lit  *ssa.Function
		call *ssa.Call
		fn   *ssa.Function
	}
	var dos []do
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && op != nil && P.typeKey(g.Type()) == "*sync.Once" {
						onceUses[g]++
					}
				}
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "(*sync.Once).Do" {
					continue
				}
				g, ok := c.Call.Args[0].(*ssa.Global)
				if !ok {
					continue
				}
				var lit *ssa.Function
				switch a := c.Call.Args[1].(type) {
				case *ssa.Function:
					lit = a
				case *ssa.MakeClosure:
					if len(a.Bindings) == 0 {
						lit = a.Fn.(*ssa.Function)
					}
				}
				if lit != nil && len(lit.Blocks) > 0 {
					dos = append(dos, do{g, lit, c, fn})
				}
			}
		}
	}
	for _, d := range dos {
		if onceUses[d.once] != 1 {
			continue
		}
		ok := true
		var mine []*Single
		for _, b := range d.lit.Blocks {
			for _, in := range b.Instrs {
				s, is := in.(*ssa.Store)
				if !is {
					continue
				}
				g, is := s.Addr.(*ssa.Global)
				if !is || P.singles[g] != nil {
					continue
				}
				one := &Single{glob: g, once: d.once, lit: d.lit, getter: d.fn}
				for _, fn := range fns {
					for _, b := range fn.Blocks {
						for i, in := range b.Instrs {
							for _, op := range in.Operands(nil) {
								if op == nil || *op != ssa.Value(g) {
									continue
								}
								switch v := in.(type) {
								case *ssa.Store:
									if v.Addr != ssa.Value(g) || fn != d.lit && !isInitFn(fn) {
										one.bad = "written in " + P.key(fn)
									}
								case *ssa.UnOp:
									if fn == d.lit {
										break
									}
									after := fn == d.fn && (d.call.Block() != b && d.call.Block().Dominates(b) || d.call.Block() == b && indexOf(b, d.call) < i)
									if !after {
										k := P.key(fn)
										has := false
										for _, a := range allowed[P.globName(g)] {
											has = has || a == k
										}
										if !has {
											one.bad = "read without Do in " + k
										}
										one.reads = append(one.reads, k)
									}
								default:
									one.bad = "address taken in " + P.key(fn)
								}
							}
						}
					}
				}
				mine = append(mine, one)
				if one.bad != "" {
					ok = false
				}
			}
		}
		for _, s := range mine {
			if ok {
				P.singles[s.glob] = s
				P.globals[s.glob] = false
				P.onces[d.once] = true
			} else {
				P.notes = append(P.notes, fmt.Sprintf("%s is not a singleton: %s", P.globName(s.glob), s.bad))
			}
		}
	}
	// functions that run during initialisation only
	initOnly := map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	P.callers = callers
	escapes := map[*ssa.Function]bool{}
	P.escapes = escapes
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				if c, ok := in.(*ssa.Call); ok {
					callee = c.Call.StaticCallee()
					if callee != nil {
						callers[callee] = append(callers[callee], fn)
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						if c, isCall := in.(*ssa.Call); isCall && op == &c.Call.Value && callee == g {
							continue
						}
						escapes[g] = true
					}
				}
			}
		}
	}
	for _, fn := range fns {
		if isInitFn(fn) {
			initOnly[fn] = true
		}
	}
	P.singleTypes = map[string]bool{}
	for g, s := range P.singles {
		initOnly[s.lit] = true
		P.singleTypes[P.typeKey(g.Type().Underlying().(*types.Pointer).Elem())] = true
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range fns {
			if initOnly[fn] || escapes[fn] || len(callers[fn]) == 0 {
				continue
			}
			all := true
			for _, c := range callers[fn] {
				all = all && initOnly[c]
			}
			if all {
				initOnly[fn] = true
				changed = true
			}
		}
	}
	local := func(v ssa.Value) bool { _, ok := v.(*ssa.Alloc); return ok }
	for _, fn := range fns {
		if initOnly[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch v := in.(type) {
				case *ssa.MapUpdate:
					P.mutKeys["M:"+P.typeKey(v.Map.Type().Underlying())] = true
				case *ssa.Call:
					if bi, ok := v.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						P.mutKeys["M:"+P.typeKey(v.Call.Args[0].Type().Underlying())] = true
					}
				case *ssa.FieldAddr:
					if local(v.X) {
						continue
					}
					T := v.X.Type().Underlying().(*types.Pointer).Elem()
					key := "F:" + P.typeKey(T) + "." + T.Underlying().(*types.Struct).Field(v.Field).Name()
					if _, nested := T.Underlying().(*types.Struct).Field(v.Field).Type().Underlying().(*types.Struct); nested {
						continue
					}
					for _, r := range *v.Referrers() {
						switch u := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
							continue
						case *ssa.Call:
							if c := u.Call.StaticCallee(); c != nil && strings.HasPrefix(c.String(), "sync/atomic.Load") {
								continue
							}
						}
						P.mutKeys[key] = true
						P.by(key, fn)
					}
				case *ssa.Store:
					if local(v.Addr) {
						continue
					}
					P.mutAll(v.Val.Type(), fn)
				}
				// pointers to structs handed to code outside the repository
				if c, ok := in.(ssa.CallInstruction); ok {
					if callee := c.Common().StaticCallee(); callee != nil && callee.Pkg != nil && !P.inRepo(callee.Pkg.Pkg) && callee.String() != "(*sync.Once).Do" {
						for i, a := range c.Common().Args {
							if p, ok := a.Type().Underlying().(*types.Pointer); ok && P.ownType(p.Elem()) {
								P.mutAll(p.Elem(), fn)
							}
							if mi, ok := a.(*ssa.MakeInterface); ok && !(i == 0 && callee.Pkg.Pkg.Path() == "github.com/mitchellh/mapstructure") && !(readsOnly(callee.Pkg.Pkg.Path()) && !strings.Contains(callee.Name(), "Unmarshal")) {
								if p, ok := mi.X.Type().Underlying().(*types.Pointer); ok && P.ownType(p.Elem()) {
									P.mutAll(p.Elem(), fn)
								}
							}
						}
					}
				}
			}
		}
	}
}

// fixed: a struct field that is only ever set while its object is being built.
func (P *Program) fixed(key string) bool {
	return strings.HasPrefix(key, "F:") && P.mutKeys != nil && !P.mutKeys[key]
}

// readsOnly: libraries that do not write through the values they are given.
func readsOnly(path string) bool {
	switch path {
	case "fmt", "context", "errors", "github.com/pkg/errors", "reflect", "encoding/json":
		return true
	}
	return strings.HasPrefix(path, "github.com/rs/zerolog")
}

func (P *Program) ownType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && P.inRepo(n.Obj().Pkg())
}

func (P *Program) mutAll(t types.Type, fn *ssa.Function) {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < u.NumFields(); i++ {
		P.mutKeys["F:"+P.typeKey(t)+"."+u.Field(i).Name()] = true
		P.by("F:"+P.typeKey(t)+"."+u.Field(i).Name(), fn)
		P.mutAll(u.Field(i).Type(), fn)
	}
}

func (P *Program) globName(g *ssa.Global) string {
	return shortPkg(g.Pkg.Pkg.Path(), P.module) + "." + g.Name()
}

func indexOf(b *ssa.BasicBlock, in ssa.Instruction) int {
	for i, x := range b.Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// mayLock: the function can reach a mutex Lock.
func (P *Program) mayLock(fn *ssa.Function) bool {
	if P.locks == nil {
		P.locks = map[*ssa.Function]bool{}
		refs := map[*ssa.Function][]*ssa.Function{}
		var all []*ssa.Function
		for _, f := range P.funcs {
			all = append(all, f)
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, isCall := in.(ssa.CallInstruction)
					if isCall {
						if c.Common().IsInvoke() {
							if it, ok := c.Common().Value.Type().Underlying().(*types.Interface); ok {
								for _, t := range P.implementers(it) {
									if m := P.prog.LookupMethod(t, c.Common().Method.Pkg(), c.Common().Method.Name()); m != nil {
										refs[f] = append(refs[f], m)
									}
								}
							}
						} else if c.Common().StaticCallee() == nil {
							if _, ok := c.Common().Value.(*ssa.Builtin); !ok {
								P.locks[f] = true // unknown function value
							}
						} else if s := c.Common().StaticCallee().String(); strings.HasPrefix(s, "(*sync.") && strings.HasSuffix(s, "Lock") {
							P.locks[f] = true
						}
					}
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok {
							refs[f] = append(refs[f], g)
						}
					}
				}
			}
		}
		sort.Slice(all, func(i, j int) bool { return all[i].Pos() < all[j].Pos() })
		for changed := true; changed; {
			changed = false
			for _, f := range all {
				if P.locks[f] {
					continue
				}
				for _, g := range refs[f] {
					if P.locks[g] {
						P.locks[f] = true
						changed = true
						break
					}
				}
			}
		}
	}
	return P.locks[fn]
}

func (P *Program) by(key string, fn *ssa.Function) {
	if P.mutBy[key] == nil {
		P.mutBy[key] = map[string]bool{}
	}
	P.mutBy[key][P.key(fn)] = true
}
