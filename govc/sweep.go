package main

// Completeness of the lock discipline: every function that can reach a guarded
// table is verified, also those no contract was written for.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// touchers: repo functions with an instruction that addresses a guarded field.
func (x *Exec) touchers() []*ssa.Function {
	var out []*ssa.Function
	fields := map[string]bool{}
	for f, m := range x.specs.guards {
		fields[f] = true
		tk := f[:strings.LastIndexByte(f, '.')]
		if n, k := x.P.mutexField(tk, m); n != nil {
			m = n.Underlying().(*types.Struct).Field(k).Name()
		}
		fields[tk+"."+m] = true
	}
	for _, fn := range x.P.funcs {
		if fn.Synthetic != "" || fn.Pkg == nil {
			continue
		}
		hit := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var T types.Type
				var i int
				switch v := in.(type) {
				case *ssa.FieldAddr:
					T, i = v.X.Type().Underlying().(*types.Pointer).Elem(), v.Field
				case *ssa.Field:
					T, i = v.X.Type(), v.Field
				default:
					continue
				}
				n, ok := T.(*types.Named)
				if !ok {
					continue
				}
				f := n.Underlying().(*types.Struct).Field(i)
				if fields[x.P.typeKey(n)+"."+f.Name()] {
					// filling in a new table inside its constructor is no access
					hit = hit || !onlyInit(in)
				}
			}
		}
		if hit {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return x.P.key(out[i]) < x.P.key(out[j]) })
	return out
}

// onlyInit: the address is only used to store into a struct allocated here.
func onlyInit(in ssa.Instruction) bool {
	fa, ok := in.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	if _, ok := fa.X.(*ssa.Alloc); !ok {
		return false
	}
	for _, r := range *fa.Referrers() {
		if s, ok := r.(*ssa.Store); !ok || s.Addr != fa {
			return false
		}
	}
	return true
}

// tops: the functions through which fn can be entered with no lock held: itself
// if it is exported or used as a value, otherwise its callers' tops.
func (x *Exec) tops(fn *ssa.Function, seen map[*ssa.Function]bool) []*ssa.Function {
	if seen[fn] {
		return nil
	}
	seen[fn] = true
	calls, escapes := x.P.callSites(fn)
	if escapes || exported(fn) || fn.Name() == "init" || fn.Name() == "main" {
		return []*ssa.Function{fn}
	}
	var out []*ssa.Function
	for _, c := range calls {
		out = append(out, x.tops(c, seen)...)
	}
	return out
}

func exported(fn *ssa.Function) bool {
	o := fn.Object()
	return o != nil && o.Exported()
}

// callSites: the functions that call fn, and whether fn is used as a value or
// reachable through an interface.
func (P *Program) callSites(fn *ssa.Function) (out []*ssa.Function, escapes bool) {
	if P.callersOf == nil {
		P.callersOf = map[*ssa.Function][]*ssa.Function{}
		P.asValue = map[*ssa.Function]bool{}
		keys := sortedKeys(P.funcs)
		for _, k := range keys {
			f := P.funcs[k]
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var callee *ssa.Function
					if c, ok := in.(ssa.CallInstruction); ok {
						callee = c.Common().StaticCallee()
						if callee != nil {
							P.callersOf[callee] = append(P.callersOf[callee], f)
							if _, isGo := in.(*ssa.Go); isGo {
								P.asValue[callee] = true
							}
						}
					}
					for i, op := range in.Operands(nil) {
						g, ok := (*op).(*ssa.Function)
						if !ok {
							continue
						}
						if _, isCall := in.(ssa.CallInstruction); isCall && i == 0 && g == callee {
							continue
						}
						if mc, ok := in.(*ssa.MakeClosure); ok {
							// a closure that is called in place is part of its function
							inPlace := true
							for _, r := range *mc.Referrers() {
								c, ok := r.(ssa.CallInstruction)
								_, isGo := r.(*ssa.Go)
								if !ok || isGo || c.Common().Value != mc {
									inPlace = false
								}
							}
							if inPlace {
								P.callersOf[g] = append(P.callersOf[g], f)
								continue
							}
						}
						P.asValue[g] = true
					}
				}
			}
		}
	}
	return P.callersOf[fn], P.asValue[fn]
}

// sweep adds contracts for the functions no written contract covers; they say
// nothing but let the lock obligations of the body be generated.
func (c *checker) sweep() []string {
	x := c.x
	done := map[string]bool{}
	for k, r := range c.results {
		if r.missing {
			continue
		}
		done[k] = true
		for i := range r.v.inlined {
			done[i] = true
		}
	}
	add := map[string]bool{}
	for _, fn := range x.touchers() {
		for _, t := range x.tops(fn, map[*ssa.Function]bool{}) {
			k := x.P.key(t)
			if !done[k] && !add[k] {
				add[k] = true
				x.autoContract(k, t)
			}
		}
	}
	return sortedKeys(add)
}

// sweepGo: the functions that start a goroutine and have no contract.
func (c *checker) sweepGo() []string {
	x := c.x
	add := map[string]bool{}
	for _, fn := range x.P.funcs {
		if fn.Synthetic != "" || fn.Pkg == nil {
			continue
		}
		k := x.P.key(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok && c.results[k] == nil && !add[k] {
					add[k] = true
					x.autoContract(k, fn)
				}
			}
		}
	}
	return sortedKeys(add)
}

// autoContract says nothing about the function; verifying it generates the
// obligations inside its body.
func (x *Exec) autoContract(k string, t *ssa.Function) {
	con := &Contract{key: k, props: map[string]bool{}, nilable: map[string]bool{}, may: true, file: "(generated)", auto: true}
	for i := range t.Params {
		con.params = append(con.params, fmt.Sprintf("p%d", i))
		// a store is only ever the one its package keeps
		for _, m := range t.Pkg.Members {
			if g, ok := m.(*ssa.Global); ok && types.Identical(g.Type().(*types.Pointer).Elem(), t.Params[i].Type()) {
				con.clauses = append(con.clauses, &Clause{kind: "requires", ex: mustEx(fmt.Sprintf("p%d == %s.%s", i, t.Pkg.Pkg.Name(), g.Name()), "(generated)"), line: "(generated)"})
			}
		}
	}
	for i := 0; i < t.Signature.Results().Len(); i++ {
		con.results = append(con.results, fmt.Sprintf("r%d", i))
	}
	con.clauses = append(con.clauses, &Clause{kind: "modifies", exs: []*Ex{mustEx("heap", "(generated)")}, text: "heap", line: "(generated)"})
	x.specs.contracts[k] = con
	x.disabled[k] = true // callers keep using the body
}
