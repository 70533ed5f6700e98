package main

// Fields shared between goroutines without a lock: every use is a sync/atomic
// operation, and only the named function changes them.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// atomicObs: one obligation per use of a field declared atomic.
func (c *checker) atomicObs() []*Ob {
	x := c.x
	var obs []*Ob
	for _, field := range sortedKeys(x.specs.atomics) {
		owner := x.specs.atomics[field]
		within := map[string]bool{owner: true}
		if r := c.results[owner]; r != nil {
			for i := range r.v.inlined {
				within[i] = true
			}
		}
		tkey := field[:strings.LastIndexByte(field, '.')]
		fname := field[len(tkey)+1:]
		uses := 0
		add := func(fn *ssa.Function, in ssa.Instruction, what string, ok bool) {
			p := x.P.prog.Fset.Position(in.Pos())
			o := &Ob{Fn: x.P.key(fn), Kind: "atomic", Name: what + " of " + field, Pos: fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, repoDir+"/"), p.Line), Status: "proved", By: "generator"}
			if !ok {
				o.Status = "failed"
				o.Out = "the field is shared between goroutines without a lock"
			}
			obs = append(obs, o)
			uses++
		}
		for _, k := range sortedKeys(x.P.funcs) {
			fn := x.P.funcs[k]
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch v := in.(type) {
					case *ssa.Field:
						if n, ok := v.X.Type().(*types.Named); ok && x.P.typeKey(n) == tkey && n.Underlying().(*types.Struct).Field(v.Field).Name() == fname {
							add(fn, in, "plain read", false)
						}
					case *ssa.UnOp:
						if n, ok := v.Type().(*types.Named); ok && x.P.typeKey(n) == tkey && v.Op.String() == "*" {
							if _, isStruct := n.Underlying().(*types.Struct); isStruct {
								add(fn, in, "copy", false)
							}
						}
					case *ssa.FieldAddr:
						n, ok := v.X.Type().Underlying().(*types.Pointer).Elem().(*types.Named)
						if !ok || x.P.typeKey(n) != tkey || n.Underlying().(*types.Struct).Field(v.Field).Name() != fname {
							continue
						}
						if onlyInit(in) {
							z := true
							for _, r := range *v.Referrers() {
								cst, isC := r.(*ssa.Store).Val.(*ssa.Const)
								z = z && isC && cst.Value != nil && cst.Value.String() == "0"
							}
							add(fn, in, "initial value 0", z)
							continue
						}
						for _, r := range *v.Referrers() {
							call, ok := r.(ssa.CallInstruction)
							name := ""
							if ok && call.Common().StaticCallee() != nil {
								name = call.Common().StaticCallee().String()
							}
							m := x.P.underMutex[field]
							switch {
							case m != "":
								add(fn, in, "use under the mutex", k == owner && name == "" && x.heldFor(fn, v, r) == m)
							case !strings.Contains(name, "sync/atomic."):
								add(fn, in, "plain access", false)
							case strings.Contains(name, "Load"):
								add(fn, in, "atomic read", true)
							default:
								add(fn, in, "atomic change", within[k])
							}
						}
					}
				}
			}
		}
		if uses == 0 {
			obs = append(obs, &Ob{Fn: owner, Kind: "atomic", Name: "the field " + field + " exists", Status: "failed", By: "generator", Out: "no use of " + field + " found"})
		}
	}
	return obs
}

// A shared field may also be kept under a mutex of its struct: when that mutex is
// taken, other goroutines have left any value there, and giving it back makes the
// change since then one indivisible step.

// sharedOf: the shared field guarded by mutex mu of the receiver, if any.
func (x *Exec) sharedOf(st *State, mu *Term) (key string, ref *Term, t types.Type) {
	if activeProp != "C18" || x.v == nil || x.v.recv == nil {
		return
	}
	for field, owner := range x.specs.atomics {
		tk := field[:strings.LastIndexByte(field, '.')]
		if owner != x.v.key || x.P.underMutex[field] == "" {
			continue
		}
		if x.guardOf(st, &Addr{key: "F:" + field, ref: x.v.recv}, x.P.underMutex[field]) == mu {
			return "F:" + field, x.v.recv, x.fieldType(tk + field[len(tk):])
		}
	}
	return
}

func (x *Exec) sharedLock(st *State, mu *Term) {
	if key, ref, t := x.sharedOf(st, mu); key != "" {
		v := x.fresh(st, t, "other").t
		x.storeLoc(st, key, ref, v, t)
		x.storeLoc(st, "L:shared", ref, v, t)
	}
}

func (x *Exec) sharedUnlock(st *State, mu *Term) {
	if key, ref, t := x.sharedOf(st, mu); key != "" {
		was, now := x.loadLoc(st, "L:shared", ref, t), x.loadLoc(st, key, ref, t)
		if was != now {
			x.event(st, "atomic.rmw", []Value{term(was), term(now)})
		}
	}
}

// heldFor: the use of a field of v.X happens between taking and giving back a
// mutex of the same struct; its name.
func (x *Exec) heldFor(fn *ssa.Function, v *ssa.FieldAddr, use ssa.Instruction) string {
	n, k := x.P.mutexField(x.P.typeKey(v.X.Type().Underlying().(*types.Pointer).Elem()), "mutex")
	if n == nil {
		return ""
	}
	var locks, unlocks []ssa.Instruction
	deferred := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok || c.Common().StaticCallee() == nil || len(c.Common().Args) != 1 {
				continue
			}
			a := c.Common().Args[0]
			if ld, ok := a.(*ssa.UnOp); ok {
				a = ld.X
			}
			fa, ok := a.(*ssa.FieldAddr)
			if !ok || fa.X != v.X || fa.Field != k {
				continue
			}
			switch c.Common().StaticCallee().Name() {
			case "Lock":
				locks = append(locks, in)
			case "Unlock":
				if _, ok := in.(*ssa.Defer); ok {
					deferred = true
				} else {
					unlocks = append(unlocks, in)
				}
			}
		}
	}
	if len(locks) != 1 || deferred && len(unlocks) > 0 {
		return ""
	}
	pos := func(in ssa.Instruction) int {
		for i, j := range in.Block().Instrs {
			if j == in {
				return i
			}
		}
		return -1
	}
	before := func(a, b ssa.Instruction) bool {
		if a.Block() == b.Block() {
			return pos(a) < pos(b)
		}
		return a.Block().Dominates(b.Block())
	}
	if !before(locks[0], use) {
		return ""
	}
	for _, u := range unlocks {
		if u.Block() != use.Block() || !before(use, u) {
			return ""
		}
	}
	return n.Underlying().(*types.Struct).Field(k).Name()
}

// findUnderMutex: the shared fields that are kept under a mutex.
func (x *Exec) findUnderMutex() {
	x.P.underMutex = map[string]string{}
	for field, owner := range x.specs.atomics {
		fn := x.P.funcs[owner]
		i := strings.LastIndexByte(field, '.')
		if fn == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n, ok := v.X.Type().Underlying().(*types.Pointer).Elem().(*types.Named)
				if !ok || x.P.typeKey(n) != field[:i] || n.Underlying().(*types.Struct).Field(v.Field).Name() != field[i+1:] {
					continue
				}
				for _, r := range *v.Referrers() {
					switch r.(type) {
					case *ssa.Store, *ssa.UnOp:
						if m := x.heldFor(fn, v, r); m != "" {
							x.P.underMutex[field] = m
						}
					}
				}
			}
		}
	}
}
