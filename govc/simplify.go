package main

import (
	"math/big"
	"strings"
)

// Contextual simplification of a proof obligation: facts that are assumed are
// replaced by true, variables that an assumption defines by their definition.
// The result is equivalent to the original under the assumptions; it is only
// tried before the original.

type ctxSimp struct {
	known  map[*Term]*Term
	hi     map[*Term]*big.Int // upper bounds of linear terms without a constant part
	subst  map[*Term]*Term
	assume []*Term
	memo   map[*Term]*Term
	seen   map[*Term]bool
}

func flatConj(t *Term, out []*Term) []*Term {
	switch {
	case t.op == "and":
		for _, a := range t.args {
			out = flatConj(a, out)
		}
		return out
	case t.op == "not" && t.args[0].op == "or":
		for _, a := range t.args[0].args {
			out = flatConj(Not(a), out)
		}
		return out
	case t.op == "not" && t.args[0].op == "=>":
		return flatConj(Not(t.args[0].args[1]), flatConj(t.args[0].args[0], out))
	case t == tTrue:
		return out
	}
	return append(out, t)
}

// definable: a variable or the value a field had at some point.
func definable(t *Term) bool {
	if t.op == "sym" {
		return true
	}
	if t.op == "uf" && strings.Contains(t.name, ":F:") {
		for _, a := range t.args {
			if a.op != "sym" && a.op != "int" {
				return false
			}
		}
		return true
	}
	return false
}

func occurs(x, t *Term) bool {
	seen := map[*Term]bool{}
	found := false
	walk(seen, t, func(y *Term) {
		if y == x {
			found = true
		}
	})
	return found
}

// linPart: an atom p <= q as l + k <= 0.
func linPart(t *Term) (*Term, *big.Int) {
	l := newLin()
	l.addTerm(Sub(t.args[0], t.args[1]), big.NewInt(1))
	k := new(big.Int).Set(l.c)
	l.c.SetInt64(0)
	return l.term(), k
}

// bounded decides an atom by a bound known for its linear part.
func (c *ctxSimp) bounded(t *Term) *Term {
	if len(c.hi) == 0 {
		return nil
	}
	l, k := linPart(t)
	if h := c.hi[l]; h != nil && new(big.Int).Add(h, k).Sign() <= 0 {
		return tTrue
	}
	if h := c.hi[Sub(Int(0), l)]; h != nil && new(big.Int).Sub(k, h).Sign() > 0 {
		return tFalse
	}
	return nil
}

func (c *ctxSimp) learn(p *Term) {
	if p == tTrue || p == tFalse {
		return
	}
	if p.op == "<=" {
		l, k := linPart(p)
		k.Neg(k)
		if h := c.hi[l]; h == nil || k.Cmp(h) < 0 {
			c.hi[l] = k
		}
	}
	c.known[p] = tTrue
	if p.op == "not" {
		q := p.args[0]
		c.known[q] = tFalse
		if q.op == "=" && q.args[0].sort == SInt {
			for i := 0; i < 2; i++ {
				if k, ok := q.args[i].int64(); ok && k == 0 && nonneg(q.args[1-i]) {
					l := Le(Int(1), q.args[1-i])
					c.known[l] = tTrue
					c.known[Not(l)] = tFalse
				}
			}
		}
	} else {
		c.known[Not(p)] = tFalse
	}
}

func newCtxSimp(assume []*Term) *ctxSimp {
	c := &ctxSimp{known: map[*Term]*Term{}, subst: map[*Term]*Term{}}
	var fl []*Term
	for _, a := range assume {
		fl = flatConj(a, fl)
	}
	c.assume = fl
	c.saturate()
	return c
}

func (c *ctxSimp) extend(ante *Term) *ctxSimp {
	d := &ctxSimp{known: map[*Term]*Term{}, subst: map[*Term]*Term{}}
	for k, v := range c.subst {
		d.subst[k] = v
	}
	d.assume = flatConj(ante, append([]*Term{}, c.assume...))
	d.saturate()
	return d
}

func (c *ctxSimp) saturate() {
	for round := 0; round < 6; round++ {
		c.known = map[*Term]*Term{}
		c.hi = map[*Term]*big.Int{}
		uniq := map[*Term]bool{}
		var as []*Term
		for _, a := range c.assume {
			if !uniq[a] {
				uniq[a] = true
				as = append(as, a)
				c.learn(a)
			}
		}
		for _, a := range as {
			if a.op != "=" {
				continue
			}
			for i := 0; i < 2; i++ {
				l, r := a.args[i], a.args[1-i]
				if !definable(l) || c.subst[l] != nil || l.sort == SMap {
					continue
				}
				if definable(r) && r.op == "sym" && l.op != "sym" {
					continue
				}
				c.memo = map[*Term]*Term{}
				r = c.rewrite(r, nil)
				if r == l || occurs(l, r) {
					continue
				}
				c.subst[l] = r
				break
			}
		}
		changed := false
		var out []*Term
		for _, a := range as {
			c.memo = map[*Term]*Term{}
			b := c.assumption(a)
			if b != a {
				changed = true
			}
			out = flatConj(b, out)
		}
		c.assume = out
		if !changed {
			break
		}
	}
	c.memo = map[*Term]*Term{}
}

// assumption rewrites an assumption without using the assumption itself.
func (c *ctxSimp) assumption(a *Term) *Term {
	if a.op == "not" {
		return Not(c.children(a.args[0], a))
	}
	if a.op == "=" {
		for i := 0; i < 2; i++ {
			if c.subst[a.args[i]] != nil {
				r := c.rewrite(a.args[1-i], a)
				if r == c.subst[a.args[i]] {
					// the definition itself: keep it
					return mk("=", SBool, "", nil, a.args[i], r)
				}
			}
		}
	}
	return c.children(a, a)
}

func (c *ctxSimp) children(t *Term, self *Term) *Term {
	if len(t.args) == 0 {
		if s := c.subst[t]; s != nil && t.sort != SBool {
			return s
		}
		return t
	}
	args := make([]*Term, len(t.args))
	same := true
	for i, a := range t.args {
		args[i] = c.rewrite(a, self)
		if args[i] != a {
			same = false
		}
	}
	if same {
		return t
	}
	return rebuild(t, args)
}

func (c *ctxSimp) rewrite(t *Term, self *Term) *Term {
	if r, ok := c.memo[t]; ok {
		return r
	}
	var r *Term
	if t.sort == SBool {
		if k := c.known[t]; k != nil && t != self {
			r = k
		}
	}
	if r == nil {
		if s := c.subst[t]; s != nil {
			c.memo[t] = t // no cycles
			r = c.rewrite(s, self)
		} else {
			r = c.children(t, self)
			if r != t && r.sort == SBool {
				if k := c.known[r]; k != nil && r != self {
					r = k
				}
			}
		}
	}
	if r.op == "<=" && self == nil {
		if k := c.bounded(r); k != nil {
			r = k
		}
	}
	c.memo[t] = r
	return r
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Implies(a[0], a[1])
	case "ite", "mite":
		return Ite(a[0], a[1], a[2])
	case "<=":
		return Le(a[0], a[1])
	case "=":
		return Eq(a[0], a[1])
	case "+":
		return Add(a...)
	case "*":
		r := a[0]
		for _, x := range a[1:] {
			r = Mul(r, x)
		}
		return r
	case "div":
		return Div(a[0], a[1])
	case "mod":
		return Mod(a[0], a[1])
	case "len":
		return Len(a[0])
	case "nth":
		return Nth(a[0], a[1])
	case "sub":
		if t.name == "x" && len(a) == 3 {
			return Extract(a[0], a[1], a[2])
		}
	case "++":
		return Concat(t.sort, a...)
	case "unit":
		return Unit(a[0])
	case "vtag":
		return VTag(a[0])
	case "vi":
		return VInt(a[0])
	case "ss":
		return VStr(a[0])
	case "uf":
		return App(t.name, t.sort, a...)
	case "mput":
		return MapPut(a[0], a[1], a[2])
	case "mdel":
		return MapDel(a[0], a[1])
	}
	return mk(t.op, t.sort, t.name, t.n, a...)
}

// simplified returns an equivalent obligation, or ok=false when nothing changed.
func (v *Verif) simplified(assume []*Term, goal *Term) ([]*Term, *Term, bool) {
	var c *ctxSimp
	if v.simpFor != nil && len(v.simpFor) == len(assume) {
		eq := true
		for i := range assume {
			if assume[i] != v.simpFor[i] {
				eq = false
				break
			}
		}
		if eq {
			c = v.simpCtx
		}
	}
	if c == nil {
		c = newCtxSimp(assume)
		v.simpFor, v.simpCtx = append([]*Term{}, assume...), c
	}
	g := c.rewrite(goal, nil)
	for n := 0; n < 3 && g.op == "=>"; n++ {
		c = c.extend(g.args[0])
		g = c.rewrite(g.args[1], nil)
	}
	for _, a := range c.assume {
		if a == tFalse {
			return c.assume, tTrue, true
		}
	}
	return c.assume, g, true
}
