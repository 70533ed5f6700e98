package main

// Hash-consed logical terms with light simplification.
//
// Sorts: Int, Bool, SeqI (sequence of Int: strings, byte slices, slices of
// references), SeqV (sequence of interface values), Val (interface value) and
// Map (abstract map state, never printed as such).

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SSeqI Sort = "(Seq Int)"
	SSeqV Sort = "(Seq Val)"
	SVal  Sort = "Val"
	SMap  Sort = "Map"
)

type Term struct {
	id   int
	op   string
	sort Sort
	args []*Term
	n    *big.Int // op == "int"
	name string   // op == "sym" / "uf"
	key  string
}

var (
	termMu    sync.Mutex
	termTab   = map[string]*Term{}
	termCount int
)

func mk(op string, s Sort, name string, n *big.Int, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(string(s))
	sb.WriteByte('|')
	sb.WriteString(name)
	if n != nil {
		sb.WriteByte('#')
		sb.WriteString(n.String())
	}
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	termMu.Lock()
	defer termMu.Unlock()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCount++
	t := &Term{id: termCount, op: op, sort: s, args: args, n: n, name: name, key: k}
	termTab[k] = t
	return t
}

var (
	tTrue  = mk("true", SBool, "", nil)
	tFalse = mk("false", SBool, "", nil)
	tEmpty = mk("empty", SSeqI, "", nil)
	tEmpV  = mk("empty", SSeqV, "", nil)
	tVNil  = mk("VNil", SVal, "", nil)
)

func Int(i int64) *Term       { return mk("int", SInt, "", big.NewInt(i)) }
func BigInt(i *big.Int) *Term { return mk("int", SInt, "", i) }
func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func Sym(name string, s Sort) *Term { return mk("sym", s, name, nil) }

var symCtr = map[string]int{}

// Fresh makes a new symbol, its name derived from hint.
func Fresh(hint string, s Sort) *Term {
	termMu.Lock()
	symCtr[hint]++
	n := symCtr[hint]
	termMu.Unlock()
	return Sym(fmt.Sprintf("%s!%d", hint, n), s)
}

func (t *Term) isInt() bool { return t.op == "int" }
func (t *Term) int64() (int64, bool) {
	if t.op == "int" && t.n.IsInt64() {
		return t.n.Int64(), true
	}
	return 0, false
}

func emptyOf(s Sort) *Term {
	if s == SSeqV {
		return tEmpV
	}
	return tEmpty
}

// ---- linear integer arithmetic ----

type lin struct {
	c     *big.Int
	coef  map[*Term]*big.Int
	order []*Term
}

func newLin() *lin { return &lin{c: new(big.Int), coef: map[*Term]*big.Int{}} }

func (l *lin) addTerm(t *Term, k *big.Int) {
	switch t.op {
	case "int":
		l.c.Add(l.c, new(big.Int).Mul(t.n, k))
		return
	case "+":
		for _, a := range t.args {
			l.addTerm(a, k)
		}
		return
	case "*":
		if t.args[0].isInt() {
			l.addTerm(t.args[1], new(big.Int).Mul(k, t.args[0].n))
			return
		}
	}
	if v, ok := l.coef[t]; ok {
		v.Add(v, k)
		return
	}
	l.coef[t] = new(big.Int).Set(k)
	l.order = append(l.order, t)
}

func (l *lin) term() *Term {
	var parts []*Term
	sort.Slice(l.order, func(i, j int) bool { return l.order[i].id < l.order[j].id })
	for _, t := range l.order {
		k := l.coef[t]
		if k.Sign() == 0 {
			continue
		}
		if k.Cmp(big.NewInt(1)) == 0 {
			parts = append(parts, t)
		} else {
			parts = append(parts, mk("*", SInt, "", nil, BigInt(new(big.Int).Set(k)), t))
		}
	}
	if len(parts) == 0 {
		return BigInt(l.c)
	}
	if l.c.Sign() != 0 {
		parts = append(parts, BigInt(l.c))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return mk("+", SInt, "", nil, parts...)
}

func Add(ts ...*Term) *Term {
	l := newLin()
	one := big.NewInt(1)
	for _, t := range ts {
		l.addTerm(t, one)
	}
	return l.term()
}

func Sub(a, b *Term) *Term {
	l := newLin()
	l.addTerm(a, big.NewInt(1))
	l.addTerm(b, big.NewInt(-1))
	return l.term()
}

func Mul(a, b *Term) *Term {
	if b.isInt() {
		a, b = b, a
	}
	if a.isInt() {
		l := newLin()
		l.addTerm(b, a.n)
		return l.term()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("*", SInt, "", nil, a, b)
}

func Neg(a *Term) *Term { return Sub(Int(0), a) }

// Div/Mod are Euclidean (SMT-LIB div/mod); callers handle Go's truncation.

// splitMultiple writes t as m*A + r with r free of multiples of m.
func splitMultiple(t *Term, m *big.Int) (A, r *Term) {
	l := newLin()
	l.addTerm(t, big.NewInt(1))
	la, lr := newLin(), newLin()
	for _, x := range l.order {
		k := l.coef[x]
		q, rem := new(big.Int).DivMod(k, m, new(big.Int))
		if q.Sign() != 0 {
			la.addTerm(x, q)
		}
		if rem.Sign() != 0 {
			lr.addTerm(x, rem)
		}
	}
	q, rem := new(big.Int).DivMod(l.c, m, new(big.Int))
	la.c.Add(la.c, q)
	lr.c.Add(lr.c, rem)
	return la.term(), lr.term()
}

func Div(a, b *Term) *Term {
	if b.isInt() && b.n.Sign() > 0 {
		if a.isInt() {
			q, _ := new(big.Int).DivMod(a.n, b.n, new(big.Int))
			return BigInt(q)
		}
		if b.n.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		A, r := splitMultiple(a, b.n)
		if within(r, big.NewInt(0), new(big.Int).Sub(b.n, big.NewInt(1))) {
			return A
		}
		if A != Int(0) {
			return Add(A, Div(r, b))
		}
		if a.op == "div" && a.args[1].isInt() && a.args[1].n.Sign() > 0 {
			return Div(a.args[0], BigInt(new(big.Int).Mul(a.args[1].n, b.n)))
		}
		if a.op == "mod" && a.args[1].isInt() {
			q, rem := new(big.Int).DivMod(a.args[1].n, b.n, new(big.Int))
			if rem.Sign() == 0 {
				return Mod(Div(a.args[0], b), BigInt(q))
			}
		}
		if a.op == "ite" && (a.args[1].isInt() || a.args[2].isInt()) {
			return Ite(a.args[0], Div(a.args[1], b), Div(a.args[2], b))
		}
	}
	return mk("div", SInt, "", nil, a, b)
}

func Mod(a, b *Term) *Term {
	if b.isInt() && b.n.Sign() > 0 {
		if a.isInt() {
			_, m := new(big.Int).DivMod(a.n, b.n, new(big.Int))
			return BigInt(m)
		}
		if b.n.Cmp(big.NewInt(1)) == 0 {
			return Int(0)
		}
		_, r := splitMultiple(a, b.n)
		if within(r, big.NewInt(0), new(big.Int).Sub(b.n, big.NewInt(1))) {
			return r
		}
		if r.isInt() || r != a {
			return Mod(r, b)
		}
		if a.op == "mod" && a.args[1].isInt() {
			if new(big.Int).Mod(a.args[1].n, b.n).Sign() == 0 {
				return Mod(a.args[0], b)
			}
		}
		// 0 <= a mod m for a = sum of mod-terms: (x mod m) + c
		if a.op == "+" {
			l := newLin()
			changed := false
			for _, p := range a.args {
				k := big.NewInt(1)
				q := p
				if p.op == "*" && p.args[0].isInt() {
					k = p.args[0].n
					q = p.args[1]
				}
				if q.op == "mod" && q.args[1].isInt() && new(big.Int).Mod(q.args[1].n, b.n).Sign() == 0 {
					l.addTerm(q.args[0], k)
					changed = true
				} else {
					l.addTerm(q, k)
				}
			}
			if changed {
				return Mod(l.term(), b)
			}
		}
		if a.op == "ite" && (a.args[1].isInt() || a.args[2].isInt()) {
			return Ite(a.args[0], Mod(a.args[1], b), Mod(a.args[2], b))
		}
	}
	return mk("mod", SInt, "", nil, a, b)
}

// ---- booleans ----

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.args[0]
	case "<=":
		// integers: !(a<=b)  ==  b+1 <= a
		return Le(Add(a.args[1], Int(1)), a.args[0])
	}
	return mk("not", SBool, "", nil, a)
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t == tTrue || seen[t] {
			continue
		}
		if t == tFalse {
			return tFalse
		}
		if t.op == "and" {
			for _, a := range t.args {
				if !seen[a] {
					seen[a] = true
					out = append(out, a)
				}
			}
			continue
		}
		seen[t] = true
		out = append(out, t)
	}
	for _, t := range out {
		if t.op == "not" && seen[t.args[0]] {
			return tFalse
		}
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return mk("and", SBool, "", nil, out...)
}

func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t == tFalse || seen[t] {
			continue
		}
		if t == tTrue {
			return tTrue
		}
		if t.op == "or" {
			for _, a := range t.args {
				if !seen[a] {
					seen[a] = true
					out = append(out, a)
				}
			}
			continue
		}
		seen[t] = true
		out = append(out, t)
	}
	for _, t := range out {
		if t.op == "not" && seen[t.args[0]] {
			return tTrue
		}
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	return mk("or", SBool, "", nil, out...)
}

func Implies(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue {
		return tTrue
	}
	if b == tFalse {
		return Not(a)
	}
	if a == b {
		return tTrue
	}
	return mk("=>", SBool, "", nil, a, b)
}

func Ite(c, a, b *Term) *Term {
	if a.sort == SMap {
		return MapIte(c, a, b)
	}
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == tTrue && b == tFalse {
		return c
	}
	if a == tFalse && b == tTrue {
		return Not(c)
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	return mk("ite", a.sort, "", nil, c, a, b)
}

func Le(a, b *Term) *Term {
	d := Sub(a, b)
	if d.isInt() {
		return Bool(d.n.Sign() <= 0)
	}
	r := rangeOf(d)
	if r.hi != nil && r.hi.Sign() <= 0 {
		return tTrue
	}
	if r.lo != nil && r.lo.Sign() > 0 {
		return tFalse
	}
	// canonical: positive terms on the left, negative ones on the right
	l := newLin()
	l.addTerm(d, big.NewInt(1))
	p, n := newLin(), newLin()
	for _, t := range l.order {
		k := l.coef[t]
		if k.Sign() > 0 {
			p.addTerm(t, k)
		} else if k.Sign() < 0 {
			n.addTerm(t, new(big.Int).Neg(k))
		}
	}
	if l.c.Sign() > 0 {
		p.c.Set(l.c)
	} else {
		n.c.Neg(l.c)
	}
	return mk("<=", SBool, "", nil, p.term(), n.term())
}
func Lt(a, b *Term) *Term { return Le(Add(a, Int(1)), b) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func nonneg(t *Term) bool {
	r := rangeOf(t)
	return r.lo != nil && r.lo.Sign() >= 0
}

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort == SMap || b.sort == SMap {
		panic("Eq on maps")
	}
	switch a.sort {
	case SInt:
		d := Sub(a, b)
		if d.isInt() {
			return Bool(d.n.Sign() == 0)
		}
		if r := rangeOf(d); r.lo != nil && r.lo.Sign() > 0 || r.hi != nil && r.hi.Sign() < 0 {
			return tFalse
		}
		// ite over constants
		if b.isInt() && a.op == "ite" && (a.args[1].isInt() || a.args[2].isInt()) {
			return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
		if a.isInt() && b.op == "ite" && (b.args[1].isInt() || b.args[2].isInt()) {
			return Ite(b.args[0], Eq(b.args[1], a), Eq(b.args[2], a))
		}
	case SBool:
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return Not(b)
		}
		if b == tFalse {
			return Not(a)
		}
	case SSeqI, SSeqV:
		la, lb := Len(a), Len(b)
		if la.isInt() && lb.isInt() {
			if la.n.Cmp(lb.n) != 0 {
				return tFalse
			}
			ua, ub := units(a), units(b)
			if ua != nil && ub != nil {
				var cs []*Term
				for i := range ua {
					cs = append(cs, Eq(ua[i], ub[i]))
				}
				return And(cs...)
			}
		}
		if a == emptyOf(a.sort) {
			return Eq(Len(b), Int(0))
		}
		if b == emptyOf(b.sort) {
			return Eq(Len(a), Int(0))
		}
		// strip the common prefix / suffix
		pa, pb := pieces(a), pieces(b)
		i := 0
		for i < len(pa) && i < len(pb) && pa[i] == pb[i] {
			i++
		}
		j := 0
		for j < len(pa)-i && j < len(pb)-i && pa[len(pa)-1-j] == pb[len(pb)-1-j] {
			j++
		}
		if i > 0 || j > 0 {
			return Eq(Concat(a.sort, pa[i:len(pa)-j]...), Concat(b.sort, pb[i:len(pb)-j]...))
		}
	case SVal:
		if a.op != "ite" && b.op != "ite" && isValCtor(a) && isValCtor(b) {
			if a.op != b.op {
				return tFalse
			}
			var cs []*Term
			for i := range a.args {
				cs = append(cs, Eq(a.args[i], b.args[i]))
			}
			return And(cs...)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", SBool, "", nil, a, b)
}

func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

func isValCtor(t *Term) bool { return t.op == "VNil" || t.op == "VI" || t.op == "VS" }

func VI(tag, x *Term) *Term { return mk("VI", SVal, "", nil, tag, x) }
func VS(tag, x *Term) *Term { return mk("VS", SVal, "", nil, tag, x) }

func vsel(op string, s Sort, ctor string, idx int, v *Term) *Term {
	if v.op == ctor {
		return v.args[idx]
	}
	if v.op == "ite" {
		return Ite(v.args[0], vsel(op, s, ctor, idx, v.args[1]), vsel(op, s, ctor, idx, v.args[2]))
	}
	return mk(op, s, "", nil, v)
}

// VTag is the dynamic type tag of an interface value (0 for nil).
func VTag(v *Term) *Term {
	switch v.op {
	case "VNil":
		return Int(0)
	case "VI", "VS":
		return v.args[0]
	case "ite":
		return Ite(v.args[0], VTag(v.args[1]), VTag(v.args[2]))
	}
	return mk("vtag", SInt, "", nil, v)
}
func VInt(v *Term) *Term { return vsel("vi", SInt, "VI", 1, v) }
func VStr(v *Term) *Term { return vsel("ss", SSeqI, "VS", 1, v) }

// ---- sequences ----

func Unit(t *Term) *Term {
	s := SSeqI
	if t.sort == SVal {
		s = SSeqV
	}
	return mk("unit", s, "", nil, t)
}

func pieces(t *Term) []*Term {
	if t.op == "++" {
		return t.args
	}
	if t.op == "empty" {
		return nil
	}
	return []*Term{t}
}

func units(t *Term) []*Term {
	var out []*Term
	out = []*Term{}
	for _, p := range pieces(t) {
		if p.op != "unit" {
			return nil
		}
		out = append(out, p.args[0])
	}
	return out
}

func Concat(s Sort, ts ...*Term) *Term {
	var ps []*Term
	for _, t := range ts {
		ps = append(ps, pieces(t)...)
	}
	// merge adjacent extracts of one sequence
	var out []*Term
	for _, p := range ps {
		if n := len(out); n > 0 && p.op == "sub" && out[n-1].op == "sub" && p.args[0] == out[n-1].args[0] {
			q := out[n-1]
			if Add(q.args[1], q.args[2]) == p.args[1] && q.name == "x" && p.name == "x" {
				out[n-1] = rawExtract(p.args[0], q.args[1], Add(q.args[2], p.args[2]))
				continue
			}
		}
		out = append(out, p)
	}
	switch len(out) {
	case 0:
		return emptyOf(s)
	case 1:
		return out[0]
	}
	return mk("++", s, "", nil, out...)
}

func SeqLit(b []byte) *Term {
	var us []*Term
	for _, c := range b {
		us = append(us, Unit(Int(int64(c))))
	}
	return Concat(SSeqI, us...)
}

func StrLit(s string) *Term { return SeqLit([]byte(s)) }

func Len(t *Term) *Term {
	switch t.op {
	case "empty":
		return Int(0)
	case "unit":
		return Int(1)
	case "++":
		var ls []*Term
		for _, a := range t.args {
			ls = append(ls, Len(a))
		}
		return Add(ls...)
	case "ite":
		la, lb := Len(t.args[1]), Len(t.args[2])
		return Ite(t.args[0], la, lb)
	case "sub":
		return t.args[2]
	case "uf":
		if d := getFn(t.name); d != nil && d.constLen != nil {
			return d.constLen(t.args)
		}
	}
	return mk("len", SInt, "", nil, t)
}

func elemSort(s Sort) Sort {
	if s == SSeqV {
		return SVal
	}
	return SInt
}

func Nth(s, i *Term) *Term {
	if s.op == "++" {
		ps := s.args
		pos := i
		k := 0
		for k < len(ps) {
			L := Len(ps[k])
			d := Sub(pos, L)
			if d.isInt() && d.n.Sign() >= 0 {
				pos = d
				k++
				continue
			}
			if d.isInt() && d.n.Sign() < 0 {
				if pos.isInt() && pos.n.Sign() >= 0 || nonneg(pos) {
					return Nth(ps[k], pos)
				}
				// pos = L - c, c>0: inside piece k when L >= c (unknown); stop
				if L.isInt() {
					// pos is an integer below 0
					break
				}
			}
			break
		}
		if k > 0 {
			return Nth(Concat(s.sort, ps[k:]...), pos)
		}
	}
	if s.op == "unit" && i.isInt() && i.n.Sign() == 0 {
		return s.args[0]
	}
	if s.op == "sub" && s.name == "x" {
		return Nth(s.args[0], Add(s.args[1], i))
	}
	if s.op == "ite" {
		return Ite(s.args[0], Nth(s.args[1], i), Nth(s.args[2], i))
	}
	if s.op == "uf" && s.name == "replv" {
		return Ite(And(Le(Int(0), i), Lt(i, s.args[1])), s.args[0], mk("nth", elemSort(s.sort), "", nil, s, i))
	}
	return mk("nth", elemSort(s.sort), "", nil, s, i)
}

func rawExtract(s, o, n *Term) *Term { return mk("sub", s.sort, "x", nil, s, o, n) }

// Extract is s[o : o+n]; the caller has established 0<=o, 0<=n, o+n<=len(s).
func Extract(s, o, n *Term) *Term {
	if n.isInt() && n.n.Sign() <= 0 {
		return emptyOf(s.sort)
	}
	if o.isInt() && o.n.Sign() == 0 && n == Len(s) {
		return s
	}
	if s.op == "sub" && s.name == "x" {
		return Extract(s.args[0], Add(s.args[1], o), n)
	}
	if s.op == "++" || s.op == "unit" {
		// drop whole leading pieces
		ps := pieces(s)
		k := 0
		pos := o
		for k < len(ps) {
			d := Sub(pos, Len(ps[k]))
			if d.isInt() && d.n.Sign() >= 0 {
				pos = d
				k++
				continue
			}
			break
		}
		rest := ps[k:]
		if pos.isInt() && pos.n.Sign() == 0 {
			// take whole pieces
			var out []*Term
			rem := n
			for len(rest) > 0 {
				L := Len(rest[0])
				d := Sub(rem, L)
				if d.isInt() && d.n.Sign() >= 0 {
					out = append(out, rest[0])
					rem = d
					rest = rest[1:]
					if rem.isInt() && rem.n.Sign() == 0 {
						return Concat(s.sort, out...)
					}
					continue
				}
				break
			}
			if len(out) > 0 {
				if len(rest) == 0 {
					return Concat(s.sort, out...)
				}
				out = append(out, rawExtract(Concat(s.sort, rest...), Int(0), rem))
				return Concat(s.sort, out...)
			}
		}
		if k > 0 {
			if len(rest) == 0 {
				return emptyOf(s.sort)
			}
			return Extract(Concat(s.sort, rest...), pos, n)
		}
		// constant cut in the middle of literal units
		if us := units(s); us != nil && o.isInt() && n.isInt() {
			a, _ := o.int64()
			b, _ := n.int64()
			if a >= 0 && a+b <= int64(len(us)) {
				var out []*Term
				for _, u := range us[a : a+b] {
					out = append(out, Unit(u))
				}
				return Concat(s.sort, out...)
			}
		}
	}
	if s.op == "ite" {
		return Ite(s.args[0], Extract(s.args[1], o, n), Extract(s.args[2], o, n))
	}
	// a part of a run of equal elements is a shorter run
	if s.sort == SSeqI {
		var z, k *Term
		if s.op == "uf" && s.name == "repl" {
			z, k = s.args[0], s.args[1]
		} else if us := units(s); len(us) > 1 && us[0].isInt() {
			z, k = us[0], Int(int64(len(us)))
			for _, u := range us {
				if u != z {
					z = nil
					break
				}
			}
		}
		if z != nil {
			return replicate(z, Ite(Lt(o, Int(0)), Int(0), Ite(Le(Add(o, n), k), n, Sub(k, o))))
		}
	}
	return rawExtract(s, o, n)
}

// SeqUpdate is s with element i replaced by v (0<=i<len(s)).
func SeqUpdate(s, i, v *Term) *Term {
	return Concat(s.sort, Extract(s, Int(0), i), Unit(v), Extract(s, Add(i, Int(1)), Sub(Sub(Len(s), i), Int(1))))
}

// ---- uninterpreted / recursive functions ----

type recFn struct {
	name     string
	params   []Sort
	ret      Sort
	rng      *rng                       // range of an Int result
	elem     *rng                       // element range of a SeqI result
	unfold   func(args []*Term) *Term   // body, or nil when uninterpreted
	facts    func(args []*Term) []*Term // facts that hold of every application
	constLen func(args []*Term) *Term   // length when SeqI and known
	simp     func(args []*Term) *Term   // eager simplification or nil
	assumed  string
}

var recFns = map[string]*recFn{}
var recMu sync.Mutex

func declFn(d *recFn) {
	recMu.Lock()
	recFns[d.name] = d
	recMu.Unlock()
}

func getFn(name string) *recFn {
	recMu.Lock()
	defer recMu.Unlock()
	return recFns[name]
}

// App applies an uninterpreted or recursive function.
func App(name string, ret Sort, args ...*Term) *Term {
	d := getFn(name)
	if d == nil {
		var ps []Sort
		for _, a := range args {
			ps = append(ps, a.sort)
		}
		d = &recFn{name: name, params: ps, ret: ret}
		declFn(d)
	}
	if d.simp != nil {
		if r := d.simp(args); r != nil {
			return r
		}
	}
	return mk("uf", d.ret, name, nil, args...)
}

// ---- maps ----

type mapSig struct{ k, v Sort }

func MapBase(id *Term, sig string) *Term { return mk("mbase", SMap, sig, nil, id) }
func MapEmpty(sig string) *Term          { return mk("mempty", SMap, sig, nil) }
func MapPut(m, k, v *Term) *Term         { return mk("mput", SMap, m.name, nil, m, k, v) }
func MapDel(m, k *Term) *Term            { return mk("mdel", SMap, m.name, nil, m, k) }
func MapIte(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	return mk("mite", SMap, a.name, nil, c, a, b)
}

func sigSorts(sig string) (Sort, Sort) {
	if i := strings.Index(sig, "|"); i >= 0 {
		sig = sig[:i]
	}
	p := strings.SplitN(sig, "=>", 2)
	return Sort(p[0]), Sort(p[1])
}

func MapHas(m, k *Term) *Term {
	switch m.op {
	case "mempty":
		return tFalse
	case "mput":
		return Or(Eq(m.args[1], k), MapHas(m.args[0], k))
	case "mdel":
		return And(Ne(m.args[1], k), MapHas(m.args[0], k))
	case "mite":
		return Ite(m.args[0], MapHas(m.args[1], k), MapHas(m.args[2], k))
	}
	return App("mhas_"+sanitize(m.name), SBool, m.args[0], k)
}

func MapGet(m, k *Term) *Term {
	_, vs := sigSorts(m.name)
	switch m.op {
	case "mempty":
		return zeroOfSort(vs)
	case "mput":
		return Ite(Eq(m.args[1], k), m.args[2], MapGet(m.args[0], k))
	case "mdel":
		return Ite(Eq(m.args[1], k), zeroOfSort(vs), MapGet(m.args[0], k))
	case "mite":
		return Ite(m.args[0], MapGet(m.args[1], k), MapGet(m.args[2], k))
	}
	return App("mget_"+sanitize(m.name), vs, m.args[0], k)
}

func zeroOfSort(s Sort) *Term {
	switch s {
	case SInt:
		return Int(0)
	case SBool:
		return tFalse
	case SSeqI:
		return tEmpty
	case SSeqV:
		return tEmpV
	case SVal:
		return tVNil
	}
	panic("zeroOfSort " + string(s))
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

// ---- printing ----

func smtName(s string) string { return "|" + strings.ReplaceAll(s, "|", "/") + "|" }

func (t *Term) smtHead() string {
	switch t.op {
	case "int":
		if t.n.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.n).String() + ")"
		}
		return t.n.String()
	case "true", "false", "VNil":
		return t.op
	case "empty":
		return "(as seq.empty " + string(t.sort) + ")"
	case "sym":
		return smtName(t.name)
	case "unit":
		return "seq.unit"
	case "++":
		return "seq.++"
	case "len":
		return "seq.len"
	case "nth":
		return "seq.nth"
	case "sub":
		return "seq.extract"
	case "uf":
		return smtName(t.name)
	}
	return t.op
}

func (t *Term) String() string {
	if len(t.args) == 0 {
		if t.op == "sym" {
			return t.name
		}
		return t.smtHead()
	}
	if t.op == "++" && t.sort == SSeqI {
		if us := units(t); us != nil {
			all := true
			for _, u := range us {
				if !u.isInt() {
					all = false
				}
			}
			if all {
				var b []byte
				for _, u := range us {
					b = append(b, byte(u.n.Int64()))
				}
				return fmt.Sprintf("<%x>", b)
			}
		}
	}
	var sb strings.Builder
	sb.WriteByte('(')
	if t.op == "uf" {
		sb.WriteString(t.name)
	} else if t.op[0] == 'm' {
		sb.WriteString(t.op)
	} else {
		sb.WriteString(t.smtHead())
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(a.String())
	}
	sb.WriteByte(')')
	return sb.String()
}
