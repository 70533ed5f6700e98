package main

// Interval analysis and machine-integer operations on mathematical integers.

import (
	"go/types"
	"math/big"
)

type rng struct{ lo, hi *big.Int } // nil: unbounded

func mkRng(lo, hi int64) *rng { return &rng{big.NewInt(lo), big.NewInt(hi)} }

var byteRng = mkRng(0, 255)

var (
	symRng  = map[*Term]*rng{} // Int symbols
	elemRng = map[*Term]*rng{} // SeqI symbols: every element
	rngMemo = map[*Term]rng{}
)

func setRng(t *Term, r *rng) {
	if r != nil {
		symRng[t] = r
	}
}
func setElem(t *Term, r *rng) {
	if r != nil {
		elemRng[t] = r
	}
}

// elemRangeOf bounds every element of a SeqI term.
func elemRangeOf(t *Term) *rng {
	switch t.op {
	case "sym":
		return elemRng[t]
	case "uf":
		if d := getFn(t.name); d != nil {
			return d.elem
		}
	case "unit":
		r := rangeOf(t.args[0])
		return &r
	case "empty":
		return &rng{}
	case "sub":
		return elemRangeOf(t.args[0])
	case "ite":
		return joinR(elemRangeOf(t.args[1]), elemRangeOf(t.args[2]))
	case "++":
		var r *rng
		for i, a := range t.args {
			e := elemRangeOf(a)
			if i == 0 {
				r = e
			} else {
				r = joinR(r, e)
			}
			if r == nil {
				return nil
			}
		}
		return r
	}
	return nil
}

func joinR(a, b *rng) *rng {
	if a == nil || b == nil {
		return nil
	}
	r := &rng{}
	if a.lo != nil && b.lo != nil {
		r.lo = a.lo
		if b.lo.Cmp(a.lo) < 0 {
			r.lo = b.lo
		}
	}
	if a.hi != nil && b.hi != nil {
		r.hi = a.hi
		if b.hi.Cmp(a.hi) > 0 {
			r.hi = b.hi
		}
	}
	return r
}

func rangeOf(t *Term) rng {
	if t.sort != SInt {
		return rng{}
	}
	if t.op == "int" {
		return rng{t.n, t.n}
	}
	if r, ok := rngMemo[t]; ok {
		return r
	}
	r := rangeOf0(t)
	rngMemo[t] = r
	return r
}

func rangeOf0(t *Term) rng {
	switch t.op {
	case "sym":
		if r := symRng[t]; r != nil {
			return *r
		}
	case "uf":
		if t.name == "bxor" || t.name == "bor" || t.name == "band" {
			mx := 0
			for _, a := range t.args {
				r := rangeOf(a)
				if r.lo == nil || r.hi == nil || r.lo.Sign() < 0 {
					return rng{}
				}
				if r.hi.BitLen() > mx {
					mx = r.hi.BitLen()
				}
			}
			return rng{big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(mx)), big.NewInt(1))}
		}
		if d := getFn(t.name); d != nil && d.rng != nil {
			if (d.rng == refRng || d.rng == oldRng) && len(t.args) == 1 {
				// what an object that may be new holds may itself be new
				if a := rangeOf(t.args[0]); a.hi == nil || a.hi.Cmp(big.NewInt(allocBase)) >= 0 {
					return *newRng
				}
			}
			return *d.rng
		}
	case "len":
		return rng{lo: big.NewInt(0)}
	case "nth":
		if r := elemRangeOf(t.args[0]); r != nil {
			return *r
		}
	case "+":
		r := rng{new(big.Int), new(big.Int)}
		for _, a := range t.args {
			x := rangeOf(a)
			if r.lo != nil {
				if x.lo == nil {
					r.lo = nil
				} else {
					r.lo = new(big.Int).Add(r.lo, x.lo)
				}
			}
			if r.hi != nil {
				if x.hi == nil {
					r.hi = nil
				} else {
					r.hi = new(big.Int).Add(r.hi, x.hi)
				}
			}
		}
		return r
	case "*":
		if t.args[0].isInt() {
			k := t.args[0].n
			x := rangeOf(t.args[1])
			var lo, hi *big.Int
			if x.lo != nil {
				lo = new(big.Int).Mul(k, x.lo)
			}
			if x.hi != nil {
				hi = new(big.Int).Mul(k, x.hi)
			}
			if k.Sign() < 0 {
				lo, hi = hi, lo
			}
			return rng{lo, hi}
		}
	case "div":
		if b := t.args[1]; b.isInt() && b.n.Sign() > 0 {
			x := rangeOf(t.args[0])
			var r rng
			if x.lo != nil {
				r.lo, _ = new(big.Int).DivMod(x.lo, b.n, new(big.Int))
			}
			if x.hi != nil {
				r.hi, _ = new(big.Int).DivMod(x.hi, b.n, new(big.Int))
			}
			return r
		}
	case "mod":
		if b := t.args[1]; b.isInt() && b.n.Sign() > 0 {
			return rng{big.NewInt(0), new(big.Int).Sub(b.n, big.NewInt(1))}
		}
	case "ite":
		a, b := rangeOf(t.args[1]), rangeOf(t.args[2])
		return *joinR(&a, &b)
	}
	return rng{}
}

func within(t *Term, lo, hi *big.Int) bool {
	r := rangeOf(t)
	return r.lo != nil && r.hi != nil && r.lo.Cmp(lo) >= 0 && r.hi.Cmp(hi) <= 0
}

// intInfo: width and signedness of an integer type; width 0 when not an integer.
func intInfo(t types.Type) (bits uint, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true
	case types.UntypedRune:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	}
	return 0, false
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func typeRng(t types.Type) *rng {
	bits, signed := intInfo(t)
	if bits == 0 {
		return nil
	}
	if signed {
		return &rng{new(big.Int).Neg(pow2(bits - 1)), new(big.Int).Sub(pow2(bits-1), big.NewInt(1))}
	}
	return &rng{big.NewInt(0), new(big.Int).Sub(pow2(bits), big.NewInt(1))}
}

// wrap reduces a mathematical integer to the type's range.  int and int64 are
// kept mathematical (recorded assumption: no 64-bit overflow).
func wrap(x *Term, t types.Type) *Term {
	bits, signed := intInfo(t)
	if bits == 0 {
		return x
	}
	r := typeRng(t)
	if within(x, r.lo, r.hi) {
		return x
	}
	if signed {
		if bits == 64 {
			return x
		}
		h := BigInt(pow2(bits - 1))
		return Sub(Mod(Add(x, h), BigInt(pow2(bits))), h)
	}
	return Mod(x, BigInt(pow2(bits)))
}

// bitsOf is (x >> lo) mod 2^n.
func bitsOf(x *Term, lo, n uint) *Term {
	return Mod(Div(x, BigInt(pow2(lo))), BigInt(pow2(n)))
}

// tz: number of low bits of t known to be zero.
func tz(t *Term) uint {
	if t.isInt() {
		if t.n.Sign() == 0 {
			return 1 << 20
		}
		return t.n.TrailingZeroBits()
	}
	switch t.op {
	case "*":
		if t.args[0].isInt() {
			return t.args[0].n.TrailingZeroBits() + tz(t.args[1])
		}
	case "+":
		m := uint(1 << 20)
		for _, a := range t.args {
			if k := tz(a); k < m {
				m = k
			}
		}
		return m
	case "ite":
		a, b := tz(t.args[1]), tz(t.args[2])
		if a < b {
			return a
		}
		return b
	}
	return 0
}

func bandMask(x *Term, m *big.Int) *Term {
	out := Int(0)
	n := m.BitLen()
	for i := 0; i < n; {
		if m.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && m.Bit(j) == 1 {
			j++
		}
		out = Add(out, Mul(BigInt(pow2(uint(i))), bitsOf(x, uint(i), uint(j-i))))
		i = j
	}
	return out
}

func nonnegBits(x *Term) (int, bool) {
	r := rangeOf(x)
	if r.lo == nil || r.hi == nil || r.lo.Sign() < 0 {
		return 0, false
	}
	return r.hi.BitLen(), true
}

func BAnd(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return BigInt(new(big.Int).And(a.n, b.n))
	}
	if a.isInt() {
		a, b = b, a
	}
	if b.isInt() && b.n.Sign() >= 0 {
		return bandMask(a, b.n)
	}
	if a == b {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return App("band", SInt, a, b)
}

func BOr(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return BigInt(new(big.Int).Or(a.n, b.n))
	}
	if a == b {
		return a
	}
	if na, ok := nonnegBits(a); ok {
		if tz(b) >= uint(na) {
			return Add(a, b)
		}
	}
	if nb, ok := nonnegBits(b); ok {
		if tz(a) >= uint(nb) {
			return Add(a, b)
		}
	}
	// ite over constants (flag accumulation)
	if b.op == "ite" && b.args[1].isInt() && b.args[2].isInt() {
		return Ite(b.args[0], BOr(a, b.args[1]), BOr(a, b.args[2]))
	}
	if b.isInt() && b.n.Sign() >= 0 {
		// set the bits: clear them, then add
		return Add(Sub(a, bandMask(a, b.n)), b)
	}
	if a.isInt() && a.n.Sign() >= 0 {
		return BOr(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return App("bor", SInt, a, b)
}

// BXor is kept associative-commutative-normal: bxor(a,bxor(b,c)) with sorted
// arguments, pairs cancelled.
func BXor(a, b *Term) *Term {
	k := new(big.Int)
	cnt := map[*Term]int{}
	var order []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.isInt() {
			k.Xor(k, t.n)
			return
		}
		if t.op == "uf" && t.name == "bxor" {
			add(t.args[0])
			add(t.args[1])
			return
		}
		if cnt[t] == 0 {
			order = append(order, t)
		}
		cnt[t]++
	}
	add(a)
	add(b)
	var xs []*Term
	for _, t := range order {
		if cnt[t]%2 == 1 {
			xs = append(xs, t)
		}
	}
	for i := 1; i < len(xs); i++ {
		for j := i; j > 0 && xs[j-1].id > xs[j].id; j-- {
			xs[j-1], xs[j] = xs[j], xs[j-1]
		}
	}
	if k.Sign() != 0 || len(xs) == 0 {
		xs = append(xs, BigInt(k))
	}
	r := xs[len(xs)-1]
	for i := len(xs) - 2; i >= 0; i-- {
		r = App("bxor", SInt, xs[i], r)
	}
	return r
}

// goDiv/goRem: Go's truncated division.
func goDiv(a, b *Term) *Term {
	if nonneg(a) && nonneg(b) {
		return Div(a, b)
	}
	if b.isInt() && b.n.Sign() > 0 {
		return Ite(Le(Int(0), a), Div(a, b), Neg(Div(Neg(a), b)))
	}
	return App("godiv", SInt, a, b)
}

func goRem(a, b *Term) *Term {
	if nonneg(a) && nonneg(b) {
		return Mod(a, b)
	}
	// sign follows the dividend; |b| matters only
	ab := Ite(Le(Int(0), b), b, Neg(b))
	return Ite(Le(Int(0), a), Mod(a, ab), Neg(Mod(Neg(a), ab)))
}
