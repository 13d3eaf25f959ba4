package main

import (
	"go/constant"
	"go/token"
	"math"
	"sort"
)

type ival struct{ lo, hi int64 }

var full = ival{math.MinInt64, math.MaxInt64}

// Facts learnt from branches: boolean atoms and integer intervals.
type Facts struct {
	b  map[*V]bool
	iv map[*V]ival
	ne map[*V]int64 // one excluded constant
}

func newFacts() *Facts { return &Facts{map[*V]bool{}, map[*V]ival{}, map[*V]int64{}} }

func (f *Facts) clone() *Facts {
	g := &Facts{make(map[*V]bool, len(f.b)+2), make(map[*V]ival, len(f.iv)+2), make(map[*V]int64, len(f.ne))}
	for k, v := range f.b {
		g.b[k] = v
	}
	for k, v := range f.iv {
		g.iv[k] = v
	}
	for k, v := range f.ne {
		g.ne[k] = v
	}
	return g
}

func (f *Facts) interval(t *V) ival {
	if n, ok := t.intC(); ok {
		return ival{n, n}
	}
	r := full
	if t.k == KLen || t.k == KCap || isUnsigned(t.typ) {
		r.lo = 0
		if t.k != KLen && t.k != KCap && widthOf(t.typ) < 63 {
			r.hi = int64(1)<<uint(widthOf(t.typ)) - 1
		}
	}
	if v, ok := f.iv[t]; ok {
		if v.lo > r.lo {
			r.lo = v.lo
		}
		if v.hi < r.hi {
			r.hi = v.hi
		}
	}
	if t.k == KBin && t.op == token.ADD {
		a, b := f.interval(t.args[0]), f.interval(t.args[1])
		if a.lo != math.MinInt64 && b.lo != math.MinInt64 && a.lo+b.lo > r.lo && !isUnsigned(t.typ) {
			r.lo = a.lo + b.lo
		}
		if a.hi != math.MaxInt64 && b.hi != math.MaxInt64 && a.hi+b.hi < r.hi && !isUnsigned(t.typ) {
			r.hi = a.hi + b.hi
		}
	}
	return r
}

// eval decides a condition: 1 true, 0 false, -1 unknown.
func (f *Facts) eval(c *V) int {
	if c.isTrue() {
		return 1
	}
	if c.isFalse() {
		return 0
	}
	switch c.k {
	case KNot:
		r := f.eval(c.args[0])
		if r < 0 {
			return r
		}
		return 1 - r
	case KEq:
		if v, ok := f.b[c]; ok {
			return b2i(v)
		}
		x, y := c.args[0], c.args[1]
		if n, ok := y.intC(); ok {
			iv := f.interval(x)
			if n < iv.lo || n > iv.hi {
				return 0
			}
			if iv.lo == iv.hi && iv.lo == n {
				return 1
			}
			if e, ok := f.ne[x]; ok && e == n {
				return 0
			}
			if r := f.evalBits(x, n); r >= 0 {
				return r
			}
		}
		if v, ok := f.b[mk(KLt, 0, nil, 0, nil, nil, x, y)]; ok && v {
			return 0
		}
		if v, ok := f.b[mk(KLt, 0, nil, 0, nil, nil, y, x)]; ok && v {
			return 0
		}
		if f.nilEval(x) == 1 && f.nilEval(y) == 0 || f.nilEval(x) == 0 && f.nilEval(y) == 1 {
			return 0
		}
	case KLt:
		if v, ok := f.b[c]; ok {
			return b2i(v)
		}
		x, y := c.args[0], c.args[1]
		a, b := f.interval(x), f.interval(y)
		if a.hi < b.lo {
			return 1
		}
		if a.lo >= b.hi && a.lo != math.MinInt64 && b.hi != math.MaxInt64 {
			return 0
		}
		if v, ok := f.b[mk(KLt, 0, nil, 0, nil, nil, y, x)]; ok && v {
			return 0
		}
		if v, ok := f.b[vEq(x, y)]; ok && v {
			return 0
		}
	case KNil:
		return f.nilEval(c.args[0])
	default:
		if v, ok := f.b[c]; ok {
			return b2i(v)
		}
		if c.k == KBit {
			x := c.args[0]
			iv := f.interval(x)
			if iv.lo == iv.hi {
				return int(iv.lo >> uint(c.n) & 1)
			}
		}
	}
	return -1
}

func (f *Facts) nilEval(x *V) int {
	if x.isNilC() {
		return 1
	}
	if nonNilTerm(x) {
		return 0
	}
	if v, ok := f.b[mk(KNil, 0, nil, 0, nil, nil, x)]; ok {
		return b2i(v)
	}
	// a non nil type assertion result implies ...
	if x.k == KAssert {
		return -1
	}
	return -1
}

func (f *Facts) evalBits(x *V, n int64) int {
	if x.k != KBin && x.k != KConv {
		return -1
	}
	unk := false
	for i, b := range bitsOf(x) {
		want := 0
		if i < 63 {
			want = int(n >> uint(i) & 1)
		}
		switch b.kind {
		case 0, 1:
			if b.kind != want {
				return 0
			}
		default:
			if b.src == x {
				unk = true
				continue
			}
			r := f.eval(vBit(b.src, b.idx))
			if r < 0 {
				unk = true
			} else if r != want {
				return 0
			}
		}
	}
	if unk {
		return -1
	}
	return 1
}

// splitBit returns a bit atom to fork on before deciding c, or nil.
func (f *Facts) splitBit(c *V) *V {
	for c.k == KNot {
		c = c.args[0]
	}
	if c.k != KEq {
		return nil
	}
	if _, ok := c.args[1].intC(); !ok {
		return nil
	}
	x := c.args[0]
	if x.k != KBin && x.k != KConv {
		return nil
	}
	var res *V
	cnt := 0
	for _, b := range bitsOf(x) {
		if b.kind == 2 {
			if b.src == x {
				return nil
			}
			a := vBit(b.src, b.idx)
			if f.eval(a) < 0 {
				cnt++
				if res == nil {
					res = a
				}
			}
		}
	}
	if cnt > 4 {
		return nil
	}
	return res
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// assume adds a condition; false when it contradicts what is known.
func (f *Facts) assume(c *V, truth bool) bool {
	if r := f.eval(c); r >= 0 {
		return (r == 1) == truth
	}
	switch c.k {
	case KNot:
		return f.assume(c.args[0], !truth)
	case KEq:
		x, y := c.args[0], c.args[1]
		if n, ok := y.intC(); ok {
			iv := f.interval(x)
			if truth {
				f.iv[x] = ival{n, n}
				delete(f.ne, x)
			} else {
				if iv.lo == n {
					iv.lo++
					f.iv[x] = iv
				} else if iv.hi == n {
					iv.hi--
					f.iv[x] = iv
				} else if _, has := f.ne[x]; has {
					f.b[c] = false
				} else {
					f.ne[x] = n
				}
			}
			return true
		}
		if truth {
			// equal values share nilness
			if r := f.nilEval(x); r >= 0 && f.nilEval(y) < 0 {
				f.b[mk(KNil, 0, nil, 0, nil, nil, y)] = r == 1
			} else if r := f.nilEval(y); r >= 0 && f.nilEval(x) < 0 {
				f.b[mk(KNil, 0, nil, 0, nil, nil, x)] = r == 1
			}
		}
		f.b[c] = truth
	case KLt:
		x, y := c.args[0], c.args[1]
		if n, ok := y.intC(); ok {
			iv := f.interval(x)
			if truth {
				if n-1 < iv.hi {
					iv.hi = n - 1
				}
			} else if n > iv.lo {
				iv.lo = n
			}
			f.setIv(x, iv)
			return iv.lo <= iv.hi
		}
		if n, ok := x.intC(); ok {
			iv := f.interval(y)
			if truth {
				if n+1 > iv.lo {
					iv.lo = n + 1
				}
			} else if n < iv.hi {
				iv.hi = n
			}
			f.setIv(y, iv)
			return iv.lo <= iv.hi
		}
		f.b[c] = truth
	default:
		f.b[c] = truth
	}
	return true
}

func (f *Facts) setIv(x *V, iv ival) {
	if n, ok := f.ne[x]; ok {
		if iv.lo == n {
			iv.lo++
			delete(f.ne, x)
		} else if iv.hi == n {
			iv.hi--
			delete(f.ne, x)
		}
	}
	f.iv[x] = iv
}

type fatom struct {
	t    *V
	kind byte
	b    bool
	iv   ival
}

func (f *Facts) atoms() []fatom {
	out := make([]fatom, 0, len(f.b)+len(f.iv)+len(f.ne))
	for k, v := range f.b {
		out = append(out, fatom{t: k, kind: 'b', b: v})
	}
	for k, v := range f.iv {
		out = append(out, fatom{t: k, kind: 'i', iv: v})
	}
	for k, v := range f.ne {
		out = append(out, fatom{t: k, kind: 'n', iv: ival{v, v}})
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].t.id != out[j].t.id {
			return out[i].t.id < out[j].t.id
		}
		return out[i].kind < out[j].kind
	})
	return out
}

// implies reports whether f is at least as strong as g (g's states include f's).
func (f *Facts) implies(g *Facts) bool {
	for k, v := range g.b {
		if w, ok := f.b[k]; !ok || w != v {
			return false
		}
	}
	for k, v := range g.iv {
		w, ok := f.iv[k]
		if !ok || w.lo < v.lo || w.hi > v.hi {
			return false
		}
	}
	for k, v := range g.ne {
		if w, ok := f.ne[k]; !ok || w != v {
			iv, ok := f.iv[k]
			if !ok || (v >= iv.lo && v <= iv.hi) {
				return false
			}
		}
	}
	return true
}

// tryMerge merges two fact sets when their union is exactly representable.
func tryMerge(f, g *Facts) *Facts {
	if f.implies(g) {
		return g
	}
	if g.implies(f) {
		return f
	}
	var diff *V
	nd := 0
	for k, v := range f.b {
		w, ok := g.b[k]
		if !ok {
			return nil
		}
		if v != w {
			nd++
			diff = k
		}
	}
	if len(f.b) != len(g.b) || len(f.iv) != len(g.iv) || len(f.ne) != len(g.ne) {
		if nd > 1 {
			return nil
		}
		// the interval sets may differ in one term (x==c against x!=c)
		if nd == 0 && len(f.b) == len(g.b) {
			return mergeIv(f, g)
		}
		return nil
	}
	if nd > 1 {
		return nil
	}
	if nd == 1 {
		for k, v := range f.iv {
			if w, ok := g.iv[k]; !ok || w != v {
				return nil
			}
		}
		for k, v := range f.ne {
			if w, ok := g.ne[k]; !ok || w != v {
				return nil
			}
		}
		h := f.clone()
		delete(h.b, diff)
		return h
	}
	return mergeIv(f, g)
}

func mergeIv(f, g *Facts) *Facts {
	var t *V
	keys := map[*V]bool{}
	for k := range f.iv {
		keys[k] = true
	}
	for k := range g.iv {
		keys[k] = true
	}
	for k := range f.ne {
		keys[k] = true
	}
	for k := range g.ne {
		keys[k] = true
	}
	for k := range keys {
		a, b := f.interval(k), g.interval(k)
		na, oka := f.ne[k]
		nb, okb := g.ne[k]
		if a == b && oka == okb && na == nb {
			continue
		}
		if t != nil {
			return nil
		}
		t = k
	}
	if t == nil {
		return f
	}
	a, b := f.interval(t), g.interval(t)
	na, oka := f.ne[t]
	nb, okb := g.ne[t]
	h := f.clone()
	delete(h.iv, t)
	delete(h.ne, t)
	base := h.interval(t)
	// x == c against x != c
	if oka && !okb && b.lo == b.hi && b.lo == na && a == base {
		return h
	}
	if okb && !oka && a.lo == a.hi && a.lo == nb && b == base {
		return h
	}
	if oka || okb {
		return nil
	}
	if a.lo > b.lo {
		a, b = b, a
	}
	if a.hi == math.MaxInt64 || a.hi+1 >= b.lo {
		r := ival{a.lo, b.hi}
		if a.hi > r.hi {
			r.hi = a.hi
		}
		if r != base {
			h.iv[t] = r
		}
		return h
	}
	return nil
}

var _ = constant.MakeBool
