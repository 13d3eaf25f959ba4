package main

import (
	"go/constant"
	"go/token"
)

// Bit of a value: 0, 1, or bit idx of the opaque value src.
type Bit struct {
	kind int // 0, 1, 2 = source bit, 3 = unknown
	src  *V
	idx  int
}

func bitsOf(v *V) []Bit { return bitsW(v, widthOf(v.typ), map[*V][]Bit{}) }

func bitsWidth(v *V, w int) []Bit {
	return bitsW(v, w, map[*V][]Bit{})
}

// bitsW computes the provenance of the low w bits of v. A value narrower than w is extended with zeros
// (all integer sources of interest are unsigned or constants; signed sources are extended with unknown bits).
func bitsW(v *V, w int, memo map[*V][]Bit) []Bit {
	out := make([]Bit, w)
	switch v.k {
	case KConst:
		c := v.c
		if c == nil || c.Kind() != constant.Int {
			break
		}
		for i := 0; i < w; i++ {
			b := constant.BinaryOp(constant.Shift(c, token.SHR, uint(i)), token.AND, constant.MakeInt64(1))
			if constant.Sign(b) != 0 {
				out[i].kind = 1
			}
		}
		return out
	case KBin:
		tw := widthOf(v.typ)
		x := func(ww int) []Bit { return bitsW(v.args[0], ww, memo) }
		y := func(ww int) []Bit { return bitsW(v.args[1], ww, memo) }
		switch v.op {
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			a, b := x(tw), y(tw)
			return fit(combine(v, v.op, a, b), w, v)
		case token.SHL, token.SHR:
			n, ok := v.args[1].intC()
			if !ok || n < 0 {
				break
			}
			a := x(tw)
			r := make([]Bit, tw)
			for i := range r {
				j := i - int(n)
				if v.op == token.SHR {
					j = i + int(n)
				}
				if j >= 0 && j < tw {
					r[i] = a[j]
				} else if v.op == token.SHR && !isUnsigned(v.typ) && j >= tw {
					r[i] = a[tw-1]
				}
			}
			return fit(r, w, v)
		case token.ADD, token.SUB:
			if v.op == token.ADD {
				a, b := x(tw), y(tw)
				if r, ok := addDisjoint(a, b); ok {
					return fit(r, w, v)
				}
				// x + const where low bits of const are zero: low bits unchanged
				if r, ok := addLow(v, a, b); ok {
					return fit(r, w, v)
				}
			}
		case token.MUL:
			if n, ok := v.args[1].intC(); ok && n > 0 && n&(n-1) == 0 {
				sh := 0
				for n > 1 {
					n >>= 1
					sh++
				}
				a := x(tw)
				r := make([]Bit, tw)
				for i := range r {
					if i-sh >= 0 {
						r[i] = a[i-sh]
					}
				}
				return fit(r, w, v)
			}
		case token.REM:
			if n, ok := v.args[1].intC(); ok && n > 0 && n&(n-1) == 0 && isUnsigned(v.typ) {
				a := x(tw)
				r := make([]Bit, tw)
				for i := range r {
					if int64(1)<<uint(min(i, 62)) < n {
						r[i] = a[i]
					}
				}
				return fit(r, w, v)
			}
		case token.QUO:
			if n, ok := v.args[1].intC(); ok && n > 0 && n&(n-1) == 0 && isUnsigned(v.typ) {
				sh := 0
				for n > 1 {
					n >>= 1
					sh++
				}
				a := x(tw)
				r := make([]Bit, tw)
				for i := range r {
					if i+sh < tw {
						r[i] = a[i+sh]
					}
				}
				return fit(r, w, v)
			}
		}
	case KUn:
		if v.op == token.XOR {
			tw := widthOf(v.typ)
			a := bitsW(v.args[0], tw, memo)
			r := make([]Bit, tw)
			for i := range a {
				switch a[i].kind {
				case 0:
					r[i].kind = 1
				case 1:
					r[i].kind = 0
				default:
					r[i] = Bit{kind: 2, src: v, idx: i}
				}
			}
			return fit(r, w, v)
		}
	case KConv:
		tw := widthOf(v.typ)
		if isIntType(v) {
			a := bitsW(v.args[0], tw, memo)
			return fit(a, w, v)
		}
	case KPure:
		if v.aux == "be" { // big endian composition of bytes args[0] is the most significant
			n := len(v.args)
			r := make([]Bit, 8*n)
			for i := 0; i < n; i++ {
				bb := bitsW(v.args[n-1-i], 8, memo)
				copy(r[8*i:], bb)
			}
			return fit(r, w, v)
		}
	}
	sw := widthOf(v.typ)
	for i := 0; i < w; i++ {
		if i < sw || !isUnsigned(v.typ) {
			out[i] = Bit{kind: 2, src: v, idx: i}
		}
	}
	return out
}

func isIntType(v *V) bool { return v.typ != nil && isBasic(v.typ, 1<<1) } // types.IsInteger

func fit(b []Bit, w int, v *V) []Bit {
	if len(b) >= w {
		return b[:w]
	}
	out := make([]Bit, w)
	copy(out, b)
	if !isUnsigned(v.typ) && len(b) > 0 {
		top := b[len(b)-1]
		for i := len(b); i < w; i++ {
			if top.kind == 0 {
				out[i] = top
			} else {
				out[i] = Bit{kind: 2, src: v, idx: i}
			}
		}
	}
	return out
}

func combine(v *V, op token.Token, a, b []Bit) []Bit {
	r := make([]Bit, len(a))
	for i := range a {
		x, y := a[i], b[i]
		unk := Bit{kind: 2, src: v, idx: i}
		switch op {
		case token.AND:
			switch {
			case x.kind == 0 || y.kind == 0:
			case x.kind == 1:
				r[i] = y
			case y.kind == 1:
				r[i] = x
			case x == y:
				r[i] = x
			default:
				r[i] = unk
			}
		case token.OR:
			switch {
			case x.kind == 1 || y.kind == 1:
				r[i].kind = 1
			case x.kind == 0:
				r[i] = y
			case y.kind == 0:
				r[i] = x
			case x == y:
				r[i] = x
			default:
				r[i] = unk
			}
		case token.XOR:
			switch {
			case x.kind == 0:
				r[i] = y
			case y.kind == 0:
				r[i] = x
			case x.kind == 1 && y.kind == 1:
			case x == y:
			default:
				r[i] = unk
			}
		case token.AND_NOT:
			switch {
			case x.kind == 0 || y.kind == 1:
			case y.kind == 0:
				r[i] = x
			case x == y:
			default:
				r[i] = unk
			}
		}
	}
	return r
}

func addDisjoint(a, b []Bit) ([]Bit, bool) {
	r := make([]Bit, len(a))
	for i := range a {
		switch {
		case a[i].kind == 0:
			r[i] = b[i]
		case b[i].kind == 0:
			r[i] = a[i]
		default:
			return nil, false
		}
	}
	return r, true
}

func addLow(v *V, a, b []Bit) ([]Bit, bool) {
	r := make([]Bit, len(a))
	ok := true
	any := false
	for i := range a {
		if ok && (a[i].kind == 0 || b[i].kind == 0) {
			if a[i].kind == 0 {
				r[i] = b[i]
			} else {
				r[i] = a[i]
			}
			any = true
			continue
		}
		ok = false
		r[i] = Bit{kind: 2, src: v, idx: i}
	}
	return r, any
}
