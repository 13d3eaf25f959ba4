package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Kind of an abstract value term.
type Kind uint8

const (
	KConst    Kind = iota // literal; c==nil means nil / zero of a non basic type
	KSym                  // named symbol (root parameter, skolem)
	KGlobal               // address of a package level variable
	KFunc                 // function value
	KClosure              // closure: aux fn, args bindings
	KAlloc                // address of an object allocated at a site
	KFresh                // result of an opaque operation at a site
	KField                // address of field (aux *types.Var) of args[0]
	KIdx                  // address of element args[1] of args[0]
	KLoad                 // initial content of address args[0] (args[1] optional generation)
	KBin                  // arithmetic / comparison
	KNot                  // boolean not
	KEq                   // equality (canonical order)
	KLt                   // args[0] < args[1]
	KNil                  // args[0] == nil
	KBit                  // bit n of args[0] is one
	KUn                   // unary -, ^
	KConv                 // conversion which may change the value
	KSlice                // args[0][lo:hi], args: base, lo, hi(nil const if absent)
	KApp                  // result of append on root args[0] at site
	KLen                  // len(args[0])
	KCap                  // cap
	KIface                // interface holding args[0] of type typ
	KAgg                  // struct value, args are the fields
	KFld                  // field n of struct value args[0]
	KTuple                // tuple
	KPure                 // pure function aux(args...)
	KAssert               // type assertion result args[0].(typ)
	KAssertOk             // whether assertion holds
	KStale                // value of args[0] from an earlier execution of its site
	KMapEl                // address of element args[1] of map args[0]
	KBound                // bound method closure etc. aux fn
	KByteOf               // not used as node of its own: see bits
)

// V is a hash consed abstract value.
type V struct {
	id   int
	k    Kind
	op   token.Token
	args []*V
	aux  interface{}
	n    int64
	typ  types.Type
	c    constant.Value
	frsh bool // contains a KFresh/KAlloc/KApp subterm
}

var interned = map[string]*V{}
var terms []*V
var auxIDs = map[interface{}]int{}

func auxID(a interface{}) int {
	if a == nil {
		return 0
	}
	if id, ok := auxIDs[a]; ok {
		return id
	}
	id := len(auxIDs) + 1
	auxIDs[a] = id
	return id
}

var typeKeys = map[types.Type]string{}

func typeKey(t types.Type) string {
	if t == nil {
		return "-"
	}
	if s, ok := typeKeys[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	typeKeys[t] = s
	return s
}

func mk(k Kind, op token.Token, aux interface{}, n int64, typ types.Type, c constant.Value, args ...*V) *V {
	var sb strings.Builder
	sb.WriteByte(byte(k) + 'A')
	sb.WriteString(strconv.Itoa(int(op)))
	sb.WriteByte('|')
	sb.WriteString(strconv.Itoa(auxID(aux)))
	sb.WriteByte('|')
	sb.WriteString(strconv.FormatInt(n, 10))
	sb.WriteByte('|')
	switch k {
	case KSym:
		if typ != nil {
			sb.WriteString(typeKey(typ))
		}
	case KIface, KAssert, KAssertOk, KConv, KBin, KUn:
		sb.WriteString(typeKey(typ))
	case KConst:
		if c == nil {
			// nil and zero aggregates are distinguished by type only for structs
			if typ != nil {
				if _, ok := typ.Underlying().(*types.Struct); ok {
					sb.WriteString(typeKey(typ))
				}
			}
		} else {
			sb.WriteString(c.Kind().String())
			sb.WriteString(c.ExactString())
		}
	}
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	key := sb.String()
	if v, ok := interned[key]; ok {
		return v
	}
	v := &V{id: len(terms), k: k, op: op, aux: aux, n: n, typ: typ, c: c, args: args}
	if k == KFresh || k == KAlloc || k == KApp {
		v.frsh = true
	}
	for _, a := range args {
		if a.frsh {
			v.frsh = true
		}
	}
	interned[key] = v
	terms = append(terms, v)
	return v
}

// ---- constructors

func vNil() *V                   { return mk(KConst, 0, nil, 0, nil, nil) }
func vConst(c constant.Value) *V { return mk(KConst, 0, nil, 0, nil, c) }
func vInt(n int64) *V            { return vConst(constant.MakeInt64(n)) }
func vBool(b bool) *V            { return vConst(constant.MakeBool(b)) }
func vSym(name string, t types.Type) *V {
	return mk(KSym, 0, name, 0, t, nil)
}
func vPure(name string, t types.Type, args ...*V) *V {
	return mk(KPure, 0, name, 0, t, nil, args...)
}

func isBasic(t types.Type, info types.BasicInfo) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&info != 0
}

func zeroOf(t types.Type) *V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return vBool(false)
		case u.Info()&types.IsString != 0:
			return vConst(constant.MakeString(""))
		case u.Info()&types.IsInteger != 0:
			return vInt(0)
		case u.Info()&types.IsNumeric != 0:
			return vConst(constant.MakeInt64(0))
		}
		return vNil()
	case *types.Struct:
		args := make([]*V, u.NumFields())
		for i := range args {
			args[i] = zeroOf(u.Field(i).Type())
		}
		return mk(KAgg, 0, nil, 0, t, nil, args...)
	case *types.Tuple:
		args := make([]*V, u.Len())
		for i := range args {
			args[i] = zeroOf(u.At(i).Type())
		}
		return mk(KTuple, 0, nil, 0, t, nil, args...)
	}
	return vNil()
}

func (v *V) isConst() bool { return v.k == KConst }
func (v *V) isNilC() bool  { return v.k == KConst && v.c == nil }
func (v *V) intC() (int64, bool) {
	if v.k == KConst && v.c != nil && v.c.Kind() == constant.Int {
		if n, ok := constant.Int64Val(v.c); ok {
			return n, true
		}
	}
	return 0, false
}
func (v *V) isTrue() bool {
	return v.k == KConst && v.c != nil && v.c.Kind() == constant.Bool && constant.BoolVal(v.c)
}
func (v *V) isFalse() bool {
	return v.k == KConst && v.c != nil && v.c.Kind() == constant.Bool && !constant.BoolVal(v.c)
}

func vNot(x *V) *V {
	switch {
	case x.isTrue():
		return vBool(false)
	case x.isFalse():
		return vBool(true)
	case x.k == KNot:
		return x.args[0]
	}
	return mk(KNot, 0, nil, 0, nil, nil, x)
}

func vIface(x *V, t types.Type) *V {
	if x.k == KIface {
		return x
	}
	return mk(KIface, 0, nil, 0, t, nil, x)
}

// strip removes interface and numerically transparent wrappers.
func strip(v *V) *V {
	for v.k == KIface {
		v = v.args[0]
	}
	return v
}

func vEq(x, y *V) *V {
	x1, y1 := strip(x), strip(y)
	if x1 == y1 {
		return vBool(true)
	}
	if x1.isConst() && y1.isConst() {
		if x1.c != nil && y1.c != nil {
			if x1.c.Kind() == y1.c.Kind() || (x1.c.Kind() != constant.Bool && y1.c.Kind() != constant.Bool && x1.c.Kind() != constant.String && y1.c.Kind() != constant.String) {
				return vBool(constant.Compare(x1.c, token.EQL, y1.c))
			}
		}
		return vBool(false)
	}
	if x.isNilC() {
		x, y, x1, y1 = y, x, y1, x1
	}
	if y.isNilC() {
		if x.k == KIface {
			return vBool(false)
		}
		return vIsNil(x)
	}
	if x1.isConst() && x1.c != nil && x1.c.Kind() == constant.Bool {
		x1, y1 = y1, x1
	}
	if y1.isTrue() {
		return x1
	}
	if y1.isFalse() {
		return vNot(x1)
	}
	if x1.isConst() || (!y1.isConst() && x1.id > y1.id) {
		x1, y1 = y1, x1
	}
	// distinct constants-like objects
	if distinctObj(x1, y1) {
		return vBool(false)
	}
	if y1.isConst() {
		// normalise x+c == d
		if x1.k == KBin && (x1.op == token.ADD || x1.op == token.SUB) && x1.args[1].isConst() && x1.args[1].c != nil && y1.c != nil && y1.c.Kind() == constant.Int && x1.args[1].c.Kind() == constant.Int {
			op := token.SUB
			if x1.op == token.SUB {
				op = token.ADD
			}
			return vEq(x1.args[0], vConst(constant.BinaryOp(y1.c, op, x1.args[1].c)))
		}
		if r := bitEq(x1, y1); r != nil {
			return r
		}
	}
	return mk(KEq, 0, nil, 0, nil, nil, x1, y1)
}

// bitEq turns comparisons of a value with a single unknown bit with a constant into a bit atom.
func bitEq(x, c *V) *V {
	n, ok := c.intC()
	if !ok || (x.k != KBin && x.k != KConv) {
		return nil
	}
	bs := bitsOf(x)
	var unk *Bit
	un := -1
	cnt := 0
	for i := range bs {
		want := n>>uint(i)&1 == 1
		if i >= 63 {
			want = false
		}
		switch bs[i].kind {
		case 0:
			if want {
				return vBool(false)
			}
		case 1:
			if !want {
				return vBool(false)
			}
		default:
			if bs[i].src == x {
				return nil
			}
			cnt++
			b := bs[i]
			unk = &b
			un = i
		}
	}
	if cnt == 0 {
		return vBool(true)
	}
	if cnt > 1 {
		return nil
	}
	a := vBit(unk.src, unk.idx)
	if n>>uint(un)&1 == 1 {
		return a
	}
	return vNot(a)
}

func vBit(src *V, idx int) *V { return mk(KBit, 0, nil, int64(idx), nil, nil, src) }

func isObj(v *V) bool {
	return v.k == KAlloc || v.k == KFunc || v.k == KClosure || v.k == KGlobal || (v.k == KStale && isObj(v.args[0])) || isErrGlobal(v)
}

func isErrGlobal(v *V) bool {
	return v.k == KLoad && len(v.args) == 1 && v.args[0].k == KGlobal && isErrorType(v.typ)
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// distinctObj: the terms certainly denote different values.
func distinctObj(x, y *V) bool {
	if x == y {
		return false
	}
	if isObj(x) && isObj(y) && x.k != KClosure && y.k != KClosure {
		return true
	}
	// fresh allocations differ from everything that existed before
	if (x.k == KAlloc && (y.k == KLoad || y.k == KSym) && !y.frsh) || (y.k == KAlloc && (x.k == KLoad || x.k == KSym) && !x.frsh) {
		return true
	}
	return false
}

func nonNilTerm(v *V) bool {
	switch v.k {
	case KAlloc, KFunc, KClosure, KGlobal, KField, KIface, KBound, KIdx:
		return true
	case KConst:
		return v.c != nil
	case KStale:
		return nonNilTerm(v.args[0])
	case KLoad:
		return isErrGlobal(v) || isOpErr(v)
	case KPure:
		switch v.aux.(string) {
		case "ctx.child", "ctx.value", "cancel", "done", "ErrVal", "nonnil":
			return true
		}
	case KFresh:
		return v.n >= 1000000 // fresh results known not to be nil
	}
	return false
}

// isOpErr: the cause of a *net.OpError, which is always there.
func isOpErr(v *V) bool {
	f, ok := v.args[0].aux.(*types.Var)
	return v.args[0].k == KField && ok && f.Name() == "Err" && f.Pkg() != nil && f.Pkg().Path() == "net"
}

func vIsNil(x *V) *V {
	if x.isNilC() {
		return vBool(true)
	}
	if nonNilTerm(x) {
		return vBool(false)
	}
	return mk(KNil, 0, nil, 0, nil, nil, x)
}

func vLt(x, y *V) *V { // x < y
	if x == y {
		return vBool(false)
	}
	if x.isConst() && y.isConst() && x.c != nil && y.c != nil && x.c.Kind() == y.c.Kind() && x.c.Kind() != constant.Bool {
		return vBool(constant.Compare(x.c, token.LSS, y.c))
	}
	norm := func(a, b *V) (*V, *V) { // a = t+c, b = d
		if a.k == KBin && (a.op == token.ADD || a.op == token.SUB) && a.args[1].isConst() && a.args[1].c != nil && b.isConst() && b.c != nil && b.c.Kind() == constant.Int && a.args[1].c.Kind() == constant.Int && !isUnsigned(a.typ) {
			op := token.SUB
			if a.op == token.SUB {
				op = token.ADD
			}
			return a.args[0], vConst(constant.BinaryOp(b.c, op, a.args[1].c))
		}
		return a, b
	}
	for i := 0; i < 4; i++ {
		x0, y0 := x, y
		x, y = norm(x, y)
		y, x = norm(y, x)
		if x == x0 && y == y0 {
			break
		}
	}
	return mk(KLt, 0, nil, 0, nil, nil, x, y)
}

func isUnsigned(t types.Type) bool { return isBasic(t, types.IsUnsigned) }

func widthOf(t types.Type) int {
	if t == nil {
		return 64
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func wrapInt(c constant.Value, t types.Type) constant.Value {
	if c == nil || c.Kind() != constant.Int || !isBasic(t, types.IsInteger) {
		return c
	}
	w := uint(widthOf(t))
	mod := constant.Shift(constant.MakeInt64(1), token.SHL, w)
	// r = c mod 2^w
	mask := constant.BinaryOp(mod, token.SUB, constant.MakeInt64(1))
	var r constant.Value
	if constant.Sign(c) >= 0 {
		r = constant.BinaryOp(c, token.AND, mask)
	} else {
		// two's complement
		r = constant.BinaryOp(c, token.AND, mask)
	}
	if !isUnsigned(t) {
		half := constant.Shift(constant.MakeInt64(1), token.SHL, w-1)
		if constant.Compare(r, token.GEQ, half) {
			r = constant.BinaryOp(r, token.SUB, mod)
		}
	}
	return r
}

func vBin(op token.Token, x, y *V, t types.Type) *V {
	switch op {
	case token.EQL:
		return vEq(x, y)
	case token.NEQ:
		return vNot(vEq(x, y))
	case token.LSS:
		return vLt(x, y)
	case token.GTR:
		return vLt(y, x)
	case token.LEQ:
		return vNot(vLt(y, x))
	case token.GEQ:
		return vNot(vLt(x, y))
	}
	if x.isConst() && y.isConst() && x.c != nil && y.c != nil && x.c.Kind() != constant.Bool && x.c.Kind() != constant.String || (x.isConst() && y.isConst() && x.c != nil && y.c != nil && x.c.Kind() == constant.String && op == token.ADD) {
		switch op {
		case token.SHL, token.SHR:
			if n, ok := y.intC(); ok && n >= 0 && n < 128 {
				return vConst(wrapInt(constant.Shift(x.c, op, uint(n)), t))
			}
		case token.QUO, token.REM:
			if constant.Sign(y.c) != 0 {
				o := op
				if op == token.QUO {
					o = token.QUO_ASSIGN
				}
				if x.c.Kind() == constant.Int && y.c.Kind() == constant.Int {
					return vConst(wrapInt(constant.BinaryOp(x.c, o, y.c), t))
				}
			}
		case token.AND_NOT:
			return vConst(wrapInt(constant.BinaryOp(x.c, op, y.c), t))
		default:
			return vConst(wrapInt(constant.BinaryOp(x.c, op, y.c), t))
		}
	}
	yn, yok := y.intC()
	xn, xok := x.intC()
	switch op {
	case token.ADD:
		if yok && yn == 0 {
			return x
		}
		if xok && xn == 0 {
			return y
		}
		if xok && !yok { // constants to the right
			x, y = y, x
			xn, yn, xok, yok = yn, xn, yok, xok
		}
		// (a+c)+d
		if yok && x.k == KBin && (x.op == token.ADD || x.op == token.SUB) {
			if c, ok := x.args[1].intC(); ok {
				if x.op == token.SUB {
					c = -c
				}
				return vBin(token.ADD, x.args[0], vInt(c+yn), t)
			}
		}
	case token.SUB:
		if yok && yn == 0 {
			return x
		}
		if x == y {
			return vInt(0)
		}
		if yok {
			return vBin(token.ADD, x, vInt(-yn), t)
		}
	case token.MUL:
		if xok && !yok {
			x, y = y, x
			yn, yok = xn, true
		}
		if yok && yn == 1 {
			return x
		}
		if yok && yn == 0 {
			return vInt(0)
		}
	case token.AND:
		if xok && !yok {
			x, y = y, x
			yn, yok = xn, true
		}
		if yok && yn == 0 {
			return vInt(0)
		}
		if x == y {
			return x
		}
	case token.OR:
		if xok && !yok {
			x, y = y, x
			yn, yok = xn, true
		}
		if yok && yn == 0 {
			return x
		}
		if x == y {
			return x
		}
	case token.XOR:
		if yok && yn == 0 {
			return x
		}
	case token.SHL, token.SHR:
		if yok && yn == 0 {
			return x
		}
	}
	return mk(KBin, op, nil, 0, t, nil, x, y)
}

func vConv(x *V, from, to types.Type) *V {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		if x.isConst() && x.c != nil {
			return vConst(wrapInt(x.c, to))
		}
		fw, tw := widthOf(from), widthOf(to)
		fu, tu := isUnsigned(from), isUnsigned(to)
		if fu == tu && tw >= fw || (fu && !tu && tw > fw) {
			return x // lossless
		}
		return mk(KConv, 0, nil, 0, to, nil, x)
	}
	if ok1 && ok2 && fb.Info()&types.IsString == 0 && tb.Info()&types.IsString == 0 {
		if x.isConst() {
			return x
		}
		return mk(KConv, 0, nil, 0, to, nil, x)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	// pointers / unsafe
	_, p1 := from.Underlying().(*types.Pointer)
	_, p2 := to.Underlying().(*types.Pointer)
	up1 := ok1 && fb.Kind() == types.UnsafePointer
	up2 := ok2 && tb.Kind() == types.UnsafePointer
	if (p1 || up1) && (p2 || up2) {
		return x
	}
	if x.isConst() && x.c != nil && ok1 && ok2 {
		return mk(KConv, 0, nil, 0, to, nil, x)
	}
	return mk(KConv, 0, nil, 0, to, nil, x)
}

func vField(base *V, f *types.Var) *V {
	return mk(KField, 0, f, 0, f.Type(), nil, base)
}

func vIdx(base, idx *V) *V {
	r, off := rootOff(base)
	if off != nil {
		idx = vBin(token.ADD, idx, off, types.Typ[types.Int])
	}
	return mk(KIdx, 0, nil, 0, nil, nil, r, idx)
}

// rootOff: root array of a slice value and offset (nil when 0).
func rootOff(v *V) (*V, *V) {
	switch v.k {
	case KSlice:
		r, off := rootOff(v.args[0])
		lo := v.args[1]
		if n, ok := lo.intC(); ok && n == 0 {
			return r, off
		}
		if off == nil {
			return r, lo
		}
		return r, vBin(token.ADD, off, lo, types.Typ[types.Int])
	case KApp:
		return v.args[0], nil
	}
	return v, nil
}

func rootOf(v *V) *V { r, _ := rootOff(v); return r }

func vSlice(base, lo, hi *V) *V {
	if lo == nil {
		lo = vInt(0)
	}
	if hi == nil {
		hi = vNil()
	}
	if n, ok := lo.intC(); ok && n == 0 && hi.isNilC() {
		return base
	}
	if base.k == KSlice {
		// x[a:b][c:d] = x[a+c:a+d]
		b2, lo2, hi2 := base.args[0], base.args[1], base.args[2]
		nlo := vBin(token.ADD, lo2, lo, types.Typ[types.Int])
		nhi := hi2
		if !hi.isNilC() {
			nhi = vBin(token.ADD, lo2, hi, types.Typ[types.Int])
		}
		return mk(KSlice, 0, nil, 0, nil, nil, b2, nlo, nhi)
	}
	if base.k == KApp && !hi.isNilC() {
		// the array is shared; the bounds say everything about the value
		return mk(KSlice, 0, nil, 0, nil, nil, base.args[0], lo, hi)
	}
	return mk(KSlice, 0, nil, 0, nil, nil, base, lo, hi)
}

func vLen(x *V) *V {
	switch x.k {
	case KConst:
		if x.c == nil {
			return vInt(0)
		}
		if x.c.Kind() == constant.String {
			return vInt(int64(len(constant.StringVal(x.c))))
		}
	case KSlice:
		hi := x.args[2]
		if hi.isNilC() {
			hi = vLen(x.args[0])
		}
		return vBin(token.SUB, hi, x.args[1], types.Typ[types.Int])
	case KPure:
		if x.aux == "make" { // make(site-less) not used
			return x.args[0]
		}
	}
	return mk(KLen, 0, nil, 0, types.Typ[types.Int], nil, x)
}

func vAssert(x *V, t types.Type) *V   { return mk(KAssert, 0, nil, 0, t, nil, x) }
func vAssertOk(x *V, t types.Type) *V { return mk(KAssertOk, 0, nil, 0, t, nil, x) }
func vStale(x *V) *V {
	if x.k == KStale {
		return x
	}
	return mk(KStale, 0, nil, 0, x.typ, nil, x)
}
func vMapEl(m, k *V) *V { return mk(KMapEl, 0, nil, 0, nil, nil, m, strip(k)) }

func vFieldVal(x *V, i int, t types.Type) *V {
	if x.k == KAgg && i < len(x.args) {
		return x.args[i]
	}
	if x.isNilC() {
		return zeroOf(t)
	}
	return mk(KFld, 0, nil, int64(i), t, nil, x)
}

// rebuild reconstructs a term with new arguments through the simplifying constructors.
func rebuild(v *V, a []*V) *V {
	switch v.k {
	case KNot:
		return vNot(a[0])
	case KEq:
		return vEq(a[0], a[1])
	case KLt:
		return vLt(a[0], a[1])
	case KNil:
		return vIsNil(a[0])
	case KBin:
		return vBin(v.op, a[0], a[1], v.typ)
	case KSlice:
		return vSlice(a[0], a[1], a[2])
	case KIface:
		return vIface(a[0], v.typ)
	case KLen:
		return vLen(a[0])
	case KStale:
		return vStale(a[0])
	case KFld:
		return vFieldVal(a[0], int(v.n), v.typ)
	case KIdx:
		return vIdx(a[0], a[1])
	case KMapEl:
		return vMapEl(a[0], a[1])
	}
	return mk(v.k, v.op, v.aux, v.n, v.typ, v.c, a...)
}

// subst replaces old by nw inside v.
func subst(v, old, nw *V, memo map[*V]*V) *V {
	if v == old {
		return nw
	}
	if len(v.args) == 0 || (old.frsh && !v.frsh) {
		return v
	}
	if v.id < old.id { // arguments always have smaller ids
		return v
	}
	if r, ok := memo[v]; ok {
		return r
	}
	changed := false
	var a []*V
	for i, x := range v.args {
		y := subst(x, old, nw, memo)
		if y != x && !changed {
			changed = true
			a = append([]*V{}, v.args...)
		}
		if changed {
			a[i] = y
		}
	}
	r := v
	if changed {
		if v.k == KStale && v.args[0] == old {
			r = v
		} else {
			r = rebuild(v, a)
		}
	}
	memo[v] = r
	return r
}

func contains(v, x *V) bool {
	if v == x {
		return true
	}
	if v.id < x.id {
		return false
	}
	for _, a := range v.args {
		if contains(a, x) {
			return true
		}
	}
	return false
}

// baseOf walks to the object an address or value is part of.
func baseOf(v *V) *V {
	for {
		switch v.k {
		case KField, KIdx, KMapEl, KFld, KSlice, KApp, KLoad, KIface, KAssert:
			v = v.args[0]
		default:
			return v
		}
	}
}

// objOf walks an address to its object without going through loads.
func objOf(v *V) *V {
	for v.k == KField || v.k == KIdx || v.k == KMapEl {
		v = v.args[0]
	}
	return v
}

// ---- printing

func (v *V) String() string { return v.str(0) }

func (v *V) str(d int) string {
	if v == nil {
		return "<nil>"
	}
	if d > 8 {
		return "…"
	}
	a := func(i int) string { return v.args[i].str(d + 1) }
	switch v.k {
	case KConst:
		if v.c == nil {
			return "nil"
		}
		return v.c.String()
	case KSym:
		return fmt.Sprint(v.aux)
	case KGlobal:
		return "&" + v.aux.(*ssa.Global).Name()
	case KFunc:
		return v.aux.(*ssa.Function).Name()
	case KClosure:
		return "closure " + v.aux.(*ssa.Function).Name()
	case KAlloc:
		return "new@" + siteStr(v)
	case KFresh:
		return "res@" + siteStr(v)
	case KField:
		return "&" + strings.TrimPrefix(a(0), "&") + "." + v.aux.(*types.Var).Name()
	case KIdx:
		return "&" + a(0) + "[" + a(1) + "]"
	case KLoad:
		s := a(0)
		if strings.HasPrefix(s, "&") {
			return s[1:]
		}
		return "*" + s
	case KBin:
		return "(" + a(0) + v.op.String() + a(1) + ")"
	case KNot:
		return "!" + a(0)
	case KEq:
		return a(0) + "==" + a(1)
	case KLt:
		return a(0) + "<" + a(1)
	case KNil:
		return a(0) + "==nil"
	case KBit:
		return fmt.Sprintf("bit%d(%s)", v.n, a(0))
	case KUn:
		return v.op.String() + a(0)
	case KConv:
		return types.TypeString(v.typ, shortQual) + "(" + a(0) + ")"
	case KSlice:
		hi := ""
		if !v.args[2].isNilC() {
			hi = a(2)
		}
		return a(0) + "[" + a(1) + ":" + hi + "]"
	case KApp:
		return "append(" + a(0) + "..)"
	case KLen:
		return "len(" + a(0) + ")"
	case KIface:
		return a(0)
	case KFld:
		return a(0) + "." + strconv.Itoa(int(v.n))
	case KPure:
		var p []string
		for i := range v.args {
			p = append(p, a(i))
		}
		return v.aux.(string) + "(" + strings.Join(p, ",") + ")"
	case KAssert:
		return a(0) + ".(" + types.TypeString(v.typ, shortQual) + ")"
	case KAssertOk:
		return a(0) + " is " + types.TypeString(v.typ, shortQual)
	case KStale:
		return "old(" + a(0) + ")"
	case KMapEl:
		return a(0) + "[" + a(1) + "]"
	}
	var p []string
	for i := range v.args {
		p = append(p, a(i))
	}
	return fmt.Sprintf("k%d(%s)", v.k, strings.Join(p, ","))
}

func shortQual(p *types.Package) string { return p.Name() }

func siteStr(v *V) string {
	if s, ok := v.aux.(*Site); ok {
		if s.instr != nil {
			p := s.instr.Parent()
			return p.Name() + ":" + instrName(s.instr)
		}
		return s.name
	}
	return fmt.Sprint(v.aux)
}

func instrName(i ssa.Instruction) string {
	if v, ok := i.(ssa.Value); ok {
		return v.Name()
	}
	return fmt.Sprintf("%T", i)
}
