package main

import (
	"container/heap"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// EvKind classifies events shown to monitors.
type EvKind uint8

const (
	EvCall   EvKind = iota // opaque or modelled call, already resolved; Name
	EvUser                 // call of an unknown function value
	EvEnter                // inlined call entered
	EvExit                 // inlined call left
	EvLoad                 // memory read
	EvStore                // memory write
	EvAtomic               // atomic operation, Op
	EvSend                 // channel send
	EvRecv                 // channel receive
	EvSelect               // about to select
	EvClose                // close(ch)
	EvMapUpdate
	EvMapDelete
	EvMapLookup
	EvLock
	EvUnlock
	EvGo
	EvAppend
	EvCopy
	EvPanic
	EvReturn    // root returned
	EvPanicExit // root left by panic
	EvThreadEnd // followed goroutine ended
	EvBranch
	EvSpawned // first event of a followed goroutine
	EvMake    // make of slice: Val len
	EvNext    // iteration step
	EvDefer
)

// SelCase is one case of a select.
type SelCase struct {
	Send bool
	Ch   *V
	Val  *V
}

// Event seen by a monitor.
type Event struct {
	Pre      map[*V]*V // memory before an opaque call forgot what it may modify (Config.KeepPre)
	Kind     EvKind
	In       ssa.Instruction
	Fn       *ssa.Function
	Name     string
	Op       string
	Args     []*V
	Res      *V
	Addr     *V
	Val      *V
	Ch       *V
	Sel      bool
	Cases    []SelCase
	Blocking bool
	Field    *types.Var
	Deferred bool
}

// Monitor is a property automaton.
type Monitor interface {
	Clone() Monitor
	Key() string
	Subst(func(*V) *V)
	Terms(func(*V))
	On(s *State, e *Event)
}

// Config of an exploration.
type Config struct {
	KeepPre     bool
	Opaque      func(fn *ssa.Function) bool
	UserPanics  func(e *Event) bool
	FollowGo    func(e *Event) bool
	InlineGo    func(e *Event) bool // goroutines run in place, at their start
	Impls       func(iface types.Type, m *types.Func) []*ssa.Function
	MaxDepth    int
	MaxStates   int
	Exact       bool                                      // nothing is generalised in loops: the monitor bounds them
	Concrete    bool                                      // constant integers are followed step by step
	Result      func(s *State, name string, args []*V) *V // the result of an opaque call, if prescribed
	FirstLoad   func(s *State, addr, val *V)
	PureCall    func(name string) bool
	NilAsserts  bool // type assertions without second result may meet nil and panic
	NoKill      bool // single threaded reasoning: locks do not invalidate memory
	ShallowRecv bool
	// Range: the members an iteration over a map goes through (false: unknown)
	Range func(s *State, m *V) (keys, vals []*V, ok bool)
	// Next continues a returned root with another function (a history of calls)
	Next func(s *State, e *Event) (*ssa.Function, []*V)
	// Pick: the element a receive from the channel may give once (nil: none)
	Pick func(s *State, ch *V) *V
}

// pick forks a receive that may give the element singled out.
func (ex *Explorer) pick(s *State, ch *V) (*State, *V) {
	if ex.cfg.Pick == nil {
		return nil, nil
	}
	v := ex.cfg.Pick(s, ch)
	if v == nil {
		return nil, nil
	}
	mark := vPure("picked", nil, v)
	if s.mem[mark] != nil {
		return nil, nil
	}
	o := s.clone()
	o.mem[mark] = vBool(true)
	return o, v
}

var debugDump, _ = strconv.Atoi(os.Getenv("CHK_DUMP"))

type item struct {
	st  *State
	pos []int
	seq int
}
type pq []*item

func (p pq) Len() int { return len(p) }
func (p pq) Less(i, j int) bool {
	c := cmpPos(p[i].pos, p[j].pos)
	if c != 0 {
		return c < 0
	}
	return p[i].seq < p[j].seq
}
func (p pq) Swap(i, j int)       { p[i], p[j] = p[j], p[i] }
func (p *pq) Push(x interface{}) { *p = append(*p, x.(*item)) }
func (p *pq) Pop() interface{} {
	o := *p
	x := o[len(o)-1]
	*p = o[:len(o)-1]
	return x
}

// Explorer runs one exploration.
type Explorer struct {
	prog    *Program
	cfg     Config
	queue   pq
	local   []*State
	visited map[string][]*Facts
	seq     int
	threads int
	err     error

	States, Steps, Merged, Paths int
	Funcs                        map[*ssa.Function]bool
	Sites                        map[ssa.Instruction]bool
	reporter                     func(rule, construct string, in ssa.Instruction, msg string, s *State)
}

func newExplorer(p *Program, cfg Config) *Explorer {
	if cfg.MaxDepth == 0 {
		cfg.MaxDepth = 24
	}
	if cfg.MaxStates == 0 {
		cfg.MaxStates = maxStatesDefault
	}
	return &Explorer{prog: p, cfg: cfg, visited: map[string][]*Facts{}, Funcs: map[*ssa.Function]bool{}, Sites: map[ssa.Instruction]bool{}}
}

// Start makes the initial state of a root function.
func (ex *Explorer) Start(fn *ssa.Function, args []*V, free []*V, mons ...Monitor) *State {
	s := &State{ex: ex, mem: map[*V]*V{}, facts: newFacts(), made: map[*V]bool{}, mons: mons}
	f := &Frame{fn: fn, ctx: getCtx(nil, nil, fn), env: map[ssa.Value]*V{}, kind: fkRoot}
	if len(fn.Blocks) > 0 {
		f.blk = fn.Blocks[0]
	}
	for i, p := range fn.Params {
		if i < len(args) && args[i] != nil {
			f.env[p] = args[i]
		} else {
			f.env[p] = vSym(p.Name(), p.Type())
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(free) && free[i] != nil {
			f.env[p] = free[i]
		} else {
			f.env[p] = vSym(p.Name(), p.Type())
		}
	}
	s.fr = []*Frame{f}
	ex.Funcs[fn] = true
	return s
}

// Run explores from the given states.
func (ex *Explorer) Run(sts ...*State) error {
	ex.local = append(ex.local, sts...)
	for ex.err == nil {
		for len(ex.local) > 0 && ex.err == nil {
			s := ex.local[len(ex.local)-1]
			ex.local = ex.local[:len(ex.local)-1]
			ex.runState(s)
		}
		if ex.err != nil || len(ex.queue) == 0 {
			break
		}
		// take all states at the first position
		first := heap.Pop(&ex.queue).(*item)
		batch := []*State{first.st}
		for len(ex.queue) > 0 && cmpPos(ex.queue[0].pos, first.pos) == 0 {
			batch = append(batch, heap.Pop(&ex.queue).(*item).st)
		}
		ex.admit(batch)
	}
	return ex.err
}

func (ex *Explorer) admit(batch []*State) {
	groups := map[string][]*State{}
	var order []string
	for _, s := range batch {
		s.gc()
		k := s.key()
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], s)
	}
	for _, k := range order {
		g := groups[k]
		// merge losslessly
		for changed := true; changed; {
			changed = false
		outer:
			for i := 0; i < len(g); i++ {
				for j := i + 1; j < len(g); j++ {
					if m := tryMerge(g[i].facts, g[j].facts); m != nil {
						g[i].facts = m
						if m == g[j].facts {
							g[i].facts = m
						}
						g = append(g[:j], g[j+1:]...)
						ex.Merged++
						changed = true
						break outer
					}
				}
			}
		}
		for _, s := range g {
			skip := false
			for _, f := range ex.visited[k] {
				if s.facts.implies(f) {
					skip = true
					break
				}
			}
			if skip {
				continue
			}
			ex.visited[k] = append(ex.visited[k], s.facts.clone())
			ex.States++
			if debugDump > 0 && ex.States > ex.cfg.MaxStates-debugDump {
				s.dump()
			}
			if ex.States > ex.cfg.MaxStates {
				ex.err = fmt.Errorf("state limit of %d exceeded in %s", ex.cfg.MaxStates, s.fr[0].fn)
				return
			}
			ex.local = append(ex.local, s)
		}
	}
}

func (ex *Explorer) enqueue(s *State) {
	ex.seq++
	heap.Push(&ex.queue, &item{s, s.pos(), ex.seq})
}

func (ex *Explorer) emit(s *State, e *Event) {
	for _, m := range s.mons {
		if s.dead {
			return
		}
		m.On(s, e)
	}
	if len(s.alts) > 0 && !s.dead {
		for len(s.alts) > 0 {
			a := s.alts[0]
			s.alts = s.alts[1:]
			a(s)
		}
	}
}

// runState executes until the state ends, forks into the local stack or reaches a join.
func (ex *Explorer) runState(s *State) {
	for !s.dead && ex.err == nil {
		ex.Steps++
		if ex.Steps > 60_000_000 || len(interned) > 20_000_000 {
			ex.err = fmt.Errorf("step limit exceeded in %s", s.fr[0].fn)
			return
		}
		if len(s.fr) == 0 {
			ex.Paths++
			return
		}
		f := s.top()
		if f.unwinding {
			if ex.unwind(s) {
				continue
			}
			return
		}
		if f.idx >= len(f.blk.Instrs) {
			ex.err = fmt.Errorf("ran off block in %s", f.fn)
			return
		}
		if ex.step(s, f, f.blk.Instrs[f.idx]) {
			return
		}
	}
}

func (s *State) val(v ssa.Value) *V {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroOfConst(x.Type())
		}
		c := x.Value
		if isBasic(x.Type(), types.IsInteger) {
			if c.Kind() != constant.Int {
				c = constant.ToInt(c)
			}
		}
		return vConst(c)
	case *ssa.Global:
		return mk(KGlobal, 0, x, 0, x.Type(), nil)
	case *ssa.Function:
		return mk(KFunc, 0, x, 0, x.Type(), nil)
	case *ssa.Builtin:
		return vNil()
	}
	if t, ok := s.top().env[v]; ok {
		return t
	}
	s.ex.err = fmt.Errorf("no value for %s in %s (%s)", v.Name(), s.top().fn, v)
	s.dead = true
	return vNil()
}

func zeroOfConst(t types.Type) *V {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() != types.UntypedNil && b.Kind() != types.UnsafePointer {
		return zeroOf(t)
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		return zeroOf(t)
	}
	return vNil()
}

func (s *State) set(v ssa.Value, t *V) {
	s.top().env[v] = t
	s.top().idx++
}

func (s *State) siteFresh(in ssa.Instruction, n int64, typ types.Type, name string) *V {
	return s.fresh(mk(KFresh, 0, getSite(s.top().ctx, in, name), n, typ, nil))
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// goTo transfers to a successor block; true when the state has been queued.
func (ex *Explorer) goTo(s *State, to *ssa.BasicBlock) bool {
	f := s.top()
	from := f.blk
	li := live(f.fn)
	back := li.rpo[to] <= li.rpo[from] && li.loops[to]
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	f.prev, f.blk = from, to
	if len(phis) > 0 {
		vals := make([]*V, len(phis))
		olds := make([]*V, len(phis))
		for i, p := range phis {
			vals[i] = s.val(p.Edges[pi])
			olds[i] = f.env[p]
		}
		// drop the old phi values and dead registers first so that loop counters do not linger
		for _, p := range phis {
			delete(f.env, p)
		}
		if back {
			lv := map[ssa.Value]bool{}
			for _, v := range li.liveAt(to, len(phis)) {
				lv[v] = true
			}
			for v := range f.env {
				if !lv[v] {
					delete(f.env, v)
				}
			}
		}
		for i, p := range phis {
			v := vals[i]
			if ex.cfg.Exact {
				f.env[p] = v
				continue
			}
			if n, isC := v.intC(); back && isC && (ex.cfg.Concrete || n <= 4 && n >= -1 && s.smallBound(f, p)) {
				// a loop over a handful of elements is followed step by step
			} else if back && isBasic(p.Type(), types.IsInteger) && olds[i] != nil && v != olds[i] && !v.isFalse() {
				site := getSite(f.ctx, p, "phi")
				fr := mk(KFresh, 0, site, 0, p.Type(), nil)
				lo := s.facts.interval(v).lo
				if olds[i] == fr || olds[i].k == KStale {
					if l := s.facts.interval(olds[i]).lo; l < lo {
						lo = l
					}
				} else if !olds[i].isConst() || !v.isConst() {
					lo = math.MinInt64
					if _, ok := olds[i].intC(); ok && v.k == KBin {
						lo = s.facts.interval(v).lo
					}
				}
				inc := incPhi(p)
				if !inc {
					lo = math.MinInt64
				}
				delete(s.facts.iv, fr)
				nv := s.fresh(fr)
				if lo != math.MinInt64 {
					s.facts.iv[nv] = ival{lo, 1 << 62} // nothing counts that far
				} else {
					delete(s.facts.iv, nv)
				}
				delete(s.facts.ne, nv)
				v = nv
				// later phis may refer to renamed terms
				for j := i + 1; j < len(phis); j++ {
					if vals[j] == fr {
						vals[j] = vStale(fr)
					} else if vals[j].frsh && contains(vals[j], fr) {
						vals[j] = subst(vals[j], fr, vStale(fr), map[*V]*V{})
					}
				}
			} else if n, ok := v.intC(); back && olds[i] == nil && isBasic(p.Type(), types.IsInteger) && (ok && (n > 3 || n < -3) && !isConstEdge(p, n) || v.k == KBin) {
				v = s.siteFresh(p, 0, p.Type(), "phi")
				delete(s.facts.iv, v)
				delete(s.facts.ne, v)
			} else if back && termDepth(v) > 14 {
				v = s.siteFresh(p, 0, p.Type(), "phi")
			}
			f.env[p] = v
		}
	}
	f.idx = len(phis)
	if len(to.Preds) > 1 || back {
		ex.enqueue(s)
		return true
	}
	return false
}

// smallBound: the loop compares its counter with a constant of at most four.
func (s *State) smallBound(f *Frame, p *ssa.Phi) bool {
	small := func(v ssa.Value) bool {
		var y *V
		if k, ok := v.(*ssa.Const); ok {
			y = s.val(k)
		} else if w, ok := f.env[v]; ok {
			y = w
		} else if call, ok := v.(*ssa.Call); ok {
			// its length, asked each time
			b, ok := call.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return false
			}
			if w, ok := f.env[call.Call.Args[0]]; ok {
				y = vLen(w)
			}
		}
		if y == nil {
			return false
		}
		if n, ok := y.intC(); ok {
			return n >= 0 && n <= 4
		}
		iv := s.facts.interval(y)
		return iv.lo == iv.hi && iv.lo >= 0 && iv.lo <= 4
	}
	var chk func(v ssa.Value, deep bool) bool
	chk = func(v ssa.Value, deep bool) bool {
		for _, r := range *v.Referrers() {
			b, ok := r.(*ssa.BinOp)
			if !ok {
				continue
			}
			o := b.Y
			if o == v {
				o = b.X
			}
			switch b.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ, token.EQL, token.NEQ:
				if small(o) {
					return true
				}
			case token.ADD, token.SUB:
				if _, isC := o.(*ssa.Const); isC && deep && chk(b, false) {
					return true
				}
			}
		}
		return false
	}
	return isBasic(p.Type(), types.IsInteger) && chk(p, true)
}

// isConstEdge: the phi gets this constant directly.
func isConstEdge(p *ssa.Phi, n int64) bool {
	for _, e := range p.Edges {
		if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int && k.Int64() == n {
			return true
		}
	}
	return false
}

// incPhi: every back edge value of the phi is phi + positive constant (or the phi itself).
// selfUpdate: the store adds to or subtracts from the place it writes.
func selfUpdate(x *ssa.Store) bool {
	b, ok := x.Val.(*ssa.BinOp)
	if !ok || b.Op != token.ADD && b.Op != token.SUB || !isBasic(b.Type(), types.IsInteger) {
		return false
	}
	for _, o := range []ssa.Value{b.X, b.Y} {
		if u, ok := o.(*ssa.UnOp); ok && u.Op == token.MUL && samePlace(u.X, x.Addr) {
			return true
		}
	}
	return false
}

func samePlace(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && types.Identical(x.X.Type(), y.X.Type())
	case *ssa.IndexAddr:
		_, ok := b.(*ssa.IndexAddr)
		return ok
	}
	return false
}

// grown: the value was counted up a few times.
func grown(v *V) bool {
	if n, ok := v.intC(); ok {
		return n > 4 || n < -4
	}
	if v.k == KBin {
		for _, a := range v.args {
			if n, ok := a.intC(); ok && (n > 2 || n < -2) {
				return true
			}
		}
		return termSize(v, 12) >= 12
	}
	return false
}

// termSize counts the nodes of a term up to a bound.
func termSize(v *V, max int) int {
	n := 1
	for _, a := range v.args {
		if n >= max {
			break
		}
		n += termSize(a, max-n)
	}
	return n
}

func incPhi(p *ssa.Phi) bool {
	for _, e := range p.Edges {
		if e == ssa.Value(p) {
			continue
		}
		if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD {
			x, y := b.X, b.Y
			if x != ssa.Value(p) {
				x, y = y, x
			}
			if x == ssa.Value(p) {
				if c, ok := y.(*ssa.Const); ok && c.Value != nil && constant.Sign(c.Value) > 0 {
					continue
				}
				return false
			}
		}
		// must come from outside the loop: dominating value
		if in, ok := e.(ssa.Instruction); ok {
			if in.Block() == nil || !(in.Block() != p.Block() && in.Block().Dominates(p.Block())) {
				return false
			}
		}
	}
	return true
}

// stepOne: the loop index value of a comparison increases by exactly one per iteration.
func stepOne(x ssa.Value) bool {
	chk := func(p *ssa.Phi) bool {
		for _, e := range p.Edges {
			if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD && (b.X == ssa.Value(p) || b.Y == ssa.Value(p)) {
				c, ok := b.Y.(*ssa.Const)
				if !ok {
					c, ok = b.X.(*ssa.Const)
				}
				if !ok || c.Value == nil || constant.Compare(c.Value, token.NEQ, constant.MakeInt64(1)) {
					return false
				}
			}
		}
		return true
	}
	switch y := x.(type) {
	case *ssa.Phi:
		return chk(y)
	case *ssa.BinOp:
		if y.Op == token.ADD {
			if p, ok := y.X.(*ssa.Phi); ok {
				c, ok := y.Y.(*ssa.Const)
				return ok && c.Value != nil && constant.Compare(c.Value, token.EQL, constant.MakeInt64(1)) && chk(p)
			}
		}
	case *ssa.UnOp: // variable in memory
		return true
	}
	return false
}

var depthCache = map[*V]int{}

func termDepth(v *V) int {
	if len(v.args) == 0 {
		return 1
	}
	if d, ok := depthCache[v]; ok {
		return d
	}
	d := 0
	for _, a := range v.args {
		if x := termDepth(a); x > d {
			d = x
		}
	}
	depthCache[v] = d + 1
	return d + 1
}

// step executes one instruction; true when the state must not be continued by the caller.
func (ex *Explorer) step(s *State, f *Frame, in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.DebugRef:
		f.idx++
	case *ssa.Phi:
		f.idx++
	case *ssa.Alloc:
		t := s.fresh(mk(KAlloc, 0, getSite(f.ctx, x, ""), 0, x.Type(), nil))
		s.dropMem(t)
		s.set(x, t)
	case *ssa.BinOp:
		s.set(x, s.binop(x))
	case *ssa.UnOp:
		return ex.unop(s, f, x)
	case *ssa.ChangeInterface:
		s.set(x, s.val(x.X))
	case *ssa.ChangeType:
		s.set(x, s.val(x.X))
	case *ssa.Convert:
		s.set(x, simplifyBits(vConv(s.val(x.X), x.X.Type(), x.Type())))
	case *ssa.MultiConvert:
		s.set(x, vConv(s.val(x.X), x.X.Type(), x.Type()))
	case *ssa.Extract:
		t := s.val(x.Tuple)
		if t.k == KTuple && x.Index < len(t.args) {
			s.set(x, t.args[x.Index])
		} else {
			s.set(x, vFieldVal(t, x.Index, x.Type()))
		}
	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		s.set(x, s.fieldOf(s.val(x.X), st, x.Field))
	case *ssa.FieldAddr:
		st := derefType(x.X.Type()).Underlying().(*types.Struct)
		s.set(x, vField(s.val(x.X), st.Field(x.Field)))
	case *ssa.Index:
		a := s.val(x.X)
		s.set(x, vPure("index", x.Type(), a, s.val(x.Index)))
	case *ssa.IndexAddr:
		base := s.val(x.X)
		idx := s.val(x.Index)
		s.set(x, vIdx(base, s.canonIdx(base, idx)))
	case *ssa.Lookup:
		return ex.lookup(s, f, x)
	case *ssa.MakeChan:
		t := s.siteFresh(x, 1000000, x.Type(), "chan")
		s.mem[vPure("chancap", nil, t)] = s.val(x.Size)
		s.set(x, t)
		ex.emit(s, &Event{Kind: EvMake, In: x, Res: t, Val: s.mem[vPure("chancap", nil, t)], Op: "chan"})
	case *ssa.MakeMap:
		s.set(x, s.siteFresh(x, 1000000, x.Type(), "map"))
	case *ssa.MakeSlice:
		n := s.val(x.Len)
		t := s.siteFresh(x, 1000000, x.Type(), "slice")
		r := vSlice(t, vInt(0), n)
		e := &Event{Kind: EvMake, In: x, Res: r, Val: n, Op: "slice", Args: []*V{n, s.val(x.Cap)}}
		ex.emit(s, e)
		s.set(x, r)
	case *ssa.MakeClosure:
		var b []*V
		for _, y := range x.Bindings {
			b = append(b, s.val(y))
		}
		s.set(x, mk(KClosure, 0, x.Fn, 0, x.Type(), nil, b...))
	case *ssa.MakeInterface:
		s.set(x, vIface(s.val(x.X), x.X.Type()))
	case *ssa.MapUpdate:
		m, k, v := s.val(x.Map), s.val(x.Key), s.val(x.Value)
		was := s.mem[vMapEl(m, k)]
		s.mem[vMapEl(m, k)] = v
		s.addMemb(m, m, v)
		ex.emit(s, &Event{Kind: EvMapUpdate, In: x, Addr: m, Args: []*V{k}, Val: v, Res: was})
		f.idx++
	case *ssa.Range:
		m := s.val(x.X)
		s.startTrav(m, true)
		s.set(x, vPure("range", x.X.Type(), m))
	case *ssa.Next:
		return ex.next(s, f, x)
	case *ssa.Select:
		return ex.doSelect(s, f, x)
	case *ssa.Send:
		ch, v := s.val(x.Chan), s.val(x.X)
		ex.emit(s, &Event{Kind: EvSend, In: x, Ch: ch, Val: v, Blocking: true})
		s.killShared(x)
		f.idx++
	case *ssa.Slice:
		base := s.val(x.X)
		var lo, hi *V
		if x.Low != nil {
			lo = s.val(x.Low)
		}
		if x.High != nil {
			hi = s.val(x.High)
		}
		if at, ok := derefType(x.X.Type()).Underlying().(*types.Array); ok && hi == nil {
			hi = vInt(at.Len())
		}
		s.set(x, vSlice(base, lo, hi))
	case *ssa.SliceToArrayPointer:
		s.set(x, s.val(x.X))
	case *ssa.Store:
		a, v := s.val(x.Addr), s.val(x.Val)
		if !ex.cfg.Concrete && !ex.cfg.Exact && selfUpdate(x) && grown(v) {
			// a counter: how far it got is irrelevant
			lo := s.facts.interval(v).lo
			v = s.siteFresh(x, 0, x.Val.Type(), "ctr")
			delete(s.facts.iv, v)
			delete(s.facts.ne, v)
			if lo >= 0 && lo <= 8 {
				s.facts.iv[v] = ival{lo, 1 << 62}
			}
			f.env[x.Val] = v
		}
		old := s.peek(a)
		s.store(a, v)
		ex.emit(s, &Event{Kind: EvStore, In: x, Addr: a, Val: v, Field: fieldVar(a), Args: []*V{old}})
		f.idx++
	case *ssa.TypeAssert:
		if v := s.val(x.X); ex.cfg.NilAsserts && !x.CommaOk && v.k != KIface && s.facts.nilEval(v) < 0 {
			ex.fork(s, func(o *State) {
				if !o.facts.assume(vIsNil(v), true) {
					o.dead = true
					return
				}
				o.note(x, "type assertion on nil")
				o.top().unwinding, o.top().panicking = true, true
			})
			s.facts.assume(vIsNil(v), false)
		}
		s.typeAssert(x)
	case *ssa.Call:
		return ex.call(s, x, &x.Call, fkCall)
	case *ssa.Go:
		callee, args := s.evalCall(&x.Call)
		if !ex.spawn(s, x, &x.Call, callee, args, nil) {
			f.idx++
		}
	case *ssa.Defer:
		callee, args := s.evalCall(&x.Call)
		f.defers = append(f.defers, deferred{x, callee, args})
		e := &Event{Kind: EvDefer, In: x, Args: args, Val: callee}
		if fn := x.Call.StaticCallee(); fn != nil {
			e.Fn, e.Name = fn, fnName(fn)
		}
		ex.emit(s, e)
		f.idx++
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			return ex.invoke(s, d.instr, &d.instr.Call, d.callee, d.args, fkDefer)
		}
		f.idx++
	case *ssa.Panic:
		ex.emit(s, &Event{Kind: EvPanic, In: x, Val: s.val(x.X)})
		f.unwinding, f.panicking = true, true
	case *ssa.Return:
		var rs []*V
		for _, r := range x.Results {
			rs = append(rs, s.val(r))
		}
		return ex.ret(s, x, rs)
	case *ssa.Jump:
		return ex.goTo(s, f.blk.Succs[0])
	case *ssa.If:
		return ex.branch(s, f, x)
	default:
		ex.err = fmt.Errorf("unsupported instruction %T in %s", in, f.fn)
		return true
	}
	return s.dead
}

func fieldVar(a *V) *types.Var {
	if a.k == KField {
		return a.aux.(*types.Var)
	}
	return nil
}

func (s *State) binop(x *ssa.BinOp) *V {
	a, b := s.val(x.X), s.val(x.Y)
	r := vBin(x.Op, a, b, x.Type())
	return r
}

// simplifyBits replaces bit compositions of a single source by the source.
func simplifyBits(v *V) *V {
	if (v.k != KConv || !isIntType(v)) && !(v.k == KPure && v.aux == "be") {
		return v
	}
	bs := bitsOf(v)
	if len(bs) == 0 {
		return v
	}
	allc := true
	for _, b := range bs {
		if b.kind > 1 {
			allc = false
		}
	}
	if allc {
		var n uint64
		for i, b := range bs {
			if b.kind == 1 {
				n |= 1 << uint(i)
			}
		}
		return vConst(constant.MakeUint64(n))
	}
	src := bs[0].src
	if src == nil || src == v || bs[0].kind != 2 {
		return v
	}
	w := widthOf(src.typ)
	for i, b := range bs {
		if i < w {
			if b.kind != 2 || b.src != src || b.idx != i {
				return v
			}
		} else if b.kind != 0 {
			return v
		}
	}
	if w > len(bs) {
		return v
	}
	return src
}

func (s *State) fieldOf(v *V, st *types.Struct, i int) *V {
	if v.k == KLoad && len(v.args) == 1 {
		return mk(KLoad, 0, nil, 0, st.Field(i).Type(), nil, vField(v.args[0], st.Field(i)))
	}
	return vFieldVal(v, i, st.Field(i).Type())
}

func genKey(base *V) *V { return vPure("gen", nil, base) }

// peek reads memory without creating an entry.
func (s *State) peek(a *V) *V {
	if v, ok := s.mem[a]; ok {
		return v
	}
	return nil
}

// load reads memory.
func (s *State) load(a *V, t types.Type) *V {
	if v, ok := s.mem[a]; ok {
		return v
	}
	// whole struct stored in a parent?
	if a.k == KField {
		if pv, ok := s.parentVal(a.args[0]); ok {
			st := structOf(a)
			if st != nil {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i) == a.aux.(*types.Var) {
						return s.fieldOf(pv, st, i)
					}
				}
			}
		}
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		sub := false
		for k := range s.mem {
			if (k.k == KField || k.k == KIdx) && objContains(k, a) {
				sub = true
				break
			}
		}
		if sub || (objOf(a).k == KAlloc || objOf(a).k == KStale) {
			args := make([]*V, st.NumFields())
			for i := range args {
				args[i] = s.load(vField(a, st.Field(i)), st.Field(i).Type())
			}
			return mk(KAgg, 0, nil, 0, t, nil, args...)
		}
	}
	for p := a; ; p = p.args[0] {
		if g, ok := s.mem[genKey(p)]; ok {
			return vPure("havoc", t, g, a)
		}
		if p.k != KField && p.k != KIdx {
			break
		}
	}
	o := objOf(a)
	if o.k == KAlloc || (o.k == KStale && o.args[0].k == KAlloc) {
		return zeroOf(t)
	}
	if o.k == KFresh && o.n >= 1000000 && a.k == KIdx { // element of a made slice
		if site, ok := o.aux.(*Site); ok && site.name == "slice" {
			return zeroOf(t)
		}
	}
	v := mk(KLoad, 0, nil, 0, t, nil, a)
	return v
}

func structOf(fieldAddr *V) *types.Struct {
	f := fieldAddr.aux.(*types.Var)
	return fieldOwner[f]
}

var fieldOwner = map[*types.Var]*types.Struct{}

func (s *State) parentVal(p *V) (*V, bool) {
	if v, ok := s.mem[p]; ok {
		return v, true
	}
	if p.k == KField {
		if pv, ok := s.parentVal(p.args[0]); ok {
			st := structOf(p)
			for i := 0; st != nil && i < st.NumFields(); i++ {
				if st.Field(i) == p.aux.(*types.Var) {
					return s.fieldOf(pv, st, i), true
				}
			}
		}
	}
	return nil, false
}

func objContains(a, base *V) bool {
	for a.k == KField || a.k == KIdx {
		a = a.args[0]
		if a == base {
			return true
		}
	}
	return false
}

func (s *State) dropMem(base *V) {
	for k := range s.mem {
		if k == base || objContains(k, base) || (k.k == KPure && k.aux == "gen" && (k.args[0] == base || objContains(k.args[0], base))) {
			delete(s.mem, k)
		}
	}
}

func (s *State) store(a, v *V) {
	if v.k == KAgg || (v.typ != nil && isStruct(v.typ)) {
		s.dropMem(a)
	}
	if a.k == KIdx {
		if _, ok := a.args[1].intC(); !ok {
			// unknown index: other symbolic entries of the array may be overwritten
			for k := range s.mem {
				if k.k == KIdx && k != a && k.args[0] == a.args[0] && s.facts.eval(vEq(k.args[1], a.args[1])) != 0 {
					if isPos(k.args[1]) || isPos(a.args[1]) {
						continue
					}
					delete(s.mem, k)
				}
			}
		}
	}
	if a.k == KField {
		s.splitWhole(a.args[0])
	}
	s.mem[a] = v
}

// splitWhole replaces a struct kept as one value by its fields.
func (s *State) splitWhole(p *V) {
	if p.k == KField {
		s.splitWhole(p.args[0])
	}
	pv, ok := s.mem[p]
	if !ok || pv.typ == nil {
		return
	}
	st, ok := pv.typ.Underlying().(*types.Struct)
	if !ok {
		return
	}
	delete(s.mem, p)
	for i := 0; i < st.NumFields(); i++ {
		f := vField(p, st.Field(i))
		if _, ok := s.mem[f]; !ok {
			s.mem[f] = s.fieldOf(pv, st, i)
		}
	}
}

func isStruct(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

// havoc forgets the content of an object.
func (s *State) havoc(base *V, in ssa.Instruction) {
	g := s.fresh(mk(KFresh, 0, getSite(s.top().ctx, in, "havoc"), int64(auxID(base)), nil, nil))
	base = s.requery(base)
	s.dropMem(base)
	s.mem[genKey(base)] = g
}

func (s *State) requery(b *V) *V { return b }

func isPos(v *V) bool { return v.k == KPure && v.aux == "pos" }

func (s *State) canonIdx(base, idx *V) *V {
	if len(s.memb) == 0 {
		return idx
	}
	if c, ok := idx.intC(); ok {
		for _, m := range s.memb {
			if isPos(m.elem) && rootOf(m.cont) != base {
				continue
			}
			p := vPos(m.elem)
			iv := s.facts.interval(p)
			if iv.lo == iv.hi && iv.lo == c {
				return p
			}
		}
	}
	return idx
}

func vPos(elem *V) *V { return vPure("pos", types.Typ[types.Int], elem) }

func (s *State) hasMemb(cont, elem *V) bool {
	for _, m := range s.memb {
		if m.cont == cont && m.elem == elem {
			return true
		}
	}
	return false
}

// addMemb: container res consists of the members of base plus the values.
func (s *State) addMemb(base, res *V, vals ...*V) {
	var elems []*V
	for _, m := range s.memb {
		if m.cont == base {
			elems = append(elems, m.elem)
		}
	}
	for _, v := range vals {
		for _, t := range s.tracked() {
			same := strip(v) == t
			if n, ok := v.intC(); ok && isPos(t) {
				iv := s.facts.interval(t)
				same = iv.lo == n && iv.hi == n
			}
			if same {
				elems = append(elems, t)
			}
		}
	}
	var nm []memb
	for _, m := range s.memb {
		if m.cont != res {
			nm = append(nm, m)
		}
	}
	for _, e := range elems {
		dup := false
		for _, m := range nm {
			if m.cont == res && m.elem == e {
				dup = true
			}
		}
		if !dup {
			nm = append(nm, memb{res, e})
		}
	}
	s.memb = nm
}

// tracked lists the skolem elements: every KSym whose name starts with "#" known to the state.
func (s *State) tracked() []*V {
	var out []*V
	seen := map[*V]bool{}
	for _, m := range s.mons {
		m.Terms(func(v *V) {
			if v != nil && isTracked(v) && !seen[v] {
				seen[v] = true
				out = append(out, v)
				p := vPos(v)
				out = append(out, p)
			}
		})
	}
	return out
}

func isTracked(v *V) bool {
	if v.k != KSym {
		return false
	}
	n, ok := v.aux.(string)
	return ok && strings.HasPrefix(n, "#")
}

func (s *State) startTrav(c *V, fullT bool) {
	for i := range s.trav {
		if s.trav[i].cont == c {
			s.trav[i].full = fullT
			s.trav[i].seen = nil
			s.trav[i].last = 0
			return
		}
	}
	any := false
	for _, m := range s.memb {
		if m.cont == c {
			any = true
		}
	}
	if any {
		s.trav = append(s.trav, trav{cont: c, full: fullT})
	}
}

func (s *State) travOf(c *V) *trav {
	for i := range s.trav {
		if s.trav[i].cont == c {
			return &s.trav[i]
		}
	}
	return nil
}

func (t *trav) has(e *V) bool {
	for _, x := range t.seen {
		if x == e {
			return true
		}
	}
	return false
}

func (s *State) membersOf(c *V) []*V {
	var r []*V
	for _, m := range s.memb {
		if m.cont == c {
			r = append(r, m.elem)
		}
	}
	return r
}

func (ex *Explorer) unop(s *State, f *Frame, x *ssa.UnOp) bool {
	v := s.val(x.X)
	switch x.Op {
	case token.MUL:
		a := v
		t := x.Type()
		if a.k == KIdx && s.peek(a) == nil {
			// element of a container with tracked members
			for _, m := range s.memb {
				if rootOf(m.cont) != a.args[0] || isMapT(m.cont) {
					continue
				}
				if isPos(m.elem) != isBasic(t, types.IsInteger) {
					continue
				}
				slot := vPos(m.elem)
				if a.args[1] == slot {
					ex.seenElem(s, m)
					ex.loaded(s, x, a, m.elem)
					s.set(x, m.elem)
					return false
				}
				if s.wasSeen(m) {
					continue
				}
				if s.facts.eval(vEq(slot, a.args[1])) == 0 {
					continue
				}
				// fork: other element first
				o := s.clone()
				// this one is the tracked element
				idx := a.args[1]
				ok := true
				if _, isC := idx.intC(); isC {
					ok = s.facts.assume(vEq(slot, idx), true)
				} else {
					s.rename(idx, slot)
				}
				if ok {
					ex.seenElem(s, m)
					ex.loaded(s, x, a, m.elem)
					s.set(x, m.elem)
					ex.local = append(ex.local, s)
				}
				if o.facts.assume(vEq(slot, idx), false) {
					lv := o.load(a, t)
					o.facts.assume(vEq(lv, m.elem), false)
					o.mem[a] = lv
					ex.loaded(o, x, a, lv)
					o.set(x, lv)
					ex.local = append(ex.local, o)
				}
				return true
			}
		}
		val := s.load(a, t)
		if _, ok := s.mem[a]; !ok {
			if _, isS := t.Underlying().(*types.Struct); !isS {
				s.mem[a] = val
			}
			if ex.cfg.FirstLoad != nil {
				ex.cfg.FirstLoad(s, a, val)
			}
		}
		if a.k == KIdx && len(s.memb) > 0 {
			for _, m := range s.memb {
				if rootOf(m.cont) == a.args[0] && val == m.elem {
					ex.seenElem(s, m)
				}
			}
		}
		ex.loaded(s, x, a, val)
		s.set(x, val)
		return s.dead
	case token.ARROW:
		ex.emit(s, &Event{Kind: EvSelect, In: x, Cases: []SelCase{{Ch: v}}, Blocking: true})
		s.killShared(x)
		var elem types.Type
		if x.CommaOk {
			elem = x.Type().(*types.Tuple).At(0).Type()
		} else {
			elem = x.Type()
		}
		if o, r := ex.pick(s, v); o != nil {
			o.note(x, "the request followed is received")
			if x.CommaOk {
				o.set(x, mk(KTuple, 0, nil, 0, x.Type(), nil, r, vBool(true)))
			} else {
				o.set(x, r)
			}
			ex.emit(o, &Event{Kind: EvRecv, In: x, Ch: v, Res: r, Blocking: true})
			if !o.dead {
				ex.local = append(ex.local, o)
			}
		}
		r := s.siteFresh(x, 0, elem, "recv")
		s.noteDone(v)
		if x.CommaOk {
			o := s.clone()
			o.note(x, "the channel is closed")
			z := zeroOf(elem)
			o.set(x, mk(KTuple, 0, nil, 0, x.Type(), nil, z, vBool(false)))
			ex.emit(o, &Event{Kind: EvRecv, In: x, Ch: v, Res: z, Blocking: true})
			if !o.dead {
				ex.local = append(ex.local, o)
			}
			s.set(x, mk(KTuple, 0, nil, 0, x.Type(), nil, r, vBool(true)))
		} else {
			s.set(x, r)
		}
		ex.emit(s, &Event{Kind: EvRecv, In: x, Ch: v, Res: r, Blocking: true})
		return s.dead
	case token.NOT:
		s.set(x, vNot(v))
	case token.SUB:
		if v.isConst() && v.c != nil {
			s.set(x, vConst(constant.UnaryOp(token.SUB, v.c, 0)))
		} else {
			s.set(x, mk(KUn, token.SUB, nil, 0, x.Type(), nil, v))
		}
	case token.XOR:
		if v.isConst() && v.c != nil {
			s.set(x, vConst(wrapInt(constant.UnaryOp(token.XOR, v.c, 0), x.Type())))
		} else {
			s.set(x, mk(KUn, token.XOR, nil, 0, x.Type(), nil, v))
		}
	default:
		ex.err = fmt.Errorf("unop %s", x.Op)
		return true
	}
	return false
}

func isMapT(v *V) bool {
	if v.typ == nil {
		return false
	}
	_, ok := v.typ.Underlying().(*types.Map)
	return ok
}

func (ex *Explorer) seenElem(s *State, m memb) {
	// containers with the same root share their elements' positions
	for i := range s.trav {
		t := &s.trav[i]
		if (t.cont == m.cont || rootOf(t.cont) == rootOf(m.cont)) && !t.has(m.elem) && s.hasMemb(t.cont, m.elem) {
			t.seen = append(t.seen, m.elem)
		}
	}
}

func (s *State) wasSeen(m memb) bool {
	for i := range s.trav {
		t := &s.trav[i]
		if (t.cont == m.cont || rootOf(t.cont) == rootOf(m.cont)) && t.has(m.elem) {
			return true
		}
	}
	return false
}

func (ex *Explorer) loaded(s *State, x *ssa.UnOp, a, v *V) {
	ex.emit(s, &Event{Kind: EvLoad, In: x, Addr: a, Val: v, Field: fieldVar(a)})
}

// noteDone records that a context is known to be done.
func (s *State) noteDone(ch *V) {
	if ch.k == KPure && ch.aux == "done" {
		s.facts.assume(vPure("isdone", types.Typ[types.Bool], ch.args[0]), true)
	}
}

func (ex *Explorer) lookup(s *State, f *Frame, x *ssa.Lookup) bool {
	m, k := s.val(x.X), s.val(x.Index)
	if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
		s.set(x, vPure("index", x.Type(), m, k))
		return false
	}
	et := x.X.Type().Underlying().(*types.Map).Elem()
	fin := func(st *State, v *V, ok bool) {
		if x.CommaOk {
			st.set(x, mk(KTuple, 0, nil, 0, x.Type(), nil, v, vBool(ok)))
		} else {
			st.set(x, v)
		}
		op := "miss"
		if ok {
			op = "hit"
		}
		ex.emit(st, &Event{Kind: EvMapLookup, In: x, Addr: m, Args: []*V{k}, Res: v, Op: op})
	}
	el := vMapEl(m, k)
	if v, ok := s.mem[el]; ok {
		if v == absent {
			fin(s, zeroOf(et), false)
		} else {
			fin(s, v, true)
		}
		return s.dead
	}
	if s.facts.eval(vIsNil(m)) == 1 {
		fin(s, zeroOf(et), false)
		return s.dead
	}
	o := s.clone()
	o.mem[el] = absent
	fin(o, zeroOf(et), false)
	if !o.dead {
		ex.local = append(ex.local, o)
	}
	v := mk(KLoad, 0, nil, 0, et, nil, el)
	if s.facts.assume(vIsNil(m), false) {
		s.mem[el] = v
		s.note(x, "map lookup hit")
		fin(s, v, true)
		if !s.dead {
			ex.local = append(ex.local, s)
		}
	}
	return true
}

var absent = mk(KPure, 0, "absent", 0, nil, nil)

func (ex *Explorer) next(s *State, f *Frame, x *ssa.Next) bool {
	it := s.val(x.Iter)
	m := it.args[0]
	tup := x.Type().(*types.Tuple)
	kt, vt := tup.At(1).Type(), tup.At(2).Type()
	var kT, vT types.Type = kt, vt
	if mt, ok := it.typ.Underlying().(*types.Map); ok {
		kT, vT = mt.Key(), mt.Elem()
	}
	if ex.cfg.Range != nil {
		if ks, vs, ok := ex.cfg.Range(s, m); ok {
			mon := s.mons[0].(*M)
			pos := "range:" + itoa(int(m.id))
			i := mon.n[pos]
			if i >= len(ks) {
				mon.n[pos] = 0
				s.set(x, mk(KTuple, 0, nil, 0, x.Type(), nil, vBool(false), zeroOf(kT), zeroOf(vT)))
				return false
			}
			mon.n[pos] = i + 1
			s.set(x, mk(KTuple, 0, nil, 0, x.Type(), nil, vBool(true), ks[i], vs[i]))
			ex.emit(s, &Event{Kind: EvNext, In: x, Addr: m, Args: []*V{ks[i]}, Val: vs[i]})
			return s.dead
		}
	}
	members := s.membersOf(m)
	tv := s.travOf(m)
	// what the key of an iteration step maps to
	look := keyLookedUp(x)
	entry := func(o *State, k, v *V) {
		if look && k.k == KFresh {
			o.mem[vMapEl(m, k)] = v
		}
	}
	if look {
		site := getSite(s.top().ctx, x, "key")
		for a := range s.mem {
			if a.k == KMapEl && a.args[0] == m && (a.args[1].k == KFresh || a.args[1].k == KStale) && a.args[1].aux == site {
				delete(s.mem, a)
			}
		}
	}
	// end
	endOK := true
	if tv != nil && tv.full {
		for _, e := range members {
			if !tv.has(e) {
				endOK = false
			}
		}
	}
	if endOK {
		o := s.clone()
		o.set(x, mk(KTuple, 0, nil, 0, x.Type(), nil, vBool(false), zeroOf(kT), zeroOf(vT)))
		ex.local = append(ex.local, o)
	}
	if s.facts.eval(vIsNil(m)) == 1 {
		if !endOK {
			return true
		}
		return true
	}
	// a member
	for _, e := range members {
		if tv != nil && tv.has(e) || isPos(e) {
			continue
		}
		o := s.clone()
		kk := o.siteFresh(x, 1, kT, "key")
		var kv, vv *V
		if e.typ != nil && types.Identical(e.typ, kT) && !types.Identical(e.typ, vT) {
			kv, vv = e, o.siteFresh(x, 2, vT, "elem")
		} else {
			kv, vv = kk, e
		}
		ot := o.travOf(m)
		if ot != nil {
			ot.seen = append(ot.seen, e)
		}
		entry(o, kv, vv)
		o.set(x, mk(KTuple, 0, nil, 0, x.Type(), nil, vBool(true), kv, vv))
		ex.emit(o, &Event{Kind: EvNext, In: x, Addr: m, Args: []*V{kv}, Val: vv})
		if !o.dead {
			ex.local = append(ex.local, o)
		}
	}
	kv := s.siteFresh(x, 1, kT, "key")
	vv := s.siteFresh(x, 2, vT, "elem")
	for _, e := range members {
		s.facts.assume(vEq(vv, e), false)
	}
	entry(s, kv, vv)
	s.set(x, mk(KTuple, 0, nil, 0, x.Type(), nil, vBool(true), kv, vv))
	ex.emit(s, &Event{Kind: EvNext, In: x, Addr: m, Args: []*V{kv}, Val: vv})
	if !s.dead {
		ex.local = append(ex.local, s)
	}
	return true
}

// keyLookedUp: the key of the iteration step is used to look an element up.
func keyLookedUp(x *ssa.Next) bool {
	for _, r := range *x.Referrers() {
		e, ok := r.(*ssa.Extract)
		if !ok || e.Index != 1 {
			continue
		}
		for _, u := range *e.Referrers() {
			if l, ok := u.(*ssa.Lookup); ok && l.Index == ssa.Value(e) {
				return true
			}
		}
	}
	return false
}

func (ex *Explorer) doSelect(s *State, f *Frame, x *ssa.Select) bool {
	var cases []SelCase
	for _, st := range x.States {
		c := SelCase{Send: st.Dir == types.SendOnly, Ch: s.val(st.Chan)}
		if c.Send {
			c.Val = s.val(st.Send)
		}
		cases = append(cases, c)
	}
	ex.emit(s, &Event{Kind: EvSelect, In: x, Cases: cases, Blocking: x.Blocking, Sel: true})
	if s.dead {
		return true
	}
	if x.Blocking {
		s.killShared(x)
	}
	mkTuple := func(st *State, idx int, recv int, rv *V, ok *V) {
		args := []*V{vInt(int64(idx)), ok}
		n := 0
		for i, c := range x.States {
			if c.Dir == types.RecvOnly {
				if i == recv {
					args = append(args, rv)
				} else {
					args = append(args, zeroOf(c.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
				n++
			}
		}
		st.set(x, mk(KTuple, 0, nil, 0, x.Type(), nil, args...))
	}
	for i, c := range cases {
		if s.facts.eval(vIsNil(c.Ch)) == 1 {
			continue
		}
		o := s.clone()
		o.note(x, "select case %d (%s)", i, c.Ch)
		if c.Send {
			mkTuple(o, i, -1, nil, vBool(false))
			ex.emit(o, &Event{Kind: EvSend, In: x, Ch: c.Ch, Val: c.Val, Sel: true, Blocking: x.Blocking, Cases: cases})
		} else {
			et := x.States[i].Chan.Type().Underlying().(*types.Chan).Elem()
			if p, r := ex.pick(o, c.Ch); p != nil {
				p.note(x, "the request followed is received")
				mkTuple(p, i, i, r, vBool(true))
				ex.emit(p, &Event{Kind: EvRecv, In: x, Ch: c.Ch, Res: r, Sel: true, Blocking: x.Blocking, Cases: cases})
				if !p.dead {
					ex.local = append(ex.local, p)
				}
			}
			if recvOkUsed(x) {
				p, z := o.clone(), zeroOf(et)
				p.note(x, "the channel is closed")
				p.noteDone(c.Ch)
				mkTuple(p, i, i, z, vBool(false))
				ex.emit(p, &Event{Kind: EvRecv, In: x, Ch: c.Ch, Res: z, Sel: true, Blocking: x.Blocking, Cases: cases})
				if !p.dead {
					ex.local = append(ex.local, p)
				}
			}
			r := o.siteFresh(x, int64(10+i), et, "recv")
			o.noteDone(c.Ch)
			mkTuple(o, i, i, r, vBool(true))
			ex.emit(o, &Event{Kind: EvRecv, In: x, Ch: c.Ch, Res: r, Sel: true, Blocking: x.Blocking, Cases: cases})
		}
		if !o.dead {
			ex.local = append(ex.local, o)
		}
	}
	if !x.Blocking {
		s.note(x, "select default")
		mkTuple(s, -1, -1, nil, vBool(false))
		if !s.dead {
			ex.local = append(ex.local, s)
		}
	}
	return true
}

func (s *State) typeAssert(x *ssa.TypeAssert) {
	v := s.val(x.X)
	var res, ok *V
	switch {
	case v.k == KIface:
		good := false
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			good = types.Implements(v.typ, it)
			res = v
		} else {
			good = types.Identical(v.typ, x.AssertedType)
			res = v.args[0]
		}
		ok = vBool(good)
		if !good {
			res = zeroOf(x.AssertedType)
		}
	case v.isNilC():
		res, ok = zeroOf(x.AssertedType), vBool(false)
	case isTracked(v):
		res, ok = v, vBool(true)
	default:
		if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			res = v
			ok = vAssertOk(v, x.AssertedType)
		} else {
			res = vAssert(v, x.AssertedType)
			ok = vAssertOk(v, x.AssertedType)
			if r, ok2 := s.mem[vPure("asserted", nil, v)]; ok2 {
				res = r
			}
		}
		if s.facts.eval(vIsNil(v)) == 1 {
			ok = vBool(false)
			res = zeroOf(x.AssertedType)
		}
	}
	if x.CommaOk {
		s.set(x, mk(KTuple, 0, nil, 0, x.Type(), nil, res, ok))
		return
	}
	if ok.isFalse() {
		// certainly panics
		s.top().unwinding, s.top().panicking = true, true
		return
	}
	if !ok.isTrue() {
		s.facts.assume(ok, true)
	}
	s.set(x, res)
}

func (ex *Explorer) branch(s *State, f *Frame, x *ssa.If) bool {
	c := s.val(x.Cond)
	if s.dead {
		return true
	}
	r := s.facts.eval(c)
	// traversal of a container with tracked members
	if len(s.memb) > 0 {
		if done := ex.travBranch(s, f, x, c, &r); done {
			return true
		}
	}
	if r >= 0 {
		return ex.take(s, f, x, c, r == 1, false)
	}
	if b := s.facts.splitBit(c); b != nil {
		o := s.clone()
		if o.facts.assume(b, false) {
			ex.local = append(ex.local, o)
		}
		if s.facts.assume(b, true) {
			ex.local = append(ex.local, s)
		}
		return true
	}
	o := s.clone()
	if o.facts.assume(c, false) {
		if !ex.take(o, o.top(), x, c, false, true) {
			ex.local = append(ex.local, o)
		}
	}
	if s.facts.assume(c, true) {
		if !ex.take(s, f, x, c, true, true) {
			ex.local = append(ex.local, s)
		}
	}
	return true
}

func (ex *Explorer) take(s *State, f *Frame, x *ssa.If, c *V, truth, learnt bool) bool {
	if learnt {
		if truth {
			s.note(x, "%s", c)
		} else {
			s.note(x, "not %s", c)
		}
		ex.emit(s, &Event{Kind: EvBranch, In: x, Val: c, Op: fmt.Sprint(truth)})
		if s.dead {
			return true
		}
	}
	i := 1
	if truth {
		i = 0
	}
	return ex.goTo(s, f.blk.Succs[i])
}

// travBranch interprets `i < len(c)` for containers with tracked members.
func (ex *Explorer) travBranch(s *State, f *Frame, x *ssa.If, c *V, r *int) bool {
	neg := false
	bo, _ := x.Cond.(*ssa.BinOp)
	for c.k == KNot {
		c = c.args[0]
		neg = !neg
	}
	if c.k != KLt && c.k != KEq && c.k != KNil {
		return false
	}
	if c.k != KLt {
		// len(c) == 0 / c == nil with a member is false
		y := c.args[0]
		if y.k == KLen {
			y = y.args[0]
		}
		if len(s.membersOf(y)) > 0 && (c.k == KNil || c.args[1].isConst()) {
			if n, ok := (c.args[len(c.args)-1]).intC(); c.k == KNil || (ok && n == 0) {
				*r = b2i(neg)
			}
		}
		return false
	}
	lhs, rhs := c.args[0], c.args[1]
	// index == pos < len: in bounds
	if rhs.k != KLen {
		return false
	}
	cont := rhs.args[0]
	mem := s.membersOf(cont)
	if len(mem) == 0 {
		return false
	}
	if isPos(lhs) && s.hasMemb(cont, lhs.args[0]) {
		*r = b2i(!neg)
		return false
	}
	if n, ok := lhs.intC(); ok {
		if n <= 0 {
			*r = b2i(!neg)
			s.startTrav(cont, n == 0)
			return false
		}
		// the next element of a traversal followed step by step
		t := s.travOf(cont)
		if t == nil || !t.full || n != t.last && n != t.last+1 {
			s.startTrav(cont, false)
			return false
		}
		t.last = n
	}
	t := s.travOf(cont)
	if t == nil {
		return false
	}
	var idxV ssa.Value
	if bo != nil {
		idxV = bo.X
		if bo.Op == token.GTR || bo.Op == token.LEQ {
			idxV = bo.Y
		}
	}
	if idxV == nil || !stepOne(idxV) {
		t.full = false
	}
	unseen := false
	for _, e := range mem {
		if !t.has(e) {
			unseen = true
		}
	}
	if unseen && t.full {
		// the traversal cannot end before the member has been visited
		*r = b2i(!neg)
	}
	return false
}

// ret returns from the top frame.
func (ex *Explorer) ret(s *State, in ssa.Instruction, rs []*V) bool {
	f := s.top()
	var res *V
	switch len(rs) {
	case 0:
		res = vNil()
	case 1:
		res = rs[0]
	default:
		res = mk(KTuple, 0, nil, 0, nil, nil, rs...)
	}
	if f.kind == fkRoot {
		k := EvReturn
		if s.thread > 0 {
			k = EvThreadEnd
		}
		e := &Event{Kind: k, In: in, Res: res, Args: rs, Fn: f.fn}
		ex.emit(s, e)
		if !s.dead && ex.cfg.Next != nil {
			if fn, args := ex.cfg.Next(s, e); fn != nil {
				nf := &Frame{fn: fn, ctx: getCtx(f.ctx, nil, fn), env: map[ssa.Value]*V{}, kind: fkRoot, blk: fn.Blocks[0]}
				for i, p := range fn.Params {
					if i < len(args) && args[i] != nil {
						nf.env[p] = args[i]
					} else {
						nf.env[p] = vSym(p.Name(), p.Type())
					}
				}
				ex.Funcs[fn] = true
				s.fr = []*Frame{nf}
				ex.enqueue(s)
				return true
			}
		}
		s.dead = true
		ex.Paths++
		return true
	}
	ex.emit(s, &Event{Kind: EvExit, In: in, Res: res, Args: rs, Fn: f.fn, Name: fnName(f.fn)})
	if s.dead {
		return true
	}
	s.fr = s.fr[:len(s.fr)-1]
	g := s.top()
	switch f.kind {
	case fkCall, fkIgnore:
		if c, ok := g.blk.Instrs[g.idx].(*ssa.Call); ok {
			if f.kind == fkIgnore {
				g.env[c] = vNil()
			} else {
				g.env[c] = res
			}
		}
		g.idx++
	case fkDefer:
		// continue with RunDefers or the unwinding
		if g.unwinding {
			return false
		}
	case fkRange:
		c := g.blk.Instrs[g.idx]
		goOn := s.facts.eval(res)
		if goOn != 1 {
			o := s
			if goOn < 0 {
				o = s.clone()
			}
			if call, ok := c.(*ssa.Call); ok {
				o.top().env[call] = vNil()
			}
			o.top().idx++
			ex.emit(o, &Event{Kind: EvCall, In: c, Name: "sync.Map.Range.stop", Res: vNil()})
			if goOn < 0 {
				o.facts.assume(res, false)
				ex.enqueue(o)
				s.facts.assume(res, true)
			}
		}
	}
	ex.enqueue(s)
	return true
}

// unwind continues a panic; true to go on with the same state.
func (ex *Explorer) unwind(s *State) bool {
	f := s.top()
	if n := len(f.defers); n > 0 {
		d := f.defers[n-1]
		f.defers = f.defers[:n-1]
		return !ex.invoke(s, d.instr, &d.instr.Call, d.callee, d.args, fkDefer)
	}
	if !f.panicking {
		// recovered: return normally with the named results
		f.unwinding = false
		if f.fn.Recover != nil {
			f.prev, f.blk, f.idx = nil, f.fn.Recover, 0
			return true
		}
		var rs []*V
		r := f.fn.Signature.Results()
		for i := 0; i < r.Len(); i++ {
			rs = append(rs, zeroOf(r.At(i).Type()))
		}
		in := lastInstr(f.fn)
		if f.kind == fkDefer && s.fr[len(s.fr)-2].unwinding {
			s.fr = s.fr[:len(s.fr)-1]
			return true
		}
		return !ex.ret(s, in, rs)
	}
	if f.kind == fkRoot {
		ex.emit(s, &Event{Kind: EvPanicExit, In: lastInstr(f.fn), Fn: f.fn})
		s.dead = true
		ex.Paths++
		return false
	}
	ex.emit(s, &Event{Kind: EvExit, In: lastInstr(f.fn), Fn: f.fn, Name: fnName(f.fn), Op: "panic"})
	s.fr = s.fr[:len(s.fr)-1]
	g := s.top()
	g.unwinding, g.panicking = true, true
	return !s.dead
}

func lastInstr(fn *ssa.Function) ssa.Instruction {
	if len(fn.Blocks) == 0 {
		return nil
	}
	b := fn.Blocks[0]
	return b.Instrs[0]
}

// killShared forgets lock protected memory other goroutines may have changed.
func (s *State) killShared(in ssa.Instruction) {
	if s.ex.cfg.NoKill {
		return
	}
	var ks []*V
	for a := range s.mem {
		if a.k == KField && s.ex.prog.lockStored[a.aux.(*types.Var)] && !s.heldFor(a) {
			o := objOf(a)
			if o.k == KAlloc && !s.escaped(o) {
				continue
			}
			ks = append(ks, a)
		}
	}
	if len(ks) == 0 {
		return
	}
	sortV(ks)
	for _, a := range ks {
		s.havoc(a, in)
	}
}

// heldFor: a lock of the object the field belongs to is held.
func (s *State) heldFor(a *V) bool {
	for _, l := range s.locks {
		x := l.addr
		for x.k == KField {
			x = x.args[0]
		}
		y := a
		for y.k == KField {
			y = y.args[0]
		}
		if x == y {
			return true
		}
	}
	return false
}

func (s *State) escaped(o *V) bool { return true }

// recvOkUsed: the program looks whether a receive of the select found the channel closed.
func recvOkUsed(x *ssa.Select) bool {
	for _, r := range *x.Referrers() {
		if e, ok := r.(*ssa.Extract); !ok || e.Index == 1 && len(*e.Referrers()) > 0 {
			return true
		}
	}
	return false
}
