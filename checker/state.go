package main

import (
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Ctx is a call string.
type Ctx struct {
	id     int
	parent *Ctx
	call   ssa.Instruction
	fn     *ssa.Function
	depth  int
}

type ctxKey struct {
	parent *Ctx
	call   ssa.Instruction
	fn     *ssa.Function
}

var ctxs = map[ctxKey]*Ctx{}

func getCtx(parent *Ctx, call ssa.Instruction, fn *ssa.Function) *Ctx {
	k := ctxKey{parent, call, fn}
	if c, ok := ctxs[k]; ok {
		return c
	}
	c := &Ctx{id: len(ctxs) + 1, parent: parent, call: call, fn: fn}
	if parent != nil {
		c.depth = parent.depth + 1
	}
	ctxs[k] = c
	return c
}

// Site names a program point in a calling context.
type Site struct {
	ctx   *Ctx
	instr ssa.Instruction
	name  string
}

var sites = map[Site]*Site{}

func getSite(ctx *Ctx, in ssa.Instruction, name string) *Site {
	s := Site{ctx, in, name}
	if p, ok := sites[s]; ok {
		return p
	}
	p := &s
	sites[s] = p
	return p
}

type frameKind uint8

const (
	fkRoot frameKind = iota
	fkCall
	fkDefer
	fkIgnore // callback of a modelled function, result ignored
	fkRange  // callback of an iteration, returns whether to go on
)

type deferred struct {
	instr  *ssa.Defer
	callee *V // function value or receiver for invoke
	args   []*V
}

// Frame of an inlined call.
type Frame struct {
	fn        *ssa.Function
	ctx       *Ctx
	env       map[ssa.Value]*V
	blk, prev *ssa.BasicBlock
	idx       int
	defers    []deferred
	kind      frameKind
	unwinding bool // running defers because of a panic
	panicking bool // the panic has not been recovered
}

func (f *Frame) clone() *Frame {
	g := *f
	g.env = make(map[ssa.Value]*V, len(f.env)+4)
	for k, v := range f.env {
		g.env[k] = v
	}
	g.defers = append([]deferred(nil), f.defers...)
	return &g
}

type lockHeld struct {
	addr *V
	read bool
}

type memb struct{ cont, elem *V }

type trav struct {
	cont *V
	full bool
	last int64 // last constant index
	seen []*V
}

type trailNode struct {
	prev *trailNode
	pos  string
	text string
}

// State of an exploration.
type State struct {
	ex     *Explorer
	thread int
	fr     []*Frame
	mem    map[*V]*V
	facts  *Facts
	locks  []lockHeld
	memb   []memb
	trav   []trav
	made   map[*V]bool
	mons   []Monitor
	trail  *trailNode
	dead   bool
	alts   []func(*State)
	hold   []*V // arguments of the call in progress
}

func (s *State) top() *Frame { return s.fr[len(s.fr)-1] }

func (s *State) clone() *State {
	t := *s
	t.fr = make([]*Frame, len(s.fr))
	for i, f := range s.fr {
		t.fr[i] = f.clone()
	}
	t.mem = make(map[*V]*V, len(s.mem)+4)
	for k, v := range s.mem {
		t.mem[k] = v
	}
	t.facts = s.facts.clone()
	t.locks = append([]lockHeld(nil), s.locks...)
	t.memb = append([]memb(nil), s.memb...)
	t.trav = make([]trav, len(s.trav))
	for i, x := range s.trav {
		t.trav[i] = trav{x.cont, x.full, x.last, append([]*V(nil), x.seen...)}
	}
	t.made = make(map[*V]bool, len(s.made))
	for k := range s.made {
		t.made[k] = true
	}
	t.mons = make([]Monitor, len(s.mons))
	for i, m := range s.mons {
		t.mons[i] = m.Clone()
	}
	t.alts = nil
	return &t
}

func (s *State) note(in ssa.Instruction, format string, a ...interface{}) {
	p := ""
	if in != nil {
		p = s.ex.prog.posOf(in)
	}
	s.trail = &trailNode{s.trail, p, fmt.Sprintf(format, a...)}
}

// ---- liveness

type liveInfo struct {
	num    map[ssa.Value]int
	vals   []ssa.Value
	liveIn map[*ssa.BasicBlock]map[ssa.Value]bool // after phis
	at     map[liveAtKey][]ssa.Value
	rpo    map[*ssa.BasicBlock]int
	loops  map[*ssa.BasicBlock]bool // loop headers
	back   map[[2]int]bool
}

type liveAtKey struct {
	b *ssa.BasicBlock
	i int
}

var liveCache = map[*ssa.Function]*liveInfo{}

func live(fn *ssa.Function) *liveInfo {
	if li, ok := liveCache[fn]; ok {
		return li
	}
	li := &liveInfo{num: map[ssa.Value]int{}, liveIn: map[*ssa.BasicBlock]map[ssa.Value]bool{}, at: map[liveAtKey][]ssa.Value{}, rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]bool{}, back: map[[2]int]bool{}}
	liveCache[fn] = li
	add := func(v ssa.Value) {
		li.num[v] = len(li.vals)
		li.vals = append(li.vals, v)
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// rpo and back edges; successors are visited so that loop exits come after loop bodies
	seen := map[*ssa.BasicBlock]int{}
	var post []*ssa.BasicBlock
	canReach := reachability(fn)
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = 1
		succs := append([]*ssa.BasicBlock(nil), b.Succs...)
		// visit first the successors that do not lead back here (loop exits) so they get later rpo numbers
		sort.SliceStable(succs, func(i, j int) bool {
			return !canReach[succs[i]][b] && canReach[succs[j]][b]
		})
		for _, t := range succs {
			switch seen[t] {
			case 0:
				dfs(t)
			case 1:
				li.back[[2]int{b.Index, t.Index}] = true
				li.loops[t] = true
			}
		}
		seen[b] = 2
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	n := 0
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo[post[i]] = n
		n++
	}
	for _, b := range fn.Blocks {
		if _, ok := li.rpo[b]; !ok {
			li.rpo[b] = n
			n++
		}
	}
	// liveness
	changed := true
	for _, b := range fn.Blocks {
		li.liveIn[b] = map[ssa.Value]bool{}
	}
	for changed {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			lv := li.liveOut(b)
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				if _, ok := b.Instrs[j].(*ssa.Phi); ok {
					break
				}
				stepLive(lv, b.Instrs[j])
			}
			for v := range lv {
				if !li.liveIn[b][v] {
					li.liveIn[b][v] = true
					changed = true
				}
			}
		}
	}
	return li
}

func reachability(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	r := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		m := map[*ssa.BasicBlock]bool{}
		st := append([]*ssa.BasicBlock(nil), b.Succs...)
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if m[x] {
				continue
			}
			m[x] = true
			st = append(st, x.Succs...)
		}
		r[b] = m
	}
	return r
}

func (li *liveInfo) liveOut(b *ssa.BasicBlock) map[ssa.Value]bool {
	lv := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range li.liveIn[s] {
			isPhi := false
			if p, ok := v.(*ssa.Phi); ok && p.Block() == s {
				isPhi = true
			}
			if !isPhi {
				lv[v] = true
			}
		}
		for pi, p := range s.Preds {
			if p != b {
				continue
			}
			for _, in := range s.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if li.liveIn[s][phi] {
					addLive(lv, phi.Edges[pi])
				}
			}
		}
	}
	return lv
}

func addLive(lv map[ssa.Value]bool, v ssa.Value) {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
		return
	}
	lv[v] = true
}

func stepLive(lv map[ssa.Value]bool, in ssa.Instruction) {
	if v, ok := in.(ssa.Value); ok {
		delete(lv, v)
	}
	if _, ok := in.(*ssa.DebugRef); ok {
		return
	}
	for _, op := range in.Operands(nil) {
		if *op != nil {
			addLive(lv, *op)
		}
	}
}

// liveAt: values live before instruction i of b (phis already evaluated).
func (li *liveInfo) liveAt(b *ssa.BasicBlock, i int) []ssa.Value {
	k := liveAtKey{b, i}
	if r, ok := li.at[k]; ok {
		return r
	}
	lv := li.liveOut(b)
	for j := len(b.Instrs) - 1; j >= i; j-- {
		if _, ok := b.Instrs[j].(*ssa.Phi); ok {
			continue
		}
		stepLive(lv, b.Instrs[j])
	}
	r := make([]ssa.Value, 0, len(lv))
	for v := range lv {
		r = append(r, v)
	}
	sort.Slice(r, func(x, y int) bool { return li.num[r[x]] < li.num[r[y]] })
	li.at[k] = r
	return r
}

// pruneFrame keeps only live registers.
func (f *Frame) prune(next *Frame) {
	li := live(f.fn)
	var lv []ssa.Value
	if f.unwinding {
		if f.fn.Recover != nil {
			lv = li.liveAt(f.fn.Recover, 0)
		}
	} else {
		i := f.idx
		if next != nil && (next.kind == fkCall || next.kind == fkIgnore) {
			i++ // waiting for a call; RunDefers and iterations are executed again
		}
		lv = li.liveAt(f.blk, i)
	}
	env := make(map[ssa.Value]*V, len(lv))
	for _, v := range lv {
		if t, ok := f.env[v]; ok {
			env[v] = t
		}
	}
	f.env = env
}

// freshAtoms lists the fresh/alloc/stale leaves of a term.
var freshCache = map[*V][]*V{}

func freshAtoms(v *V) []*V {
	if !v.frsh {
		return nil
	}
	if r, ok := freshCache[v]; ok {
		return r
	}
	var r []*V
	if v.k == KFresh || v.k == KAlloc || v.k == KStale {
		r = append(r, v)
	} else {
		set := map[*V]bool{}
		if v.k == KApp {
			// the appended-to array identifies it
		}
		for _, a := range v.args {
			for _, x := range freshAtoms(a) {
				if !set[x] {
					set[x] = true
					r = append(r, x)
				}
			}
		}
	}
	freshCache[v] = r
	return r
}

// gc drops memory and facts about unreachable objects.
func (s *State) gc() {
	for i, f := range s.fr {
		var next *Frame
		if i+1 < len(s.fr) {
			next = s.fr[i+1]
		}
		f.prune(next)
	}
	reach := map[*V]bool{} // fresh atoms reachable
	var work []*V
	mark := func(v *V) {
		if v == nil || !v.frsh {
			return
		}
		for _, a := range freshAtoms(v) {
			if !reach[a] {
				reach[a] = true
				work = append(work, a)
			}
		}
	}
	for _, f := range s.fr {
		for _, v := range f.env {
			mark(v)
		}
		for _, d := range f.defers {
			mark(d.callee)
			for _, a := range d.args {
				mark(a)
			}
		}
	}
	for _, l := range s.locks {
		mark(l.addr)
	}
	for _, m := range s.memb {
		mark(m.cont)
		mark(m.elem)
	}
	for _, m := range s.mons {
		m.Terms(mark)
	}
	// memory: iterate until no more
	type ent struct{ a, v *V }
	var pend []ent
	for a, v := range s.mem {
		pend = append(pend, ent{a, v})
	}
	keep := make(map[*V]*V, len(s.mem))
	for {
		var rest []ent
		n := len(pend)
		for _, e := range pend {
			ok := true
			for _, x := range freshAtoms(e.a) {
				if !reach[x] {
					ok = false
					break
				}
			}
			if ok {
				keep[e.a] = e.v
				mark(e.v)
			} else {
				rest = append(rest, e)
			}
		}
		pend = rest
		if len(pend) == n {
			break
		}
	}
	s.mem = keep
	okT := func(t *V) bool {
		for _, x := range freshAtoms(t) {
			if !reach[x] {
				return false
			}
		}
		return true
	}
	for t := range s.facts.b {
		if !okT(t) {
			delete(s.facts.b, t)
		}
	}
	for t := range s.facts.iv {
		if !okT(t) {
			delete(s.facts.iv, t)
		}
	}
	for t := range s.facts.ne {
		if !okT(t) {
			delete(s.facts.ne, t)
		}
	}
	for t := range s.made {
		if !reach[t] {
			delete(s.made, t)
		}
	}
	var tv []trav
	for _, t := range s.trav {
		if okT(t.cont) {
			tv = append(tv, t)
		}
	}
	s.trav = tv
}

// rename substitutes a term in the whole state.
func (s *State) rename(old, nw *V) {
	memo := map[*V]*V{}
	sub := func(v *V) *V {
		if v == nil {
			return nil
		}
		return subst(v, old, nw, memo)
	}
	for _, f := range s.fr {
		for k, v := range f.env {
			if w := sub(v); w != v {
				f.env[k] = w
			}
		}
		for i := range f.defers {
			f.defers[i].callee = sub(f.defers[i].callee)
			var na []*V
			for _, a := range f.defers[i].args {
				na = append(na, sub(a))
			}
			f.defers[i].args = na
		}
	}
	for i, v := range s.hold {
		s.hold[i] = sub(v)
	}
	nm := make(map[*V]*V, len(s.mem))
	for a, v := range s.mem {
		nm[sub(a)] = sub(v)
	}
	s.mem = nm
	nf := newFacts()
	for t, b := range s.facts.b {
		u := sub(t)
		for u.k == KNot {
			u, b = u.args[0], !b
		}
		if !u.isConst() {
			nf.b[u] = b
		}
	}
	for t, iv := range s.facts.iv {
		u := sub(t)
		if !u.isConst() {
			nf.iv[u] = iv
		}
	}
	for t, n := range s.facts.ne {
		u := sub(t)
		if !u.isConst() {
			nf.ne[u] = n
		}
	}
	s.facts = nf
	for i := range s.locks {
		s.locks[i].addr = sub(s.locks[i].addr)
	}
	for i := range s.memb {
		s.memb[i].cont = sub(s.memb[i].cont)
		s.memb[i].elem = sub(s.memb[i].elem)
	}
	for i := range s.trav {
		s.trav[i].cont = sub(s.trav[i].cont)
		for j := range s.trav[i].seen {
			s.trav[i].seen[j] = sub(s.trav[i].seen[j])
		}
	}
	for _, m := range s.mons {
		m.Subst(sub)
	}
	delete(s.made, old)
	if nw.k == KStale {
		s.made[nw] = true
	}
}

// dropTerm forgets everything known about a term (used for values two executions old).
func (s *State) dropTerm(t *V) {
	for k := range s.facts.b {
		if k.frsh && contains(k, t) {
			delete(s.facts.b, k)
		}
	}
	for k := range s.facts.iv {
		if k.frsh && contains(k, t) {
			delete(s.facts.iv, k)
		}
	}
	for k := range s.facts.ne {
		if k.frsh && contains(k, t) {
			delete(s.facts.ne, k)
		}
	}
	for k := range s.mem {
		if k.frsh && contains(k, t) {
			delete(s.mem, k)
		}
	}
}

// newFresh creates the value of a site, moving an earlier one out of the way.
func (s *State) fresh(t *V) *V {
	if s.made[t] {
		st := vStale(t)
		if s.made[st] {
			s.dropTerm(st)
		}
		s.rename(t, st)
	}
	s.made[t] = true
	return t
}

// ---- keys

type hasher struct{ b []byte }

func (h *hasher) i(n int) { h.b = binary.AppendVarint(h.b, int64(n)) }
func (h *hasher) v(v *V) {
	if v == nil {
		h.i(-1)
	} else {
		h.i(v.id)
	}
}
func (h *hasher) s(s string) { h.i(len(s)); h.b = append(h.b, s...) }

func (s *State) key() string {
	h := &hasher{}
	h.i(s.thread)
	for _, f := range s.fr {
		h.i(f.ctx.id)
		h.i(f.blk.Index)
		h.i(f.idx)
		h.i(int(f.kind))
		h.i(b2i(f.unwinding)*2 + b2i(f.panicking))
		li := live(f.fn)
		type p struct{ n, id int }
		ps := make([]p, 0, len(f.env))
		for v, t := range f.env {
			ps = append(ps, p{li.num[v], t.id})
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i].n < ps[j].n })
		h.i(len(ps))
		for _, x := range ps {
			h.i(x.n)
			h.i(x.id)
		}
		h.i(len(f.defers))
		for _, d := range f.defers {
			h.i(auxID(d.instr))
			h.v(d.callee)
			for _, a := range d.args {
				h.v(a)
			}
		}
	}
	type p struct{ a, v int }
	ps := make([]p, 0, len(s.mem))
	for a, v := range s.mem {
		ps = append(ps, p{a.id, v.id})
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].a < ps[j].a })
	h.i(len(ps))
	for _, x := range ps {
		h.i(x.a)
		h.i(x.v)
	}
	h.i(len(s.locks))
	for _, l := range s.locks {
		h.v(l.addr)
		h.i(b2i(l.read))
	}
	ms := append([]memb(nil), s.memb...)
	sort.Slice(ms, func(i, j int) bool {
		if ms[i].cont.id != ms[j].cont.id {
			return ms[i].cont.id < ms[j].cont.id
		}
		return ms[i].elem.id < ms[j].elem.id
	})
	h.i(len(ms))
	for _, m := range ms {
		h.v(m.cont)
		h.v(m.elem)
	}
	ts := append([]trav(nil), s.trav...)
	sort.Slice(ts, func(i, j int) bool { return ts[i].cont.id < ts[j].cont.id })
	h.i(len(ts))
	for _, t := range ts {
		h.v(t.cont)
		h.i(b2i(t.full))
		h.i(int(t.last))
		h.i(len(t.seen))
		for _, x := range t.seen {
			h.v(x)
		}
	}
	for _, m := range s.mons {
		h.s(m.Key())
	}
	sum := sha1.Sum(h.b)
	return string(sum[:])
}

// position of a state for scheduling.
func (s *State) pos() []int {
	p := make([]int, 0, 2*len(s.fr)+1)
	p = append(p, s.thread)
	for _, f := range s.fr {
		b := live(f.fn).rpo[f.blk]
		i := f.idx
		if f.unwinding {
			b, i = 1<<20, 1000-len(f.defers)
		}
		p = append(p, b, i)
	}
	return p
}

func cmpPos(a, b []int) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	// the deeper one is still inside a call: first
	return len(b) - len(a)
}
