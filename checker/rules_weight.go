package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C36", "paths of the construction and of a call with one to three endpoints of arbitrary weights (or none given), followed with the weights, their sum and the draw as linear terms: every path which first asks endpoint i has drawn evenly below the sum of the weights and the branch conditions passed bound the draw to the range of length weight i which belongs to i (difference constraints closed by elimination)", c36)
}

// lin: sum of c[v]*v + k >= 0
type lin struct {
	c map[*V]int64
	k int64
}

func (l *lin) add(o *lin, f int64) {
	for v, n := range o.c {
		if l.c[v] += f * n; l.c[v] == 0 {
			delete(l.c, v)
		}
	}
	l.k += f * o.k
}

func (l *lin) reduce() {
	var g int64
	for _, n := range l.c {
		a, b := g, n
		if b < 0 {
			b = -b
		}
		for b != 0 {
			a, b = b, a%b
		}
		g = a
	}
	if g <= 1 {
		return
	}
	for v := range l.c {
		l.c[v] /= g
	}
	k := l.k / g
	if l.k < 0 && l.k%g != 0 {
		k-- // whole numbers
	}
	l.k = k
}

func linOf(v *V) *lin {
	v = stripConv(v)
	l := &lin{c: map[*V]int64{}}
	if n, ok := v.intC(); ok {
		l.k = n
		return l
	}
	switch {
	case v.k == KBin && v.op == token.ADD:
		l.add(linOf(v.args[0]), 1)
		l.add(linOf(v.args[1]), 1)
		return l
	case v.k == KBin && v.op == token.SUB:
		l.add(linOf(v.args[0]), 1)
		l.add(linOf(v.args[1]), -1)
		return l
	case v.k == KBin && v.op == token.MUL:
		if n, ok := v.args[1].intC(); ok {
			l.add(linOf(v.args[0]), n)
			return l
		}
		if n, ok := v.args[0].intC(); ok {
			l.add(linOf(v.args[1]), n)
			return l
		}
	case v.k == KUn && v.op == token.SUB:
		l.add(linOf(v.args[0]), -1)
		return l
	}
	l.c[v] = 1
	return l
}

// diff: y - x + k
func diff(y, x *lin, k int64) *lin {
	l := &lin{c: map[*V]int64{}, k: k}
	l.add(y, 1)
	l.add(x, -1)
	return l
}

// linFacts: the order facts known on the path.
func linFacts(f *Facts) []*lin {
	var out []*lin
	ge := func(y, x *lin, k int64) { out = append(out, diff(y, x, k)) }
	for _, a := range f.atoms() {
		switch {
		case a.kind == 'b' && a.t.k == KLt:
			x, y := linOf(a.t.args[0]), linOf(a.t.args[1])
			if a.b {
				ge(y, x, -1)
			} else {
				ge(x, y, 0)
			}
		case a.kind == 'b' && a.t.k == KEq && a.b:
			x, y := linOf(a.t.args[0]), linOf(a.t.args[1])
			ge(y, x, 0)
			ge(x, y, 0)
		case a.kind == 'i':
			x := linOf(a.t)
			if a.iv.lo > full.lo {
				ge(x, &lin{k: a.iv.lo}, 0)
			}
			if a.iv.hi < full.hi {
				ge(&lin{k: a.iv.hi}, x, 0)
			}
		}
	}
	return out
}

// contradictory: no whole numbers satisfy all of cs (elimination of one variable after the other).
func contradictory(cs []*lin) bool {
	for {
		var vars []*V
		seen := map[*V]bool{}
		for _, l := range cs {
			l.reduce()
			if len(l.c) == 0 && l.k < 0 {
				return true
			}
			for v := range l.c {
				if !seen[v] {
					seen[v] = true
					vars = append(vars, v)
				}
			}
		}
		if len(vars) == 0 || len(cs) > 4000 {
			return false
		}
		cost := func(v *V) int {
			p, n := 0, 0
			for _, l := range cs {
				if l.c[v] > 0 {
					p++
				} else if l.c[v] < 0 {
					n++
				}
			}
			return p * n
		}
		sort.Slice(vars, func(i, j int) bool {
			if a, b := cost(vars[i]), cost(vars[j]); a != b {
				return a < b
			}
			return vars[i].id < vars[j].id
		})
		v := vars[0]
		var next []*lin
		for _, l := range cs {
			if l.c[v] == 0 {
				next = append(next, l)
			}
		}
		for _, p := range cs {
			for _, n := range cs {
				if p.c[v] > 0 && n.c[v] < 0 {
					r := &lin{c: map[*V]int64{}}
					r.add(p, -n.c[v])
					r.add(n, p.c[v])
					next = append(next, r)
				}
			}
		}
		cs = next
	}
}

func entails(cs []*lin, goal *lin) bool {
	neg := &lin{c: map[*V]int64{}, k: -1}
	neg.add(goal, -1)
	all := []*lin{neg}
	for _, l := range cs {
		x := &lin{c: map[*V]int64{}}
		x.add(l, 1)
		all = append(all, x)
	}
	return contradictory(all)
}

const fnViaIdx = "qrpc.defaultAPI.callViaIdx"

// evenDraw: a whole number, evenly below its argument.
func evenDraw(name string) bool {
	i := strings.LastIndex(name, ".")
	if !strings.HasPrefix(name, "rand.") {
		return false
	}
	switch name[i+1:] {
	case "Intn", "Int31n", "Int63n", "IntN", "Int32N", "Int64N", "N", "UintN", "Uint32N", "Uint64N":
		return true
	}
	return false
}

func c36(c *Check) {
	fn, call := c.fn("qrpc.NewAPI"), c.fn("qrpc.defaultAPI.Call")
	if fn == nil || call == nil {
		return
	}
	for n := 1; n <= 3; n++ {
		c36n(c, fn, call, n, true)
		c36n(c, fn, call, n, false)
	}
	c.floor("choice")
	c.floor("draw")
}

func c36n(c *Check, fn, call *ssa.Function, n int, given bool) {
	k := itoa(n) + " endpoints"
	if !given {
		k += ", no weights"
	}
	tInt := types.Typ[types.Int]
	var args []*V
	var ends, weights *V
	for _, p := range fn.Params {
		a := vSym(p.Name(), p.Type())
		if sl, ok := p.Type().Underlying().(*types.Slice); ok {
			switch {
			case isBasic(sl.Elem(), types.IsString):
				ends = a
			case isBasic(sl.Elem(), types.IsInteger):
				weights = a
				if !given {
					a = vNil()
				}
			}
		}
		args = append(args, a)
	}
	if ends == nil || weights == nil {
		c.bad("choice", "NewAPI", nil, nil, "NewAPI no longer takes endpoints and weights")
		return
	}
	var w []*V
	for i := 0; i < n; i++ {
		if given {
			w = append(w, vSym("#w"+itoa(i), tInt))
		} else {
			w = append(w, vInt(1))
		}
	}
	sum := func(i int) *lin { // the weights before i
		l := &lin{c: map[*V]int64{}}
		for _, x := range w[:i] {
			l.add(linOf(x), 1)
		}
		return l
	}
	known := func(s *State) []*lin {
		cs := linFacts(s.facts)
		for _, x := range w {
			cs = append(cs, linOf(x)) // weights are not negative
		}
		return append(cs, diff(sum(n), &lin{}, -1)) // and not all zero
	}
	cfg := Config{MaxStates: 20000, NoKill: true, Exact: true, Concrete: true,
		Opaque: func(f *ssa.Function) bool {
			n := fnName(f)
			return n == fnNewConn1 || n == fnViaIdx || strings.HasPrefix(n, "qrpc.defaultAPI.callVia") || n == "qrpc.defaultAPI.callWithoutConn"
		},
		Next: func(s *State, e *Event) (*ssa.Function, []*V) {
			if e.Fn != fn {
				return nil, nil
			}
			// the caller goes on using its own list
			for i := range w {
				s.mem[vIdx(weights, vInt(int64(i)))] = vSym("#w"+itoa(i)+"'", tInt)
			}
			var as []*V
			for _, p := range call.Params {
				as = append(as, vSym(p.Name(), p.Type()))
			}
			as[0] = strip(e.Args[0])
			return call, as
		}}
	c.exploreInit(cfg, fn, args, nil, func(s *State) {
		s.facts.assume(vEq(vLen(ends), vInt(int64(n))), true)
		if given {
			s.facts.assume(vEq(vLen(weights), vInt(int64(n))), true)
			s.facts.assume(vIsNil(weights), false)
			for i := range w {
				s.mem[vIdx(weights, vInt(int64(i)))] = w[i]
			}
		}
	}, newM("weights", func(m *M, s *State, e *Event) {
		switch {
		case e.Kind == EvAppend && len(e.Args) == 2 && strip(e.Args[1]) == weights && e.Args[0].isNilC():
			for i := range w {
				s.mem[vIdx(e.Res, vInt(int64(i)))] = s.mem[vIdx(weights, vInt(int64(i)))]
			}
			s.facts.assume(vEq(vLen(e.Res), vInt(int64(n))), true)
		case e.Kind == EvReturn && e.Fn == fn:
			m.n["made"] = 1
		case e.Kind == EvCall && evenDraw(e.Name):
			c.at("draw", e.In)
			if m.n["made"] == 0 {
				c.bad("draw", k+" once", e.In, s, "the endpoint is drawn when the API is made, not for each call")
				return
			}
			if m.t["draw"] != nil {
				c.bad("draw", k+" again", e.In, s, "the choice depends on a second draw: how likely each endpoint is cannot be told")
				return
			}
			m.t["draw"] = e.Res
			below := linOf(e.Args[len(e.Args)-1])
			if cs := known(s); !entails(cs, diff(below, sum(n), 0)) || !entails(cs, diff(sum(n), below, 0)) {
				c.bad("draw", k, e.In, s, "the number drawn is below %s, not below the sum of the weights", showT(e.Args[len(e.Args)-1]))
			}
		case e.Kind == EvCall && e.Name == fnViaIdx && m.n["asked"] == 0:
			m.n["asked"] = 1
			c.at("choice", e.In)
			var idx *V
			for _, a := range e.Args[1:] {
				if isBasic(a.typ, types.IsInteger) || a.isConst() && a.c != nil {
					if _, ok := stripConv(a).intC(); ok {
						idx = stripConv(a)
						break
					}
				}
			}
			if idx == nil {
				c.bad("choice", k+" index", e.In, s, "which endpoint is asked first cannot be told")
				return
			}
			i, _ := idx.intC()
			cs := known(s)
			if m.t["draw"] == nil {
				if !contradictory(cs) && n > 1 {
					c.bad("choice", k+" drawn", e.In, s, "endpoint %d is asked first whatever the draw", i)
				}
				return
			}
			d := linOf(m.t["draw"])
			cs = append(cs, diff(d, &lin{}, 0), diff(sum(n), d, -1))
			if i < 0 || int(i) >= n {
				if !entails(cs, &lin{k: -1}) {
					c.bad("choice", k+" range", e.In, s, "endpoint %d of %d is asked", i, n)
				}
				return
			}
			if !entails(cs, diff(d, sum(int(i)), 0)) || !entails(cs, diff(sum(int(i)+1), d, -1)) {
				c.bad("choice", k, e.In, s, "endpoint %d is asked first for draws outside the range which belongs to it (weights before it up to and with its own)", i)
			}
		case e.Kind == EvReturn && e.Fn == call:
			if m.n["asked"] == 0 {
				c.bad("choice", k+" none", e.In, s, "a call asks none of the endpoints drawn")
			}
		}
	}))
}
