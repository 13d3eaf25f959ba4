package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C26", "path typestate of every call of the multi-endpoint API: which connection each request uses and for which endpoint, what happens to a connection on which sending failed, under which conditions a connection is opened and kept, and what closing does; who else changes the bookkeeping", c26)
}

const (
	fnRequest  = "qrpc.Connection.Request"
	fnNewConn1 = "qrpc.NewConnection"
)

type apiFields struct{ conns, active, closed, mu, ends, idx *types.Var }

func c26(c *Check) {
	a := apiFields{c.field("", "defaultAPI", "conns"), c.field("", "defaultAPI", "activeConns"), c.field("", "defaultAPI", "closed"), c.field("", "defaultAPI", "mu"), c.field("", "defaultAPI", "endpoints"), c.field("", "defaultAPI", "idxMap")}
	if a.conns == nil || a.active == nil || a.closed == nil || a.mu == nil || a.ends == nil || a.idx == nil {
		return
	}
	for _, n := range []string{"CallOne", "Call"} {
		if fn := c.fn("qrpc.defaultAPI." + n); fn != nil {
			c.c26call(a, fn, nil)
		}
	}
	max := 2
	if c.tier == "thorough" {
		max = 3
	}
	for n := 0; n <= max; n++ {
		if fn := c.fn("qrpc.defaultAPI.CallAll"); fn != nil {
			c.c26call(a, fn, &apiAll{n: n, seen: map[int64]map[int64]bool{}})
		}
		c.c26new(a, n)
	}
	c.floor("request")
	c.floor("open")
	c.floor("keep")
	c.floor("forget")
	c.floor("all")
	c26close(c, a)
	// nobody else touches the bookkeeping
	for _, fn := range c.p.Funcs {
		if c.funcs[fn] || len(c.p.callersOf()[fn]) == 0 && !token.IsExported(fn.Name()) && fn.Parent() == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					f := structOfPtr(fa.X.Type()).Field(fa.Field)
					if f == a.conns || f == a.active || f == a.closed {
						c.bad("bookkeeping", fnName(fn)+" "+f.Name(), in, nil, "%s is used outside the calls analysed", f.Name())
					}
				}
			}
		}
	}
	for _, f := range []*types.Var{a.ends, a.idx} {
		f := f
		c.eachStoreOf(f, func(s *State, e *Event) {
			if !isAllocRoot(e.Addr) {
				c.bad("bookkeeping", fnName(e.In.Parent())+" "+f.Name(), e.In, s, "%s changes after the API was made", f.Name())
			}
		})
	}
}

// apiAll collects what the goroutines of one call to all endpoints do.
type apiAll struct {
	n    int
	seen map[int64]map[int64]bool // spawned as number k -> endpoint
}

// c26call: one public call.
func (c *Check) c26call(a apiFields, fn *ssa.Function, all *apiAll) {
	name := fn.Name()
	param := map[string]*V{}
	for _, p := range fn.Params {
		switch t := p.Type().(type) {
		case *types.Named:
			param[t.Obj().Name()] = vSym(p.Name(), p.Type())
		case *types.Slice:
			param["payload"] = vSym(p.Name(), p.Type())
		case *types.Basic:
			param["endpoint"] = vSym(p.Name(), p.Type())
		}
	}
	recv := vSym(fn.Params[0].Name(), fn.Params[0].Type())
	fb := c.flagBits()
	var nb *V
	for _, p := range c.fn(fnRequest).Params {
		if nt, ok := p.Type().(*types.Named); ok && nt.Obj().Name() == "FrameFlag" {
			nb = vInt(int64(1) << uint(fb.nb))
		}
	}
	ptr := types.NewPointer(c.p.typ("", "Connection"))
	// eq: 1 when both are known to be the same, 0 when known to differ
	eq := func(s *State, x, y *V) int {
		if x == nil || y == nil {
			return -1
		}
		x, y = connBelow(x), connBelow(y)
		if x == y {
			return 1
		}
		for _, v := range []*V{x, vAssert(x, ptr)} {
			for _, w := range []*V{y, vAssert(y, ptr)} {
				if r := s.facts.eval(vEq(v, w)); r >= 0 {
					return r
				}
			}
		}
		return -1
	}
	is := func(s *State, x, y *V) bool { return eq(s, x, y) == 1 }
	isNot := func(s *State, x, y *V) bool { return eq(s, x, y) == 0 }
	// number of the endpoint an element of the list of endpoints is
	endOf := func(v *V) *V {
		v = strip(v)
		if v != nil && v.k == KLoad && v.args[0].k == KIdx && lastField(v.args[0].args[0]) == a.ends {
			return strip(v.args[0].args[1])
		}
		return nil
	}
	cfg := Config{NoKill: true, Opaque: opaqueSet(fnRequest, fnNewConn1, "qrpc.Connection.Close"), FollowGo: func(*Event) bool { return all != nil }}
	if all != nil {
		cfg.Exact, cfg.Concrete = true, true
	}
	init := func(s *State) {
		if all != nil {
			s.facts.assume(vEq(vLen(s.load(vField(recv, a.ends), a.ends.Type())), vInt(int64(all.n))), true)
		}
	}
	c.exploreInit(cfg, fn, nil, nil, init, newM("api", func(m *M, s *State, e *Event) {
		bad := func(rule, k, format string, x ...interface{}) { c.bad(rule, name+" "+k, e.In, s, format, x...) }
		locked := s.lockedBy(a.mu, true)
		failed := m.t["rerr"] != nil && s.facts.nilEval(m.t["rerr"]) == 0
		// a connection on which sending failed is closed and forgotten
		flush := func() {
			if !failed || m.n["flushed"] == 1 {
				return
			}
			m.n["flushed"] = 1
			c.ob("forget", name)
			if m.n["rclosed"] == 0 {
				bad("forget", "close", "a connection on which sending failed is not closed")
			}
			if m.n["gone"] == 0 {
				bad("forget", "endpoint", "a connection on which sending failed stays the connection of its endpoint")
			}
			if m.n["inactive"] == 0 {
				bad("forget", "active", "a connection on which sending failed stays among the active ones")
			}
		}
		// and the request is tried again on another one
		retried := func() {
			if !failed || m.n["fresh"] == 1 {
				return
			}
			c.ob("retry", name)
			if !(m.t["nerr"] != nil && s.facts.nilEval(m.t["nerr"]) != 1) && !(m.t["sawshut"] != nil && s.facts.eval(vEq(m.t["sawshut"], vInt(0))) == 0) {
				bad("retry", "none", "a request is not tried again after sending it failed")
			}
		}
		switch {
		case e.Kind == EvSpawned:
			m.n["thread"], m.n["results"] = 1, 0
			m.t["cell"] = nil
		case e.Kind == EvGo && all != nil:
			m.n["go"]++
			if m.n["go"] > 9 {
				s.dead = true
				return
			}
			if e.Addr == nil && m.n["added"] < m.n["go"] {
				bad("all", "counted", "a call to an endpoint is not waited for")
			}
			if m.n["waited"] == 1 {
				bad("all", "late", "an endpoint is called after the waiting")
			}
			if e.Val != nil && e.Val.k == KClosure {
				for i, x := range e.Val.args {
					if x.k == KAlloc {
						m.t["cell"+itoa(i)] = x
					}
				}
			}
		case e.Kind == EvStore && all != nil && m.n["thread"] == 0 && m.n["go"] > 0:
			for _, x := range m.t {
				if x == e.Addr && x.k == KAlloc {
					bad("all", "shared", "a variable which the call to an endpoint uses changes after the call was started")
				}
			}
		case e.Kind == EvCall && e.Name == "sync.WaitGroup.Add":
			if n, ok := e.Args[1].intC(); ok {
				m.n["added"] += int(n)
			} else if s.facts.eval(vEq(e.Args[1], vInt(int64(allN(all))))) == 1 {
				m.n["added"] += allN(all)
			}
		case e.Kind == EvCall && e.Name == "sync.WaitGroup.Done":
			m.n["done"] = 1
		case e.Kind == EvCall && e.Name == "sync.WaitGroup.Wait":
			m.n["waited"] = 1
		case e.Kind == EvLock && lastField(e.Addr) == a.mu, e.Kind == EvUnlock && lastField(e.Addr) == a.mu:
			if e.Kind == EvUnlock && m.t["new"] != nil && s.facts.nilEval(m.t["newerr"]) == 1 && m.n["kept"] != 3 && m.n["newclosed"] == 0 && m.n["keptdone"] == 0 {
				bad("keep", "kept", "a connection is opened but not kept for its endpoint")
			}
			if e.Kind == EvUnlock && m.t["new"] != nil {
				m.n["keptdone"] = 1
			}
			if e.Kind == EvUnlock && failed && isNot(s, m.t["chk"], m.t["cur"]) {
				m.n["gone"] = 1 // replaced by another call
			}
			m.t["miss"], m.t["shut"], m.t["chk"] = nil, nil, nil
		case e.Kind == EvMapLookup && lastField(e.Addr) == a.idx:
			m.n["named"] = -1
			if e.Op == "hit" {
				m.n["named"] = 1
				m.t["want"] = strip(e.Res)
			}
			if strip(e.Args[0]) != param["endpoint"] {
				bad("named", "name", "the endpoint looked for is %s", showT(e.Args[0]))
			}
		case e.Kind == EvMapLookup && lastField(e.Addr) == a.conns:
			k := strip(e.Args[0])
			if all != nil && m.t["want"] == nil {
				m.t["want"] = k
			}
			if e.Op == "miss" {
				if !(failed && is(s, k, m.t["ckey"])) {
					m.n["missed"] = 1
				}
				if locked {
					m.t["miss"] = k
					if failed && is(s, k, m.t["ckey"]) {
						m.n["gone"] = 1
					}
				}
				return
			}
			if failed && m.n["flushed"] == 0 && is(s, k, m.t["ckey"]) && locked {
				m.t["chk"] = connBelow(e.Res)
			}
			m.t["last"], m.t["lastkey"] = connBelow(e.Res), k
		case e.Kind == EvMapDelete && lastField(e.Addr) == a.conns:
			c.at("forget", e.In)
			k := strip(e.Args[0])
			switch {
			case !failed || !is(s, k, m.t["ckey"]):
				bad("forget", "other", "the connection of an endpoint is forgotten which did not fail")
			case e.Op == "CompareAndDelete" && is(s, e.Val, m.t["cur"]):
				m.n["gone"] = 1
			case !locked || !is(s, m.t["chk"], m.t["cur"]):
				bad("forget", "replaced", "an endpoint's connection is forgotten although it may be another one than the one that failed")
			default:
				m.n["gone"] = 1
			}
		case e.Kind == EvMapDelete && lastField(e.Addr) == a.active:
			c.at("forget", e.In)
			if !failed || !is(s, e.Args[0], m.t["cur"]) {
				bad("forget", "other active", "a connection is no longer active although it did not fail")
				return
			}
			m.n["inactive"] = 1
		case e.Kind == EvCall && e.Name == "qrpc.Connection.Close":
			switch {
			case failed && is(s, e.Args[0], m.t["cur"]):
				m.n["rclosed"] = 1
			case m.t["new"] != nil && is(s, e.Args[0], m.t["new"]) && m.n["kept"] == 0:
				m.n["newclosed"] = 1
			default:
				bad("forget", "working", "a connection is closed on which sending did not fail")
			}
		case e.Kind == EvAtomic && lastField(e.Addr) == a.closed:
			if e.Op != "load" {
				bad("open", "closed", "a call changes whether the API is closed")
			} else if locked {
				m.t["shut"] = e.Res
			}
			m.t["sawshut"] = e.Res
		case e.Kind == EvLoad && e.Field == a.closed:
			bad("open", "race", "whether the API is closed is read without synchronisation")
		case e.Kind == EvCall && e.Name == fnNewConn1:
			c.at("open", e.In)
			at := endOf(e.Args[0])
			switch {
			case !locked:
				bad("open", "lock", "a connection is opened without holding the lock: two calls may open one for the same endpoint")
			case m.t["miss"] == nil:
				bad("open", "double", "a connection is opened although the endpoint may have one")
			case at == nil || !is(s, at, m.t["miss"]):
				bad("open", "where", "a connection is opened to %s for another endpoint", showT(e.Args[0]))
			}
			if m.t["shut"] == nil || s.facts.eval(vEq(m.t["shut"], vInt(0))) != 1 {
				bad("open", "closed", "a connection is opened although the API may be closed")
			}
			m.t["new"], m.t["newerr"], m.t["newkey"] = connBelow(e.Res.args[0]), e.Res.args[1], m.t["miss"]
			m.t["nerr"] = m.t["newerr"]
			m.n["kept"], m.n["newclosed"], m.n["keptdone"] = 0, 0, 0
		case e.Kind == EvMapUpdate && (lastField(e.Addr) == a.conns || lastField(e.Addr) == a.active):
			c.at("keep", e.In)
			con, key := e.Val, e.Args[0]
			bit := 1
			if lastField(e.Addr) == a.active {
				con, key = key, con
				bit = 2
			}
			switch {
			case m.t["new"] == nil || !is(s, con, m.t["new"]) || s.facts.nilEval(m.t["newerr"]) != 1:
				bad("keep", "what", "%s is kept as a connection which was not just opened", showT(con))
			case !locked || m.t["miss"] == nil:
				bad("keep", "lock", "a connection is kept after the lock was given up")
			case !is(s, key, m.t["newkey"]):
				bad("keep", "where", "a connection is kept for another endpoint than it leads to")
			case bit == 1 && e.Op != "Store" || m.n["newclosed"] == 1:
				bad("keep", "how", "a connection opened may not be kept")
			}
			m.n["kept"] |= bit
		case e.Kind == EvNext && lastField(e.Addr) == a.active:
			m.t["last"], m.t["lastkey"] = connBelow(e.Args[0]), strip(e.Val)
			m.n["missed"] = 0
		case e.Kind == EvNext && lastField(e.Addr) == a.conns:
			m.n["missed"] = 0
			m.t["last"], m.t["lastkey"] = connBelow(e.Val), strip(e.Args[0])
		case e.Kind == EvCall && e.Name == fnRequest:
			flush()
			c.at("request", e.In)
			x := connBelow(e.Args[0])
			fresh := false
			var key *V
			switch {
			case m.t["new"] != nil && is(s, x, m.t["new"]):
				key, fresh = m.t["newkey"], true
				if s.facts.nilEval(m.t["newerr"]) != 1 {
					bad("request", "none", "a request is sent although opening the connection may have failed")
				}
			case m.t["last"] != nil && is(s, x, m.t["last"]):
				key = m.t["lastkey"]
				fresh = m.n["missed"] == 1 || failed && m.n["fresh"] == 0 && is(s, key, m.t["ckey"])
			default:
				bad("request", "which", "a request is sent over %s, which is no endpoint's connection", showT(x))
			}
			if len(e.Args) > 3 {
				if nb != nil && s.facts.eval(vEq(e.Args[2], nb)) != 1 {
					bad("request", "flags", "a request is sent with flags %s", e.Args[2])
				}
				if strip(e.Args[1]) != param["Cmd"] || strip(e.Args[3]) != param["payload"] {
					bad("request", "content", "a request is sent with command %s and payload %s", showT(e.Args[1]), showT(e.Args[3]))
				}
			}
			if name == "CallOne" {
				c.ob("named", "CallOne")
				if m.n["named"] != 1 {
					bad("named", "unknown", "a request is sent although the endpoint may be unknown")
				}
			}
			if name != "Call" && !is(s, key, m.t["want"]) {
				bad("named", "endpoint", "a request is sent to another endpoint than the one called")
			}
			if m.n["tries"] > 0 && m.t["rerr"] != nil && !failed && name != "Call" {
				bad("request", "again", "a request is sent again although sending it may not have failed")
			}
			if !is(s, key, m.t["ckey"]) || m.n["fresh"] == 1 {
				retried()
			}
			m.t["nerr"], m.t["sawshut"], m.n["missed"] = nil, nil, 0
			m.n["tries"]++
			if m.n["tries"] > 6 {
				bad("request", "many", "a request is tried again and again")
				s.dead = true
				return
			}
			m.n["fresh"] = 0
			if fresh {
				m.n["fresh"] = 1
			}
			m.t["cur"], m.t["ckey"], m.t["resp"], m.t["rerr"] = x, key, strip(e.Res.args[1]), e.Res.args[2]
			m.t["chk"], m.t["got"] = nil, nil
			m.n["gone"], m.n["inactive"], m.n["rclosed"], m.n["flushed"] = 0, 0, 0, 0
		case e.Kind == EvCall && strings.Contains(e.Name, "Response.GetFrame"):
			c.at("request", e.In)
			if strip(e.Args[0]) != m.t["resp"] || s.facts.nilEval(m.t["rerr"]) != 1 {
				bad("request", "response", "the response waited for is not that of the request")
			}
			if !strings.HasSuffix(e.Name, "WithContext") || strip(e.Args[1]) != param["Context"] {
				bad("request", "context", "waiting for the response does not end with the caller's context")
			}
			m.t["got"], m.t["goterr"] = e.Res.args[0], e.Res.args[1]
		case e.Kind == EvMapUpdate && all != nil && m.n["thread"] == 1:
			c.at("all", e.In)
			m.n["results"]++
			if len(s.locks) == 0 {
				bad("all", "lock", "results are collected without a lock")
			}
			if k := endOf(e.Args[0]); k == nil || !is(s, k, m.t["want"]) {
				bad("all", "key", "the result of one endpoint is reported for %s", showT(e.Args[0]))
			}
			flush()
			retried()
			c.outcome(m, s, e, strip(e.Val), bad)
		case e.Kind == EvThreadEnd:
			flush()
			if m.n["results"] != 1 {
				bad("all", "one", "an endpoint has %d results", m.n["results"])
			}
			k, ok := int64(0), false
			if m.t["want"] != nil {
				k, ok = m.t["want"].intC()
			}
			if !ok {
				bad("all", "which", "it is not known which endpoint is called")
				return
			}
			n := int64(m.n["go"])
			if all.seen[n] == nil {
				all.seen[n] = map[int64]bool{}
			}
			all.seen[n][k] = true
		case e.Kind == EvReturn && all != nil:
			c.ob("all", "n="+itoa(all.n))
			if m.n["go"] != all.n {
				bad("all", "each", "%d of %d endpoints are called", m.n["go"], all.n)
			}
			if m.n["waited"] == 0 && all.n > 0 {
				bad("all", "wait", "the results are returned before every endpoint was called")
			}
		case e.Kind == EvReturn:
			flush()
			frame, err := e.Args[0], e.Args[1]
			en := s.facts.nilEval(err)
			c.ob("request", name+" result")
			if m.n["named"] == -1 && en != 0 {
				bad("named", "refused", "a call to an unknown endpoint is not refused")
			}
			if m.n["tries"] == 0 {
				if en != 0 {
					bad("request", "silent", "a call succeeds without a request")
				}
				return
			}
			retried()
			switch {
			case s.facts.nilEval(m.t["rerr"]) == 1:
				if m.t["got"] == nil {
					bad("request", "unanswered", "a call returns without having waited for the response")
				} else if name == "Call" && m.n["tries"] > 0 && en == 0 {
				} else if strip(frame) != strip(m.t["got"]) || strip(err) != strip(m.t["goterr"]) {
					bad("request", "result", "the result of a call is not that of its request")
				}
			case failed && en != 0:
				bad("request", "failure", "a call succeeds although sending failed")
			case !failed:
				bad("request", "unknown", "a call ignores whether sending failed")
			}
		}
	}))
	if all != nil {
		got := map[int64]int64{}
		for k := int64(1); k <= int64(all.n); k++ {
			if len(all.seen[k]) != 1 {
				c.bad("all", "endpoints", nil, nil, "of %d endpoints, call number %d goes to %d of them", all.n, k, len(all.seen[k]))
			}
			for e := range all.seen[k] {
				got[e]++
			}
		}
		for k := int64(0); k < int64(all.n); k++ {
			if got[k] != 1 {
				c.bad("all", "endpoints", nil, nil, "endpoint %d of %d is called %d times", k, all.n, got[k])
			}
		}
	}
}

func allN(a *apiAll) int {
	if a == nil {
		return 0
	}
	return a.n
}

// outcome: the result stored for an endpoint is that of its call.
func (c *Check) outcome(m *M, s *State, e *Event, v *V, bad func(rule, k, format string, x ...interface{})) {
	fF, fE := c.field("", "APIResult", "Frame"), c.field("", "APIResult", "Err")
	if fF == nil || fE == nil {
		return
	}
	frame, err := strip(s.load(vField(v, fF), fF.Type())), strip(s.load(vField(v, fE), fE.Type()))
	if m.t["rerr"] != nil && s.facts.nilEval(m.t["rerr"]) == 1 {
		if m.t["got"] == nil || frame != strip(m.t["got"]) || err != strip(m.t["goterr"]) {
			bad("all", "result", "the result reported for an endpoint is not that of its request")
		}
		return
	}
	if s.facts.nilEval(err) != 0 {
		bad("all", "failure", "an endpoint's result is a success although it was not called")
	}
}

// c26new: making the API, with n endpoints.
func (c *Check) c26new(a apiFields, n int) {
	fn := c.fn("qrpc.NewAPI")
	if fn == nil {
		return
	}
	var ends *V
	for _, p := range fn.Params {
		if sl, ok := p.Type().(*types.Slice); ok && types.Identical(sl.Elem(), types.Typ[types.String]) {
			ends = vSym(p.Name(), p.Type())
		}
	}
	if ends == nil {
		c.bad("new", "endpoints", nil, nil, "the API takes no endpoints")
		return
	}
	elem := func(v *V) (int64, bool) {
		v = strip(v)
		if v == nil || v.k != KLoad || v.args[0].k != KIdx || v.args[0].args[0] != ends {
			return 0, false
		}
		return v.args[0].args[1].intC()
	}
	mon := func() Monitor {
		return c.c26newMon(a, n, ends, elem)
	}
	for _, given := range []bool{false, true} {
		args := make([]*V, len(fn.Params))
		var lists []*V
		for i, p := range fn.Params {
			args[i] = vSym(p.Name(), p.Type())
			if _, ok := p.Type().(*types.Slice); ok && args[i] != ends {
				if !given {
					args[i] = vNil()
				} else {
					lists = append(lists, args[i])
				}
			}
		}
		c.exploreInit(Config{NoKill: true, Exact: true, Concrete: true, Opaque: opaqueSet(fnNewConn1)}, fn, args, nil, func(s *State) {
			for _, l := range append(lists, ends) {
				s.facts.assume(vEq(vLen(l), vInt(int64(n))), true)
			}
		}, mon())
	}
	c.floor("new")
}

func (c *Check) c26newMon(a apiFields, n int, ends *V, elem func(*V) (int64, bool)) *M {
	return newM("new", func(m *M, s *State, e *Event) {
		bad := func(k, format string, x ...interface{}) { c.bad("new", k, e.In, s, format, x...) }
		kept := func() {
			if m.t["new"] != nil && s.facts.nilEval(m.t["newerr"]) != 0 && m.n["kept"] != 3 {
				bad("kept", "a connection is opened but not kept for its endpoint")
			}
		}
		switch {
		case e.Kind == EvCopy && strip(e.Args[1]) == ends:
			m.t["copy"] = strip(e.Args[0])
		case e.Kind == EvAppend && len(e.Args) == 2 && strip(e.Args[1]) == ends:
			m.t["copy"] = strip(e.Res)
		case e.Kind == EvMapUpdate && e.Field == nil && lastField(e.Addr) != a.conns && lastField(e.Addr) != a.active:
			k, ok := elem(e.Args[0])
			if !ok {
				return
			}
			v, ok := strip(e.Val).intC()
			if !ok || v != k {
				bad("index", "endpoint %d is known as number %s", k, showT(e.Val))
			}
			m.n["idx"+itoa(int(k))] = 1
			m.t["idx"] = strip(e.Addr)
		case e.Kind == EvCall && e.Name == fnNewConn1:
			kept()
			c.at("new", e.In)
			k, ok := elem(e.Args[0])
			if !ok {
				bad("where", "a connection is opened to %s", showT(e.Args[0]))
				return
			}
			if m.n["open"+itoa(int(k))] == 1 {
				bad("twice", "two connections are opened for an endpoint")
			}
			m.n["open"+itoa(int(k))] = 1
			m.t["new"], m.t["newerr"] = connBelow(e.Res.args[0]), e.Res.args[1]
			m.n["kept"], m.n["at"] = 0, int(k)
		case e.Kind == EvMapUpdate:
			con, key, bit := e.Val, e.Args[0], 1
			if lastField(e.Addr) == a.active {
				con, key, bit = key, con, 2
			}
			k, ok := strip(key).intC()
			if m.t["new"] == nil || connBelow(con) != m.t["new"] || s.facts.nilEval(m.t["newerr"]) != 1 || !ok || k != int64(m.n["at"]) {
				bad("what", "%s is kept as the connection of %s", showT(con), showT(key))
			}
			m.n["kept"] |= bit
		case e.Kind == EvCall && e.Name == "qrpc.Connection.Close":
			m.t["new"] = nil
		case e.Kind == EvReturn:
			kept()
			c.ob("new", "n="+itoa(n))
			api := strip(e.Args[0])
			for i := 0; i < n; i++ {
				if m.n["idx"+itoa(i)] == 0 {
					bad("unknown", "an endpoint is not known by its name")
				}
			}
			if n > 0 && strip(s.load(vField(api, a.idx), a.idx.Type())) != m.t["idx"] {
				bad("names", "the endpoints' names are not kept")
			}
			if v := strip(s.load(vField(api, a.ends), a.ends.Type())); v != ends && v != m.t["copy"] {
				bad("list", "the endpoints kept are %s", showT(v))
			} else if l := s.facts.eval(vEq(vLen(v), vInt(int64(n)))); v != ends && l != 1 {
				bad("list length", "the list of endpoints kept differs from the one given")
			}
		}
	})
}

// c26close: closing the API.
func c26close(c *Check, a apiFields) {
	fn := c.fn("qrpc.defaultAPI.Close")
	if fn == nil {
		return
	}
	c.explore(Config{NoKill: true, Opaque: opaqueSet("qrpc.Connection.Close")}, fn, nil, nil, newM("close", func(m *M, s *State, e *Event) {
		bad := func(k, format string, x ...interface{}) { c.bad("close", k, e.In, s, format, x...) }
		locked := s.lockedBy(a.mu, true)
		next := func() {
			if m.t["open"] != nil {
				bad("left", "a connection stays open when the API is closed")
				m.t["open"] = nil
			}
		}
		switch {
		case e.Kind == EvAtomic && lastField(e.Addr) == a.closed:
			switch e.Op {
			case "cas":
				if v, ok := e.Args[0].intC(); !ok || v != 0 || s.facts.eval(vEq(e.Args[1], vInt(0))) != 0 {
					bad("mark", "the mark of a closed API is not set")
				}
				if s.facts.eval(e.Res) == 1 {
					m.n["set"] = 1
				} else {
					m.n["again"] = 1
				}
			case "store", "swap":
				if s.facts.eval(vEq(e.Args[0], vInt(0))) != 0 {
					bad("mark", "the mark of a closed API is taken away")
				}
				m.n["set"] = 1
			}
		case e.Kind == EvLock && lastField(e.Addr) == a.mu:
			if m.n["set"] == 1 {
				m.n["after"] = 1
			}
		case e.Kind == EvCall && e.Name == "sync.Map.Range.all" && (lastField(e.Args[0]) == a.active || lastField(e.Args[0]) == a.conns):
			next()
			if m.n["after"] == 1 {
				m.n["ranged"] = 1
			}
		case e.Kind == EvNext && (lastField(e.Addr) == a.active || lastField(e.Addr) == a.conns):
			next()
			c.at("close", e.In)
			m.t["open"] = connBelow(e.Args[0])
			if lastField(e.Addr) == a.conns {
				m.t["open"] = connBelow(e.Val)
			}
			if !locked && m.n["after"] == 0 {
				bad("lock", "connections are closed while calls may still open new ones")
			}
		case e.Kind == EvCall && e.Name == "qrpc.Connection.Close":
			if connBelow(e.Args[0]) == m.t["open"] {
				m.t["open"] = nil
			}
		case e.Kind == EvReturn:
			next()
			c.ob("close", "result")
			if m.n["again"] == 1 {
				if s.facts.nilEval(e.Args[0]) != 0 {
					bad("again", "closing a closed API succeeds")
				}
				return
			}
			if m.n["set"] == 0 {
				bad("unmarked", "closing the API does not mark it closed")
			}
			if m.n["ranged"] == 0 {
				bad("some", "closing the API may leave connections open")
			}
		}
	}))
	c.floor("close")
}
