package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C16", "path typestate and bit provenance: the key of every registration and lookup of the mux is exactly the low two bytes of the command; a registration happens once per call, only under the lock after the same key was found missing, with a handler known not nil and a command known in range; the registered value, run as written, calls every middleware in order and then the handler exactly once, and stops at the first refusal; a request without handler closes its connection", c16)
}

func c16(c *Check) {
	c16register(c)
	c16dispatch(c)
	c16chain(c)
	c16func(c)
}

// c16func: a function used as a handler is called once with what the handler was given.
func c16func(c *Check) {
	fn := c.fn("qrpc.HandlerFunc.ServeQRPC")
	if fn == nil || len(fn.Params) != 3 {
		return
	}
	a := params(fn)
	c.explore(Config{NoKill: true}, fn, a, nil, newM("func", func(m *M, s *State, e *Event) {
		switch e.Kind {
		case EvUser:
			c.at("handler-func", e.In)
			m.n["n"]++
			if sym(e.Val) != a[0] || len(e.Args) != 2 || sym(e.Args[0]) != a[1] || sym(e.Args[1]) != a[2] {
				c.bad("handler-func", "arguments", e.In, s, "the function is not called with what the handler was given")
			}
		case EvReturn:
			c.ob("handler-func", "count")
			if m.n["n"] != 1 {
				c.bad("handler-func", "count", e.In, s, "the function is called %d times", m.n["n"])
			}
		}
	}))
	c.floor("handler-func")
}

// lockedBy: the mutex is held (for writing).
func (s *State) lockedBy(f *types.Var, write bool) bool {
	for _, l := range s.locks {
		if lastField(l.addr) == f && !(write && l.read) {
			return true
		}
	}
	return false
}

func (c *Check) routeKey(rule, k string, s *State, e *Event, cmd *V) {
	key := s.cmdBits(e.Args[0], 32)
	want := srcBits(cmd, 0, 32)
	for i := range want {
		if i >= 16 {
			want[i] = Bit{kind: 0}
		}
		want[i] = s.resolve(want[i])
	}
	same := true
	for i := range want {
		same = same && key[i] == want[i]
	}
	if !same {
		c.bad(rule, k, e.In, s, "the key is %s (%s), not the low two bytes of the command", e.Args[0], showBits(key))
	}
}

func (s *State) cmdBits(v *V, w int) []Bit {
	b := bitsWidth(v, w)
	for i := range b {
		b[i] = s.resolve(b[i])
	}
	return b
}

func isHandlerMap(c *Check, t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	n, ok := m.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Handler" && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "qrpc"
}

func c16register(c *Check) {
	fM, fMu := c.field("", "ServeMux", "m"), c.field("", "ServeMux", "mu")
	if fM == nil || fMu == nil {
		return
	}
	for _, name := range []string{"qrpc.ServeMux.Handle", "qrpc.ServeMux.HandleFunc"} {
		fn := c.fn(name)
		if fn == nil || len(fn.Params) < 4 {
			continue
		}
		name := name
		cmd := vSym(fn.Params[1].Name(), fn.Params[1].Type())
		h := vSym(fn.Params[2].Name(), fn.Params[2].Type())
		mw := vSym(fn.Params[3].Name(), fn.Params[3].Type())
		c.explore(Config{NoKill: true, Opaque: opaqueSet("qrpc.HandlerWithMW")}, fn, nil, nil, newM("reg", func(m *M, s *State, e *Event) {
			switch {
			case e.Kind == EvMapLookup && isHandlerMap(c, e.Addr.typ):
				m.t["missing"], m.t["found"] = e.Args[0], nil
				if e.Op == "hit" {
					m.t["found"] = e.Res
				}
			case e.Kind == EvUnlock && lastField(e.Addr) == fMu:
				m.t["missing"] = nil
			case e.Kind == EvStore && e.Field == fM:
				c.ob("table", name)
				if !s.lockedBy(fMu, true) {
					c.bad("table", name+" lock", e.In, s, "the table of handlers is replaced without its lock")
				}
				if s.facts.nilEval(e.Args[0]) != 1 {
					c.bad("table", name, e.In, s, "the table of handlers is replaced: registrations are lost")
				}
			case e.Kind == EvCall && e.Name == "qrpc.HandlerWithMW":
				m.t["h"], m.t["mw"], m.t["wrapped"] = e.Args[0], e.Args[1], e.Res
			case e.Kind == EvMapUpdate && isHandlerMap(c, e.Addr.typ):
				c.at("register", e.In)
				m.n["done"]++
				c.routeKey("register", name+" key", s, e, cmd)
				if !s.lockedBy(fMu, true) {
					c.bad("register", name+" lock", e.In, s, "a handler is registered without the lock")
				}
				if m.t["missing"] != e.Args[0] || m.t["found"] != nil && s.facts.nilEval(m.t["found"]) != 1 {
					c.bad("register", name+" duplicate", e.In, s, "a handler is registered although the route may have one already, or the check was made before the lock was taken")
				}
				if s.facts.eval(vLt(vInt(0xffffff), cmd)) != 0 {
					c.bad("register", name+" range", e.In, s, "a handler is registered for a command that may have more than three bytes")
				}
				val := strip(e.Val)
				switch {
				case m.t["wrapped"] != nil && val == strip(m.t["wrapped"]):
					val = strip(m.t["h"])
					if strip(m.t["mw"]) != mw {
						c.bad("register", name+" middleware", e.In, s, "the handler is registered with middleware %s", m.t["mw"])
					}
				case !s.isEmpty(mw):
					c.bad("register", name+" middleware", e.In, s, "the handler may be registered without its middleware")
				}
				if stripConv(val) != h {
					c.bad("register", name+" handler", e.In, s, "the handler registered is %s", val)
				}
				if s.facts.nilEval(h) != 0 {
					c.bad("register", name+" nil", e.In, s, "the handler registered may be nil")
				}
			case e.Kind == EvReturn:
				if m.n["done"] != 1 {
					c.bad("register", name+" lost", e.In, s, "%d registrations happened without a panic", m.n["done"])
				}
			}
		}))
	}
	c.floor("register")
	// nothing else changes the table
	for _, fn := range c.p.Funcs {
		if c.funcs[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					if isHandlerMap(c, x.Map.Type()) {
						c.bad("register", fnName(fn)+" elsewhere", in, nil, "handlers are registered outside the registration of the mux")
					}
				}
			}
		}
	}
	c.eachStoreOf(fM, func(s *State, e *Event) {
		if !isAllocRoot(e.Addr) && (len(e.Args) == 0 || e.Args[0] == nil || s.facts.nilEval(e.Args[0]) != 1) {
			c.bad("table", fnName(e.In.Parent())+" elsewhere", e.In, s, "the table of handlers is replaced: registrations are lost")
		}
	})
	for _, fn := range c.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if bi, ok := call.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") && isHandlerMap(c, call.Common().Args[0].Type()) {
						c.bad("table", fnName(fn)+" delete", in, nil, "registered handlers are removed")
					}
				}
			}
		}
	}
}

// isAllocRoot: the address is part of an object made by the function itself.
func isAllocRoot(a *V) bool {
	if a == nil {
		return false
	}
	r, _ := pathOf(a)
	return r != nil && r.k == KAlloc
}

func c16dispatch(c *Check) {
	fn := c.fn("qrpc.ServeMux.ServeQRPC")
	fCmd := c.field("", "Frame", "Cmd")
	fMu := c.field("", "ServeMux", "mu")
	if fn == nil || fCmd == nil || fMu == nil {
		return
	}
	w := vSym(fn.Params[1].Name(), fn.Params[1].Type())
	r := vSym(fn.Params[2].Name(), fn.Params[2].Type())
	c.explore(Config{NoKill: true, Opaque: opaqueSet("qrpc.RequestFrame.Close", fnCloseS)}, fn, nil, nil, newM("route", func(m *M, s *State, e *Event) {
		switch {
		case e.Kind == EvMapLookup && isHandlerMap(c, e.Addr.typ):
			c.at("dispatch", e.In)
			var cmd *V
			if rf := fn.Params[2].Type(); rf != nil {
				cmd = s.load(vField(r, fCmd), fCmd.Type())
			}
			if !s.lockedBy(fMu, false) {
				c.bad("dispatch", "lock", e.In, s, "the table of handlers is read without its lock")
			}
			c.routeKey("dispatch", "key", s, e, cmd)
			if e.Op == "hit" {
				m.t["h"] = strip(e.Res)
			}
			m.n["looked"]++
		case e.Kind == EvCall && e.Name == "qrpc.Handler.ServeQRPC":
			m.n["calls"]++
			if m.t["h"] == nil || strip(e.Args[0]) != m.t["h"] {
				c.bad("dispatch", "handler", e.In, s, "the request is given to %s, not to the handler of its route", e.Args[0])
			}
			if strip(e.Args[1]) != w || strip(e.Args[2]) != r {
				c.bad("dispatch", "args", e.In, s, "the handler gets other arguments than the request and its writer")
			}
			if len(s.locks) > 0 {
				c.bad("dispatch", "locked", e.In, s, "the handler runs under the lock of the mux: registering would block all requests")
			}
		case e.Kind == EvCall && e.Name == "qrpc.RequestFrame.Close":
			if strip(e.Args[0]) == r {
				m.n["closed"]++
			}
		case e.Kind == EvCall && (e.Name == fnCloseS || e.Name == "qrpc.Connection.closeRWC"):
			m.n["closed"]++
		case e.Kind == EvReturn:
			c.ob("dispatch", "end")
			if m.t["h"] != nil && s.facts.nilEval(m.t["h"]) == 1 {
				return // no handler registered is nil
			}
			switch {
			case m.n["calls"] > 1:
				c.bad("dispatch", "twice", e.In, s, "a request is handled %d times", m.n["calls"])
			case m.t["h"] != nil && m.n["calls"] == 0:
				c.bad("dispatch", "ignored", e.In, s, "a request with a handler is not handled")
			case m.t["h"] == nil && m.n["closed"] == 0:
				c.bad("dispatch", "unrouted", e.In, s, "a request without handler is ignored: its connection stays open")
			case m.t["h"] != nil && m.n["closed"] > 0:
				c.bad("dispatch", "closed", e.In, s, "the connection of a request with a handler is closed")
			}
		}
	}))
	c.floor("dispatch")
}

// c16chain runs what HandlerWithMW returns.
func c16chain(c *Check) {
	fn := c.fn("qrpc.HandlerWithMW")
	if fn == nil {
		return
	}
	h := vSym(fn.Params[0].Name(), fn.Params[0].Type())
	mw := vSym(fn.Params[1].Name(), fn.Params[1].Type())
	mwT := fn.Params[1].Type().Underlying().(*types.Slice).Elem()
	hT := c.p.typ("", "Handler")
	if hT == nil {
		return
	}
	max := 3
	if c.tier == "thorough" {
		max = 6
	}
	for n := 0; n <= max; n++ {
		n := n
		k := "middleware " + itoa(n)
		sig, _, _ := types.LookupFieldOrMethod(hT, true, fn.Pkg.Pkg, "ServeQRPC")
		meth, ok := sig.(*types.Func)
		if !ok {
			c.bad("chain", "method", nil, nil, "Handler has no ServeQRPC")
			return
		}
		wT, rT := meth.Type().(*types.Signature).Params().At(0).Type(), meth.Type().(*types.Signature).Params().At(1).Type()
		w, r := vSym("w", wT), vSym("r", rT)
		init := func(s *State) { s.facts.assume(vEq(vLen(mw), vInt(int64(n))), true) }
		cfg := Config{NoKill: true, Concrete: true, Exact: true, Next: func(s *State, e *Event) (*ssa.Function, []*V) {
			if e.Fn != fn {
				return nil, nil
			}
			res := e.Args[0]
			if strip(res) == h {
				return nil, nil
			}
			if res.k == KIface {
				if f := c.p.SSA.LookupMethod(res.typ, fn.Pkg.Pkg, "ServeQRPC"); f != nil {
					return f, []*V{res.args[0], w, r}
				}
			}
			c.bad("chain", k+" value", e.In, s, "the wrapped handler is %s", res)
			return nil, nil
		}}
		c.exploreInit(cfg, fn, nil, nil, init, newM("chain", func(m *M, s *State, e *Event) {
			switch {
			case e.Kind == EvUser:
				i := m.n["i"]
				c.ob("chain", k)
				want := s.load(vIdx(mw, vInt(int64(i))), mwT)
				if i >= n || stripConv(e.Val) != stripConv(want) {
					c.bad("chain", k+" order", e.In, s, "middleware %d run is %s", i+1, e.Val)
				}
				if m.n["h"] > 0 {
					c.bad("chain", k+" after", e.In, s, "a middleware runs after the handler")
				}
				if i > 0 && (m.t["ok"] == nil || s.facts.eval(m.t["ok"]) != 1) {
					c.bad("chain", k+" refusal", e.In, s, "a middleware runs although the one before may have refused the request")
				}
				if len(e.Args) < 2 || strip(e.Args[0]) != w || strip(e.Args[1]) != r {
					c.bad("chain", k+" args", e.In, s, "a middleware gets other arguments than the request and its writer")
				}
				m.n["i"]++
				m.t["ok"] = e.Res
			case e.Kind == EvCall && e.Name == "qrpc.Handler.ServeQRPC":
				c.ob("chain", k)
				m.n["h"]++
				if strip(e.Args[0]) != h {
					c.bad("chain", k+" handler", e.In, s, "the handler run is %s", e.Args[0])
				}
				if m.n["i"] != n || n > 0 && (m.t["ok"] == nil || s.facts.eval(m.t["ok"]) != 1) {
					c.bad("chain", k+" skipped", e.In, s, "the handler runs after %d of %d middlewares, the last of which may have refused", m.n["i"], n)
				}
				if strip(e.Args[1]) != w || strip(e.Args[2]) != r {
					c.bad("chain", k+" args", e.In, s, "the handler gets other arguments than the request and its writer")
				}
			case e.Kind == EvReturn && e.Fn == fn:
				if strip(e.Args[0]) == h {
					c.ob("chain", k)
					if n > 0 {
						c.bad("chain", k+" dropped", e.In, s, "the handler is registered without its middleware")
					}
				}
			case e.Kind == EvReturn:
				refused := m.t["ok"] != nil && s.facts.eval(m.t["ok"]) == 0
				if m.n["h"] > 1 || m.n["h"] == 0 && !refused {
					c.bad("chain", k+" end", e.In, s, "the handler ran %d times although every middleware allowed the request", m.n["h"])
				}
			}
		}))
	}
	c.floor("chain")
}
