package main

import (
	"go/types"
	"strings"
)

func init() {
	reg("C31", "path typestate of the throttle: waiting blocks exactly when the state loaded is on, on its channel and the caller's end only; changes are one critical section which replaces the state together with closing the channel of its waiters; accepting and reading are preceded by the wait of their own listener with the end of their own server or connection", c31)
}

const (
	fnSetT   = "qrpc.Server.SetThrottle"
	fnClearT = "qrpc.Server.ClearThrottle"
)

type throttleFields struct {
	state, on, ch *types.Var
	typ           types.Type
}

// isOn: whether the loaded state is on (1), off or never set (0), or undetermined.
func (f *throttleFields) isOn(s *State, v *V) int {
	if v == nil {
		return -1
	}
	if s.facts.nilEval(v) == 1 || s.facts.eval(vAssertOk(v, f.typ)) == 0 {
		return 0
	}
	if on := s.fieldVal(vAssert(v, f.typ), f.on); on != nil {
		return s.facts.eval(on)
	}
	return -1
}

func (f *throttleFields) chOf(s *State, v *V) *V {
	return s.fieldVal(vAssert(v, f.typ), f.ch)
}

func c31(c *Check) {
	f := &throttleFields{state: c.field("", "Server", "throttle"), on: c.field("", "throttle", "on"), ch: c.field("", "throttle", "ch"), typ: c.p.typ("", "throttle")}
	fDone, fIdx := c.field("", "Server", "doneChan"), c.field("", "serveconn", "idx")
	fCh := c.field("", "serveconn", "readFrameCh")
	if f.state == nil || f.on == nil || f.ch == nil || f.typ == nil || fDone == nil || fIdx == nil || fCh == nil {
		return
	}
	own := func(e *Event, recv, idx *V) bool {
		a := e.Addr
		return a != nil && a.k == KIdx && lastField(a.args[0]) == f.state && through(a.args[0], recv) && strip(a.args[1]) == idx
	}
	// waiting
	if fn := c.fn(fnThrottle); fn != nil && len(fn.Params) == 3 {
		recv, idx, done := vSym(fn.Params[0].Name(), fn.Params[0].Type()), vSym(fn.Params[1].Name(), fn.Params[1].Type()), vSym(fn.Params[2].Name(), fn.Params[2].Type())
		c.explore(Config{NoKill: true}, fn, []*V{recv, idx, done}, nil, newM("wait", func(m *M, s *State, e *Event) {
			bad := func(k, format string, a ...interface{}) { c.bad("wait", k, e.In, s, format, a...) }
			switch {
			case e.Kind == EvAtomic && lastField2(e.Addr) == f.state || e.Kind == EvAtomic && e.Addr.k == KIdx && lastField(e.Addr.args[0]) == f.state:
				c.at("wait", e.In)
				if e.Op != "load" {
					bad("change", "waiting changes the throttle")
				}
				if !own(e, recv, idx) {
					bad("other", "the throttle of another listener is waited for: %s", e.Addr)
				}
				m.t["v"] = e.Res
				m.n["over"] = 0
			case e.Kind == EvSelect:
				c.at("wait", e.In)
				if f.isOn(s, m.t["v"]) != 1 {
					bad("off", "waiting blocks although throttling is not known to be on")
					return
				}
				ch := f.chOf(s, m.t["v"])
				gotCh, gotDone := false, false
				for _, k := range e.Cases {
					switch {
					case !k.Send && ch != nil && strip(k.Ch) == strip(ch):
						gotCh = true
					case !k.Send && strip(k.Ch) == done:
						gotDone = true
					default:
						bad("case", "waiting can end for another reason: %s", k.Ch)
					}
				}
				if !e.Blocking {
					bad("poll", "throttling does not pause: it is only looked at")
				}
				if !gotCh {
					bad("unreleased", "clearing the throttle does not release the waiter")
				}
				if !gotDone {
					bad("outlasts", "the wait does not end with the connection or server it is made for")
				}
			case e.Kind == EvRecv && !e.Sel:
				bad("blocks", "waiting blocks on %s alone", e.Ch)
			case e.Kind == EvRecv:
				m.n["over"] = 1
			case e.Kind == EvCall && (e.Name == "time.Sleep"):
				bad("sleep", "waiting sleeps")
			case e.Kind == EvReturn:
				c.ob("wait", "return")
				if m.t["v"] == nil {
					bad("unlooked", "waiting returns without looking at the throttle")
				} else if f.isOn(s, m.t["v"]) != 0 && m.n["over"] == 0 {
					bad("on", "waiting returns at once although throttling may be on")
				}
			}
		}))
	}
	// changing
	for _, name := range []string{fnSetT, fnClearT} {
		name := name
		fn := c.fn(name)
		if fn == nil {
			continue
		}
		recv, idx := vSym(fn.Params[0].Name(), fn.Params[0].Type()), vSym(fn.Params[1].Name(), fn.Params[1].Type())
		c.explore(Config{NoKill: true, NilAsserts: true}, fn, []*V{recv, idx}, nil, newM("change", func(m *M, s *State, e *Event) {
			bad := func(k, format string, a ...interface{}) { c.bad("change", name+" "+k, e.In, s, format, a...) }
			switch {
			case e.Kind == EvAtomic && e.Addr.k == KIdx && lastField(e.Addr.args[0]) == f.state:
				c.at("change", e.In)
				if !own(e, recv, idx) {
					bad("other", "the throttle of another listener is touched: %s", e.Addr)
				}
				if !s.lockedW() {
					bad("lock", "the state is examined or replaced outside a critical section: a concurrent change loses waiters or closes a channel twice")
				}
				switch e.Op {
				case "load":
					if m.n["stores"]+m.n["closes"] == 0 {
						m.t["v"] = e.Res
						m.t["lock"] = lockID(s)
					}
				case "store":
					m.n["stores"]++
					m.t["new"] = e.Args[0]
					if m.t["lock"] != lockID(s) {
						bad("section", "the state is replaced in another critical section than the one it was examined in")
					}
				default:
					bad("op", "the state is changed by %s", e.Op)
				}
			case e.Kind == EvUnlock && m.n["stores"] == 0 && m.t["v"] != nil:
				m.t["lock"] = nil
			case e.Kind == EvClose:
				m.n["closes"]++
				if m.t["v"] == nil || f.chOf(s, m.t["v"]) == nil || strip(e.Ch) != strip(f.chOf(s, m.t["v"])) {
					bad("closes other", "%s is closed, which is not the channel of the waiters", e.Ch)
				}
				if !s.lockedW() {
					bad("close lock", "the channel of the waiters is closed outside the critical section")
				}
				if s.facts.nilEval(m.t["v"]) != 0 && s.facts.eval(vAssertOk(m.t["v"], f.typ)) != 1 {
					bad("close unset", "the channel of a throttle that was never set is closed")
				}
			case e.Kind == EvReturn, e.Kind == EvPanicExit:
				c.ob("change", name)
				if len(s.locks) > 0 {
					bad("unlock", "a lock stays held")
				}
				if e.Kind == EvPanicExit {
					bad("panics", "it panics")
					return
				}
				on := f.isOn(s, m.t["v"])
				newOn := -1
				var ch *V
				if v := m.t["new"]; v != nil {
					x := v
					if x.k == KIface {
						x = x.args[0]
					}
					if o := s.fieldVal(x, f.on); o != nil {
						newOn = s.facts.eval(o)
					}
					ch = s.fieldVal(x, f.ch)
				}
				if m.n["stores"] > 1 || m.n["closes"] > 1 {
					bad("twice", "the state is replaced %d times and %d channels are closed", m.n["stores"], m.n["closes"])
				}
				if m.n["closes"] > 0 && m.n["stores"] == 0 {
					bad("closed stays", "the channel closed stays the one of the throttle: it will be closed again")
				}
				if name == fnSetT {
					switch {
					case m.n["closes"] > 0:
						bad("releases", "setting the throttle releases waiters")
					case on == 1 && m.n["stores"] > 0:
						bad("again", "setting a throttle that is on replaces it: its waiters are never released")
					case on != 1 && m.n["stores"] == 0:
						bad("not set", "throttling is not on afterwards")
					case m.n["stores"] > 0 && on != 0:
						bad("unlooked", "the state is replaced without it being known that it is off")
					case m.n["stores"] > 0 && newOn != 1:
						bad("off", "setting the throttle leaves it off")
					case m.n["stores"] > 0 && (ch == nil || s.facts.nilEval(ch) != 0 || m.t["v"] != nil && f.chOf(s, m.t["v"]) == ch):
						bad("channel", "throttling is on with a channel (%s) that is not a new one", ch)
					}
					return
				}
				switch {
				case on != 0 && m.n["closes"] == 0:
					bad("kept", "clearing does not release the waiters")
				case on != 0 && m.n["stores"] == 0:
					bad("stays on", "throttling stays on")
				case m.n["stores"] > 0 && newOn != 0:
					bad("on", "clearing the throttle leaves it on")
				case m.n["stores"] > 0 && m.t["v"] == nil:
					bad("unlooked", "the state is replaced without being looked at")
				case m.n["closes"] > 0 && ch != nil && m.t["v"] != nil && strip(ch) == strip(f.chOf(s, m.t["v"])):
					bad("closed kept", "the closed channel stays in the state: clearing again closes it twice")
				}
			}
		}))
	}
	c.floor("wait")
	c.floor("change")
	// nobody else
	for _, g := range c.p.Funcs {
		if c.funcs[g] || !mentionsField(g, f.state) || fnName(g) == "qrpc.NewServer" {
			continue
		}
		g := g
		c.explore(Config{NoKill: true, MaxDepth: 1}, g, nil, nil, newM("else", func(m *M, s *State, e *Event) {
			if e.Kind == EvAtomic && e.Addr.k == KIdx && lastField(e.Addr.args[0]) == f.state && e.Op != "load" {
				c.bad("change", fnName(g)+" elsewhere", e.In, s, "the throttle is changed outside SetThrottle and ClearThrottle")
			}
		}))
	}
	// accepting
	if fn := c.fn(fnSrvServe); fn != nil {
		recv := vSym(fn.Params[0].Name(), fn.Params[0].Type())
		var idx *V
		for _, p := range fn.Params[1:] {
			if isBasic(p.Type(), types.IsInteger) {
				idx = vSym(p.Name(), p.Type())
			}
		}
		c.explore(Config{NoKill: true, Opaque: opaqueSet(fnThrottle, fnNewConn, fnServe)}, fn, nil, nil, newM("accept", func(m *M, s *State, e *Event) {
			switch {
			case e.Kind == EvCall && e.Name == fnThrottle:
				c.at("accept-waits", e.In)
				m.n["ok"] = 1
				if idx == nil || strip(e.Args[0]) != recv || strip(e.Args[1]) != idx {
					c.bad("accept-waits", "listener", e.In, s, "accepting waits for the throttle of another listener: %s", e.Args[1])
				}
				if d := strip(e.Args[2]); lastField(d) != fDone || !through(d, recv) {
					c.bad("accept-waits", "end", e.In, s, "accepting waits until %s: it would outlast the server", e.Args[2])
				}
			case e.Kind == EvCall && strings.HasSuffix(e.Name, ".Accept"):
				c.at("accept-waits", e.In)
				if m.n["ok"] == 0 {
					c.bad("accept-waits", "unpaused", e.In, s, "a connection is accepted without having looked, since the last one, whether accepting is paused")
				}
				m.n["ok"] = 0
			}
		}))
	}
	c.floor("accept-waits")
	// reading
	if rd := c.fn(fnReadS); rd != nil {
		recv := vSym(rd.Params[0].Name(), rd.Params[0].Type())
		c.explore(Config{NoKill: true, Opaque: opaqueSet(fnReadFr, fnCloseS, fnThrottle, "qrpc.serveconn.tryFreeStreams", "qrpc.response.SetResponse", "qrpc.response.Close", "qrpc.Reader.Finalize")}, rd, []*V{recv}, nil, newM("read", func(m *M, s *State, e *Event) {
			switch {
			case e.Kind == EvCall && e.Name == fnThrottle:
				c.at("read-waits", e.In)
				m.n["handed"] = 0
				if d := strip(e.Args[1]); lastField(d) != fIdx || !through(d, recv) {
					c.bad("read-waits", "listener", e.In, s, "reading waits for the throttle of another listener: %s", e.Args[1])
				}
				if !isDoneOf(s, e.Args[2], "ctx") || !contains(e.Args[2], recv) {
					c.bad("read-waits", "end", e.In, s, "reading waits until %s: it would outlast the connection", e.Args[2])
				}
			case e.Kind == EvSend && lastField(e.Ch) == fCh:
				m.n["handed"] = 1
			case e.Kind == EvCall && e.Name == fnReadFr:
				c.at("read-waits", e.In)
				if m.n["handed"] == 1 {
					c.bad("read-waits", "unpaused", e.In, s, "the next request is read without having looked whether reading is paused")
				}
				m.n["handed"] = 0
			}
		}))
	}
	c.floor("read-waits")
}

// lockID identifies the critical section the state is in.
func lockID(s *State) *V {
	for _, l := range s.locks {
		if !l.read {
			return l.addr
		}
	}
	return nil
}
