package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C22", "path typestate of closing a client connection: the winner of the closed flag cancels the context every cycle's context descends from, the loop is counted in what Wait waits for, nothing is dialled without having looked for the close since the last wait, and a closed connection's requests are refused", c22)
	reg("C25", "path typestate of the connection loop over one cycle: goroutines counted in a wait group of this cycle, connect callback once, loss noticed, socket closed and forgotten, pending responses closed, disconnect callback once, everything waited for, streams released and replaced, then reconnecting or closing", c25)
}

const (
	fnLoop    = "qrpc.Connection.loop"
	fnConnect = "qrpc.Connection.connect"
	fnCloseC  = "qrpc.Connection.Close"
	fnWaitL   = "qrpc.Connection.waitLoop"
	fnWriteC  = "qrpc.Connection.writeFrames"
	fnNewC    = "qrpc.newConnection"
	fnDialTCP = "qrpc.dialTCP"
	fnRelease = "qrpc.ConnStreams.Release"
	fnFirst   = "qrpc.Connection.writeFirstFrame"
	fnCloseRW = "qrpc.Connection.closeRWC"
)

func c25(c *Check) {
	c25cycle(c)
	c25ends(c)
	c25pair(c)
	if w := c.writeFields(); w != nil {
		c.drain(w)
	}
	if f := c.field("", "response", "Frame"); f != nil {
		c.sub(func(rule, k string) bool { return strings.Contains(k, "Connection") || k == "coverage" }, func(c *Check) { c12end(c, f) })
	}
	c25handlers(c)
}

// c25cycle: one cycle of the loop.
func c25cycle(c *Check) {
	fn := c.fn(fnLoop)
	fRwc, fWG, fCS := c.field("", "Connection", "rwc"), c.field("", "Connection", "loopWG"), c.field("", "Connection", "cs")
	fOn, fOff := c.field("", "ClientLifecycleCallbacks", "OnConnect"), c.field("", "ClientLifecycleCallbacks", "OnDisconnect")
	fRec := c.field("", "Connection", "reconnect")
	if fn == nil || fRwc == nil || fWG == nil || fCS == nil || fOn == nil || fOff == nil || fRec == nil {
		return
	}
	recv := vSym(fn.Params[0].Name(), fn.Params[0].Type())
	// goroutines which only wait run in place; what they waited for counts once their signal has been received
	aside := func(e *Event) bool {
		return e.Fn != nil && !reachesOrIs(c.p, e.Fn, fnReadC) && !reachesOrIs(c.p, e.Fn, fnWriteC)
	}
	c.explore(Config{NoKill: true, InlineGo: aside, Opaque: opaqueSet(fnConnect, fnReadC, fnWriteC, fnCloseC, fnRelease)}, fn, []*V{recv}, nil, newM("cycle", func(m *M, s *State, e *Event) {
		if m.n["in"] > 0 {
			switch e.Kind {
			case EvEnter:
				m.n["in"]++
			case EvExit:
				m.n["in"]--
			case EvClose:
				m.t["sig"] = strip(e.Ch)
				m.n["sr"], m.n["sw"], m.n["sh"] = m.n["pr"], m.n["pw"], m.n["ph"]
			}
		} else if e.Kind == EvEnter && e.Op == "go" {
			m.n["in"] = 1
			m.n["pr"], m.n["pw"], m.n["ph"] = m.n["wr"], m.n["ww"], m.n["wh"]
		}
		who := "w" // what is known to have ended, to this goroutine
		if m.n["in"] > 0 {
			who = "p"
		}
		up := m.t["cerr"] != nil && s.facts.nilEval(m.t["cerr"]) == 1
		reconnect := s.facts.eval(s.load(vField(recv, fRec), fRec.Type()))
		over := func(what string) {
			if !up {
				return
			}
			c.ob("cycle", what)
			bad := func(k, format string, a ...interface{}) { c.bad("cycle", k, e.In, s, what+": "+format, a...) }
			switch {
			case m.n["reader"] != 1 || m.n["writer"] != 1:
				bad("goroutines", "the cycle ran %d reading and %d writing goroutines", m.n["reader"], m.n["writer"])
			case m.n["on"] != 1 && !c.knownNilField(s, fOn):
				bad("connect callback", "the connect callback ran %d times for the connection", m.n["on"])
			case m.n["lost"] == 0:
				bad("not lost", "the cycle ends although the connection is not known to be lost")
			case s.facts.nilEval(s.load(vField(recv, fRwc), fRwc.Type())) != 1:
				bad("socket kept", "the socket of the lost connection stays the current one")
			case m.n["off"] != 1 && !c.knownNilField(s, fOff):
				bad("disconnect callback", "the disconnect callback ran %d times for the connection", m.n["off"])
			case m.n["wr"]+m.n["ww"]+m.n["wh"] < 3:
				bad("unwaited", "the goroutines of the old connection are not waited for")
			case m.n["released"] == 0:
				bad("streams kept", "the streams of the old connection are not ended")
			case m.n["fresh"] == 0:
				bad("streams reused", "the streams of the old connection are used for the next one")
			}
		}
		if e.Kind == EvStore && c.forked[e.Field] && m.n["in"] == 0 && m.n["reader"]+m.n["writer"] > 0 && m.n["wr"]+m.n["ww"]+m.n["wh"] < 3 {
			c.bad("fork-join", ownerName(c.p, e.Field)+"."+e.Field.Name(), e.In, s, "the field is changed while goroutines of the connection that use it without synchronisation may run")
		}
		switch {
		case e.Kind == EvCall && e.Name == fnConnect:
			c.at("cycle", e.In)
			over("the next connection")
			if up && reconnect != 1 {
				c.bad("cycle", "reconnects", e.In, s, "the next connection: a connection that is not to reconnect connects again")
			}
			for k := range m.n {
				m.n[k] = 0
			}
			m.t["sock"], m.t["shut"], m.t["sig"] = nil, nil, nil
			m.t["wg"], m.t["cerr"] = nil, e.Res
			m.t["gr"], m.t["gw"], m.t["ga"] = nil, nil, nil
		case e.Kind == EvCall && e.Name == "sync.WaitGroup.Add":
			m.t["ga"] = strip(e.Args[0])
			if n, ok := e.Args[1].intC(); ok && n >= 0 && n < 8 {
				m.n["wgadd"] += int(n)
			}
		case e.Kind == EvStore && e.Field == fWG:
			m.t["wg"] = strip(e.Val)
			if m.n["reader"] > 0 {
				c.bad("cycle", "late group", e.In, s, "the wait group is replaced when goroutines were counted already")
			}
		case e.Kind == EvGo:
			c.at("cycle-goroutines", e.In)
			f := e.Fn
			r, w := f != nil && reachesOrIs(c.p, f, fnReadC), f != nil && reachesOrIs(c.p, f, fnWriteC)
			m.n["reader"] += b2i(r)
			m.n["writer"] += b2i(w)
			if !r && !w {
				return
			}
			g := (*V)(nil)
			if e.Addr != nil {
				g = strip(e.Addr)
			} else if m.n["wgadd"] > 0 && defersDone(f) {
				m.n["wgadd"]--
				g = m.t["ga"]
			}
			if g == nil {
				c.bad("cycle-goroutines", "uncounted", e.In, s, "a goroutine of the connection is not counted in a wait group of this cycle")
			}
			if r {
				m.t["gr"] = g
				if m.t["wg"] == nil {
					c.bad("cycle-goroutines", "no group", e.In, s, "the reading goroutine is started before there is a wait group for the handlers of this cycle")
				}
			}
			if w {
				m.t["gw"] = g
			}
			if !up {
				c.bad("cycle-goroutines", "early", e.In, s, "a goroutine is started before there is a connection")
			}
		case e.Kind == EvUser && lastField(e.Val) == fOn:
			c.at("callbacks", e.In)
			m.n["on"]++
			if !up || m.n["lost"] == 1 || len(e.Args) != 1 || strip(e.Args[0]) != recv {
				c.bad("callbacks", "connect", e.In, s, "the connect callback runs at the wrong time or for another connection")
			} else if m.n["reader"] == 0 || m.n["writer"] == 0 {
				c.bad("callbacks", "connect early", e.In, s, "the connect callback runs before the goroutines of the connection: a request it makes would wait for ever")
			}
		case e.Kind == EvUser && lastField(e.Val) == fOff:
			c.at("callbacks", e.In)
			m.n["off"]++
			if !up || m.n["lost"] == 0 || len(e.Args) != 1 || strip(e.Args[0]) != recv {
				c.bad("callbacks", "disconnect", e.In, s, "the disconnect callback runs before the connection is lost or for another one")
			}
			if m.n["on"] == 0 && !c.knownNilField(s, fOn) {
				c.bad("callbacks", "order", e.In, s, "the disconnect callback runs before the connect callback")
			}
		case e.Kind == EvRecv && isDoneOf(s, e.Ch, "loopCtx"):
			if m.n["lost"] == 0 {
				m.n["lost"] = 1
			}
		case e.Kind == EvCall && e.Name == "net.Conn.Close" && (lastField(e.Args[0]) == fRwc || strip(e.Args[0]) == m.t["sock"]):
			m.t["shut"] = strip(e.Args[0])
			if m.t["sock"] == strip(e.Args[0]) {
				m.t["sock"] = nil
			}
			if m.n["lost"] == 0 {
				c.bad("cycle", "cut", e.In, s, "a connection that is not lost is closed")
			}
		case e.Kind == EvStore && e.Field == fRwc:
			if s.facts.nilEval(e.Val) == 1 && !isAllocRoot(e.Addr) && (m.t["shut"] == nil || m.t["shut"] != strip(e.Args[0])) {
				if m.t["sock"] = recv; e.Args[0] != nil {
					m.t["sock"] = strip(e.Args[0])
				}
			}
		case e.Kind == EvRecv && m.n["in"] == 0 && m.t["sig"] != nil && strip(e.Ch) == m.t["sig"]:
			m.n["wr"], m.n["ww"], m.n["wh"] = m.n["sr"], m.n["sw"], m.n["sh"]
		case e.Kind == EvCall && e.Name == "sync.WaitGroup.Wait":
			g := strip(e.Args[0])
			if g == m.t["gr"] {
				m.n[who+"r"] = 1
			}
			if g == m.t["gw"] {
				m.n[who+"w"] = 1
			}
			if (g == m.t["wg"] || isWG(e, "Wait", fWG)) && m.n["released"] == 0 {
				c.bad("cycle", "handlers stuck", e.In, s, "handlers are waited for before their streams have ended: one waiting for a frame of its stream never ends")
			}
			// handlers are started by the reading goroutine
			if (g == m.t["wg"] || isWG(e, "Wait", fWG)) && (m.n[who+"r"] == 1) {
				m.n[who+"h"] = 1
			}
			if m.t["sock"] != nil {
				c.bad("cycle", "socket leak", e.In, s, "the socket is forgotten without being closed")
			}
			if m.n["lost"] == 0 {
				c.bad("cycle", "wait", e.In, s, "the goroutines are waited for before the connection is lost")
			}
			if s.facts.nilEval(s.load(vField(recv, fRwc), fRwc.Type())) != 1 {
				c.bad("cycle", "wait socket", e.In, s, "the goroutines are waited for while their socket may still be open: they may never end")
			}
		case e.Kind == EvCall && e.Name == fnRelease:
			m.n["released"] = 1
			if m.n[who+"r"]+m.n[who+"w"] < 2 {
				c.bad("cycle", "released early", e.In, s, "streams are ended while goroutines of the connection may still make new ones")
			}
			if strip(e.Args[0]) != strip(s.load(vField(recv, fCS), fCS.Type())) || m.n["fresh"] > 0 {
				c.bad("cycle", "released other", e.In, s, "other streams than the connection's are ended: %s", e.Args[0])
			}
		case e.Kind == EvStore && e.Field == fCS:
			m.n["fresh"] = 1
			if m.n["wr"]+m.n["ww"]+m.n["wh"] < 3 {
				c.bad("cycle", "replaced early", e.In, s, "the streams are replaced while goroutines of the connection may still use them")
			}
			if v := strip(e.Val); v == nil || v.k != KAlloc {
				c.bad("cycle", "streams", e.In, s, "the next connection's streams are %s", e.Val)
			}
		case e.Kind == EvCall && e.Name == fnCloseC:
			m.n["closed"] = 1
		case e.Kind == EvReturn:
			over("the end of the loop")
			if up && m.n["closed"] == 0 {
				c.bad("cycle", "end", e.In, s, "the loop ends after a connection was lost and neither reconnects nor closes")
			}
			if up && reconnect != 0 {
				c.bad("cycle", "gives up", e.In, s, "the loop ends although the connection is to reconnect")
			}
			if !up && s.facts.nilEval(m.t["cerr"]) != 0 {
				c.bad("cycle", "gives up", e.In, s, "the loop ends although connecting did not fail")
			}
		}
	}))
	c.floor("cycle")
	c.floor("cycle-goroutines")
	c.floor("callbacks")
}

func reachesOrIs(p *Program, fn *ssa.Function, name string) bool {
	return fnName(fn) == name || strings.TrimSuffix(fnName(fn), "$bound") == name || reaches(p, fn, name)
}

// c25ends: both goroutines of a connection end it when they end, and they end at the first failure.
func c25ends(c *Check) {
	fCancel := c.field("", "Connection", "loopCancelCtx")
	if fCancel == nil {
		return
	}
	for _, x := range []struct {
		name string
		opq  []string
	}{
		{fnReadC, []string{fnReadFr, "qrpc.Reader.Finalize"}},
		{fnWriteC, []string{fnCollectC, fnBatchC}},
	} {
		x := x
		fn := c.fn(x.name)
		if fn == nil {
			continue
		}
		recv := vSym(fn.Params[0].Name(), fn.Params[0].Type())
		c.explore(Config{NoKill: true, Opaque: opaqueSet(x.opq...)}, fn, []*V{recv}, nil, newM("ends", func(m *M, s *State, e *Event) {
			switch {
			case e.Kind == EvUser && lastField(e.Val) == fCancel && through(e.Val, recv), e.Kind == EvCall && e.Name == "cancel":
				m.n["cancel"] = 1
			case e.Kind == EvCall && (e.Name == fnReadFr || e.Name == fnCollectC || e.Name == fnBatchC):
				c.at("loss", e.In)
				if v := m.t["err"]; v != nil && s.facts.nilEval(v) != 1 {
					c.bad("loss", x.name+" ignored", e.In, s, "the connection is used again although %s", "using it may have failed")
				}
				if m.n["cancel"] == 1 {
					c.bad("loss", x.name+" after", e.In, s, "the connection is used after its end was announced")
				}
				r := e.Res
				if r.k == KTuple {
					r = r.args[len(r.args)-1]
				}
				m.t["err"] = r
			case e.Kind == EvReturn:
				c.ob("loss", x.name)
				if m.n["cancel"] == 0 {
					c.bad("loss", x.name, e.In, s, "the goroutine ends without ending the connection: nobody would notice")
				}
			}
		}))
	}
	c.floor("loss")
}

// c25handlers: handlers of server initiated requests belong to the cycle.
func c25handlers(c *Check) {
	fn := c.fn(fnReadC)
	fWG := c.field("", "Connection", "loopWG")
	if fn == nil || fWG == nil {
		return
	}
	c.explore(Config{NoKill: true, Opaque: opaqueSet(fnReadFr, "qrpc.Reader.Finalize")}, fn, nil, nil, newM("handlers", func(m *M, s *State, e *Event) {
		if isWG(e, "Add", fWG) {
			m.n["wgadd"] = 1
		}
		if e.Kind == EvGo {
			c.at("handler-goroutines", e.In)
			if !c.spawnCounted(m, e, fWG) {
				c.bad("handler-goroutines", fnReadC, e.In, s, "the handler of a server's request is not waited for before the next connection")
			}
		}
	}))
	c.floor("handler-goroutines")
}

// pairing of socket, context, cancel function and writer
type pairFields struct {
	rwc, ctx, lctx, lcancel, writer, wctx, wconn *types.Var
}

func (c *Check) pairs() *pairFields {
	f := &pairFields{c.field("", "Connection", "rwc"), c.field("", "Connection", "ctx"), c.field("", "Connection", "loopCtx"), c.field("", "Connection", "loopCancelCtx"), c.field("", "Connection", "loopBytesWriter"), c.field("", "Writer", "ctx"), c.field("", "Writer", "conn")}
	if f.rwc == nil || f.ctx == nil || f.lctx == nil || f.lcancel == nil || f.writer == nil || f.wctx == nil || f.wconn == nil {
		return nil
	}
	return f
}

// paired: the fields of the cycle belong together and descend from the connection's context.
func (c *Check) paired(rule, k string, s *State, e *Event, f *pairFields, conn *V) {
	ld := func(x *V, v *types.Var) *V { return strip(s.load(vField(x, v), v.Type())) }
	rwc := ld(conn, f.rwc)
	ptr := ld(conn, f.lctx)
	base := ld(conn, f.ctx)
	c.ob(rule, k)
	if ptr == nil || s.facts.nilEval(ptr) == 1 {
		c.bad(rule, k+" no context", e.In, s, "there is a connection without a context of its cycle")
		return
	}
	et := f.lctx.Type().Underlying().(*types.Pointer).Elem()
	ctx := strip(s.load(ptr, et))
	child := (*V)(nil)
	ok := false
	for x := ctx; x != nil; {
		if x == base {
			ok = true
			break
		}
		if x.k != KPure || x.aux != "ctx.child" && x.aux != "ctx.value" {
			break
		}
		if x.aux == "ctx.child" && child == nil {
			child = x
		}
		x = strip(x.args[0])
	}
	if !ok || child == nil {
		c.bad(rule, k+" context", e.In, s, "the context of the cycle (%s) does not end with the connection's", ctx)
	}
	cc := ld(conn, f.lcancel)
	if child != nil && (cc.k != KPure || cc.aux != "cancel" || cc.args[0] != child) {
		c.bad(rule, k+" cancel", e.In, s, "the cycle's cancel function cancels %s", cc)
	}
	w := ld(conn, f.writer)
	if w == nil || ld(w, f.wconn) != rwc || ld(w, f.wctx) != ctx {
		c.bad(rule, k+" writer", e.In, s, "the writer of the cycle belongs to another connection or context")
	}
}

// c25pair: what a new connection brings.
func c25pair(c *Check) {
	f := c.pairs()
	fDial := c.field("", "ConnectionConfig", "OverlayNetwork")
	if f == nil || fDial == nil {
		return
	}
	if fn := c.fn(fnNewC); fn != nil {
		rwc := vSym(fn.Params[0].Name(), fn.Params[0].Type())
		c.explore(Config{NoKill: true}, fn, nil, nil, newM("new", func(m *M, s *State, e *Event) {
			if m.t["conn"] == nil && e.Kind == EvStore && e.Field == f.rwc {
				r, _ := pathOf(e.Addr)
				m.t["conn"] = r
				if strip(e.Val) != rwc {
					c.bad("pair", "new socket", e.In, s, "a new connection uses %s as its socket", e.Val)
				}
			}
			if e.Kind == EvGo && m.t["conn"] != nil {
				m.n["go"] = 1
				if s.facts.nilEval(rwc) != 1 {
					c.paired("pair", "first", s, e, f, m.t["conn"])
				}
			}
			if e.Kind == EvReturn && m.n["go"] == 0 {
				c.bad("pair", "no loop", e.In, s, "a new connection starts nothing")
			}
		}))
	}
	if fn := c.fn(fnConnect); fn != nil {
		recv := vSym(fn.Params[0].Name(), fn.Params[0].Type())
		c.explore(Config{NoKill: true, Opaque: opaqueSet(fnDialTCP)}, fn, []*V{recv}, nil, newM("re", func(m *M, s *State, e *Event) {
			isDial := e.Kind == EvCall && e.Name == fnDialTCP || e.Kind == EvUser && lastField(e.Val) == fDial
			switch {
			case isDial:
				c.at("pair", e.In)
				m.t["new"], m.t["err"] = strip(e.Res.args[0]), e.Res.args[1]
				m.n["stored"] = 0
			case e.Kind == EvLoad && e.Field == f.rwc && m.t["new"] == nil:
				m.t["cur"] = e.Val
			case e.Kind == EvStore && e.Field == f.rwc:
				m.n["stored"]++
				if m.t["new"] == nil || strip(e.Val) != m.t["new"] || s.facts.nilEval(m.t["err"]) != 1 {
					c.bad("pair", "socket", e.In, s, "the current socket becomes %s", e.Val)
				}
			case e.Kind == EvReturn:
				if s.facts.nilEval(e.Args[0]) == 0 {
					if m.t["err"] != nil && s.facts.nilEval(m.t["err"]) == 1 && m.n["stored"] == 0 {
						// the connection made meanwhile is not used: it must not stay open
						if m.n["shut"] == 0 {
							c.bad("pair", "leak", e.In, s, "a connection made is neither used nor closed")
						}
					}
					return
				}
				if m.t["new"] == nil {
					if m.t["cur"] == nil || s.facts.nilEval(m.t["cur"]) != 0 {
						c.bad("pair", "none", e.In, s, "connecting succeeds without there being a connection")
					}
					return
				}
				if m.n["stored"] != 1 {
					c.bad("pair", "unused", e.In, s, "connecting succeeds and the new connection is stored %d times", m.n["stored"])
					return
				}
				c.paired("pair", "next", s, e, f, recv)
			case e.Kind == EvCall && e.Name == "net.Conn.Close" && m.t["new"] != nil && strip(e.Args[0]) == m.t["new"]:
				m.n["shut"] = 1
			}
			if isDial && m.t["cur"] != nil && s.facts.nilEval(m.t["cur"]) != 1 {
				c.bad("pair", "twice", e.In, s, "another connection is made while there is one")
			}
		}))
	}
	c.floor("pair")
	// nobody else changes them
	for _, v := range []*types.Var{f.rwc, f.lctx, f.lcancel, f.writer, f.ctx} {
		v := v
		c.eachStoreOf(v, func(s *State, e *Event) {
			n := fnName(e.In.Parent())
			if c.funcs[e.In.Parent()] && n != fnCloseRW || isAllocRoot(e.Addr) {
				return
			}
			if n == fnCloseRW && v == f.rwc && s.facts.nilEval(e.Val) == 1 {
				return
			}
			c.bad("pair", n+" "+v.Name(), e.In, s, "the %s of a connection is replaced", v.Name())
		})
	}
}

func c22(c *Check) {
	c22close(c)
	c22new(c)
	c22connect(c)
	c22request(c)
	c25cycle(c)
	c25ends(c)
	c.sub(func(rule, k string) bool { return rule == "pair" }, c25pair)
	if w := c.writeFields(); w != nil {
		c.drain(w)
	}
	if f := c.field("", "response", "Frame"); f != nil {
		c.sub(func(rule, k string) bool { return strings.Contains(k, "Connection") || k == "coverage" }, func(c *Check) { c12end(c, f) })
	}
}

// c22close: the first close ends, the others are told.
func c22close(c *Check) {
	fn := c.fn(fnCloseC)
	fClosed, fCancel := c.field("", "Connection", "closed"), c.field("", "Connection", "cancelCtx")
	if fn == nil || fClosed == nil || fCancel == nil {
		return
	}
	recv := vSym(fn.Params[0].Name(), fn.Params[0].Type())
	c.explore(Config{NoKill: true}, fn, []*V{recv}, nil, newM("close", func(m *M, s *State, e *Event) {
		switch {
		case e.Kind == EvAtomic && lastField(e.Addr) == fClosed:
			c.at("close", e.In)
			switch {
			case e.Op == "cas":
				if !e.Args[0].isZeroC() || e.Args[1].isZeroC() {
					c.bad("close", "flag", e.In, s, "the closed flag goes from %s to %s", e.Args[0], e.Args[1])
				}
				m.n["won"] = b2i(e.Res.isTrue())
				m.n["tried"] = 1
			case e.Op == "swap":
				m.t["old"] = e.Res
				m.n["tried"] = 1
			case e.Op == "load":
			default:
				c.bad("close", "blind", e.In, s, "the closed flag is set without looking at it")
			}
		case e.Kind == EvUser && lastField(e.Val) == fCancel, e.Kind == EvCall && e.Name == "cancel":
			m.n["cancel"]++
		case e.Kind == EvReturn:
			c.ob("close", "return")
			won := m.n["won"] == 1
			if v := m.t["old"]; v != nil {
				won = s.facts.eval(vEq(v, vInt(0))) == 1
			}
			n := s.facts.nilEval(e.Args[0])
			switch {
			case won && m.n["cancel"] == 0:
				c.bad("close", "context", e.In, s, "closing does not end the connection's context")
			case won && n != 1:
				c.bad("close", "first", e.In, s, "the first close does not succeed: %s", e.Args[0])
			case !won && n != 0:
				c.bad("close", "later", e.In, s, "a later close succeeds")
			case !won && c.errName(e.Args[0]) != "ErrConnAlreadyClosed":
				c.bad("close", "told", e.In, s, "a later close reports %s", e.Args[0])
			}
		}
	}))
	c.floor("close")
	for _, f := range c.p.Funcs {
		if c.funcs[f] || !mentionsField(f, fClosed) {
			continue
		}
		c.explore(Config{NoKill: true, MaxDepth: 1}, f, nil, nil, newM("flag", func(m *M, s *State, e *Event) {
			if e.Kind == EvAtomic && lastField(e.Addr) == fClosed && e.Op != "load" || e.Kind == EvStore && e.Field == fClosed && !isAllocRoot(e.Addr) {
				c.bad("close", fnName(f)+" elsewhere", e.In, s, "the closed flag changes outside Close")
			}
		}))
	}
}

func (v *V) isZeroC() bool { n, ok := v.intC(); return ok && n == 0 }

// c22new: closing reaches everything a new connection starts.
func c22new(c *Check) {
	fn := c.fn(fnNewC)
	fWG, fCtx, fCancel := c.field("", "Connection", "wg"), c.field("", "Connection", "ctx"), c.field("", "Connection", "cancelCtx")
	fRwc := c.field("", "Connection", "rwc")
	if fn == nil || fWG == nil || fCtx == nil || fCancel == nil || fRwc == nil {
		return
	}
	c.explore(Config{NoKill: true}, fn, nil, nil, newM("new", func(m *M, s *State, e *Event) {
		if m.t["conn"] == nil && e.Kind == EvStore && e.Field == fRwc {
			r, _ := pathOf(e.Addr)
			m.t["conn"] = r
		}
		if isWG(e, "Add", fWG) {
			m.n["wgadd"] = 1
		}
		if e.Kind != EvGo {
			return
		}
		c.at("wait", e.In)
		if !c.spawnCounted(m, e, fWG) {
			c.bad("wait", "uncounted", e.In, s, "the connection's loop is not waited for by Wait")
		}
		conn := m.t["conn"]
		if conn == nil {
			return
		}
		x := strip(s.load(vField(conn, fCtx), fCtx.Type()))
		var child *V
		for x != nil && x.k == KPure && (x.aux == "ctx.value" || x.aux == "ctx.child") {
			if x.aux == "ctx.child" {
				child = x
			}
			x = strip(x.args[0])
		}
		cc := strip(s.load(vField(conn, fCancel), fCancel.Type()))
		if child == nil || cc.k != KPure || cc.aux != "cancel" || !ancestor(s, strip(s.load(vField(conn, fCtx), fCtx.Type())), cc.args[0]) {
			c.bad("wait", "cancel", e.In, s, "closing cancels %s, which does not end the connection's context", cc)
		}
	}))
	c.floor("wait")
	if w := c.fn("qrpc.Connection.Wait"); w != nil {
		c.explore(Config{NoKill: true}, w, nil, nil, newM("wait", func(m *M, s *State, e *Event) {
			if isWG(e, "Wait", fWG) {
				m.n["w"] = 1
			}
			if e.Kind == EvReturn {
				c.ob("wait", "Wait")
				if m.n["w"] == 0 {
					c.bad("wait", "Wait", e.In, s, "Wait does not wait for the connection's goroutines")
				}
			}
		}))
	}
}

// ancestor: ctx ends when a does.
func ancestor(s *State, ctx, a *V) bool {
	for x := strip(ctx); x != nil; x = strip(x.args[0]) {
		if x == a {
			return true
		}
		if x.k != KPure || x.aux != "ctx.child" && x.aux != "ctx.value" {
			return false
		}
	}
	return false
}

// c22connect: nothing is dialled by a connection that was closed.
func c22connect(c *Check) {
	fn := c.fn(fnConnect)
	fDial, fClosed := c.field("", "ConnectionConfig", "OverlayNetwork"), c.field("", "Connection", "closed")
	if fn == nil || fDial == nil || fClosed == nil {
		return
	}
	c.explore(Config{NoKill: true, Opaque: opaqueSet(fnDialTCP)}, fn, nil, nil, newM("dial", func(m *M, s *State, e *Event) {
		closed := func() bool {
			if m.n["over"] == 1 {
				return true
			}
			if v := m.t["cerr"]; v != nil && s.facts.nilEval(v) != 1 {
				return true
			}
			if v := m.t["flag"]; v != nil && s.facts.eval(vEq(v, vInt(0))) != 1 {
				return true
			}
			return false
		}
		switch {
		case e.Kind == EvCall && e.Name == fnDialTCP, e.Kind == EvUser && lastField(e.Val) == fDial:
			c.at("no-reconnect", e.In)
			if m.n["looked"] == 0 {
				c.bad("no-reconnect", "unlooked", e.In, s, "a connection attempt is started without having looked, since the last wait, whether the connection was closed")
			} else if closed() {
				c.bad("no-reconnect", "closed", e.In, s, "a connection attempt is started although the connection was closed")
			}
			m.n["looked"] = 0
			m.t["cerr"], m.t["flag"] = nil, nil
		case e.Kind == EvCall && e.Name == "time.Sleep", e.Kind == EvSelect && e.Blocking && !selectsDone(s, e, "ctx"):
			m.n["looked"] = 0
			m.t["cerr"], m.t["flag"] = nil, nil
		case e.Kind == EvSelect && selectsDone(s, e, "ctx"):
			m.n["looked"] = 1
		case e.Kind == EvCall && e.Name == "context.Err" && ctxOfConn(s, e.Args[0], "ctx"):
			m.n["looked"] = 1
			m.t["cerr"] = e.Res
		case e.Kind == EvAtomic && e.Op == "load" && lastField(e.Addr) == fClosed:
			m.n["looked"] = 1
			m.t["flag"] = e.Res
		case e.Kind == EvRecv && isDoneOf(s, e.Ch, "ctx"):
			m.n["over"] = 1
		case e.Kind == EvReturn:
			c.ob("no-reconnect", "return")
			if closed() && s.facts.nilEval(e.Args[0]) != 0 {
				c.bad("no-reconnect", "told", e.In, s, "connecting notices the close and does not report it: the loop would go on")
			}
		}
	}))
	c.floor("no-reconnect")
	// nobody else dials for an existing connection
	for _, f := range c.p.Funcs {
		if strings.HasPrefix(fnName(f), "qrpc.Connection.") && fnName(f) != fnConnect {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(ssa.CallInstruction); ok {
						if g := call.Common().StaticCallee(); g != nil && fnName(g) == fnDialTCP && !c.calledOnlyFrom(f, fnConnect) {
							c.bad("no-reconnect", fnName(f), in, nil, "a connection is made outside connect")
						}
					}
				}
			}
		}
	}
}

func selectsDone(s *State, e *Event, field string) bool {
	for _, k := range e.Cases {
		if !k.Send && isDoneOf(s, k.Ch, field) {
			return true
		}
	}
	return false
}

// calledOnlyFrom: every caller of f is (reached from) that function.
func (c *Check) calledOnlyFrom(f *ssa.Function, name string) bool {
	callers := c.p.callersOf()[f]
	if len(callers) == 0 {
		return false
	}
	for _, g := range callers {
		if fnName(g) != name {
			return false
		}
	}
	return true
}

// c22request: requests on a closed connection are refused.
func c22request(c *Check) {
	fn := c.fn(fnFirst)
	fClosed := c.field("", "Connection", "closed")
	if fn == nil || fClosed == nil {
		return
	}
	c.explore(Config{NoKill: true, Opaque: opaqueSet("qrpc.defaultFrameWriter.EndWrite", "qrpc.defaultFrameWriter.StartWrite", "qrpc.defaultFrameWriter.WriteBytes", "qrpc.newFrameWriter")}, fn, nil, nil, newM("request", func(m *M, s *State, e *Event) {
		closed := func() int {
			if v := m.t["flag"]; v != nil {
				if r := s.facts.eval(vEq(v, vInt(0))); r >= 0 {
					return 1 - r
				}
				if r := s.facts.eval(vEq(v, vInt(1))); r >= 0 {
					return r
				}
			}
			return -1
		}
		switch {
		case e.Kind == EvAtomic && e.Op == "load" && lastField(e.Addr) == fClosed:
			c.at("refused", e.In)
			m.t["flag"] = e.Res
		case e.Kind == EvCall && e.Name == "qrpc.defaultFrameWriter.EndWrite":
			c.at("refused", e.In)
			if closed() != 0 {
				c.bad("refused", "written", e.In, s, "a request is written although the connection may have been closed")
			}
		case e.Kind == EvReturn:
			if closed() == 1 && s.facts.nilEval(e.Args[len(e.Args)-1]) != 0 {
				c.bad("refused", "success", e.In, s, "a request on a closed connection is reported successful")
			}
		}
	}))
	c.floor("refused")
}
