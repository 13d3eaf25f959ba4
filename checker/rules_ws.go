package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C29", "path typestate of the websocket connection's Read (which message or rest of a message the bytes returned come from, what is kept, what may be skipped) and Write, and of the hand-off of upgraded connections between the HTTP handler, Accept and Close (every connection is accepted or closed; set-then-check in both directions)", c29)
}

func c29(c *Check) {
	for _, fn := range c.wsMethods("Read") {
		c.c29read(fn)
	}
	c.floor("read")
	c21ws(c)
	for _, fn := range c.wsMethods("Write") {
		recv := params(fn)[0]
		c.explore(Config{NoKill: true}, fn, nil, nil, newM("to", func(m *M, s *State, e *Event) {
			if e.Kind == EvCall && strings.HasSuffix(e.Name, ".WriteMessage") && !through(e.Args[0], recv) {
				c.bad("ws-write", "other", e.In, s, "the bytes are sent on %s", showT(e.Args[0]))
			}
		}))
	}
	if fn := c.fn("server.NewConn"); fn != nil {
		wc := params(fn)[0]
		c.explore(Config{NoKill: true}, fn, nil, nil, newM("new", func(m *M, s *State, e *Event) {
			if e.Kind != EvReturn {
				return
			}
			c.ob("new", "NewConn")
			x := sym(e.Res)
			st := structOfPtr(x.typ)
			if st == nil || !isAllocRoot(x) {
				c.bad("new", "NewConn", e.In, s, "the connection made is %s", showT(e.Res))
				return
			}
			ok := false
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				v := s.load(vField(x, f), f.Type())
				if types.Identical(f.Type(), wc.typ) {
					ok = sym(v) == wc
				} else if _, isS := f.Type().Underlying().(*types.Slice); isS && !s.isEmpty(v) && !v.isZeroC() {
					c.bad("new", "NewConn buffer", e.In, s, "a new connection starts with %s to read", showT(v))
				}
			}
			if !ok {
				c.bad("new", "NewConn", e.In, s, "the connection made does not use the websocket given")
			}
		}))
	}
	c.floor("new")
	c29overlay(c)
}

// c29read: one read for an arbitrary rest of the last message.
func (c *Check) c29read(fn *ssa.Function) {
	name := fnName(fn)
	a := params(fn)
	if len(a) != 2 {
		return
	}
	recv, b := a[0], a[1]
	st := structOfPtr(recv.typ)
	var buf, wc *types.Var
	for i := 0; st != nil && i < st.NumFields(); i++ {
		switch t := st.Field(i).Type().(type) {
		case *types.Slice:
			buf = st.Field(i)
		case *types.Pointer:
			if shortType(t) == "*websocket.Conn" {
				wc = st.Field(i)
			}
		}
	}
	if buf == nil || wc == nil {
		c.report("anchor", name, "?", "the websocket connection has no buffer or no websocket", nil)
		return
	}
	bufAt := vField(recv, buf)
	old := vSym("rest", buf.Type())
	c.exploreInit(Config{NoKill: true}, fn, a, nil, func(s *State) { s.mem[bufAt] = old }, newM("read", func(m *M, s *State, e *Event) {
		bad := func(k, format string, x ...interface{}) { c.bad("read", name+" "+k, e.In, s, format, x...) }
		// the bytes that must come next
		next := func() *V {
			if !s.isEmpty(old) {
				return old
			}
			return m.t["msg"]
		}
		binary := func(t *V) int {
			if t == nil {
				return -1
			}
			if r := s.facts.eval(vEq(t, vInt(2))); r >= 0 {
				return r
			}
			all := true
			for _, k := range []int64{1, 8, 9, 10} {
				switch s.facts.eval(vEq(t, vInt(k))) {
				case 1:
					return 0
				case -1:
					all = false
				}
			}
			return b2i(all)*2 - 1
		}
		// pending: a message received which holds data nobody got yet
		pending := func() bool {
			return m.t["msg"] != nil && s.facts.nilEval(m.t["merr"]) != 0 && binary(m.t["type"]) != 0 && !s.isEmpty(m.t["msg"])
		}
		switch {
		case e.Kind == EvCall && strings.HasSuffix(e.Name, "websocket.Conn.ReadMessage"):
			c.at("read", e.In)
			if lastField(e.Args[0]) != wc || !through(e.Args[0], recv) {
				bad("other", "messages are read from %s", showT(e.Args[0]))
			}
			if !s.isEmpty(old) {
				bad("skips rest", "a message is read although there may be bytes left of the one before")
			}
			if pending() {
				bad("skips message", "another message is read although the one before may hold data")
			}
			if m.t["merr"] != nil && s.facts.nilEval(m.t["merr"]) != 1 {
				bad("after error", "reading goes on after it may have failed")
			}
			if e.Res != nil && e.Res.k == KTuple && len(e.Res.args) == 3 {
				m.t["type"], m.t["msg"], m.t["merr"] = e.Res.args[0], e.Res.args[1], e.Res.args[2]
			}
			m.n["copied"] = 0
		case e.Kind == EvCopy:
			c.at("read", e.In)
			if e.Args[0] != b {
				if rootOf(e.Args[0]) == b {
					bad("where", "the bytes are put at %s", showT(e.Args[0]))
				}
				return
			}
			n := next()
			switch {
			case n == nil || e.Args[1] != n:
				bad("what", "the bytes given are %s, next are %s", showT(e.Args[1]), showT(n))
			case n != old && (s.facts.nilEval(m.t["merr"]) != 1 || binary(m.t["type"]) != 1):
				bad("type", "bytes are given which need not be those of a binary message")
			case m.n["copied"] > 0:
				bad("again", "the bytes are copied twice")
			}
			m.n["copied"] = 1
			m.t["src"] = n
			m.t["n"] = e.Res
		case e.Kind == EvStore && e.Field == buf && e.Addr == bufAt:
			c.at("read", e.In)
		case e.Kind == EvReturn:
			c.ob("read", name+" return")
			n, err := e.Args[0], e.Args[1]
			rest := s.load(bufAt, buf.Type())
			if m.n["copied"] == 1 {
				k := m.t["n"]
				if k == nil || n != k && s.facts.eval(vEq(n, k)) != 1 {
					bad("count", "%s bytes are reported read, %s were", showT(n), showT(k))
				}
				if s.facts.nilEval(err) != 1 {
					bad("error", "bytes are read and an error may be reported (%s)", showT(err))
				}
				src := m.t["src"]
				want := vSlice(src, k, nil)
				all := s.facts.eval(vEq(k, vLen(src))) == 1 || s.facts.eval(vLt(k, vLen(src))) == 0
				if rest != want && !(s.isEmpty(rest) || rest.isZeroC()) || (s.isEmpty(rest) || rest.isZeroC()) && !all && rest != want {
					bad("rest", "what is kept for the next read is %s, left are the bytes from %s on", showT(rest), showT(k))
				}
				return
			}
			if z, ok := n.intC(); !ok || z != 0 {
				bad("nothing", "%s bytes are reported read where none were", showT(n))
			}
			if s.facts.nilEval(err) != 0 && m.t["merr"] != nil && s.facts.nilEval(m.t["merr"]) != 1 {
				bad("unreported", "a failure of reading is not reported")
			}
			switch {
			case !s.isEmpty(old) || m.t["msg"] == nil:
				if rest != old {
					bad("loses", "bytes not given yet are lost: %s becomes %s", showT(old), showT(rest))
				}
			case rest == m.t["msg"] && m.t["msg"] != nil:
				if binary(m.t["type"]) != 1 || s.facts.nilEval(m.t["merr"]) != 1 {
					bad("type", "bytes are kept which need not be those of a binary message")
				}
			case !s.isEmpty(rest) && !rest.isZeroC():
				bad("invents", "what is kept for the next read is %s", showT(rest))
			case pending():
				bad("skips message", "a message is dropped which may hold data")
			}
		}
	}))
	// nobody else
	for _, g := range c.p.Funcs {
		if !c.funcs[g] && mentionsField(g, buf) && fnName(g) != "server.NewConn" {
			c.report("read", fnName(g), c.p.pos(g.Pos()), "the bytes kept for the next read are used outside Read", nil)
		}
	}
	c.eachStoreOf(wc, func(s *State, e *Event) {
		if !isAllocRoot(e.Addr) {
			c.bad("read", "socket", e.In, s, "the websocket of a connection is replaced")
		}
	})
}

// c29overlay: connections between upgrade and accept.
func c29overlay(c *Check) {
	ov := c.p.typ("ws/server", "qrpcOverWS")
	if ov == nil {
		c.report("anchor", "overlay", "?", "the overlay listener does not exist", nil)
		return
	}
	var fCh, fCtx, fCancel, fL *types.Var
	st := ov.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch shortType(f.Type()) {
		case "chan *websocket.Conn":
			fCh = f
		case "context.Context":
			fCtx = f
		case "context.CancelFunc":
			fCancel = f
		case "net.Listener":
			fL = f
		}
	}
	if fCh == nil || fCtx == nil || fCancel == nil || fL == nil {
		c.report("anchor", "overlay fields", "?", "the overlay listener lost its queue, context or listener", nil)
		return
	}
	isEnd := func(ch *V) bool {
		ch = sym(ch)
		return ch != nil && ch.k == KPure && ch.aux == "done" && lastField(ch.args[0]) == fCtx
	}
	// over: whether the listener is known to be closed (1) or was seen open (0)
	over := func(s *State, ctx *V) int { return s.facts.eval(vPure("isdone", types.Typ[types.Bool], ctx)) }
	// drain follows taking connections out of the queue.
	drain := func(m *M, s *State, e *Event, bad func(k, format string, x ...interface{})) {
		switch {
		case e.Kind == EvSelect && !e.Blocking && len(e.Cases) == 1 && !e.Cases[0].Send && lastField(e.Cases[0].Ch) == fCh:
			m.n["empty"] = 1
		case e.Kind == EvRecv && lastField(e.Ch) == fCh:
			m.n["empty"] = 0
			if m.t["got"] != nil {
				bad("leaks", "a connection taken from the queue is dropped")
			}
			m.t["got"] = e.Res
			if e.Res.isNilC() {
				m.t["got"] = nil
			}
		case e.Kind == EvCall && strings.HasSuffix(e.Name, "websocket.Conn.Close") && m.t["got"] != nil && sym(e.Args[0]) == sym(m.t["got"]):
			m.t["got"] = nil
		}
	}
	// the HTTP handler
	n := 0
	for _, fn := range c.p.Funcs {
		if fn.Blocks == nil || !callsDirect(fn, "websocket.Upgrader.Upgrade") {
			continue
		}
		n++
		root := fn
		name := fnName(fn)
		c.explore(Config{}, root, nil, nil, newM("handler", func(m *M, s *State, e *Event) {
			bad := func(k, format string, x ...interface{}) { c.bad("handler", name+" "+k, e.In, s, format, x...) }
			drain(m, s, e, bad)
			wc := m.t["wc"]
			switch {
			case e.Kind == EvCall && strings.HasSuffix(e.Name, "websocket.Upgrader.Upgrade"):
				c.at("handler", e.In)
				m.t["wc"], m.t["err"] = e.Res.args[0], e.Res.args[1]
			case e.Kind == EvSelect && m.n["end"] == 0:
				end := false
				for _, k := range e.Cases {
					end = end || !k.Send && isEnd(k.Ch)
				}
				if !e.Blocking {
					if end && m.n["queued"] == 1 {
						m.n["looked"] = 1
					}
					return
				}
				c.at("handler", e.In)
				if !end {
					bad("hangs", "the hand-off does not end when the listener is closed")
				}
			case e.Kind == EvSend && lastField(e.Ch) == fCh:
				c.at("handler", e.In)
				if !e.Sel {
					bad("hangs", "the hand-off does not end when the listener is closed")
				}
				if wc == nil || sym(e.Val) != sym(wc) || s.facts.nilEval(m.t["err"]) != 1 || m.n["queued"]+m.n["closed"] > 0 {
					bad("what", "what is handed to Accept is %s", showT(e.Val))
				}
				m.n["queued"]++
				m.n["empty"] = 0
			case e.Kind == EvRecv && isEnd(e.Ch):
				m.n["looked"] = 0
			case e.Kind == EvCall && strings.HasSuffix(e.Name, "websocket.Conn.Close") && wc != nil && sym(e.Args[0]) == sym(wc):
				if m.n["queued"] > 0 {
					bad("closes", "a connection is closed after it was handed to Accept")
				}
				m.n["closed"]++
			case e.Kind == EvCall && e.Name == "context.Err" && lastField(e.Args[0]) == fCtx && m.n["queued"] == 1:
				m.t["seen"] = e.Res
			case e.Kind == EvReturn:
				c.ob("handler", "return")
				if m.t["got"] != nil {
					bad("leaks", "a connection taken from the queue is dropped")
				}
				if m.t["err"] == nil || s.facts.nilEval(m.t["err"]) == 0 {
					return
				}
				switch {
				case m.n["queued"]+m.n["closed"] != 1:
					bad("disposed", "an upgraded connection is neither handed to Accept nor closed")
				case m.n["queued"] == 1 && m.n["empty"] == 0 && m.n["looked"] == 0 && !(m.t["seen"] != nil && s.facts.nilEval(m.t["seen"]) == 1):
					bad("late", "a connection handed over after the listener was closed stays in the queue")
				}
			}
			_ = over
		}))
	}
	c.ob("handler", "upgrade")
	if n == 0 {
		c.report("handler", "upgrade", "?", "no HTTP handler upgrades connections", nil)
	}
	if fn := c.fn("server.qrpcOverWS.Accept"); fn != nil {
		recv := params(fn)[0]
		c.explore(Config{Opaque: opaqueSet("server.NewConn")}, fn, nil, nil, newM("accept", func(m *M, s *State, e *Event) {
			bad := func(k, format string, x ...interface{}) { c.bad("accept", k, e.In, s, format, x...) }
			switch {
			case e.Kind == EvCall && e.Name == "context.Err" && lastField(e.Args[0]) == fCtx && through(e.Args[0], recv) && m.n["took"] == 0:
				m.t["seen"] = e.Res
			case e.Kind == EvSelect && e.Blocking:
				c.at("accept", e.In)
				end := false
				for _, k := range e.Cases {
					end = end || !k.Send && isEnd(k.Ch)
				}
				if !end {
					bad("hangs", "accepting does not end when the listener is closed")
				}
			case e.Kind == EvSelect:
				open := false
				for _, k := range e.Cases {
					open = open || !k.Send && isEnd(k.Ch)
				}
				if open {
					m.n["polled"] = 1
				}
			case e.Kind == EvRecv && isEnd(e.Ch):
				m.n["ended"] = 1
			case e.Kind == EvRecv && lastField(e.Ch) == fCh:
				c.at("accept", e.In)
				if !e.Sel {
					bad("hangs", "accepting does not end when the listener is closed")
				}
				if !(m.t["seen"] != nil && s.facts.nilEval(m.t["seen"]) == 1) && !(m.n["polled"] == 1 && m.n["ended"] == 0) {
					bad("closed", "a connection may be accepted although the listener was closed before")
				}
				m.n["took"]++
				m.t["c"] = e.Res
			case e.Kind == EvCall && e.Name == "server.NewConn":
				if m.t["c"] == nil || sym(e.Args[0]) != sym(m.t["c"]) {
					bad("what", "the connection accepted is made of %s", showT(e.Args[0]))
				}
				m.t["conn"] = e.Res
			case e.Kind == EvReturn:
				c.ob("accept", "return")
				switch {
				case m.n["took"] == 0:
					if !s.refuses(e) {
						bad("nothing", "nothing is accepted and no error is known to be reported (%s)", showT(e.Args[1]))
					}
				case m.n["took"] > 1 || m.t["conn"] == nil || sym(e.Args[0]) != sym(m.t["conn"]) || s.facts.nilEval(e.Args[1]) != 1:
					bad("leaks", "a connection taken from the queue is not given to the caller")
				}
			}
		}))
	}
	if fn := c.fn("server.qrpcOverWS.Close"); fn != nil {
		recv := params(fn)[0]
		c.explore(Config{}, fn, nil, nil, newM("close", func(m *M, s *State, e *Event) {
			bad := func(k, format string, x ...interface{}) { c.bad("close", k, e.In, s, format, x...) }
			drain(m, s, e, bad)
			switch {
			case (e.Kind == EvUser || e.Kind == EvCall && e.Name == "cancel") && (lastField(e.Val) == fCancel || e.Val != nil && lastField(sym(e.Val)) == fCancel):
				c.at("close", e.In)
				m.n["ended"], m.n["empty"] = 1, 0
			case e.Kind == EvSelect && m.n["ended"] == 0:
				m.n["empty"] = 0
			case e.Kind == EvCall && strings.HasSuffix(e.Name, "Listener.Close") && lastField(e.Args[0]) == fL && through(e.Args[0], recv):
				c.at("close", e.In)
				m.n["closed"] = 1
			case e.Kind == EvSelect && e.Blocking, e.Kind == EvRecv && !e.Sel:
				bad("hangs", "closing waits")
			case e.Kind == EvReturn:
				c.ob("close", "return")
				if m.t["got"] != nil {
					bad("leaks", "a connection taken from the queue is dropped")
				}
				if m.n["ended"] == 0 {
					bad("open", "the listener is closed and accepting goes on")
				}
				if m.n["empty"] == 0 {
					bad("queued", "connections nobody will accept stay open")
				}
				if m.n["closed"] == 0 {
					bad("listens", "new connections are still taken")
				}
			}
		}))
	}
	// how it is made
	if fn := c.fn("server.newOverlay"); fn != nil {
		l := params(fn)[0]
		c.explore(Config{NoKill: true, FollowGo: func(*Event) bool { return true }}, fn, nil, nil, newM("make", func(m *M, s *State, e *Event) {
			bad := func(k, format string, x ...interface{}) { c.bad("make", k, e.In, s, format, x...) }
			switch {
			case e.Kind == EvGo:
				m.n["go"]++
			case e.Kind == EvCall && e.Name == "tls.NewListener" && sym(e.Args[0]) == l:
				m.t["tls"] = sym(e.Res)
			case e.Kind == EvThreadEnd:
				if m.n["served"] == 0 {
					bad("serves", "the listener is not served")
				}
				m.n["served"] = 0
			case e.Kind == EvCall && e.Name == "http.Server.Serve":
				c.at("make", e.In)
				m.n["served"] = 1
				if x := sym(e.Args[1]); x != l && (m.t["tls"] == nil || x != m.t["tls"]) {
					bad("serves", "connections are taken from %s", showT(x))
				}
			case e.Kind == EvReturn:
				c.ob("make", "newOverlay")
				o := sym(e.Res)
				ctx, cancel := s.load(vField(o, fCtx), fCtx.Type()), s.load(vField(o, fCancel), fCancel.Type())
				if cancel == nil || !isPure(sym(cancel), "cancel") || sym(sym(cancel).args[0]) != sym(ctx) {
					bad("context", "closing does not end what accepting waits for: %s ends %s", showT(cancel), showT(ctx))
				}
				if ch := s.load(vField(o, fCh), fCh.Type()); s.facts.nilEval(ch) != 0 {
					bad("queue", "the queue is %s", showT(ch))
				}
				if ln := sym(s.load(vField(o, fL), fL.Type())); ln != l && (m.t["tls"] == nil || ln != m.t["tls"]) {
					bad("listener", "the listener closed is %s", showT(ln))
				}
				if m.n["go"] != 1 {
					bad("serves", "connections are served %d times", m.n["go"])
				}
			}
		}))
	}
	// who else
	for _, g := range c.p.Funcs {
		if !c.funcs[g] && (mentionsField(g, fCh) || mentionsField(g, fCancel)) {
			c.report("handler", fnName(g)+" elsewhere", c.p.pos(g.Pos()), "the queue or the end of the overlay is used outside the operations analysed", nil)
		}
	}
	c.floor("handler")
	c.floor("accept")
	c.floor("close")
	c.floor("make")
}

// shortType: the type with package names for paths.
func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// callsDirect: the function itself contains a call of that name.
func callsDirect(fn *ssa.Function, name string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if cc, ok := in.(ssa.CallInstruction); ok {
				if g := cc.Common().StaticCallee(); g != nil && fnName(g) == name {
					return true
				}
			}
		}
	}
	return false
}
