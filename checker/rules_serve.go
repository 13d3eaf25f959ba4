package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C14", "path typestate of one handler invocation, on the serving goroutine and in goroutines of its own, with the handler returning or panicking: the panic is recovered, the stream's own side is examined afterwards, and exactly then when it is open one reset with the id of the request is sent", c14)
	reg("C15", "path analysis of the reading and the serving loop: who may run at a time is decided by where the handler is called (serving goroutine or its own), when the next frame is read (gate), and which writer it is given", c15)
	reg("C17", "path analysis of the slot counter (one atomic increment before a start, one decrement after its end, the limit implied on every start) and constant propagation through the per second count for all short arrival patterns", c17)
}

const (
	fnServe    = "qrpc.serveconn.serve"
	fnReadS    = "qrpc.serveconn.readFrames"
	fnReadC    = "qrpc.Connection.readFrames"
	fnSelf     = "qrpc.Stream.IsSelfClosed"
	fnReadFr   = "qrpc.defaultFrameReader.ReadFrame"
	evServe    = "qrpc.Handler.ServeQRPC"
	fnCloseS   = "qrpc.serveconn.Close"
	fnThrottle = "qrpc.Server.waitThrottle"
)

// invocation is what a rule sees of one handler call.
type invocation struct {
	side  string
	m     *M
	s     *State
	e     *Event
	own   bool // in a goroutine of its own
	frame *V
	w     *V
}

type serveHooks struct {
	serve func(x invocation)          // the handler is called (both outcomes)
	end   func(x invocation)          // the invocation and its clean-up are over
	any   func(x invocation)          // every event
	step  func(x invocation)          // the serving loop turns to the next request or ends
	init  func(side string, s *State) // initial facts
}

// mainSelect: the serving loop waits for the next request.
func mainSelect(e *Event, f *types.Var) bool {
	if e.Kind != EvSelect || !e.Blocking {
		return false
	}
	for _, k := range e.Cases {
		if !k.Send && lastField(k.Ch) == f {
			return true
		}
	}
	return false
}

// handlers follows every handler invocation of both sides.
func (c *Check) handlers(rule string, h serveHooks) {
	fCh := c.field("", "serveconn", "readFrameCh")
	fF := c.field("", "readFrameResult", "f")
	if fCh == nil || fF == nil {
		return
	}
	for _, side := range []string{"serveconn", "Connection"} {
		side := side
		fn := c.fn(map[string]string{"serveconn": fnServe, "Connection": fnReadC}[side])
		if fn == nil {
			continue
		}
		cfg := Config{NoKill: true,
			Opaque: func(f *ssa.Function) bool {
				switch fnName(f) {
				case fnSelf, fnReadFr, fnCloseS, fnReadS, "qrpc.serveconn.instrument", "qrpc.response.SetResponse", "qrpc.response.Close", "qrpc.newFrameReaderWithMFS", "qrpc.newFrameReader", "qrpc.Reader.Finalize", "qrpc.serveconn.closeUntracked":
					return true
				}
				return f.Name() == "writeFrameBytes"
			},
			UserPanics: func(e *Event) bool { return e.Name == evServe },
			FollowGo: func(e *Event) bool {
				return e.Fn == nil || fnName(e.Fn) != fnReadS && !(reaches(c.p, e.Fn, fnReadS))
			},
		}
		end := func(m *M, s *State, e *Event) {
			if m.n["serving"] == 1 && h.end != nil {
				h.end(invocation{side, m, s, e, m.n["own"] == 1, m.t["frame"], m.t["w"]})
			}
			m.n["serving"] = 0
		}
		c.exploreInit(cfg, fn, nil, nil, func(s *State) {
			if h.init != nil {
				h.init(side, s)
			}
		}, newM("serve", func(m *M, s *State, e *Event) {
			if e.Kind == EvSpawned {
				m.n["own"] = 1
			}
			if h.step != nil && (mainSelect(e, fCh) || (e.Kind == EvReturn || e.Kind == EvPanicExit) && m.n["own"] == 0 || e.Kind == EvThreadEnd) && side == "serveconn" {
				h.step(invocation{side, m, s, e, m.n["own"] == 1, m.t["frame"], m.t["w"]})
			}
			if mainSelect(e, fCh) || e.Kind == EvCall && e.Name == fnReadFr {
				end(m, s, e)
				keep := m.n["own"]
				for k := range m.n {
					if k[0] != '_' {
						m.n[k] = 0
					}
				}
				for k := range m.t {
					if k[0] != '_' {
						m.t[k] = nil
					}
				}
				m.n["own"] = keep
			}
			if e.Kind == EvRecv && lastField(e.Ch) == fCh {
				m.t["res"] = e.Res
			}
			if e.Kind == EvCall && e.Name == evServe {
				c.at(rule, e.In)
				m.n["serving"] = 1
				m.n["served"]++
				a := e.Args
				m.t["frame"], m.t["w"] = stripConv(a[len(a)-1]), strip(a[len(a)-2])
				if h.serve != nil {
					h.serve(invocation{side, m, s, e, m.n["own"] == 1, m.t["frame"], m.t["w"]})
				}
			}
			if h.any != nil {
				h.any(invocation{side, m, s, e, m.n["own"] == 1, m.t["frame"], m.t["w"]})
			}
			if e.Kind == EvReturn || e.Kind == EvThreadEnd || e.Kind == EvPanicExit {
				end(m, s, e)
			}
		}))
	}
	c.floor(rule)
}

func c14(c *Check) {
	fStream, fID := c.field("", "Frame", "Stream"), c.field("", "Frame", "RequestID")
	wbuf := c.field("", "defaultFrameWriter", "wbuf")
	if fStream == nil || fID == nil || wbuf == nil {
		return
	}
	fb := c.flagBits()
	c.handlers("handler-call", serveHooks{
		serve: func(x invocation) {
			x.m.t["closed"] = nil
			x.m.n["sent"] = 0
			x.m.n["panicked"] = b2i(x.e.Op == "panic")
		},
		any: func(x invocation) {
			m, s, e := x.m, x.s, x.e
			if e.Kind == EvPanicExit {
				c.bad("panic-contained", x.side+" escapes", e.In, s, "a panic in a handler ends the goroutine and with it the process")
				return
			}
			if m.n["serving"] == 0 {
				return
			}
			where := x.side + " " + map[bool]string{true: "own goroutine", false: "serving goroutine"}[x.own]
			switch {
			case e.Kind == EvCall && e.Name == fnSelf:
				if e.Args[0] == s.load(vField(x.frame, fStream), fStream.Type()) || through(e.Args[0], x.frame) && lastField(e.Args[0]) == fStream {
					m.t["closed"] = e.Res
				} else {
					c.bad("answered-or-reset", where+" stream", e.In, s, "the stream examined after the handler (%s) is not the one of its request", e.Args[0])
				}
			case e.Kind == EvCall && strings.HasSuffix(e.Name, ".writeFrameBytes"):
				m.n["sent"]++
				c.ob("reset-frame", where)
				w := strip(e.Args[1])
				buf := s.load(vField(w, wbuf), wbuf.Type())
				fl := bitsWidth(wireByte(s, buf, 12), 8)
				if s.resolve(fl[fb.rst]).kind != 1 || s.resolve(fl[fb.push]).kind != 0 {
					c.bad("reset-frame", where+" flags", e.In, s, "the frame sent for an unanswered request has flags %s, not a plain reset", showBits(fl))
				}
				var bs []*V
				for i := int64(4); i < 12; i++ {
					bs = append(bs, wireByte(s, buf, i))
				}
				id := simplifyBits(vPure("be", types.Typ[types.Uint64], bs...))
				want := s.load(vField(x.frame, fID), fID.Type())
				if id != want && !s.sameBits(bitsWidth(id, 64), bitsWidth(want, 64)) {
					c.bad("reset-frame", where+" id", e.In, s, "the reset carries id %s, not the request's", id)
				}
			case m.n["panicked"] == 1 && (e.Kind == EvCall && (e.Name == fnCloseS || e.Name == "cancel" || e.Name == "net.Conn.Close") || e.Kind == EvEnter && e.Name == "qrpc.Connection.Close"):
				c.bad("panic-contained", where+" connection", e.In, s, "a panic in a handler ends the connection")
			case m.n["panicked"] == 1 && !x.own && e.Kind == EvReturn:
				c.bad("panic-contained", where+" serving", e.In, s, "after a panic in a handler the connection is not served any more")
			}
		},
		end: func(x invocation) {
			m, s, e := x.m, x.s, x.e
			where := x.side + " " + map[bool]string{true: "own goroutine", false: "serving goroutine"}[x.own]
			k := ""
			if m.n["panicked"] == 1 {
				k = " after a panic"
			}
			c.ob("answered-or-reset", where+k)
			cl := m.t["closed"]
			v := -1
			if cl != nil {
				v = s.facts.eval(cl)
			}
			switch {
			case cl == nil && m.n["sent"] == 0:
				c.bad("answered-or-reset", where+k, e.In, s, "a handler ends%s and whether its request was answered is not examined: an unanswered caller waits for ever", k)
			case v != 0 && m.n["sent"] > 0:
				c.bad("answered-or-reset", where+k+" extra", e.In, s, "a request that may be answered already gets an extra frame when its handler ends%s", k)
			case v == 0 && m.n["sent"] != 1, v < 0 && m.n["sent"] == 0:
				c.bad("answered-or-reset", where+k+" lost", e.In, s, "a handler ends%s without answering and %d resets are sent: its caller waits for ever", k, m.n["sent"])
			}
			if m.n["served"] > 1 {
				c.bad("answered-or-reset", where+" twice", e.In, s, "one request is handled %d times", m.n["served"])
			}
		},
	})
	c.floor("answered-or-reset")
	c.floor("reset-frame")
	c.selfClosed()
}

// selfClosed: the own side of a stream counts as finished exactly when the mark set by its final frame is set.
func (c *Check) selfClosed() {
	fn := c.fn(fnSelf)
	f := c.field("", "Stream", "closedSelf")
	if fn == nil || f == nil {
		return
	}
	c.explore(Config{NoKill: true}, fn, nil, nil, newM("self", func(m *M, s *State, e *Event) {
		switch {
		case e.Kind == EvAtomic && e.Op == "load" && lastField(e.Addr) == f:
			m.t["v"] = e.Res
		case e.Kind == EvReturn:
			c.ob("own-side", fnSelf)
			v := m.t["v"]
			if v == nil {
				c.bad("own-side", fnSelf, e.In, s, "whether the own side is finished does not depend on its mark")
				return
			}
			for i, want := range []int{0, 1} {
				f2 := s.facts.clone()
				if !f2.assume(vEq(v, vInt(int64(i))), true) {
					continue
				}
				if got := f2.eval(e.Args[0]); got != want {
					c.bad("own-side", fnSelf, e.In, s, "with the mark %d the own side is reported as %s", i, e.Args[0])
				}
			}
		}
	}))
	c.floor("own-side")
}

// fieldVal is the field of a struct value.
func (s *State) fieldVal(v *V, f *types.Var) *V {
	st := fieldOwner[f]
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i) == f {
			return s.fieldOf(v, st, i)
		}
	}
	return nil
}

func c15(c *Check) {
	fCh, fMore, fF := c.field("", "serveconn", "readFrameCh"), c.field("", "readFrameResult", "readMore"), c.field("", "readFrameResult", "f")
	fW := c.field("", "serveconn", "writer")
	fFlags := c.field("", "Frame", "Flags")
	if fCh == nil || fMore == nil || fF == nil || fW == nil || fFlags == nil {
		return
	}
	fb := c.flagBits()
	// reading: what is handed over and when the next frame is read
	rd := c.fn(fnReadS)
	c.explore(Config{NoKill: true, Opaque: opaqueSet(fnReadFr, fnCloseS, fnThrottle, "qrpc.serveconn.tryFreeStreams", "qrpc.response.SetResponse", "qrpc.response.Close", "qrpc.Reader.Finalize")}, rd, nil, nil, newM("order", func(m *M, s *State, e *Event) {
		switch {
		case e.Kind == EvCall && e.Name == fnReadFr:
			if m.n["blocking"] == 1 && m.n["gate"] == 0 {
				c.bad("read-order", "gate", e.In, s, "the next frame is read before the blocking request in hand is finished")
			}
			m.n["blocking"], m.n["gate"], m.n["handed"] = 0, 0, 0
			m.t["more"] = nil
		case e.Kind == EvSend && lastField(e.Ch) == fCh:
			c.at("read-order", e.In)
			m.n["handed"]++
			fr, more := s.fieldVal(e.Val, fF), s.fieldVal(e.Val, fMore)
			if fr == nil || more == nil {
				c.bad("read-order", "value", e.In, s, "what is handed to the serving loop is not recognised: %s", e.Val)
				return
			}
			nilMore := s.facts.nilEval(more)
			m.t["more"] = more
			m.n["blocking"] = b2i(nilMore != 1)
			fl := s.load(vField(stripConv(fr), fFlags), fFlags.Type())
			s.cases(fl, []int{fb.nb, fb.st, fb.end}, func(f *Facts, bit func(int) int) {
				if bit(fb.nb) == 1 || bit(fb.st) == 1 || bit(fb.end) == 1 {
					if nilMore != 1 {
						c.bad("read-order", "non-blocking", e.In, s, "a non-blocking or streamed request is handed over as a blocking one: reading waits for its handler")
					}
				} else if nilMore != 0 {
					c.bad("read-order", "blocking", e.In, s, "a blocking request is handed over as a non-blocking one: it would run concurrently with later ones")
				}
			})
		case e.Kind == EvRecv && m.n["handed"] == 1 && m.t["more"] != nil && gateOf(s, m.t["more"], e.Ch):
			if m.n["blocking"] == 0 {
				c.bad("read-order", "waits", e.In, s, "reading waits for the end of a non-blocking request")
			}
			m.n["gate"] = 1
		case e.Kind == EvSelect && e.Blocking && m.n["handed"] == 1 && m.n["blocking"] == 0:
			c.bad("read-order", "wait", e.In, s, "after a non-blocking request was handed over reading waits for something")
		}
	}))
	c.floor("read-order")
	// serving
	c.handlers("handler-call", serveHooks{
		serve: func(x invocation) {
			m, s, e := x.m, x.s, x.e
			if x.e.Op == "panic" {
				return
			}
			where := x.side + " " + map[bool]string{true: "own goroutine", false: "serving goroutine"}[x.own]
			c.ob("who-runs", where)
			if x.side == "serveconn" {
				if m.t["res"] == nil {
					c.bad("who-runs", where+" source", e.In, s, "the handler is called for something that was not received from the reading loop")
					return
				}
				more := s.facts.nilEval(s.fieldVal(m.t["res"], fMore))
				if x.own && more != 1 {
					c.bad("who-runs", where, e.In, s, "a blocking request runs in a goroutine of its own, concurrently with others of its connection")
				}
				if !x.own && more != 0 {
					c.bad("who-runs", where, e.In, s, "a non-blocking request runs on the serving goroutine and delays the others")
				}
				if x.frame != stripConv(s.fieldVal(m.t["res"], fF)) {
					c.bad("who-runs", where+" frame", e.In, s, "the handler gets %s, not the request received", x.frame)
				}
			} else if !x.own {
				c.bad("who-runs", where, e.In, s, "a handler runs on the client's reading goroutine and delays all later frames")
			}
			c.ob("own-writer", where)
			if x.own {
				ok := false
				for i := 0; i < 3; i++ {
					if g := m.t["got"+itoa(i)]; g != nil && strip(g) == strip(stripConv(x.w)) || g != nil && contains(x.w, strip(g)) && !rootIsField(stripConv(x.w)) {
						ok = true
					}
				}
				if !ok {
					c.bad("own-writer", where, e.In, s, "a handler running concurrently gets writer %s, which is not its own", x.w)
				}
			}
		},
		any: func(x invocation) {
			m, s, e := x.m, x.s, x.e
			if e.Kind == EvCall && e.Name == "sync.Pool.Get" && m.n["gets"] < 3 {
				m.t["got"+itoa(m.n["gets"])] = e.Res
				m.n["gets"]++
			}
			if e.Kind == EvGo && e.Fn != nil && e.Val != nil {
				m.n["gone"]++
			}
			if x.side != "serveconn" {
				return
			}
			res := m.t["res"]
			if e.Kind == EvUser && res != nil && e.Val == s.fieldVal(res, fMore) {
				m.n["more"]++
				c.at("read-more", e.In)
				if x.own || m.n["served"] == 0 {
					c.bad("read-more", "early", e.In, s, "reading is allowed to go on before the blocking request ran")
				}
			}
			if m.n["gone"] > 0 && !x.own && (e.Kind == EvCall && e.Name == "sync.WaitGroup.Wait" || e.Kind == EvRecv || e.Kind == EvSelect && e.Blocking && !mainSelect(e, fCh)) && res != nil && !inDefer(s) {
				c.bad("who-runs", "waits", e.In, s, "the serving goroutine waits after starting a non-blocking request")
			}
		},
		// each request received is run once or its connection ends
		step: func(x invocation) {
			m, s, e := x.m, x.s, x.e
			if m.t["res"] == nil {
				return
			}
			c.ob("executed", map[bool]string{true: "own goroutine", false: "serving goroutine"}[x.own])
			switch {
			case x.own:
				if m.n["served"] != 1 {
					c.bad("executed", "own goroutine", e.In, s, "the goroutine of a request calls the handler %d times", m.n["served"])
				}
			case m.n["gone"]+m.n["served"] > 1:
				c.bad("executed", "twice", e.In, s, "one request is run twice")
			case m.n["gone"]+m.n["served"] == 0 && mainSelect(e, fCh):
				c.bad("executed", "lost", e.In, s, "a request received is not run and its connection goes on")
			}
		},
		end: func(x invocation) {
			m, s, e := x.m, x.s, x.e
			if x.side == "serveconn" && !x.own && m.n["more"] != 1 {
				c.bad("read-more", "count", e.In, s, "after a blocking request reading is allowed to go on %d times", m.n["more"])
			}
		},
	})
	c.floor("who-runs")
	c.floor("own-writer")
	c.floor("read-more")
	c.floor("executed")
	// the shared writer and the hand-over belong to these loops
	for _, fn := range c.p.Funcs {
		if c.funcs[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st := structOfPtr(fa.X.Type())
				if st == nil {
					continue
				}
				if st.Field(fa.Field) == fW {
					c.bad("own-writer", fnName(fn), in, nil, "the writer of the blocking handlers is used elsewhere")
				}
				if st.Field(fa.Field) == fCh {
					for _, r := range *fa.Referrers() {
						if u, ok := r.(*ssa.UnOp); ok && (receivesFrom(u) || sendsTo(u)) {
							c.bad("read-order", fnName(fn), in, nil, "requests are handed over or taken outside the reading and the serving loop")
						}
					}
				}
			}
		}
	}
}

// inDefer: the state runs deferred functions of its root.
func inDefer(s *State) bool {
	for _, f := range s.fr {
		if f.kind == fkDefer {
			return true
		}
	}
	return false
}

func sendsTo(ch ssa.Value) bool {
	for _, r := range *ch.Referrers() {
		switch x := r.(type) {
		case *ssa.Send:
			return x.Chan == ch
		case *ssa.Select:
			for _, st := range x.States {
				if st.Chan == ch && st.Dir == types.SendOnly {
					return true
				}
			}
		}
	}
	return false
}

// gateOf: calling more is a signal on the channel.
func gateOf(s *State, more, ch *V) bool {
	ch = stripConv(ch)
	if contains(more, ch) {
		return true
	}
	if more.k == KClosure || more.k == KBound {
		for _, a := range more.args {
			if v := s.mem[a]; v != nil && stripConv(v) == ch {
				return true
			}
		}
	}
	return false
}

// anyDone: some context is known to be done.
func anyDone(s *State) bool {
	for t, b := range s.facts.b {
		if b && t.k == KPure && t.aux == "isdone" {
			return true
		}
	}
	return false
}

func c17(c *Check) {
	c17slots(c)
	c17rate(c)
}

func c17slots(c *Check) {
	fMax, fInfl := c.field("", "ServerBinding", "MaxInboundInflightStreamPerConn"), c.field("", "serveconn", "inflight")
	fCh := c.field("", "serveconn", "readFrameCh")
	if fMax == nil || fInfl == nil || fCh == nil {
		return
	}
	// limited: the facts if there is a limit, nil if there is none
	limited := func(m *M, s *State) *Facts {
		l := m.t["_limit"]
		f := s.facts.clone()
		if l == nil || !f.assume(vLt(vInt(0), l), true) {
			return nil
		}
		return f
	}
	count := func(x invocation, k string) {
		m, s, e := x.m, x.s, x.e
		c.ob("slots", k)
		switch {
		case m.n["_known"] == 0:
			c.bad("slots", k+" limit", e.In, s, "a request is run without the limit of concurrent requests being considered")
		case !x.own:
			if m.n["inc"]+m.n["dec"] > 0 {
				c.bad("slots", k, e.In, s, "a blocking request takes %d slots and releases %d", m.n["inc"], m.n["dec"])
			}
		default:
			f := limited(m, s)
			if f == nil {
				break
			}
			over := m.t["got"]
			if m.n["inc"] != 1 || over == nil || f.eval(vLt(m.t["_limit"], over)) != 0 {
				c.bad("slots", k, e.In, s, "a non-blocking request is run after taking %d slots, and that the limit %s is kept is not ensured", m.n["inc"], m.t["_limit"])
			}
		}
	}
	c.handlers("handler-call", serveHooks{
		serve: func(x invocation) {
			if x.side != "serveconn" {
				return
			}
			where := map[bool]string{true: "non-blocking", false: "blocking"}[x.own]
			count(x, where+" start")
			if x.own && x.m.n["dec"] > 0 {
				c.bad("slots", where+" early", x.e.In, x.s, "the slot of a request is released before it ran")
			}
		},
		end: func(x invocation) {
			m, s, e := x.m, x.s, x.e
			if x.side != "serveconn" {
				return
			}
			k := map[bool]string{true: "non-blocking end", false: "blocking end"}[x.own]
			count(x, k)
			if x.own && (limited(m, s) != nil || m.n["inc"] != 0) && m.n["dec"] != m.n["inc"] {
				c.bad("slots", k+" release", e.In, s, "a request that took %d slots releases %d when it ends", m.n["inc"], m.n["dec"])
			}
		},
		any: func(x invocation) {
			m, s, e := x.m, x.s, x.e
			if x.side != "serveconn" {
				return
			}
			if e.Kind == EvLoad && e.Field == fMax {
				m.t["_limit"] = e.Val
				m.n["_known"] = 1
			}
			if e.Kind == EvAtomic && lastField(e.Addr) != fInfl && (e.Op == "add" || e.Op == "store" || e.Op == "cas" || e.Op == "swap") {
				if !slotAddr(c.p, e.Addr) {
					return
				}
				c.at("slot-counter", e.In)
				d, ok := int64(0), false
				if e.Op == "add" {
					d, ok = e.Args[0].intC()
				}
				switch {
				case ok && d == 1:
					m.n["inc"]++
					m.t["got"], m.t["_slot"] = e.Res, e.Addr
				case ok && d == -1:
					m.n["dec"]++
					if m.t["_slot"] != nil && m.t["_slot"] != e.Addr {
						c.bad("slot-counter", "other", e.In, s, "a slot is released at %s, taken at %s", e.Addr, m.t["_slot"])
					}
				default:
					c.bad("slot-counter", "step", e.In, s, "the count of running requests changes by something else than one (%s)", e.Op)
				}
			}
			if e.Kind == EvGo && e.Fn != nil && e.Val != nil {
				m.n["gone"]++
			}
			if e.Kind == EvCall && (e.Name == fnCloseS || e.Name == "qrpc.serveconn.closeUntracked") {
				m.n["closed"] = 1
			}
		},
		step: func(x invocation) {
			m, s, e := x.m, x.s, x.e
			if x.own || m.t["res"] == nil || m.n["gone"]+m.n["served"] > 0 {
				if !x.own && m.n["gone"] > 0 && m.n["dec"] > 0 {
					c.bad("slots", "released by the starter", e.In, s, "the slot of a running request is released when it was started")
				}
				return
			}
			// refused
			c.at("refused", e.In)
			f := limited(m, s)
			over := m.t["got"]
			switch {
			case mainSelect(e, fCh):
				c.bad("refused", "goes on", e.In, s, "a request is refused and its connection goes on")
			case f == nil || over == nil || s.facts.eval(vLt(vInt(0), m.t["_limit"])) != 1 || f.eval(vLt(m.t["_limit"], over)) != 1:
				c.bad("refused", "too early", e.In, s, "a request is refused although the limit %s is not known to be exceeded", m.t["_limit"])
			case m.n["closed"] == 0:
				c.bad("refused", "not closed", e.In, s, "the limit is exceeded and the connection is not closed")
			}
		},
	})
	c.floor("slots")
	c.floor("refused")
	c.floor("slot-counter")
}

// slotAddr: a counter of the serving loop or of the connection.
func slotAddr(p *Program, a *V) bool {
	f := lastField(a)
	if f == nil {
		return true
	}
	n := ownerName(p, f)
	return n == "" || strings.HasSuffix(n, "serveconn")
}

// c17rate follows the reading loop through all short arrival patterns with each limit.
func c17rate(c *Check) {
	fMax, fCh := c.field("", "ServerBinding", "MaxInboundFramePerSecond"), c.field("", "serveconn", "readFrameCh")
	fSub := c.field("", "ServerBinding", "SubFunc")
	serve, pf := c.serveRoot(), c.fn("qrpc.defaultFrameReader.readFrame")
	if fMax == nil || fCh == nil || fSub == nil || serve == nil || pf == nil || c.fn(fnReadS) == nil {
		return
	}
	frames, top := 4, int64(2)
	if c.tier == "thorough" {
		frames, top = 5, 3
	}
	op := opaqueSet("qrpc.Reader.ReadBytes", "qrpc.Reader.ReadBytesWithMaxTimeout", fnGetStream, fnCreate, fnTryBind, fnAddIn, fnResetPeer, fnCloseS, fnThrottle, "qrpc.serveconn.tryFreeStreams", "qrpc.response.SetResponse", "qrpc.response.Close", "qrpc.Reader.Finalize", "qrpc.serveconn.instrument", "qrpc.NewReaderWithTimeout", "qrpc.newFrameWriter")
	for limit := int64(-1); limit <= top; limit++ {
		for script := 0; script < 1<<(frames-1); script++ {
			if limit <= 0 && script > 1 {
				break
			}
			limit, script := limit, script
			// sec and nth of the k-th frame (from 1)
			sec, nth := make([]int64, frames+1), make([]int64, frames+1)
			over := 0
			for k := 1; k <= frames; k++ {
				if k > 1 && script>>(k-2)&1 == 1 {
					sec[k] = sec[k-1] + 1
				} else {
					sec[k] = sec[k-1]
					nth[k] = nth[k-1]
				}
				nth[k]++
				if over == 0 && limit > 0 && nth[k] > limit {
					over = k
				}
			}
			at := func(s *State) int {
				for _, m := range s.mons {
					if x, ok := m.(*M); ok && x.name == "rate" {
						return x.n["k"]
					}
				}
				return 0
			}
			cfg := Config{NoKill: true, Concrete: true, Opaque: op, PureCall: func(n string) bool { return n == "qrpc.newFrameWriter" },
				FollowGo: func(e *Event) bool { return e.Fn != nil && (fnName(e.Fn) == fnReadS || reaches(c.p, e.Fn, fnReadS)) },
				FirstLoad: func(s *State, addr, val *V) {
					if lastField(addr) == fMax {
						s.facts.assume(vEq(val, vInt(limit)), true)
					}
				},
				Result: func(s *State, name string, args []*V) *V {
					k := at(s)
					if k > frames || !strings.HasPrefix(name, "time.Time.Unix") {
						return nil
					}
					t := int64(1000) + sec[k]
					switch name {
					case "time.Time.Unix":
						return vInt(t)
					case "time.Time.UnixMilli":
						return vInt(t * 1000)
					case "time.Time.UnixMicro":
						return vInt(t * 1000000)
					case "time.Time.UnixNano":
						return vInt(t * 1000000000)
					}
					return nil
				},
			}
			pattern := "limit " + itoa(int(limit)) + " seconds"
			for k := 1; k <= frames; k++ {
				pattern += " " + itoa(int(sec[k]))
			}
			c.exploreInit(cfg, serve, nil, nil, nil, newM("rate", func(m *M, s *State, e *Event) {
				if s.thread == 0 {
					if mainSelect(e, fCh) {
						s.dead = true
					}
					return
				}
				k := m.n["k"]
				if e.Kind == EvRecv && sym(e.Ch) != nil && isPure(sym(e.Ch), "done") {
					m.n["over"] = 1
				}
				switch {
				case e.Kind == EvEnter && e.Fn == pf:
					if k > 0 && k == over {
						c.bad("rate", "exceeded", e.In, s, "%s: frame %d exceeds the limit and reading goes on", pattern, k)
						s.dead = true
						return
					}
					if k == frames {
						s.dead = true
						return
					}
					m.n["k"]++
					m.n["closed"] = 0
					c.at("rate", e.In)
					c.ob("arrival-pattern", pattern)
				case e.Kind == EvExit && e.Fn == pf:
					// only frames read without an error matter
					if len(e.Args) != 2 || s.facts.nilEval(e.Args[1]) != 1 {
						s.dead = true
					}
				case k == 0:
				case e.Kind == EvSend && lastField(e.Ch) == fCh, e.Kind == EvUser && lastField(stripConv(e.Val)) == fSub,
					e.Kind == EvCall && (e.Name == "qrpc.response.SetResponse" || e.Name == fnAddIn || e.Name == fnResetPeer):
					if k == over {
						c.bad("rate", "delivered", e.In, s, "%s: frame %d exceeds the limit and is delivered", pattern, k)
					}
				case e.Kind == EvCall && e.Name == fnCloseS:
					m.n["closed"] = 1
					if k != over && !anyDone(s) && m.n["over"] == 0 {
						c.bad("rate", "too early", e.In, s, "%s: frame %d is within the limit and ends the connection", pattern, k)
					}
				case e.Kind == EvThreadEnd, e.Kind == EvPanicExit:
					if k == over && m.n["closed"] == 0 {
						c.bad("rate", "not closed", e.In, s, "%s: frame %d exceeds the limit and the connection is not closed", pattern, k)
					}
					if k != over && !anyDone(s) && m.n["over"] == 0 && m.n["closed"] == 0 {
						c.bad("rate", "ends", e.In, s, "%s: frame %d is within the limit and ends reading", pattern, k)
					}
				}
			}))
		}
	}
	c.floor("rate")
	c.floor("arrival-pattern")
}
