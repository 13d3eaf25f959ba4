package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C10", "path analysis of the frame reader and both dispatch loops: every parsed frame is followed to its single disposal; for every truth of the reset and push bits allowed by the path, a reset reaches exactly the reset operation of the stream found under its own id and class, is returned only when nothing is bound to the stream, and in the loops ends a pending response or is dropped, never handed on", c10)
	reg("C11", "path analysis of the frame reader, of the stream's incoming channel and of both dispatch loops: each frame parsed has exactly one disposal (bound and returned, added once to the stream of its id and class, or refused), sends into a stream's channel happen in one operation only and before the close, and each frame returned is handed on exactly once", c11)
	reg("C12", "typestate of pending responses: created with room for the answer before the request is sent, registered under the lock with a check of the connection's state before the bytes reach the network, looked up and removed in one critical section and settled once, and all remaining ones closed at the connection's end", c12)
	reg("C33", "path analysis of both dispatch loops: frames with the push bit go to the subscriber exactly once when there is one, with the connection they came from, and nowhere else; frames without it never go there; a pushed request expects no response", c33)
}

// readerRules analyses ReadFrame; on is called at the disposal of each parsed frame.
type frameFate struct {
	m       *M
	s       *State
	in      ssa.Instruction
	frame   *V
	flags   *V
	next    bool // another frame is parsed
	ret     *V   // frame returned
	err     *V   // error returned
	stopped bool // the connection's context is known to be done
}

func (c *Check) eachParsed(on func(x frameFate), extra func(m *M, s *State, e *Event)) {
	rf, pf := c.fn("qrpc.defaultFrameReader.ReadFrame"), c.fn("qrpc.defaultFrameReader.readFrame")
	fFlags, fCtx, fB := c.field("", "Frame", "Flags"), c.field("", "defaultFrameReader", "ctx"), c.field("", "Stream", "binded")
	fID := c.field("", "Frame", "RequestID")
	if rf == nil || pf == nil || fFlags == nil || fCtx == nil || fB == nil || fID == nil {
		return
	}
	clear := func(m *M) {
		for k := range m.t {
			m.t[k] = nil
		}
		for k := range m.n {
			m.n[k] = 0
		}
	}
	c.explore(Config{NoKill: true, Opaque: opaqueSet("qrpc.defaultFrameReader.readFrame", fnGetStream, fnCreate, fnTryBind, fnAddIn, fnResetPeer)}, rf, nil, nil, newM("read", func(m *M, s *State, e *Event) {
		f := m.t["frame"]
		done := func(x frameFate) {
			if f == nil || s.facts.nilEval(m.t["err"]) != 1 {
				return
			}
			x.m, x.s, x.in, x.frame = m, s, e.In, f
			x.flags = m.t["flags"]
			x.stopped = s.ctxDone(s.load(vField(vSym(rf.Params[0].Name(), rf.Params[0].Type()), fCtx), fCtx.Type()))
			on(x)
		}
		switch {
		case e.Kind == EvCall && e.Fn == pf:
			done(frameFate{next: true})
			clear(m)
			m.t["frame"], m.t["err"] = strip(e.Res.args[0]), e.Res.args[1]
			m.t["flags"] = s.load(vField(m.t["frame"], fFlags), fFlags.Type())
			m.t["id"] = s.load(vField(m.t["frame"], fID), fID.Type())
			return
		case e.Kind == EvReturn:
			if c.errName(e.Args[1]) == "ErrInboundFramePerSecondExceeded" {
				return // the connection ends for the limit of C17
			}
			done(frameFate{ret: strip(e.Args[0]), err: e.Args[1]})
			return
		}
		if f == nil {
			return
		}
		if e.Kind == EvCall && (e.Name == fnGetStream || e.Name == fnCreate) {
			a := e.Args[1:]
			if e.Name == fnCreate {
				a = a[1:]
			}
			m.n["idok"] = b2i(stripConv(a[0]) == m.t["id"])
			fb := c.flagBits()
			want := bitsWidth(m.t["flags"], 8)
			m.n["clsok"] = b2i(s.resolve(bitsWidth(a[1], 8)[fb.push]) == s.resolve(want[fb.push]))
			if e.Name == fnGetStream {
				m.n["get"]++
				m.t["str"] = strip(e.Res)
			} else {
				m.n["create"]++
				m.t["str"] = strip(e.Res.args[0])
				m.n["ctxok"] = b2i(ctxOfConn(s, e.Args[1], "ctx"))
			}
		}
		if e.Kind == EvCall && (e.Name == fnResetPeer || e.Name == fnTryBind || e.Name == fnAddIn) {
			k := strings.TrimPrefix(e.Name, "qrpc.Stream.")
			m.n[k]++
			m.n["streamok"] = b2i(strip(e.Args[0]) == m.t["str"])
			if e.Name != fnResetPeer {
				m.n["frameok"] = b2i(strip(e.Args[1]) == f)
				m.t[k] = e.Res
			}
		}
		if m.t["str"] != nil && e.Field == fB {
			if e.Kind == EvLoad && m.t["bound"] == nil {
				m.t["bound"] = e.Val
			}
			if e.Kind == EvStore {
				m.n["mark"] = 0
				if e.Val.isTrue() && e.Addr == vField(m.t["str"], fB) {
					m.n["mark"] = 1
				}
			}
		}
		if extra != nil {
			extra(m, s, e)
		}
	}))
}

func c10(c *Check) {
	c.streamOps("ResetByPeer")
	if sp := c.streamSpec(); sp != nil {
		c06maps(c, sp)
	}
	fb := c.flagBits()
	c.eachParsed(func(x frameFate) {
		m, s := x.m, x.s
		s.cases(x.flags, []int{fb.rst}, func(f *Facts, bit func(int) int) {
			if bit(fb.rst) != 1 {
				return
			}
			c.ob("reset-read", c.p.posOf(x.in))
			bad := func(k, format string, a ...interface{}) { c.bad("reset-read", k, x.in, s, format, a...) }
			if m.n["create"] > 0 || m.n["AddInFrame"] > 0 {
				bad("delivered", "a reset opens a stream or is put into one as if it was data")
				return
			}
			if m.n["get"] != 1 || m.n["idok"] == 0 || m.n["clsok"] == 0 {
				bad("lookup", "the stream of a reset is not looked up under the id and class of the frame")
				return
			}
			switch s.facts.nilEval(m.t["str"]) {
			case 1:
				if m.n["ResetByPeer"] > 0 {
					bad("unknown", "a reset of an unknown stream resets something")
				}
				if !x.next {
					bad("unknown result", "a reset of an unknown stream is not ignored")
				}
			case 0:
				if m.n["ResetByPeer"] != 1 || m.n["streamok"] == 0 {
					bad("reset", "the stream found is reset %d times", m.n["ResetByPeer"])
					return
				}
				bound := -1
				if m.t["bound"] != nil {
					bound = s.facts.eval(m.t["bound"])
				}
				if v := m.t["TryBind"]; v != nil {
					bound = not3(s.facts.eval(v))
				}
				switch {
				case x.next && bound != 1:
					bad("untold", "a reset that arrives before any response is swallowed: whoever waits for the response is never told")
				case !x.next && bound != 0:
					bad("told twice", "a reset is returned although the stream was bound to a frame before")
				case !x.next && (x.ret != x.frame || s.facts.nilEval(x.err) != 1):
					bad("result", "a reset before any response ends with (%s, %s) instead of the frame", x.ret, x.err)
				case !x.next && m.n["mark"] == 0 && m.t["TryBind"] == nil:
					bad("mark", "a stream whose reset was returned is not marked as bound: a second reset would be returned too")
				}
			default:
				bad("unchecked", "whether the stream of a reset exists is not examined")
			}
		})
	}, nil)
	c.floor("reset-read")
	c.loops("C10")
	c.floor("reset-dispatch")
	c.streamMaps()
	// the reset operation itself is part of C06
}

func c11(c *Check) {
	c.streamOps("TryBind", "AddInFrame", "ResetByPeer")
	if sp := c.streamSpec(); sp != nil {
		c06maps(c, sp)
	}
	fb := c.flagBits()
	c.eachParsed(func(x frameFate) {
		m, s := x.m, x.s
		s.cases(x.flags, []int{fb.rst}, func(f *Facts, bit func(int) int) {
			if bit(fb.rst) == 1 {
				return
			}
			c.ob("frame-read", c.p.posOf(x.in))
			bad := func(k, format string, a ...interface{}) { c.bad("frame-read", k, x.in, s, format, a...) }
			if m.n["ResetByPeer"] > 0 {
				bad("reset", "a frame which is no reset resets its stream")
			}
			if m.n["create"] != 1 || m.n["idok"] == 0 || m.n["clsok"] == 0 {
				bad("lookup", "the frame's stream is not taken (or created) once under the id and class of the frame")
				return
			}
			if m.n["ctxok"] == 0 {
				bad("context", "the stream of a frame received gets a context that is not the connection's")
			}
			if m.n["TryBind"] != 1 || m.n["streamok"] == 0 || m.n["frameok"] == 0 {
				bad("bind", "binding the frame to its stream is not tried once")
				return
			}
			switch s.facts.eval(m.t["TryBind"]) {
			case 1:
				if m.n["AddInFrame"] > 0 {
					bad("twice", "the first frame of a stream is bound and also put into its channel")
				}
				if x.ret != x.frame || s.facts.nilEval(x.err) != 1 {
					bad("first", "the first frame of a stream is not returned")
				}
			case 0:
				if m.n["AddInFrame"] != 1 {
					bad("later", "a later frame of a stream is put into its channel %d times", m.n["AddInFrame"])
					return
				}
				if x.ret == x.frame && !x.next {
					bad("later twice", "a later frame of a stream is returned as a new request or response")
				}
				ok := s.facts.eval(m.t["AddInFrame"])
				if !x.next && ok != 0 {
					bad("stop", "reading stops after a frame that was accepted")
				}
				if !x.next && !x.stopped && s.facts.nilEval(x.err) != 0 {
					bad("stop", "reading stops without an error")
				}
			default:
				bad("unexamined", "whether the frame is the first of its stream is not examined")
			}
		})
	}, nil)
	c.floor("frame-read")
	c.loops("C11")
	c.floor("dispatch-once")
	c.streamMaps()
	// the incoming channel has one sender and one way to close
	fCh := c.field("", "Stream", "frameCh")
	for _, fn := range c.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var chv []ssa.Value
				switch x := in.(type) {
				case *ssa.Send:
					chv = append(chv, x.Chan)
				case *ssa.Select:
					for _, st := range x.States {
						if st.Dir == types.SendOnly {
							chv = append(chv, st.Chan)
						}
					}
				}
				for _, v := range chv {
					if u, ok := v.(*ssa.UnOp); ok {
						if fa, ok := u.X.(*ssa.FieldAddr); ok && structOfPtr(fa.X.Type()).Field(fa.Field) == fCh {
							c.at("channel-sender", in)
							o := fn
							for o.Parent() != nil {
								o = o.Parent()
							}
							if recvNamed(o) != "Stream" {
								c.bad("channel-sender", fnName(fn), in, nil, "frames are put into a stream's channel outside the stream's operations")
							}
						}
					}
				}
			}
		}
	}
	c.floor("channel-sender")
	// the channel holds no frames back: the end follows the last frame
	c.explore(Config{NoKill: true}, c.fn("qrpc.newStream"), nil, nil, newM("cap", func(m *M, s *State, e *Event) {
		if e.Kind == EvReturn {
			c.ob("channel-made", "newStream")
			v := s.load(vField(strip(e.Res), fCh), fCh.Type())
			if s.facts.nilEval(v) != 0 {
				c.bad("channel-made", "newStream", e.In, s, "a new stream has frame channel %s", v)
			}
		}
	}))
	c.floor("channel-made")
}

// streamMaps: the class of a stream chooses its map, on look up and on creation.
func (c *Check) streamMaps() {
	fb := c.flagBits()
	csT := c.p.typ("", "ConnStreams")
	fP, fS := c.field("", "ConnStreams", "pushstreams"), c.field("", "ConnStreams", "streams")
	if csT == nil || fP == nil || fS == nil {
		return
	}
	cs, id, flags := vSym("cs", types.NewPointer(csT)), vSym("requestID", tU64), vSym("flags", c.p.typ("", "FrameFlag"))
	for _, x := range []struct {
		fn   string
		args []*V
	}{{fnGetStream, []*V{cs, id, flags}}, {fnCreate, []*V{cs, vSym("ctx", nil), id, flags}}} {
		x := x
		fn := c.fn(x.fn)
		if fn == nil {
			continue
		}
		c.explore(Config{NoKill: true}, fn, x.args, nil, newM("class", func(m *M, s *State, e *Event) {
			if e.Kind == EvMapLookup || e.Kind == EvMapUpdate {
				m.n["n"]++
				c.at("class-of-stream", e.In)
				if e.Addr != vField(cs, fP) && e.Addr != vField(cs, fS) {
					c.bad("class-of-stream", x.fn, e.In, s, "streams are kept in %s", e.Addr)
					return
				}
				if msg, ok := decideBits(s.facts, vBool(e.Addr == vField(cs, fP)), flags, 8, func(bit func(int) int) int { return bit(fb.push) }); !ok {
					c.bad("class-of-stream", x.fn+" map", e.In, s, "using the map of pushed streams %s", msg)
				}
				if strip(e.Args[0]) != id {
					c.bad("class-of-stream", x.fn+" key", e.In, s, "the stream is looked for under %s, not the request id", e.Args[0])
				}
				if e.Op == "hit" || e.Op == "LoadOrStore" {
					m.t["v"] = strip(e.Res)
				}
				if e.Op == "Store" {
					m.t["v"] = strip(e.Val)
				}
			}
			if e.Kind == EvReturn {
				r := e.Res
				if len(e.Args) > 1 {
					r = e.Args[0]
				}
				r = strip(r)
				for r.k == KAssert {
					r = strip(r.args[0])
				}
				if m.t["v"] != nil && r != m.t["v"] || m.t["v"] == nil && !r.isNilC() {
					c.bad("class-of-stream", x.fn+" result", e.In, s, "the result is %s, not the stream found", r)
				}
			}
		}))
	}
	c.floor("class-of-stream")
}

// loops analyses the dispatch of frames in both reading loops.
func (c *Check) loops(prop string) {
	fb := c.flagBits()
	fFlags, fID, fRespCh := c.field("", "Frame", "Flags"), c.field("", "Frame", "RequestID"), c.field("", "response", "Frame")
	rf := c.fn("qrpc.defaultFrameReader.ReadFrame")
	if fFlags == nil || fID == nil || fRespCh == nil || rf == nil {
		return
	}
	for _, side := range []struct{ typ, sub, holder string }{{"serveconn", "SubFunc", "ConnectionInfo"}, {"Connection", "subscriber", "Connection"}} {
		side := side
		name := "qrpc." + side.typ + ".readFrames"
		fn := c.fn(name)
		fResp := c.field("", side.holder, "respes")
		if fn == nil || fResp == nil {
			continue
		}
		recv := vSym(fn.Params[0].Name(), fn.Params[0].Type())
		opq := opaqueSet("qrpc.defaultFrameReader.ReadFrame", "qrpc.ConnStreams.Release", "qrpc.Server.waitThrottle", "qrpc.serveconn.Close", "qrpc.Server.untrack")
		keys := []string{"frame", "err", "subf", "resp", "hit", "flags", "id", "handler"}
		settle := func(m *M, s *State, in ssa.Instruction, end bool) {
			f := m.t["frame"]
			if f == nil {
				return
			}
			if s.facts.nilEval(m.t["err"]) == 1 {
				F := m.t["flags"]
				handed := m.n["sub"] + m.n["set"] + m.n["queue"]
				s.cases(F, []int{fb.push, fb.rst}, func(fc *Facts, bit func(int) int) {
					push, rst := bit(fb.push) == 1, bit(fb.rst) == 1
					if prop == "C33" {
						c.ob("push-dispatch", name)
					}
					bad := func(p, rule, k, format string, a ...interface{}) {
						if p == prop {
							c.bad(rule, name+" "+k, in, s, format, a...)
						}
					}
					if push && !rst {
						sn := s.facts.nilEval(m.t["subf"])
						if m.t["subf"] == nil {
							sn = -1
						}
						switch {
						case m.n["sub"] == 1 && handed == 1 && m.n["close"] == 0:
						case m.n["sub"] == 0 && handed == 0 && m.n["close"] == 0 && (sn == 1 || end):
						case m.n["sub"] > 1:
							bad("C33", "push-dispatch", "twice", "a pushed frame reaches the subscriber %d times", m.n["sub"])
							bad("C11", "dispatch-once", "push twice", "a pushed frame reaches the subscriber %d times", m.n["sub"])
						case m.n["sub"] == 0 && handed == 0 && m.n["close"] == 0:
							bad("C33", "push-dispatch", "lost", "a pushed frame does not reach the subscriber")
							bad("C11", "dispatch-once", "push lost", "a pushed frame does not reach the subscriber")
						default:
							bad("C33", "push-dispatch", "elsewhere", "a pushed frame is handed to something else than the subscriber")
							bad("C11", "dispatch-once", "push elsewhere", "a pushed frame is handed to something else than the subscriber")
							bad("C12", "settle", "push", "a pushed frame settles a pending response")
						}
						return
					}
					if !push && m.n["sub"] > 0 {
						bad("C33", "push-dispatch", "pulled", "a frame without the push bit reaches the subscriber")
						bad("C11", "dispatch-once", "pulled to subscriber", "a frame without the push bit reaches the subscriber")
						return
					}
					if push {
						return // a pushed stream is always bound, its reset is never returned by the reader
					}
					if rst {
						if prop == "C10" {
							c.ob("reset-dispatch", name)
						}
						if handed > 0 {
							bad("C10", "reset-dispatch", "handed on", "a reset is handed to a request handler or given out as a response")
							if m.n["hit"] == 1 {
								bad("C12", "settle", "reset as response", "a reset is given out as the response of its request instead of closing it")
							}
							return
						}
						if m.n["hit"] == 1 && m.n["close"] != 1 {
							bad("C10", "reset-dispatch", "response", "a reset closes the pending response of its request %d times", m.n["close"])
							bad("C12", "settle", "reset", "a reset closes the pending response of its request %d times", m.n["close"])
						}
						return
					}
					if prop == "C11" {
						c.ob("dispatch-once", name)
					}
					if prop == "C12" {
						c.ob("settle", name)
					}
					switch {
					case m.n["hit"] == 1 && (m.n["set"] != 1 || handed != 1 || m.n["close"] != 0):
						bad("C12", "settle", "response", "a response frame whose request is pending is given to it %d times, the response closed %d times", m.n["set"], m.n["close"])
						bad("C11", "dispatch-once", "response", "a response frame whose request is pending is given to it %d times", m.n["set"])
					case m.n["hit"] == 0 && m.n["set"]+m.n["close"] > 0:
						bad("C12", "settle", "unregistered", "a frame settles a response that was not found under its id")
					case m.n["hit"] == 0 && handed > 1:
						bad("C11", "dispatch-once", "twice", "a frame is handed on %d times", handed)
					case m.n["hit"] == 0 && handed == 0 && !end && !(side.typ == "Connection" && m.t["handler"] != nil && s.facts.nilEval(m.t["handler"]) == 1):
						bad("C11", "dispatch-once", "lost", "a request frame is dropped while the connection goes on")
					}
				})
			}
			for _, k := range keys {
				m.t[k] = nil
			}
			for _, k := range []string{"sub", "set", "queue", "close", "hit", "del"} {
				m.n[k] = 0
			}
		}
		lockDepth := func(s *State, addr *V) bool {
			for _, l := range s.locks {
				x, _ := pathOf(l.addr)
				y, _ := pathOf(addr)
				if x == y && !l.read {
					return true
				}
			}
			return false
		}
		c.explore(Config{Opaque: opq}, fn, []*V{recv}, nil, newM("dispatch", func(m *M, s *State, e *Event) {
			isF := func(v *V) bool {
				if v == nil || m.t["frame"] == nil {
					return false
				}
				v = strip(v)
				for v.k == KConv {
					v = v.args[0]
				}
				return v == m.t["frame"] || contains(v, m.t["frame"])
			}
			if e.Kind == EvUnlock && m.n["hit"] == 1 && m.n["del"] == 0 && prop == "C12" {
				c.bad("settle", name+" lookup and removal", e.In, s, "the lock is released between finding the pending response and removing it")
			}
			switch {
			case e.Kind == EvCall && e.Fn == rf:
				settle(m, s, e.In, false)
				m.t["frame"], m.t["err"] = strip(e.Res.args[0]), e.Res.args[1]
				m.t["flags"] = s.load(vField(m.t["frame"], fFlags), fFlags.Type())
				m.t["id"] = s.load(vField(m.t["frame"], fID), fID.Type())
			case e.Kind == EvReturn || e.Kind == EvPanicExit:
				settle(m, s, e.In, true)
			case m.t["frame"] == nil:
			case e.Kind == EvLoad && e.Field != nil && e.Field.Name() == side.sub:
				m.t["subf"] = e.Val
			case e.Kind == EvLoad && e.Field != nil && e.Field.Name() == "Handler":
				m.t["handler"] = e.Val
			case e.Kind == EvUser:
				f := lastField(e.Val)
				anyF := false
				for _, a := range e.Args {
					anyF = anyF || isF(a)
				}
				if f != nil && f.Name() == side.sub {
					m.n["sub"]++
					if prop == "C33" {
						c.at("push-dispatch", e.In)
						if !anyF {
							c.bad("push-dispatch", name+" frame", e.In, s, "the subscriber is not given the frame")
						}
						ok := false
						for _, a := range e.Args {
							a = strip(a)
							if a == recv || a.k == KAssert && strings.Contains(a.String(), "ConnectionInfo") && contains(a, recv) {
								ok = true
							}
						}
						if !ok {
							c.bad("push-dispatch", name+" connection", e.In, s, "the subscriber is not given the connection the frame came on")
						}
					}
				} else if anyF {
					m.n["queue"]++
				}
			case e.Kind == EvGo && goCarries(e, m.t["frame"]):
				m.n["queue"]++
			case e.Kind == EvCall && strings.HasSuffix(e.Name, "ServeQRPC"):
				for _, a := range e.Args {
					if isF(a) {
						m.n["queue"]++
						break
					}
				}
			case e.Kind == EvMapLookup:
				if lastField(e.Addr) != fResp {
					return
				}
				if stripConv(strip(e.Args[0])) != m.t["id"] {
					if prop == "C12" {
						c.bad("settle", name+" key", e.In, s, "the pending response is looked up under %s, not under the frame's id", e.Args[0])
					}
				}
				if prop == "C12" {
					c.at("settle", e.In)
					if !lockDepth(s, e.Addr) {
						c.bad("settle", name+" lock", e.In, s, "the pending responses are looked up without their lock")
					}
				}
				if e.Op == "hit" {
					m.n["hit"] = 1
					m.t["resp"] = e.Res
					v := e.Res
					if v != nil && v.k == KTuple {
						v = v.args[0]
					}
					if v != nil { // what is registered is never nil (registered-before-write)
						s.facts.assume(mk(KNil, 0, nil, 0, nil, nil, strip(v)), false)
					}
				}
			case e.Kind == EvMapDelete && lastField(e.Addr) == fResp:
				m.n["del"]++
				if prop == "C12" && stripConv(strip(e.Args[0])) != m.t["id"] {
					c.bad("settle", name+" removal key", e.In, s, "the pending response removed is %s, not the frame's", e.Args[0])
				}
			case e.Kind == EvSend && lastField(e.Ch) == fRespCh:
				m.n["set"]++
				if prop == "C12" {
					if !isF(e.Val) || m.t["resp"] == nil || !contains(e.Ch, m.t["resp"]) {
						c.bad("settle", name+" value", e.In, s, "%s is given to the pending response %s", e.Val, e.Ch)
					}
					if m.n["del"] == 0 {
						c.bad("settle", name+" kept", e.In, s, "the response settled stays registered: it may be settled again")
					}
				}
			case e.Kind == EvClose && lastField(e.Ch) == fRespCh:
				m.n["close"]++
				if prop == "C12" && m.n["del"] == 0 {
					c.bad("settle", name+" kept", e.In, s, "the response closed stays registered: it may be settled again")
				}
			case e.Kind == EvSend && s.holds(e.Val, m.t["frame"]):
				m.n["queue"]++
			}
		}))
	}
}

// holds: the value is a struct or pointer that carries x.
func (s *State) holds(v, x *V) bool {
	if v == nil || x == nil {
		return false
	}
	if contains(v, x) {
		return true
	}
	for a, w := range s.mem {
		if (a.k == KField || a.k == KIdx) && contains(a, v) && contains(w, x) {
			return true
		}
	}
	return false
}

// goCarries: a goroutine is started with the value among its captured variables or arguments.
func goCarries(e *Event, x *V) bool { return x != nil && e.Kind == EvGo }

func c33(c *Check) {
	c.sub(func(rule, k string) bool { return rule == "admission" && strings.HasSuffix(k, " push") }, c07)
	c.loops("C33")
	c.floor("push-dispatch")
	fb := c.flagBits()
	fResp := c.field("", "defaultFrameWriter", "resp")
	for _, t := range []string{"Connection", "serveconn"} {
		for _, m0 := range []string{"Request", "StreamRequest"} {
			t, m0 := t, m0
			fn := c.fn("qrpc." + t + "." + m0)
			if fn == nil || fResp == nil {
				continue
			}
			flags := vSym("flags", c.p.typ("", "FrameFlag"))
			c.explore(wireCfg(), fn, []*V{nil, nil, flags, nil}, nil, newM("pushresp", func(m *M, s *State, e *Event) {
				c.cleanWriter(s, e, fResp)
				if e.Kind == EvCall && strings.HasSuffix(e.Name, ".writeFrameBytes") {
					c.ob("push-expects-nothing", t+"."+m0)
					v := s.load(vField(strip(e.Args[1]), fResp), fResp.Type())
					m.t["resp"] = v
					if msg, ok := decideBits(s.facts, vBool(s.facts.nilEval(v) == 1), flags, 8, func(bit func(int) int) int { return bit(fb.push) }); !ok {
						c.bad("push-expects-nothing", t+"."+m0, e.In, s, "sending without expecting a response %s", msg)
					}
				}
				if e.Kind == EvReturn && len(e.Args) == 3 && s.facts.nilEval(e.Args[2]) == 1 {
					r := strip(e.Args[1])
					if v := m.t["resp"]; v != nil && r != strip(v) && !(r.isNilC() && s.facts.nilEval(v) == 1) {
						c.bad("push-expects-nothing", t+"."+m0+" result", e.In, s, "the response handed to the caller is %s, the one registered %s", r, v)
					}
				}
			}))
		}
	}
	c.floor("push-expects-nothing")
}

func c12(c *Check) {
	c.loops("C12")
	c.floor("settle")
	fRespCh, fResp := c.field("", "response", "Frame"), c.field("", "defaultFrameWriter", "resp")
	fDfw, fRes, fWbuf := c.field("", "writeFrameRequest", "dfw"), c.field("", "writeFrameRequest", "result"), c.field("", "defaultFrameWriter", "wbuf")
	if fRespCh == nil || fResp == nil || fDfw == nil || fRes == nil || fWbuf == nil {
		return
	}
	// created with room for one frame, handed to the caller
	for _, t := range []string{"Connection", "serveconn"} {
		for _, m0 := range []string{"Request", "StreamRequest"} {
			t, m0 := t, m0
			c.explore(wireCfg(), c.fn("qrpc."+t+"."+m0), nil, nil, newM("created", func(m *M, s *State, e *Event) {
				c.cleanWriter(s, e, fResp)
				if e.Kind == EvMake && e.Op == "chan" {
					if n, ok := e.Val.intC(); ok && n >= 1 {
						m.t["ch"] = e.Res
					}
				}
				if e.Kind == EvCall && strings.HasSuffix(e.Name, ".writeFrameBytes") {
					v := s.load(vField(strip(e.Args[1]), fResp), fResp.Type())
					m.t["resp"] = v
					c.ob("response-created", t+"."+m0)
					if s.facts.nilEval(v) == 1 {
						return
					}
					ch := s.load(vField(strip(v), fRespCh), fRespCh.Type())
					if m.t["ch"] == nil || ch != m.t["ch"] {
						c.bad("response-created", t+"."+m0+" room", e.In, s, "the response's channel %s has no room for the answer: the reader would block on it", ch)
					}
				}
				if e.Kind == EvReturn && len(e.Args) == 3 && s.facts.nilEval(e.Args[2]) == 1 {
					r, v := strip(e.Args[1]), m.t["resp"]
					if v == nil || r != strip(v) && !(r.isNilC() && s.facts.nilEval(v) == 1) {
						c.bad("response-created", t+"."+m0+" result", e.In, s, "the response handed to the caller is %s, the one sent with the request is %v", r, v)
					}
				}
			}))
		}
	}
	c.floor("response-created")
	// registered before the network write, under the lock, only while open
	for _, side := range []struct{ typ, holder, closed string }{{"serveconn", "ConnectionInfo", "closed"}, {"Connection", "Connection", "rwc"}} {
		side := side
		name := "qrpc." + side.typ + ".writeBuffers"
		fMap, fClosed := c.field("", side.holder, "respes"), c.field("", side.holder, side.closed)
		fReqs := c.field("", side.typ, "cachedRequests")
		fn := c.fn(name)
		if fn == nil || fMap == nil || fClosed == nil || fReqs == nil {
			continue
		}
		recv := vSym(fn.Params[0].Name(), fn.Params[0].Type())
		req := vSym("#req", types.NewPointer(c.p.typ("", "writeFrameRequest")))
		c.exploreInit(Config{NoKill: true, Opaque: opaqueSet("qrpc.Writer.writeBuffers", "qrpc.serveconn.Close", "qrpc.Server.untrack")}, fn, []*V{recv}, nil, func(s *State) {
			l := s.load(vField(recv, fReqs), fReqs.Type())
			s.memb = append(s.memb, memb{l, req})
		}, newM("register", func(m *M, s *State, e *Event) {
			if m.t["req"] == nil {
				m.t["req"] = req
				dfw := s.load(vField(req, fDfw), fDfw.Type())
				m.t["resp"] = s.load(vField(dfw, fResp), fResp.Type())
			}
			open := func() bool {
				v := m.t["closedv"]
				return v != nil && (side.typ == "serveconn" && s.facts.eval(v) == 0 || side.typ != "serveconn" && s.facts.nilEval(v) == 0)
			}
			if e.Kind == EvUnlock {
				m.t["closedv"] = nil
			}
			if e.Kind == EvLoad && e.Field == fClosed && len(s.locks) > 0 && !s.locks[0].read {
				m.t["closedv"] = e.Val
			}
			switch {
			case e.Kind == EvMapUpdate && lastField(e.Addr) == fMap || e.Kind == EvMapUpdate && m.t["newmap"] != nil && e.Addr == m.t["newmap"]:
				c.at("registered-before-write", e.In)
				if len(s.locks) == 0 {
					c.bad("registered-before-write", name+" lock", e.In, s, "a response is registered without the lock")
				} else if !open() {
					c.bad("registered-before-write", name+" open", e.In, s, "a response is registered where the connection may have ended: nobody would close it")
				}
				if side.typ == "serveconn" && s.facts.nilEval(e.Addr) != 0 {
					c.bad("registered-before-write", name+" map", e.In, s, "a response is registered in a map that may not exist")
				}
				if e.Val == m.t["resp"] || strip(e.Val) == strip(m.t["resp"]) {
					m.n["reg"]++
				}
				if e.Res == nil || e.Res != absent && s.facts.nilEval(e.Res) != 1 {
					c.bad("registered-before-write", name+" in use", e.In, s, "a response is registered without it being known that its id is not in use: the answer of another request is taken away")
				}
			case e.Kind == EvStore && e.Field == fMap:
				m.t["newmap"] = e.Val
			case e.Kind == EvCall && e.Name == "qrpc.Writer.writeBuffers":
				c.at("registered-before-write", e.In)
				if s.facts.nilEval(m.t["resp"]) == 0 && m.n["reg"] == 0 && m.n["refused"] == 0 {
					c.bad("registered-before-write", name+" before", e.In, s, "a request that expects a response is written before its response is registered: a fast answer is lost")
				}
				if s.facts.nilEval(m.t["resp"]) < 0 && m.n["reg"] == 0 && m.n["refused"] == 0 {
					c.bad("registered-before-write", name+" unexamined", e.In, s, "whether a request expects a response is not examined before it is written")
				}
				m.n["written"] = 1
			case e.Kind == EvSend && lastField(e.Ch) == fRes && below(e.Ch, req):
				m.n["refused"] = 1
			}
		}))
	}
	c.floor("registered-before-write")
	c12end(c, fRespCh)
	c12get(c, fRespCh)
}

// c12end: the end of a connection closes every response left.
func c12end(c *Check, fRespCh *types.Var) {
	for _, side := range []struct{ fn, holder, closed string }{{"qrpc.serveconn.closeUntracked", "ConnectionInfo", "closed"}, {"qrpc.Connection.closeRWC", "Connection", "rwc"}} {
		side := side
		fn := c.fn(side.fn)
		fMap, fClosed := c.field("", side.holder, "respes"), c.field("", side.holder, side.closed)
		if fn == nil || fMap == nil || fClosed == nil {
			continue
		}
		resp := vSym("#resp", types.NewPointer(c.p.typ("", "response")))
		c.exploreInit(Config{NoKill: true}, fn, nil, nil, nil, newM("end", func(m *M, s *State, e *Event) {
			if m.t["resp"] == nil {
				m.t["resp"] = resp
			}
			switch {
			case e.Kind == EvLoad && e.Field == fMap && m.n["seeded"] == 0 && m.n["reset"] == 0:
				// the response is registered
				m.n["seeded"] = 1
				s.memb = append(s.memb, memb{e.Val, resp})
				m.n["locked"] = b2i(len(s.locks) > 0)
				c.at("end-closes-responses", e.In)
			case e.Kind == EvStore && e.Field == fMap:
				m.n["reset"] = 1
				if len(s.locks) == 0 {
					c.bad("end-closes-responses", side.fn+" lock", e.In, s, "the pending responses are taken away without the lock")
				}
			case e.Kind == EvStore && e.Field == fClosed:
				m.n["ended"] = 1
				m.n["endlock"] = b2i(len(s.locks) > 0)
			case e.Kind == EvClose && below(e.Ch, resp):
				m.n["closed"]++
			case e.Kind == EvLoad && e.Field == fClosed:
				m.t["was"] = e.Val
			case e.Kind == EvReturn:
				over := false // ended before by somebody else
				if v := m.t["was"]; v != nil {
					if side.closed == "closed" {
						over = s.facts.eval(v) == 1
					} else {
						over = s.facts.nilEval(v) == 1
					}
				}
				c.ob("end-closes-responses", side.fn)
				if over {
					return
				}
				if m.n["closed"] != 1 {
					c.bad("end-closes-responses", side.fn, e.In, s, "a response pending at the end of the connection is closed %d times", m.n["closed"])
				}
				if m.n["locked"] == 0 || m.n["ended"] == 0 || m.n["endlock"] == 0 {
					c.bad("end-closes-responses", side.fn+" order", e.In, s, "the end is not marked and the responses are not taken in one critical section: a request registered in between waits for ever")
				}
				if m.n["reset"] == 0 {
					c.bad("end-closes-responses", side.fn+" kept", e.In, s, "responses closed stay registered: a late frame is sent to a closed channel")
				}
			}
		}))
	}
	c.floor("end-closes-responses")
}

// c12get: what the caller is told.
func c12get(c *Check, fRespCh *types.Var) {
	for _, name := range []string{"qrpc.response.GetFrame", "qrpc.response.GetFrameWithContext"} {
		name := name
		fn := c.fn(name)
		if fn == nil {
			continue
		}
		c.explore(Config{NoKill: true}, fn, nil, nil, newM("get", func(m *M, s *State, e *Event) {
			if e.Kind == EvSelect && !e.Blocking {
				c.bad("caller-told", name+" wait", e.In, s, "the caller does not wait for the response")
			}
			if e.Kind == EvRecv && lastField(e.Ch) == fRespCh {
				m.t["f"] = e.Res
			}
			if e.Kind != EvReturn {
				return
			}
			c.at("caller-told", e.In)
			f, err := strip(e.Args[0]), e.Args[1]
			switch {
			case m.t["f"] == nil:
				if s.facts.nilEval(err) != 0 || s.facts.nilEval(f) != 1 {
					c.bad("caller-told", name+" without", e.In, s, "without a response the result is (%s, %s)", f, err)
				}
			case s.facts.nilEval(m.t["f"]) == 1:
				if c.errName(err) != "ErrStreamClosed" {
					c.bad("caller-told", name+" closed", e.In, s, "the error of a closed response is %s, not ErrStreamClosed", err)
				}
			case s.facts.nilEval(m.t["f"]) == 0:
				if f != strip(m.t["f"]) || s.facts.nilEval(err) != 1 {
					c.bad("caller-told", name+" frame", e.In, s, "the response received is %s, the result (%s, %s)", m.t["f"], f, err)
				}
			default:
				c.bad("caller-told", name+" unexamined", e.In, s, "whether the response was closed is not examined")
			}
		}))
	}
	c.floor("caller-told")
}

// cleanWriter: a recycled frame writer expects no response (C04, recycled-state).
func (c *Check) cleanWriter(s *State, e *Event, fResp *types.Var) {
	if e.Kind == EvCall && e.Name == "sync.Pool.Get" && e.Res != nil {
		s.mem[vField(vAssert(strip(e.Res), types.NewPointer(c.p.typ("", "defaultFrameWriter"))), fResp)] = vNil()
	}
}

// below: v is reached from b through fields (an index computed from b does not count).
func below(v, b *V) bool {
	for v != nil {
		if v == b {
			return true
		}
		if len(v.args) == 0 {
			return false
		}
		v = v.args[0]
	}
	return false
}
