package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C06", "path typestate of every Stream operation over its three atomic flags: for arbitrary flag values the effects of each operation are compared with the specification of the two directions; a side finished by an operation must be followed by a look at the other side and, if that may be finished, by the finalisation (the set-then-check rule which makes the race of the two sides safe); closing of the channels only under the compare-and-swap that grants it; the forget closure is compared with the map entry it belongs to; release protocol of the connection (counter of writers and reader) checked on every path", c06)
}

// flagBits gives the truth of flag bits.
type flagBits struct{ rst, st, end, push, nb, codec int }

func (c *Check) flagBits() flagBits {
	g := func(n string) int { return log2(constOf(c, n)) }
	return flagBits{g("StreamRstFlag"), g("StreamFlag"), g("StreamEndFlag"), g("PushFlag"), g("NBFlag"), g("CodecFlag")}
}

func (b flagBits) done(bit func(int) int) int {
	return or3(not3(bit(b.st)), bit(b.end), bit(b.rst))
}

func and3(a ...int) int {
	r := 1
	for _, x := range a {
		if x == 0 {
			return 0
		}
		if x < 0 {
			r = -1
		}
	}
	return r
}

// nz tells whether an integer term is known to be nonzero (1), zero (0) or neither (-1).
func (s *State) nz(v *V) int {
	if v == nil {
		return -1
	}
	return not3(s.facts.eval(vEq(v, vInt(0))))
}

// streamMon follows the flags of one stream.
type streamSpec struct {
	c               *Check
	self, peer, ful *types.Var
	frameCh, fullCh *types.Var
	closeN, cancel  *types.Var
	ctxF, binded    *types.Var
}

func (c *Check) streamSpec() *streamSpec {
	f := func(n string) *types.Var { return c.field("", "Stream", n) }
	sp := &streamSpec{c, f("closedSelf"), f("closedPeer"), f("fullClosed"), f("frameCh"), f("fullCloseCh"), f("closeNotify"), f("cancelFunc"), f("ctx"), f("binded")}
	if sp.self == nil || sp.peer == nil || sp.ful == nil || sp.frameCh == nil || sp.fullCh == nil || sp.closeN == nil || sp.cancel == nil || sp.ctxF == nil || sp.binded == nil {
		return nil
	}
	return sp
}

// of tells whether a value is the given field of the stream.
func (sp *streamSpec) of(s *State, v, st *V, f *types.Var) bool {
	if v == nil {
		return false
	}
	v = strip(v)
	return v == s.load(vField(st, f), f.Type()) || v.k == KLoad && v.args[0] == vField(st, f)
}

func (sp *streamSpec) key(f *types.Var) string {
	switch f {
	case sp.self:
		return "self"
	case sp.peer:
		return "peer"
	case sp.ful:
		return "full"
	}
	return ""
}

// track updates the knowledge about the flags; name is the operation for reports.
func (sp *streamSpec) track(m *M, s *State, e *Event, st *V, name string) {
	c := sp.c
	if e.Kind == EvAtomic && e.Addr == vField(st, e.Field) {
		k := sp.key(e.Field)
		if k == "" {
			return
		}
		c.at("flag-access", e.In)
		set := func() {
			m.n["known_"+k] = 1
			if m.n["set_"+k] == 0 {
				m.n["set_"+k] = 1
				if k != "full" {
					o := "peer"
					if k == "peer" {
						o = "self"
					}
					if m.n["known_"+o] == 1 {
						m.n["need_"+o] = 2
					} else {
						m.n["need_"+o] = 1
						m.t["val_"+o] = nil
					}
				}
			}
		}
		mono := func(v *V) {
			if s.nz(v) != 1 {
				c.bad("flags-monotone", name+" "+k, e.In, s, "the %s flag is set to %s: a finished direction could open again", k, v)
			}
		}
		switch e.Op {
		case "load":
			if m.n["known_"+k] == 1 {
				s.facts.assume(vEq(e.Res, vInt(0)), false)
			}
			m.t["val_"+k] = e.Res
			if m.n["need_"+k] == 1 {
				m.n["need_"+k] = 2
			}
		case "store":
			mono(e.Args[0])
			if k == "peer" || k == "full" {
				m.n["granted_"+k] = 0
				c.bad("close-once", name+" "+k, e.In, s, "the %s flag is set without finding out who set it first", k)
			}
			set()
		case "swap":
			mono(e.Args[0])
			if m.n["known_"+k] == 1 {
				s.facts.assume(vEq(e.Res, vInt(0)), false)
			}
			if m.t["old_"+k] == nil {
				m.t["old_"+k] = e.Res
			}
			m.t["swap_"+k] = e.Res
			if k == "full" {
				sp.final(m, s, e, st, name)
			}
			set()
		case "cas":
			z, _ := e.Args[0].intC()
			if s.nz(e.Args[0]) != 0 || z != 0 {
				c.bad("flags-monotone", name+" "+k, e.In, s, "the %s flag is compared with %s instead of zero", k, e.Args[0])
				return
			}
			mono(e.Args[1])
			if e.Res.isTrue() {
				if m.n["known_"+k] == 1 {
					s.dead = true // it is set already
					return
				}
				m.n["granted_"+k]++
			}
			if k == "full" {
				sp.final(m, s, e, st, name)
			}
			if e.Res.isTrue() {
				set()
			}
			m.n["known_"+k] = 1
			if m.n["need_"+k] == 1 {
				m.n["need_"+k] = 2
			}
		default:
			c.bad("flags-monotone", name+" "+k, e.In, s, "unexpected operation %s on the %s flag", e.Op, k)
		}
		return
	}
	if e.Kind == EvStore && (e.Field == sp.self || e.Field == sp.peer || e.Field == sp.ful) && e.Addr == vField(st, e.Field) {
		c.bad("flags-monotone", name+" plain", e.In, s, "the %s flag is written without an atomic operation", sp.key(e.Field))
	}
	closed := func(f *types.Var, k string) {
		if e.Kind == EvClose && sp.of(s, e.Ch, st, f) {
			c.at("close-once", e.In)
			ok := m.n["granted_"+k] > m.n["closed_"+k]
			if !ok && m.t["swap_"+k] != nil && s.nz(m.t["swap_"+k]) == 0 && m.n["closed_"+k] == 0 {
				ok = true
			}
			m.n["closed_"+k]++
			if !ok {
				c.bad("close-once", name+" "+f.Name(), e.In, s, "%s is closed on a path that did not win the right to close it", f.Name())
			}
		}
	}
	closed(sp.frameCh, "peer")
	closed(sp.fullCh, "full")
	if e.Kind == EvClose && sp.of(s, e.Ch, st, sp.fullCh) && m.n["notified"] == 0 {
		c.bad("finalisation", name+" order", e.In, s, "completion is signalled before the stream is forgotten by its connection")
	}
	if e.Kind == EvUser && sp.of(s, e.Val, st, sp.closeN) {
		c.at("close-once", e.In)
		m.n["notified"]++
		if !(m.n["granted_full"] == 1 || m.t["swap_full"] != nil && s.nz(m.t["swap_full"]) == 0) || m.n["notified"] > 1 {
			c.bad("close-once", name+" closeNotify", e.In, s, "the forget function is called on a path that did not win the right to finalise")
		}
	}
	if (e.Kind == EvUser || e.Kind == EvCall && e.Name == "cancel") && (sp.of(s, e.Val, st, sp.cancel)) {
		m.n["cancelled"]++
	}
}

// final is called when the finalisation is attempted.
func (sp *streamSpec) final(m *M, s *State, e *Event, st *V, name string) {
	sp.c.at("finalise-only-when-both-done", e.In)
	m.n["fin"] = 1
	m.n["need_self"], m.n["need_peer"] = 0, 0
	for _, k := range []string{"self", "peer"} {
		if name == "Release" && k == "self" {
			continue
		}
		if m.n["known_"+k] == 0 && s.nz(m.t["val_"+k]) != 1 {
			sp.c.bad("finalise-only-when-both-done", name+" "+k, e.In, s, "the stream is finalised where the %s direction may still be open", k)
		}
	}
}

// atReturn checks the duties left at the end of an operation.
func (sp *streamSpec) atReturn(m *M, s *State, e *Event, name string) {
	c := sp.c
	c.ob("set-then-check", name)
	reader := name == "TryBind" || name == "AddInFrame"
	for _, k := range []string{"self", "peer"} {
		if reader && k == "peer" && m.n["set_peer"] == 0 {
			continue // the reader itself is the only one to finish the peer's direction
		}
		o := "self"
		if k == "self" {
			o = "peer"
		}
		switch m.n["need_"+k] {
		case 1:
			c.bad("set-then-check", name+" "+o, e.In, s, "after finishing the %s direction nobody looks whether the %s direction is finished: with the other side doing the same at the same time the stream is never finalised", o, k)
		case 2:
			if m.n["known_"+k] == 1 || s.nz(m.t["val_"+k]) != 0 {
				c.bad("set-then-check", name+" "+o, e.In, s, "both directions are finished and the stream is not finalised on this path")
			}
		}
	}
	for _, x := range []struct {
		k string
		f *types.Var
	}{{"peer", sp.frameCh}, {"full", sp.fullCh}} {
		won := m.n["granted_"+x.k] > 0
		if v := m.t["swap_"+x.k]; v != nil && s.nz(v) != 1 {
			won = true
		}
		c.ob("close-done", name+" "+x.f.Name())
		if won && m.n["closed_"+x.k] != 1 {
			c.bad("close-done", name+" "+x.f.Name(), e.In, s, "the path won the right to close %s and closed it %d times", x.f.Name(), m.n["closed_"+x.k])
		}
	}
	if m.n["granted_full"] > 0 || m.n["closed_full"] > 0 {
		c.ob("finalisation", name)
		if m.n["notified"] != 1 {
			c.bad("finalisation", name+" forget", e.In, s, "the stream is finalised and the connection's forget function is called %d times", m.n["notified"])
		}
		if m.n["cancelled"] < 1 {
			c.bad("finalisation", name+" cancel", e.In, s, "the stream is finalised and its context is not cancelled")
		}
	}
}

func c06(c *Check) {
	c.streamOps()
	c.floor("operation-effects")
	c.floor("close-once")
	c.floor("finalise-only-when-both-done")
	c.floor("set-then-check")
	sp := c.streamSpec()
	if sp == nil {
		return
	}
	c06outside(c, sp)
	c06maps(c, sp)
	c06conn(c)
}

// streamOps analyses the operations of a stream (all, or those named).
func (c *Check) streamOps(only ...string) {
	sel := func(n string) bool {
		for _, o := range only {
			if o == n {
				return true
			}
		}
		return len(only) == 0
	}
	sp := c.streamSpec()
	fb := c.flagBits()
	fFlags, fStream := c.field("", "Frame", "Flags"), c.field("", "Frame", "Stream")
	stT := c.p.typ("", "Stream")
	if sp == nil || fFlags == nil || fStream == nil || stT == nil {
		return
	}
	st := vSym("s", types.NewPointer(stT))
	frame := vSym("frame", types.NewPointer(c.p.typ("", "Frame")))
	frameFlags := func(s *State) *V { return s.load(vField(frame, fFlags), fFlags.Type()) }
	retBool := func(s *State, e *Event) int { return s.facts.eval(e.Res) }

	// the flags set by the reading side
	setsOf := func(m *M, s *State, e *Event, name string, fl *V) {
		c.ob("operation-effects", name)
		if msg, ok := decideBits(s.facts, vBool(m.n["set_self"] == 1 || m.n["known_self"] == 1 && m.n["set_self"] == 0), fl, 8, func(bit func(int) int) int { return bit(fb.push) }); !ok {
			c.bad("operation-effects", name+" own side", e.In, s, "finishing the own side on a frame received %s", msg)
		}
		if msg, ok := decideBits(s.facts, vBool(m.n["known_peer"] == 1), fl, 8, fb.done); !ok {
			c.bad("operation-effects", name+" peer side", e.In, s, "finishing the peer's side on a frame received %s", msg)
		}
	}
	none := func(m *M, s *State, e *Event, name string) {
		if m.n["set_self"]+m.n["set_peer"]+m.n["set_full"] > 0 {
			c.bad("operation-effects", name+" refused", e.In, s, "the frame is refused and the stream changes state all the same")
		}
	}
	run := func(name string, args []*V, on func(m *M, s *State, e *Event)) {
		if !sel(name) {
			return
		}
		fn := c.fn("qrpc.Stream." + name)
		if fn == nil {
			return
		}
		c.explore(Config{NoKill: true}, fn, append([]*V{st}, args...), nil, newM("stream", func(m *M, s *State, e *Event) {
			sp.track(m, s, e, st, name)
			on(m, s, e)
			if e.Kind == EvReturn {
				sp.atReturn(m, s, e, name)
			}
			if e.Kind == EvPanicExit {
				c.bad("operation-effects", name+" panic", e.In, s, "the operation panics")
			}
		}))
	}
	boundV := func(s *State) *V { return mk(KLoad, 0, nil, 0, sp.binded.Type(), nil, vField(st, sp.binded)) }
	run("TryBind", []*V{frame}, func(m *M, s *State, e *Event) {
		if e.Kind == EvStore && e.Addr == vField(st, sp.binded) {
			m.n["stored"] = 1
		}
		if e.Kind != EvReturn {
			return
		}
		switch retBool(s, e) {
		case 1:
			if s.facts.eval(boundV(s)) != 0 {
				c.bad("operation-effects", "TryBind twice", e.In, s, "a frame is bound where the stream may be bound already")
			}
			if s.facts.eval(s.load(vField(st, sp.binded), sp.binded.Type())) != 1 {
				c.bad("operation-effects", "TryBind mark", e.In, s, "the stream is not marked as bound")
			}
			if strip(s.load(vField(frame, fStream), fStream.Type())) != st {
				c.bad("operation-effects", "TryBind frame", e.In, s, "the bound frame does not refer to its stream")
			}
			setsOf(m, s, e, "TryBind", frameFlags(s))
		case 0:
			if s.facts.eval(boundV(s)) != 1 {
				c.bad("operation-effects", "TryBind refused", e.In, s, "a frame is not bound although the stream may be unbound")
			}
			none(m, s, e, "TryBind")
		default:
			c.bad("operation-effects", "TryBind result", e.In, s, "the result %s is not decided by whether the stream was bound", e.Res)
		}
	})
	run("AddInFrame", []*V{frame}, func(m *M, s *State, e *Event) {
		if e.Kind == EvSelect || e.Kind == EvSend && !e.Sel {
			if m.n["known_peer"] == 1 || s.nz(m.t["val_peer"]) != 0 {
				for _, k := range e.Cases {
					if k.Send && sp.of(s, k.Ch, st, sp.frameCh) {
						c.bad("deliver-before-end", "AddInFrame", e.In, s, "a frame is put into the channel where the peer's direction may be finished (the channel closed)")
					}
				}
				if e.Kind == EvSend && sp.of(s, e.Ch, st, sp.frameCh) {
					c.bad("deliver-before-end", "AddInFrame", e.In, s, "a frame is put into the channel where the peer's direction may be finished (the channel closed)")
				}
			}
			c.at("deliver-before-end", e.In)
		}
		if e.Kind == EvSend && sp.of(s, e.Ch, st, sp.frameCh) {
			m.n["sent"]++
			if strip(e.Val) != frame {
				c.bad("operation-effects", "AddInFrame value", e.In, s, "the frame delivered is %s", e.Val)
			}
		}
		if e.Kind != EvReturn {
			return
		}
		switch retBool(s, e) {
		case 1:
			if m.n["sent"] != 1 {
				c.bad("operation-effects", "AddInFrame accepted", e.In, s, "the frame is accepted and delivered %d times", m.n["sent"])
			}
			setsOf(m, s, e, "AddInFrame", frameFlags(s))
		case 0:
			if m.n["sent"] != 0 {
				c.bad("operation-effects", "AddInFrame sent", e.In, s, "the frame is delivered and yet refused")
			}
			if s.nz(m.t["val_peer"]) != 1 && m.n["known_peer"] == 0 && !s.ctxDone(s.load(vField(st, sp.ctxF), sp.ctxF.Type())) {
				c.bad("operation-effects", "AddInFrame dropped", e.In, s, "the frame is refused although the stream is open and not cancelled")
			}
			none(m, s, e, "AddInFrame")
		default:
			c.bad("operation-effects", "AddInFrame result", e.In, s, "the result %s is not decided", e.Res)
		}
	})
	flags := vSym("flags", fFlags.Type())
	run("AddOutFrame", []*V{vSym("requestID", tU64), flags}, func(m *M, s *State, e *Event) {
		if e.Kind == EvAtomic && e.Addr == vField(st, sp.self) && e.Op == "load" && m.t["old_self"] == nil && m.n["set_self"] == 0 {
			m.t["old_self"] = e.Res
		}
		if e.Kind == EvAtomic && e.Addr == vField(st, sp.self) && e.Op == "cas" && m.n["oldknown"] == 0 {
			m.n["oldknown"] = 1
			if e.Res.isFalse() {
				m.n["oldknown"] = 2
			}
		}
		if e.Kind != EvReturn {
			return
		}
		c.ob("operation-effects", "AddOutFrame")
		old := s.nz(m.t["old_self"])
		if old < 0 && m.n["oldknown"] > 0 {
			old = m.n["oldknown"] - 1
		}
		pv := s.nz(m.t["val_peer"])
		if m.n["known_peer"] == 1 {
			pv = 1
		}
		// every truth of the flags compatible with the path
		ok := func(bit func(int) int) int {
			rst, done := bit(fb.rst), fb.done(bit)
			return or3(and3(rst, not3(and3(old, pv))), and3(not3(rst), not3(old)), 0*done)
		}
		if msg, good := decideBits(s.facts, e.Res, flags, 8, ok); !good {
			c.bad("operation-effects", "AddOutFrame result", e.In, s, "the admission of a frame to be sent %s, own side finished before: %s, peer's side: %s", msg, yn(old), yn(pv))
		}
		if msg, good := decideBits(s.facts, vBool(m.n["set_self"] == 1), flags, 8, func(bit func(int) int) int {
			rst := bit(fb.rst)
			if rst == 1 && old == 1 {
				return b2i(m.n["set_self"] == 1)
			}
			return or3(rst, and3(not3(rst), not3(old), fb.done(bit)))
		}); !good {
			c.bad("operation-effects", "AddOutFrame own side", e.In, s, "finishing the own side on a frame sent %s", msg)
		}
		if m.n["set_peer"] == 1 {
			c.bad("operation-effects", "AddOutFrame peer side", e.In, s, "sending a frame finishes the peer's direction")
		}
	})
	run("ResetByPeer", nil, func(m *M, s *State, e *Event) {
		if e.Kind != EvReturn {
			return
		}
		c.ob("operation-effects", "ResetByPeer")
		if m.n["known_peer"] != 1 {
			c.bad("operation-effects", "ResetByPeer peer side", e.In, s, "a reset from the peer does not finish the peer's direction")
		}
		if m.n["cancelled"] < 1 {
			c.bad("operation-effects", "ResetByPeer cancel", e.In, s, "a reset from the peer does not cancel the stream's context")
		}
		if m.n["set_self"] == 1 {
			c.bad("operation-effects", "ResetByPeer own side", e.In, s, "a reset from the peer finishes the own direction")
		}
		if m.n["need_self"] == 0 && m.n["fin"] == 0 && (m.t["val_self"] == nil || s.nz(m.t["val_self"]) != 0) {
			c.bad("operation-effects", "ResetByPeer finalise", e.In, s, "the own direction may be finished and the stream is not finalised")
		}
	})
	run("Release", nil, func(m *M, s *State, e *Event) {
		if e.Kind != EvReturn {
			return
		}
		c.ob("operation-effects", "Release")
		if m.n["known_peer"] != 1 || m.n["fin"] != 1 || m.n["cancelled"] < 1 {
			c.bad("operation-effects", "Release", e.In, s, "releasing a stream leaves it open")
		}
	})
	if len(only) > 0 {
		return
	}
	// IsSelfClosed
	isc := c.fn("qrpc.Stream.IsSelfClosed")
	c.explore(Config{NoKill: true}, isc, []*V{st}, nil, newM("isc", func(m *M, s *State, e *Event) {
		if e.Kind == EvAtomic && e.Field == sp.self && e.Op == "load" {
			m.t["v"] = e.Res
		}
		if e.Kind == EvReturn {
			c.ob("operation-effects", "IsSelfClosed")
			ok := m.t["v"] != nil
			for _, z := range []bool{true, false} {
				if !ok {
					break
				}
				f := s.facts.clone()
				if f.assume(vEq(m.t["v"], vInt(0)), z) && f.eval(e.Res) != b2i(!z) {
					ok = false
				}
			}
			if !ok {
				c.bad("operation-effects", "IsSelfClosed", e.In, s, "the result is %s, not whether the own side is finished", e.Res)
			}
		}
	}))
	done := c.fn("qrpc.Stream.Done")
	c.explore(Config{NoKill: true}, done, []*V{st}, nil, newM("done", func(m *M, s *State, e *Event) {
		if e.Kind == EvReturn {
			c.ob("operation-effects", "Done")
			if v := strip(e.Res); !sp.of(s, v, st, sp.fullCh) && !(v.k == KConv && sp.of(s, v.args[0], st, sp.fullCh)) {
				c.bad("operation-effects", "Done", e.In, s, "the completion signal handed out is %s", e.Res)
			}
		}
	}))
}

func yn(x int) string {
	switch x {
	case 1:
		return "yes"
	case 0:
		return "no"
	}
	return "not looked at"
}

// c06outside: the flags and channels of a stream change in its own operations only.
func c06outside(c *Check, sp *streamSpec) {
	for _, fn := range c.p.Funcs {
		if recvNamed(fn) == "Stream" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				f := structOfPtr(fa.X.Type()).Field(fa.Field)
				if f != sp.self && f != sp.peer && f != sp.ful {
					continue
				}
				for _, r := range *fa.Referrers() {
					call, isCall := r.(ssa.CallInstruction)
					_, isLoad := r.(*ssa.UnOp)
					if isLoad || isCall && call.Common().StaticCallee() != nil && strings.HasPrefix(call.Common().StaticCallee().Name(), "Load") {
						continue
					}
					if sto, isSto := r.(*ssa.Store); isSto {
						if k, isC := sto.Val.(*ssa.Const); isC && k.Value != nil && k.Int64() == 0 {
							if _, isA := fa.X.(*ssa.Alloc); isA {
								continue
							}
						}
					}
					owner := fn
					for owner.Parent() != nil {
						owner = owner.Parent()
					}
					if recvNamed(owner) == "Stream" {
						continue
					}
					c.bad("flags-monotone", fnName(fn)+" "+f.Name(), r, nil, "the stream's %s is changed outside the stream's operations", f.Name())
				}
			}
		}
	}
}

func recvNamed(fn *ssa.Function) string {
	if r := fn.Signature.Recv(); r != nil {
		if n, ok := derefType(r.Type()).(*types.Named); ok {
			return n.Obj().Name()
		}
	}
	return ""
}

func structOfPtr(t types.Type) *types.Struct {
	st, _ := derefType(t).Underlying().(*types.Struct)
	return st
}

// c06maps: registration and removal of streams.
func c06maps(c *Check, sp *streamSpec) {
	fb := c.flagBits()
	csT := c.p.typ("", "ConnStreams")
	fS, fP := c.field("", "ConnStreams", "streams"), c.field("", "ConnStreams", "pushstreams")
	flagT := c.p.typ("", "FrameFlag")
	if csT == nil || fS == nil || fP == nil {
		return
	}
	cs := vSym("cs", types.NewPointer(csT))
	id, flags := vSym("requestID", tU64), vSym("flags", flagT)
	fn := c.fn("qrpc.ConnStreams.CreateOrGetStream")
	if fn == nil {
		return
	}
	fID := c.field("", "Stream", "ID")
	c.explore(Config{NoKill: true}, fn, []*V{cs, vSym("ctx", nil), id, flags}, nil, newM("create", func(m *M, s *State, e *Event) {
		if e.Kind == EvCall && strings.HasPrefix(e.Name, "context.With") && e.Name != "context.WithValue" {
			m.t["ctx"] = e.Res
		}
		if e.Kind == EvCall && e.Name == "cancel" {
			m.n["cancel"] = 1
		}
		if e.Kind == EvMapUpdate && (e.Op == "LoadOrStore" || e.Op == "Store") {
			c.at("registration", e.In)
			v := strip(e.Val)
			m.n["stored"]++
			m.t["stored"] = v
			if strip(e.Args[0]) != id {
				c.bad("registration", "key", e.In, s, "the stream is registered under %s, not under the request id", e.Args[0])
			}
			if msg, ok := decideBits(s.facts, vBool(e.Addr == vField(cs, fP)), flags, 8, func(bit func(int) int) int { return bit(fb.push) }); !ok || e.Addr != vField(cs, fP) && e.Addr != vField(cs, fS) {
				c.bad("registration", "map", e.In, s, "registering in the map of pushed streams %s", msg)
			}
			if x := s.load(vField(v, fID), fID.Type()); x != id {
				c.bad("registration", "id", e.In, s, "the new stream carries id %s", x)
			}
			// the forget function removes this entry
			cl := strip(s.load(vField(v, sp.closeN), sp.closeN.Type()))
			if cl.k != KClosure && cl.k != KFunc {
				c.bad("forget", "closure", e.In, s, "the new stream's forget function is %s", cl)
				return
			}
			addr, mem, facts := e.Addr, s.mem, s.facts
			cfn := cl.aux.(*ssa.Function)
			n := 0
			c.exploreInit(Config{NoKill: true}, cfn, nil, cl.args, func(x *State) {
				for k, v := range mem {
					x.mem[k] = v
				}
				x.facts = facts.clone()
			}, newM("forget", func(m *M, s *State, e *Event) {
				if e.Kind == EvMapDelete {
					c.at("forget", e.In)
					m.n["del"]++
					if e.Addr != addr || strip(e.Args[0]) != id {
						c.bad("forget", "entry", e.In, s, "the stream was registered in %s under %s, and %s is deleted from %s", addr, id, e.Args[0], e.Addr)
					}
				}
				if e.Kind == EvReturn {
					n++
					if m.n["del"] != 1 {
						c.bad("forget", "entry missing", e.In, s, "the entry of a finished stream is deleted %d times", m.n["del"])
					}
				}
			}))
			if n == 0 {
				c.bad("forget", "closure end", e.In, s, "the forget function has no normal end")
			}
		}
		if e.Kind == EvReturn {
			c.ob("registration", "result")
			r := strip(e.Args[0])
			if m.n["stored"] == 1 && r != m.t["stored"] {
				c.bad("registration", "result", e.In, s, "the stream registered is not the one returned")
			}
			if m.n["stored"] == 1 && s.facts.eval(e.Args[1]) != 0 || m.n["stored"] == 0 && s.facts.eval(e.Args[1]) != 1 {
				c.bad("registration", "loaded", e.In, s, "the second result %s does not tell whether the stream existed", e.Args[1])
			}
			if m.n["stored"] == 0 && m.t["ctx"] != nil && m.n["cancel"] == 0 {
				c.bad("registration", "context left", e.In, s, "the context made for a stream that is not used stays registered with its parent")
			}
		}
	}))
	c.floor("registration")
	c.floor("forget")
	// Release reaches every stream of both maps
	rel := c.fn("qrpc.ConnStreams.Release")
	for _, f := range []*types.Var{fS, fP} {
		f := f
		x := vSym("#stream", types.NewPointer(c.p.typ("", "Stream")))
		c.exploreInit(Config{NoKill: true}, rel, []*V{cs}, nil, func(s *State) {
			s.memb = append(s.memb, memb{vField(cs, f), x})
		}, newM("release", func(m *M, s *State, e *Event) {
			if m.t["x"] == nil {
				m.t["x"] = x
			}
			if e.Kind == EvExit && e.Name == "qrpc.Stream.Release" {
				m.n["in"] = 0
			}
			if e.Kind == EvAtomic && e.Field == sp.ful && e.Op != "load" && e.Addr == vField(x, sp.ful) {
				m.n["done"] = 1
			}
			if e.Kind == EvReturn {
				c.ob("release-all", f.Name())
				if m.n["done"] == 0 {
					c.bad("release-all", f.Name(), e.In, s, "a stream registered in %s is not finalised when the connection's streams are released", f.Name())
				}
			}
		}))
	}
	c.floor("release-all")
}

// c06conn: streams of a served connection are released exactly when reader and writers are gone.
func c06conn(c *Check) {
	inflight := c.field("", "serveconn", "inflight")
	if inflight == nil {
		return
	}
	csUse := func(e *Event) bool {
		return strings.HasSuffix(e.Name, "ConnStreams.GetStream") || strings.HasSuffix(e.Name, "ConnStreams.CreateOrGetStream") || strings.HasSuffix(e.Name, "Stream.AddOutFrame")
	}
	opq := func(f *ssa.Function) bool {
		switch fnName(f) {
		case "qrpc.ConnStreams.GetStream", "qrpc.ConnStreams.CreateOrGetStream", "qrpc.Stream.AddOutFrame", "qrpc.ConnStreams.Release", "qrpc.defaultFrameReader.ReadFrame", "qrpc.Writer.writeBuffers", "qrpc.serveconn.Close", "qrpc.Server.waitThrottle":
			return true
		}
		return false
	}
	mon := func(name string, want int) *M {
		return newM("inflight", func(m *M, s *State, e *Event) {
			switch {
			case e.Kind == EvAtomic && e.Field == inflight:
				c.at("release-counter", e.In)
				if e.Op == "load" {
					return
				}
				d, ok := int64(0), false
				if e.Op == "add" {
					d, ok = e.Args[0].intC()
				}
				if !ok || d != 1 && d != -1 {
					c.bad("release-counter", name+" step", e.In, s, "the counter of the users of the streams changes by %s %s", e.Op, e.Args[0])
					return
				}
				m.n["net"] += int(d)
				m.t["last"], m.n["lastd"] = e.Res, int(d)
				m.n["pend"] = 0
				if d == -1 {
					m.n["pend"] = 1
				}
			case e.Kind == EvCall && strings.HasSuffix(e.Name, "ConnStreams.Release"):
				c.at("release-counter", e.In)
				if m.n["lastd"] != -1 || s.facts.eval(vEq(m.t["last"], vInt(0))) != 1 || m.n["pend"] == 0 {
					c.bad("release-counter", name+" early", e.In, s, "the streams are released while the reader or a writer may still use them")
				}
				m.n["pend"] = 0
			case e.Kind == EvCall && csUse(e):
				c.at("release-counter", e.In)
				if want == 0 && (m.n["net"] != 1 || m.t["last"] == nil || s.facts.eval(vEq(m.t["last"], vInt(1))) != 0) {
					c.bad("release-counter", name+" uncounted", e.In, s, "streams are used by a writer that is not counted: they may be released at the same time, or be created after the release")
				}
			case e.Kind == EvCall && strings.HasSuffix(e.Name, "ReadFrame") && want == -1:
				if m.n["net"] != 0 {
					c.bad("release-counter", name+" after", e.In, s, "frames are read after the reader gave up its share of the streams")
				}
			case e.Kind == EvReturn || e.Kind == EvPanicExit:
				c.ob("release-counter", name+" balance")
				if m.n["net"] != want {
					c.bad("release-counter", name+" balance", e.In, s, "the function ends with the counter of users changed by %d instead of %d", m.n["net"], want)
				}
				// a decrement that was not undone must be examined
				if m.n["pend"] == 1 && s.facts.eval(vEq(m.t["last"], vInt(0))) != 0 && !(want == 0 && m.n["undo"] == 1) {
					c.bad("release-counter", name+" forgotten", e.In, s, "the last user of the streams leaves and they are not released")
				}
			}
			// the increment found nobody left: its undo releases nothing
			if e.Kind == EvAtomic && e.Field == inflight && e.Op == "add" && m.n["lastd"] == -1 {
				if v := m.t["inc"]; v != nil && s.facts.eval(vEq(v, vInt(1))) == 1 {
					m.n["undo"] = 1
				}
			}
			if e.Kind == EvAtomic && e.Field == inflight && e.Op == "add" && m.n["lastd"] == 1 {
				m.t["inc"] = e.Res
			}
		})
	}
	c.explore(Config{Opaque: opq, NoKill: true}, c.fn("qrpc.serveconn.writeFrameBytes"), nil, nil, mon("writeFrameBytes", 0))
	c.explore(Config{Opaque: opq, NoKill: true}, c.fn("qrpc.serveconn.readFrames"), nil, nil, mon("readFrames", -1))
	c.floor("release-counter")
	// the reader's share is there before the reader starts
	c.explore(Config{NoKill: true, Opaque: opq}, c.serveRoot(), nil, nil, newM("share", func(m *M, s *State, e *Event) {
		if e.Field == inflight && (e.Kind == EvStore || e.Kind == EvAtomic && e.Op == "store") {
			v := e.Val
			if e.Kind == EvAtomic {
				v = e.Args[0]
			}
			if n, _ := v.intC(); n == 1 {
				m.n["set"]++
			} else {
				m.n["set"] = 5
			}
		}
		if e.Field == inflight && e.Kind == EvAtomic && e.Op == "add" {
			if n, _ := e.Args[0].intC(); n == 1 {
				m.n["set"]++
			}
		}
		if e.Kind == EvGo && reaches(c.p, e.Fn, "qrpc.serveconn.readFrames") {
			c.at("reader-counted", e.In)
			if m.n["set"] != 1 {
				c.bad("reader-counted", "serve", e.In, s, "the reader is started without its share in the streams: they are released while it runs")
			}
			s.dead = true
		}
	}))
	c.floor("reader-counted")
	// client: the streams of a cycle are released after its goroutines
	c.sub(func(rule, k string) bool {
		return rule == "cycle" && (k == "released early" || k == "released other" || k == "streams kept" || k == "replaced early" || k == "coverage")
	}, c25cycle)
}

// reaches tells whether a function or one of the module functions it calls statically is the named one.
func reaches(p *Program, fn *ssa.Function, name string) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if f == nil {
			return false
		}
		f = origFn(p, f)
		if f == nil || seen[f] || !p.inModule(f) {
			return false
		}
		if fnName(f) == name {
			return true
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if rec(call.Common().StaticCallee()) {
						return true
					}
				}
				for _, op := range in.Operands(nil) {
					if op != nil && *op != nil {
						if g, ok := (*op).(*ssa.Function); ok && rec(g) {
							return true
						}
						if mc, ok := (*op).(*ssa.MakeClosure); ok && rec(mc.Fn.(*ssa.Function)) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return rec(fn)
}
