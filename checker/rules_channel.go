package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C28", "path typestate of both ends of a pipe: what a send, an end and a receive do to the stream under which lock and for which state of the pipe, lockset of the state of the senders, wiring of new pipes and served handlers, and the marshalling choice; with the rules of C06 on the order of frames and the refusal of frames after the end", c28)
}

const (
	fnMarshal   = "channel.Marshal"
	fnUnmarshal = "channel.Unmarshal"
	fnFrameCh   = "qrpc.Frame.FrameCh"
)

// pipeEnd is one of the two implementations.
type pipeEnd struct {
	name                      string // type of the sender
	client                    bool
	writer, resp, first, shut *types.Var
	frame                     *types.Var // served: the request
	recvT                     string
	got                       *types.Var // served: whether the request itself was received
	lock                      *types.Var
	sets                      map[*types.Var]map[*types.Var]bool // lockset per field
}

// only gives the one field of the struct whose type prints like that.
func (c *Check) only(pkg, typ, want string, all bool) *types.Var {
	st := c.p.typ(pkg, typ)
	if st == nil {
		c.report("anchor", typ, "", "type "+pkg+"."+typ+" does not exist", nil)
		return nil
	}
	u, ok := st.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var r *types.Var
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if types.TypeString(f.Type(), func(p *types.Package) string { return p.Name() }) == want {
			if r != nil && all {
				c.report("anchor", typ, "", typ+" has several fields of type "+want, nil)
				return nil
			}
			r = f
		}
	}
	if r == nil {
		c.report("anchor", typ, "", typ+" has no field of type "+want, nil)
	}
	return r
}

func c28(c *Check) {
	cl := &pipeEnd{name: "clientSender", client: true, recvT: "clientReceiver", sets: map[*types.Var]map[*types.Var]bool{}}
	cl.writer, cl.resp = c.only("channel", cl.name, "qrpc.StreamWriter", true), c.only("channel", cl.name, "qrpc.Response", true)
	cl.first, cl.shut = c.only("channel", cl.name, "*qrpc.Frame", true), c.only("channel", cl.name, "bool", true)
	sv := &pipeEnd{name: "serveSender", recvT: "serveReceiver", sets: map[*types.Var]map[*types.Var]bool{}}
	sv.writer, sv.frame = c.only("channel", sv.name, "qrpc.FrameWriter", true), c.only("channel", sv.name, "*qrpc.RequestFrame", true)
	sv.shut, sv.got = c.only("channel", sv.name, "bool", true), c.only("channel", sv.recvT, "bool", true)
	if cl.writer == nil || cl.resp == nil || cl.first == nil || cl.shut == nil || sv.writer == nil || sv.frame == nil || sv.shut == nil || sv.got == nil {
		return
	}
	for _, p := range []*pipeEnd{cl, sv} {
		for _, end := range []bool{false, true} {
			c.c28send(p, end)
		}
		c.c28end(p)
		c.c28receive(p)
		for _, f := range []*types.Var{p.writer, p.resp, p.shut} {
			if f == nil || f == sv.writer {
				continue
			}
			c.ob("lockset", p.name+"."+f.Name())
			if set, ok := p.sets[f]; ok && len(set) == 0 {
				c.report("lockset", p.name+"."+f.Name(), c.p.pos(f.Pos()), f.Name()+" is not always used under one and the same lock", nil)
			}
		}
	}
	c28wiring(c, cl, sv)
	c28marshal(c)
	// nobody else
	mine := map[*types.Var]bool{}
	for _, f := range []*types.Var{cl.writer, cl.resp, cl.first, cl.shut, sv.writer, sv.frame, sv.shut, sv.got} {
		mine[f] = true
	}
	for _, fn := range c.p.Funcs {
		if c.funcs[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if f := structOfPtr(fa.X.Type()).Field(fa.Field); mine[f] {
						c.bad("lockset", fnName(fn)+" "+f.Name(), in, nil, "%s is used outside the operations of the pipe", f.Name())
					}
				}
			}
		}
	}
	c.floor("send")
	c.floor("end")
	c.floor("receive")
	c.floor("lockset")
	c.floor("wiring")
	c.floor("marshal")
	// what the stream does with the frames
	c.sub(nil, func(c *Check) {
		c.streamOps("TryBind", "AddInFrame", "AddOutFrame", "ResetByPeer")
	})
	c28writer(c)
}

// guard follows the locks: every use of the shared state is recorded with the locks held.
func (c *Check) c28guard(p *pipeEnd, m *M, s *State, e *Event, owner *V) {
	if e.Kind != EvLoad && e.Kind != EvStore || e.Field == nil || isAllocRoot(e.Addr) {
		return
	}
	if e.Field != p.writer && e.Field != p.resp && e.Field != p.shut {
		return
	}
	if !p.client && e.Field == p.writer {
		if e.Kind == EvStore {
			c.bad("lockset", p.name+" writer", e.In, s, "the writer of a served pipe is replaced")
		}
		return
	}
	held := map[*types.Var]bool{}
	for _, l := range s.locks {
		if f := lastField(l.addr); f != nil && objectOf(l.addr) == objectOf(e.Addr) && !(l.read && e.Kind == EvStore) {
			held[f] = true
		}
	}
	old, seen := p.sets[e.Field]
	if !seen {
		p.sets[e.Field] = held
		return
	}
	for f := range old {
		if !held[f] {
			delete(old, f)
		}
	}
}

// c28under: whether the lock of this sender is held for writing; the same one everywhere.
func (c *Check) c28under(p *pipeEnd, s *State, e *Event, rule, k string, recv *V) bool {
	for _, l := range s.locks {
		if !l.read && through(l.addr, recv) && lastField(l.addr) != nil && (p.lock == nil || p.lock == lastField(l.addr)) {
			p.lock = lastField(l.addr)
			return true
		}
	}
	c.bad(rule, p.name+" "+k+" lock", e.In, s, "the stream is used without holding the sender's lock: messages of concurrent senders interleave")
	return false
}

func params(fn *ssa.Function) []*V {
	var r []*V
	for _, p := range fn.Params {
		r = append(r, vSym(p.Name(), p.Type()))
	}
	return r
}

// sameErr: the error returned is the one given.
func (s *State) sameErr(ret, err *V) bool {
	if ret == nil || err == nil {
		return false
	}
	if ret == err || sym(ret) == sym(err) {
		return true
	}
	a, b := s.facts.nilEval(ret), s.facts.nilEval(err)
	return a == 1 && b == 1 || a == 0 && b == 0
}

func (s *State) refuses(e *Event) bool {
	r := resultErr(e)
	return r != nil && s.facts.nilEval(r) == 0
}

func (c *Check) c28send(p *pipeEnd, end bool) {
	fn := c.fn("channel." + p.name + ".Send")
	if fn == nil || len(fn.Params) != 5 {
		return
	}
	args := params(fn)
	recv, cmd, msg := args[0], args[2], args[3]
	args[4] = vBool(end)
	fb := c.flagBits()
	bStream, bEnd, bRst, bPush, bCodec := int64(1)<<uint(fb.st), int64(1)<<uint(fb.end), int64(1)<<uint(fb.rst), int64(1)<<uint(fb.push), int64(1)<<uint(fb.codec)
	lab := map[bool]string{true: " last", false: ""}[end]
	swNow := func(s *State) *V { return s.load(vField(recv, p.writer), p.writer.Type()) }
	shutNow := func(s *State) int { return s.facts.eval(s.load(vField(recv, p.shut), p.shut.Type())) }
	shutUnlessFailed := func(s *State, err *V) bool {
		if shutNow(s) == 1 {
			return true
		}
		f := s.facts.clone()
		f.assume(vIsNil(err), true)
		return f.eval(s.load(vField(recv, p.shut), p.shut.Type())) == 1
	}
	c.explore(Config{Opaque: opaqueSet(fnMarshal)}, fn, args, nil, newM("send", func(m *M, s *State, e *Event) {
		bad := func(k, format string, a ...interface{}) { c.bad("send", p.name+lab+" "+k, e.In, s, format, a...) }
		c.c28guard(p, m, s, e, recv)
		flags := func(v *V) {
			f, ok := v.intC()
			switch {
			case !ok:
				bad("flags", "the flags of a message are %s", showT(v))
			case !p.client && f&bStream == 0:
				bad("stream", "a message is not marked as part of a stream")
			case f&(bRst|bPush|bCodec) != 0:
				bad("flags", "a message carries other markers than those of a stream: %d", f)
			case (f&bEnd != 0) != end:
				bad("end", "the end marker asked for is %s, the one sent is %s", yn(b2i(end)), yn(b2i(f&bEnd != 0)))
			}
		}
		pre := func() {
			c.at("send", e.In)
			c.c28under(p, s, e, "send", lab, recv)
			if m.t["merr"] == nil || s.facts.nilEval(m.t["merr"]) != 1 {
				bad("unencoded", "something is sent although the message may not have been encoded")
			}
		}
		open := func() {
			if shutNow(s) != 0 {
				bad("closed", "a message is sent on a sender that may have ended")
			}
		}
		switch {
		case e.Kind == EvCall && e.Name == fnMarshal:
			c.at("send", e.In)
			if m.n["enc"] > 0 || sym(e.Args[0]) != msg {
				bad("encodes", "what is encoded is %s", showT(e.Args[0]))
			}
			m.n["enc"] = 1
			if e.Res != nil && e.Res.k == KTuple {
				m.t["bytes"], m.t["merr"] = e.Res.args[0], e.Res.args[1]
			}
		case e.Kind == EvCall && strings.HasSuffix(e.Name, ".StreamRequest"):
			pre()
			open()
			if s.facts.nilEval(swNow(s)) != 1 {
				bad("twice", "a stream is opened although there may be one already")
			}
			if m.n["opened"]+m.n["step"] > 0 {
				bad("again", "one message opens several streams")
			}
			if sym(e.Args[1]) != cmd || sym(e.Args[3]) != sym(m.t["bytes"]) {
				bad("first", "the stream is opened with command %s and payload %s", showT(e.Args[1]), showT(e.Args[3]))
			}
			if !through(e.Args[0], recv) {
				bad("initiator", "the stream is opened on %s", showT(e.Args[0]))
			}
			flags(e.Args[2])
			m.n["opened"] = 1
			if e.Res != nil && e.Res.k == KTuple && len(e.Res.args) == 3 {
				m.t["sw"], m.t["resp"], m.t["err"] = e.Res.args[0], e.Res.args[1], e.Res.args[2]
			}
		case e.Kind == EvCall && strings.HasSuffix(e.Name, "Writer.StartWrite"):
			pre()
			open()
			if sym(e.Args[0]) != sym(swNow(s)) {
				bad("writer", "the message goes to %s", showT(e.Args[0]))
			}
			if p.client && s.facts.nilEval(swNow(s)) != 0 {
				bad("unopened", "a message is written before a stream is opened")
			}
			if m.n["step"] > 0 || m.n["opened"] > 0 {
				bad("repeat", "a message is sent twice")
			}
			m.n["step"] = 1
			if sym(e.Args[len(e.Args)-1-b2i(!p.client)]) != cmd {
				bad("cmd", "the command sent is %s", showT(e.Args[len(e.Args)-1-b2i(!p.client)]))
			}
			if !p.client {
				id := sym(e.Args[1])
				if lastField(id) == nil || lastField(id).Name() != "RequestID" || !through(id, recv) {
					bad("id", "the message carries the request id %s", showT(e.Args[1]))
				}
				flags(e.Args[3])
			}
			m.t["w"] = sym(e.Args[0])
		case e.Kind == EvCall && strings.HasSuffix(e.Name, "Writer.WriteBytes"):
			pre()
			if m.n["step"] != 1 || sym(e.Args[0]) != m.t["w"] || sym(e.Args[1]) != sym(m.t["bytes"]) {
				bad("payload", "the payload written is %s", showT(e.Args[1]))
			}
			m.n["step"] = 2
		case e.Kind == EvCall && strings.HasSuffix(e.Name, "Writer.EndWrite"):
			pre()
			if m.n["step"] != 2 || sym(e.Args[0]) != m.t["w"] {
				bad("unfinished", "a message is finished that was not written")
			}
			if p.client && s.facts.eval(e.Args[1]) != b2i(end) {
				bad("end", "the end marker asked for is %s, the one sent is %s", yn(b2i(end)), showT(e.Args[1]))
			}
			m.n["step"] = 3
			m.t["err"] = resultErr(e)
		case e.Kind == EvCall && strings.Contains(e.Name, "Writer."):
			bad("other", "sending does %s", e.Name)
		case e.Kind == EvStore && e.Field == p.shut:
			if !end && s.facts.eval(e.Val) != 0 && !(p.client && false) && sym(e.Val) != sym(e.Args[0]) {
				bad("ends", "a message that is not the last one ends the sender")
			}
		case e.Kind == EvStore && e.Field == p.writer && p.client:
			if m.n["opened"] == 0 || sym(e.Val) != sym(m.t["sw"]) {
				bad("stored", "the stream of the pipe becomes %s", showT(e.Val))
			}
		case e.Kind == EvStore && e.Field == p.resp && p.client:
			if m.n["opened"] == 0 || sym(e.Val) != sym(m.t["resp"]) {
				bad("resp", "the response of the pipe becomes %s", showT(e.Val))
			}
			m.n["resp"] = 1
		case e.Kind == EvUnlock && lastField(e.Addr) == p.lock && p.lock != nil:
			if m.n["step"] == 1 || m.n["step"] == 2 {
				bad("split", "the sender's lock is released in the middle of a message")
			}
			if m.n["opened"] == 1 && s.facts.nilEval(m.t["err"]) != 0 && sym(swNow(s)) != sym(m.t["sw"]) {
				bad("forgotten", "the stream opened is not kept: the next message opens another one")
			}
			if m.n["opened"]+m.n["step"] > 0 && !p.client && end && s.facts.nilEval(m.t["err"]) != 0 && !shutUnlessFailed(s, m.t["err"]) {
				bad("unended", "sending stays possible after the last message")
			}
		case e.Kind == EvReturn:
			c.ob("send", p.name+lab)
			if len(s.locks) > 0 {
				bad("unlock", "a lock stays held")
			}
			if m.n["opened"] == 1 && m.n["resp"] == 0 && s.facts.nilEval(m.t["err"]) != 0 {
				bad("no resp", "the stream is opened and what answers it cannot be received")
			}
			r := resultErr(e)
			switch {
			case m.n["opened"] == 1 || m.n["step"] == 3:
				if !s.sameErr(r, m.t["err"]) {
					bad("result", "the outcome of sending is %s, what is reported is %s", showT(m.t["err"]), showT(r))
				}
			case m.n["step"] > 0:
				bad("half", "a message is written and never sent")
			case !s.refuses(e):
				bad("dropped", "nothing is sent and no error is known to be reported (%s)", showT(r))
			case s.facts.nilEval(m.t["merr"]) == 1 && m.n["enc"] == 1 && m.n["shut"] == 0:
				bad("refused", "a message is refused although the sender has not ended")
			}
		case e.Kind == EvLoad && e.Field == p.shut:
			m.n["shut"] = 0
			if s.facts.eval(e.Val) != 0 {
				m.n["shut"] = 1
			}
			m.t["shutv"] = e.Val
		}
		if m.n["shut"] == 1 && m.t["shutv"] != nil && s.facts.eval(m.t["shutv"]) == 0 {
			m.n["shut"] = 0
		}
	}))
}

func (c *Check) c28end(p *pipeEnd) {
	fn := c.fn("channel." + p.name + ".End")
	if fn == nil {
		return
	}
	args := params(fn)
	recv := args[0]
	shutNow := func(s *State) int { return s.facts.eval(s.load(vField(recv, p.shut), p.shut.Type())) }
	c.explore(Config{}, fn, args, nil, newM("end", func(m *M, s *State, e *Event) {
		bad := func(k, format string, a ...interface{}) { c.bad("end", p.name+" "+k, e.In, s, format, a...) }
		c.c28guard(p, m, s, e, recv)
		switch {
		case e.Kind == EvLoad && e.Field == p.shut && m.t["was"] == nil:
			m.t["was"] = e.Val
		case e.Kind == EvLoad && e.Field == p.writer && p.client:
			m.t["sw"] = e.Val
		case e.Kind == EvStore && e.Field == p.shut:
			c.at("end", e.In)
			if s.facts.eval(e.Val) != 1 {
				bad("reopens", "ending leaves the sender open")
			}
		case e.Kind == EvStore && (e.Field == p.writer || e.Field == p.resp) && e.Field != nil:
			bad("replaces", "ending replaces the stream: what the peer still sends is lost or another stream is opened")
		case e.Kind == EvCall && strings.HasSuffix(e.Name, "Writer.ResetFrame"):
			c.at("end", e.In)
			c.c28under(p, s, e, "end", "", recv)
			if m.n["reset"] > 0 {
				bad("twice", "the stream is reset twice")
			}
			m.n["reset"] = 1
			m.t["err"] = resultErr(e)
			if p.client {
				sw := s.load(vField(recv, p.writer), p.writer.Type())
				if sym(e.Args[0]) != sym(sw) || s.facts.nilEval(sw) != 0 {
					bad("writer", "what is reset is %s, which may not be the stream of the pipe", showT(e.Args[0]))
				}
				if m.t["was"] == nil || s.facts.eval(m.t["was"]) != 0 {
					bad("again", "a stream is reset which may have been ended before")
				}
				return
			}
			if lastField(e.Args[0]) != p.writer || !through(e.Args[0], recv) {
				bad("writer", "the stream is reset through %s", showT(e.Args[0]))
			}
			if id := sym(e.Args[1]); lastField(id) == nil || lastField(id).Name() != "RequestID" || !through(id, recv) {
				bad("id", "the stream reset is %s", showT(e.Args[1]))
			}
		case e.Kind == EvCall && strings.Contains(e.Name, "Writer.") || e.Kind == EvCall && strings.HasSuffix(e.Name, ".StreamRequest"):
			bad("other", "ending does %s", e.Name)
		case e.Kind == EvUnlock && lastField(e.Addr) == p.lock && p.lock != nil && !isRead(e):
			if shutNow(s) != 1 {
				bad("open", "messages can still be sent after the end")
			}
		case e.Kind == EvReturn:
			c.ob("end", p.name)
			if len(s.locks) > 0 {
				bad("unlock", "a lock stays held")
			}
			was := m.t["was"] != nil && s.facts.eval(m.t["was"]) == 1
			switch {
			case m.n["reset"] == 1:
				if !s.sameErr(resultErr(e), m.t["err"]) {
					bad("result", "the outcome of ending is not reported")
				}
			case was:
				if !s.refuses(e) {
					bad("twice", "ending twice is not reported")
				}
			case p.client && m.t["sw"] != nil && s.facts.nilEval(m.t["sw"]) == 1:
			default:
				bad("silent", "the sender ends and the peer is not told")
			}
		}
	}))
}

func isRead(e *Event) bool { return e.Op == "r" || e.Op == "RUnlock" }

func (c *Check) c28receive(p *pipeEnd) {
	fn := c.fn("channel." + p.recvT + ".Receive")
	if fn == nil || len(fn.Params) != 4 {
		return
	}
	fCmd, fPay := c.field("", "Frame", "Cmd"), c.field("", "Frame", "Payload")
	if fCmd == nil || fPay == nil {
		return
	}
	args := params(fn)
	recv, ctx, cmd, msg := args[0], args[1], args[2], args[3]
	c.explore(Config{Opaque: opaqueSet(fnUnmarshal, fnFrameCh)}, fn, args, nil, newM("receive", func(m *M, s *State, e *Event) {
		bad := func(k, format string, a ...interface{}) { c.bad("receive", p.recvT+" "+k, e.In, s, format, a...) }
		c.c28guard(p, m, s, e, recv)
		got := func(v *V) {
			if m.n["got"] > 0 {
				bad("skips", "one receive consumes several frames")
			}
			m.n["got"] = 1
			m.t["f"] = sym(v)
		}
		isFirst := func(v *V) bool {
			v = sym(v)
			if p.client {
				return v != nil && lastField(v) == p.first
			}
			return v != nil && strings.HasSuffix(types.TypeString(v.typ, nil), "Frame") && through(v, recv) && v != recv
		}
		switch {
		case e.Kind == EvCall && strings.HasSuffix(e.Name, ".GetFrameWithContext"), e.Kind == EvCall && strings.HasSuffix(e.Name, ".GetFrame"):
			c.at("receive", e.In)
			if !p.client {
				bad("response", "a served pipe receives from a response")
				return
			}
			if len(e.Args) < 2 || sym(e.Args[1]) != ctx {
				bad("uncancelable", "waiting for the first frame does not end with the context")
			}
			if lastField(e.Args[0]) != p.resp || s.facts.nilEval(e.Args[0]) != 0 {
				bad("response", "the first frame is taken from %s, which may not be the response of the stream", showT(e.Args[0]))
			}
			if m.t["first"] == nil || s.facts.nilEval(m.t["first"]) != 1 {
				bad("order", "the first frame is waited for although it may have been received")
			}
			m.n["fresh"] = 1
			if e.Res != nil && e.Res.k == KTuple {
				got(e.Res.args[0])
				m.t["gerr"] = e.Res.args[1]
			}
		case e.Kind == EvLoad && e.Field == p.first && p.client && m.n["fresh"] == 0:
			m.t["first"] = e.Val
		case e.Kind == EvStore && e.Field == p.first && p.client:
			c.at("receive", e.In)
			if m.n["fresh"] == 0 || sym(e.Val) != m.t["f"] && s.facts.nilEval(e.Val) != 1 {
				bad("stream", "the pipe goes on receiving from %s", showT(e.Val))
			}
			m.t["kept"] = sym(e.Val)
		case e.Kind == EvLoad && !p.client && e.Field == p.got && m.t["hasv"] == nil:
			m.t["hasv"] = e.Val
		case e.Kind == EvStore && !p.client && e.Field == p.got:
			c.at("receive", e.In)
			if s.facts.eval(e.Val) != 1 {
				bad("repeats", "the request would be received again")
			}
			m.n["marked"] = 1
		case e.Kind == EvCall && e.Name == fnFrameCh:
			m.t["ch"] = e.Res
			if !isFirst(e.Args[0]) {
				bad("source", "frames are received from the stream of %s", showT(e.Args[0]))
			}
		case e.Kind == EvSelect:
			c.at("receive", e.In)
			cancel, frame := false, false
			for _, k := range e.Cases {
				switch {
				case !k.Send && isDoneChan(k.Ch, ctx):
					cancel = true
				case !k.Send && m.t["ch"] != nil && sym(k.Ch) == sym(m.t["ch"]):
					frame = true
				default:
					bad("case", "receiving can end because of %s", showT(k.Ch))
				}
			}
			if !e.Blocking {
				bad("polls", "receiving does not wait for the frame")
			}
			if !cancel {
				bad("uncancelable", "receiving does not end with the context")
			}
			if !frame {
				bad("source", "receiving does not wait for the next frame of the stream")
			}
			if p.client && (m.t["first"] == nil || s.facts.nilEval(m.t["first"]) != 0) {
				bad("order", "a later frame is waited for although the first one may not have been received")
			}
			if !p.client && (m.t["hasv"] == nil || s.facts.eval(m.t["hasv"]) != 1) {
				bad("order", "a later frame is waited for although the request itself may not have been received")
			}
		case e.Kind == EvRecv:
			if m.t["ch"] != nil && sym(e.Ch) == sym(m.t["ch"]) {
				if !e.Sel {
					bad("uncancelable", "receiving does not end with the context")
				}
				got(e.Res)
				m.n["next"] = 1
			} else if isDoneChan(e.Ch, ctx) {
				m.n["cancelled"] = 1
			} else if !e.Sel {
				bad("blocks", "receiving waits for %s", showT(e.Ch))
			}
		case e.Kind == EvStore && e.Addr == cmd:
			c.at("receive", e.In)
			m.t["cmdv"] = e.Val
			if s.facts.nilEval(cmd) != 0 {
				bad("cmd nil", "the command is stored although the caller may not have asked for it")
			}
		case e.Kind == EvCall && e.Name == fnUnmarshal:
			c.at("receive", e.In)
			if sym(e.Args[1]) != msg {
				bad("variable", "the message is decoded into %s, not the caller's variable", showT(e.Args[1]))
			}
			f := m.t["f"]
			if m.n["got"] == 0 {
				// the request itself
				src := sym(e.Args[0])
				if p.client || src == nil || lastField(src) == nil || lastField(src).Name() != "Payload" || !through(src, recv) {
					bad("payload", "what is decoded is %s, which was not received", showT(e.Args[0]))
				}
				if m.t["hasv"] == nil || s.facts.eval(m.t["hasv"]) != 0 {
					bad("order", "the request is received again")
				}
				if s.facts.eval(s.load(vField(recv, p.got), p.got.Type())) != 1 {
					bad("repeats", "the request would be received again")
				}
			} else {
				if sym(e.Args[0]) != sym(s.load(vField(f, fPay), fPay.Type())) && !(lastField(e.Args[0]) == fPay && through(e.Args[0], f)) {
					bad("payload", "what is decoded is %s", showT(e.Args[0]))
				}
				if m.n["next"] == 1 && s.facts.nilEval(f) != 0 {
					bad("ended", "a message is decoded although the stream may have ended")
				}
				if m.n["fresh"] == 1 && (m.t["gerr"] == nil || s.facts.nilEval(m.t["gerr"]) != 1) {
					bad("failed", "a message is decoded although receiving may have failed")
				}
			}
			if m.n["dec"] > 0 {
				bad("twice", "a message is decoded twice")
			}
			m.n["dec"] = 1
			m.t["derr"] = resultErr(e)
			// the command was reported before or is after: looked at on return
			m.t["payload"] = sym(e.Args[0])
		case e.Kind == EvReturn:
			c.ob("receive", p.recvT)
			if len(s.locks) > 0 {
				bad("unlock", "a lock stays held")
			}
			if m.n["dec"] == 1 {
				if !s.sameErr(resultErr(e), m.t["derr"]) {
					bad("result", "the outcome of decoding is not reported")
				}
				if s.facts.nilEval(cmd) != 1 {
					v := m.t["cmdv"]
					if v == nil {
						bad("cmd", "the command of the message is not reported")
					} else if lf := lastField(sym(v)); lf == nil || lf.Name() != "Cmd" || m.n["got"] == 1 && !through(v, m.t["f"]) || m.n["got"] == 0 && !through(v, recv) {
						bad("cmd", "the command reported is %s", showT(v))
					}
				}
			} else if !s.refuses(e) {
				bad("nothing", "nothing is received and no error is known to be reported (%s)", showT(resultErr(e)))
			} else if m.n["got"] == 1 && !(m.n["next"] == 1 && s.facts.nilEval(m.t["f"]) == 1) && !(m.n["fresh"] == 1 && m.t["gerr"] != nil && s.facts.nilEval(m.t["gerr"]) == 0) {
				bad("lost", "a frame is received and not given to the caller")
			} else if !p.client && m.n["marked"] == 1 {
				bad("lost", "the request counts as received and is not given to the caller")
			}
			if m.n["fresh"] == 1 && m.t["gerr"] != nil && s.facts.nilEval(m.t["gerr"]) != 0 && m.t["kept"] != m.t["f"] {
				bad("unkept", "the first frame is not kept: later ones are never received")
			}
		}
	}))
}

func isDoneChan(ch, ctx *V) bool {
	ch = sym(ch)
	return ch != nil && ch.k == KPure && ch.aux == "done" && sym(ch.args[0]) == ctx
}

// c28wiring: new pipes and the pipes handlers are given.
func c28wiring(c *Check, cl, sv *pipeEnd) {
	cst, sst := c.p.typ("channel", cl.name), c.p.typ("channel", sv.name)
	tr := c.p.typ("channel", "clientTransport")
	if cst == nil || sst == nil || tr == nil {
		return
	}
	// fields of an object by type
	fieldsOf := func(t types.Type, want func(types.Type) bool) []*types.Var {
		var r []*types.Var
		u, ok := t.Underlying().(*types.Struct)
		for i := 0; ok && i < u.NumFields(); i++ {
			if f := u.Field(i); want(f.Type()) {
				r = append(r, f)
			}
		}
		return r
	}
	isT := func(t types.Type) func(types.Type) bool {
		return func(x types.Type) bool { return types.Identical(x, t) }
	}
	named := func(n string) func(types.Type) bool {
		return func(x types.Type) bool {
			return types.TypeString(x, func(p *types.Package) string { return p.Name() }) == n
		}
	}
	empty := func(s *State, e *Event, k string, obj *V, t types.Type, want func(types.Type) bool) {
		for _, f := range fieldsOf(t, want) {
			v := s.load(vField(obj, f), f.Type())
			if !v.isZeroC() && s.facts.nilEval(v) != 1 && s.facts.eval(v) != 0 {
				c.bad("wiring", k+" "+f.Name(), e.In, s, "a new pipe starts with %s set to %s", f.Name(), showT(v))
			}
		}
	}
	objOfType := func(v *V, t types.Type) *V {
		if v == nil {
			return nil
		}
		x := sym(v)
		if p, ok := x.typ.(*types.Pointer); ok && types.Identical(p.Elem(), t) {
			return x
		}
		return nil
	}
	// the initiator an object leads to
	initiator := func(s *State, obj *V, t types.Type) *V {
		for _, f := range fieldsOf(t, named("qrpc.StreamInitiator")) {
			return s.load(vField(obj, f), f.Type())
		}
		for _, f := range fieldsOf(t, isT(types.NewPointer(tr))) {
			x := s.load(vField(obj, f), f.Type())
			for _, g := range fieldsOf(tr, named("qrpc.StreamInitiator")) {
				return s.load(vField(x, g), g.Type())
			}
		}
		return nil
	}
	zero := func(x types.Type) bool {
		return named("qrpc.StreamWriter")(x) || named("qrpc.Response")(x) || named("*qrpc.Frame")(x) || isBasic(x, types.IsBoolean)
	}
	if fn := c.fn("channel.clientTransport.Pipe"); fn != nil {
		recv := params(fn)[0]
		c.explore(Config{NoKill: true}, fn, []*V{recv}, nil, newM("pipe", func(m *M, s *State, e *Event) {
			bad := func(k, format string, a ...interface{}) { c.bad("wiring", "pipe "+k, e.In, s, format, a...) }
			switch {
			case e.Kind == EvCall && strings.HasSuffix(e.Name, ".IsClosed"):
				m.t["closed"] = e.Res
				if sym(e.Args[0]) != sym(initiator(s, recv, tr)) {
					bad("other", "the connection looked at is %s", showT(e.Args[0]))
				}
			case e.Kind == EvCall && strings.HasSuffix(e.Name, ".StreamRequest"):
				bad("opens", "a new pipe opens a stream before anything is sent")
			case e.Kind == EvReturn:
				c.ob("wiring", "pipe")
				if len(e.Args) != 3 {
					return
				}
				if s.refuses(e) {
					if m.t["closed"] != nil && s.facts.eval(m.t["closed"]) != 1 {
						bad("refused", "a pipe is refused although the connection may be usable")
					}
					return
				}
				if m.t["closed"] == nil || s.facts.eval(m.t["closed"]) != 0 {
					bad("closed", "a pipe is given on a connection which may be closed")
				}
				snd, rcv := objOfType(e.Args[0], cst), objOfType(e.Args[1], c.p.typ("channel", cl.recvT))
				if snd == nil || rcv == nil || !isAllocRoot(snd) || !isAllocRoot(rcv) {
					bad("new", "the sender %s or the receiver %s of a pipe is not a new one", showT(e.Args[0]), showT(e.Args[1]))
					return
				}
				empty(s, e, "pipe", snd, cst, zero)
				if sym(initiator(s, snd, cst)) != sym(initiator(s, recv, tr)) {
					bad("initiator", "the pipe uses %s", showT(initiator(s, snd, cst)))
				}
				linked := false
				for _, f := range fieldsOf(c.p.typ("channel", cl.recvT), isT(types.NewPointer(cst))) {
					linked = sym(s.load(vField(rcv, f), f.Type())) == snd
				}
				if !linked {
					bad("linked", "the receiver of a pipe belongs to another sender")
				}
			}
		}))
	}
	if fn := c.fn("channel.ServeHandler.ServeQRPC"); fn != nil && len(fn.Params) == 3 {
		a := params(fn)
		recv, w, frame := a[0], a[1], a[2]
		c.explore(Config{NoKill: true, KeepPre: true, Opaque: opaqueSet("qrpc.RequestFrame.StreamInitiator")}, fn, a, nil, newM("serve", func(m *M, s *State, e *Event) {
			bad := func(k, format string, a ...interface{}) { c.bad("wiring", "serve "+k, e.In, s, format, a...) }
			switch {
			case e.Kind == EvCall && e.Name == "qrpc.RequestFrame.StreamInitiator":
				m.t["init"] = e.Res
				if sym(e.Args[0]) != frame {
					bad("initiator", "the initiator is the one of %s", showT(e.Args[0]))
				}
			case e.Kind == EvCall && strings.HasSuffix(e.Name, ".ServeSRT"):
				c.at("wiring", e.In)
				m.n["served"]++
				if e.Pre != nil {
					defer func(mem map[*V]*V) { s.mem = mem }(s.mem)
					s.mem = e.Pre
				}
				if !through(e.Args[0], recv) {
					bad("handler", "what is served with is %s", showT(e.Args[0]))
				}
				snd, rcv, t := objOfType(e.Args[1], sst), objOfType(e.Args[2], c.p.typ("channel", sv.recvT)), objOfType(e.Args[3], tr)
				if snd == nil || rcv == nil || t == nil || !isAllocRoot(snd) || !isAllocRoot(rcv) {
					bad("new", "the handler is given %s, %s and %s", showT(e.Args[1]), showT(e.Args[2]), showT(e.Args[3]))
					return
				}
				if sym(s.load(vField(snd, sv.writer), sv.writer.Type())) != w {
					bad("writer", "the handler's sender writes elsewhere")
				}
				if sym(s.load(vField(snd, sv.frame), sv.frame.Type())) != frame {
					bad("frame", "the handler's sender answers another request")
				}
				for _, f := range fieldsOf(c.p.typ("channel", sv.recvT), named("*qrpc.RequestFrame")) {
					if sym(s.load(vField(rcv, f), f.Type())) != frame {
						bad("receiver", "the handler's receiver receives another request")
					}
				}
				empty(s, e, "serve", snd, sst, zero)
				empty(s, e, "serve", rcv, c.p.typ("channel", sv.recvT), zero)
				if m.t["init"] == nil || sym(initiator(s, t, tr)) != sym(m.t["init"]) {
					bad("transport", "the handler's transport uses %s", showT(initiator(s, t, tr)))
				}
			case e.Kind == EvReturn:
				c.ob("wiring", "serve")
				if m.n["served"] != 1 {
					bad("served", "the handler is called %d times for a request", m.n["served"])
				}
			}
		}))
	}
	if fn := c.fn("channel.NewQRPCHandler"); fn != nil {
		h := params(fn)[0]
		c.explore(Config{NoKill: true}, fn, []*V{h}, nil, newM("handler", func(m *M, s *State, e *Event) {
			if e.Kind != EvReturn {
				return
			}
			c.ob("wiring", "handler")
			sh := c.p.typ("channel", "ServeHandler")
			x := objOfType(e.Res, sh)
			ok := false
			for _, f := range fieldsOf(sh, named("channel.Handler")) {
				ok = x != nil && sym(s.load(vField(x, f), f.Type())) == h
			}
			if !ok {
				c.bad("wiring", "handler", e.In, s, "the handler made does not serve with the one given")
			}
		}))
	}
	if fn := c.fn("channel.HandlerFunc.ServeSRT"); fn != nil && len(fn.Params) == 4 {
		a := params(fn)
		c.explore(Config{NoKill: true}, fn, a, nil, newM("func", func(m *M, s *State, e *Event) {
			switch e.Kind {
			case EvUser:
				c.at("wiring", e.In)
				m.n["n"]++
				if sym(e.Val) != a[0] || len(e.Args) != 3 || sym(e.Args[0]) != a[1] || sym(e.Args[1]) != a[2] || sym(e.Args[2]) != a[3] {
					c.bad("wiring", "func", e.In, s, "the function is not called with what the handler was given")
				}
			case EvReturn:
				if m.n["n"] != 1 {
					c.bad("wiring", "func count", e.In, s, "the function is called %d times", m.n["n"])
				}
			}
		}))
	}
	if fn := c.fn("channel.NewTransport"); fn != nil {
		p := params(fn)[0]
		c.explore(Config{NoKill: true}, fn, []*V{p}, nil, newM("transport", func(m *M, s *State, e *Event) {
			if e.Kind == EvReturn {
				c.ob("wiring", "transport")
				if t := objOfType(e.Res, tr); t == nil || sym(initiator(s, t, tr)) != p {
					c.bad("wiring", "transport", e.In, s, "the transport made does not use what it is made for")
				}
			}
		}))
	}
}

// c28marshal: values which marshal themselves do, all others are JSON; results and errors are handed through.
func c28marshal(c *Check) {
	for _, x := range []struct{ fn, self, json string }{{fnMarshal, ".Marshal", "json.Marshal"}, {fnUnmarshal, ".Unmarshal", "json.Unmarshal"}} {
		x := x
		fn := c.fn(x.fn)
		if fn == nil {
			continue
		}
		a := params(fn)
		msg := a[len(a)-1]
		c.explore(Config{NoKill: true}, fn, a, nil, newM("marshal", func(m *M, s *State, e *Event) {
			bad := func(k, format string, y ...interface{}) { c.bad("marshal", x.fn+" "+k, e.In, s, format, y...) }
			switch {
			case e.Kind == EvCall && strings.HasSuffix(e.Name, x.json):
				c.at("marshal", e.In)
				m.n["calls"]++
				m.t["res"] = e.Res
				if v := e.Args[len(e.Args)-1]; sym(v) != msg || len(a) > 1 && sym(e.Args[0]) != a[0] {
					bad("what", "what is given to %s is %s", e.Name, showT(v))
				}
				if m.n["asked"] == 0 {
					bad("choice", "a value is treated as JSON without asking whether it marshals itself")
				}
			case e.Kind == EvCall && strings.HasSuffix(e.Name, x.self):
				c.at("marshal", e.In)
				m.n["calls"]++
				m.t["res"] = e.Res
				if connBelow(e.Args[0]) != msg || len(a) > 1 && sym(e.Args[1]) != a[0] {
					bad("self", "what marshals itself is %s", showT(e.Args[0]))
				}
			case e.Kind == EvBranch:
				m.n["asked"] = 1
			case e.Kind == EvReturn:
				c.ob("marshal", x.fn)
				if m.n["calls"] != 1 {
					bad("calls", "a value is marshalled %d times", m.n["calls"])
					return
				}
				r := m.t["res"]
				if r.k != KTuple {
					if sym(e.Args[0]) != sym(r) && !s.sameErr(e.Args[0], r) {
						bad("result", "the outcome is not reported")
					}
					return
				}
				if !s.sameErr(e.Args[1], r.args[1]) || sym(e.Args[0]) != sym(r.args[0]) && s.facts.nilEval(r.args[1]) != 0 {
					bad("result", "the outcome is not reported")
				}
			}
		}))
	}
}

// c28writer: frames of the stream writer carry the id, markers, command and payload they were given (the
// rules of C01, C04 and C05 which concern stream writers).
func c28writer(c *Check) {
	keep := func(rule, construct string) bool { return strings.Contains(strings.ToLower(construct), "stream") }
	c.sub(keep, c01)
	c.sub(keep, c04)
	c.sub(func(rule, construct string) bool { return rule == "stream-end" || rule == "unsent-end" }, c05)
}

// sym: the value with interface wrappers removed, nil if there is none.
func sym(v *V) *V {
	if v == nil {
		return nil
	}
	return strip(v)
}

// objectOf: the object an address is a part of.
func objectOf(a *V) *V {
	for a != nil && a.k == KField {
		a = a.args[0]
	}
	return a
}
