package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C08", "path typestate of one submitted request: from the queue to its single result on both sides, through batching (one arbitrary request tracked through batches of any length), abort and drain; the write turn is released on every path that does not end the connection; the turn's holder takes enough requests to reach its own", c08)
	reg("C09", "ownership typestate of pooled objects: write requests go back to the pool at most once, after their result, untouched afterwards; frame writers only when not abandoned to the queue; read buffers once, by the reading loop that owns them", c09)
	reg("C34", "path typestate of the write turn: bytes go to the network only with the turn held (server) or in the one writing goroutine (client), whole batches in queue order; the turn is kept for good after a failed batch; no other function reaches the connection's writes", c34)
}

const (
	fnCollectS = "qrpc.serveconn.collectWriteFrames"
	fnCollectC = "qrpc.Connection.collectWriteFrames"
	fnBatchS   = "qrpc.serveconn.writeBuffers"
	fnBatchC   = "qrpc.Connection.writeBuffers"
	fnNetBatch = "qrpc.Writer.writeBuffers"
)

// connDone: a context of the connection (fields named) is known to be done.
func (s *State) connDone(fields ...string) bool {
	for t, b := range s.facts.b {
		if b && t.k == KPure && t.aux == "isdone" {
			for _, f := range fields {
				if ctxOfConn(s, t.args[0], f) {
					return true
				}
			}
		}
	}
	return false
}

// doneThrough: a context reached from x is known to be done.
func (s *State) doneThrough(x *V) bool {
	for t, b := range s.facts.b {
		if b && t.k == KPure && t.aux == "isdone" && through(t.args[0], x) {
			return true
		}
	}
	return false
}

type writeFields struct {
	dfw, res, ab, ch, turn, resp, wbuf *types.Var
}

func (c *Check) writeFields() *writeFields {
	w := &writeFields{
		dfw: c.field("", "writeFrameRequest", "dfw"), res: c.field("", "writeFrameRequest", "result"),
		ab: c.field("", "defaultFrameWriter", "abandoned"), turn: c.field("", "serveconn", "wlockCh"),
		resp: c.field("", "defaultFrameWriter", "resp"), wbuf: c.field("", "defaultFrameWriter", "wbuf"),
	}
	if w.dfw == nil || w.res == nil || w.ab == nil || w.turn == nil || w.resp == nil || w.wbuf == nil {
		return nil
	}
	return w
}

// submissions follows one write request through writeFrameBytes of both sides and reports for C08, C09 or C34.
func (c *Check) submissions(prop string) {
	w := c.writeFields()
	if w == nil {
		return
	}
	reqT := types.NewPointer(c.p.typ("", "writeFrameRequest"))
	for _, side := range []string{"serveconn", "Connection"} {
		side := side
		name := "qrpc." + side + ".writeFrameBytes"
		fn := c.fn(name)
		fCh := c.field("", side, "writeFrameCh")
		if fn == nil || fCh == nil {
			continue
		}
		fRec := c.p.field("", "Connection", "reconnect")
		recv := vSym(fn.Params[0].Name(), fn.Params[0].Type())
		dfw := vSym(fn.Params[1].Name(), fn.Params[1].Type())
		collects := 0
		c.explore(Config{NoKill: true, Opaque: opaqueSet(fnCollectS, fnCollectC, fnBatchS, fnBatchC, "qrpc.serveconn.Close")}, fn, []*V{recv, dfw}, nil, newM("submit", func(m *M, s *State, e *Event) {
			bad := func(p, rule, k, format string, a ...interface{}) {
				if p == prop {
					c.bad(rule, name+" "+k, e.In, s, format, a...)
				}
			}
			req := m.t["req"]
			if m.n["put"] > 0 && req != nil && (e.Addr != nil && through(e.Addr, req) || e.Ch != nil && through(e.Ch, req)) && e.Kind != EvBranch {
				bad("C09", "request-recycling", "after", "a write request is used after it went back to the pool")
			}
			switch {
			case e.Kind == EvCall && e.Name == "sync.Pool.Get":
				if m.t["req"] == nil {
					m.t["req"] = vAssert(strip(e.Res), reqT)
				}
			case e.Kind == EvSend && lastField(e.Ch) == fCh:
				m.n["enq"]++
				if m.n["enq"] > 1 {
					bad("C08", "submission", "twice", "one write is put into the queue twice")
				}
				if strip(e.Val) != req {
					bad("C08", "submission", "value", "what is put into the queue is %s, not the request of this write", e.Val)
				} else if d := s.load(vField(req, w.dfw), w.dfw.Type()); strip(d) != dfw {
					bad("C08", "submission", "frame", "the request put into the queue carries %s, not the frame to write", d)
				}
			case e.Kind == EvRecv && req != nil && strip(e.Ch) == s.load(vField(req, w.res), w.res.Type()):
				if m.n["enq"] == 0 {
					break // a stale result is dropped
				}
				m.n["got"]++
				m.t["result"] = e.Res
			case e.Kind == EvCall && e.Name == "sync.Pool.Put" && req != nil && strip(e.Args[len(e.Args)-1]) == req:
				m.n["put"]++
				if prop == "C09" {
					c.at("request-recycling", e.In)
				}
				if m.n["put"] > 1 {
					bad("C09", "request-recycling", "twice", "a write request goes back to the pool twice")
				}
				if m.n["enq"] == 1 && m.n["got"] == 0 {
					bad("C09", "request-recycling", "queued", "a write request goes back to the pool while the queue or the batch still holds it")
				}
			case e.Kind == EvStore && e.Addr == vField(dfw, w.ab):
				m.n["ab"] = b2i(s.facts.eval(e.Val) == 1)
			case e.Kind == EvAtomic && e.Op == "load" && lastField(strip(e.Addr)) != nil && lastField(strip(e.Addr)).Name() == "loopCtx":
				m.t["loop"] = e.Res
			case e.Kind == EvSend && lastField(e.Ch) == w.turn:
				m.n["turn"]++
				if prop != "C09" {
					c.at("write-turn", e.In)
				}
			case e.Kind == EvRecv && lastField(e.Ch) == w.turn:
				m.n["rel"]++
				if m.n["rel"] > m.n["turn"] {
					bad("C08", "write-turn", "stolen", "the write turn of somebody else is given away")
					bad("C34", "write-turn", "stolen", "the write turn of somebody else is given away: two goroutines may write at a time")
				}
				if m.n["col"] > 0 {
					if v := m.t["werr"]; v == nil || s.facts.nilEval(v) != 1 {
						bad("C34", "write-turn", "failed batch", "the turn is given up after a batch that may not be written completely: other frames would follow a partial one")
					}
				}
			case e.Kind == EvCall && (e.Name == fnCollectS || e.Name == fnCollectC):
				collects++
				m.n["col"]++
				m.t["cerr"] = e.Res
				if m.n["turn"] != 1 || m.n["rel"] != 0 {
					bad("C34", "write-turn", "collect", "a batch is collected without holding the write turn")
				}
				if m.n["enq"] == 0 {
					bad("C08", "submission", "order", "the turn's holder collects a batch before its own request is in the queue")
				}
			case e.Kind == EvCall && (e.Name == fnBatchS || e.Name == fnBatchC):
				m.n["wr"]++
				m.t["werr"] = e.Res
				if prop == "C34" {
					c.at("batch-write", e.In)
				}
				if m.n["turn"] != 1 || m.n["rel"] != 0 {
					bad("C34", "batch-write", "turn", "a batch is written without holding the write turn")
				}
				if m.n["wr"] > 1 {
					bad("C34", "batch-write", "twice", "one batch is written twice")
				}
			case e.Kind == EvPanicExit:
				bad("C08", "submission", "panic", "submitting a write panics")
			case e.Kind == EvReturn:
				r := e.Args[0]
				if prop == "C09" {
					c.ob("abandoned-writers", name)
				} else {
					c.ob("submission", name)
				}
				switch {
				case m.n["enq"] == 0:
					if s.facts.nilEval(r) != 0 {
						bad("C08", "submission", "not queued", "a write that never got into the queue may be reported successful (%s)", r)
					}
				case m.n["got"] > 0:
					if r != m.t["result"] {
						bad("C08", "submission", "result", "the outcome reported is %s, the result received %s", r, m.t["result"])
					}
					if m.n["got"] > 1 {
						bad("C08", "submission", "results", "two results are awaited for one write")
					}
				default:
					if m.n["ab"] != 1 {
						bad("C09", "abandoned-writers", "mark", "the write gives up while its request is still queued and the frame writer is not marked as abandoned: it would be recycled under the queue's feet")
					}
					if s.facts.nilEval(r) != 0 {
						bad("C08", "submission", "given up", "a write given up reports %s, which may be success", r)
					}
					ok := false
					if side == "serveconn" {
						ok = s.connDone("ctx")
					} else {
						ok = s.connDone("ctx")
						if fRec != nil && s.facts.eval(s.load(vField(recv, fRec), fRec.Type())) == 0 {
							ok = ok || s.connDone("loopCtx") || m.t["loop"] != nil && s.doneThrough(m.t["loop"])
						}
					}
					// a failed collection means the same: the collector only fails when the connection ended
					if v := m.t["cerr"]; v != nil && s.facts.nilEval(v) == 0 {
						ok = true
					}
					if !ok {
						bad("C08", "submission", "early", "a write gives up waiting for its result although its connection has not ended and the frame may still be sent")
					}
				}
				if m.n["col"] > 0 && s.facts.nilEval(m.t["cerr"]) != 0 && m.n["wr"] != 1 && m.n["wr"] != 0 {
					break
				}
				if m.n["col"] > 0 && s.facts.nilEval(m.t["cerr"]) != 0 && s.facts.nilEval(m.t["cerr"]) < 0 {
					bad("C08", "batch-outcome", "unexamined", "whether the collection of the batch failed is not examined")
				}
				if m.n["col"] > 0 && s.facts.nilEval(m.t["cerr"]) == 1 && m.n["wr"] != 1 {
					bad("C08", "batch-outcome", "lost", "a batch collected is written %d times", m.n["wr"])
				}
				if m.n["turn"] > 1 {
					bad("C08", "write-turn", "again", "the write turn is taken again by its holder")
				}
				if m.n["turn"] == 1 && m.n["rel"] == 0 {
					failed := func(k string) bool { return m.t[k] != nil && s.facts.nilEval(m.t[k]) == 0 }
					if !s.connDone("ctx") && !failed("werr") && !failed("cerr") {
						bad("C08", "write-turn", "lost", "the write turn is not given back although the connection goes on: nobody can write any more")
					}
				}
			}
		}))
		if side == "serveconn" && collects == 0 && fn != nil && prop != "C09" {
			c.report("write-turn", name, c.p.pos(fn.Pos()), "the submitter that gets the write turn collects no batch: nobody writes", nil)
		}
	}
}

func c08(c *Check) {
	c.submissions("C08")
	c.floor("submission")
	c.floor("write-turn")
	w := c.writeFields()
	if w == nil {
		return
	}
	reqT := types.NewPointer(c.p.typ("", "writeFrameRequest"))
	req := vSym("#req", reqT)
	for _, side := range []string{"serveconn", "Connection"} {
		side := side
		fCh, fReqs := c.field("", side, "writeFrameCh"), c.field("", side, "cachedRequests")
		if fCh == nil || fReqs == nil {
			continue
		}
		ctxF := "ctx"
		if side == "Connection" {
			ctxF = "loopCtx"
		}
		c.collector(side, ctxF, w, fCh, fReqs, req)
		c.batchOutcome(side, w, fReqs, req)
	}
	c.floor("batch-result")
	c.floor("collect-outcome")
	c.reach(w)
	c.clientWriter()
	c.drain(w)
	c.queueRoom()
	c.receivers()
}

// collector: outcome of each request received, and of those in the batch when the collection fails.
func (c *Check) collector(side, ctxF string, w *writeFields, fCh, fReqs *types.Var, req *V) {
	name := "qrpc." + side + ".collectWriteFrames"
	fn := c.fn(name)
	if fn == nil {
		return
	}
	recv := vSym(fn.Params[0].Name(), fn.Params[0].Type())
	fRec := c.field("", "Connection", "reconnect")
	c.exploreInit(Config{NoKill: true, Opaque: opaqueSet(fnGetStream, fnCreate, fnAddOut), Pick: pickFrom(fCh, req)}, fn, []*V{recv}, nil, func(s *State) {
		s.facts.assume(vNot(vIsNil(s.load(vField(req, w.res), w.res.Type()))), true)
	}, newM("collect", func(m *M, s *State, e *Event) {
		m.t["#"] = req
		switch {
		case e.Kind == EvRecv && e.Res == req:
			m.n["got"] = 1
		case e.Kind == EvSend && lastField(e.Ch) == w.res && through(e.Ch, req):
			m.n["res"]++
			if m.n["res"] > 1 {
				c.bad("collect-outcome", name+" twice", e.In, s, "a request taken from the queue is answered twice")
			}
		case e.Kind == EvAppend && len(e.Args) > 1:
			n, _ := vLen(e.Args[1]).intC()
			for i := int64(0); i < n && i < 4; i++ {
				if v := s.mem[vIdx(e.Args[1], vInt(i))]; v != nil && strip(v) == req {
					m.n["in"]++
				}
			}
		case e.Kind == EvPanicExit:
			c.bad("collect-outcome", name+" panic", e.In, s, "collecting a batch panics")
		case e.Kind == EvReturn:
			err := e.Args[0]
			if m.n["got"] == 1 {
				c.ob("collect-outcome", name)
			}
			switch s.facts.nilEval(err) {
			case 1:
				if m.n["got"] == 1 && m.n["res"]+m.n["in"] != 1 {
					c.bad("collect-outcome", name, e.In, s, "a request taken from the queue is answered %d times and put into the batch %d times", m.n["res"], m.n["in"])
				}
			case 0:
				if !s.connDone(ctxF) {
					c.bad("collect-outcome", name+" failure", e.In, s, "the collection fails although the connection has not ended")
				}
				if side == "Connection" && m.n["got"] == 1 && m.n["res"] != 1 && s.facts.eval(s.load(vField(recv, fRec), fRec.Type())) != 0 {
					c.bad("collect-outcome", name+" abort", e.In, s, "a batch is given up at the end of a connection that reconnects and one of its requests is answered %d times: its submitter waits for ever", m.n["res"])
				}
			default:
				c.bad("collect-outcome", name+" result", e.In, s, "whether the collection succeeded is not decided")
			}
		}
	}))
	if side != "serveconn" {
		return
	}
	// the holder of the turn reaches its own request
	for n := int64(1); n <= 3; n++ {
		n := n
		c.explore(Config{NoKill: true, Opaque: opaqueSet(fnGetStream, fnCreate, fnAddOut)}, fn, []*V{recv, vInt(n)}, nil, newM("reach", func(m *M, s *State, e *Event) {
			switch {
			case e.Kind == EvSelect:
				m.n["block"] = b2i(e.Blocking)
				m.n["took"] = 0
			case e.Kind == EvRecv && lastField(e.Ch) == fCh:
				m.n["n"]++
				m.n["took"] = 1
				if m.n["n"] > int(n)+1 {
					s.dead = true
				}
			case e.Kind == EvReturn && s.facts.nilEval(e.Args[0]) == 1:
				c.ob("reaches-own", name)
				if m.n["took"] == 1 && m.n["n"] < int(n) {
					c.bad("reaches-own", name, e.In, s, "asked for %d requests the collector stops after %d although the queue may hold more: the holder of the turn may wait for its own request for ever", n, m.n["n"])
				}
			}
		}))
	}
	c.floor("reaches-own")
}

// batchOutcome: each request of the batch gets one result on every path of the batch write.
func (c *Check) batchOutcome(side string, w *writeFields, fReqs *types.Var, req *V) {
	name := "qrpc." + side + ".writeBuffers"
	fn := c.fn(name)
	if fn == nil {
		return
	}
	recv := vSym(fn.Params[0].Name(), fn.Params[0].Type())
	c.exploreInit(Config{NoKill: true, Opaque: opaqueSet(fnNetBatch, "qrpc.serveconn.Close", "qrpc.Server.untrack")}, fn, []*V{recv}, nil, func(s *State) {
		s.memb = append(s.memb, memb{s.load(vField(recv, fReqs), fReqs.Type()), req})
		s.facts.assume(vNot(vIsNil(s.load(vField(req, w.res), w.res.Type()))), true)
	}, newM("outcome", func(m *M, s *State, e *Event) {
		m.t["#"] = req
		switch {
		case e.Kind == EvMapLookup && e.Op == "hit":
			s.dead = true // ids are unique (C13): a request is never registered already
		case e.Kind == EvCall && e.Name == fnNetBatch:
			m.n["net"]++
			m.t["nerr"] = e.Res.args[1]
		case e.Kind == EvSend && lastField(e.Ch) == w.res && through(e.Ch, req):
			m.n["res"]++
			if m.n["res"] > 1 {
				c.bad("batch-result", name+" twice", e.In, s, "a request of the batch is answered twice")
			}
			if m.n["net"] == 0 && s.facts.nilEval(e.Val) != 0 {
				c.bad("batch-result", name+" early", e.In, s, "a request is reported successful before the batch is written")
			}
		case e.Kind == EvPanicExit:
			c.bad("batch-result", name+" panic", e.In, s, "writing a batch panics")
		case e.Kind == EvReturn:
			c.ob("batch-result", name)
			if m.n["res"] != 1 {
				c.bad("batch-result", name, e.In, s, "a request of the batch is answered %d times", m.n["res"])
			}
			err := e.Args[0]
			if v := m.t["nerr"]; v != nil && s.facts.nilEval(v) != 1 && s.facts.nilEval(err) != 0 {
				c.bad("batch-result", name+" error", e.In, s, "the network write may have failed (%s) and the batch write reports %s", v, err)
			}
			if s.facts.nilEval(err) == 1 && m.n["net"] != 1 {
				c.bad("batch-result", name+" unwritten", e.In, s, "the batch write succeeds after %d network writes", m.n["net"])
			}
		}
	}))
}

// reach: on the server a failed batch ends the connection, so that those waiting for the turn come back.
func (c *Check) reach(w *writeFields) {
	name := fnBatchS
	fn := c.fn(name)
	fClosed := c.field("", "ConnectionInfo", "closed")
	fCancel := c.field("", "serveconn", "cancelCtx")
	if fn == nil || fClosed == nil || fCancel == nil {
		return
	}
	c.explore(Config{NoKill: true, Opaque: opaqueSet(fnNetBatch, "qrpc.serveconn.Close", "qrpc.Server.untrack")}, fn, nil, nil, newM("fail", func(m *M, s *State, e *Event) {
		switch {
		case e.Kind == EvLoad && e.Field == fClosed:
			m.t["closed"] = e.Val
		case e.Kind == EvUser && lastField(e.Val) == fCancel, e.Kind == EvCall && e.Name == "cancel":
			m.n["cancel"] = 1
		case e.Kind == EvReturn && s.facts.nilEval(e.Args[0]) != 1:
			c.ob("failure-ends-connection", name)
			if m.n["cancel"] == 0 && !(m.t["closed"] != nil && s.facts.eval(m.t["closed"]) == 1) {
				c.bad("failure-ends-connection", name, e.In, s, "a failed batch keeps the write turn and does not end the connection: later writers wait for ever")
			}
		}
	}))
	c.floor("failure-ends-connection")
}

// clientWriter: the client's writing goroutine writes what it collects, and its end ends the connection.
func (c *Check) clientWriter() {
	name := "qrpc.Connection.writeFrames"
	fn := c.fn(name)
	if fn == nil {
		return
	}
	c.explore(Config{NoKill: true, Opaque: opaqueSet(fnCollectC, fnBatchC)}, fn, nil, nil, newM("writer", func(m *M, s *State, e *Event) {
		switch {
		case e.Kind == EvCall && e.Name == fnCollectC:
			if m.n["open"] == 1 {
				c.bad("client-writer", name+" lost", e.In, s, "a batch is collected while the one before may not be written")
			}
			if v := m.t["werr"]; v != nil && s.facts.nilEval(v) != 1 {
				c.bad("client-writer", name+" after failure", e.In, s, "writing goes on after a failed batch")
			}
			m.n["open"], m.t["cerr"], m.t["werr"] = 1, e.Res, nil
		case e.Kind == EvCall && e.Name == fnBatchC:
			c.at("client-writer", e.In)
			if m.n["open"] != 1 || s.facts.nilEval(m.t["cerr"]) != 1 {
				c.bad("client-writer", name+" uncollected", e.In, s, "a batch is written that was not collected successfully")
			}
			m.n["open"], m.t["werr"] = 0, e.Res
		case (e.Kind == EvUser || e.Kind == EvCall) && (e.Name == "cancel" || lastField(e.Val) != nil && lastField(e.Val).Name() == "loopCancelCtx"):
			m.n["cancel"] = 1
		case e.Kind == EvReturn || e.Kind == EvPanicExit:
			if e.Kind == EvReturn && m.n["open"] == 1 && s.facts.nilEval(m.t["cerr"]) != 0 {
				c.bad("client-writer", name+" batch", e.In, s, "the writing goroutine ends with a batch collected and not written")
			}
			if m.n["cancel"] == 0 {
				c.bad("client-writer", name+" end", e.In, s, "the writing goroutine ends without ending the connection: later writers wait for ever")
			}
		}
	}))
	c.floor("client-writer")
}

// drain: what is queued while a client connection ends is answered, until all its goroutines are gone.
func (c *Check) drain(w *writeFields) {
	name := "qrpc.Connection.waitLoop"
	fn := c.fn(name)
	fCh := c.field("", "Connection", "writeFrameCh")
	fWG := c.field("", "Connection", "loopWG")
	if fn == nil || fCh == nil || fWG == nil {
		return
	}
	waiters := map[*V]bool{}
	c.explore(Config{NoKill: true, FollowGo: func(e *Event) bool { return true }, Opaque: opaqueSet(fnRelease)}, fn, nil, nil, newM("drain", func(m *M, s *State, e *Event) {
		settle := func() {
			if m.t["req"] != nil && m.n["res"] != 1 {
				c.bad("drain", name, e.In, s, "a request drained at the end of a connection is answered %d times", m.n["res"])
			}
			m.t["req"], m.n["res"] = nil, 0
		}
		switch {
		case e.Kind == EvCall && e.Name == "sync.WaitGroup.Wait" && lastWG(e, fWG):
			m.n["waited"] = 1
		case e.Kind == EvClose:
			if m.n["waited"] == 1 {
				waiters[e.Ch] = true
			} else {
				c.bad("drain", name+" signal", e.In, s, "the end of the connection's goroutines is signalled without waiting for them")
			}
		case e.Kind == EvRecv && lastField(e.Ch) == fCh:
			settle()
			c.at("drain", e.In)
			m.t["req"] = e.Res
			m.n["ended"] = 0
		case e.Kind == EvRecv:
			m.t["end"] = e.Ch
			m.n["ended"] = 1
		case e.Kind == EvSend && m.t["req"] != nil && strip(e.Ch) == s.load(vField(m.t["req"], w.res), w.res.Type()):
			m.n["res"]++
			if s.facts.nilEval(e.Val) != 0 {
				c.bad("drain", name+" success", e.In, s, "a request that was never written may be reported successful")
			}
		case e.Kind == EvReturn:
			settle()
			if m.n["waited"] == 0 && m.n["ended"] == 0 {
				c.bad("drain", name+" early", e.In, s, "draining stops before the connection's goroutines have ended: a request queued by one of them waits for ever")
			}
		}
	}))
	c.floor("drain")
	// the loop drains at the end of every cycle
	loop := c.fn("qrpc.Connection.loop")
	if loop != nil && !reaches(c.p, loop, name) {
		c.report("drain", "qrpc.Connection.loop", c.p.pos(loop.Pos()), "the connection loop never drains the queue", nil)
	}
}

// pickFrom singles out one element received from a channel held in the field.
func pickFrom(f *types.Var, x *V) func(s *State, ch *V) *V {
	return func(s *State, ch *V) *V {
		if lastField(ch) == f {
			return x
		}
		return nil
	}
}

// through: v is x, a part of it, or what a part of it refers to (indices do not count).
func through(v, x *V) bool {
	for v != nil {
		v = strip(v)
		if v == x {
			return true
		}
		switch v.k {
		case KField, KIdx, KLoad:
			v = v.args[0]
		default:
			return false
		}
	}
	return false
}

func lastWG(e *Event, f *types.Var) bool {
	for _, a := range append([]*V{e.Addr}, e.Args...) {
		if a == nil {
			continue
		}
		if lastField(a) == f || lastField(strip(a)) == f {
			return true
		}
	}
	return false
}

// queueRoom: the number of requests the turn's holder takes is the capacity of the queue, and positive.
func (c *Check) queueRoom() {
	fCh := c.field("", "serveconn", "writeFrameCh")
	fSize := c.field("", "ServerBinding", "WriteFrameChSize")
	if fCh == nil || fSize == nil {
		return
	}
	sizeOf := func(v *V) bool { return v != nil && lastField(v) == fSize }
	made := 0
	c.eachStoreOf(fCh, func(s *State, e *Event) {
		made++
		c.at("queue-room", e.In)
		v := s.mem[vPure("chancap", nil, strip(e.Val))]
		if !sizeOf(v) {
			c.bad("queue-room", "capacity", e.In, s, "the write queue has room for %v, not for the configured batch size", v)
		}
	})
	n := 0
	c.explore(Config{NoKill: true, Opaque: opaqueSet(fnCollectS, fnBatchS)}, c.fn("qrpc.serveconn.writeFrameBytes"), nil, nil, newM("batch", func(m *M, s *State, e *Event) {
		if e.Kind == EvCall && e.Name == fnCollectS {
			n++
			c.at("queue-room", e.In)
			if len(e.Args) < 2 || !sizeOf(e.Args[1]) {
				c.bad("queue-room", "batch", e.In, s, "the holder of the turn takes up to %s requests, not the capacity of the queue: its own may stay behind", e.Args[len(e.Args)-1])
			}
		}
	}))
	c.floor("queue-room")
	// NewServer leaves no binding with room for none
	ns := c.fn("qrpc.NewServer")
	if ns == nil {
		return
	}
	// (the loop over the bindings is the same for each; lists of one and two are followed)
	for n := int64(1); n <= 2; n++ {
		n := n
		bindings := vSym(ns.Params[0].Name(), ns.Params[0].Type())
		c.exploreInit(Config{NoKill: true}, ns, []*V{bindings}, nil, func(s *State) {
			s.facts.assume(vEq(vLen(bindings), vInt(n)), true)
		}, newM("size", func(m *M, s *State, e *Event) {
			if e.Kind != EvReturn {
				return
			}
			c.ob("queue-room", "qrpc.NewServer")
			for i := int64(0); i < n; i++ {
				v := s.load(vField(vIdx(bindings, vInt(i)), fSize), fSize.Type())
				if s.facts.interval(v).lo < 1 {
					c.bad("queue-room", "default", e.In, s, "the batch size of binding %d of %d may be below one: the holder of the turn takes nothing and waits for itself", i, n)
				}
			}
		}))
	}
}

// eachStoreOf explores every function that stores the field (through helpers: their callers see it too).
func (c *Check) eachStoreOf(f *types.Var, on func(s *State, e *Event)) {
	for _, fn := range c.p.Funcs {
		if len(fn.Blocks) == 0 || !storesField(fn, f) {
			continue
		}
		c.explore(Config{NoKill: true, MaxDepth: 2}, fn, nil, nil, newM("store", func(m *M, s *State, e *Event) {
			if e.Kind == EvStore && e.Field == f {
				on(s, e)
			}
		}))
	}
}

func storesField(fn *ssa.Function, f *types.Var) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok {
				st := structOfPtr(fa.X.Type())
				if st != nil && st.Field(fa.Field) == f {
					for _, r := range *fa.Referrers() {
						if sto, ok := r.(*ssa.Store); ok && sto.Addr == ssa.Value(fa) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// receivers: nobody else takes requests from the write queues.
func (c *Check) receivers() {
	for _, side := range []string{"serveconn", "Connection"} {
		fCh := c.field("", side, "writeFrameCh")
		if fCh == nil {
			continue
		}
		for _, fn := range c.p.Funcs {
			if c.funcs[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					if st := structOfPtr(fa.X.Type()); st == nil || st.Field(fa.Field) != fCh {
						continue
					}
					for _, r := range *fa.Referrers() {
						if u, ok := r.(*ssa.UnOp); ok && receivesFrom(u) {
							c.bad("receivers", fnName(fn), u, nil, "requests are taken from the write queue in a function that is not part of writing or draining")
						}
					}
				}
			}
		}
		c.ob("receivers", side)
	}
}

func receivesFrom(ch ssa.Value) bool {
	for _, r := range *ch.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
			return true
		case *ssa.Select:
			for _, st := range x.States {
				if st.Chan == ch && st.Dir == types.RecvOnly {
					return true
				}
			}
		}
	}
	return false
}

func c09(c *Check) {
	c.submissions("C09")
	c.floor("request-recycling")
	c.floor("abandoned-writers")
	w := c.writeFields()
	if w == nil {
		return
	}
	req := vSym("#req", types.NewPointer(c.p.typ("", "writeFrameRequest")))
	// a request answered is not touched again
	for _, side := range []string{"serveconn", "Connection"} {
		side := side
		fCh, fReqs := c.field("", side, "writeFrameCh"), c.field("", side, "cachedRequests")
		if fCh == nil || fReqs == nil {
			continue
		}
		for _, part := range []string{"collectWriteFrames", "writeBuffers"} {
			name := "qrpc." + side + "." + part
			fn := c.fn(name)
			if fn == nil {
				continue
			}
			recv := vSym(fn.Params[0].Name(), fn.Params[0].Type())
			batch := part == "writeBuffers"
			cfg := Config{NoKill: true, Opaque: opaqueSet(fnNetBatch, "qrpc.serveconn.Close", "qrpc.Server.untrack", fnGetStream, fnCreate, fnAddOut)}
			if !batch {
				cfg.Pick = pickFrom(fCh, req)
			}
			c.exploreInit(cfg, fn, []*V{recv}, nil, func(s *State) {
				if batch {
					s.memb = append(s.memb, memb{s.load(vField(recv, fReqs), fReqs.Type()), req})
				}
			}, newM("touch", func(m *M, s *State, e *Event) {
				m.t["#"] = req
				if e.Kind == EvMapLookup && e.Op == "hit" {
					s.dead = true // ids are unique (C13)
					return
				}
				d := s.load(vField(req, w.dfw), w.dfw.Type())
				switch e.Kind {
				case EvLoad, EvStore, EvSend, EvRecv:
					for _, a := range []*V{e.Addr, e.Ch} {
						if m.n["answered"] == 1 && a != nil && (through(a, req) || through(a, d)) {
							c.bad("after-answer", name, e.In, s, "a write request is touched after it was answered: its submitter may have recycled it")
						}
					}
				}
				if e.Kind == EvSend && lastField(e.Ch) == w.res && through(e.Ch, req) {
					m.n["answered"] = 1
					c.at("after-answer", e.In)
				}
			}))
		}
	}
	c.floor("after-answer")
	c09writers(c, w)
	c09readers(c)
}

// c09writers: frame writers.
func c09writers(c *Check, w *writeFields) {
	dfwT := types.NewPointer(c.p.typ("", "defaultFrameWriter"))
	fin := c.fn("qrpc.defaultFrameWriter.Finalize")
	d := vSym("dfw", dfwT)
	puts := func(fn *ssa.Function) (n int) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if f := call.Common().StaticCallee(); f != nil && fnName(f) == "sync.Pool.Put" {
					if mi, ok := call.Common().Args[1].(*ssa.MakeInterface); ok && types.Identical(mi.X.Type(), dfwT) {
						n++
					}
				}
			}
		}
		return
	}
	for _, fn := range c.p.Funcs {
		if fn == fin || puts(fn) == 0 {
			continue
		}
		if fin != nil && reaches(c.p, fin, fnName(fn)) {
			continue
		}
		c.report("writer-recycling", fnName(fn), c.p.pos(fn.Pos()), "a frame writer is recycled outside Finalize", nil)
	}
	c.explore(Config{NoKill: true}, fin, []*V{d}, nil, newM("fin", func(m *M, s *State, e *Event) {
		ab := mk(KLoad, 0, nil, 0, w.ab.Type(), nil, vField(d, w.ab))
		if m.n["put"] > 0 && e.Addr != nil && contains(e.Addr, d) && (e.Kind == EvStore || e.Kind == EvLoad) {
			c.bad("writer-recycling", "after", e.In, s, "a frame writer is touched after it went back to the pool")
		}
		if e.Kind == EvCall && e.Name == "sync.Pool.Put" {
			c.at("writer-recycling", e.In)
			m.n["put"]++
			if m.n["put"] > 1 {
				c.bad("writer-recycling", "twice", e.In, s, "a frame writer goes back to the pool twice")
			}
			if s.facts.eval(ab) != 0 {
				c.bad("writer-recycling", "abandoned", e.In, s, "a frame writer goes back to the pool although a queued write request may still refer to it")
			}
			if s.facts.nilEval(s.load(vField(d, w.resp), w.resp.Type())) != 1 {
				c.bad("writer-recycling", "response", e.In, s, "a frame writer goes back to the pool with a response to be registered")
			}
		}
	}))
	c.floor("writer-recycling")
	// the mark is never taken back
	for _, fn := range c.p.Funcs {
		if !storesField(fn, w.ab) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && structOfPtr(fa.X.Type()) != nil && structOfPtr(fa.X.Type()).Field(fa.Field) == w.ab {
						if k, ok := st.Val.(*ssa.Const); !ok || k.Value == nil || k.Value.String() != "true" {
							if _, isA := fa.X.(*ssa.Alloc); !isA {
								c.bad("writer-recycling", fnName(fn)+" unmark", in, nil, "the mark of an abandoned writer is taken back")
							}
						}
					}
				}
			}
		}
	}
	// users of Finalize
	isFin := func(e *Event) *V {
		if (e.Kind == EvCall || e.Kind == EvEnter) && strings.HasSuffix(e.Name, "defaultFrameWriter.Finalize") && len(e.Args) > 0 {
			return strip(e.Args[0])
		}
		return nil
	}
	for _, fn := range c.p.Funcs {
		if fn == fin || !callsNamed(fn, "qrpc.defaultFrameWriter.Finalize") {
			continue
		}
		fn := fn
		c.ob("finalize-use", fnName(fn))
		c.explore(Config{NoKill: true, MaxDepth: 1, Opaque: func(f *ssa.Function) bool {
			return fnName(f) != "qrpc.newFrameWriter" && fnName(f) != "qrpc.Connection.getWriter"
		}}, fn, nil, nil, newM("use", func(m *M, s *State, e *Event) {
			if x := isFin(e); x != nil {
				if m.t["w"] != nil && x == m.t["w"] {
					c.bad("finalize-use", fnName(fn)+" twice", e.In, s, "a frame writer is finalised twice: it would have two owners")
				}
				if rootIsField(x) {
					c.bad("finalize-use", fnName(fn)+" shared", e.In, s, "a frame writer others can reach (%s) is finalised", x)
				}
				m.t["w"] = x
				return
			}
			if m.t["w"] == nil {
				return
			}
			for _, a := range append([]*V{e.Addr, e.Ch}, e.Args...) {
				if a != nil && (e.Kind == EvCall || e.Kind == EvUser || e.Kind == EvStore || e.Kind == EvGo) && (strip(a) == m.t["w"] || a == m.t["w"]) {
					c.bad("finalize-use", fnName(fn)+" after", e.In, s, "a frame writer is used after it was finalised")
				}
			}
			if e.Kind == EvReturn {
				for _, a := range e.Args {
					if strip(a) == m.t["w"] {
						c.bad("finalize-use", fnName(fn)+" returned", e.In, s, "a finalised frame writer is handed out")
					}
				}
			}
		}))
	}
	c.floor("finalize-use")
}

func rootIsField(v *V) bool { return v.k == KLoad && lastField(v) != nil }

func callsNamed(fn *ssa.Function, name string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok {
				if f := call.Common().StaticCallee(); f != nil && fnName(f) == name {
					return true
				}
			}
		}
	}
	return false
}

// c09readers: read buffers.
func c09readers(c *Check) {
	fBuf := c.field("", "Reader", "reader")
	fin := c.fn("qrpc.Reader.Finalize")
	nr := c.fn("qrpc.NewReaderWithTimeout")
	if fBuf == nil {
		return
	}
	r := vSym("r", types.NewPointer(c.p.typ("", "Reader")))
	c.explore(Config{NoKill: true}, fin, []*V{r}, nil, newM("fin", func(m *M, s *State, e *Event) {
		switch {
		case e.Kind == EvCall && e.Name == "sync.Pool.Put":
			c.at("buffer-recycling", e.In)
			m.n["put"]++
			v := strip(e.Args[len(e.Args)-1])
			if m.n["put"] > 1 || lastField(v) != fBuf {
				c.bad("buffer-recycling", "put", e.In, s, "%s goes back to the pool (%d)", v, m.n["put"])
			}
		case e.Kind == EvReturn && m.n["put"] == 1:
			if v := s.load(vField(r, fBuf), fBuf.Type()); s.facts.nilEval(v) != 1 {
				c.bad("buffer-recycling", "kept", e.In, s, "the reader keeps the buffer it gave back")
			}
		}
	}))
	c.floor("buffer-recycling")
	c.explore(Config{NoKill: true}, nr, nil, nil, newM("new", func(m *M, s *State, e *Event) {
		switch {
		case e.Kind == EvCall && e.Name == "sync.Pool.Get":
			m.t["buf"] = e.Res
		case e.Kind == EvCall && e.Name == "bufio.Reader.Reset":
			if m.t["buf"] != nil && contains(e.Args[0], strip(m.t["buf"])) {
				m.n["reset"] = 1
				if len(e.Args) > 1 && !strings.Contains(strip(e.Args[1]).String(), "conn") {
					c.bad("buffer-reset", "source", e.In, s, "the recycled buffer is pointed at %s", e.Args[1])
				}
			}
		case e.Kind == EvReturn:
			c.ob("buffer-reset", fnName(nr))
			if m.t["buf"] != nil && m.n["reset"] == 0 {
				c.bad("buffer-reset", fnName(nr), e.In, s, "a recycled buffer is used with the bytes and the connection of its previous owner")
			}
		}
	}))
	c.floor("buffer-reset")
	// the loops: no read after giving back, once
	for _, name := range []string{"qrpc.serveconn.readFrames", "qrpc.Connection.readFrames"} {
		name := name
		fn := c.fn(name)
		if fn == nil {
			continue
		}
		c.explore(Config{NoKill: true, MaxDepth: 2, Opaque: opaqueSet("qrpc.Reader.Finalize", "qrpc.defaultFrameReader.ReadFrame", "qrpc.serveconn.Close", "qrpc.serveconn.tryFreeStreams", "qrpc.response.SetResponse", "qrpc.response.Close", "qrpc.Server.waitThrottle")}, fn, nil, nil, newM("loop", func(m *M, s *State, e *Event) {
			switch {
			case e.Kind == EvCall && e.Name == "qrpc.Reader.Finalize":
				c.at("buffer-owner", e.In)
				m.n["fin"]++
				if m.n["fin"] > 1 {
					c.bad("buffer-owner", name+" twice", e.In, s, "the read buffer is given back twice")
				}
			case e.Kind == EvCall && strings.HasSuffix(e.Name, ".ReadFrame"):
				if m.n["fin"] > 0 {
					c.bad("buffer-owner", name+" after", e.In, s, "reading goes on with a buffer that was given back")
				}
			case e.Kind == EvGo && e.Name != "":
			}
		}))
	}
	c.floor("buffer-owner")
	// nobody else gives it back
	for _, fn := range c.p.Funcs {
		if callsNamed(fn, "qrpc.Reader.Finalize") && !c.funcs[fn] {
			c.report("buffer-owner", fnName(fn), c.p.pos(fn.Pos()), "the read buffer is given back by a function that is not the reading loop", nil)
		}
	}
}

func c34(c *Check) {
	c.submissions("C34")
	c.floor("batch-write")
	c.floor("write-turn")
	c.sub(func(rule, k string) bool { return rule == "client-writer" }, func(c *Check) { c.clientWriter() })
	c.sub(func(rule, k string) bool { return rule == "batch-kept" }, c07)
	w := c.writeFields()
	if w == nil {
		return
	}
	// the turn is for one
	n := 0
	c.eachStoreOf(w.turn, func(s *State, e *Event) {
		n++
		c.at("turn-for-one", e.In)
		v := s.mem[vPure("chancap", nil, strip(e.Val))]
		if k, ok := v.intC(); v == nil || !ok || k != 1 {
			c.bad("turn-for-one", "capacity", e.In, s, "the write turn has room for %v holders", v)
		}
	})
	c.floor("turn-for-one")
	// whole batch to the network, once
	for _, side := range []string{"serveconn", "Connection"} {
		side := side
		name := "qrpc." + side + ".writeBuffers"
		fn := c.fn(name)
		fBufs := c.field("", side, "cachedBuffs")
		if fn == nil || fBufs == nil {
			continue
		}
		recv := vSym(fn.Params[0].Name(), fn.Params[0].Type())
		c.explore(Config{NoKill: true, Opaque: opaqueSet("qrpc.serveconn.Close", "qrpc.Server.untrack")}, fn, []*V{recv}, nil, newM("whole", func(m *M, s *State, e *Event) {
			if m.t["all"] == nil {
				m.t["all"] = s.load(vField(recv, fBufs), fBufs.Type())
			}
			if e.Kind == EvExit && e.Name == fnNetBatch {
				s.dead = true
			}
			if e.Kind == EvEnter && e.Name == fnNetBatch {
				c.at("whole-batch", e.In)
				m.n["net"]++
				if m.n["net"] > 1 {
					c.bad("whole-batch", name+" twice", e.In, s, "the batch is given to the network twice")
				}
				if a := strip(e.Args[1]); a != vField(recv, fBufs) && s.load(a, fBufs.Type()) != m.t["all"] {
					c.bad("whole-batch", name+" bytes", e.In, s, "what is written is %s, not the batch collected", a)
				}
			}
		}))
	}
	c.floor("whole-batch")
	// nobody else reaches the connection's writes
	allowed := map[string]bool{"qrpc.serveconn.writeFrameBytes": true, "qrpc.Connection.writeFrames": true}
	var tgt []string
	for _, fn := range c.p.Funcs {
		if recvNamed(fn) == "Writer" && fn.Pkg != nil && fn.Pkg.Pkg.Name() == "qrpc" {
			tgt = append(tgt, fnName(fn))
		}
	}
	callers := c.p.callersOf()
	seen := map[*ssa.Function]bool{}
	var up func(fn *ssa.Function, path string)
	up = func(fn *ssa.Function, path string) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		name := fnName(fn)
		if allowed[name] {
			c.ob("only-writer", name)
			return
		}
		cs := callers[fn]
		if recvNamed(fn) != "Writer" && len(cs) == 0 {
			c.report("only-writer", name, c.p.pos(fn.Pos()), "bytes can reach a connection outside the write turn: "+path, nil)
		}
		for _, g := range cs {
			up(g, fnName(g)+" > "+path)
		}
	}
	for _, t := range tgt {
		up(c.p.byName[t], t)
	}
	c.floor("only-writer")
	// no other write on the connections' sockets
	for _, fn := range c.p.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Name() != "qrpc" || recvNamed(fn) == "Writer" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := call.Common()
				if cc.IsInvoke() && cc.Method.Name() == "Write" && typeFull(cc.Value.Type()) == "net.Conn" {
					if !seen[fn] {
						c.bad("only-writer", fnName(fn)+" Write", in, nil, "bytes are written to a network connection directly, outside the write turn")
					}
				}
				if f := cc.StaticCallee(); f != nil && fnName(f) == "net.Buffers.WriteTo" && !seen[fn] {
					c.bad("only-writer", fnName(fn)+" WriteTo", in, nil, "bytes are written to a network connection directly, outside the write turn")
				}
			}
		}
	}
	// one writing goroutine per client connection
	c.oneWriter()
}

// callersOf maps a function to the functions that call it, refer to it, or enclose it.
func (p *Program) callersOf() map[*ssa.Function][]*ssa.Function {
	if p.callers != nil {
		return p.callers
	}
	p.callers = map[*ssa.Function][]*ssa.Function{}
	for _, fn := range p.Funcs {
		seen := map[*ssa.Function]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if g.Synthetic != "" && g.Object() != nil {
						if h := p.SSA.FuncValue(g.Object().(*types.Func)); h != nil {
							g = h
						}
					}
					if !seen[g] {
						seen[g] = true
						p.callers[g] = append(p.callers[g], fn)
					}
				}
			}
		}
	}
	return p.callers
}

// oneWriter: each cycle of the client starts its writing goroutine once.
func (c *Check) oneWriter() {
	fn := c.fn("qrpc.Connection.loop")
	c.explore(Config{NoKill: true, MaxDepth: 3, Opaque: opaqueSet("qrpc.Connection.connect", "qrpc.Connection.closeRWC", "qrpc.Connection.waitLoop", "qrpc.Connection.endLoop", "qrpc.Connection.Close", "qrpc.Connection.readFrames", "qrpc.Connection.writeFrames")}, fn, nil, nil, newM("one", func(m *M, s *State, e *Event) {
		if e.Kind == EvCall && e.Name == "qrpc.Connection.connect" {
			m.n["w"] = 0
		}
		if e.Kind == EvCall && e.Name == "qrpc.Connection.writeFrames" {
			c.bad("one-writing-goroutine", "inline", e.In, s, "the connection loop itself writes")
		}
		if e.Kind == EvGo && e.Fn != nil && (fnName(e.Fn) == "qrpc.Connection.writeFrames" || reaches(c.p, e.Fn, "qrpc.Connection.writeFrames")) {
			c.at("one-writing-goroutine", e.In)
			m.n["w"]++
			if m.n["w"] > 1 {
				c.bad("one-writing-goroutine", "twice", e.In, s, "two writing goroutines run on one connection")
			}
		}
	}))
	c.floor("one-writing-goroutine")
}
