package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C07", "path analysis of both batch collectors: every request received from the write queue is followed until the next receive or return and, for every truth of the flag bits the path allows, its outcome (one error result, silent success, or appended once to the batch together with its own bytes) is compared with the admission table; the batch is empty before each collection; continuations carry the must-exist mark", c07)
}

const (
	fnGetStream = "qrpc.ConnStreams.GetStream"
	fnCreate    = "qrpc.ConnStreams.CreateOrGetStream"
	fnAddOut    = "qrpc.Stream.AddOutFrame"
	fnAddIn     = "qrpc.Stream.AddInFrame"
	fnTryBind   = "qrpc.Stream.TryBind"
	fnResetPeer = "qrpc.Stream.ResetByPeer"
)

func opaqueSet(names ...string) func(f *ssa.Function) bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return func(f *ssa.Function) bool { return m[fnName(f)] }
}

// cases enumerates the truths of some bits of a term that the facts allow.
func (s *State) cases(src *V, bits []int, on func(f *Facts, bit func(int) int)) {
	var rec func(f *Facts, i int)
	rec = func(f *Facts, i int) {
		if i == len(bits) {
			on(f, func(b int) int { return f.eval(vBit(src, b)) })
			return
		}
		if f.eval(vBit(src, bits[i])) >= 0 {
			rec(f, i+1)
			return
		}
		for _, t := range []bool{false, true} {
			g := f.clone()
			if g.assume(vBit(src, bits[i]), t) {
				rec(g, i+1)
			}
		}
	}
	rec(s.facts, 0)
}

func (c *Check) errName(v *V) string {
	v = strip(v)
	if isErrGlobal(v) {
		return strings.TrimPrefix(v.args[0].String(), "&")
	}
	return ""
}

func c07(c *Check) {
	fb := c.flagBits()
	fDfw, fRes := c.field("", "writeFrameRequest", "dfw"), c.field("", "writeFrameRequest", "result")
	fWbuf, fExist := c.field("", "defaultFrameWriter", "wbuf"), c.field("", "defaultFrameWriter", "checkExist")
	if fDfw == nil || fRes == nil || fWbuf == nil || fExist == nil {
		return
	}
	for _, side := range []struct{ typ, name, ctxField string }{{"serveconn", "qrpc.serveconn.collectWriteFrames", "ctx"}, {"Connection", "qrpc.Connection.collectWriteFrames", "loopCtx"}} {
		side := side
		fCh := c.field("", side.typ, "writeFrameCh")
		fReqs, fBufs := c.field("", side.typ, "cachedRequests"), c.field("", side.typ, "cachedBuffs")
		if fCh == nil || fReqs == nil || fBufs == nil {
			continue
		}
		name := side.name
		settle := func(m *M, s *State, in ssa.Instruction) {
			req := m.t["req"]
			if req == nil {
				return
			}
			F := m.t["flags"]
			exist := s.facts.eval(m.t["exist"])
			c.ob("admission", name)
			gs, ao := -1, -1 // stream found, stream accepts
			if m.n["get"] > 0 {
				gs = not3(s.facts.nilEval(m.t["gs"]))
			}
			if m.n["ao"] > 0 {
				ao = s.facts.eval(m.t["aores"])
			}
			got := ""
			switch {
			case m.n["res"] > 1 || m.n["req"] > 1 || m.n["buf"] > 1 || m.n["req"] != m.n["buf"] || m.n["res"]+m.n["req"] != 1:
				got = "answered " + itoa(m.n["res"]) + " times, put in the batch " + itoa(m.n["req"]) + " times with " + itoa(m.n["buf"]) + " buffers"
			case m.n["req"] == 1:
				got = "admitted"
			case s.facts.nilEval(m.t["err"]) == 1:
				got = "success without sending"
			default:
				got = c.errName(m.t["err"])
				if got == "" {
					got = m.t["err"].String()
				}
			}
			s.cases(F, []int{fb.rst, fb.push}, func(f *Facts, bit func(int) int) {
				want, calls := "", ""
				switch {
				case bit(fb.rst) == 1:
					if m.n["get"] != 1 || m.n["create"] > 0 {
						calls = "the stream of a reset is not looked up once"
						break
					}
					switch {
					case gs == 0:
						want = "ErrRstNonExistingStream"
						if m.n["ao"] > 0 {
							calls = "a stream that does not exist is used"
						}
					case gs == 1 && m.n["ao"] == 1:
						want = "admitted"
						if ao == 0 {
							want = "success without sending"
						} else if ao < 0 {
							want = "decided by the stream's answer"
						}
					default:
						calls = "whether the stream exists and admits the reset is not examined"
					}
				case bit(fb.push) == 1:
					want = "admitted"
					if m.n["get"]+m.n["create"]+m.n["ao"] > 0 {
						calls = "a pushed frame is counted as part of a stream of this side"
					}
				default:
					if exist < 0 {
						calls = "whether the frame continues a stream is not examined"
						break
					}
					if exist == 1 {
						if m.n["create"] > 0 || m.n["get"] != 1 {
							calls = "a continuation does not look up its stream once"
							break
						}
						if gs == 0 {
							want = "ErrStreamNotExists"
							break
						}
						if gs < 0 {
							calls = "whether the stream exists is not examined"
							break
						}
					} else if m.n["create"] != 1 {
						calls = "the stream of a first frame is not created"
						break
					}
					if m.n["ao"] != 1 || ao < 0 {
						calls = "the stream's admission is not asked once and obeyed"
						break
					}
					want = "admitted"
					if ao == 0 {
						want = "ErrWriteAfterCloseSelf"
					}
				}
				kind := "frame"
				if bit(fb.rst) == 1 {
					kind = "reset"
				} else if bit(fb.push) == 1 {
					kind = "push"
				} else if exist == 1 {
					kind = "continuation"
				}
				if calls != "" {
					c.bad("admission", name+" "+kind, in, s, "%s (%s)", calls, kind)
				} else if got != want {
					c.bad("admission", name+" "+kind, in, s, "outcome of a %s (stream known: %s, admitted by it: %s): %s; required: %s", kind, yn(gs), yn(ao), got, want)
				}
			})
			for _, k := range []string{"req", "flags", "exist", "gs", "aores", "err", "id", "dfw", "wbuf", "str"} {
				m.t[k] = nil
			}
			if m.n["req"] > 0 {
				m.n["any"] = 1
			}
			for _, k := range []string{"get", "create", "ao", "res", "req", "buf"} {
				m.n[k] = 0
			}
		}
		c.explore(Config{NoKill: true, Opaque: opaqueSet(fnGetStream, fnCreate, fnAddOut)}, c.fn(name), nil, nil, newM("admit", func(m *M, s *State, e *Event) {
			switch {
			case e.Kind == EvRecv && lastField(e.Ch) == fCh:
				settle(m, s, e.In)
				c.at("admission-receive", e.In)
				req := e.Res
				dfw := s.load(vField(req, fDfw), fDfw.Type())
				wbuf := s.load(vField(dfw, fWbuf), fWbuf.Type())
				m.t["req"], m.t["dfw"], m.t["wbuf"] = req, dfw, wbuf
				m.t["flags"] = wireByte(s, wbuf, 12)
				m.t["exist"] = s.load(vField(dfw, fExist), fExist.Type())
				var bs []*V
				for i := int64(4); i < 12; i++ {
					bs = append(bs, wireByte(s, wbuf, i))
				}
				m.t["id"] = vPure("be", tU64, bs...)
			case e.Kind == EvReturn:
				settle(m, s, e.In)
			case e.Kind == EvStore && (e.Field == fReqs || e.Field == fBufs):
				v := strip(e.Val)
				if v.k != KApp && v != strip(e.Args[0]) && !(m.n["any"] == 0 && s.isEmpty(v)) {
					c.bad("batch-kept", name+" "+e.Field.Name(), e.In, s, "the batch becomes %s: frames admitted are lost without an outcome", v)
				}
			case m.t["req"] == nil:
			case e.Kind == EvCall && (e.Name == fnGetStream || e.Name == fnCreate || e.Name == fnAddOut):
				a := e.Args[1:]
				if e.Name == fnCreate {
					if !ctxOfConn(s, a[0], side.ctxField) {
						c.bad("admission", name+" context", e.In, s, "the stream of a frame sent gets context %s, not the connection's", a[0])
					}
					a = a[1:]
				}
				if !s.sameBits(bitsWidth(a[0], 64), bitsWidth(m.t["id"], 64)) {
					c.bad("admission", name+" id", e.In, s, "%s is given id %s, not the frame's request id", e.Name, a[0])
				}
				want := srcBits(m.t["flags"], 0, 8)
				need := []int{fb.push}
				if e.Name == fnAddOut {
					need = []int{fb.rst, fb.st, fb.end}
				}
				got := bitsWidth(a[1], 8)
				for _, b := range need {
					if s.resolve(got[b]) != s.resolve(want[b]) {
						c.bad("admission", name+" flags", e.In, s, "%s is given flags %s, not the frame's", e.Name, a[1])
					}
				}
				switch e.Name {
				case fnGetStream:
					m.n["get"]++
					m.t["gs"], m.t["str"] = e.Res, e.Res
				case fnCreate:
					m.n["create"]++
					m.t["str"] = e.Res.args[0]
				case fnAddOut:
					m.n["ao"]++
					m.t["aores"] = e.Res
					if strip(e.Args[0]) != m.t["str"] {
						c.bad("admission", name+" stream", e.In, s, "the admission is asked from %s, not from the frame's stream", e.Args[0])
					}
				}
			case e.Kind == EvSend && strip(e.Ch) == s.load(vField(m.t["req"], fRes), fRes.Type()):
				m.n["res"]++
				m.t["err"] = e.Val
			case e.Kind == EvAppend && len(e.Args) > 1:
				n, _ := vLen(e.Args[1]).intC()
				for i := int64(0); i < n && i < 4; i++ {
					v := s.mem[vIdx(e.Args[1], vInt(i))]
					if v == nil {
						continue
					}
					if strip(v) == m.t["req"] || v == m.t["wbuf"] {
						c.at("batch-kept", e.In)
						if b := strip(e.Args[0]); b.k == KSlice && !s.isEmpty(b) || m.n["any"] == 1 && s.isEmpty(b) {
							c.bad("batch-kept", name+" base", e.In, s, "a frame is added to %s, only a part of the batch", b)
						}
					}
					if strip(v) == m.t["req"] {
						m.n["req"]++
					} else if v == m.t["wbuf"] {
						m.n["buf"]++
					} else if v.typ != nil && typeFull(v.typ) == typeFull(fWbuf.Type()) {
						c.bad("admission", name+" bytes", e.In, s, "the bytes put in the batch are %s, not the admitted frame's", v)
					}
				}
			}
		}))
		// the batch starts empty
		caller := "qrpc.serveconn.writeFrameBytes"
		if side.typ == "Connection" {
			caller = "qrpc.Connection.writeFrames"
		}
		fn := c.p.byName[name]
		// (or the collector itself empties it before it takes anything)
		self := map[string]bool{fReqs.Name(): true, fBufs.Name(): true}
		c.explore(Config{NoKill: true, Opaque: opaqueSet(fnGetStream, fnCreate, fnAddOut)}, fn, nil, nil, newM("self", func(m *M, s *State, e *Event) {
			switch {
			case m.n["started"] == 1:
			case e.Kind == EvStore && (e.Field == fReqs || e.Field == fBufs) && s.isEmpty(e.Val):
				m.n["e"+e.Field.Name()] = 1
			case e.Kind == EvRecv && strings.Contains(typeFull(e.Res.typ), "writeFrameRequest"), e.Kind == EvAppend, e.Kind == EvReturn:
				m.n["started"] = 1
				for f := range self {
					if m.n["e"+f] != 1 {
						self[f] = false
					}
				}
			}
		}))
		c.explore(Config{NoKill: true, Opaque: opaqueSet(name, "qrpc."+side.typ+".writeBuffers", "qrpc.ConnStreams.Release")}, c.fn(caller), nil, nil, newM("empty", func(m *M, s *State, e *Event) {
			if e.Kind == EvStore && (e.Field == fReqs || e.Field == fBufs) {
				z := 0
				if n, ok := vLen(e.Val).intC(); ok && n == 0 || s.isEmpty(e.Val) {
					z = 1
				}
				m.n["e"+e.Field.Name()] = z
				if m.n["full"] == 1 && s.facts.nilEval(m.t["colerr"]) != 0 {
					c.bad("batch-kept", name+" before writing", e.In, s, "the batch is changed between its collection and its write")
				}
			}
			if e.Kind == EvCall && e.Name == "qrpc."+side.typ+".writeBuffers" {
				m.n["full"] = 0
			}
			if e.Kind == EvCall && e.Fn == fn && fn != nil {
				c.at("batch-starts-empty", e.In)
				for _, f := range []string{fReqs.Name(), fBufs.Name()} {
					if m.n["e"+f] != 1 && !self[f] {
						c.bad("batch-starts-empty", name+" "+f, e.In, s, "%s still holds the frames of the batch before", f)
					}
					m.n["e"+f] = 0
				}
				m.n["full"], m.t["colerr"] = 1, e.Res
			}
		}))
		// continuations are marked
		c.explore(wireCfg(), c.fn("qrpc."+side.typ+".StreamRequest"), nil, nil, newM("mark", func(m *M, s *State, e *Event) {
			if e.Kind == EvCall && strings.HasSuffix(e.Name, ".writeFrameBytes") {
				c.ob("continuation-mark", side.typ+" first")
				if v := s.load(vField(strip(e.Args[1]), fExist), fExist.Type()); s.facts.eval(v) != 0 {
					c.bad("continuation-mark", side.typ+" first", e.In, s, "the first frame of a stream is sent with must-exist mark %s", v)
				}
			}
			if e.Kind == EvReturn && len(e.Args) == 3 && s.facts.nilEval(e.Args[2]) == 1 {
				c.ob("continuation-mark", side.typ)
				w := strip(e.Args[0])
				for w.k == KConv {
					w = w.args[0]
				}
				if v := s.load(vField(w, fExist), fExist.Type()); s.facts.eval(v) != 1 {
					c.bad("continuation-mark", side.typ, e.In, s, "the writer for the rest of the stream is handed out without the must-exist mark: frames after the stream's end would open a new stream")
				}
			}
		}))
	}
	c.floor("admission-receive")
	c.floor("batch-kept")
	c.floor("batch-starts-empty")
	c.floor("continuation-mark")
}

func itoa(n int) string { return vInt(int64(n)).String() }

// ctxOfConn: the context is the value of the named field of the connection, or derives from it.
func ctxOfConn(s *State, ctx *V, field string) bool {
	for x := strip(ctx); x != nil; {
		if f := lastField(x); f != nil && f.Name() == field {
			return true
		}
		if x.k == KPure && (x.aux == "ctx.child" || x.aux == "ctx.value") {
			x = strip(x.args[0])
			continue
		}
		return false
	}
	return false
}
