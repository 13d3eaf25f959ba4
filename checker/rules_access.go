package main

import (
	"go/token"
	"go/types"
	"strings"
)

func init() {
	reg("C24", "provenance of contexts: the connection puts itself into its context under the key the accessors use, every stream's context descends from the context of the connection that read or wrote it, the frame handed to a handler carries that stream, and every accessor evaluated in the server's and in the client's situation yields that connection and never panics", c24)
}

const fnNewStream = "qrpc.newStream"

func c24(c *Check) {
	c24info(c)
	c24streams(c)
	c24frames(c)
	c24accessors(c)
	c.sub(func(rule, k string) bool { return rule == "pair" }, c25pair)
	c25ends(c)
}

func background() *V { return vPure("ctx.value", nil, vNil(), vNil(), vNil()) }

// keyOf is the value of a package level context key.
func (c *Check) keyOf(s *State, name string) *V {
	sp := c.p.SSA.Package(c.p.pkg(""))
	if sp == nil || sp.Var(name) == nil {
		return nil
	}
	g := sp.Var(name)
	return s.load(mk(KGlobal, 0, g, 0, g.Type(), nil), g.Type().(*types.Pointer).Elem())
}

// c24info: a connection's context leads to the connection.
func c24info(c *Check) {
	fSC, fSctx := c.field("", "ConnectionInfo", "serveconn"), c.field("", "serveconn", "ctx")
	fCC, fCctx, fConf, fHandler := c.field("", "ClientConnectionInfo", "CC"), c.field("", "Connection", "ctx"), c.field("", "Connection", "conf"), c.field("", "ConnectionConfig", "Handler")
	if fSC == nil || fSctx == nil || fCC == nil || fCctx == nil || fConf == nil || fHandler == nil {
		return
	}
	for _, x := range []struct {
		fn, key    string
		ctx, owner *types.Var
	}{{fnNewConn, "ConnectionInfoKey", fSctx, fSC}, {fnNewC, "ClientConnectionInfoKey", fCctx, fCC}} {
		x := x
		fn := c.fn(x.fn)
		if fn == nil {
			continue
		}
		c.explore(Config{NoKill: true}, fn, nil, nil, newM("info", func(m *M, s *State, e *Event) {
			if e.Kind == EvStore && e.Field == x.ctx {
				m.t["conn"] = e.Addr.args[0]
			}
			// everything is in place before anybody else sees the connection
			if e.Kind != EvReturn && e.Kind != EvGo && !(e.Kind == EvMapUpdate && m.t["conn"] != nil) {
				return
			}
			conn := m.t["conn"]
			if conn == nil {
				c.bad("own-info", x.fn+" context", e.In, s, "a new connection has no context")
				return
			}
			c.at("own-info", e.In)
			if x.fn == fnNewC {
				h := s.load(vField(vField(conn, fConf), fHandler), fHandler.Type())
				if s.facts.nilEval(h) == 1 || c.knownNilField(s, fHandler) {
					return
				}
			}
			key := c.keyOf(s, x.key)
			if key == nil {
				c.bad("own-info", x.key, e.In, s, "there is no %s", x.key)
				return
			}
			v := s.ctxValue(s.load(vField(conn, x.ctx), x.ctx.Type()), key)
			info := strip(v)
			if v.k == KIface && !strings.HasSuffix(v.typ.String(), "."+x.owner.Pkg().Name()) && !types.Identical(v.typ, types.NewPointer(c.infoType(x.owner))) {
				c.bad("own-info", x.fn+" type", e.In, s, "the information in a new connection's context is a %s", v.typ)
				return
			}
			if s.facts.nilEval(info) != 0 {
				c.bad("own-info", x.fn, e.In, s, "the context of a new connection leads to no connection information (%s)", showT(info))
				return
			}
			if o := strip(s.load(vField(info, x.owner), x.owner.Type())); o != strip(conn) {
				c.bad("own-info", x.fn+" other", e.In, s, "the information in a new connection's context leads to %s, not to the connection", showT(o))
			}
		}))
	}
	c.floor("own-info")
	for _, f := range []*types.Var{fSC, fCC, fSctx, fCctx} {
		f := f
		c.eachStoreOf(f, func(s *State, e *Event) {
			if !isAllocRoot(e.Addr) && !c.funcs[e.In.Parent()] {
				c.bad("own-info", fnName(e.In.Parent())+" "+f.Name(), e.In, s, "%s is replaced after the connection was made", f.Name())
			}
		})
	}
}

func (c *Check) infoType(owner *types.Var) types.Type {
	n := map[string]string{"serveconn": "ConnectionInfo", "CC": "ClientConnectionInfo"}[owner.Name()]
	return c.p.typ("", n)
}

// c24streams: contexts of streams descend from their connection's.
func c24streams(c *Check) {
	fCtx := c.field("", "Stream", "ctx")
	if fCtx == nil {
		return
	}
	if fn := c.fn(fnCreate); fn != nil {
		var pctx *V
		for _, p := range fn.Params {
			if types.IsInterface(p.Type()) && strings.HasSuffix(p.Type().String(), "context.Context") {
				pctx = vSym(p.Name(), p.Type())
			}
		}
		c.explore(Config{NoKill: true}, fn, nil, nil, newM("create", func(m *M, s *State, e *Event) {
			if e.Kind == EvStore && e.Field == fCtx {
				c.at("stream-context", e.In)
				if pctx == nil || !ancestor(s, strip(e.Val), pctx) {
					c.bad("stream-context", "new", e.In, s, "the context of a new stream is %s, which does not descend from the one given", showT(e.Val))
				}
			}
		}))
	}
	c.eachStoreOf(fCtx, func(s *State, e *Event) {
		if !isAllocRoot(e.Addr) {
			c.bad("stream-context", fnName(e.In.Parent()), e.In, s, "the context of a stream is replaced")
		}
	})
	for _, x := range []struct{ fn, field string }{{fnCollectS, "ctx"}, {fnCollectC, "loopCtx"}} {
		x := x
		fn := c.fn(x.fn)
		if fn == nil {
			continue
		}
		recv := vSym(fn.Params[0].Name(), fn.Params[0].Type())
		c.explore(Config{NoKill: true, Opaque: opaqueSet(fnGetStream, fnCreate, fnAddOut)}, fn, []*V{recv}, nil, newM("write", func(m *M, s *State, e *Event) {
			if e.Kind == EvCall && e.Name == fnCreate {
				c.at("stream-context", e.In)
				if !ctxOfConn(s, e.Args[1], x.field) || !contains(e.Args[1], recv) {
					c.bad("stream-context", x.fn, e.In, s, "a stream opened by a write gets the context %s", showT(e.Args[1]))
				}
			}
		}))
	}
	// the reader's context and socket are the connection's
	fRctx, fRconn := c.field("", "defaultFrameReader", "ctx"), c.field("", "Reader", "conn")
	if fRctx == nil || fRconn == nil {
		return
	}
	for _, x := range []struct{ fn, ctx string }{{fnServe, "ctx"}, {fnReadC, "loopCtx"}} {
		x := x
		fn := c.fn(x.fn)
		if fn == nil {
			continue
		}
		recv := vSym(fn.Params[0].Name(), fn.Params[0].Type())
		c.explore(Config{NoKill: true, Opaque: opaqueSet(fnReadFr, fnReadS, fnCloseS, "qrpc.Reader.Finalize", "qrpc.serveconn.handleRequestPanic", "qrpc.Connection.handleRequestPanic", "qrpc.response.SetResponse", "qrpc.response.Close")}, fn, []*V{recv}, nil, newM("reader", func(m *M, s *State, e *Event) {
			switch {
			case e.Kind == EvStore && e.Field == fRctx:
				c.at("reader-context", e.In)
				if !ctxOfConn(s, e.Val, x.ctx) || !contains(e.Val, recv) {
					c.bad("reader-context", x.fn, e.In, s, "the reader of the connection uses the context %s: requests would not lead to the connection", showT(e.Val))
				}
			case e.Kind == EvStore && e.Field == fRconn:
				c.at("reader-context", e.In)
				if f := lastField(strip(e.Val)); f == nil || f.Name() != "rwc" || !contains(e.Val, recv) {
					c.bad("reader-context", x.fn+" socket", e.In, s, "the reader of the connection reads from %s", showT(e.Val))
				}
			case e.Kind == EvCall && e.Name == fnReadFr:
				c.at("reader-context", e.In)
				if f := lastField(strip(e.Args[1])); f == nil || f.Name() != "cs" || !contains(e.Args[1], recv) {
					c.bad("reader-context", x.fn+" streams", e.In, s, "frames are assigned to the streams %s", showT(e.Args[1]))
				}
			}
		}))
	}
	c.floor("stream-context")
	c.floor("reader-context")
}

// c24frames: what is handed to a handler is a frame read from the connection and carries its stream.
func c24frames(c *Check) {
	fb := c.flagBits()
	fStream := c.field("", "Frame", "Stream")
	fCh, fF := c.field("", "serveconn", "readFrameCh"), c.field("", "readFrameResult", "f")
	if fStream == nil || fCh == nil || fF == nil {
		return
	}
	c.eachParsed(func(x frameFate) {
		if x.next || x.ret == nil || s0(x.s, x.err) != 1 {
			return
		}
		m, s := x.m, x.s
		s.cases(x.flags, []int{fb.rst}, func(f *Facts, bit func(int) int) {
			if bit(fb.rst) == 1 {
				return
			}
			c.ob("frame-stream", c.p.posOf(x.in))
			switch {
			case x.ret != x.frame:
				c.bad("frame-stream", "frame", x.in, s, "another frame than the one read is returned")
			case m.n["create"] != 1 || m.n["ctxok"] == 0:
				c.bad("frame-stream", "stream", x.in, s, "the frame returned has no stream made with the reader's context")
			case m.n["TryBind"] != 1 || m.n["streamok"] == 0 || m.n["frameok"] == 0 || m.t["TryBind"] == nil || s.facts.eval(m.t["TryBind"]) != 1:
				c.bad("frame-stream", "unbound", x.in, s, "the frame returned is not bound to its stream")
			}
		})
	}, nil)
	if fn := c.fn(fnTryBind); fn != nil {
		recv, fr := vSym(fn.Params[0].Name(), fn.Params[0].Type()), vSym(fn.Params[1].Name(), fn.Params[1].Type())
		c.explore(Config{NoKill: true}, fn, nil, nil, newM("bind", func(m *M, s *State, e *Event) {
			if e.Kind == EvReturn && s.facts.eval(e.Args[0]) != 0 {
				c.ob("frame-stream", "bind")
				if strip(s.load(vField(fr, fStream), fStream.Type())) != recv {
					c.bad("frame-stream", "bind", e.In, s, "a frame bound to a stream does not refer to it")
				}
			}
		}))
	}
	c.floor("frame-stream")
	if rd := c.fn(fnReadS); rd != nil {
		recv := vSym(rd.Params[0].Name(), rd.Params[0].Type())
		c.explore(Config{NoKill: true, Opaque: opaqueSet(fnReadFr, fnCloseS, fnThrottle, "qrpc.serveconn.tryFreeStreams", "qrpc.response.SetResponse", "qrpc.response.Close", "qrpc.Reader.Finalize")}, rd, []*V{recv}, nil, newM("hand", func(m *M, s *State, e *Event) {
			switch {
			case e.Kind == EvCall && e.Name == fnReadFr:
				m.t["frame"] = strip(e.Res.args[0])
			case e.Kind == EvSend && lastField(e.Ch) == fCh:
				c.at("handed-frame", e.In)
				f := s.fieldVal(e.Val, fF)
				if f == nil || m.t["frame"] == nil || strip(stripConv(f)) != m.t["frame"] || !contains(e.Ch, recv) {
					c.bad("handed-frame", "server", e.In, s, "the request handed over is not the frame just read from the connection")
				}
			}
		}))
	}
	c.handlers("handler-call", serveHooks{
		any: func(x invocation) {
			if x.e.Kind == EvCall && x.e.Name == fnReadFr {
				x.m.t["_read"] = strip(x.e.Res.args[0])
			}
		},
		serve: func(x invocation) {
			if x.e.Op == "panic" {
				return
			}
			c.at("handed-frame", x.e.In)
			if x.side == "serveconn" {
				if x.m.t["res"] == nil || !contains(x.frame, x.m.t["res"]) && stripConv(x.s.fieldVal(x.m.t["res"], fF)) != x.frame {
					c.bad("handed-frame", "serve", x.e.In, x.s, "the handler gets %s, not the request received from the reading loop", showT(x.frame))
				}
				return
			}
			if x.m.t["_read"] == nil || x.frame != x.m.t["_read"] {
				c.bad("handed-frame", "client", x.e.In, x.s, "the handler gets %s, not the request just read", showT(x.frame))
			}
		},
	})
	c.floor("handed-frame")
}

func s0(s *State, v *V) int { return s.facts.nilEval(v) }

// c24accessors: the accessors in both situations.
func c24accessors(c *Check) {
	fStream, fCtx, fID := c.field("", "Frame", "Stream"), c.field("", "Stream", "ctx"), c.field("", "Frame", "RequestID")
	fSC, fCC, fRwc := c.field("", "ConnectionInfo", "serveconn"), c.field("", "ClientConnectionInfo", "CC"), c.field("", "Connection", "rwc")
	fSctx := c.field("", "serveconn", "ctx")
	if fStream == nil || fCtx == nil || fID == nil || fSC == nil || fCC == nil || fRwc == nil || fSctx == nil {
		return
	}
	for _, side := range []string{"server", "client"} {
		for _, name := range []string{"ConnectionInfo", "ClientConnectionInfo", "StreamInitiator", "Close", "Context"} {
			if side == "server" && name == "ClientConnectionInfo" || side == "client" && name == "ConnectionInfo" {
				continue
			}
			side, name := side, name
			fn := c.fn("qrpc.RequestFrame." + name)
			if fn == nil {
				continue
			}
			r := vSym("#req", fn.Params[0].Type())
			str := vSym("#stream", fStream.Type())
			sc := vSym("#sc", fSC.Type())
			cc := vSym("#cc", fCC.Type())
			var info, ctx *V
			where := side + " " + name
			c.exploreInit(Config{NoKill: true, Opaque: opaqueSet(fnCloseS, fnCloseC)}, fn, []*V{r}, nil, func(s *State) {
				key, owner, who := c.keyOf(s, "ConnectionInfoKey"), fSC, sc
				if side == "client" {
					key, owner, who = c.keyOf(s, "ClientConnectionInfoKey"), fCC, cc
				}
				if key == nil {
					return
				}
				info = vSym("#info-"+side, types.NewPointer(c.infoType(owner)))
				ctx = vPure("ctx.child", nil, vPure("ctx.value", nil, vPure("ctx.child", nil, background(), vInt(1)), key, vIface(info, info.typ)), vInt(2))
				for _, v := range []*V{r, str, who, info} {
					s.facts.assume(vNot(vIsNil(v)), true)
				}
				s.mem[vField(r, fStream)] = str
				s.mem[vField(str, fCtx)] = ctx
				s.mem[vField(info, owner)] = who
				s.mem[vField(sc, fSctx)] = vPure("ctx.value", nil, vPure("ctx.child", nil, background(), vInt(1)), key, vIface(info, info.typ))
			}, newM("access", func(m *M, s *State, e *Event) {
				id := s.load(vField(r, fID), fID.Type())
				if side == "client" && (s.facts.eval(vEq(vBin(token.REM, id, vInt(2), fID.Type()), vInt(1))) == 1 || s.resolve(bitsWidth(id, 64)[0]).kind == 1) {
					return // the client refuses requests with the ids of its own side
				}
				c.ob("access", where)
				switch {
				case e.Kind == EvPanicExit:
					c.bad("access", where+" panics", e.In, s, "%s of a request that arrived on a %s connection panics", name, side)
				case e.Kind == EvCall && e.Name == fnCloseS && strip(e.Args[0]) == sc:
					m.n["closed"] = 1
				case e.Kind == EvCall && e.Name == "net.Conn.Close" && lastField(e.Args[0]) == fRwc && through(e.Args[0], cc):
					m.n["closed"] = 1
				case e.Kind == EvCall && e.Name == fnCloseC:
					c.bad("access", where+" for good", e.In, s, "closing through a request ends the client connection for good instead of dropping the current connection")
				case e.Kind == EvReturn:
					var got *V
					if len(e.Args) > 0 {
						got = strip(e.Args[0])
					}
					bad := func(what string) {
						c.bad("access", where, e.In, s, "%s of a request that arrived on a %s connection is %s, not %s", name, side, showT(got), what)
					}
					switch name {
					case "ConnectionInfo", "ClientConnectionInfo":
						if got != info {
							bad("the connection's information")
						}
					case "StreamInitiator":
						if side == "server" && got != sc || side == "client" && got != cc {
							bad("the connection")
						}
					case "Context":
						if got != ctx && !ancestor(s, got, ctx) {
							bad("the context of its stream")
						}
					case "Close":
						rwc := s.load(vField(cc, fRwc), fRwc.Type())
						if m.n["closed"] == 0 && !(side == "client" && s.facts.nilEval(rwc) == 1) {
							c.bad("access", where, e.In, s, "closing through a request that arrived on a %s connection does not close it", side)
						}
					}
				}
			}))
		}
	}
	c.floor("access")
}
