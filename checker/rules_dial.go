package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C23", "dataflow of the connection settings along every path that makes or accepts a connection: each setting of a dial, listener or TLS wrapper is traced to the field of that name of the configuration given, the connection used is the TLS one on every path on which a TLS configuration may be present, and a dialled socket which is not used is closed", c23)
}

// dialSettings are the settings which every way of dialling honours.
type dialSettings struct{ timeout, rbuf, wbuf, tls *types.Var }

func (c *Check) settings(typ string) dialSettings {
	return dialSettings{c.field("", typ, "DialTimeout"), c.field("", typ, "RBufSize"), c.field("", typ, "WBufSize"), c.field("", typ, "TLSConf")}
}

func (d dialSettings) ok() bool {
	return d.timeout != nil && d.rbuf != nil && d.wbuf != nil && d.tls != nil
}

func c23(c *Check) {
	conf, dc := c.settings("ConnectionConfig"), c.settings("DialConfig")
	fDial := c.field("", "ConnectionConfig", "OverlayNetwork")
	fRwc, fConf := c.field("", "Connection", "rwc"), c.field("", "Connection", "conf")
	if !conf.ok() || !dc.ok() || fDial == nil || fRwc == nil || fConf == nil {
		return
	}
	for _, x := range []struct {
		fn      string
		overlay bool
	}{{"qrpc.NewConnection", true}, {"qrpc.NewConnectionWithReconnect", true}, {fnConnect, true}, {"qrpc.NewReusedConnection", false}} {
		c.dialling(x.fn, conf, dc, fDial, fRwc, fConf, x.overlay)
	}
	c.floor("dial")
	c.floor("dial-used")
	c23passed(c, fConf)
	c23ws(c, dc)
	c23listen(c)
	c23accept(c)
	c23overlay(c)
	// nothing else makes connections
	for _, fn := range c.p.Funcs {
		if c.funcs[fn] || fn.Pkg == nil || strings.Contains(fn.Pkg.Pkg.Path(), "/tool") || strings.HasSuffix(fn.Pkg.Pkg.Path(), "/test") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil && isDialOrListen(fnName(g)) {
						c.bad("dial", fnName(fn)+" raw", in, nil, "a connection is made or accepted where no configuration is known to be honoured (%s)", fnName(g))
					}
				}
			}
		}
	}
}

func isDialOrListen(n string) bool {
	switch n {
	case "net.Dial", "net.DialTimeout", "net.DialTCP", "net.Listen", "net.ListenTCP", "tls.Dial", "tls.DialWithDialer", "tls.Listen", "tls.Client", "tls.Server", "tls.NewListener", "net.Dialer.Dial", "net.Dialer.DialContext", "tls.Dialer.Dial", "tls.Dialer.DialContext", "websocket.Dialer.Dial", "websocket.Dialer.DialContext":
		return true
	}
	return false
}

// isDial: a call that makes a TCP connection; timeout is the time it may take.
func isDial(s *State, e *Event) (timeout *V, ok bool) {
	if e.Kind != EvCall || e.Res == nil || e.Res.k != KTuple || len(e.Res.args) != 2 {
		return nil, false
	}
	switch {
	case e.Name == "net.DialTimeout":
		return e.Args[2], true
	case strings.HasSuffix(e.Name, "reuseport.DialWithTimeout"), strings.HasSuffix(e.Name, ".DialWithTimeout"):
		return e.Args[len(e.Args)-1], true
	case e.Name == "net.Dialer.Dial", e.Name == "net.Dialer.DialContext":
		if st := recvStruct(e.Args[0], e.Fn); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "Timeout" {
					now := s.mem
					if e.Pre != nil {
						s.mem = e.Pre
					}
					defer func() { s.mem = now }()
					return s.load(vField(e.Args[0], st.Field(i)), st.Field(i).Type()), true
				}
			}
		}
		return nil, true
	case e.Name == "net.Dial", e.Name == "net.DialTCP":
		return nil, true
	}
	return nil, false
}

func recvStruct(v *V, fn *ssa.Function) *types.Struct {
	if fn == nil || fn.Signature.Recv() == nil {
		return nil
	}
	st, _ := derefType(fn.Signature.Recv().Type()).Underlying().(*types.Struct)
	return st
}

// notTCP: the connection dialled is known not to be a TCP one, which cannot be.
func (c *Check) notTCP(s *State, raw *V) bool {
	pk := c.p.SSA.ImportedPackage("net")
	if pk == nil || pk.Type("TCPConn") == nil {
		return false
	}
	return s.facts.eval(vAssertOk(raw, types.NewPointer(pk.Type("TCPConn").Type()))) == 0
}

// connBelow is the connection below conversions, assertions and embedding.
func connBelow(v *V) *V {
	for v != nil {
		w := strip(stripAssert(v))
		if w.k == KField && (w.args[0].k == KAssert || w.args[0].k == KFresh) {
			w = w.args[0]
		}
		if w == v {
			break
		}
		v = w
	}
	return v
}

// dialStep follows the making of one TCP connection with the given settings; the monitor's terms hold its state.
func (c *Check) dialStep(rule, where string, m *M, s *State, e *Event, d dialSettings) bool {
	bad := func(k, format string, a ...interface{}) { c.bad(rule, where+" "+k, e.In, s, format, a...) }
	base := connBelow
	if t, ok := isDial(s, e); ok {
		c.at(rule, e.In)
		if t == nil || lastField(stripConv(t)) != d.timeout {
			bad("timeout", "the time dialling may take is %s, not the configured one", showT(t))
		}
		m.t["raw"], m.t["err"], m.t["tls"], m.t["herr"] = base(e.Res.args[0]), e.Res.args[1], nil, nil
		m.n["r"], m.n["w"], m.n["closed"], m.n["used"] = 0, 0, 0, 0
		return true
	}
	if e.Kind != EvCall || len(e.Args) == 0 || m.t["raw"] == nil {
		return false
	}
	on := base(e.Args[0])
	switch {
	case strings.HasSuffix(e.Name, ".SetReadBuffer") && on == m.t["raw"]:
		m.n["r"] = 1
		if lastField(stripConv(e.Args[1])) != d.rbuf {
			bad("rbuf", "the receive buffer is set to %s", e.Args[1])
		} else if s.facts.interval(stripConv(e.Args[1])).lo < 1 {
			bad("rbuf unset", "the receive buffer is changed although no size may be configured")
		}
	case strings.HasSuffix(e.Name, ".SetWriteBuffer") && on == m.t["raw"]:
		m.n["w"] = 1
		if lastField(stripConv(e.Args[1])) != d.wbuf {
			bad("wbuf", "the send buffer is set to %s", e.Args[1])
		} else if s.facts.interval(stripConv(e.Args[1])).lo < 1 {
			bad("wbuf unset", "the send buffer is changed although no size may be configured")
		}
	case e.Name == "tls.Client" && on == m.t["raw"]:
		m.t["tls"] = base(e.Res)
		if lastField(strip(e.Args[1])) != d.tls {
			bad("tls", "TLS is used with %s", showT(e.Args[1]))
		}
	case strings.HasPrefix(e.Name, "tls.Conn.Handshake") && on == m.t["tls"]:
		m.t["herr"] = e.Res
	case strings.HasSuffix(e.Name, ".Close") && (on == m.t["raw"] || m.t["tls"] != nil && on == m.t["tls"]):
		m.n["closed"] = 1
	}
	return false
}

// dialUsed judges the connection used in the end.
func (c *Check) dialUsed(rule, where string, m *M, s *State, e *Event, d dialSettings, u *V, val func(f *types.Var) *V, wantTLS bool) {
	bad := func(k, format string, a ...interface{}) { c.bad(rule, where+" "+k, e.In, s, format, a...) }
	u = connBelow(u)
	m.n["used"] = 1
	c.ob(rule, where)
	if s.facts.nilEval(m.t["err"]) != 1 {
		bad("failed", "a connection is used although making it may have failed")
		return
	}
	if m.n["closed"] == 1 {
		bad("closed", "a connection is used after it was closed")
	}
	for _, x := range []struct {
		f *types.Var
		k string
	}{{d.rbuf, "r"}, {d.wbuf, "w"}} {
		if m.n[x.k] == 0 && s.facts.eval(vLt(vInt(0), val(x.f))) != 0 && !c.notTCP(s, m.t["raw"]) {
			bad(x.f.Name(), "a connection is used without %s having been applied", x.f.Name())
		}
	}
	if !wantTLS {
		if u != m.t["raw"] {
			bad("other", "%s is used instead of the connection made", showT(u))
		}
		return
	}
	switch noTLS := s.facts.nilEval(val(d.tls)) == 1; {
	case noTLS && u != m.t["raw"]:
		bad("other", "%s is used instead of the connection made", showT(u))
	case noTLS:
	case m.t["tls"] == nil || u != m.t["tls"]:
		bad("clear", "the connection used is not the TLS one although a TLS configuration may be given")
	case m.t["herr"] == nil:
		bad("handshake missing", "a connection is used before the TLS handshake: a peer refused by it counts as reached")
	case s.facts.nilEval(m.t["herr"]) != 1:
		bad("handshake", "a connection is used although the TLS handshake may have failed")
	}
}

// dialling: one function that makes connections from a configuration.
func (c *Check) dialling(name string, conf, dc dialSettings, fDial, fRwc, fConf *types.Var, overlay bool) {
	fn := c.fn(name)
	if fn == nil {
		return
	}
	recvIsConn := fn.Signature.Recv() != nil
	var confV *V
	for _, p := range fn.Params {
		if nt, ok := types.Unalias(p.Type()).(*types.Named); ok && nt.Obj().Name() == "ConnectionConfig" {
			confV = vSym(p.Name(), p.Type())
		}
	}
	recv := (*V)(nil)
	if recvIsConn {
		recv = vSym(fn.Params[0].Name(), fn.Params[0].Type())
	}
	c.explore(Config{NoKill: true, KeepPre: true, NilAsserts: true, Opaque: opaqueSet(fnNewC)}, fn, nil, nil, newM("dial", func(m *M, s *State, e *Event) {
		val := func(f *types.Var) *V {
			if recv != nil {
				return s.load(vField(vField(recv, fConf), f), f.Type())
			}
			return s.fieldVal(confV, f)
		}
		bad := func(k, format string, a ...interface{}) { c.bad("dial", name+" "+k, e.In, s, format, a...) }
		own := func(v *V, f *types.Var) bool {
			v = stripConv(strip(v))
			return v == stripConv(strip(val(f)))
		}
		use := func(u *V) {
			c.at("dial-used", e.In)
			if s.facts.nilEval(u) == 1 {
				return
			}
			if o := m.t["over"]; o != nil && strip(u) == o {
				if s.facts.nilEval(m.t["oerr"]) != 1 {
					bad("failed", "a connection is used although making it may have failed")
				}
				m.n["oused"] = 1
				return
			}
			if m.t["raw"] == nil {
				c.bad("dial-used", name+" unknown", e.In, s, "the connection used (%s) was not made here", showT(u))
				return
			}
			c.dialUsed("dial-used", name, m, s, e, conf, u, val, true)
		}
		switch {
		case e.Kind == EvUser && lastField(e.Val) == fDial:
			c.at("dial", e.In)
			if len(e.Args) != 2 {
				return
			}
			for _, p := range [][2]*types.Var{{dc.timeout, conf.timeout}, {dc.rbuf, conf.rbuf}, {dc.wbuf, conf.wbuf}, {dc.tls, conf.tls}} {
				v := s.fieldVal(e.Args[1], p[0])
				if v == nil || !own(v, p[1]) {
					bad("overlay "+p[0].Name(), "the overlay network gets %s as its %s, not the configured one", showT(v), p[0].Name())
				}
			}
			m.t["over"], m.t["oerr"] = strip(e.Res.args[0]), e.Res.args[1]
			m.t["raw"], m.n["oused"] = nil, 0
		case e.Kind == EvCall && e.Name == fnNewC:
			use(e.Args[0])
			if confV != nil && strip(e.Args[2]) != confV {
				bad("conf", "the connection made gets another configuration: %s", showT(e.Args[2]))
			}
		case recv != nil && e.Kind == EvStore && e.Field == fRwc && !isAllocRoot(e.Addr):
			use(e.Val)
		case e.Kind == EvPanicExit:
			if m.t["raw"] != nil && s.facts.nilEval(m.t["err"]) != 1 {
				bad("unexamined", "a connection is used before it is known whether making it failed: it panics")
			}
		case e.Kind == EvReturn:
			if m.t["raw"] != nil && m.n["used"] == 0 && m.n["closed"] == 0 && s.facts.nilEval(m.t["err"]) != 0 {
				c.bad("dial-used", name+" leak", e.In, s, "a socket stays open although the connection is not used")
			}
			if m.t["over"] != nil && m.n["oused"] == 0 && s.facts.nilEval(m.t["oerr"]) != 0 {
				c.bad("dial-used", name+" overlay unused", e.In, s, "the connection of the overlay network is not used")
			}
		}
		if _, ok := isDial(s, e); ok {
			if m.t["raw"] != nil && m.n["used"] == 0 && m.n["closed"] == 0 && s.facts.nilEval(m.t["err"]) != 0 {
				c.bad("dial-used", name+" leak", e.In, s, "a socket stays open while the next one is made")
			}
			if overlay && s.facts.nilEval(val(fDial)) != 1 {
				bad("overlay ignored", "a plain connection is made although an overlay network may be configured")
			}
		}
		if c.dialStep("dial", name, m, s, e, conf) {
			m.t["over"] = nil
		}
	}))
}

// c23passed: configurations are handed on unchanged.
func c23passed(c *Check, fConf *types.Var) {
	if fn := c.fn(fnNewC); fn != nil {
		conf := (*V)(nil)
		for _, p := range fn.Params {
			if nt, ok := types.Unalias(p.Type()).(*types.Named); ok && nt.Obj().Name() == "ConnectionConfig" {
				conf = vSym(p.Name(), p.Type())
			}
		}
		c.explore(Config{NoKill: true}, fn, nil, nil, newM("conf", func(m *M, s *State, e *Event) {
			if e.Kind == EvStore && e.Field == fConf {
				c.ob("passed-on", "kept")
				if strip(e.Val) != conf {
					c.bad("passed-on", "kept", e.In, s, "a connection keeps another configuration than it was made with")
				}
			}
		}))
	}
	c.eachStoreOf(fConf, func(s *State, e *Event) {
		if !isAllocRoot(e.Addr) {
			c.bad("passed-on", fnName(e.In.Parent())+" conf", e.In, s, "the configuration of a connection changes")
		}
	})
	apiConf := c.field("", "defaultAPI", "conf")
	for _, f := range c.p.Funcs {
		calls := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil && (fnName(g) == "qrpc.NewConnection" || fnName(g) == "qrpc.NewConnectionWithReconnect") {
						calls = true
					}
				}
			}
		}
		if !calls || f.Pkg == nil || strings.Contains(f.Pkg.Pkg.Path(), "/tool") || strings.HasSuffix(f.Pkg.Pkg.Path(), "/test") {
			continue
		}
		f := f
		var param *V
		for _, p := range f.Params {
			if nt, ok := types.Unalias(p.Type()).(*types.Named); ok && nt.Obj().Name() == "ConnectionConfig" {
				param = vSym(p.Name(), p.Type())
			}
		}
		st, _ := c.p.typ("", "ConnectionConfig").Underlying().(*types.Struct)
		c.explore(Config{NoKill: true, MaxDepth: 3, Opaque: opaqueSet("qrpc.NewConnection", "qrpc.NewConnectionWithReconnect")}, f, nil, nil, newM("pass", func(m *M, s *State, e *Event) {
			if e.Kind == EvStore && e.Field == apiConf && apiConf != nil {
				if param == nil || strip(e.Val) != param {
					c.bad("passed-on", fnName(f)+" kept", e.In, s, "the endpoints keep another configuration than they were given")
				}
			}
			if e.Kind != EvCall || e.Name != "qrpc.NewConnection" && e.Name != "qrpc.NewConnectionWithReconnect" {
				return
			}
			c.at("passed-on", e.In)
			got := strip(e.Args[1])
			if got == param && param != nil && f.Pkg.Pkg.Name() != "client" || lastField(got) == apiConf && apiConf != nil {
				return
			}
			for i := 0; st != nil && param != nil && i < st.NumFields(); i++ {
				v, w := s.fieldVal(got, st.Field(i)), s.fieldVal(param, st.Field(i))
				if st.Field(i).Name() == "OverlayNetwork" && f.Pkg.Pkg.Name() == "client" {
					if x := strip(v); x.k != KFunc && x.k != KClosure {
						c.bad("passed-on", fnName(f)+" overlay", e.In, s, "the websocket connection is made over %s", showT(v))
					}
					continue
				}
				if v == nil || strip(v) != strip(w) {
					c.bad("passed-on", fnName(f)+" "+st.Field(i).Name(), e.In, s, "a connection is made with %s as its %s, not the configured one", showT(v), st.Field(i).Name())
				}
			}
			if param == nil {
				c.bad("passed-on", fnName(f), e.In, s, "a connection is made with the configuration %s", showT(got))
			}
		}))
	}
	c.floor("passed-on")
}

// c23ws: dialling the websocket overlay.
func c23ws(c *Check, dc dialSettings) {
	fn := c.p.fnIn("ws/client", "client.DialConn")
	if fn == nil {
		c.bad("ws-dial", "gone", nil, nil, "the function dialling the websocket overlay is gone")
		return
	}
	var dcV *V
	for _, p := range fn.Params {
		if nt, ok := types.Unalias(p.Type()).(*types.Named); ok && nt.Obj().Name() == "DialConfig" {
			dcV = vSym(p.Name(), p.Type())
		}
	}
	if dcV == nil {
		c.bad("ws-dial", "config", nil, nil, "dialling the websocket overlay takes no settings")
		return
	}
	var hook *ssa.Function
	var free []*V
	c.explore(Config{NoKill: true, KeepPre: true}, fn, nil, nil, newM("ws", func(m *M, s *State, e *Event) {
		bad := func(k, format string, a ...interface{}) { c.bad("ws-dial", k, e.In, s, format, a...) }
		switch {
		case e.Kind == EvCall && (e.Name == "websocket.Dialer.Dial" || e.Name == "websocket.Dialer.DialContext"):
			c.at("ws-dial", e.In)
			st := recvStruct(e.Args[0], e.Fn)
			if st == nil {
				bad("dialer", "the dialer used is not recognised")
				return
			}
			now := s.mem
			if e.Pre != nil {
				s.mem = e.Pre
			}
			defer func() { s.mem = now }()
			get := func(n string) *V {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == n {
						return s.load(vField(strip(e.Args[0]), st.Field(i)), st.Field(i).Type())
					}
				}
				return nil
			}
			tls := s.fieldVal(dcV, dc.tls)
			if v := get("TLSClientConfig"); v == nil || strip(v) != strip(tls) {
				bad("tls", "the websocket is dialled with the TLS configuration %s", showT(v))
			}
			for _, n := range []string{"NetDialTLSContext", "NetDialContext", "Proxy"} {
				if v := get(n); v != nil && s.facts.nilEval(v) != 1 {
					bad(n, "the websocket is dialled with %s", n)
				}
			}
			nd := strip(get("NetDial"))
			switch {
			case nd != nil && nd.k == KClosure:
				hook = nd.aux.(*ssa.Function)
				free = nil
				for _, a := range nd.args {
					free = append(free, a)
				}
				m.t["cell"] = nil
			case nd != nil && nd.k == KFunc:
				hook, free = nd.aux.(*ssa.Function), nil
			default:
				bad("settings", "the websocket is dialled without the timeout and buffer settings")
			}
			url := e.Args[1]
			if strings.HasSuffix(e.Name, "Context") {
				url = e.Args[2]
			}
			pre := leadingString(url)
			switch s.facts.nilEval(tls) {
			case 0:
				if !strings.HasPrefix(pre, "wss://") {
					bad("scheme", "with a TLS configuration the websocket is dialled at %q", pre)
				}
			case 1:
				if !strings.HasPrefix(pre, "ws://") {
					bad("scheme plain", "without a TLS configuration the websocket is dialled at %q", pre)
				}
			default:
				bad("scheme unknown", "the websocket is dialled without having looked for a TLS configuration")
			}
			m.t["wc"], m.t["err"] = strip(e.Res.args[0]), e.Res.args[len(e.Res.args)-1]
		case e.Kind == EvReturn:
			c.ob("ws-dial", "result")
			if m.t["wc"] == nil {
				return
			}
			n := s.facts.nilEval(m.t["err"])
			if got := s.facts.nilEval(e.Args[1]); got != n {
				bad("told", "the outcome of dialling is not reported: %s", showT(e.Args[1]))
			}
		}
	}))
	c.floor("ws-dial")
	if hook == nil {
		return
	}
	c.hookDial(hook, free, dcV, dc)
}

// hookDial: the function making the TCP connection below a websocket.
func (c *Check) hookDial(hook *ssa.Function, free []*V, dcV *V, dc dialSettings) {
	var fv []*V
	for _, f := range hook.FreeVars {
		fv = append(fv, vSym("free:"+f.Name(), f.Type()))
	}
	isDC := func(t types.Type) bool {
		nt, ok := types.Unalias(derefType(t)).(*types.Named)
		return ok && nt.Obj().Name() == "DialConfig"
	}
	c.exploreInit(Config{NoKill: true, KeepPre: true}, hook, nil, fv, func(s *State) {
		for i, f := range hook.FreeVars {
			if isDC(f.Type()) {
				s.mem[fv[i]] = dcV
			}
		}
	}, newM("hook", func(m *M, s *State, e *Event) {
		val := func(f *types.Var) *V { return s.fieldVal(dcV, f) }
		if e.Kind == EvReturn {
			if s.facts.nilEval(e.Args[1]) == 0 || m.t["raw"] == nil || s.facts.nilEval(e.Args[0]) == 1 {
				if m.t["raw"] != nil && s.facts.nilEval(m.t["err"]) == 1 && m.n["closed"] == 0 {
					c.bad("ws-settings", "leak", e.In, s, "a socket stays open although the connection is not used")
				}
				if m.t["raw"] == nil && s.facts.nilEval(e.Args[1]) != 0 {
					c.bad("ws-settings", "none", e.In, s, "dialling succeeds without a connection")
				}
				return
			}
			if s.facts.nilEval(m.t["err"]) == -1 || s.facts.nilEval(m.t["err"]) == 0 {
				return // passed on with its error
			}
			c.dialUsed("ws-settings", "websocket", m, s, e, dc, e.Args[0], val, false)
			return
		}
		c.dialStep("ws-settings", "websocket", m, s, e, dc)
	}))
	c.floor("ws-settings")
}

// leadingString is the known beginning of a string.
func leadingString(v *V) string {
	for v != nil {
		if v.isConst() && v.c != nil && v.c.Kind() == constant.String {
			return constant.StringVal(v.c)
		}
		if v.k == KBin && v.op == token.ADD {
			v = v.args[0]
			continue
		}
		break
	}
	return ""
}

// c23listen: what a server listens with.
func c23listen(c *Check) {
	fn := c.fn("qrpc.Server.ListenAll")
	fLn, fTLS, fOver := c.field("", "ServerBinding", "ln"), c.field("", "ServerBinding", "TLSConf"), c.field("", "ServerBinding", "OverlayNetwork")
	fR, fW, fLF := c.field("", "ServerBinding", "RBufSize"), c.field("", "ServerBinding", "WBufSize"), c.field("", "ServerBinding", "ListenFunc")
	kL, kC := c.field("", "TCPKeepAliveListener", "Listener"), c.field("", "TCPKeepAliveListener", "Conf")
	kR, kW := c.field("", "KeepAliveListenerConfig", "ReadBufferSize"), c.field("", "KeepAliveListenerConfig", "WriteBufferSize")
	tK, tT := c.field("", "TLSKeepAliveListener", "TCPKeepAliveListener"), c.field("", "TLSKeepAliveListener", "TLSConfig")
	if fn == nil || fLn == nil || fTLS == nil || fOver == nil || fR == nil || fW == nil || fLF == nil || kL == nil || kC == nil || kR == nil || kW == nil || tK == nil || tT == nil {
		return
	}
	c.explore(Config{NoKill: true, KeepPre: true}, fn, nil, nil, newM("listen", func(m *M, s *State, e *Event) {
		bad := func(k, format string, a ...interface{}) { c.bad("listen", k, e.In, s, format, a...) }
		// plain checks a listener of TCP connections
		plain := func(k *V, idx *V) {
			ld := func(a *V, f *types.Var) *V { return s.load(vField(a, f), f.Type()) }
			if v := strip(ld(k, kL)); m.t["ln"] == nil || v != m.t["ln"] {
				bad("socket", "connections are accepted from %s, not from the socket just opened", showT(v))
			}
			cf := ld(k, kC)
			for _, p := range [][2]*types.Var{{kR, fR}, {kW, fW}} {
				v := s.fieldVal(cf, p[0])
				if v == nil || lastField(v) != p[1] || !mentionsIdx(v, idx) {
					bad(p[1].Name(), "accepted connections get %s as their %s", showT(v), p[1].Name())
				}
			}
		}
		tlsOf := func(v *V, idx *V) bool {
			return v != nil && lastField(strip(v)) == fTLS && mentionsIdx(v, idx)
		}
		kind := func(v *V) (string, *V) {
			if v.k == KIface {
				if nt, ok := types.Unalias(derefType(v.typ)).(*types.Named); ok {
					return nt.Obj().Name(), strip(v.args[0])
				}
			}
			return "", strip(v)
		}
		switch {
		case e.Kind == EvCall && e.Name == "net.Listen", e.Kind == EvUser && lastField(e.Val) == fLF:
			c.at("listen", e.In)
			m.t["ln"], m.t["over"], m.t["octl"] = strip(e.Res.args[0]), nil, nil
		case e.Kind == EvUser && lastField(e.Val) == fOver:
			c.at("listen", e.In)
			m.t["over"] = strip(e.Res)
			m.t["octl"] = e.Args[1]
			n, k := kind(e.Args[0])
			idx := idxIn(e.Val)
			if e.Pre != nil {
				now := s.mem
				s.mem = e.Pre
				defer func() { s.mem = now }()
			}
			if !tlsOf(e.Args[1], idx) {
				bad("overlay tls", "the overlay network gets the TLS configuration %s", showT(e.Args[1]))
			}
			if n != "TCPKeepAliveListener" {
				bad("overlay listener", "the overlay network listens on %s", showT(e.Args[0]))
				return
			}
			plain(k, idx)
		case e.Kind == EvStore && e.Field == fLn:
			c.at("listen", e.In)
			idx := idxIn(e.Addr)
			if m.t["over"] != nil && strip(e.Val) == m.t["over"] {
				return
			}
			b := e.Addr.args[0]
			ov, tl := s.load(vField(b, fOver), fOver.Type()), s.load(vField(b, fTLS), fTLS.Type())
			if s.facts.nilEval(ov) != 1 && !c.knownNilField(s, fOver) {
				bad("overlay", "the overlay network is ignored")
			}
			switch n, k := kind(e.Val); n {
			case "TLSKeepAliveListener":
				if v := s.load(vField(k, tT), tT.Type()); !tlsOf(v, idx) {
					bad("tls", "connections are accepted with the TLS configuration %s", showT(v))
				}
				plain(vField(k, tK), idx)
			case "TCPKeepAliveListener":
				if s.facts.nilEval(tl) != 1 && !c.knownNilField(s, fTLS) {
					bad("clear", "connections are accepted in clear although a TLS configuration may be given")
				}
				plain(k, idx)
			default:
				bad("listener", "connections are accepted from %s", showT(e.Val))
			}
		}
	}))
	c.floor("listen")
	if sv := c.fn("qrpc.Server.ServeAll"); sv != nil {
		c.eachStoreOf(fLn, func(s *State, e *Event) {
			if !c.funcs[e.In.Parent()] {
				c.bad("listen", fnName(e.In.Parent()), e.In, s, "the listener of a binding is replaced")
			}
		})
	}
}

// idxIn is the index of the binding an address or value belongs to.
func idxIn(v *V) *V {
	for v != nil {
		if v.k == KIdx {
			return v
		}
		if len(v.args) == 0 {
			return nil
		}
		v = v.args[0]
	}
	return nil
}

func mentionsIdx(v, idx *V) bool {
	if idx == nil {
		return false
	}
	w := idxIn(v)
	return w != nil && (w == idx || strip(w.args[1]) == strip(idx.args[1]))
}

// c23accept: accepted connections.
func c23accept(c *Check) {
	kR, kW, kC := c.field("", "KeepAliveListenerConfig", "ReadBufferSize"), c.field("", "KeepAliveListenerConfig", "WriteBufferSize"), c.field("", "TCPKeepAliveListener", "Conf")
	tT := c.field("", "TLSKeepAliveListener", "TLSConfig")
	if kR == nil || kW == nil || kC == nil || tT == nil {
		return
	}
	for _, name := range []string{"qrpc.TCPKeepAliveListener.Accept", "qrpc.TLSKeepAliveListener.Accept"} {
		name := name
		fn := c.fn(name)
		if fn == nil {
			continue
		}
		recv := vSym(fn.Params[0].Name(), fn.Params[0].Type())
		c.explore(Config{NoKill: true}, fn, []*V{recv}, nil, newM("accept", func(m *M, s *State, e *Event) {
			bad := func(k, format string, a ...interface{}) { c.bad("accept", name+" "+k, e.In, s, format, a...) }
			base := connBelow
			switch {
			case e.Kind == EvCall && strings.HasSuffix(e.Name, ".Accept") && len(e.Res.args) == 2:
				c.at("accept", e.In)
				m.t["raw"], m.t["err"] = base(e.Res.args[0]), e.Res.args[1]
			case e.Kind == EvCall && strings.HasSuffix(e.Name, ".SetReadBuffer") && base(e.Args[0]) == m.t["raw"]:
				m.t["r"] = e.Args[1]
				if lastField(e.Args[1]) != kR {
					bad("rbuf", "the receive buffer is set to %s", e.Args[1])
				} else if s.facts.interval(e.Args[1]).lo < 1 {
					bad("rbuf unset", "the receive buffer is changed although no size may be configured")
				}
			case e.Kind == EvCall && strings.HasSuffix(e.Name, ".SetWriteBuffer") && base(e.Args[0]) == m.t["raw"]:
				m.t["w"] = e.Args[1]
				if lastField(e.Args[1]) != kW {
					bad("wbuf", "the send buffer is set to %s", e.Args[1])
				} else if s.facts.interval(e.Args[1]).lo < 1 {
					bad("wbuf unset", "the send buffer is changed although no size may be configured")
				}
			case e.Kind == EvCall && e.Name == "tls.Server":
				m.t["tls"] = base(e.Res)
				if base(e.Args[0]) != m.t["raw"] || lastField(strip(e.Args[1])) != tT || !contains(e.Args[1], recv) {
					bad("tls", "TLS is served on %s with %s", showT(e.Args[0]), showT(e.Args[1]))
				}
			case e.Kind == EvReturn:
				if s.facts.nilEval(e.Args[1]) == 0 {
					return
				}
				c.ob("accept", name)
				if m.t["raw"] == nil {
					bad("none", "accepting succeeds without a connection")
					return
				}
				if s.facts.nilEval(m.t["err"]) != 1 {
					if s.facts.nilEval(m.t["err"]) == -1 && strip(e.Args[1]) == strip(m.t["err"]) {
						return
					}
					bad("failed", "accepting succeeds although it may have failed")
				}
				conf := vField(recv, kC)
				if name == "qrpc.TLSKeepAliveListener.Accept" {
					if m.t["tls"] == nil || base(e.Args[0]) != m.t["tls"] {
						bad("clear", "the connection accepted from a TLS listener is not a TLS one: %s", showT(e.Args[0]))
					}
					if f := c.field("", "TLSKeepAliveListener", "TCPKeepAliveListener"); f != nil {
						conf = vField(vField(recv, f), kC)
					}
				} else if base(e.Args[0]) != m.t["raw"] {
					bad("other", "%s is returned instead of the connection accepted", showT(e.Args[0]))
				}
				for _, x := range []struct {
					f *types.Var
					k string
				}{{kR, "r"}, {kW, "w"}} {
					if m.t[x.k] == nil && s.facts.eval(vLt(vInt(0), s.load(vField(conf, x.f), x.f.Type()))) != 0 {
						bad(x.f.Name(), "a connection is accepted without %s having been applied", x.f.Name())
					}
				}
			}
		}))
	}
	c.floor("accept")
}

// c23overlay: what the websocket overlay serves.
func c23overlay(c *Check) {
	fn := c.p.fnIn("ws/server", "server.OverlayNetwork")
	if fn == nil || len(fn.Params) != 2 {
		c.bad("ws-listen", "gone", nil, nil, "the function making the websocket overlay is gone")
		return
	}
	l, conf := vSym(fn.Params[0].Name(), fn.Params[0].Type()), vSym(fn.Params[1].Name(), fn.Params[1].Type())
	c.explore(Config{NoKill: true, FollowGo: func(e *Event) bool { return true }}, fn, []*V{l, conf}, nil, newM("ws", func(m *M, s *State, e *Event) {
		bad := func(k, format string, a ...interface{}) { c.bad("ws-listen", k, e.In, s, format, a...) }
		switch {
		case e.Kind == EvCall && e.Name == "tls.NewListener":
			c.at("ws-listen", e.In)
			m.t["tls"] = strip(e.Res)
			if strip(e.Args[0]) != l || strip(e.Args[1]) != conf {
				bad("tls", "TLS is served on %s with %s", showT(e.Args[0]), showT(e.Args[1]))
			}
		case e.Kind == EvCall && strings.HasPrefix(e.Name, "http.Server.Serve"):
			c.at("ws-listen", e.In)
			m.n["served"] = 1
			if e.Name != "http.Server.Serve" {
				bad("serve", "the overlay is served by %s", e.Name)
				return
			}
			ln := strip(e.Args[1])
			switch s.facts.nilEval(conf) {
			case 1:
				if ln != l {
					bad("plain", "the overlay is served on %s", showT(ln))
				}
			default:
				if m.t["tls"] == nil || ln != m.t["tls"] {
					bad("clear", "the overlay is served in clear although a TLS configuration may be given")
				}
			}
		}
	}))
	c.floor("ws-listen")
	// websocket servers use it
	if nw := c.p.fnIn("ws/server", "server.New"); nw != nil {
		fOver := c.field("", "ServerBinding", "OverlayNetwork")
		c.explore(Config{NoKill: true, Opaque: opaqueSet("qrpc.NewServer")}, nw, nil, nil, newM("new", func(m *M, s *State, e *Event) {
			if e.Kind == EvStore && e.Field != nil && ownerName(c.p, e.Field) == "ServerBinding" {
				c.ob("ws-listen", "New")
				if e.Field != fOver {
					c.bad("ws-listen", "New "+e.Field.Name(), e.In, s, "a websocket server changes the %s of its bindings", e.Field.Name())
				} else if f := strip(e.Val); f.k != KFunc || f.aux.(*ssa.Function) != fn {
					c.bad("ws-listen", "New overlay", e.In, s, "a websocket server's overlay is %s", showT(e.Val))
				}
			}
		}))
	}
}
