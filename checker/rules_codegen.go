package main

import (
	"go/ast"
	"go/constant"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C27", "path typestate of the dispatcher of generated services (one answer per request, its command and content for every outcome), of the client's request (what is sent, when the next address is tried, when an error is reported), and of the texts the generator emits for every method (abstract interpretation of the generator, syntax of the emitted functions)", c27)
}

func c27(c *Check) {
	c27dispatch(c)
	c27client(c)
	c27generate(c)
	c.floor("generate")
	c.floor("dispatch")
	c.floor("request")
	c.floor("wiring")
}

func fieldNamed(st *types.Struct, want string) (r *types.Var) {
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if shortType(st.Field(i).Type()) == want {
			if r != nil {
				return nil
			}
			r = st.Field(i)
		}
	}
	return
}

// reqFields gives the fields of the request message: service, method, parameters.
func (c *Check) reqFields() (ns, method, params *types.Var) {
	return c.field("codegen/pb", "RpcRequest", "NS"), c.field("codegen/pb", "RpcRequest", "Method"), c.field("codegen/pb", "RpcRequest", "Params")
}

// c27dispatch: one request for every content and outcome.
func c27dispatch(c *Check) {
	fErr := c.only("codegen", "ServiceHandler", "qrpc.Cmd", true)
	fCB := c.only("codegen", "ServiceHandler", "map[string]codegen.MethodCall", true)
	fns, fm, fp := c.reqFields()
	fn := c.fn("codegen.ServiceHandler.ServeQRPC")
	fID, fCmd, fPay := c.field("", "Frame", "RequestID"), c.field("", "Frame", "Cmd"), c.field("", "Frame", "Payload")
	fStream, fCtx := c.field("", "Frame", "Stream"), c.field("", "Stream", "ctx")
	key := c.fn("codegen.FQMethod")
	if fErr == nil || fCB == nil || fn == nil || fns == nil || fID == nil || key == nil {
		return
	}
	fb := c.flagBits()
	a := params(fn)
	recv, w, fr := a[0], a[1], a[2]
	get := func(s *State, x *V, f *types.Var) *V { return strip(s.load(vField(x, f), f.Type())) }
	c.explore(Config{NoKill: true, Opaque: opaqueSet("pb.RpcRequest.Unmarshal", "codegen.FQMethod", "qrpc.RequestFrame.Close", "qrpc.Frame.Close")}, fn, nil, nil, newM("dispatch", func(m *M, s *State, e *Event) {
		bad := func(k, format string, x ...interface{}) { c.bad("dispatch", k, e.In, s, format, x...) }
		// why the request cannot be answered with a result; "" when it can
		failed := func() string {
			switch {
			case m.t["derr"] == nil:
				return "unread"
			case s.facts.nilEval(m.t["derr"]) != 1:
				return "decode"
			case m.n["found"] != 1:
				return "unknown"
			case m.t["cerr"] == nil:
				return "uncalled"
			case s.facts.nilEval(m.t["cerr"]) != 1:
				return "method"
			}
			return ""
		}
		on := func() bool {
			if e.Kind != EvCall || !strings.HasPrefix(e.Name, "qrpc.FrameWriter.") {
				return false
			}
			if strip(e.Args[0]) != w {
				bad("writer", "the answer is written to %s", showT(e.Args[0]))
			}
			return true
		}
		switch {
		case e.Kind == EvCall && e.Name == "pb.RpcRequest.Unmarshal":
			c.at("dispatch", e.In)
			if strip(e.Args[1]) != get(s, fr, fPay) {
				bad("decodes", "what is decoded is %s, not the payload of the request", showT(e.Args[1]))
			}
			if !isAllocRoot(e.Args[0]) {
				bad("decodes shared", "requests are decoded into %s, shared by all of them", showT(e.Args[0]))
			}
			m.t["req"], m.t["derr"] = strip(e.Args[0]), e.Res
		case e.Kind == EvCall && e.Name == "codegen.FQMethod":
			if req := m.t["req"]; req == nil || strip(e.Args[0]) != get(s, req, fns) || strip(e.Args[1]) != get(s, req, fm) {
				bad("names", "the method is looked up as (%s, %s)", showT(e.Args[0]), showT(e.Args[1]))
			}
			m.t["key"] = strip(e.Res)
		case e.Kind == EvMapLookup && lastField(e.Addr) == fCB:
			c.at("dispatch", e.In)
			if m.t["key"] == nil || strip(e.Args[0]) != m.t["key"] || m.t["derr"] == nil || s.facts.nilEval(m.t["derr"]) != 1 {
				bad("looks up", "the method looked up is %s, or the request may not have been decoded", showT(e.Args[0]))
			}
			m.n["found"] = b2i(e.Op == "hit")
			m.t["cb"] = e.Res
			if e.Res != nil && e.Res.k == KTuple {
				m.t["cb"] = e.Res.args[0]
			}
		case e.Kind == EvUser:
			c.at("dispatch", e.In)
			if m.n["called"] == 1 {
				bad("twice", "the method is called twice")
			}
			m.n["called"] = 1
			if m.n["started"] > 0 {
				bad("late call", "the method is called after the answer was begun")
			}
			if m.n["found"] != 1 || m.t["cb"] == nil || sym(e.Val) != sym(m.t["cb"]) {
				bad("calls", "what is called is %s, not the method registered under the name", showT(e.Val))
			}
			if len(e.Args) == 2 {
				if ctx := strip(e.Args[0]); ctx != get(s, get(s, fr, fStream), fCtx) {
					bad("context", "the method is called with the context %s", showT(e.Args[0]))
				}
				if req := m.t["req"]; req == nil || strip(e.Args[1]) != get(s, req, fp) {
					bad("params", "the method is called with %s", showT(e.Args[1]))
				}
			}
			if e.Res != nil && e.Res.k == KTuple {
				m.t["out"], m.t["cerr"] = e.Res.args[0], e.Res.args[1]
			}
		case e.Kind == EvCall && (e.Name == "qrpc.RequestFrame.Close" || e.Name == "qrpc.Frame.Close"):
			m.n["closed"] = 1
			if m.n["ended"] == 0 {
				bad("closes", "the connection is closed before the answer is sent")
			}
		case on():
			c.at("dispatch", e.In)
			switch e.Name[len("qrpc.FrameWriter."):] {
			case "StartWrite":
				if m.n["started"] == 1 || m.n["ended"] == 1 {
					bad("two", "a second answer is begun")
				}
				m.n["started"] = 1
				m.n["text"] = 0
				if strip(e.Args[1]) != get(s, fr, fID) {
					bad("id", "the answer has the id %s", showT(e.Args[1]))
				}
				why := failed()
				cmd := strip(e.Args[2])
				switch {
				case why == "unread" || why == "uncalled":
					bad("early", "the answer is begun before the outcome is known")
				case why == "" && cmd != get(s, fr, fCmd):
					bad("command", "a result is sent under the command %s", showT(cmd))
				case why != "" && cmd != get(s, recv, fErr):
					bad("error command", "an error (%s) is sent under the command %s", why, showT(cmd))
				}
				if v, ok := e.Args[3].intC(); !ok || v&(1<<uint(fb.st)|1<<uint(fb.end)|1<<uint(fb.rst)|1<<uint(fb.push)) != 0 {
					bad("flags", "the answer has the flags %s", showT(e.Args[3]))
				}
			case "WriteBytes":
				if m.n["started"] == 0 {
					bad("unstarted", "bytes are written outside an answer")
				}
				x := strip(e.Args[1])
				if failed() == "" {
					if m.n["text"] == 1 || x != strip(m.t["out"]) && stripConv(x) != strip(m.t["out"]) {
						bad("result", "the result sent contains %s", showT(x))
					}
				} else if cc := stripConv(x); cc != nil && leadingString(cc) == "" && cc.k == KConst {
					return
				}
				m.n["text"] = 1
			case "EndWrite":
				if m.n["started"] == 0 {
					bad("unstarted", "an answer is sent which was not begun")
				}
				m.n["started"] = 0
				m.n["ended"]++
				if m.n["ended"] > 1 {
					bad("two", "two answers are sent")
				}
				if m.n["text"] == 0 {
					bad("empty", "the answer carries neither the result nor a text")
				}
			case "ResetFrame", "EndWriteCompressed", "StreamEndWrite":
				bad("other", "a request is answered with %s", e.Name)
			}
		case e.Kind == EvReturn:
			c.ob("dispatch", "return "+failed())
			if m.n["ended"] != 1 || m.n["started"] == 1 {
				bad("none", "a request is not answered exactly once (%s)", failed())
			}
		}
	}))
	// names map to one method each
	kp := params(key)
	c.explore(Config{NoKill: true, KeepPre: true}, key, nil, nil, newM("key", func(m *M, s *State, e *Event) {
		switch {
		case e.Kind == EvCall && e.Name == "fmt.Sprintf":
			m.t["res"] = e.Res
			c.at("wiring", e.In)
			f := leadingString(strip(e.Args[0]))
			parts := strings.Split(f, "%")
			if len(parts) != 3 || parts[0] != "" || len(parts[1]) < 2 || parts[2] != "s" && parts[2] != "v" && parts[2] != "q" {
				c.bad("wiring", "key", e.In, s, "the name of a method is made with the format %q: different methods may get the same", f)
			}
			m.t["a"], m.t["b"] = elemAt(e, e.Args[1], 0), elemAt(e, e.Args[1], 1)
		case e.Kind == EvReturn:
			c.ob("wiring", "key")
			r := strip(e.Res)
			if m.t["res"] != nil && r == strip(m.t["res"]) {
				if sym(m.t["a"]) != kp[0] || sym(m.t["b"]) != kp[1] {
					c.bad("wiring", "key", e.In, s, "the name of a method is made of %s and %s", showT(m.t["a"]), showT(m.t["b"]))
				}
				return
			}
			if l := concatLeaves(r); len(l) != 3 || sym(l[0]) != kp[0] || l[1].k != KConst || leadingString(l[1]) == "" || sym(l[2]) != kp[1] {
				c.bad("wiring", "key", e.In, s, "the name of a method is %s", showT(r))
			}
		}
	}))
	if nf := c.fn("codegen.NewServiceHandler"); nf != nil {
		p := params(nf)
		c.explore(Config{NoKill: true}, nf, nil, nil, newM("new", func(m *M, s *State, e *Event) {
			if e.Kind != EvReturn {
				return
			}
			c.ob("wiring", "NewServiceHandler")
			x := sym(e.Res)
			if sym(get(s, x, fErr)) != p[0] || sym(get(s, x, fCB)) != p[1] {
				c.bad("wiring", "NewServiceHandler", e.In, s, "a new handler has the error command %s and the methods %s", showT(get(s, x, fErr)), showT(get(s, x, fCB)))
			}
		}))
	}
	for _, f := range []*types.Var{fErr, fCB} {
		f := f
		c.eachStoreOf(f, func(s *State, e *Event) {
			if !isAllocRoot(e.Addr) {
				c.bad("wiring", fnName(e.In.Parent())+" "+f.Name(), e.In, s, "%s of a handler is replaced", f.Name())
			}
		})
	}
}

// elemAt: element i of a slice made for a call.
func elemAt(e *Event, sl *V, i int64) *V {
	if sl = sym(sl); sl == nil || e.Pre == nil {
		return nil
	}
	return e.Pre[vIdx(sl, vInt(i))]
}

// before loads what an address held before an opaque call.
func (s *State) before(e *Event, a *V, t types.Type) *V {
	if e.Pre == nil {
		return s.load(a, t)
	}
	o := s.clone()
	o.mem = e.Pre
	return o.load(a, t)
}

func text2(fset *token.FileSet, n ast.Node) string {
	var sb strings.Builder
	printer.Fprint(&sb, fset, n)
	return sb.String()
}

// concatLeaves flattens a concatenation of strings.
func concatLeaves(v *V) []*V {
	v = strip(v)
	if v != nil && v.k == KBin && isBasic(v.typ, types.IsString) && len(v.args) == 2 {
		return append(concatLeaves(v.args[0]), concatLeaves(v.args[1])...)
	}
	return []*V{v}
}

// c27client: one request for every outcome.
func c27client(c *Check) {
	fns, fm, fp := c.reqFields()
	st, _ := c.p.typ("codegen", "Client").Underlying().(*types.Struct)
	fn := c.fn("codegen.Client.Request")
	nw := c.fn("codegen.NewClient")
	if st == nil || fn == nil || fns == nil || nw == nil {
		return
	}
	fConns := fieldNamed(st, "[]*qrpc.Connection")
	fPay, fCmd := c.field("", "Frame", "Payload"), c.field("", "Frame", "Cmd")
	var cmds []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		if shortType(st.Field(i).Type()) == "qrpc.Cmd" {
			cmds = append(cmds, st.Field(i))
		}
	}
	if fConns == nil || len(cmds) != 2 {
		c.report("anchor", "codegen.Client", "?", "the client has no connections or not two commands", nil)
		return
	}
	// which command is which: by what the constructor is given
	var fReq, fErr *types.Var
	np := params(nw)
	for k := int64(0); k <= 3; k++ {
		k := k
		init := func(s *State) { s.facts.assume(vEq(vLen(np[2]), vInt(k)), true) }
		c.exploreInit(Config{NoKill: true, KeepPre: true, Exact: true, Concrete: true, Opaque: opaqueSet("qrpc.NewConnectionWithReconnect")}, nw, nil, nil, init, newM("new", func(m *M, s *State, e *Event) {
			bad := func(k, format string, x ...interface{}) { c.bad("wiring", "NewClient "+k, e.In, s, format, x...) }
			switch {
			case e.Kind == EvCall && e.Name == "qrpc.NewConnectionWithReconnect":
				c.at("wiring", e.In)
				x := sym(elemAt(e, e.Args[0], 0))
				if at := vIdx(strip(e.Args[0]), vInt(0)); at.args[0] == np[2] {
					x = mk(KLoad, 0, nil, 0, types.Typ[types.String], nil, at)
				}
				one := s.facts.eval(vEq(vLen(strip(e.Args[0])), vInt(1))) == 1 && x != nil && x.k == KLoad && x.args[0].k == KIdx && rootOf(x.args[0].args[0]) == np[2]
				if n, ok := int64(-1), false; !one {
					bad("address", "a connection is made to %s", showT(e.Args[0]))
				} else if n, ok = x.args[0].args[1].intC(); !ok || m.n["to"]&(1<<uint(n)) != 0 {
					bad("address", "two connections are made to one address (%d)", n)
				} else {
					m.n["to"] |= 1 << uint(n)
				}
				m.n["made"]++
				m.t["conn"] = strip(e.Res)
			case e.Kind == EvAppend && m.t["conn"] != nil:
				if v := s.mem[vIdx(e.Args[1], vInt(0))]; sym(v) == m.t["conn"] && (m.t["list"] == nil || strip(e.Args[0]) == m.t["list"]) {
					m.n["put"]++
					m.t["conn"], m.t["list"] = nil, strip(e.Res)
				}
			case e.Kind == EvStore && e.Addr != nil && e.Addr.k == KIdx && m.t["conn"] != nil && sym(e.Val) == m.t["conn"] && rootOf(e.Addr.args[0]).k != KAlloc:
				m.n["put"]++
			case e.Kind == EvReturn:
				c.ob("wiring", "NewClient")
				o := sym(e.Res)
				for _, f := range cmds {
					switch sym(s.load(vField(o, f), f.Type())) {
					case np[0]:
						fReq = f
					case np[1]:
						fErr = f
					}
				}
				have := s.load(vField(o, fConns), fConns.Type())
				if int64(m.n["made"]) != k || m.n["put"] != int(k) || m.t["list"] != nil && strip(have) != m.t["list"] || m.t["list"] == nil && s.facts.eval(vEq(vLen(have), vInt(k))) != 1 {
					bad("addresses", "%d connections are made for %d addresses, the client has %d (%s)", m.n["made"], k, m.n["put"], showT(have))
				}
			}
		}))
	}
	if fReq == nil || fErr == nil {
		c.report("wiring", "NewClient commands", c.p.pos(nw.Pos()), "the client does not keep the commands given", nil)
		return
	}
	ends := 3
	if c.tier == "thorough" {
		ends = 5
	}
	for k := 0; k <= ends; k++ {
		c27request(c, fn, k, fConns, fReq, fErr, fPay, fCmd, fns, fm, fp)
	}
	for _, f := range []*types.Var{fConns, fReq, fErr} {
		f := f
		c.eachStoreOf(f, func(s *State, e *Event) {
			if !isAllocRoot(e.Addr) {
				c.bad("wiring", fnName(e.In.Parent())+" "+f.Name(), e.In, s, "%s of a client is replaced", f.Name())
			}
		})
	}
}

// c27request: one request of a client with k connections.
func c27request(c *Check, fn *ssa.Function, k int, fConns, fReq, fErr, fPay, fCmd, fns, fm, fp *types.Var) {
	a := params(fn)
	recv, ctx, ns, name, in := a[0], a[1], a[2], a[3], a[4]
	fb := c.flagBits()
	cfg := Config{NoKill: true, KeepPre: true, Exact: true, Concrete: true, Opaque: opaqueSet("pb.RpcRequest.Marshal", fnRequest, "qrpc.Connection.ResetFrame")}
	conns := func(s *State) *V { return s.load(vField(recv, fConns), fConns.Type()) }
	init := func(s *State) { s.facts.assume(vEq(vLen(conns(s)), vInt(int64(k))), true) }
	c.exploreInit(cfg, fn, nil, nil, init, newM("request", func(m *M, s *State, e *Event) {
		bad := func(kk, format string, x ...interface{}) { c.bad("request", kk, e.In, s, format, x...) }
		known := func(v *V, want int) bool { return v != nil && s.facts.nilEval(v) == want }
		switch {
		case e.Kind == EvCall && e.Name == "pb.RpcRequest.Marshal":
			c.at("request", e.In)
			r := strip(e.Args[0])
			for _, x := range []struct {
				f *types.Var
				v *V
			}{{fns, ns}, {fm, name}, {fp, in}} {
				if got := s.before(e, vField(r, x.f), x.f.Type()); sym(got) != x.v {
					bad("content", "the request carries %s as %s", showT(got), x.f.Name())
				}
			}
			m.t["bytes"], m.t["merr"] = e.Res.args[0], e.Res.args[1]
		case e.Kind == EvCall && e.Name == fnRequest:
			c.at("request", e.In)
			if !known(m.t["merr"], 1) || strip(e.Args[3]) != strip(m.t["bytes"]) {
				bad("sends", "what is sent is %s, not the encoded request", showT(e.Args[3]))
			}
			if strip(e.Args[1]) != strip(s.load(vField(recv, fReq), fReq.Type())) {
				bad("command", "the request is sent under the command %s", showT(e.Args[1]))
			}
			if v, ok := e.Args[2].intC(); !ok || v&^(1<<uint(fb.nb)) != 0 {
				bad("flags", "the request is sent with the flags %s", showT(e.Args[2]))
			}
			if m.n["sent"] > 0 && !known(m.t["serr"], 0) {
				bad("repeats", "another address is tried although sending may have succeeded")
			}
			m.n["sent"]++
			m.t["resp"], m.t["serr"] = e.Res.args[1], e.Res.args[2]
			// which address
			x := strip(e.Args[0])
			if x == nil || x.k != KLoad || x.args[0].k != KIdx || x.args[0].args[0] != strip(conns(s)) && rootOf(x.args[0].args[0]) != rootOf(conns(s)) {
				bad("connection", "the request is sent on %s", showT(x))
				return
			}
			base, off := offsetMod(x.args[0].args[1], int64(k), vLen(conns(s)))
			if base == nil && off < 0 {
				bad("address", "the address tried is number %s", showT(x.args[0].args[1]))
				return
			}
			if m.n["sent"] == 1 {
				m.t["base"] = base
			} else if m.t["base"] != base {
				bad("address", "the address tried is number %s after one counted from %s", showT(x.args[0].args[1]), showT(m.t["base"]))
			}
			if m.n["off"]&(1<<uint(off)) != 0 {
				bad("same address", "an address is tried twice before another")
			}
			m.n["off"] |= 1 << uint(off)
		case e.Kind == EvCall && e.Name == "qrpc.Response.GetFrameWithContext":
			c.at("request", e.In)
			if !known(m.t["serr"], 1) || sym(e.Args[0]) != sym(m.t["resp"]) || m.n["got"] == 1 {
				bad("waits", "the answer waited for is that of %s", showT(e.Args[0]))
			}
			if sym(e.Args[1]) != ctx {
				bad("context", "the wait does not end with the caller's context")
			}
			m.n["got"] = 1
			m.t["frame"], m.t["gerr"] = e.Res.args[0], e.Res.args[1]
			m.t["pay"] = strip(s.load(vField(strip(m.t["frame"]), fPay), fPay.Type()))
		case e.Kind == EvCall && e.Name == "qrpc.Response.GetFrame":
			bad("context", "the wait does not end with the caller's context")
		case e.Kind == EvReturn:
			out, err := e.Args[0], e.Args[1]
			why := ""
			switch {
			case !known(m.t["merr"], 1):
				why = "encode"
			case m.n["sent"] == 0 || !known(m.t["serr"], 1):
				why = "send"
				if m.n["sent"] < k {
					bad("gives up", "%d of %d addresses are tried", m.n["sent"], k)
				}
			case m.n["got"] == 0 || !known(m.t["gerr"], 1):
				why = "answer"
			default:
				fr := strip(m.t["frame"])
				cmd := s.load(vField(fr, fCmd), fCmd.Type())
				r := s.facts.eval(vEq(cmd, s.load(vField(recv, fErr), fErr.Type())))
				if r < 0 {
					bad("unlooked", "the outcome does not depend on whether the answer carries the error command")
				}
				if r == 1 {
					why = "error"
				}
			}
			c.ob("request", "return "+why)
			switch {
			case why != "" && s.facts.nilEval(err) != 0:
				bad("unreported", "a failure (%s) is not known to be reported", why)
			case why == "" && s.facts.nilEval(err) != 1:
				bad("reported", "an answer is reported as an error")
			case why == "" && (m.t["pay"] == nil || strip(out) != m.t["pay"]):
				bad("payload", "what is returned is %s, not the payload of the answer", showT(out))
			}
		}
	}))
}

// offsetMod reads a position in a list of k: base and offset of (base + offset) mod k.
func offsetMod(v *V, k int64, ln *V) (*V, int64) {
	v = strip(v)
	if n, ok := v.intC(); ok {
		return nil, n
	}
	if v.k != KBin || len(v.args) != 2 || v.op.String() != "%" {
		return nil, -1
	}
	if n, ok := v.args[1].intC(); v.args[1] != ln && !(ok && n == k) {
		return nil, -1
	}
	x, off := v.args[0], int64(0)
	for x.k == KBin && x.op.String() == "+" {
		if n, ok := x.args[1].intC(); ok {
			off, x = off+n, x.args[0]
		} else if n, ok := x.args[0].intC(); ok {
			off, x = off+n, x.args[1]
		} else {
			break
		}
	}
	if k > 0 {
		off = (off%k + k) % k
	}
	return x, off
}

// genPiece is one function the generator emits for a method, on one path.
type genPiece struct {
	bad    func(k, format string, x ...interface{})
	in     int // whether the argument type marshals itself: 1, 0, -1 unknown
	out    int
	ns     string // literal of the service name
	client bool
}

// c27generate: what is emitted for every method of every service.
func c27generate(c *Check) {
	fn := c.fn("codegen.Generator.Generate")
	fSvc := c.field("codegen", "Generator", "services")
	if fn == nil || fSvc == nil {
		return
	}
	const fnP = "codegen.Generator.P"
	if c.fn(fnP) == nil {
		return
	}
	pieces := map[string]bool{}
	isSvc := func(v *V) bool { return v != nil && v.typ != nil && types.Identical(v.typ, fSvc.Type()) }
	c.explore(Config{NoKill: true, KeepPre: true, Opaque: opaqueSet(fnP, "codegen.Generator.generatePkg", "codegen.Generator.generateImports")}, fn, nil, nil, newM("gen", func(m *M, s *State, e *Event) {
		bad := func(k, format string, x ...interface{}) { c.bad("generate", k, e.In, s, format, x...) }
		if e.Kind == EvCall && e.Name == fnP {
			// the aliases of packages found so far do not matter
			for k := range s.mem {
				if k.k == KMapEl {
					delete(s.mem, k)
				}
			}
		}
		elem := func(list *V, i int64, v *V) bool { // v is element i of the list
			v = strip(v)
			return list != nil && v.k == KLoad && v.args[0].k == KIdx && v.args[0].args[0] == rootOf(strip(list)) && s.facts.eval(vEq(v.args[0].args[1], vInt(i))) == 1
		}
		switch {
		case e.Kind == EvMapLookup && e.Op == "miss" && shortType(e.Addr.typ) == "map[string]string":
			s.dead = true // every package was given an alias
		case e.Kind == EvMapLookup && isSvc(e.Addr):
			m.t["map"], m.t["ns"] = e.Res, e.Args[0]
		case e.Kind == EvNext && isSvc(e.Addr):
			m.t["map"], m.t["ns"] = e.Val, e.Args[0]
		case e.Kind == EvNext && m.t["map"] != nil && strip(e.Addr) == strip(m.t["map"]):
			m.t["name"], m.t["method"] = e.Args[0], e.Val
			for _, k := range []string{"in", "out", "pin", "pout", "inM", "outM", "text", "quoted"} {
				delete(m.t, k)
			}
			m.n["depth"], m.n["on"] = 0, 1
		case e.Kind == EvCall && (strings.HasSuffix(e.Name, "util.FuncInputTypes") || strings.HasSuffix(e.Name, "util.FuncOutputTypes")) && m.n["on"] == 1:
			if sym(e.Args[0]) != sym(m.t["method"]) {
				bad("types", "the types looked at are those of %s", showT(e.Args[0]))
				return
			}
			if strings.HasSuffix(e.Name, "InputTypes") {
				m.t["in"] = e.Res
			} else {
				m.t["out"] = e.Res
			}
		case e.Kind == EvCall && (e.Name == "reflect.PtrTo" || e.Name == "reflect.PointerTo") && m.n["on"] == 1:
			switch {
			case elem(m.t["in"], 1, e.Args[0]):
				m.t["pin"] = e.Res
			case elem(m.t["out"], 0, e.Args[0]):
				m.t["pout"] = e.Res
			default:
				bad("types", "whether %s encodes itself decides", showT(e.Args[0]))
			}
		case e.Kind == EvCall && e.Name == "reflect.Type.Implements" && m.n["on"] == 1:
			if !strings.Contains(showT(e.Args[1]), "arshaler") {
				return
			}
			switch r := sym(e.Args[0]); {
			case m.t["pin"] != nil && r == sym(m.t["pin"]):
				m.t["inM"] = e.Res
			case m.t["pout"] != nil && r == sym(m.t["pout"]):
				m.t["outM"] = e.Res
			}
		case e.Kind == EvCall && e.Name == "strconv.Quote" && m.n["on"] == 1:
			m.t["quote:"+itoa(int(e.Res.id))] = e.Args[0]
		case e.Kind == EvCall && e.Name == fnP && m.n["on"] == 1:
			lit := func(v *V) string {
				v = strip(v)
				switch {
				case v.k == KConst && v.c != nil && v.c.Kind() == constant.String:
					return strconv.Quote(constant.StringVal(v.c))
				case v == sym(m.t["ns"]):
					return `"NS_"`
				case v == sym(m.t["name"]):
					return `"NAME_"`
				}
				return `"other"`
			}
			text := ""
			n, _ := vLen(strip(e.Args[1])).intC()
			for i := int64(0); i < n; i++ {
				x := sym(elemAt(e, e.Args[1], i))
				if x == nil {
					text += "V_"
					continue
				}
				for _, l := range concatLeaves(x) {
					switch q := m.t["quote:"+itoa(int(l.id))]; {
					case q != nil:
						text += lit(q)
					case l.k == KConst && l.c != nil && l.c.Kind() == constant.String:
						text += constant.StringVal(l.c)
					case l == sym(m.t["name"]):
						text += "NAME_"
					case l == sym(m.t["ns"]):
						text += "NS_"
					default:
						text += "V_"
					}
				}
			}
			old := ""
			if m.t["text"] != nil {
				old = constant.StringVal(m.t["text"].c)
			}
			m.n["depth"] += strings.Count(text, "{") - strings.Count(text, "}")
			text = old + text + "\n"
			if len(text) > 4000 || m.n["depth"] < 0 {
				m.n["on"] = 0
				text = ""
			}
			m.t["text"] = vConst(constant.MakeString(text))
			if m.n["depth"] != 0 || m.n["on"] == 0 {
				return
			}
			delete(m.t, "text")
			dec := func(k string) int {
				if m.t[k] == nil {
					return -1
				}
				return s.facts.eval(m.t[k])
			}
			p := genPiece{in: dec("inM"), out: dec("outM"), ns: lit(m.t["ns"])}
			p.bad = bad
			if p.check(text) {
				c.at("generate", e.In)
				pieces[yn(b2i(p.client))+text] = true
				c.ob("generate", "piece "+itoa(len(pieces)))
			}
			for k := range m.t {
				if strings.HasPrefix(k, "quote:") {
					delete(m.t, k)
				}
			}
			for _, k := range []string{"in", "out", "pin", "pout", "inM", "outM"} {
				delete(m.t, k)
			}
		}
	}))
	have := map[byte]int{}
	for k := range pieces {
		have[k[0]]++
	}
	// the argument and the result encode themselves or not; served by the main and by other services
	if have[yn(1)[0]] < 4 || have[yn(0)[0]] < 8 {
		c.report("generate", "pieces", c.p.pos(fn.Pos()), "not every kind of method gets a client and a server function", nil)
	}
}

// check judges one emitted function; false when it is none of those examined.
func (p *genPiece) check(text string) bool {
	var body *ast.BlockStmt
	var calls []*ast.CallExpr
	fset := token.NewFileSet()
	str := func(x ast.Expr) string {
		if x == nil {
			return ""
		}
		return strings.Join(strings.Fields(text2(fset, x)), "")
	}
	sel := func(x ast.Expr) string {
		if s, ok := x.(*ast.SelectorExpr); ok {
			return s.Sel.Name
		}
		return ""
	}
	switch {
	case strings.Contains(text, ".Request("):
		p.client = true
		f, err := parser.ParseFile(fset, "", "package p\n"+text, 0)
		if err != nil || len(f.Decls) != 1 {
			p.bad("syntax", "what is emitted for a client method is not a function: %v: %.80q", err, text)
			return true
		}
		d, ok := f.Decls[0].(*ast.FuncDecl)
		if !ok || d.Body == nil {
			p.bad("syntax", "what is emitted for a client method is not a function")
			return true
		}
		if d.Name.Name != "NAME_" {
			p.bad("name", "the client method emitted is called %s", d.Name.Name)
		}
		body = d.Body
	case strings.Contains(text, "callback["):
		f, err := parser.ParseFile(fset, "", "package p\nfunc f() {\n"+text+"}\n", 0)
		if err != nil || len(f.Decls) != 1 {
			p.bad("syntax", "what is emitted to serve a method is no statement: %v: %.80q", err, text)
			return true
		}
		var key string
		ast.Inspect(f.Decls[0], func(n ast.Node) bool {
			if as, ok := n.(*ast.AssignStmt); ok && len(as.Lhs) == 1 && len(as.Rhs) == 1 {
				if ix, ok := as.Lhs[0].(*ast.IndexExpr); ok && sel(ix.X) == "callback" {
					if fl, ok := as.Rhs[0].(*ast.FuncLit); ok {
						body = fl.Body
						key = str(ix.Index)
					}
				}
			}
			return true
		})
		if body == nil {
			p.bad("syntax", "what is emitted to serve a method registers nothing")
			return true
		}
		if !strings.HasSuffix(key, ".FQMethod("+p.ns+`,"NAME_")`) {
			p.bad("name", "a method is registered as %s", key)
		}
	default:
		return false
	}
	// the calls in order
	ast.Inspect(body, func(n ast.Node) bool {
		if x, ok := n.(*ast.CallExpr); ok {
			calls = append(calls, x)
		}
		return true
	})
	// which way a value is encoded
	mode := func(op, v string) (own, json, at int, res string) {
		at = -1
		for i, x := range calls {
			if sel(x.Fun) != op {
				continue
			}
			recv := str(x.Fun.(*ast.SelectorExpr).X)
			var args []string
			for _, a := range x.Args {
				args = append(args, str(a))
			}
			want := "&" + v
			if op == "Marshal" {
				want = v
			}
			last := ""
			if len(args) > 0 {
				last = args[len(args)-1]
			}
			switch {
			case recv == v && len(args) == b2i(op == "Unmarshal"):
				own++
				at = i
				res = strings.Join(args, ",")
			case (last == want || last == "&"+v) && len(args) == 1+b2i(op == "Unmarshal"):
				json++
				at = i
				res = strings.Join(args[:len(args)-1], ",")
			}
		}
		return
	}
	decide := func(what string, own, json, typ int) {
		switch {
		case own+json != 1:
			p.bad(what, "the %s is encoded or decoded %d times", what, own+json)
		case typ < 0:
			p.bad(what+" type", "how the %s is encoded is not decided by whether its type encodes itself", what)
		case own != typ:
			p.bad(what+" type", "the %s is encoded the other way than its type asks for", what)
		}
	}
	find := func(name string) (at, n int) {
		at = -1
		for i, x := range calls {
			if sel(x.Fun) == name {
				at = i
				n++
			}
		}
		return
	}
	// what the first result of a call is assigned to
	assigned := func(at int) string {
		r := ""
		ast.Inspect(body, func(n ast.Node) bool {
			if as, ok := n.(*ast.AssignStmt); ok && at >= 0 && len(as.Rhs) == 1 && as.Rhs[0] == calls[at] {
				r = str(as.Lhs[0])
			}
			return true
		})
		return r
	}
	if p.client {
		o, j, at, _ := mode("Marshal", "input")
		decide("argument", o, j, p.in)
		rq, n := find("Request")
		if n != 1 || len(calls[rq].Args) != 4 {
			p.bad("calls", "a client method sends %d requests", n)
			return true
		}
		a := calls[rq].Args
		if str(a[0]) != "ctx" || str(a[1]) != p.ns || str(a[2]) != `"NAME_"` || str(a[3]) != assigned(at) || at > rq {
			p.bad("calls", "a client method requests (%s, %s, %s, %s)", str(a[0]), str(a[1]), str(a[2]), str(a[3]))
		}
		o, j, at, src := mode("Unmarshal", "output")
		decide("result", o, j, p.out)
		if src != assigned(rq) || at < rq {
			p.bad("result", "the result is decoded from %s", src)
		}
	} else {
		o, j, at, src := mode("Unmarshal", "input")
		decide("argument", o, j, p.in)
		if src != "inBytes" {
			p.bad("argument", "the argument is decoded from %s", src)
		}
		call, n := find("NAME_")
		if n != 1 || len(calls[call].Args) != 2 || str(calls[call].Args[0]) != "ctx" || str(calls[call].Args[1]) != "input" || assigned(call) != "output" || at > call {
			p.bad("calls", "a request calls its method %d times or with something else", n)
		}
		o, j, at, _ = mode("Marshal", "output")
		decide("result", o, j, p.out)
		if assigned(at) != "outBytes" || at < call {
			p.bad("result", "what is answered is not the encoded result")
		}
	}
	// every error is looked at before going on
	for i, st := range body.List {
		as, ok := st.(*ast.AssignStmt)
		if !ok {
			continue
		}
		has := false
		for _, l := range as.Lhs {
			has = has || str(l) == "err"
		}
		if !has {
			continue
		}
		last := i+2 >= len(body.List)
		if !p.client && i+1 < len(body.List) {
			if r, ok := body.List[i+1].(*ast.ReturnStmt); ok && (len(r.Results) == 0 || str(r.Results[len(r.Results)-1]) == "err") {
				continue
			}
		}
		good := false
		if i+1 < len(body.List) {
			if f, ok := body.List[i+1].(*ast.IfStmt); ok && f.Else == nil && f.Init == nil && (str(f.Cond) == "err!=nil" || str(f.Cond) == "nil!=err") {
				set, ret := false, false
				for _, b := range f.Body.List {
					switch b := b.(type) {
					case *ast.ExprStmt:
						set = set || str(b.X) == "output.SetError(err)"
					case *ast.ReturnStmt:
						ret = true
					}
				}
				if i+2 < len(body.List) {
					_, isRet := body.List[i+2].(*ast.ReturnStmt)
					last = last || isRet
				}
				good = (set || !p.client) && (ret || p.client && last)
			}
		}
		if !good {
			p.bad("error", "a failure of %s is not reported", str(as.Rhs[0]))
		}
	}
	return true
}
