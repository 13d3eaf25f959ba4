package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C21", "path dataflow of the bytes accepted by the network through both write loops (unrolled, exact offset terms), provenance of the success reported upward, and the net.Conn contract of the websocket connection", c21)
	reg("C35", "path dataflow of deadlines: each read and write of the network is preceded by a deadline whose bound the path facts derive from the configured timeout; field dataflow of the timeouts from every configuration", c35)
}

const netIters = 2

// netLoop unrolls a write or read loop on the connection.
func (c *Check) netLoop(fn *ssa.Function, init func(s *State), on func(m *M, s *State, e *Event)) {
	c.exploreInit(Config{NoKill: true, Concrete: true, Exact: true}, fn, nil, nil, init, newM("net", on))
}

func isConnWrite(e *Event) bool {
	return e.Kind == EvCall && (e.Name == "net.Conn.Write" || e.Name == "net.Buffers.WriteTo" || e.Name == "io.Writer.Write" || e.Name == "net.Writer.Write")
}

func c21(c *Check) {
	c21loops(c)
	c21result(c)
	c21ws(c)
	// after a failed write nothing else is written
	c.sub(nil, c34)
	c.sub(func(rule, construct string) bool { return strings.Contains(rule, "client-writer") }, c08)
}

// c21loops: what is offered to the network are exactly the bytes not accepted yet, success means all were.
func c21loops(c *Check) {
	for _, name := range []string{"qrpc.Writer.Write", "qrpc.Writer.writeBuffers"} {
		name := name
		fn := c.fn(name)
		if fn == nil {
			continue
		}
		arg := vSym(fn.Params[1].Name(), fn.Params[1].Type())
		batch := strings.HasSuffix(name, "writeBuffers")
		var lens []*V
		c.netLoop(fn, func(s *State) {
			if !batch {
				lens = []*V{vLen(arg)}
				return
			}
			// a batch of two frames
			t := fn.Params[1].Type().Underlying().(*types.Pointer).Elem()
			bufs := s.load(arg, t)
			s.facts.assume(vEq(vLen(bufs), vInt(2)), true)
			lens = nil
			el := t.Underlying().(*types.Slice).Elem()
			for i := int64(0); i < 2; i++ {
				a := vIdx(bufs, vInt(i))
				b := s.load(a, el)
				s.mem[a] = b
				lens = append(lens, vLen(b))
			}
		}, func(m *M, s *State, e *Event) {
			switch {
			case isConnWrite(e):
				c.at("offered", e.In)
				sum := m.t["sum"]
				m.n["writes"]++
				if m.n["writes"] > netIters {
					s.dead = true
					return
				}
				a := strip(e.Args[len(e.Args)-1])
				if batch {
					a = strip(e.Args[0])
					if a != arg {
						c.bad("offered", name, e.In, s, "what is written is %s, not the rest of the batch", a)
					}
				} else {
					want := arg
					if sum != nil {
						want = vSlice(arg, sum, nil)
					}
					if !sameSlice(a, want) {
						c.bad("offered", name, e.In, s, "after %s bytes were accepted the network is given %s: bytes are lost or sent twice", showT(sum), a)
					}
				}
				if m.n["broken"] == 1 {
					c.bad("offered", name+" after failure", e.In, s, "writing goes on after the network failed")
				}
				n, err := e.Res.args[0], e.Res.args[1]
				if sum == nil {
					m.t["sum"] = stripConv(n)
				} else {
					m.t["sum"] = vBin(token.ADD, sum, stripConv(n), types.Typ[types.Int64])
				}
				m.t["err"] = err
			case e.Kind == EvReturn:
				c.ob("success-means-all", name)
				err := e.Args[1]
				sum := m.t["sum"]
				if s.facts.nilEval(err) != 0 {
					if s.facts.nilEval(err) != 1 {
						c.bad("success-means-all", name+" unclear", e.In, s, "the write may report success (%s) while the network failed", err)
						return
					}
					if !s.knownNotLess(sum, lens) {
						c.bad("success-means-all", name, e.In, s, "success is reported after %s bytes were accepted, which need not be all", showT(sum))
					}
				}
				if sum != nil && !sameSum(e.Args[0], sum) {
					c.bad("success-means-all", name+" count", e.In, s, "%s bytes are reported accepted, %s were", e.Args[0], sum)
				}
			}
		})
	}
	c.floor("offered")
	c.floor("success-means-all")
}

func showT(v *V) string {
	if v == nil {
		return "0"
	}
	return v.String()
}

// leaves of a sum.
func leaves(v *V) []*V {
	v = stripConv(v)
	if v.k == KBin && v.op == token.ADD {
		return append(leaves(v.args[0]), leaves(v.args[1])...)
	}
	if n, ok := v.intC(); ok && n == 0 {
		return nil
	}
	return []*V{v}
}

func sameSum(a, b *V) bool {
	x, y := leaves(a), leaves(b)
	if len(x) != len(y) {
		return false
	}
	sortV(x)
	sortV(y)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// sameSlice: the same part of the same array.
func sameSlice(a, b *V) bool {
	if a == b {
		return true
	}
	ra, oa := rootOff(a)
	rb, ob := rootOff(b)
	if ra != rb {
		return false
	}
	if oa == nil {
		oa = vInt(0)
	}
	if ob == nil {
		ob = vInt(0)
	}
	end := func(v *V) *V {
		if v.k == KSlice {
			return v.args[2]
		}
		return vNil()
	}
	return sameSum(oa, ob) && end(a) == end(b)
}

// knownNotLess: the path knows that sum is not less than the sum of want.
func (s *State) knownNotLess(sum *V, want []*V) bool {
	total := func(v *V) bool {
		x := leaves(v)
		y := append([]*V(nil), want...)
		if len(x) != len(y) {
			return false
		}
		sortV(x)
		sortV(y)
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
		return true
	}
	if sum == nil {
		sum = vInt(0)
	}
	for t, b := range s.facts.b {
		switch {
		case t.k == KLt:
			l, r := t.args[0], t.args[1]
			if !b && sameSum(l, sum) && total(r) || b && total(l) && sameSum(r, sum) {
				return true
			}
		case t.k == KEq && b:
			l, r := t.args[0], t.args[1]
			if sameSum(l, sum) && total(r) || sameSum(r, sum) && total(l) {
				return true
			}
		}
	}
	return false
}

// c21result: success travels upward only from the write of that frame.
func c21result(c *Check) {
	w := c.writeFields()
	if w == nil {
		return
	}
	for _, side := range []string{"serveconn", "Connection"} {
		side := side
		name := "qrpc." + side + ".writeBuffers"
		fn := c.fn(name)
		fReqs := c.field("", side, "cachedRequests")
		if fn == nil || fReqs == nil {
			continue
		}
		recv := vSym(fn.Params[0].Name(), fn.Params[0].Type())
		req := vSym("#req", recvElem(fReqs))
		c.exploreInit(Config{NoKill: true, Opaque: opaqueSet(fnNetBatch, "qrpc.serveconn.Close", "qrpc.Server.untrack")}, fn, []*V{recv}, nil, func(s *State) {
			s.memb = append(s.memb, memb{s.load(vField(recv, fReqs), fReqs.Type()), req})
			s.facts.assume(vNot(vIsNil(s.load(vField(req, w.res), w.res.Type()))), true)
		}, newM("told", func(m *M, s *State, e *Event) {
			m.t["#"] = req
			switch {
			case e.Kind == EvMapLookup && e.Op == "hit":
				s.dead = true
			case e.Kind == EvCall && e.Name == fnNetBatch:
				m.t["nerr"] = e.Res.args[1]
			case e.Kind == EvSend && lastField(e.Ch) == w.res && through(e.Ch, req):
				c.at("told", e.In)
				if s.facts.nilEval(e.Val) == 0 {
					return
				}
				v := m.t["nerr"]
				if v == nil {
					c.bad("told", name+" early", e.In, s, "a frame is reported written before the network was given it")
					return
				}
				if s.facts.nilEval(v) == 1 {
					return
				}
				if s.facts.nilEval(e.Val) != 1 {
					if strip(e.Val) == strip(v) || s.facts.nilEval(vEq(e.Val, v)) == 1 {
						return
					}
				}
				if !s.emptyAt(vPos(req)) {
					c.bad("told", name, e.In, s, "after a failed network write a frame is reported written although its bytes may be left")
				}
			case e.Kind == EvReturn:
				if v := m.t["nerr"]; v != nil && s.facts.nilEval(v) != 1 && s.facts.nilEval(e.Args[0]) != 0 && strip(e.Args[0]) != strip(v) {
					c.bad("told", name+" swallowed", e.In, s, "after a failed network write the batch is not reported failed: writing goes on after a partial frame")
				}
			}
		}))
	}
	c.floor("told")
	// the submission reports what it was told
	for _, name := range []string{"qrpc.serveconn.writeFrameBytes", "qrpc.Connection.writeFrameBytes"} {
		name := name
		fn := c.fn(name)
		if fn == nil {
			continue
		}
		c.explore(Config{NoKill: true, Opaque: opaqueSet(fnCollectS, fnBatchS, fnCollectC, fnBatchC)}, fn, nil, nil, newM("submit", func(m *M, s *State, e *Event) {
			switch {
			case e.Kind == EvRecv && (lastField(e.Ch) == w.res || m.t["ch"] != nil && stripConv(e.Ch) == m.t["ch"]):
				m.t["res"] = e.Res
			case e.Kind == EvStore && e.Field == w.res:
				m.t["ch"] = stripConv(e.Val)
			case e.Kind == EvReturn:
				c.ob("reported", name)
				if err := e.Args[0]; s.facts.nilEval(err) != 0 && err != m.t["res"] && !(m.t["res"] != nil && s.facts.nilEval(err) == 1 && s.facts.nilEval(m.t["res"]) == 1) {
					c.bad("reported", name, e.In, s, "a submission reports %s, not the result of its frame %s", err, showT(m.t["res"]))
				}
			}
		}))
	}
	// and so do the writers
	n := 0
	for _, fn := range c.p.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Name() != "qrpc" || fn.Synthetic != "" || fn.Parent() != nil {
			continue
		}
		switch r := recvNamed(fn); {
		case (strings.HasSuffix(r, "FrameWriter") || strings.HasSuffix(r, "StreamWriter")) && (strings.HasPrefix(fn.Name(), "EndWrite") || strings.HasPrefix(fn.Name(), "endWrite")):
		case (r == "serveconn" || r == "Connection") && (fn.Name() == "Request" || fn.Name() == "StreamRequest" || fn.Name() == "ResetFrame"):
		default:
			continue
		}
		name := fnName(fn)
		n++
		c.explore(Config{NoKill: true, Opaque: func(f *ssa.Function) bool { return f.Name() == "writeFrameBytes" }}, fn, nil, nil, newM("end", func(m *M, s *State, e *Event) {
			switch {
			case e.Kind == EvCall && strings.HasSuffix(e.Name, ".writeFrameBytes"):
				m.t["err"] = e.Res
				m.n["calls"]++
			case e.Kind == EvReturn:
				c.ob("reported", name)
				err := e.Args[len(e.Args)-1]
				if s.facts.nilEval(err) == 0 {
					return
				}
				if m.n["calls"] != 1 || err != m.t["err"] && !(s.facts.nilEval(err) == 1 && s.facts.nilEval(m.t["err"]) == 1) {
					c.bad("reported", name, e.In, s, "ending a frame reports %s after %d submissions", err, m.n["calls"])
				}
			}
		}))
	}
	c.floor("reported")
}

// emptyAt: an element at that position is known to be empty.
func (s *State) emptyAt(pos *V) bool {
	for t, iv := range s.facts.iv {
		if iv.lo == 0 && iv.hi == 0 && t.k == KLen && contains(t, pos) {
			return true
		}
	}
	for t, b := range s.facts.b {
		if b && t.k == KEq && contains(t, pos) {
			for i := 0; i < 2; i++ {
				if n, ok := t.args[i].intC(); ok && n == 0 && t.args[1-i].k == KLen {
					return true
				}
			}
		}
	}
	return false
}

func recvElem(f *types.Var) types.Type {
	return f.Type().Underlying().(*types.Slice).Elem()
}

// c21ws: the websocket connection's Write.
func c21ws(c *Check) {
	for _, fn := range c.wsMethods("Write") {
		name := fnName(fn)
		b := vSym(fn.Params[1].Name(), fn.Params[1].Type())
		c.explore(Config{NoKill: true}, fn, nil, nil, newM("ws", func(m *M, s *State, e *Event) {
			switch {
			case e.Kind == EvCall && strings.HasSuffix(e.Name, ".WriteMessage"):
				c.at("ws-write", e.In)
				m.n["msgs"]++
				m.t["err"] = e.Res
				if t, ok := e.Args[1].intC(); !ok || t != 2 {
					c.bad("ws-write", name+" type", e.In, s, "bytes are sent as message of type %s, not binary", e.Args[1])
				}
				if strip(e.Args[2]) != b {
					c.bad("ws-write", name+" bytes", e.In, s, "the message sent is %s, not the bytes given", e.Args[2])
				}
			case e.Kind == EvReturn:
				n, err := e.Args[0], e.Args[1]
				ok := s.facts.nilEval(err)
				if ok != 0 && (m.n["msgs"] != 1 || s.facts.nilEval(m.t["err"]) != 1 && err != m.t["err"]) {
					c.bad("ws-write", name+" success", e.In, s, "success is reported after %d messages", m.n["msgs"])
				}
				if z, isC := n.intC(); ok != 1 && !(isC && z == 0) {
					c.bad("ws-write", name+" error", e.In, s, "%s bytes are reported written together with an error", n)
				}
				if ok != 0 && s.facts.eval(vEq(n, vLen(b))) != 1 && n != vLen(b) {
					c.bad("ws-write", name+" count", e.In, s, "%s bytes are reported written, %s were", n, vLen(b))
				}
			}
		}))
	}
	c.floor("ws-write")
}

// wsMethods: the method of every connection type the websocket overlay defines.
func (c *Check) wsMethods(method string) []*ssa.Function {
	var r []*ssa.Function
	for _, fn := range c.p.Funcs {
		if fn.Pkg != nil && strings.HasSuffix(fn.Pkg.Pkg.Path(), "/ws/server") && fn.Name() == method && fn.Synthetic == "" && fn.Signature.Recv() != nil && recvNamed(fn) != "qrpcOverWS" {
			r = append(r, fn)
		}
	}
	if len(r) == 0 {
		c.report("anchor", "ws "+method, "?", "the websocket connection has no "+method, nil)
	}
	return r
}

// timeTerms gives instants and durations a structure.
func timeTerms(s *State, name string, args []*V) *V {
	switch name {
	case "time.Time.Add":
		return vPure("time.add", args[0].typ, args[0], args[1])
	case "time.Time.Sub":
		return vPure("time.sub", types.Typ[types.Int64], args[0], args[1])
	case "time.Until":
		return vPure("time.sub", types.Typ[types.Int64], args[0], vSym("now", nil))
	case "time.Time.After":
		return vPure("time.after", types.Typ[types.Bool], args[0], args[1])
	case "time.Time.Before":
		return vPure("time.after", types.Typ[types.Bool], args[1], args[0])
	}
	return nil
}

func isPure(v *V, name string) bool { return v != nil && v.k == KPure && v.aux == name }

// seconds: v is so many seconds.
func seconds(v *V) *V {
	v = stripConv(v)
	if v.k == KBin && v.op == token.MUL {
		for i := 0; i < 2; i++ {
			if n, ok := v.args[i].intC(); ok && n == 1e9 {
				return stripConv(v.args[1-i])
			}
		}
	}
	return nil
}

// isZero: the zero value of its type.
func isZero(v *V) bool {
	if v == nil {
		return false
	}
	if v.isNilC() || v.isFalse() {
		return true
	}
	if n, ok := v.intC(); ok {
		return n == 0
	}
	if v.k == KAgg {
		for _, a := range v.args {
			if !isZero(a) {
				return false
			}
		}
		return true
	}
	return v == zeroOf(v.typ)
}

func c35(c *Check) {
	c35write(c)
	c35read(c)
	c35conf(c)
}

func c35write(c *Check) {
	fTO, fConn := c.field("", "Writer", "timeout"), c.field("", "Writer", "conn")
	if fTO == nil || fConn == nil {
		return
	}
	for _, name := range []string{"qrpc.Writer.Write", "qrpc.Writer.writeBuffers"} {
		name := name
		fn := c.fn(name)
		if fn == nil {
			continue
		}
		recv := vSym(fn.Params[0].Name(), fn.Params[0].Type())
		c.exploreInit(Config{NoKill: true, Concrete: true, Exact: true, Result: timeTerms}, fn, []*V{recv}, nil, func(s *State) {
			if strings.HasSuffix(name, "writeBuffers") {
				t := fn.Params[1].Type().Underlying().(*types.Pointer).Elem()
				s.facts.assume(vEq(vLen(s.load(vSym(fn.Params[1].Name(), fn.Params[1].Type()), t)), vInt(1)), true)
			}
		}, newM("deadline", func(m *M, s *State, e *Event) {
			lim := s.load(vField(recv, fTO), fTO.Type())
			has := s.facts.eval(vLt(vInt(0), lim))
			conn := s.load(vField(recv, fConn), fConn.Type())
			// end of the time allowed
			isEnd := func(v *V) bool {
				return isPure(v, "time.add") && seconds(v.args[1]) == lim && (m.t["end"] == nil || m.t["end"] == v)
			}
			switch {
			case e.Kind == EvCall && (e.Name == "time.Time.Sub" || e.Name == "time.Until"):
				// what is left of the time
				if isEnd(e.Args[0]) {
					m.t["left"], m.t["end"] = e.Res, e.Args[0]
				}
			case e.Kind == EvCall && e.Name == "net.Conn.SetWriteDeadline":
				c.at("write-deadline", e.In)
				m.n["dl"] = 1
				if strip(e.Args[0]) != strip(conn) {
					c.bad("write-deadline", name+" conn", e.In, s, "the deadline is set on %s, not on the connection written to", e.Args[0])
				}
				t := e.Args[1]
				if has == 1 && isEnd(t) {
					m.t["end"] = t
					return
				}
				if !isPure(t, "time.add") {
					c.bad("write-deadline", name, e.In, s, "the write deadline is %s: without one a write may block for ever", t)
					return
				}
				d := stripConv(t.args[1])
				if isPure(d, "min") && has == 1 {
					for _, x := range d.args {
						if x = stripConv(x); isPure(x, "time.sub") && isEnd(x.args[0]) || seconds(x) == lim {
							d = x
						}
					}
				}
				k, isC := d.intC()
				switch {
				case has == 0:
					if !isC || k <= 0 || k > 60e9 {
						c.bad("write-deadline", name+" wake-up", e.In, s, "without a timeout a write wakes up after %s, not regularly", d)
					}
				case has == 1 && isPure(d, "time.sub") && isEnd(d.args[0]):
					m.t["end"] = d.args[0]
				case has == 1 && seconds(d) == lim && m.n["writes"] == 0:
				case has == 1 && isC:
					// not later than what is left
					l := m.t["left"]
					if l == nil || s.facts.interval(l).lo < k {
						c.bad("write-deadline", name+" bound", e.In, s, "with a timeout the deadline is %s from now, which may be later than the timeout", d)
					}
				default:
					c.bad("write-deadline", name+" bound", e.In, s, "the deadline %s does not follow from the configured timeout %s", t, lim)
				}
			case isConnWrite(e):
				m.n["writes"]++
				if m.n["writes"] > netIters {
					s.dead = true
					return
				}
				if m.n["dl"] == 0 {
					c.bad("write-deadline", name+" unset", e.In, s, "the network is written to without setting a deadline first")
				}
				if v := m.t["err"]; v != nil && s.facts.nilEval(v) != 1 {
					c.ob("expiry", name)
					if m.t["tmo"] == nil || s.facts.eval(m.t["tmo"]) != 1 {
						c.bad("expiry", name+" other error", e.In, s, "writing goes on after an error which is not known to be a timeout")
					} else if has != 0 && !(m.t["after"] != nil && s.facts.eval(m.t["after"]) == 0) {
						c.bad("expiry", name+" late", e.In, s, "writing goes on after a timeout without its time being known not to be over")
					}
				}
				m.n["dl"] = 0
				m.t["err"], m.t["tmo"], m.t["after"] = e.Res.args[1], nil, nil
			case e.Kind == EvCall && strings.HasSuffix(e.Name, ".Timeout"):
				m.t["tmo"] = e.Res
			case e.Kind == EvCall && (e.Name == "time.Time.After" || e.Name == "time.Time.Before"):
				r := e.Res
				if isPure(r, "time.after") && isEnd(r.args[1]) {
					m.t["after"] = r
				} else if isPure(r, "time.after") && isEnd(r.args[0]) {
					m.t["after"] = vNot(r)
				}
			case e.Kind == EvReturn:
				err := e.Args[1]
				c.ob("expiry", name)
				if err == m.t["err"] && s.facts.nilEval(err) != 1 && m.t["tmo"] != nil && s.facts.eval(m.t["tmo"]) == 1 {
					if has != 1 || m.t["after"] == nil || s.facts.eval(m.t["after"]) != 1 {
						c.bad("expiry", name+" early", e.In, s, "a write that woke up is reported as failed although its time is not known to be over")
					}
				}
			}
		}))
	}
	c.floor("write-deadline")
	c.floor("expiry")
	c.rawCalls("write-deadline", func(name string) bool { return name == "net.Conn.Write" || name == "net.Buffers.WriteTo" })
}

// rawCalls: network calls outside the functions analysed.
func (c *Check) rawCalls(rule string, raw func(name string) bool) {
	for _, fn := range c.p.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Name() != "qrpc" || c.funcs[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc, n := call.Common(), ""
				if cc.IsInvoke() {
					n = typeFull(cc.Value.Type()) + "." + cc.Method.Name()
				} else if f := cc.StaticCallee(); f != nil {
					n = fnName(f)
				}
				if raw(n) {
					c.bad(rule, fnName(fn)+" raw", in, nil, "the network is used without the configured deadline (%s)", n)
				}
			}
		}
	}
}

func isRawRead(n string) bool {
	switch n {
	case "net.Conn.Read", "io.ReadFull", "io.ReadAtLeast", "io.ReadAll", "io.Copy", "io.CopyN":
		return true
	}
	m, ok := strings.CutPrefix(n, "bufio.Reader.")
	return ok && (strings.HasPrefix(m, "Read") || m == "Peek" || m == "Discard" || m == "WriteTo")
}

func c35read(c *Check) {
	fTO, fConn := c.field("", "Reader", "timeout"), c.field("", "Reader", "conn")
	fn := c.fn("qrpc.Reader.ReadBytesWithMaxTimeout")
	rf := c.fn("qrpc.defaultFrameReader.readFrame")
	if fTO == nil || fConn == nil || fn == nil || rf == nil {
		return
	}
	recv := vSym(fn.Params[0].Name(), fn.Params[0].Type())
	max := vSym(fn.Params[2].Name(), fn.Params[2].Type())
	c.exploreInit(Config{NoKill: true, Concrete: true, Exact: true, Result: timeTerms}, fn, []*V{recv}, nil, nil, newM("deadline", func(m *M, s *State, e *Event) {
		if e.Field == fTO && (e.Kind == EvLoad || e.Kind == EvAtomic && e.Op == "load") {
			m.t["lim"] = e.Res
		}
		lim := m.t["lim"]
		if lim == nil {
			lim = s.load(vField(recv, fTO), fTO.Type())
		}
		conn := s.load(vField(recv, fConn), fConn.Type())
		switch {
		case e.Kind == EvCall && e.Name == "net.Conn.SetReadDeadline":
			c.at("read-deadline", e.In)
			m.n["dl"] = 1
			if strip(e.Args[0]) != strip(conn) {
				c.bad("read-deadline", "conn", e.In, s, "the deadline is set on %s, not on the connection read from", e.Args[0])
			}
			t := e.Args[1]
			if isZero(t) {
				if s.facts.eval(vLt(vInt(0), lim)) != 0 {
					c.bad("read-deadline", "none", e.In, s, "a read may block without a deadline although a timeout may be configured")
				}
				return
			}
			x := (*V)(nil)
			if isPure(t, "time.add") {
				x = seconds(t.args[1])
			}
			if x == nil {
				c.bad("read-deadline", "value", e.In, s, "the read deadline is %s", t)
				return
			}
			if s.facts.eval(vLt(vInt(0), lim)) != 1 && !(s.facts.eval(vLt(vInt(0), max)) == 1 && s.facts.eval(vLt(max, lim)) == 1) {
				c.bad("read-deadline", "extra", e.In, s, "a read gets a deadline although no timeout may be configured")
			}
			if x != lim && s.facts.eval(vLt(lim, x)) != 0 {
				c.bad("read-deadline", "bound", e.In, s, "the time for a read is %s seconds, which may be more than the timeout %s", x, lim)
			}
			if f := s.facts.clone(); x != max && f.assume(vLt(vInt(0), max), true) && f.eval(vLt(max, x)) != 0 {
				c.bad("read-deadline", "payload bound", e.In, s, "the time for a read is %s seconds, which may be more than its own bound %s", x, max)
			}
		case e.Kind == EvCall && isRawRead(e.Name):
			m.n["reads"]++
			if m.n["reads"] > netIters {
				s.dead = true
				return
			}
			if m.n["dl"] == 0 {
				c.bad("read-deadline", "unset", e.In, s, "the network is read without setting a deadline first")
			}
			m.n["dl"] = 0
		}
	}))
	c.floor("read-deadline")
	// the payload's own bound
	var bound int64
	if k, ok := c.p.pkg("").Scope().Lookup("payloadReadMaxTimeoutSecond").(*types.Const); ok {
		bound, _ = vConst(k.Val()).intC()
	}
	c.explore(Config{NoKill: true, Opaque: opaqueSet("qrpc.Reader.ReadBytesWithMaxTimeout")}, rf, nil, nil, newM("payload", func(m *M, s *State, e *Event) {
		if e.Kind != EvCall || e.Name != "qrpc.Reader.ReadBytesWithMaxTimeout" {
			return
		}
		m.n["n"]++
		if m.n["n"] == 1 {
			return
		}
		c.at("payload-bound", e.In)
		if k, ok := e.Args[2].intC(); !ok || k <= 0 || bound > 0 && k > bound {
			c.bad("payload-bound", "value", e.In, s, "a payload is read with a bound of %s seconds of its own", e.Args[2])
		}
	}))
	c.floor("payload-bound")
	c.rawCalls("read-deadline", isRawRead)
}

// c35conf: the timeouts configured arrive at the readers and writers.
func c35conf(c *Check) {
	wTO, rTO := c.field("", "Writer", "timeout"), c.field("", "Reader", "timeout")
	if wTO == nil || rTO == nil {
		return
	}
	server := map[*types.Var]*types.Var{wTO: c.field("", "ServerBinding", "DefaultWriteTimeout"), rTO: c.field("", "ServerBinding", "DefaultReadTimeout")}
	client := map[*types.Var]*types.Var{wTO: c.field("", "ConnectionConfig", "WriteTimeout"), rTO: c.field("", "ConnectionConfig", "ReadTimeout")}
	seen := map[string]bool{}
	for _, x := range []struct {
		fn   *ssa.Function
		side string
		want map[*types.Var]*types.Var
	}{
		{c.serveRoot(), "server", server},
		{c.fn("qrpc.newConnection"), "client", client},
		{c.fn("qrpc.Connection.connect"), "reconnecting client", client},
		{c.fn(fnReadC), "client", client},
	} {
		x := x
		fn := x.fn
		if fn == nil {
			continue
		}
		name := fnName(fn)
		c.explore(Config{NoKill: true, Opaque: func(f *ssa.Function) bool {
			switch fnName(f) {
			case fnReadFr, fnReadS, fnCloseS, "qrpc.Connection.loop", "qrpc.serveconn.handleRequestPanic":
				return true
			}
			return false
		}}, fn, nil, nil, newM("conf", func(m *M, s *State, e *Event) {
			if e.Kind != EvStore || e.Field != wTO && e.Field != rTO {
				return
			}
			c.ob("timeout-conf", name+" "+ownerName(c.p, e.Field)+"."+e.Field.Name())
			seen[x.side+" "+ownerName(c.p, e.Field)] = true
			if w := x.want[e.Field]; w == nil || lastField(stripConv(e.Val)) != w {
				c.bad("timeout-conf", name+" "+e.Field.Name(), e.In, s, "the timeout used is %s, not the configured one", e.Val)
			}
		}))
	}
	for _, k := range []string{"server Writer", "server Reader", "client Writer", "client Reader", "reconnecting client Writer"} {
		if !seen[k] {
			c.report("timeout-conf", k+" missing", "?", "no timeout is given to the "+k, nil)
		}
	}
}
