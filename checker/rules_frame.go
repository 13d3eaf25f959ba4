package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C02", "path typestate of every frame-ending history (flags, payload and codec arbitrary): at each hand-over to the connection the compression bit is compared with the provenance of the payload bytes (codec output or plain); paths without hand-over must return an error; the decoder's paths are checked likewise, and the codec of writers and readers is traced to the configuration", c02)
	reg("C03", "must-precede analysis of the frame parser: on every path the facts known at each reservation and each payload read must imply header size <= declared size <= limit; error returns of the parser end both reading loops without delivery; the limit of a served connection is traced to its configuration and known positive", c03)
	reg("C04", "byte provenance of the payload over every start/write/end history including reused writers and error exits; state of recycled writers compared field by field between the pool's put and get sites", c04)
}

// stripConv removes conversions that keep every value of a 32 bit unsigned number.
func stripConv(v *V) *V {
	for v.k == KConv && widthOf(v.typ) >= 32 {
		v = v.args[0]
	}
	return v
}

// resultErr is the error component of an opaque call's result.
func resultErr(e *Event) *V {
	if e.Res == nil {
		return nil
	}
	if e.Res.k == KTuple {
		return e.Res.args[len(e.Res.args)-1]
	}
	return e.Res
}

// pathOf splits an access path into its root and the fields on the way (loads and indexing dropped).
func pathOf(v *V) (*V, []*types.Var) {
	var fs []*types.Var
	for {
		switch v.k {
		case KField:
			fs = append([]*types.Var{v.aux.(*types.Var)}, fs...)
			v = v.args[0]
		case KLoad, KIdx, KIface, KStale, KMapEl:
			v = v.args[0]
		case KConv:
			v = v.args[0]
		case KFld:
			if t := v.args[0].typ; t != nil {
				if st, ok := t.Underlying().(*types.Struct); ok && int(v.n) < st.NumFields() {
					fs = append([]*types.Var{st.Field(int(v.n))}, fs...)
				}
			}
			v = v.args[0]
		case KPure:
			if v.aux == "havoc" {
				v = v.args[1]
				continue
			}
			return v, fs
		default:
			return v, fs
		}
	}
}

func lastField(v *V) *types.Var {
	_, fs := pathOf(v)
	if len(fs) == 0 {
		return nil
	}
	return fs[len(fs)-1]
}

func fieldNames(fs []*types.Var) string {
	var p []string
	for _, f := range fs {
		p = append(p, f.Name())
	}
	return strings.Join(p, ".")
}

// payloadOf gives the segments of a writer buffer after its header; ok is false when the header is not the first segment.
func payloadOf(s *State, buf *V) ([]*V, bool) {
	segs := segments(s.content(buf))
	if n, ok := vLen(segs[0]).intC(); ok {
		if n == 16 {
			return segs[1:], true
		}
		if n > 16 && segs[0].k == KSlice {
			return append([]*V{vSlice(segs[0], vInt(16), nil)}, segs[1:]...), true
		}
	}
	return segs, false
}

func sameSegs(a []*V, b ...*V) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func showSegs(a []*V) string {
	if len(a) == 0 {
		return "nothing"
	}
	var p []string
	for _, x := range a {
		p = append(p, x.String())
	}
	return strings.Join(p, " + ")
}

func (s *State) isEmpty(v *V) bool { return s.facts.eval(vEq(vLen(v), vInt(0))) == 1 || v.isNilC() }

func c02(c *Check) {
	dfwT := c.p.typ("", "defaultFrameWriter")
	wbuf := c.field("", "defaultFrameWriter", "wbuf")
	if dfwT == nil || wbuf == nil {
		return
	}
	dfw := vSym("w", types.NewPointer(dfwT))
	cmdT, flagT := c.p.typ("", "Cmd"), c.p.typ("", "FrameFlag")
	id, cmd, flg := vSym("requestID", tU64), vSym("cmd", cmdT), vSym("flags", flagT)
	data := vSym("data", types.NewSlice(tU8))
	cb := log2(constOf(c, "CodecFlag"))
	if cb < 0 {
		return
	}
	// hist: the step `last` ends the frame; raw is the payload written; compressed: declared by the caller
	run := func(label string, steps []wstep, raw *V, compressed bool) {
		last := len(steps) - 1
		mon := newM("codec", func(m *M, s *State, e *Event) {
			if e.Kind == EvCall && strings.HasSuffix(e.Name, "CompressorCodec.Encode") {
				m.t["arg"] = s.content(e.Args[1])
				m.t["out"], m.t["err"] = e.Res.args[0], e.Res.args[1]
				if s.facts.nilEval(strip(e.Args[0])) == 1 {
					c.bad("codec-flag", label+" nil codec", e.In, s, "a nil codec is called")
				}
			}
			if phaseOf(s) < last {
				return
			}
			if e.Kind == EvCall && strings.HasSuffix(e.Name, ".writeFrameBytes") && phaseOf(s) == last {
				m.n["sent"]++
				c.ob("codec-flag", label)
				buf := s.load(vField(strip(e.Args[1]), wbuf), wbuf.Type())
				bit := s.resolve(bitsWidth(wireByte(s, buf, 12), 8)[cb])
				pay, ok := payloadOf(s, buf)
				if !ok {
					c.bad("codec-flag", label+" payload", e.In, s, "the bytes sent are %s, not a header and a payload", showSegs(pay))
					return
				}
				plain := sameSegs(pay, raw) || len(pay) == 0 && s.isEmpty(raw) || raw.isNilC() && len(pay) == 0
				enc := m.t["out"] != nil && sameSegs(pay, m.t["out"]) && m.t["arg"] == raw && s.facts.nilEval(m.t["err"]) == 1
				switch {
				case compressed && !enc && plain:
					if bit.kind != 1 {
						c.bad("codec-flag", label, e.In, s, "a payload declared compressed is sent with compression bit %s", showBits([]Bit{bit}))
					}
				case enc:
					if bit.kind != 1 {
						c.bad("codec-flag", label+" encoded", e.In, s, "the codec's output is sent with compression bit %s", showBits([]Bit{bit}))
					}
				case plain:
					if bit.kind != 0 {
						c.bad("codec-flag", label+" plain", e.In, s, "the plain payload is sent with compression bit %s", showBits([]Bit{bit}))
					}
					if m.t["err"] != nil && s.facts.nilEval(m.t["err"]) != 1 {
						c.bad("codec-flag", label+" codec error", e.In, s, "the frame is sent although the codec failed")
					}
					if !raw.isNilC() && !s.isEmpty(raw) && s.facts.eval(vBit(flg, cb)) == 1 && m.t["out"] == nil {
						c.bad("codec-flag", label+" not compressed", e.In, s, "compression was requested, no codec was used, and the frame is sent without an error")
					}
				default:
					c.bad("codec-flag", label+" payload", e.In, s, "the payload sent is %s: neither the bytes written nor the codec's output for them", showSegs(pay))
				}
			}
			if e.Kind == EvReturn && phaseOf(s) == last+1 {
				c.ob("codec-error", label)
				if m.n["sent"] == 0 && s.facts.nilEval(e.Res) != 0 {
					c.bad("codec-error", label, e.In, s, "nothing was sent and the result is %s, which may be nil", e.Res)
				}
				if m.n["sent"] > 1 {
					c.bad("codec-error", label+" twice", e.In, s, "the frame is handed over %d times", m.n["sent"])
				}
			}
		})
		c.history(Config{NoKill: true}, dfw, steps, mon)
	}
	start := wstep{fn: nDFW + "StartWrite", args: []*V{id, cmd, flg}}
	write := wstep{fn: nDFW + "WriteBytes", args: []*V{data}}
	end := vSym("end", types.Typ[types.Bool])
	run("EndWrite", []wstep{start, write, {fn: nDFW + "EndWrite"}}, data, false)
	run("EndWrite empty", []wstep{start, {fn: nDFW + "EndWrite"}}, vNil(), false)
	run("EndWriteCompressed", []wstep{start, write, {fn: nDFW + "EndWriteCompressed"}}, data, true)
	run("StreamEndWrite", []wstep{start, write, {fn: nDFW + "StreamEndWrite", args: []*V{end}}}, data, false)
	dstart, dwrite := wstep{fn: nDSW + "StartWrite", args: []*V{cmd}}, wstep{fn: nDSW + "WriteBytes", args: []*V{data}}
	run("stream EndWrite", []wstep{start, dstart, dwrite, {fn: nDSW + "EndWrite", args: []*V{end}}}, data, false)
	run("stream EndWrite empty", []wstep{start, dstart, {fn: nDSW + "EndWrite", args: []*V{end}}}, vNil(), false)
	run("stream EndWriteCompressed", []wstep{start, dstart, dwrite, {fn: nDSW + "EndWriteCompressed"}}, data, true)
	run("ResetFrame", []wstep{{fn: nDFW + "ResetFrame", args: []*V{id, cmd}}}, vNil(), false)
	run("stream ResetFrame", []wstep{start, {fn: nDSW + "ResetFrame", args: []*V{cmd}}}, vNil(), false)
	c.floor("codec-flag")
	c.floor("codec-error")

	// receiver
	fn := c.fn("qrpc.defaultFrameReader.readFrame")
	fPay := c.field("", "Frame", "Payload")
	if fn != nil && fPay != nil {
		c.explore(Config{NoKill: true}, fn, nil, nil, newM("decode", func(m *M, s *State, e *Event) {
			if dst := readDst(e); dst != nil {
				if m.t["hdr"] == nil {
					m.t["hdr"] = dst
				} else if rootOf(dst) != rootOf(m.t["hdr"]) {
					m.t["pay"] = dst
				}
			}
			if e.Kind == EvCall && strings.HasSuffix(e.Name, "CompressorCodec.Decode") {
				m.t["arg"], m.t["out"], m.t["err"] = e.Args[1], e.Res.args[0], e.Res.args[1]
				c.at("decode", e.In)
				if s.facts.nilEval(strip(e.Args[0])) != 0 {
					c.bad("decode", "nil codec", e.In, s, "the codec called may be nil")
				}
			}
			if e.Kind != EvReturn || len(e.Args) < 2 || s.facts.nilEval(strip(e.Args[0])) == 1 {
				return
			}
			c.at("delivered-payload", e.In)
			if m.t["hdr"] == nil {
				return
			}
			bit := s.resolve(bitsWidth(wireByte(s, m.t["hdr"], 12), 8)[cb])
			p := s.load(vField(strip(e.Args[0]), fPay), fPay.Type())
			switch {
			case m.t["pay"] == nil:
				if !s.isEmpty(p) {
					c.bad("delivered-payload", "empty", e.In, s, "a frame whose payload was not read is delivered with payload %s", p)
				}
			case m.t["out"] != nil && p == m.t["out"]:
				if bit.kind != 1 || s.facts.nilEval(m.t["err"]) != 1 || rootOf(m.t["arg"]) != rootOf(m.t["pay"]) {
					c.bad("delivered-payload", "decoded", e.In, s, "a decoded payload is delivered where the compression bit is %s and the codec's error is %s", showBits([]Bit{bit}), m.t["err"])
				}
			case rootOf(p) == rootOf(m.t["pay"]):
				if bit.kind != 0 {
					c.bad("delivered-payload", "raw", e.In, s, "the payload is delivered as received where the compression bit is %s", showBits([]Bit{bit}))
				}
			default:
				c.bad("delivered-payload", "other", e.In, s, "the payload delivered is %s, neither the bytes received nor the codec's output", p)
			}
		}))
	}
	c.floor("delivered-payload")
	c.floor("decode")
	// codecs come from the configuration
	codecOf := func(rule, name string, v *V, s *State, in ssa.Instruction, root *V, owner string) {
		c.ob(rule, name)
		r, fs := pathOf(v)
		ok := len(fs) > 0 && fs[len(fs)-1].Name() == "Codec" && ownerName(c.p, fs[len(fs)-1]) == owner
		if ok && root != nil && r != root {
			ok = false
		}
		if !ok {
			c.bad(rule, name, in, s, "the codec is %s, not the one configured (%s.Codec)", v, owner)
		}
	}
	for _, x := range []struct{ fn, owner string }{{"qrpc.serveconn.getCodec", "ServerBinding"}, {"qrpc.Connection.getCodec", "ConnectionConfig"}} {
		x := x
		f := c.fn(x.fn)
		if f == nil {
			continue
		}
		c.explore(Config{NoKill: true}, f, nil, nil, newM("codec", func(m *M, s *State, e *Event) {
			if e.Kind == EvReturn {
				codecOf("configured-codec", x.fn, e.Res, s, e.In, vSym(f.Params[0].Name(), f.Params[0].Type()), x.owner)
			}
		}))
	}
	fCodec := c.field("", "defaultFrameReader", "codec")
	if fCodec == nil {
		return
	}
	c.eachReader(func(name string, s *State, e *Event, rd *V) {
		owner := "ConnectionConfig"
		if strings.Contains(name, "serveconn") {
			owner = "ServerBinding"
		}
		codecOf("configured-codec", "reader of "+name, s.load(vField(rd, fCodec), fCodec.Type()), s, e.In, nil, owner)
	})
	c.floor("configured-codec")
}

// ownerName is the named struct type declaring a field.
func ownerName(p *Program, f *types.Var) string {
	pk := p.pkg("")
	for _, n := range pk.Scope().Names() {
		if tn, ok := pk.Scope().Lookup(n).(*types.TypeName); ok {
			if st, ok := tn.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i) == f {
						return n
					}
				}
			}
		}
	}
	return ""
}

// eachReader shows every ReadFrame call of the two reading loops with the reader used.
// serveRoot is the innermost function that makes a server connection and serves it.
func (c *Check) serveRoot() *ssa.Function {
	both := map[*ssa.Function]bool{}
	for _, fn := range c.p.libFuncs() {
		if reaches(c.p, fn, "qrpc.Server.newConn") && reaches(c.p, fn, "qrpc.serveconn.serve") {
			both[fn] = true
		}
	}
	var r *ssa.Function
	for fn := range both {
		inner := true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					g, _ := (*op).(*ssa.Function)
					if mc, ok := (*op).(*ssa.MakeClosure); ok {
						g = mc.Fn.(*ssa.Function)
					}
					if g != nil && g != fn && both[g] {
						inner = false
					}
				}
			}
		}
		if inner && (r == nil || fn.Pos() < r.Pos()) {
			r = fn
		}
	}
	if r == nil {
		c.report("anchor", "serve", "?", "no function makes and serves the connections of the server", nil)
	}
	return r
}

func (c *Check) eachReader(on func(name string, s *State, e *Event, rd *V)) {
	cfg := Config{NoKill: true,
		FollowGo: func(e *Event) bool { return true }}
	for _, x := range []struct {
		fn   *ssa.Function
		loop string
	}{{c.serveRoot(), "qrpc.serveconn.readFrames"}, {c.fn("qrpc.Connection.readFrames"), "qrpc.Connection.readFrames"}} {
		x := x
		fn := x.fn
		if fn == nil {
			continue
		}
		n := 0
		c.explore(cfg, fn, nil, nil, newM("reader", func(m *M, s *State, e *Event) {
			if (e.Kind == EvEnter || e.Kind == EvCall) && strings.HasSuffix(e.Name, "FrameReader.ReadFrame") {
				n++
				on(x.loop, s, e, strip(e.Args[0]))
				s.dead = true
			}
			if e.Kind == EvSelect && fnName(fn) != x.loop && fnName(e.In.Parent()) == "qrpc.serveconn.serve" {
				s.dead = true // only the start of the server's loop matters here
			}
		}))
		if n == 0 {
			c.report("readers", x.loop, c.p.pos(fn.Pos()), "no reading loop found", nil)
		}
	}
}

func c03(c *Check) {
	fn := c.fn("qrpc.defaultFrameReader.readFrame")
	fMax := c.field("", "defaultFrameReader", "maxFrameSize")
	if fn == nil || fMax == nil {
		return
	}
	recv := vSym(fn.Params[0].Name(), fn.Params[0].Type())
	max := mk(KLoad, 0, nil, 0, fMax.Type(), nil, vField(recv, fMax))
	checkSize := func(m *M, s *State, in ssa.Instruction, what string, n *V) {
		h := m.t["hdr"]
		if h == nil {
			return
		}
		var bs []*V
		for i := int64(0); i < 4; i++ {
			bs = append(bs, wireByte(s, h, i))
		}
		size := simplifyBits(vPure("be", tU32, bs...))
		if n != nil {
			x := stripConv(n)
			want := vBin(token.ADD, size, vInt(-12), tU32)
			if !(x == want || x.k == KBin && x.op == token.ADD && stripConv(x.args[0]) == size && x.args[1].isConst() && x.args[1].c.String() == "-12") {
				if k, ok := x.intC(); !ok || k > 64 {
					c.bad("size-checked", what+" length", in, s, "%s bytes are %s for a frame, not the declared size without the rest of the header", n, what)
				}
			}
		}
		if s.facts.eval(vLt(size, vInt(12))) != 0 {
			c.bad("size-checked", what+" minimum", in, s, "the payload is %s where a declared size below the header size is still possible", what)
		}
		iv := s.facts.interval(max)
		if iv.hi <= 0 {
			return
		}
		ok := false
		for t, v := range s.facts.b {
			if t.k != KLt {
				continue
			}
			x, y := stripConv(t.args[0]), stripConv(t.args[1])
			if !v && x == max && y == size || v && x == size && y == max {
				ok = true
			}
		}
		if !ok {
			c.bad("size-checked", what+" maximum", in, s, "the payload is %s where a declared size above the limit is still possible", what)
		}
	}
	// refused: an error of the library's own before the payload is read means that the size is out of bounds
	refused := func(m *M, s *State, e *Event) {
		h, err := m.t["hdr"], strip(e.Args[1])
		if h == nil || m.t["mem"] != nil || !isErrGlobal(err) || strings.Contains(err.args[0].String(), "PerSecond") || !strings.Contains(err.args[0].String(), "Frame") {
			return
		}
		var bs []*V
		for i := int64(0); i < 4; i++ {
			bs = append(bs, wireByte(s, h, i))
		}
		size := simplifyBits(vPure("be", tU32, bs...))
		c.at("size-refused", e.In)
		if s.facts.eval(vLt(size, vInt(12))) == 1 {
			return
		}
		for t, v := range s.facts.b {
			if t.k != KLt || s.facts.interval(max).lo < 1 {
				continue // no limit
			}
			x, y := stripConv(t.args[0]), stripConv(t.args[1])
			if v && x == max && y == size || !v && x == size && y == max {
				if !v {
					if s.facts.eval(vEq(t.args[0], t.args[1])) != 0 {
						continue
					}
				}
				return
			}
		}
		c.bad("size-refused", "within bounds", e.In, s, "a frame is refused (%s) although its declared size may be within the bounds", err)
	}
	c.explore(Config{NoKill: true}, fn, []*V{recv}, nil, newM("size", func(m *M, s *State, e *Event) {
		if dst := readDst(e); dst != nil {
			c.at("network-read", e.In)
			if m.t["hdr"] == nil {
				m.t["hdr"] = dst
				if n, ok := vLen(dst).intC(); !ok || n > 16 {
					c.bad("size-checked", "header", e.In, s, "%s bytes are read before the size is known", vLen(dst))
				}
				return
			}
			if rootOf(dst) == rootOf(m.t["hdr"]) { // the rest of the header
				return
			}
			if m.t["mem"] != nil && rootOf(dst) == rootOf(m.t["mem"]) { // the rest of the payload
				checkSize(m, s, e.In, "read", nil)
				return
			}
			m.t["mem"] = dst
			checkSize(m, s, e.In, "read", vLen(dst))
		}
		if e.Kind == EvMake && e.Op == "slice" && m.t["hdr"] != nil {
			c.at("reservation", e.In)
			checkSize(m, s, e.In, "reserved", e.Val)
		}
		if e.Kind == EvReturn && len(e.Args) == 2 {
			c.at("parser-return", e.In)
			fnil, enil := s.facts.nilEval(strip(e.Args[0])), s.facts.nilEval(e.Args[1])
			switch {
			case enil == 0:
				refused(m, s, e)
			case enil == 1 && fnil == 0:
				checkSize(m, s, e.In, "returned", nil)
			default:
				c.bad("parser-return", c.p.posOf(e.In), e.In, s, "the parser returns frame %s with error %s: neither a frame nor a certain error", e.Args[0], e.Args[1])
			}
		}
	}))
	c.floor("network-read")
	c.floor("reservation")
	c.floor("parser-return")
	c.floor("size-refused")
	// ReadFrame passes the parser's error on without delivering anything
	rf := c.fn("qrpc.defaultFrameReader.ReadFrame")
	c.explore(Config{NoKill: true, Opaque: func(f *ssa.Function) bool { return f == fn }}, rf, nil, nil, newM("err", func(m *M, s *State, e *Event) {
		if e.Kind == EvCall && e.Fn == fn {
			if m.t["err"] != nil && s.facts.nilEval(m.t["err"]) != 1 {
				c.bad("error-ends-reading", "ReadFrame", e.In, s, "another frame is parsed after an error")
			}
			m.t["err"] = resultErr(e)
			c.at("error-ends-reading", e.In)
			return
		}
		bad := m.t["err"] != nil && s.facts.nilEval(m.t["err"]) != 1
		if e.Kind == EvEnter && bad && strings.Contains(e.Name, "Stream") {
			c.bad("error-ends-reading", "ReadFrame delivery", e.In, s, "%s is called with a frame that was not parsed", e.Name)
		}
		if e.Kind == EvReturn && bad && len(e.Args) == 2 && s.facts.nilEval(e.Args[1]) != 0 {
			c.bad("error-ends-reading", "ReadFrame result", e.In, s, "the parser failed and the error returned is %s", e.Args[1])
		}
	}))
	// the reading loops stop on an error
	for _, name := range []string{"qrpc.serveconn.readFrames", "qrpc.Connection.readFrames"} {
		name := name
		f := c.fn(name)
		c.explore(Config{Opaque: func(f *ssa.Function) bool { return f == rf || f.Name() == "Release" || f.Name() == "waitThrottle" }}, f, nil, nil, newM("loop", func(m *M, s *State, e *Event) {
			if m.t["err"] != nil && s.facts.nilEval(m.t["err"]) == 1 {
				m.t["err"] = nil
			}
			bad := m.t["err"] != nil && s.facts.nilEval(m.t["err"]) != 1
			switch {
			case e.Kind == EvCall && e.Fn == rf:
				c.at("error-ends-loop", e.In)
				if bad {
					c.bad("error-ends-loop", name, e.In, s, "another frame is read after a reading error")
				}
				m.t["err"], m.t["frame"] = resultErr(e), e.Res.args[0]
			case bad && e.Kind == EvSend && !isGate(e.Ch) && mentions(s, e.Val, m.t["frame"]):
				c.bad("error-ends-loop", name+" delivery", e.In, s, "something is delivered after a reading error")
			case bad && (e.Kind == EvUser || e.Kind == EvCall) && mentions(s, vPure("args", nil, e.Args...), m.t["frame"]) || bad && e.Kind == EvGo:
				c.bad("error-ends-loop", name+" delivery", e.In, s, "a handler or subscriber is started after a reading error")
			}
		}))
	}
	c.floor("error-ends-loop")
	// the limit of served connections
	c.eachReader(func(name string, s *State, e *Event, rd *V) {
		if !strings.Contains(name, "serveconn") {
			return
		}
		c.ob("limit-in-force", name)
		v := s.load(vField(rd, fMax), fMax.Type())
		if n, ok := v.intC(); ok {
			if n <= 0 || !strings.Contains(constNameOf(c, n), "MaxFrameSize") {
				c.bad("limit-in-force", "default", e.In, s, "the reader's size limit is the constant %d, not DefaultMaxFrameSize", n)
			}
			return
		}
		if s.facts.interval(v).lo < 1 {
			c.bad("limit-in-force", "positive", e.In, s, "the reader's size limit is %s, which may be zero or negative (no limit)", v)
		}
		_, fs := pathOf(v)
		if r, _ := pathOf(v); !(len(fs) > 0 && fs[len(fs)-1].Name() == "MaxFrameSize" || r.k == KGlobal && strings.Contains(r.String(), "DefaultMaxFrameSize")) {
			c.bad("limit-in-force", "source", e.In, s, "the reader's size limit is %s, neither the configured one nor the default", v)
		}
	})
	c.floor("limit-in-force")
}

// mentions: the term contains x directly or in a struct it holds.
func mentions(s *State, v, x *V) bool { return v != nil && x != nil && contains(v, x) }

func isGate(ch *V) bool { return ch != nil && ch.k == KFresh && ch.n >= 1000000 }

func constNameOf(c *Check, n int64) string {
	if o, ok := c.p.pkg("").Scope().Lookup("DefaultMaxFrameSize").(*types.Const); ok {
		if v, _ := vConst(o.Val()).intC(); v == n {
			return o.Name()
		}
	}
	return ""
}

func c04(c *Check) {
	dfwT := c.p.typ("", "defaultFrameWriter")
	wbuf := c.field("", "defaultFrameWriter", "wbuf")
	if dfwT == nil || wbuf == nil {
		return
	}
	dfw := vSym("w", types.NewPointer(dfwT))
	cmdT, flagT := c.p.typ("", "Cmd"), c.p.typ("", "FrameFlag")
	id, cmd, flg := vSym("requestID", tU64), vSym("cmd", cmdT), vSym("flags", flagT)
	bt := types.NewSlice(tU8)
	junk, data, data2 := vSym("junk", bt), vSym("data", bt), vSym("data2", bt)
	start := wstep{fn: nDFW + "StartWrite", args: []*V{id, cmd, flg}}
	dstart := wstep{fn: nDSW + "StartWrite", args: []*V{cmd}}
	wr := func(p string, v *V) wstep { return wstep{fn: p + "WriteBytes", args: []*V{v}} }
	// a started frame is empty
	empty := func(label string, steps []wstep) {
		c.history(Config{NoKill: true}, dfw, steps, newM("empty", func(m *M, s *State, e *Event) {
			if e.Kind != EvReturn || phaseOf(s) != len(steps) {
				return
			}
			c.ob("start-empty", label)
			buf := s.load(vField(dfw, wbuf), wbuf.Type())
			if n, ok := vLen(buf).intC(); !ok || n != 16 {
				c.bad("start-empty", label, e.In, s, "after starting a frame the buffer has length %s instead of the 16 bytes of the header", vLen(buf))
			}
		}))
	}
	empty("StartWrite", []wstep{start})
	empty("stream StartWrite", []wstep{dstart})
	empty("StartWrite after data", []wstep{start, wr(nDFW, junk), start})
	empty("stream StartWrite after data", []wstep{dstart, wr(nDSW, junk), dstart})
	for _, e := range []wstep{{fn: nDFW + "EndWrite"}, {fn: nDFW + "EndWriteCompressed"}, {fn: nDFW + "StreamEndWrite", args: []*V{vSym("end", types.Typ[types.Bool])}}} {
		empty("StartWrite after "+e.fn[len(nDFW):], []wstep{start, wr(nDFW, junk), e, start})
		empty("stream StartWrite after "+e.fn[len(nDFW):], []wstep{start, wr(nDFW, junk), e, dstart})
	}
	c.floor("start-empty")
	// what was appended is what is handed over
	handed := func(label string, steps []wstep, want ...*V) {
		last := len(steps) - 1
		c.history(Config{NoKill: true}, dfw, steps, newM("payload", func(m *M, s *State, e *Event) {
			if e.Kind == EvCall && strings.HasSuffix(e.Name, "CompressorCodec.Encode") && phaseOf(s) == last {
				m.t["out"], m.t["err"] = e.Res.args[0], e.Res.args[1]
				c.ob("payload", label+" encode")
				if !sameSegs(segments(s.content(e.Args[1])), want...) {
					c.bad("payload", label+" encode", e.In, s, "the codec is given %s, the frame was written %s", showSegs(segments(s.content(e.Args[1]))), showSegs(want))
				}
			}
			if e.Kind == EvCall && strings.HasSuffix(e.Name, ".writeFrameBytes") && phaseOf(s) == last {
				c.ob("payload", label)
				buf := s.load(vField(strip(e.Args[1]), wbuf), wbuf.Type())
				pay, ok := payloadOf(s, buf)
				if ok && (sameSegs(pay, want...) || m.t["out"] != nil && sameSegs(pay, m.t["out"])) {
					return
				}
				all := len(pay) == 0
				for _, w := range want {
					all = all && s.isEmpty(w)
				}
				if !ok || !all {
					c.bad("payload", label, e.In, s, "the payload handed over is %s, written was %s", showSegs(pay), showSegs(want))
				}
			}
		}))
	}
	endw := wstep{fn: nDFW + "EndWrite"}
	dend := wstep{fn: nDSW + "EndWrite", args: []*V{vSym("end", types.Typ[types.Bool])}}
	handed("one write", []wstep{start, wr(nDFW, data), endw}, data)
	handed("two writes", []wstep{start, wr(nDFW, data), wr(nDFW, data2), endw}, data, data2)
	handed("unfinished frame before", []wstep{start, wr(nDFW, junk), start, wr(nDFW, data), endw}, data)
	handed("finished frame before", []wstep{start, wr(nDFW, junk), endw, start, wr(nDFW, data), endw}, data)
	handed("compressed frame before", []wstep{start, wr(nDFW, junk), {fn: nDFW + "EndWriteCompressed"}, start, wr(nDFW, data), endw}, data)
	handed("EndWriteCompressed", []wstep{start, wr(nDFW, data), {fn: nDFW + "EndWriteCompressed"}}, data)
	handed("stream", []wstep{start, wr(nDFW, junk), endw, dstart, wr(nDSW, data), dend}, data)
	handed("stream continued", []wstep{dstart, wr(nDSW, junk), dend, dstart, wr(nDSW, data), wr(nDSW, data2), dend}, data, data2)
	handed("stream after unfinished", []wstep{dstart, wr(nDSW, junk), dstart, wr(nDSW, data), {fn: nDSW + "EndWriteCompressed"}}, data)
	handed("reset after unfinished", []wstep{start, wr(nDFW, junk), {fn: nDFW + "ResetFrame", args: []*V{id, cmd}}})
	handed("stream reset after unfinished", []wstep{dstart, wr(nDSW, junk), {fn: nDSW + "ResetFrame", args: []*V{cmd}}})
	c.floor("payload")
	// request entry points send the caller's payload
	pay := vSym("payload", bt)
	for _, name := range []string{"qrpc.Connection.Request", "qrpc.Connection.StreamRequest", "qrpc.serveconn.Request", "qrpc.serveconn.StreamRequest"} {
		name := name
		fn := c.fn(name)
		c.explore(wireCfg(), fn, []*V{nil, cmd, flg, pay}, nil, c.wireMon("request-payload", name, wbuf, func(s *State, e *Event, w, buf *V) {
			p, ok := payloadOf(s, buf)
			if ok && sameSegs(p, pay) || ok && len(p) == 0 && s.isEmpty(pay) {
				return
			}
			if len(p) == 1 && strings.HasPrefix(p[0].String(), "res@") { // codec output, see C02
				return
			}
			c.bad("request-payload", name, e.In, s, "the payload handed over is %s, the caller's is %s", showSegs(p), pay)
		}))
	}
	c.floor("request-payload")
	c04pool(c, dfwT, wbuf)
}

// c04pool compares the state of recycled writers at put and get.
func c04pool(c *Check, dfwT types.Type, wbuf *types.Var) {
	st := dfwT.Underlying().(*types.Struct)
	dirtyPut := map[*types.Var]string{} // not certainly zero when put back
	puts := 0
	for _, fn := range c.p.Funcs {
		// functions that put a frame writer back
		has := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if f := call.Common().StaticCallee(); f != nil && fnName(f) == "sync.Pool.Put" {
						if mi, ok := call.Common().Args[1].(*ssa.MakeInterface); ok && types.Identical(derefType(mi.X.Type()), dfwT) {
							has = true
						}
					}
				}
			}
		}
		if !has {
			continue
		}
		c.explore(Config{NoKill: true}, fn, nil, nil, newM("put", func(m *M, s *State, e *Event) {
			if e.Kind == EvCall && e.Name == "sync.Pool.Put" && len(e.Args) == 2 && e.Args[1].k == KIface && types.Identical(derefType(e.Args[1].typ), dfwT) {
				puts++
				c.at("recycled-state", e.In)
				w := strip(e.Args[1])
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i)
					v := s.load(vField(w, f), f.Type())
					if v.isNilC() || s.facts.nilEval(v) == 1 || s.facts.eval(v) == 0 || s.facts.eval(vEq(v, vInt(0))) == 1 {
						continue
					}
					dirtyPut[f] = c.p.posOf(e.In)
				}
			}
		}))
	}
	if puts == 0 {
		c.report("recycled-state", "put", "?", "no place puts frame writers back", nil)
	}
	fn := c.fn("qrpc.newFrameWriter")
	if fn == nil {
		return
	}
	arg := vSym(fn.Params[0].Name(), fn.Params[0].Type())
	c.explore(Config{NoKill: true}, fn, []*V{arg}, nil, newM("get", func(m *M, s *State, e *Event) {
		if e.Kind != EvReturn {
			return
		}
		w := strip(e.Res)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if f == wbuf {
				continue
			}
			c.ob("recycled-state", "newFrameWriter."+f.Name())
			v := s.load(vField(w, f), f.Type())
			if v.isNilC() || v.isFalse() || s.facts.eval(v) == 0 || v == arg || strip(v) == arg {
				continue
			}
			if n, ok := v.intC(); ok && n == 0 {
				continue
			}
			if p, ok := dirtyPut[f]; ok {
				c.bad("recycled-state", f.Name(), e.In, s, "a recycled frame writer keeps field %s of its previous owner (put back at %s with it set)", f.Name(), p)
			}
		}
		if fbw := c.p.field("", "defaultFrameWriter", "fbw"); fbw != nil {
			if v := s.load(vField(w, fbw), fbw.Type()); strip(v) != arg {
				c.bad("recycled-state", "fbw", e.In, s, "a writer handed out writes to %s, not to the connection it was created for", v)
			}
		}
	}))
	c.floor("recycled-state")
}
