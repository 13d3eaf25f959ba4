package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- helpers over bit provenance

func srcBits(v *V, lo, n int) []Bit {
	b := bitsWidth(v, lo+n)
	return b[lo : lo+n]
}

// resolve replaces bits decided by the facts.
func (s *State) resolve(b Bit) Bit {
	if b.kind == 2 {
		if r := s.facts.eval(vBit(b.src, b.idx)); r >= 0 {
			return Bit{kind: r}
		}
	}
	return b
}

func (s *State) sameBits(got, want []Bit) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if got[i] == want[i] {
			continue
		}
		if s.resolve(got[i]) != s.resolve(want[i]) {
			return false
		}
	}
	return true
}

func showBits(bs []Bit) string {
	var p []string
	for i := len(bs) - 1; i >= 0; {
		b := bs[i]
		if b.kind < 2 {
			p = append(p, fmt.Sprint(b.kind))
			i--
			continue
		}
		j := i
		for j-1 >= 0 && bs[j-1].kind == 2 && bs[j-1].src == b.src && bs[j-1].idx == bs[j].idx-1 {
			j--
		}
		if i == j {
			p = append(p, fmt.Sprintf("%s[%d]", b.src, b.idx))
		} else {
			p = append(p, fmt.Sprintf("%s[%d:%d]", b.src, bs[j].idx, b.idx))
		}
		i = j - 1
	}
	return strings.Join(p, "|")
}

// wireByte reads byte i of a slice from the state's memory.
func wireByte(s *State, sl *V, i int64) *V {
	return s.load(vIdx(sl, vInt(i)), types.Typ[types.Uint8])
}

func isFn(fn *ssa.Function, names ...string) bool {
	n := fnName(fn)
	for _, x := range names {
		if x == n {
			return true
		}
	}
	return false
}

const (
	nDFW = "qrpc.defaultFrameWriter."
	nDSW = "qrpc.defaultStreamWriter."
)

// step of a history of writer calls
type wstep struct {
	fn   string
	args []*V
	free int
}

// history explores a sequence of calls on one receiver; on is called for every event.
func (c *Check) history(cfg Config, recv *V, steps []wstep, mons ...Monitor) {
	c.historyInit(cfg, recv, steps, nil, mons...)
}

func (c *Check) historyInit(cfg Config, recv *V, steps []wstep, init func(*State), mons ...Monitor) {
	var fns []*ssa.Function
	for _, st := range steps {
		f := c.fn(st.fn)
		if f == nil {
			return
		}
		fns = append(fns, f)
	}
	ph := newM("phase", func(m *M, s *State, e *Event) {
		if e.Kind == EvReturn {
			m.n["ph"]++
		}
	})
	cfg.Next = func(s *State, e *Event) (*ssa.Function, []*V) {
		for _, m := range s.mons {
			if x, ok := m.(*M); ok && x.name == "phase" {
				i := x.n["ph"]
				if i < len(steps) {
					return fns[i], append([]*V{recv}, steps[i].args...)
				}
			}
		}
		return nil, nil
	}
	c.exploreInit(cfg, fns[0], append([]*V{recv}, steps[0].args...), nil, init, append([]Monitor{ph}, mons...)...)
}

func phaseOf(s *State) int {
	for _, m := range s.mons {
		if x, ok := m.(*M); ok && x.name == "phase" {
			return x.n["ph"]
		}
	}
	return 0
}

var (
	tU64 = types.Typ[types.Uint64]
	tU32 = types.Typ[types.Uint32]
	tU8  = types.Typ[types.Uint8]
)

// wireMon checks the bytes handed to writeFrameBytes.
func (c *Check) wireMon(rule, label string, wbuf *types.Var, chk func(s *State, e *Event, dfw, buf *V)) *M {
	return newM("wire", func(m *M, s *State, e *Event) {
		if e.Kind == EvCall && strings.HasSuffix(e.Name, ".writeFrameBytes") && len(e.Args) >= 2 {
			dfw := strip(e.Args[1])
			c.ob(rule, label)
			buf := s.load(vField(dfw, wbuf), wbuf.Type())
			chk(s, e, dfw, buf)
		}
	})
}

func init() {
	reg("C01", "bit provenance analysis: every path of every history StartWrite [setter] [payload writer] End* is followed over the SSA form and each of the 16 header bytes reaching the connection is compared bit by bit with the argument it must come from; the same for the decoder, the accessors and the packet tool", c01)
	reg("C05", "bit provenance of every flag and command helper compared with its truth function over the bits of the argument, and path analysis of the request entry points up to the header flags", c05)
	reg("C13", "dataflow: ids are an affine function of a counter changed only atomically, with the parity of the side; the same value is stored in the response, registered and put on the wire; origin predicates are checked bit by bit", c13)
}

func c01(c *Check) {
	dfwT := c.p.typ("", "defaultFrameWriter")
	wbuf := c.field("", "defaultFrameWriter", "wbuf")
	if dfwT == nil || wbuf == nil {
		return
	}
	dfw := vSym("w", types.NewPointer(dfwT))
	cmdT, flagT := c.p.typ("", "Cmd"), c.p.typ("", "FrameFlag")
	id, cmd, flg := vSym("requestID", tU64), vSym("cmd", cmdT), vSym("flags", flagT)
	id2, cmd2, flg2 := vSym("requestID2", tU64), vSym("cmd2", cmdT), vSym("flags2", flagT)
	header := func(label string, wid, wcmd *V, wflags []Bit, skip map[int]bool) *M {
		return c.wireMon("header-on-wire", label, wbuf, func(s *State, e *Event, w, buf *V) {
			get := func(i int64) []Bit { return bitsWidth(wireByte(s, buf, i), 8) }
			n := vBin(token.SUB, vLen(buf), vInt(4), types.Typ[types.Int])
			for i := 0; i < 4; i++ {
				want := srcBits(n, 8*(3-i), 8)
				if !s.sameBits(get(int64(i)), want) {
					c.bad("header-on-wire", label+" length byte", e.In, s, "byte %d of the frame is %s, not byte %d of the big endian length of what follows (%s)", i, showBits(get(int64(i))), i, n)
				}
			}
			for i := 0; i < 8; i++ {
				if want := srcBits(wid, 8*(7-i), 8); !s.sameBits(get(int64(4+i)), want) {
					c.bad("header-on-wire", label+" request id byte", e.In, s, "byte %d of the frame is %s, not %s", 4+i, showBits(get(int64(4+i))), showBits(want))
				}
			}
			gf := get(12)
			for i := 0; i < 8; i++ {
				if skip[i] {
					continue
				}
				if !s.sameBits(gf[i:i+1], wflags[i:i+1]) {
					c.bad("header-on-wire", label+" flag byte", e.In, s, "bit %d of the flag byte is %s, not %s", i, showBits(gf[i:i+1]), showBits(wflags[i:i+1]))
				}
			}
			for i := 0; i < 3; i++ {
				if want := srcBits(wcmd, 8*(2-i), 8); !s.sameBits(get(int64(13+i)), want) {
					c.bad("header-on-wire", label+" command byte", e.In, s, "byte %d of the frame is %s, not %s", 13+i, showBits(get(int64(13+i))), showBits(want))
				}
			}
		})
	}
	codec := map[int]bool{5: true}
	codecEnd := map[int]bool{5: true, 1: true}
	fb := srcBits(flg, 0, 8)
	start := wstep{fn: nDFW + "StartWrite", args: []*V{id, cmd, flg}}
	ends := []struct {
		w    wstep
		skip map[int]bool
	}{
		{wstep{fn: nDFW + "EndWrite"}, codec},
		{wstep{fn: nDFW + "EndWriteCompressed"}, codec},
		{wstep{fn: nDFW + "StreamEndWrite", args: []*V{vSym("end", types.Typ[types.Bool])}}, codecEnd},
	}
	cfg := Config{NoKill: true}
	for _, e := range ends {
		c.history(cfg, dfw, []wstep{start, e.w}, header("StartWrite+"+e.w.fn[len(nDFW):], id, cmd, fb, e.skip))
	}
	for _, mid := range []wstep{
		{fn: nDFW + "WriteBytes", args: []*V{vSym("data", types.NewSlice(tU8))}},
		{fn: nDFW + "WriteUint64", args: []*V{vSym("v", tU64)}},
		{fn: nDFW + "WriteUint32", args: []*V{vSym("v", tU32)}},
		{fn: nDFW + "WriteUint16", args: []*V{vSym("v", types.Typ[types.Uint16])}},
		{fn: nDFW + "WriteUint8", args: []*V{vSym("v", tU8)}},
	} {
		c.history(cfg, dfw, []wstep{start, mid, ends[0].w}, header(mid.fn[len(nDFW):], id, cmd, fb, codec))
	}
	c.history(cfg, dfw, []wstep{start, {fn: nDFW + "SetCmd", args: []*V{cmd2}}, ends[0].w}, header("SetCmd", id, cmd2, fb, codec))
	c.history(cfg, dfw, []wstep{start, {fn: nDFW + "SetRequestID", args: []*V{id2}}, ends[0].w}, header("SetRequestID", id2, cmd, fb, codec))
	c.history(cfg, dfw, []wstep{start, {fn: nDFW + "SetFlags", args: []*V{flg2}}, ends[0].w}, header("SetFlags", id, cmd, srcBits(flg2, 0, 8), codec))
	rst := constOf(c, "StreamRstFlag")
	c.history(cfg, dfw, []wstep{{fn: nDFW + "ResetFrame", args: []*V{id, cmd}}}, header("ResetFrame", id, cmd, srcBits(vInt(rst), 0, 8), nil))
	// stream writers keep id and flags and replace the command
	c.history(cfg, dfw, []wstep{start, ends[0].w, {fn: nDSW + "StartWrite", args: []*V{cmd2}}, {fn: nDSW + "EndWrite", args: []*V{vBool(false)}}}, onlyPhase(3, header("stream StartWrite", id, cmd2, fb, codec)))
	c.history(cfg, dfw, []wstep{start, ends[0].w, {fn: nDSW + "ResetFrame", args: []*V{cmd2}}}, onlyPhase(2, header("stream ResetFrame", id, cmd2, srcBits(vInt(rst), 0, 8), nil)))
	c.floor("header-on-wire")

	// accessors
	wb := mk(KLoad, 0, nil, 0, wbuf.Type(), nil, vField(dfw, wbuf))
	in := func(i int) *V { return mk(KLoad, 0, nil, 0, tU8, nil, vIdx(wb, vInt(int64(i)))) }
	getter := func(name string, first, n int) {
		fn := c.fn(name)
		c.explore(cfg, fn, []*V{dfw}, nil, newM("getter", func(m *M, s *State, e *Event) {
			if e.Kind != EvReturn {
				return
			}
			c.ob("getter", name)
			w := widthOf(fn.Signature.Results().At(0).Type())
			want := make([]Bit, w)
			for i := 0; i < n; i++ {
				copy(want[8*(n-1-i):], bitsWidth(in(first+i), 8))
			}
			got := bitsWidth(e.Res, w)
			if !s.sameBits(got, want) {
				c.bad("getter", name, e.In, s, "returns %s, not the field at bytes %d..%d", showBits(got), first, first+n-1)
			}
		}))
	}
	getter(nDFW+"RequestID", 4, 8)
	getter(nDFW+"Cmd", 13, 3)
	getter(nDFW+"Flags", 12, 1)
	getter(nDFW+"Length", 0, 4)
	getter(nDSW+"RequestID", 4, 8)
	c.floor("getter")
	setter := func(name string, arg *V, first, n int) {
		fn := c.fn(name)
		c.explore(cfg, fn, []*V{dfw, arg}, nil, newM("setter", func(m *M, s *State, e *Event) {
			if e.Kind != EvReturn {
				return
			}
			c.ob("setter", name)
			for i := 0; i < 16; i++ {
				want := bitsWidth(in(i), 8)
				if i >= first && i < first+n {
					want = srcBits(arg, 8*(n-1-(i-first)), 8)
				}
				got := bitsWidth(wireByte(s, wb, int64(i)), 8)
				if !s.sameBits(got, want) {
					c.bad("setter", name, e.In, s, "leaves byte %d of the header as %s instead of %s", i, showBits(got), showBits(want))
				}
			}
			for a := range s.mem {
				if a.k == KIdx && a.args[0] == wb {
					if _, ok := a.args[1].intC(); !ok {
						c.bad("setter", name, e.In, s, "writes header bytes at an unknown position %s", a)
					}
				}
			}
		}))
	}
	setter(nDFW+"SetRequestID", id2, 4, 8)
	setter(nDFW+"SetCmd", cmd2, 13, 3)
	setter(nDFW+"SetFlags", flg2, 12, 1)
	c.floor("setter")
	// payload views
	for _, x := range []struct {
		name string
		lo   int64
	}{{nDFW + "Payload", 16}, {nDFW + "GetWbuf", 0}} {
		x := x
		c.explore(cfg, c.fn(x.name), []*V{dfw}, nil, newM("view", func(m *M, s *State, e *Event) {
			if e.Kind != EvReturn {
				return
			}
			c.ob("view", x.name)
			want := vSlice(wb, vInt(x.lo), nil)
			if e.Res != want {
				c.bad("view", x.name, e.In, s, "returns %s, not the bytes from position %d on", e.Res, x.lo)
			}
		}))
	}
	c.floor("view")
	// payload writers append big endian bytes at the end
	for _, x := range []struct {
		name string
		t    types.Type
	}{{"WriteUint64", tU64}, {"WriteUint32", tU32}, {"WriteUint16", types.Typ[types.Uint16]}, {"WriteUint8", tU8}} {
		x := x
		v := vSym("v", x.t)
		c.history(cfg, dfw, []wstep{start, {fn: nDFW + x.name, args: []*V{v}}}, newM("append", func(m *M, s *State, e *Event) {
			if e.Kind != EvReturn || phaseOf(s) != 2 {
				return
			}
			c.ob("payload-writer", x.name)
			buf := s.load(vField(dfw, wbuf), wbuf.Type())
			n := widthOf(x.t) / 8
			if l, ok := vLen(buf).intC(); !ok || l != int64(16+n) {
				c.bad("payload-writer", x.name, e.In, s, "the frame has length %s after appending %d bytes to an empty one", vLen(buf), n)
				return
			}
			for i := 0; i < n; i++ {
				want := srcBits(v, 8*(n-1-i), 8)
				if got := bitsWidth(wireByte(s, buf, int64(16+i)), 8); !s.sameBits(got, want) {
					c.bad("payload-writer", x.name, e.In, s, "payload byte %d is %s, not %s", i, showBits(got), showBits(want))
				}
			}
		}))
	}
	c.floor("payload-writer")

	// decoder
	c01reader(c)
	c01tool(c)
}

// onlyPhase shows events to a monitor only while the history is in the given step.
func onlyPhase(n int, m *M) *M {
	on := m.on
	m.on = func(m *M, s *State, e *Event) {
		if phaseOf(s) == n {
			on(m, s, e)
		}
	}
	return m
}

func constOf(c *Check, name string) int64 {
	o := c.p.pkg("").Scope().Lookup(name)
	if k, ok := o.(*types.Const); ok {
		v, _ := vConst(k.Val()).intC()
		return v
	}
	c.report("anchor", name, "?", "constant "+name+" does not exist", nil)
	return -1
}

func c01reader(c *Check) {
	fn := c.fn("qrpc.defaultFrameReader.readFrame")
	if fn == nil {
		return
	}
	fID, fCmd, fFlags, fPay := c.field("", "Frame", "RequestID"), c.field("", "Frame", "Cmd"), c.field("", "Frame", "Flags"), c.field("", "Frame", "Payload")
	if fID == nil || fCmd == nil || fFlags == nil || fPay == nil {
		return
	}
	// the first buffer filled from the network is the header
	mon := newM("decode", func(m *M, s *State, e *Event) {
		if dst := readDst(e); dst != nil && m.t["hdr"] == nil {
			m.t["hdr"] = rootSlice(dst)
			if n, ok := m.lenOf(s, dst).intC(); !ok || n != 16 {
				c.bad("decode", "header size", e.In, s, "the first read of a frame takes %s bytes, not the 16 byte header", vLen(dst))
			}
			return
		}
		if e.Kind != EvReturn || len(e.Args) < 2 {
			return
		}
		fr := strip(e.Args[0])
		if s.facts.nilEval(fr) == 1 {
			return
		}
		h := m.t["hdr"]
		if h == nil {
			c.bad("decode", "header", e.In, s, "a frame is returned without reading its header")
			return
		}
		c.ob("decode", c.p.posOf(e.In))
		chk := func(f *types.Var, first, n, w int) {
			got := bitsWidth(s.load(vField(fr, f), f.Type()), w)
			want := make([]Bit, w)
			for i := 0; i < n; i++ {
				copy(want[8*(n-1-i):], bitsWidth(wireByte(s, h, int64(first+i)), 8))
			}
			if !s.sameBits(got, want) {
				c.bad("decode", "Frame."+f.Name(), e.In, s, "Frame.%s is %s, not header bytes %d..%d", f.Name(), showBits(got), first, first+n-1)
			}
		}
		chk(fID, 4, 8, 64)
		chk(fFlags, 12, 1, 8)
		chk(fCmd, 13, 3, 32)
	})
	c.explore(Config{NoKill: true}, fn, nil, nil, mon)
	c.floor("decode")
}

func (m *M) lenOf(s *State, v *V) *V { return vLen(v) }

func rootSlice(v *V) *V { return v }

// readDst: the event fills a buffer from a reader; the buffer.
func readDst(e *Event) *V {
	if e.Kind != EvCall {
		return nil
	}
	switch e.Name {
	case "io.ReadFull", "io.ReadAtLeast":
		return e.Args[1]
	case "bufio.Reader.Read", "net.Conn.Read", "io.Reader.Read":
		return e.Args[1]
	}
	return nil
}

func c01tool(c *Check) {
	fn := c.p.fnIn("tool/packet", "main.main")
	if fn == nil {
		c.report("anchor", "tool/packet", "?", "the packet tool does not exist", nil)
		return
	}
	// flag variables by the text of their flag name
	flagVar := map[string]*V{}
	if initf := c.p.SSA.Package(c.p.pkg("tool/packet")).Func("init"); initf != nil {
		for _, b := range initf.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				if call, ok := st.Val.(*ssa.Call); ok && call.Call.StaticCallee() != nil && call.Call.StaticCallee().Pkg.Pkg.Path() == "flag" && len(call.Call.Args) > 0 {
					if k, ok := call.Call.Args[0].(*ssa.Const); ok {
						gv := mk(KGlobal, 0, g, 0, g.Type(), nil)
						pt := derefType(g.Type())
						flagVar[strings.Trim(k.Value.String(), `"`)] = mk(KLoad, 0, nil, 0, derefType(pt), nil, mk(KLoad, 0, nil, 0, pt, nil, gv))
					}
				}
			}
		}
	}
	cmd, flg, id, pay := flagVar["c"], flagVar["f"], flagVar["r"], flagVar["p"]
	if cmd == nil || flg == nil || id == nil || pay == nil {
		c.report("anchor", "packet flags", "?", "the packet tool's -c -f -r -p flags were not found", nil)
		return
	}
	cfg := Config{NoKill: true, PureCall: func(n string) bool {
		return strings.HasPrefix(n, "fmt.") || strings.HasPrefix(n, "flag.") || strings.HasPrefix(n, "log.") || strings.HasPrefix(n, "hex.")
	}}
	mon := newM("tool", func(m *M, s *State, e *Event) {
		if e.Kind == EvMake && e.Op == "slice" && m.t["buf"] == nil {
			m.t["buf"] = e.Res
		}
		if e.Kind == EvCall && strings.HasPrefix(e.Name, "log.Fatal") {
			s.dead = true
			return
		}
		if e.Kind == EvCopy && m.t["buf"] != nil && rootOf(e.Args[0]) == rootOf(m.t["buf"]) {
			if _, off := rootOff(e.Args[0]); off != nil {
				if n, ok := off.intC(); ok && n == 16 {
					m.n["pay"] = 1
				}
			}
		}
		if e.Kind == EvReturn {
			b := m.t["buf"]
			if b == nil {
				// built by appending
				return
			}
			c.ob("packet-tool", "header")
			chk := func(first, n int, src *V, w int) {
				for i := 0; i < n; i++ {
					got := bitsWidth(wireByte(s, b, int64(first+i)), 8)
					want := srcBits(src, 8*(n-1-i), 8)
					if !s.sameBits(got, want) {
						c.bad("packet-tool", fmt.Sprintf("byte %d", first+i), e.In, s, "byte %d of the printed packet is %s, not %s", first+i, showBits(got), showBits(want))
					}
				}
			}
			chk(0, 4, vBin(token.SUB, vLen(b), vInt(4), types.Typ[types.Int]), 32)
			chk(4, 8, id, 64)
			chk(12, 1, flg, 8)
			chk(13, 3, cmd, 24)
			if l := vLen(b); l != vBin(token.ADD, vLen(pay), vInt(16), types.Typ[types.Int]) {
				c.bad("packet-tool", "size", e.In, s, "the packet has %s bytes, not 16 more than the payload", l)
			}
			if m.n["pay"] == 0 {
				c.bad("packet-tool", "payload", e.In, s, "the payload is not copied to position 16")
			}
		}
	})
	c.explore(cfg, fn, nil, nil, mon)
	c.floor("packet-tool")
}
