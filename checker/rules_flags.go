package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// decideBits compares a boolean result with a truth function over the bits of src, splitting on undecided bits.
func decideBits(f *Facts, res *V, src *V, n int, exp func(bit func(i int) int) int) (string, bool) {
	var rec func(f *Facts, depth int) (string, bool)
	rec = func(f *Facts, depth int) (string, bool) {
		r := f.eval(res)
		var need *V
		e := exp(func(i int) int {
			v := f.eval(vBit(src, i))
			if v < 0 && need == nil {
				need = vBit(src, i)
			}
			return v
		})
		if r >= 0 && e >= 0 {
			if r != e {
				var p []string
				for i := 0; i < n; i++ {
					if v := f.eval(vBit(src, i)); v >= 0 {
						p = append(p, fmt.Sprintf("bit %d=%d", i, v))
					}
				}
				return fmt.Sprintf("gives %v where %v is required (%s)", r == 1, e == 1, strings.Join(p, ", ")), false
			}
			return "", true
		}
		if depth > 12 {
			return "cannot be decided over the bits", false
		}
		var sp *V
		if r < 0 {
			sp = f.splitBit(res)
			if sp == nil {
				x := res
				for x.k == KNot {
					x = x.args[0]
				}
				if x.k == KBit {
					sp = x
				}
			}
		}
		if sp == nil {
			sp = need
		}
		if sp == nil {
			return fmt.Sprintf("is %s, which is not a function of the bits", res), false
		}
		for _, t := range []bool{false, true} {
			g := f.clone()
			if g.assume(sp, t) {
				if m, ok := rec(g, depth+1); !ok {
					return m, false
				}
			}
		}
		return "", true
	}
	return rec(f, 0)
}

// or3 is three valued or.
func or3(a ...int) int {
	r := 0
	for _, x := range a {
		if x == 1 {
			return 1
		}
		if x < 0 {
			r = -1
		}
	}
	return r
}
func not3(a int) int {
	if a < 0 {
		return a
	}
	return 1 - a
}

func log2(n int64) int {
	for i := 0; i < 62; i++ {
		if n == 1<<uint(i) {
			return i
		}
	}
	return -1
}

func (c *Check) predicate(rule, name string, args []*V, src func(*State) *V, n int, exp func(bit func(i int) int) int) {
	fn := c.fn(name)
	c.explore(Config{NoKill: true}, fn, args, nil, newM("pred", func(m *M, s *State, e *Event) {
		if e.Kind != EvReturn {
			return
		}
		c.ob(rule, name)
		if msg, ok := decideBits(s.facts, e.Res, src(s), n, exp); !ok {
			c.bad(rule, name, e.In, s, "%s %s", name, msg)
		}
	}))
}

func (c *Check) convert(rule, name string, args []*V, w int, want []Bit) {
	fn := c.fn(name)
	c.explore(Config{NoKill: true}, fn, args, nil, newM("conv", func(m *M, s *State, e *Event) {
		if e.Kind != EvReturn {
			return
		}
		c.ob(rule, name)
		got := bitsWidth(e.Res, w)
		if !s.sameBits(got, want) {
			c.bad(rule, name, e.In, s, "%s returns bits %s, required are %s", name, showBits(got), showBits(want))
		}
	}))
}

func c05(c *Check) {
	flagT, cmdT := c.p.typ("", "FrameFlag"), c.p.typ("", "Cmd")
	if flagT == nil || cmdT == nil {
		c.report("anchor", "FrameFlag", "?", "the flag and command types do not exist", nil)
		return
	}
	pos := map[string]int{}
	for i, n := range []string{"StreamFlag", "StreamEndFlag", "StreamRstFlag", "NBFlag", "PushFlag", "CodecFlag"} {
		b := log2(constOf(c, n))
		c.ob("flag-values", n)
		if b != i {
			c.report("flag-values", n, "qrpc.go", fmt.Sprintf("%s is %d, on the wire it is bit %d", n, constOf(c, n), i), nil)
		}
		pos[n] = b
	}
	if len(c.vs) > 0 {
		return
	}
	st, end, rst, nb, push, codec := pos["StreamFlag"], pos["StreamEndFlag"], pos["StreamRstFlag"], pos["NBFlag"], pos["PushFlag"], pos["CodecFlag"]
	flg := vSym("flg", flagT)
	self := func(*State) *V { return flg }
	type bf = func(int) int
	pr := func(name string, exp func(b bf) int) {
		c.predicate("predicate", "qrpc.FrameFlag."+name, []*V{flg}, self, 8, func(bit func(int) int) int { return exp(bit) })
	}
	pr("IsNonBlock", func(b bf) int { return or3(b(st), b(end), b(nb)) })
	pr("IsRst", func(b bf) int { return b(rst) })
	pr("IsStream", func(b bf) int { return or3(b(st), b(end)) })
	pr("IsDone", func(b bf) int { return or3(not3(b(st)), b(end), b(rst)) })
	pr("IsPush", func(b bf) int { return b(push) })
	pr("IsCodec", func(b bf) int { return b(codec) })
	c.floor("predicate")
	chg := func(set, clear []int) []Bit {
		w := append([]Bit(nil), srcBits(flg, 0, 8)...)
		for _, i := range set {
			w[i] = Bit{kind: 1}
		}
		for _, i := range clear {
			w[i] = Bit{kind: 0}
		}
		return w
	}
	cv := func(name string, set, clear []int) {
		c.convert("conversion", "qrpc.FrameFlag."+name, []*V{flg}, 8, chg(set, clear))
	}
	cv("ToNonStream", nil, []int{st, end})
	cv("ToStream", []int{st}, nil)
	cv("ToEndStream", []int{end}, nil)
	cv("ToNonCodec", nil, []int{codec})
	cv("ToCodec", []int{codec}, nil)
	cmd, op := vSym("c", cmdT), vSym("opaque", tU8)
	c.convert("conversion", "qrpc.Cmd.Opaque", []*V{cmd}, 8, srcBits(cmd, 16, 8))
	w := make([]Bit, 32)
	copy(w, srcBits(cmd, 0, 16))
	c.convert("conversion", "qrpc.Cmd.Routing", []*V{cmd}, 32, w)
	w2 := make([]Bit, 32)
	copy(w2, srcBits(cmd, 0, 16))
	copy(w2[16:], srcBits(op, 0, 8))
	c.convert("conversion", "qrpc.CmdWithOpaque", []*V{cmd, op}, 32, w2)
	c.floor("conversion")

	// entry points
	wbuf := c.field("", "defaultFrameWriter", "wbuf")
	if wbuf == nil {
		return
	}
	flags, pay := vSym("flags", flagT), vSym("payload", types.NewSlice(tU8))
	cmdA := vSym("cmd", cmdT)
	entry := func(name string, set, clear []int) {
		fn := c.fn(name)
		if fn == nil {
			return
		}
		want := append([]Bit(nil), srcBits(flags, 0, 8)...)
		for _, i := range set {
			want[i] = Bit{kind: 1}
		}
		for _, i := range clear {
			want[i] = Bit{kind: 0}
		}
		c.explore(wireCfg(), fn, []*V{nil, cmdA, flags, pay}, nil, c.wireMon("entry-flags", name, wbuf, func(s *State, e *Event, w, buf *V) {
			got := bitsWidth(wireByte(s, buf, 12), 8)
			for i := 0; i < 8; i++ {
				if i == codec {
					continue
				}
				if !s.sameBits(got[i:i+1], want[i:i+1]) {
					c.bad("entry-flags", fmt.Sprintf("%s bit %d", name, i), e.In, s, "bit %d of the flags sent is %s, required is %s", i, showBits(got[i:i+1]), showBits(want[i:i+1]))
				}
			}
		}))
	}
	entry("qrpc.Connection.Request", nil, []int{st, end})
	entry("qrpc.Connection.StreamRequest", []int{st}, nil)
	entry("qrpc.serveconn.Request", []int{nb}, []int{st, end})
	entry("qrpc.serveconn.StreamRequest", []int{st}, nil)
	c.floor("entry-flags")
	// the last frame of a stream write is marked
	dfw := vSym("w", types.NewPointer(c.p.typ("", "defaultFrameWriter")))
	id := vSym("requestID", tU64)
	for _, x := range []struct {
		fn string
	}{{nDFW + "StreamEndWrite"}, {nDSW + "EndWrite"}} {
		for _, last := range []bool{false, true} {
			x, last := x, last
			c.history(Config{NoKill: true}, dfw, []wstep{{fn: nDFW + "StartWrite", args: []*V{id, cmdA, flags}}, {fn: x.fn, args: []*V{vBool(last)}}}, c.wireMon("stream-end", fmt.Sprintf("%s(%v)", x.fn, last), wbuf, func(s *State, e *Event, w, buf *V) {
				got := bitsWidth(wireByte(s, buf, 12), 8)[end]
				want := srcBits(flags, end, 1)[0]
				if last {
					want = Bit{kind: 1}
				}
				if s.resolve(got) != s.resolve(want) {
					c.bad("stream-end", fmt.Sprintf("%s(%v)", x.fn, last), e.In, s, "the end marker of the frame is %s, required is %s", showBits([]Bit{got}), showBits([]Bit{want}))
				}
			}))
		}
	}
	c.floor("stream-end")
	// a last frame that was not sent leaves no mark on the next one
	dstart := wstep{fn: nDSW + "StartWrite", args: []*V{cmdA}}
	dwrite := wstep{fn: nDSW + "WriteBytes", args: []*V{pay}}
	dend := func(last bool) wstep { return wstep{fn: nDSW + "EndWrite", args: []*V{vBool(last)}} }
	c.historyInit(Config{NoKill: true}, dfw, []wstep{{fn: nDFW + "StartWrite", args: []*V{id, cmdA, flags}}, dstart, dwrite, dend(true), dstart, dwrite, dend(false)}, func(s *State) {
		// no write of this writer was given up before (that is for the end of the connection)
		if f := c.p.field("", "defaultFrameWriter", "abandoned"); f != nil {
			s.facts.assume(s.load(vField(dfw, f), f.Type()), false)
		}
	}, newM("unsent", func(m *M, s *State, e *Event) {
		if e.Kind != EvCall || !strings.HasSuffix(e.Name, ".writeFrameBytes") {
			return
		}
		if phaseOf(s) == 3 {
			m.n["sent"] = 1
		}
		if phaseOf(s) == 6 && m.n["sent"] == 0 {
			c.ob("unsent-end", "stream")
			got, want := bitsWidth(wireByte(s, s.load(vField(dfw, wbuf), wbuf.Type()), 12), 8)[end], srcBits(flags, end, 1)[0]
			if s.resolve(got) != s.resolve(want) {
				c.bad("unsent-end", "stream", e.In, s, "the end marker of a last frame which could not be encoded stays on the next frame: %s, required is %s", showBits([]Bit{got}), showBits([]Bit{want}))
			}
		}
	}))
	c.floor("unsent-end")
}

// wireCfg analyses a request entry point up to the hand-over of the frame.
func wireCfg() Config {
	return Config{NoKill: true, Opaque: func(fn *ssa.Function) bool { return fn.Name() == "writeFrameBytes" }}
}

func c13(c *Check) {
	sides := []struct {
		typ  string
		par  int
		name string
	}{{"Connection", 1, "client"}, {"serveconn", 0, "server"}}
	wbuf := c.field("", "defaultFrameWriter", "wbuf")
	if wbuf == nil {
		return
	}
	counters := map[*types.Var]bool{}
	for _, sd := range sides {
		for _, ent := range []string{"Request", "StreamRequest"} {
			sd, ent := sd, ent
			name := "qrpc." + sd.typ + "." + ent
			fn := c.fn(name)
			mon := newM("id", func(m *M, s *State, e *Event) {
				if e.Kind == EvAtomic && e.Op == "add" {
					if d, ok := e.Args[0].intC(); ok && d > 0 && widthOf(e.Res.typ) == 64 {
						m.t["ctr"] = e.Res
						m.t["addr"] = e.Addr
						m.n["delta"] = int(d)
					}
				}
				if e.Kind == EvCall && strings.HasSuffix(e.Name, ".writeFrameBytes") {
					buf := s.load(vField(strip(e.Args[1]), wbuf), wbuf.Type())
					var bs []*V
					for i := int64(4); i < 12; i++ {
						bs = append(bs, wireByte(s, buf, i))
					}
					wid := simplifyBits(vPure("be", tU64, bs...))
					m.t["wid"] = wid
					m.n["sent"]++
					c.ob("id-on-wire", name)
					ctr := m.t["ctr"]
					if ctr == nil || m.t["addr"].k != KField {
						c.bad("id-generation", name, e.In, s, "the id sent is %s, which does not come from an atomically incremented counter of the connection", wid)
						return
					}
					counters[m.t["addr"].aux.(*types.Var)] = true
					if rootBase := m.t["addr"].args[0]; rootBase != s.fr[0].env[fn.Params[0]] && rootBase.k != KSym {
						c.bad("id-generation", name, e.In, s, "the counter %s does not belong to the connection", m.t["addr"])
					}
					got := bitsWidth(wid, 64)
					want := make([]Bit, 64)
					want[0] = Bit{kind: sd.par}
					copy(want[1:], srcBits(ctr, 0, 63))
					if !s.sameBits(got, want) {
						c.bad("id-generation", name, e.In, s, "the id sent by the %s has bits %s, required are twice the counter plus %d", sd.name, showBits(got), sd.par)
					}
				}
				if e.Kind == EvReturn && ent == "Request" && len(e.Args) == 3 && s.facts.nilEval(e.Args[2]) != 0 {
					c.ob("id-returned", name)
					if m.n["sent"] != 1 {
						c.bad("id-returned", name, e.In, s, "a request is reported as sent after %d frames", m.n["sent"])
					} else if !s.sameBits(bitsWidth(e.Args[0], 64), bitsWidth(m.t["wid"], 64)) {
						c.bad("id-returned", name, e.In, s, "the id returned is %s, the id sent is %s", e.Args[0], m.t["wid"])
					}
				}
			})
			flagT, cmdT := c.p.typ("", "FrameFlag"), c.p.typ("", "Cmd")
			c.explore(wireCfg(), fn, []*V{nil, vSym("cmd", cmdT), vSym("flags", flagT), nil}, nil, mon)
		}
	}
	c.floor("id-on-wire")
	c.floor("id-returned")
	// the counters are only ever incremented atomically
	for f := range counters {
		n := 0
		for _, fn := range c.p.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok || derefType(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field) != f {
						continue
					}
					for _, r := range *fa.Referrers() {
						n++
						c.at("counter-use", r)
						if _, ok := r.(*ssa.DebugRef); ok {
							continue
						}
						good := false
						if call, ok := r.(*ssa.Call); ok {
							if cal := call.Call.StaticCallee(); cal != nil && pkgPath(cal) == "sync/atomic" && (strings.HasPrefix(cal.Name(), "Add") || strings.HasPrefix(cal.Name(), "Load")) {
								good = true
								if strings.HasPrefix(cal.Name(), "Add") {
									if k, ok := call.Call.Args[1].(*ssa.Const); !ok || k.Int64() <= 0 {
										good = false
									}
								}
							}
						}
						if !good {
							c.bad("counter-use", f.Name()+" in "+fnName(fn), r, nil, "the id counter %s is used other than by an atomic increment, ids may repeat", f.Name())
						}
					}
				}
			}
		}
		_ = n
	}
	c.floor("counter-use")
	// origin tests
	fID := c.field("", "Frame", "RequestID")
	if fID == nil {
		return
	}
	fr := vSym("r", types.NewPointer(c.p.typ("", "Frame")))
	idOf := func(*State) *V { return mk(KLoad, 0, nil, 0, fID.Type(), nil, vField(fr, fID)) }
	origin := func(name string, par int) {
		c.predicate("origin", name, []*V{fr}, idOf, 64, func(bit func(int) int) int {
			b := bit(0)
			if b < 0 {
				return b
			}
			return b2i(b == par)
		})
	}
	origin("qrpc.Frame.FromClient", 1)
	origin("qrpc.Frame.FromServer", 0)
	origin("qrpc.RequestFrame.FromClient", 1)
	c.floor("origin")
}

func pkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}
