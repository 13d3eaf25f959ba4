package main

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/scanner"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// The rules name functions, types, fields and variables of the tree. A tree in which some of them carry another name
// behaves the same: names which disappeared are matched with names which appeared, and the source is analysed with the
// known names put back (lines stay the same).

//go:embed names.json
var namesJSON []byte

type nameEntry struct {
	Kind  string         `json:"k"` // func, type, field, var, const
	Pkg   string         `json:"p"`
	Owner string         `json:"o,omitempty"`
	Name  string         `json:"n"`
	Type  string         `json:"t"`
	Idx   int            `json:"i,omitempty"`
	Toks  map[string]int `json:"b,omitempty"`
	obj   types.Object
}

func (e *nameEntry) key() string { return e.Kind + " " + e.Pkg + " " + e.Owner + " " + e.Name }

func tokensOf(src []byte) map[string]int {
	var s scanner.Scanner
	fs := token.NewFileSet()
	s.Init(fs.AddFile("", -1, len(src)), src, nil, 0)
	r := map[string]int{}
	for {
		_, t, lit := s.Scan()
		if t == token.EOF {
			return r
		}
		if t == token.IDENT || t.IsLiteral() {
			r[lit]++
		} else if t.IsKeyword() {
			r[t.String()]++
		}
	}
}

func similar(a, b map[string]int) float64 {
	in, un := 0, 0
	for k, n := range a {
		m := b[k]
		in += min(n, m)
		un += max(n, m)
	}
	for k, m := range b {
		if _, ok := a[k]; !ok {
			un += m
		}
	}
	if un == 0 {
		return 1
	}
	return float64(in) / float64(un)
}

// names lists what the packages declare.
func names(ps []*packages.Package) []*nameEntry {
	var out []*nameEntry
	for _, x := range ps {
		if x.Module == nil {
			continue
		}
		pk := strings.TrimPrefix(strings.TrimPrefix(x.PkgPath, x.Module.Path), "/")
		if hasPrefixAny(pk, "test", "tool") {
			continue
		}
		qual := func(p *types.Package) string { return p.Name() }
		src := map[string][]byte{}
		text := func(n ast.Node) []byte {
			a, b := x.Fset.Position(n.Pos()), x.Fset.Position(n.End())
			if src[a.Filename] == nil {
				src[a.Filename], _ = os.ReadFile(a.Filename)
			}
			if s := src[a.Filename]; b.Offset <= len(s) {
				return s[a.Offset:b.Offset]
			}
			return nil
		}
		add := func(e *nameEntry) {
			if e.Name == "_" || e.Name == "init" || e.Name == "main" {
				return
			}
			e.Pkg = pk
			out = append(out, e)
		}
		for _, f := range x.Syntax {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					fn, _ := x.TypesInfo.Defs[d.Name].(*types.Func)
					if fn == nil {
						continue
					}
					sig := fn.Type().(*types.Signature)
					e := &nameEntry{Kind: "func", Name: d.Name.Name, obj: fn}
					if r := sig.Recv(); r != nil {
						e.Owner = typeBase(r.Type())
					}
					var ts []string
					for i := 0; i < sig.Params().Len(); i++ {
						ts = append(ts, types.TypeString(sig.Params().At(i).Type(), qual))
					}
					ts = append(ts, ")")
					for i := 0; i < sig.Results().Len(); i++ {
						ts = append(ts, types.TypeString(sig.Results().At(i).Type(), qual))
					}
					e.Type = strings.Join(ts, ",")
					if d.Body != nil {
						e.Toks = tokensOf(text(d.Body))
					}
					add(e)
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							tn, _ := x.TypesInfo.Defs[s.Name].(*types.TypeName)
							if tn == nil {
								continue
							}
							e := &nameEntry{Kind: "type", Name: s.Name.Name, Type: fmt.Sprintf("%T", tn.Type().Underlying()), obj: tn, Toks: tokensOf(text(s.Type))}
							add(e)
							if st, ok := tn.Type().Underlying().(*types.Struct); ok {
								if _, direct := s.Type.(*ast.StructType); !direct {
									continue
								}
								for i := 0; i < st.NumFields(); i++ {
									if !st.Field(i).Embedded() {
										add(&nameEntry{Kind: "field", Owner: s.Name.Name, Name: st.Field(i).Name(), Type: types.TypeString(st.Field(i).Type(), qual), Idx: i + 1, obj: st.Field(i)})
									}
								}
							}
							if it, ok := tn.Type().Underlying().(*types.Interface); ok {
								for i := 0; i < it.NumExplicitMethods(); i++ {
									m := it.ExplicitMethod(i)
									add(&nameEntry{Kind: "method", Owner: s.Name.Name, Name: m.Name(), Type: types.TypeString(m.Type(), qual), Idx: i + 1, obj: m})
								}
							}
						case *ast.ValueSpec:
							for i, n := range s.Names {
								o := x.TypesInfo.Defs[n]
								if o == nil {
									continue
								}
								e := &nameEntry{Kind: "var", Name: n.Name, Type: types.TypeString(o.Type(), qual), obj: o}
								if d.Tok == token.CONST {
									e.Kind = "const"
									e.Type += "=" + o.(*types.Const).Val().ExactString()
								}
								if i < len(s.Values) {
									e.Toks = tokensOf(text(s.Values[i]))
								}
								add(e)
							}
						}
					}
				}
			}
		}
	}
	return out
}

// unrename: the files of the tree with the known names put back, and the names found.
func unrename(ps []*packages.Package) (map[string][]byte, []string) {
	var base []*nameEntry
	if json.Unmarshal(namesJSON, &base) != nil {
		return nil, nil
	}
	cur := names(ps)
	have, known := map[string]bool{}, map[string]bool{}
	for _, e := range base {
		known[e.key()] = true
	}
	for _, e := range cur {
		have[e.key()] = true
	}
	back := map[types.Object]string{}
	var notes []string
	types2 := map[string]string{} // pkg + new type name -> old
	match := func(kind string) {
		type cand struct {
			b, c *nameEntry
			s    float64
		}
		var cs []cand
		fix := func(e *nameEntry) string { // the type string with the known names
			t := e.Type
			for k, old := range types2 {
				i := strings.LastIndex(k, " ")
				t = replaceWord(t, k[i+1:], old)
			}
			return t
		}
		for _, b := range base {
			if b.Kind != kind || have[b.key()] {
				continue
			}
			for _, c := range cur {
				if c.Kind != kind || c.Pkg != b.Pkg {
					continue
				}
				o := c.Owner
				if old := types2[c.Pkg+" "+o]; old != "" {
					o = old
				}
				if o != b.Owner || known[kind+" "+c.Pkg+" "+o+" "+c.Name] || fix(c) != b.Type {
					continue
				}
				s := similar(b.Toks, c.Toks)
				if kind == "field" || kind == "method" {
					s = 1 - float64(abs(b.Idx-c.Idx))/100
				}
				lim := 0.4
				if kind == "var" || kind == "const" {
					lim = 0.9
				}
				if s >= lim {
					cs = append(cs, cand{b, c, s})
				}
			}
		}
		sort.SliceStable(cs, func(i, j int) bool { return cs[i].s > cs[j].s })
		db, dc := map[*nameEntry]bool{}, map[*nameEntry]bool{}
		for _, x := range cs {
			if db[x.b] || dc[x.c] {
				continue
			}
			db[x.b], dc[x.c] = true, true
			back[x.c.obj] = x.b.Name
			if kind == "type" {
				types2[x.c.Pkg+" "+x.c.Name] = x.b.Name
			}
			notes = append(notes, fmt.Sprintf("%s %s is taken for %s", kind, strings.TrimPrefix(x.c.Owner+"."+x.c.Name, "."), x.b.Name))
		}
	}
	for _, k := range []string{"type", "field", "method", "func", "const", "var"} {
		match(k)
	}
	if len(back) == 0 {
		return nil, nil
	}
	over := map[string][]byte{}
	type edit struct {
		off, n int
		s      string
	}
	eds := map[string]map[int]edit{}
	for _, x := range ps {
		mark := func(id *ast.Ident, o types.Object) {
			s, ok := back[o]
			if v, isVar := o.(*types.Var); isVar && !ok && v.Embedded() {
				t := v.Type()
				if p, ok := t.(*types.Pointer); ok {
					t = p.Elem()
				}
				if n, isN := t.(*types.Named); isN {
					s, ok = back[n.Obj()]
				}
			}
			if !ok || id.Name == s {
				return
			}
			p := x.Fset.Position(id.Pos())
			if eds[p.Filename] == nil {
				eds[p.Filename] = map[int]edit{}
			}
			eds[p.Filename][p.Offset] = edit{p.Offset, len(id.Name), s}
		}
		for id, o := range x.TypesInfo.Defs {
			if o != nil {
				mark(id, o)
			}
		}
		for id, o := range x.TypesInfo.Uses {
			mark(id, o)
		}
	}
	for f, m := range eds {
		src, err := os.ReadFile(f)
		if err != nil {
			return nil, nil
		}
		var es []edit
		for _, e := range m {
			es = append(es, e)
		}
		sort.Slice(es, func(i, j int) bool { return es[i].off < es[j].off })
		var b bytes.Buffer
		at := 0
		for _, e := range es {
			b.Write(src[at:e.off])
			b.WriteString(e.s)
			at = e.off + e.n
		}
		b.Write(src[at:])
		over[f] = b.Bytes()
	}
	return over, notes
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func replaceWord(s, w, by string) string {
	var b strings.Builder
	isW := func(c byte) bool {
		return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	}
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], w) && (i == 0 || !isW(s[i-1])) && (i+len(w) == len(s) || !isW(s[i+len(w)])) {
			b.WriteString(by)
			i += len(w)
			continue
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}
