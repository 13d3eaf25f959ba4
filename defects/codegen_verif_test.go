package codegen

import (
	"context"
	"encoding/json"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
)

type verifOut struct{ Err string }

func (o *verifOut) SetError(err error)       {}
func (o *verifOut) Marshal() ([]byte, error) { return nil, nil }
func (o *verifOut) Unmarshal([]byte) error   { return nil }

type verifSvc struct{}

func (verifSvc) Hello(ctx context.Context, in int) verifOut { return verifOut{} }

func TestDefectResultEncoding(t *testing.T) {
	if !func() bool { var o interface{} = &verifOut{}; _, ok := o.(Output); return ok }() {
		t.Skip("not an Output")
	}
	g := New("svc")
	g.Register(verifSvc{})
	g.Generate()
	src := g.buff.String()
	if strings.Contains(src, "err = output.Unmarshal(outBytes)") != strings.Contains(src, "outBytes, err = output.Marshal()") {
		t.Fatal("client and server encode the result differently")
	}
}

// generated programs: the generator is run in a program of its own, what it writes is compiled beside it
func emitted(t *testing.T, reg string, times int) {
	dir := t.TempDir()
	wd, _ := os.Getwd() // the package's directory
	w := func(name, text string) string {
		p := filepath.Join(dir, name)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			t.Fatal(err)
		}
		return p
	}
	types := `package zzv
import "context"
type In struct{ A int }
type Out struct{ B int }
func (o *Out) SetError(err error) {}
type Bin struct{}
func (*Bin) Marshal() ([]byte, error) { return nil, nil }
func (*Bin) Unmarshal([]byte) error { return nil }
type Bout struct{}
func (*Bout) Marshal() ([]byte, error) { return nil, nil }
func (*Bout) Unmarshal([]byte) error { return nil }
func (*Bout) SetError(error) {}
type S struct{}
func (S) One(ctx context.Context, in In) Out { return Out{} }
func (S) Two(ctx context.Context, in In) Out { return Out{} }
type B struct{}
func (B) Only(ctx context.Context, in Bin) Bout { return Bout{} }
`
	main := `package main
import (
	"github.com/zhiqiangxu/qrpc/codegen"
	"github.com/zhiqiangxu/qrpc/codegen/zzv"
)
func main() {
	_ = zzv.S{}
`
	for i := 0; i < times; i++ {
		main += "	{ g := codegen.New(\"svc" + string(rune('a'+i)) + "\"); " + reg + "; g.Generate(); g.Output() }\n"
	}
	main += "}\n"
	over := map[string]string{wd + "/zzv/t.go": w("t.go", types), wd + "/zzmain/m.go": w("m.go", main)}
	run := func(where string, args ...string) {
		t.Helper()
		b, _ := json.Marshal(map[string]interface{}{"Replace": over})
		o := w("o.json", string(b))
		for i, a := range args {
			if a == "-overlay" {
				args[i] = "-overlay=" + o
			}
		}
		c := exec.Command(args[0], args[1:]...)
		c.Dir = where
		if out, err := c.CombinedOutput(); err != nil {
			if len(out) > 600 {
				out = out[len(out)-600:]
			}
			t.Fatalf("%v: %s", err, out)
		}
	}
	run(wd, "go", "build", "-overlay", "-o", dir+"/gen.exe", "./zzmain")
	out := filepath.Join(dir, "gen")
	os.Mkdir(out, 0o755)
	run(out, dir+"/gen.exe")
	fs, _ := filepath.Glob(out + "/*.go")
	if len(fs) != times {
		t.Fatal(fs)
	}
	for _, f := range fs {
		over[wd+"/zzgen/"+filepath.Base(f)] = f
	}
	run(wd, "go", "build", "-overlay", "./zzgen")
}

func TestDefectSubService(t *testing.T) {
	emitted(t, "g.Register(zzv.S{}); g.RegisterSub(\"sub\", zzv.S{})", 1)
}

func TestDefectTwoGenerators(t *testing.T) { emitted(t, "g.Register(zzv.S{})", 2) }

func TestDefectMarshalersOnly(t *testing.T) { emitted(t, "g.Register(zzv.B{})", 1) }
