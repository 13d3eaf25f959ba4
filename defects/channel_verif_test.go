package channel

import (
	"context"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

type fakeW struct{ ends []bool }

func (f *fakeW) RequestID() uint64                { return 1 }
func (f *fakeW) StartWrite(cmd qrpc.Cmd)          {}
func (f *fakeW) WriteBytes(v []byte)              {}
func (f *fakeW) EndWrite(end bool) error          { f.ends = append(f.ends, end); return nil }
func (f *fakeW) EndWriteCompressed() error        { return nil }
func (f *fakeW) ResetFrame(reason qrpc.Cmd) error { return nil }

type fakeI struct {
	n int32
	w fakeW
}

func (f *fakeI) IsClosed() bool { return false }
func (f *fakeI) StreamRequest(cmd qrpc.Cmd, flags qrpc.FrameFlag, payload []byte) (qrpc.StreamWriter, qrpc.Response, error) {
	atomic.AddInt32(&f.n, 1)
	time.Sleep(50 * time.Millisecond)
	return &f.w, nil, nil
}

func TestDefectConcurrentSend(t *testing.T) {
	f := &fakeI{}
	s, _, _ := NewTransport(f).Pipe()
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); s.Send(context.Background(), 1, "x", false) }()
	}
	wg.Wait()
	if f.n != 1 {
		t.Fatal("streams opened:", f.n)
	}
}

func TestDefectSendEnd(t *testing.T) {
	f := &fakeI{}
	s, _, _ := NewTransport(f).Pipe()
	s.Send(context.Background(), 1, "x", false)
	s.Send(context.Background(), 1, "y", true)
	if len(f.w.ends) != 1 || !f.w.ends[0] {
		t.Fatal("end marker lost")
	}
}

func TestDefectReceiveNoCmd(t *testing.T) {
	r := &serveReceiver{frame: &qrpc.RequestFrame{Payload: []byte(`"hi"`)}}
	var s string
	if err := r.Receive(context.Background(), nil, &s); err != nil || s != "hi" {
		t.Fatal(err, s)
	}
}

// fakeFW is the frame writer of a handler: it holds one frame at a time.
type fakeFW struct {
	cur    []byte
	frames []string
	ends   int
}

func (f *fakeFW) StartWrite(id uint64, cmd qrpc.Cmd, flags qrpc.FrameFlag) {
	f.cur = nil
	time.Sleep(20 * time.Millisecond)
}
func (f *fakeFW) WriteBytes(v []byte)                         { f.cur = append(f.cur, v...) }
func (f *fakeFW) EndWrite() error                             { f.frames = append(f.frames, string(f.cur)); return nil }
func (f *fakeFW) EndWriteCompressed() error                   { return nil }
func (f *fakeFW) ResetFrame(id uint64, reason qrpc.Cmd) error { f.ends++; return nil }

// C28: concurrent senders of a served pipe share the handler's frame writer.
func TestDefectServedConcurrentSend(t *testing.T) {
	f := &fakeFW{}
	s := &serveSender{w: f, frame: &qrpc.RequestFrame{RequestID: 3}}
	var wg sync.WaitGroup
	for _, m := range []string{"a", "b", "c"} {
		m := m
		wg.Add(1)
		go func() { defer wg.Done(); s.Send(context.Background(), 1, m, false) }()
	}
	wg.Wait()
	seen := map[string]bool{}
	for _, x := range f.frames {
		seen[x] = true
	}
	if !seen[`"a"`] || !seen[`"b"`] || !seen[`"c"`] {
		t.Fatal("messages interleaved:", f.frames)
	}
}

// C28: a served pipe accepted messages after its end, which reached nobody.
func TestDefectServedSendAfterEnd(t *testing.T) {
	for _, reset := range []bool{false, true} {
		f := &fakeFW{}
		s := &serveSender{w: f, frame: &qrpc.RequestFrame{RequestID: 3}}
		if reset {
			s.End()
		} else {
			s.Send(context.Background(), 1, "x", true)
		}
		n := len(f.frames)
		if err := s.Send(context.Background(), 1, "y", false); err == nil || len(f.frames) != n {
			t.Fatal("sent after the end:", err)
		}
	}
}
