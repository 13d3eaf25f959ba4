package server

import (
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/gorilla/websocket"
)

func TestDefectWriteContract(t *testing.T) {
	ch := make(chan *websocket.Conn, 1)
	hs := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		c, _ := upgrader.Upgrade(w, r, nil)
		ch <- c
	}))
	defer hs.Close()
	if _, _, err := websocket.DefaultDialer.Dial("ws"+strings.TrimPrefix(hs.URL, "http"), nil); err != nil {
		t.Fatal(err)
	}
	c := NewConn(<-ch)
	c.Close()
	if n, err := c.Write([]byte("hello")); err == nil || n != 0 {
		t.Fatal(n, err)
	}
}

// lateUpgrades opens n connections and upgrades them after the listener was closed, or before without accepting them
func lateUpgrades(t *testing.T, n int, late bool) {
	ln, _ := net.Listen("tcp", "127.0.0.1:0")
	o := newOverlay(ln, nil)
	req := "GET /qrpc HTTP/1.1\r\nHost: x\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: AAAAAAAAAAAAAAAAAAAAAA==\r\n\r\n"
	var cs []net.Conn
	for i := 0; i < n; i++ {
		c, err := net.Dial("tcp", ln.Addr().String())
		if err != nil {
			t.Fatal(err)
		}
		defer c.Close()
		cs = append(cs, c)
		if late {
			c.Write([]byte(req[:20]))
		} else {
			c.Write([]byte(req))
		}
	}
	time.Sleep(100 * time.Millisecond)
	o.Close()
	for _, c := range cs {
		if late {
			c.Write([]byte(req[20:]))
		}
		c.SetReadDeadline(time.Now().Add(2 * time.Second))
		for b := make([]byte, 1000); ; {
			_, err := c.Read(b)
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				t.Fatal("a connection that is never accepted was not closed")
			}
			if err != nil {
				break
			}
		}
	}
}

func TestDefectLateUpgrade(t *testing.T)   { lateUpgrades(t, 20, true) }
func TestDefectQueuedUpgrade(t *testing.T) { lateUpgrades(t, 5, false) }
