package svc

import (
	"fmt"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/gorilla/websocket"
	"github.com/vulpemventures/neutrino-elements/internal/core/application"
	"github.com/vulpemventures/neutrino-elements/internal/interface/web-socket/handler"
	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
	"github.com/vulpemventures/neutrino-elements/verifharness/kit"
	"pgregory.net/rapid"
)

// pipeListener accepts connections that exist in memory only.
type pipeListener struct {
	conns chan net.Conn
	done  chan struct{}
	once  sync.Once
}

func newPipeListener() *pipeListener {
	return &pipeListener{conns: make(chan net.Conn), done: make(chan struct{})}
}

func (l *pipeListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.conns:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}

func (l *pipeListener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *pipeListener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 8000} }

type idleOp struct {
	Kind  string
	Sock  int
	Msg   wsMsg
	Ev    int
	Sleep time.Duration
}

// TestC52Idle has sockets that live for days, on a virtual clock.
func TestC52Idle(t *testing.T) {
	kit.Rule("C52Idle", "1-4 sockets on in-memory connections and a virtual clock, some sending their messages in fragments and pings in between; histories of valid, rejected and malformed messages, events, error reports, closed and new sockets with pauses of up to days; after each step every answer and event must have arrived; non-trivial when something was sent or found after a pause of more than a minute")
	kit.Checks(t, 900, 20000, func(rt *rapid.T) {
		n := rapid.IntRange(1, 4).Draw(rt, "sockets")
		ops := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) idleOp {
			op := idleOp{
				Kind: rapid.SampledFrom([]string{"send", "send", "send", "event", "event", "event", "error", "sleep", "sleep", "sleep", "ping", "close", "reopen", "drop"}).Draw(t, "op"),
				Sock: rapid.IntRange(0, n-1).Draw(t, "sock"),
			}
			switch op.Kind {
			case "send":
				op.Msg = drawWsMsg(t)
			case "sleep":
				op.Sleep = rapid.SampledFrom([]time.Duration{time.Second, 4900 * time.Millisecond, 5 * time.Second, 5100 * time.Millisecond, 11 * time.Second, 31 * time.Second, 61 * time.Second, 5 * time.Minute, time.Hour, 60 * time.Hour}).Draw(t, "sleep")
			default:
				op.Ev = rapid.IntRange(0, 1).Draw(t, "ev")
			}
			return op
		}), 1, 25).Draw(rt, "ops")
		kit.Journal(map[string]any{"sockets": n, "ops": ops})
		var problem string
		var interesting bool
		_, stuck := kit.Bubble(t, func() { problem, interesting = idleCase(n, ops) })
		kit.Case("C52Idle", interesting, kit.Key(n, fmt.Sprint(ops)), func() any { return map[string]any{"sockets": n, "ops": ops} })
		if problem != "" {
			rt.Fatalf("%s", problem)
		}
		if stuck != "" {
			if text, dead := kit.Deadlocked(stuck); dead {
				rt.Fatalf("deadlock: %s", text)
			}
			panic("HARNESS-ERROR the case did not end:\n" + stuck)
		}
	})
}

type idleSock struct {
	c     *client
	id    application.SubscriberID
	known bool
	open  bool
	want  []string // every frame that is due
}

func idleCase(n int, ops []idleOp) (problem string, interesting bool) {
	fail := func(f string, a ...any) {
		if problem == "" {
			problem = fmt.Sprintf(f, a...)
		}
	}
	fn := newFakeNotify()
	h := handler.NewDescriptorWalletNotifierHandler(fn)
	h.Start()
	l := newPipeListener()
	srv := &http.Server{Handler: http.HandlerFunc(h.HandleSubscriptionRequestWs)}
	go srv.Serve(l)
	socks := make([]*idleSock, n)
	var all []*idleSock
	defer func() {
		for _, s := range all {
			s.c.conn.Close()
		}
		synctest.Wait()
		h.Stop()
		srv.Close()
		time.Sleep(time.Minute)
		synctest.Wait()
	}()
	open := func(i int) bool {
		near, far := net.Pipe()
		select {
		case l.conns <- far:
		case <-time.After(time.Minute):
			fail("a connection was not accepted")
			return false
		}
		u, _ := url.Parse("ws://127.0.0.1:8000/neutrino/subscribe/ws")
		near.SetDeadline(time.Now().Add(time.Minute))
		conn, _, err := websocket.NewClient(near, u, nil, 0, []int{0, 16, 100, 40}[(i+len(ops))%4])
		near.SetDeadline(time.Time{})
		if err != nil {
			fail("a socket could not be opened: %v", err)
			near.Close()
			return false
		}
		c := &client{conn: conn}
		c.cond = sync.NewCond(&c.mu)
		socks[i] = &idleSock{c: c, open: true}
		all = append(all, socks[i])
		go c.read()
		return true
	}
	for i := range socks {
		if !open(i) {
			return
		}
	}
	fn.eager = func(s application.Subscriber) {}
	// check compares what every socket got with what it should have
	check := func(after string) {
		synctest.Wait()
		for i, s := range all {
			s.c.mu.Lock()
			got, over := append([]string{}, s.c.got...), s.c.over
			s.c.mu.Unlock()
			if s.open && over {
				fail("after %s: a socket was closed by the service", after)
				return
			}
			left := append([]string{}, s.want...)
			for _, g := range got {
				found := false
				for j, w := range left {
					if strings.HasPrefix(g, w) {
						left = append(left[:j], left[j+1:]...)
						found = true
						break
					}
				}
				if !found {
					fail("after %s: socket %d got %q, expected were %q", after, i, g, s.want)
					return
				}
			}
			if s.open && len(left) > 0 {
				fail("after %s: socket %d did not get %q", after, i, left)
				return
			}
		}
	}
	idle := time.Duration(0)
	serial := 0
	for k, op := range ops {
		if problem != "" {
			return
		}
		s := socks[op.Sock]
		what := fmt.Sprintf("operation %d (%s)", k, op.Kind)
		switch op.Kind {
		case "sleep":
			time.Sleep(op.Sleep)
			idle = max(idle, op.Sleep)
		case "ping":
			if s.open {
				if err := s.c.conn.WriteControl(websocket.PingMessage, []byte("?"), time.Now().Add(time.Minute)); err != nil {
					fail("%s: %v", what, err)
				}
			}
		case "close", "drop":
			if s.open {
				s.open = false
				s.known = false
				if op.Kind == "close" {
					_ = s.c.conn.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""))
					synctest.Wait()
				}
				s.c.conn.Close()
				synctest.Wait()
				if s.id != (application.SubscriberID{}) {
					fn.mu.Lock()
					left := fn.known[s.id]
					fn.mu.Unlock()
					if left {
						fail("%s: the subscription of a closed socket was not removed", what)
					}
				}
			}
		case "reopen":
			if !s.open && !open(op.Sock) {
				return
			}
		case "send":
			if !s.open {
				continue
			}
			serial++
			m := op.Msg
			desc := fmt.Sprintf("%s socket %d message %d", m.Kind, op.Sock, serial)
			want := "error "
			switch {
			case m.registers():
				want = "ok "
				s.known = true
			case m.Kind == "refuse":
				want = "error refused: " + desc
			case m.Kind == "unregister" && s.known:
				want = "ok "
				s.known = false
			case m.Kind == "unregister":
				want = "error refused: subscriber not found"
			}
			s.want = append(s.want, want)
			s.c.conn.SetWriteDeadline(time.Now().Add(time.Minute))
			if err := s.c.conn.WriteMessage(websocket.TextMessage, m.body(desc)); err != nil {
				fail("%s: the service closed a socket or does not read: %v", what, err)
				return
			}
			synctest.Wait()
			if m.registers() {
				subs := fn.subOf(desc)
				if len(subs) != 1 {
					fail("%s: %d registrations were made for the message %s", what, len(subs), m.body(desc))
					return
				}
				var names []string
				for _, e := range subs[0].Events {
					names = append(names, []string{`"unspentUtxo"`, `"spentUtxo"`}[e])
				}
				if subs[0].BlockHeight != m.Height || fmt.Sprint(names) != fmt.Sprint(m.Events) {
					fail("%s: a registration for %v from height %d was made for %v from %d", what, m.Events, m.Height, names, subs[0].BlockHeight)
				}
				if s.id != (application.SubscriberID{}) && s.id != subs[0].ID {
					fail("%s: the identity of a socket changed", what)
				}
				s.id = subs[0].ID
			}
			interesting = interesting || idle > time.Minute
		case "event":
			if s.id == (application.SubscriberID{}) || s.open && !s.known {
				continue
			}
			ev := scanner.EventType(op.Ev)
			txid, ok := fn.event(s.id, ev)
			if !ok {
				fail("%s: the reports are not taken any more", what)
				return
			}
			if s.open {
				s.want = append(s.want, []string{"unspentUtxo ", "spentUtxo "}[ev]+txid)
			}
			interesting = interesting || idle > time.Minute
		case "error":
			if s.id == (application.SubscriberID{}) || s.open && !s.known {
				continue
			}
			name := fmt.Sprintf("error report %d", k)
			if !fn.fail(s.id, strings.TrimPrefix(name, "error ")) {
				fail("%s: the reports are not taken any more", what)
				return
			}
			if s.open {
				s.want = append(s.want, name)
			}
		}
		check(what)
	}
	return
}
