package svc

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/vulpemventures/neutrino-elements/internal/core/application"
	"github.com/vulpemventures/neutrino-elements/internal/interface/web-socket/handler"
	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
	"github.com/vulpemventures/neutrino-elements/verifharness/kit"
	"pgregory.net/rapid"
)

// client is a WebSocket client that writes down every frame it gets.
type client struct {
	conn *websocket.Conn
	mu   sync.Mutex
	cond *sync.Cond
	got  []string // what each frame says
	over bool
}

func dial(url string, rcvbuf, wbuf int) (*client, error) {
	d := websocket.Dialer{HandshakeTimeout: patience, WriteBufferSize: wbuf} // a small buffer cuts messages into fragments
	if rcvbuf > 0 {
		d.NetDial = (&net.Dialer{Control: func(_, _ string, c syscall.RawConn) error {
			return c.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, rcvbuf) })
		}}).Dial
	}
	conn, _, err := d.Dial("ws"+strings.TrimPrefix(url, "http"), nil)
	if err != nil {
		return nil, err
	}
	c := &client{conn: conn}
	c.cond = sync.NewCond(&c.mu)
	return c, nil
}

func (c *client) read() {
	for {
		typ, b, err := c.conn.ReadMessage()
		c.mu.Lock()
		if err != nil {
			c.over = true
			c.cond.Broadcast()
			c.mu.Unlock()
			return
		}
		c.got = append(c.got, decodeFrame(typ, b))
		c.cond.Broadcast()
		c.mu.Unlock()
	}
}

// decodeFrame names what a frame says.
func decodeFrame(typ int, b []byte) string {
	if typ != websocket.TextMessage {
		return fmt.Sprintf("strange frame of type %d: %q", typ, b)
	}
	d := json.NewDecoder(bytes.NewReader(b))
	var m map[string]string
	if err := d.Decode(&m); err != nil {
		return fmt.Sprintf("strange frame %q", b)
	}
	if _, err := d.Token(); err != io.EOF {
		return fmt.Sprintf("strange frame, several messages %q", b)
	}
	if text, ok := m["message"]; ok && len(m) == 1 && text != "" {
		return "ok " + text
	}
	return nameMessage(m, b)
}

// frames are the answers, in order, and the counts of everything else.
func (c *client) frames() (answers []string, rest map[string]int, over bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	rest = map[string]int{}
	for _, g := range c.got {
		if strings.HasPrefix(g, "ok ") || (strings.HasPrefix(g, "error ") && !strings.HasPrefix(g, "error report ")) {
			answers = append(answers, g)
		} else {
			rest[g]++
		}
	}
	return answers, rest, c.over
}

// until waits for a condition on the frames.
func (c *client) until(cond func(answers []string, rest map[string]int, over bool) bool) bool {
	timer := time.AfterFunc(patience, func() { c.mu.Lock(); c.cond.Broadcast(); c.mu.Unlock() })
	defer timer.Stop()
	deadline := time.Now().Add(patience)
	for {
		c.mu.Lock()
		n := len(c.got)
		wasOver := c.over
		c.mu.Unlock()
		a, r, o := c.frames()
		if cond(a, r, o) {
			return true
		}
		if time.Now().After(deadline) {
			return false
		}
		c.mu.Lock()
		for len(c.got) == n && c.over == wasOver && time.Now().Before(deadline) {
			c.cond.Wait()
		}
		c.mu.Unlock()
	}
}

type wsMsg struct {
	Kind   string
	Height int
	Events []string
	Cut    int
	Pad    int
}

var goodWsEvents = [][]string{{`"unspentUtxo"`}, {`"unspentUtxo"`}, {`"spentUtxo"`}, {`"unspentUtxo"`, `"spentUtxo"`}}
var badWsEvents = [][]string{{`"x"`}, {`""`}, {`"unspentUtxo"`, `"SpentUtxo"`}, {"0"}, {"{}"}, {}}

func drawWsMsg(t *rapid.T) wsMsg {
	m := wsMsg{
		Kind:   rapid.SampledFrom([]string{"good", "good", "good", "eager", "refuse", "unregister", "unregister", "badevents", "action", "negheight", "nodesc", "cut", "junk", "types", "full"}).Draw(t, "kind"),
		Height: rapid.OneOf(rapid.IntRange(0, 20), rapid.SampledFrom([]int{math.MaxInt32, 1 << 24})).Draw(t, "height"),
		Events: rapid.SampledFrom(goodWsEvents).Draw(t, "events"),
		Cut:    rapid.IntRange(0, 1000).Draw(t, "cut"),
	}
	switch m.Kind {
	case "badevents":
		m.Events = rapid.SampledFrom(badWsEvents).Draw(t, "badevents")
	case "negheight":
		m.Height = -1 - m.Height
	}
	return m
}

func (m wsMsg) body(desc string) []byte {
	action := `"register"`
	switch m.Kind {
	case "action":
		action = []string{`"Register"`, `""`, `"registr"`, `null`}[m.Cut%4]
	case "unregister":
		action = `"unregister"`
	case "nodesc":
		desc = ""
	}
	fields := []string{
		`"actionType":` + action,
		`"eventTypes":[` + strings.Join(m.Events, ",") + "]",
		`"descriptorWallet": ` + quote(desc),
		fmt.Sprintf(`"startBlockHeight" :%d`, m.Height),
	}
	if m.Kind == "types" {
		i := m.Cut % 4
		bad := [][]string{{"7", "{}"}, {`"unspentUtxo"`, "0"}, {"12", "[]"}, {`"0"`, "1.5"}}[i]
		k, _, _ := strings.Cut(fields[i], ":")
		fields[i] = k + ":" + bad[m.Cut/4%2]
	}
	b := []byte("{" + strings.Join(fields, ",") + "}")
	switch m.Kind {
	case "cut":
		return b[:m.Cut%len(b)]
	case "junk":
		return [][]byte{{}, []byte("register"), []byte("[]"), []byte("null"), []byte("{}"), []byte(`"register"`), append(append([]byte{}, b...), b...), append([]byte("x"), b...)}[m.Cut%8]
	case "full": // as long as a message may be
		for len(b) < 512 {
			b = append(b[:1], append([]byte{' '}, b[1:]...)...)
		}
	}
	return b
}

func (m wsMsg) registers() bool { return m.Kind == "good" || m.Kind == "eager" || m.Kind == "full" }

type wsOp struct {
	Kind  string
	Sock  int
	Msgs  []wsMsg
	Ev    int
	Count int
	How   string
}

// TestC52 drives many sockets with all kinds of messages while events, error reports and disconnections go on.
func TestC52(t *testing.T) {
	kit.Rule("C52", "histories on 1-5 sockets of valid, rejected and malformed messages (one by one or in bursts), events and error reports sent at the same time, and disconnections of all kinds, under the race detector; non-trivial when an event reached a socket after another one was closed or had sent something malformed")
	kit.Checks(t, 400, 8000, func(rt *rapid.T) {
		n := rapid.IntRange(1, 5).Draw(rt, "sockets")
		ops := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) wsOp {
			op := wsOp{
				Kind: rapid.SampledFrom([]string{"send", "send", "send", "send", "event", "event", "event", "event", "error", "close", "unknown", "plain", "wait"}).Draw(t, "op"),
				Sock: rapid.IntRange(0, n-1).Draw(t, "sock"),
			}
			switch op.Kind {
			case "send":
				op.Msgs = rapid.SliceOfN(rapid.Custom(drawWsMsg), 1, 4).Draw(t, "msgs")
			case "close":
				op.How = rapid.SampledFrom([]string{"close", "drop", "long", "half", "reset"}).Draw(t, "how")
			default:
				op.Ev = rapid.IntRange(0, 1).Draw(t, "ev")
				op.Count = rapid.IntRange(1, 4).Draw(t, "count")
			}
			return op
		}), 1, 20).Draw(rt, "ops")
		kit.Journal(map[string]any{"sockets": n, "ops": ops})
		problem, interesting := wsCase(n, ops)
		kit.Case("C52", interesting, kit.Key(n, fmt.Sprint(ops)), func() any { return map[string]any{"sockets": n, "ops": ops} })
		if problem != "" {
			rt.Fatalf("%s", problem)
		}
	})
}

type wsSock struct {
	c       *client
	answers []string // what each answer should start with, and contain
	id      application.SubscriberID
	known   bool // as registered
	closed  bool
	events  map[string]int
}

func wsCase(n int, ops []wsOp) (problem string, interesting bool) {
	fn := newFakeNotify()
	h := handler.NewDescriptorWalletNotifierHandler(fn)
	h.Start()
	srv := httptest.NewServer(http.HandlerFunc(h.HandleSubscriptionRequestWs))
	defer srv.Close()
	var mu sync.Mutex
	fail := func(f string, a ...any) {
		mu.Lock()
		defer mu.Unlock()
		if problem == "" {
			problem = fmt.Sprintf(f, a...)
		}
	}
	failed := func() bool { mu.Lock(); defer mu.Unlock(); return problem != "" }
	socks := make([]*wsSock, n)
	owner := map[string]*wsSock{} // by descriptor
	asked := map[string]wsMsg{}
	defer func() {
		for _, s := range socks {
			if s != nil {
				s.c.conn.Close()
			}
		}
		if stuck := kit.Guarded(patience, h.Stop); stuck != "" && problem == "" {
			problem = "Stop did not return:\n" + repoOf(stuck)
		}
	}()
	for i := range socks {
		c, err := dial(srv.URL, 0, []int{0, 20, 0, 60, 150}[i%5])
		if err != nil {
			fail("a socket could not be opened: %v", err)
			return
		}
		socks[i] = &wsSock{c: c, events: map[string]int{}}
		go c.read()
	}
	fn.eager = func(s application.Subscriber) {
		mu.Lock()
		o := owner[s.WalletDescriptor]
		mu.Unlock()
		txid, ok := fn.event(s.ID, s.Events[0])
		if !ok {
			fail("the reports are not taken any more (an event found while registering)")
			return
		}
		mu.Lock()
		o.events[[]string{"unspentUtxo", "spentUtxo"}[s.Events[0]]+" "+txid]++
		mu.Unlock()
	}
	// one emitter keeps the order of the reports
	var emitting sync.WaitGroup
	todo := make(chan func(), 1000)
	emitterDone := make(chan struct{})
	go func() {
		defer close(emitterDone)
		for f := range todo {
			f()
			emitting.Done()
		}
	}()
	defer func() { close(todo); <-emitterDone }()
	emit := func(f func()) { emitting.Add(1); todo <- f }

	hurt := false
	// settle waits for the answers of a socket and learns its identity
	settle := func(s *wsSock) {
		if s.closed || failed() {
			return
		}
		if !s.c.until(func(a []string, _ map[string]int, over bool) bool { return len(a) >= len(s.answers) || over }) {
			a, _, _ := s.c.frames()
			fail("%d messages got %d answers: %q", len(s.answers), len(a), a)
			return
		}
		a, _, over := s.c.frames()
		if over {
			fail("the service closed a socket after %d answers to %d messages", len(a), len(s.answers))
			return
		}
	}
	for _, op := range ops {
		if failed() {
			break
		}
		s := socks[op.Sock]
		switch op.Kind {
		case "plain":
			resp, err := http.Get(srv.URL)
			if err != nil {
				fail("a plain request broke the server: %v", err)
				break
			}
			resp.Body.Close()
			if resp.StatusCode < 400 {
				fail("a plain request was answered with %d", resp.StatusCode)
			}
		case "send":
			if s.closed {
				continue
			}
			for _, m := range op.Msgs {
				desc := fmt.Sprintf("%s socket %d message %d", m.Kind, op.Sock, len(s.answers))
				mu.Lock()
				owner[desc] = s
				asked[desc] = m
				mu.Unlock()
				want := "error "
				switch {
				case m.registers():
					want = "ok "
					s.known = true
				case m.Kind == "refuse":
					want = "error refused: " + desc
				case m.Kind == "unregister" && s.known:
					want = "ok "
					s.known = false
				case m.Kind == "unregister":
					want = "error refused: subscriber not found"
				default:
					hurt = true
				}
				if m.Kind == "unregister" { // events on their way may be dropped from here on
					emitting.Wait()
					if !fn.fail(subID(100), "fence") || !fn.fail(subID(100), "fence") {
						fail("the reports are not taken any more:\n%s", repoOf(allStacks()))
					}
					settle(s)
				}
				s.answers = append(s.answers, want)
				if err := s.c.conn.WriteMessage(websocket.TextMessage, m.body(desc)); err != nil {
					fail("the service closed a socket: %v", err)
				}
			}
		case "wait":
			settle(s)
		case "event", "error":
			settle(s)
			if failed() {
				break
			}
			if s.id == (application.SubscriberID{}) {
				fn.mu.Lock()
				for _, x := range fn.subs {
					mu.Lock()
					if owner[x.WalletDescriptor] == s {
						s.id = x.ID
					}
					mu.Unlock()
				}
				fn.mu.Unlock()
			}
			if s.id == (application.SubscriberID{}) || (!s.closed && !s.known) {
				continue
			}
			if s.closed {
				hurt = true
			}
			id, closed, count, ev, kind := s.id, s.closed, op.Count, op.Ev, op.Kind
			wasHurt := hurt
			emit(func() {
				for i := 0; i < count && !failed(); i++ {
					var name string
					var ok bool
					if kind == "error" {
						fn.mu.Lock()
						fn.serial++
						name = fmt.Sprintf("error report %d", fn.serial)
						fn.mu.Unlock()
						ok = fn.fail(id, strings.TrimPrefix(name, "error "))
					} else {
						e := scanner.EventType((ev + i) % 2)
						var txid string
						txid, ok = fn.event(id, e)
						name = []string{"unspentUtxo ", "spentUtxo "}[e] + txid
					}
					if !ok {
						fail("the reports are not taken any more:\n%s", repoOf(allStacks()))
						return
					}
					mu.Lock()
					if !closed {
						s.events[name]++
						interesting = interesting || wasHurt
					}
					mu.Unlock()
				}
			})
		case "unknown":
			hurt = true
			k, ev := op.Count, op.Ev
			emit(func() {
				ok := true
				if ev == 0 {
					_, ok = fn.event(subID(k), scanner.UnspentUtxo)
				} else {
					ok = fn.fail(subID(k), "report for nobody")
				}
				if !ok {
					fail("the reports are not taken any more:\n%s", repoOf(allStacks()))
				}
			})
		case "close":
			if s.closed {
				continue
			}
			hurt = true
			if op.How != "drop" && op.How != "reset" {
				settle(s)
			}
			s.closed = true
			raw := s.c.conn.UnderlyingConn()
			switch op.How {
			case "close":
				_ = s.c.conn.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""))
				time.Sleep(time.Millisecond)
			case "long":
				// longer than a message may be: it is answered, or the socket ends
				_ = s.c.conn.WriteMessage(websocket.TextMessage, bytes.Repeat([]byte{' '}, 513+op.Sock*1000))
				s.c.until(func(a []string, _ map[string]int, over bool) bool { return over || len(a) > len(s.answers) })
			case "half":
				_, _ = raw.Write([]byte{0x81, 0x80 | 100, 1, 2, 3, 4, 5, 6})
			case "reset":
				if tc, ok := raw.(*net.TCPConn); ok {
					_ = tc.SetLinger(0)
				}
			}
			raw.Close()
		}
	}
	if failed() {
		return
	}
	if stuck := kit.Guarded(patience*2, emitting.Wait); stuck != "" {
		fail("the reports are not taken any more:\n%s", repoOf(stuck))
		return
	}
	// the sockets that are left still work, and got everything
	for i, s := range socks {
		if s.closed || failed() {
			continue
		}
		s.answers = append(s.answers, "error ")
		if err := s.c.conn.WriteMessage(websocket.TextMessage, []byte(`{"actionType":"last"}`)); err != nil {
			fail("the service closed a socket: %v", err)
			return
		}
		settle(s)
		if failed() {
			return
		}
		mu.Lock()
		want := map[string]int{}
		for k, v := range s.events {
			want[k] = v
		}
		mu.Unlock()
		missing := ""
		s.c.until(func(_ []string, rest map[string]int, over bool) bool {
			missing = ""
			for k := range want {
				if rest[k] == 0 {
					missing = k
				}
			}
			return missing == "" || over
		})
		if missing != "" {
			fail("socket %d was not sent %q", i, missing)
			return
		}
	}
	if len(ops) > 10 {
		time.Sleep(2 * time.Millisecond)
	}
	for i, s := range socks {
		answers, rest, _ := s.c.frames()
		if !s.closed && len(answers) != len(s.answers) {
			fail("%d messages got %d answers: %q", len(s.answers), len(answers), answers)
			return
		}
		for j, a := range answers {
			if j >= len(s.answers) {
				break // after a long message
			}
			if !strings.HasPrefix(a, s.answers[j]) {
				fail("message %d of socket %d was answered with %q instead of %q", j, i, a, s.answers[j])
				return
			}
		}
		mu.Lock()
		for k, c := range rest {
			if s.events[k] == 0 && problem == "" {
				problem = fmt.Sprintf("socket %d got %q, which is not for it", i, k)
			}
			if c > 1 && problem == "" {
				problem = fmt.Sprintf("socket %d got %q %d times", i, k, c)
			}
		}
		mu.Unlock()
	}
	if failed() {
		return
	}
	// a closed socket's subscription is removed
	deadline := time.Now().Add(patience)
	for _, s := range socks {
		s.c.conn.Close()
	}
	for !failed() {
		fn.mu.Lock()
		left := len(fn.known)
		fn.mu.Unlock()
		if left == 0 {
			break
		}
		if time.Now().After(deadline) {
			fail("%d subscriptions of closed sockets were not removed", left)
		}
		time.Sleep(time.Millisecond)
	}
	fn.mu.Lock()
	ids := map[application.SubscriberID]*wsSock{}
	for _, x := range fn.subs {
		m, o := asked[x.WalletDescriptor], owner[x.WalletDescriptor]
		var names []string
		for _, e := range x.Events {
			names = append(names, []string{`"unspentUtxo"`, `"spentUtxo"`}[e])
		}
		if x.BlockHeight != m.Height || fmt.Sprint(names) != fmt.Sprint(m.Events) {
			fail("a registration for %v from height %d was made for %v from %d", m.Events, m.Height, names, x.BlockHeight)
		}
		if other := ids[x.ID]; other != nil && other != o {
			fail("two sockets share an identity")
		}
		ids[x.ID] = o
	}
	fn.mu.Unlock()
	// and what is found for them harms nobody
	for _, s := range socks {
		if s.id != (application.SubscriberID{}) && !failed() {
			if _, ok := fn.event(s.id, scanner.UnspentUtxo); !ok {
				fail("the reports are not taken any more")
			}
		}
	}
	return
}

// TestC52Stalled has a client that does not read while events for it and for others are found.
func TestC52Stalled(t *testing.T) {
	kit.Rule("C52Stalled", "a subscribed client stops reading while events for it come until they stop being taken, others go on; every case is non-trivial")
	kit.Checks(t, 1, 6, func(rt *rapid.T) {
		others := rapid.IntRange(1, 3).Draw(rt, "others")
		fn := newFakeNotify()
		h := handler.NewDescriptorWalletNotifierHandler(fn)
		h.Start()
		srv := httptest.NewServer(http.HandlerFunc(h.HandleSubscriptionRequestWs))
		defer srv.Close()
		defer srv.CloseClientConnections()
		var cs []*client
		for i := 0; i <= others; i++ {
			size := 0
			if i == 0 {
				size = 4096
			}
			c, err := dial(srv.URL, size, 0)
			if err != nil {
				rt.Fatalf("a socket could not be opened: %v", err)
			}
			defer c.conn.Close()
			if err := c.conn.WriteMessage(websocket.TextMessage, wsMsg{Kind: "good", Events: goodWsEvents[0]}.body(fmt.Sprint("wallet ", i))); err != nil {
				rt.Fatalf("%v", err)
			}
			if i > 0 {
				go c.read()
			}
			cs = append(cs, c)
			for k := 0; len(fn.subOf(fmt.Sprint("wallet ", i))) == 0; k++ {
				if k > 40000 {
					rt.Fatalf("not registered")
				}
				time.Sleep(time.Millisecond)
			}
		}
		stalled := fn.subOf("wallet 0")[0].ID
		slow := time.Duration(0)
		sent := 0
		for ; sent < 200000 && slow < time.Second; sent++ {
			begin := time.Now()
			if _, ok := fn.event(stalled, scanner.UnspentUtxo); !ok {
				rt.Fatalf("a client that does not read keeps the reports from being taken\n%s", repoOf(allStacks()))
			}
			slow = time.Since(begin)
		}
		kit.Class(fmt.Sprintf("C52Stalled/slowed-after-%dk-events:%v", sent/10000*10, slow >= time.Second))
		for i := 1; i <= others; i++ {
			txid, ok := fn.event(fn.subOf(fmt.Sprint("wallet ", i))[0].ID, scanner.SpentUtxo)
			if !ok {
				rt.Fatalf("a client that does not read keeps the reports from being taken\n%s", repoOf(allStacks()))
			}
			if !cs[i].until(func(_ []string, rest map[string]int, _ bool) bool { return rest["spentUtxo "+txid] == 1 }) {
				rt.Fatalf("a client that does not read keeps another one from its event")
			}
		}
		kit.Case("C52Stalled", true, kit.Key(others, sent), func() any { return map[string]any{"others": others, "events before it slowed down": sent} })
		if stuck := kit.Guarded(patience, h.Stop); stuck != "" {
			rt.Fatalf("Stop did not return:\n%s", repoOf(stuck))
		}
	})
}
