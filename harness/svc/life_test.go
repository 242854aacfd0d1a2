package svc

import (
	"bytes"
	"context"
	"fmt"
	"net"
	"net/http"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/gorilla/websocket"
	"github.com/vulpemventures/neutrino-elements/pkg/blockservice"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	"github.com/vulpemventures/neutrino-elements/verifharness/kit"
	"pgregory.net/rapid"

	neutrinodws "github.com/vulpemventures/neutrino-elements/internal/interface/web-socket"
)

// life is a daemon that is told to stop at some moment.
type life struct {
	S       scenario
	Peer    string // fine, refuses, silent, hangup, half, slow
	Busy    bool   // the daemon's port is taken
	Ready   bool   // the time to stop is counted from when the daemon is up
	StopMs  int
	Ws      int // clients that subscribed
	Hooks   int
	Idle    int // connections that never ask for anything
	Half    int // requests that were never completed
	Stalled int // clients that subscribed and do not read
	Mine    bool
	AtSync  bool // told to stop StopUs after the daemon found out that it is synced
	StopUs  int
}

// syncWatch tells when the daemon finds out that it is synced.
type syncWatch struct {
	repository.BlockHeaderRepository
	once sync.Once
	f    func()
}

func (s *syncWatch) HasAllAncestors(ctx context.Context, h chainhash.Hash) (bool, error) {
	ok, err := s.BlockHeaderRepository.HasAllAncestors(ctx, h)
	if ok {
		s.once.Do(s.f)
	}
	return ok, err
}

func drawLife(t *rapid.T) life {
	l := life{S: drawScenario(t)}
	l.Peer = rapid.SampledFrom([]string{"fine", "fine", "fine", "fine", "refuses", "silent", "hangup", "half", "slow"}).Draw(t, "peer")
	l.Busy = rapid.IntRange(0, 3).Draw(t, "busy") == 0
	l.Ready = l.Peer == "fine" && !l.Busy && rapid.IntRange(0, 3).Draw(t, "ready") > 0
	if !l.Ready && (l.Peer == "fine" || l.Peer == "slow") && rapid.Bool().Draw(t, "at sync") {
		l.AtSync, l.StopUs = true, rapid.IntRange(0, 1500).Draw(t, "stop after")
	}
	l.StopMs = rapid.OneOf(rapid.IntRange(0, 20), rapid.IntRange(0, 1500)).Draw(t, "stop at")
	if l.Ready {
		n := func(s string, hi int) int { return rapid.IntRange(0, hi).Draw(t, s) }
		l.Ws, l.Hooks, l.Idle, l.Half, l.Stalled, l.Mine = n("ws", 3), n("hooks", 2), n("idle", 2), n("half", 1), n("stalled", 1), n("mine", 1) == 1
	}
	return l
}

// run reports how long stopping took.
func (l life) run(e *e2e) {
	peerAddr := e.ln.Addr().String()
	switch l.Peer {
	case "refuses":
		x, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			e.failf("HARNESS-ERROR %v", err)
			return
		}
		peerAddr = x.Addr().String()
		x.Close()
	case "slow":
		e.s.Quirk.Batch, e.s.Quirk.Delay = 1, 300*time.Millisecond
	case "silent", "hangup", "half":
		x, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			e.failf("HARNESS-ERROR %v", err)
			return
		}
		defer x.Close()
		peerAddr = x.Addr().String()
		go func() {
			for {
				c, err := x.Accept()
				if err != nil {
					return
				}
				switch l.Peer {
				case "hangup":
					c.Close()
				case "half":
					v := kit.VersionFields{Version: 70015, Services: kit.SFNodeCF, Timestamp: 1_600_000_000, UserAgent: "/half/", StartHeight: 100, Relay: true, Nonce: 5}
					c.Write(append(kit.Frame(e.net.Magic, "version", v.Encode()), kit.Frame(e.net.Magic, "verack", nil)...))
					fallthrough
				default:
					go func() {
						buf := make([]byte, 1000)
						for {
							if _, err := c.Read(buf); err != nil {
								c.Close()
								return
							}
						}
					}()
				}
			}
		}()
	}
	go e.accept()
	if l.Busy {
		x, err := net.Listen("tcp", e.address)
		if err != nil {
			e.failf("HARNESS-ERROR %v", err)
			return
		}
		defer x.Close()
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	told := make(chan struct{})
	if l.AtSync {
		e.cfg.BlockHeadersDB = &syncWatch{BlockHeaderRepository: e.cfg.BlockHeadersDB, f: func() {
			go func() {
				for end := time.Now().Add(time.Duration(l.StopUs) * time.Microsecond); time.Now().Before(end); {
					runtime.Gosched()
				}
				cancel()
				close(told)
			}()
		}}
	}
	srv, err := neutrinodws.NewElementsNeutrinoServer(e.cfg, blockservice.NewEsploraBlockService(e.explorer.URL), peerAddr, e.address)
	if err != nil {
		e.failf("NewElementsNeutrinoServer: %v", err)
		return
	}
	var once sync.Once
	stopped := make(chan struct{})
	over := make(chan error, 1) // the first error, or nil when the channel is closed
	started := make(chan struct{})
	go func() {
		errs := srv.Start(ctx, func() { once.Do(func() { close(stopped) }) })
		close(started)
		over <- <-errs
		for range errs {
		}
	}()
	if l.Peer == "refuses" {
		select {
		case err := <-over:
			if err == nil {
				e.failf("the channel was closed without an error although the peer refuses connections")
			}
		case <-time.After(patience):
			e.failf("no error although the peer refuses connections")
		}
		return
	}
	if l.Ready {
		for end := time.Now().Add(patience); ; time.Sleep(5 * time.Millisecond) {
			c, err := net.Dial("tcp", e.address)
			if err == nil {
				c.Close()
				break
			}
			if time.Now().After(end) {
				e.failf("the daemon did not start:\n%s", repoOf(allStacks()))
				return
			}
		}
		l.crowd(e)
	}
	done := make(chan struct{})
	var bg sync.WaitGroup
	if l.Mine {
		bg.Add(1)
		go func() {
			defer bg.Done()
			for range len(e.headers) - e.s.Initial {
				select {
				case <-done:
					return
				case <-time.After(20 * time.Millisecond):
					e.mine(1, "headers")
				}
			}
		}()
	}
	defer bg.Wait()
	defer close(done)
	if l.Busy && l.Peer == "fine" && !l.AtSync {
		// the daemon finds out by itself
		select {
		case err := <-over:
			if err == nil {
				e.failf("the channel was closed without an error although the port is taken")
			}
		case <-time.After(patience):
			e.failf("no error although the port is taken")
			return
		}
		cancel()
		select {
		case <-stopped:
		case <-time.After(patience):
			e.failf("the daemon did not stop:\n%s", repoOf(allStacks()))
		}
		return
	}
	if l.AtSync {
		select {
		case <-told:
		case <-time.After(patience):
			e.failf("the daemon does not sync:\n%s", repoOf(allStacks()))
			return
		}
	} else {
		time.Sleep(time.Duration(l.StopMs) * time.Millisecond)
	}
	cancel()
	end := time.After(patience)
	select {
	case <-started:
	case <-end:
		e.failf("Start did not return although the daemon was told to stop:\n%s", repoOf(allStacks()))
		return
	}
	select {
	case <-stopped:
	case <-end:
		e.failf("the daemon did not stop:\n%s", repoOf(allStacks()))
		return
	}
	select {
	case err := <-over:
		if err != nil && err != context.DeadlineExceeded && !l.Busy {
			e.failf("the daemon was told to stop and reported %v", err)
		}
	case <-end:
		e.failf("the channel of errors was not closed")
		return
	}
	if !l.Busy {
		x, err := net.Listen("tcp", e.address)
		if err != nil {
			e.failf("the port was not released: %v", err)
			return
		}
		x.Close()
	}
	e.mu.Lock()
	conns := append([]*kit.Conn(nil), e.conns...)
	e.mu.Unlock()
	for _, c := range conns {
		for end := time.Now().Add(patience); ; time.Sleep(5 * time.Millisecond) {
			if closed, _ := c.State(); closed {
				break
			}
			if time.Now().After(end) {
				e.failf("the connection to the peer was left open")
				return
			}
		}
	}
}

// crowd gives the daemon its clients.
func (l life) crowd(e *e2e) {
	w := func(i int) string { return quote(e.s.Wallets[i%len(e.s.Wallets)].Desc) }
	for i := 0; i < l.Ws+l.Stalled; i++ {
		buf := 0
		if i >= l.Ws {
			buf = 2048
		}
		c, err := dial("http://"+e.address+"/neutrino/subscribe/ws", buf, 0)
		if err != nil {
			e.failf("a client cannot connect: %v", err)
			return
		}
		if i < l.Ws {
			go c.read()
		}
		e.parties = append(e.parties, &party{ws: c})
		c.conn.WriteMessage(websocket.TextMessage, []byte(fmt.Sprintf(`{"actionType":"register","eventTypes":["unspentUtxo"],"descriptorWallet":%s,"startBlockHeight":0}`, w(i))))
	}
	for i := 0; i < l.Hooks; i++ {
		body := fmt.Sprintf(`{"actionType":"register","eventTypes":["unspentUtxo"],"descriptorWallet":%s,"startBlockHeight":0,"endpointUrl":%s}`, w(i), quote(fmt.Sprintf("%s/e2e/%d/ok", getHooks().srv.URL, e.n)))
		resp, err := (&http.Client{Timeout: patience}).Post("http://"+e.address+"/neutrino/subscribe/http", "application/json", bytes.NewReader([]byte(body)))
		if err != nil {
			e.failf("a webhook cannot register: %v", err)
			return
		}
		resp.Body.Close()
	}
	for i := 0; i < l.Idle+l.Half; i++ {
		c, err := net.Dial("tcp", e.address)
		if err != nil {
			e.failf("a client cannot connect: %v", err)
			return
		}
		e.closers = append(e.closers, func() { c.Close() })
		if i >= l.Idle {
			c.Write([]byte("POST /neutrino/subscribe/http HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\n{\"actionType\""))
		}
	}
}

// left are the goroutines of the code under test.
func left() (out []string) {
	for _, g := range strings.Split(allStacks(), "\n\n") {
		if strings.Contains(g, "/repo/") || strings.Contains(g, "neutrino-elements/pkg/") || strings.Contains(g, "neutrino-elements/internal/") {
			out = append(out, g)
		}
	}
	return
}

// TestC57 stops daemons at any moment.
func TestC57(t *testing.T) {
	kit.Rule("C57", "whole daemons over loopback sockets whose peer is fine, slow, silent, hangs up, stops after the handshake or refuses connections, whose port is free or taken, and whose clients subscribed, do not read, idle or are in the middle of a request while blocks are mined, told to stop at a random moment before, during or after the initial synchronisation. Non-trivial: the daemon was up and had clients, or was not up yet")
	n := 0
	kit.Checks(t, 5, 150, func(rt *rapid.T) {
		ls := rapid.SliceOfN(rapid.Custom(drawLife), 25, 30).Draw(rt, "lives")
		kit.Journal(ls)
		var wg sync.WaitGroup
		es := make([]*e2e, len(ls))
		for i := range ls {
			es[i] = newE2e(ls[i].S)
			wg.Add(1)
			go func() {
				defer wg.Done()
				ls[i].run(es[i])
				es[i].cleanup()
			}()
		}
		wg.Wait()
		for i, e := range es {
			if e.problem != "" {
				rt.Fatalf("daemon %d (%+v): %s", i, ls[i].summary(), e.problem)
			}
		}
		var gs []string
		for end := time.Now().Add(patience); ; time.Sleep(10 * time.Millisecond) {
			if gs = left(); len(gs) == 0 {
				break
			}
			if time.Now().After(end) {
				rt.Fatalf("goroutines are left after every daemon has stopped:\n%s", strings.Join(gs[:min(len(gs), 4)], "\n\n"))
			}
		}
		for _, l := range ls {
			n++
			kit.Class("peer " + l.Peer)
			kit.Case("C57", !l.Ready || l.Ws+l.Hooks+l.Idle+l.Half+l.Stalled > 0, kit.Key(fmt.Sprintf("%+v", l)), func() any { return l.summary() })
		}
	})
}

func (l life) summary() string {
	l.S = scenario{Net: l.S.Net, Postgres: l.S.Postgres, Initial: l.S.Initial}
	return fmt.Sprintf("%+v", l)
}
