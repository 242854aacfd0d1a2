package nodep

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/vulpemventures/neutrino-elements/pkg/peer"
	"github.com/vulpemventures/neutrino-elements/verifharness/kit"
	"pgregory.net/rapid"
)

// manner is how a peer treats the i-th ping.
type manner struct {
	Answer string        // pong, wrong nonce then pong, pong twice, pong then old, none, wrong nonce, hang up, by another peer only, by another and then itself
	Delay  time.Duration // before the answer
}

func TestC17(t *testing.T) {
	kit.Rule("liveness", "1-4 (sometimes up to 18) peers connected at different times over up to 20 minutes (sometimes 10 hours) of fake time; each treats each ping in its own manner (answers within 0-59 s, late, never, with wrong, repeated or old nonces, through another peer, hangs up, fails writes) and sends unsolicited pongs: pings come every two minutes, a peer that answered every ping in time is never dropped, still served and still receives transactions, one that did not is closed one minute after the ping it left open; non-trivial: at least one peer is dropped while another stays, or a delay or odd nonce occurs")
	kit.Checks(t, 2100, 20000, func(rt *rapid.T) {
		n := net3(rt)
		type pr struct {
			Joins   time.Duration
			Manners []manner
			Stray   []int // seconds after joining at which unsolicited pongs are sent
			dropAt  int   // index of the ping it fails, -1
		}
		var ps []*pr
		odd := false
		size := rapid.IntRange(0, 29).Draw(rt, "size")
		most := 4
		if size > 26 {
			most = 18 // a crowd
		}
		for i := rapid.IntRange(1, most).Draw(rt, "peers"); i > 0; i-- {
			p := &pr{Joins: time.Duration(rapid.SampledFrom([]int{0, 0, 7, 119, 120, 180, 200, 400}).Draw(rt, "joins")) * time.Second, dropAt: -1}
			if len(ps) == 0 {
				p.Joins = 0
			}
			for j := 0; j < 10; j++ {
				if size > 26 && j > 2 || size == 0 && j > 0 {
					break // the rest is answered at once
				}
				m := manner{Answer: rapid.SampledFrom([]string{"pong", "pong", "pong", "pong", "pong", "wrong nonce then pong", "pong twice", "pong then old", "none", "wrong nonce", "hang up", "by another", "another, then pong"}).Draw(rt, "answer")}
				m.Delay = time.Duration(rapid.SampledFrom([]int{0, 0, 1, 500, 30000, 59000, 59900}).Draw(rt, "delay")) * time.Millisecond
				if m.Answer == "pong" && rapid.IntRange(0, 19).Draw(rt, "too late") == 0 {
					m.Delay = time.Duration(rapid.IntRange(61, 119).Draw(rt, "late")) * time.Second
				}
				odd = odd || m.Delay > 0 || m.Answer != "pong"
				p.Manners = append(p.Manners, m)
				if m.Delay >= time.Minute || m.Answer == "none" || m.Answer == "wrong nonce" || m.Answer == "by another" || m.Answer == "hang up" {
					p.dropAt = j
					break
				}
			}
			p.Stray = rapid.SliceOfN(rapid.IntRange(0, 1000), 0, 4).Draw(rt, "unsolicited pongs")
			ps = append(ps, p)
		}
		total := time.Duration(rapid.IntRange(2, 20).Draw(rt, "minutes"))*time.Minute + 30*time.Second
		if size == 0 { // a long time
			total += time.Duration(rapid.IntRange(0, 10).Draw(rt, "hours")) * time.Hour
		}
		desc := map[string]any{"test": "C17", "peers": fmt.Sprintf("%+v", deref(ps)), "total": total.String()}
		dropped, kept := 0, 0
		bubble(t, rt, desc, n, kit.NewHeaders(nil), func(e *env) {
			begin := time.Now()
			conns := make([]*kit.Conn, len(ps))
			joined := make([]time.Time, len(ps))
			addrs := make([]string, len(ps))
			for i := range ps {
				conns[i], addrs[i] = e.conn(i, nil)
			}
			for i, p := range ps {
				go func() {
					time.Sleep(p.Joins)
					c := conns[i]
					if i == 0 {
						e.start(addrs[0])
					} else if err := e.add(addrs[i]); err != nil {
						e.failf("AddOutboundPeer: %v", err)
					}
					joined[i] = time.Now()
					c.Send(kit.Frame(n.Magic, "version", version(kit.SFNodeCF|1, 5)))
					for _, s := range p.Stray {
						go func() {
							time.Sleep(time.Duration(s) * time.Second)
							c.Send(kit.Frame(n.Magic, "pong", kit.PingPayload(uint64(s)*77+3)))
						}()
					}
					k := 0
					var last []byte
					for j := 0; ; j++ {
						m, ok := c.Next(j, e.stopping.Load)
						if !ok {
							return
						}
						if m.Cmd != "ping" {
							continue
						}
						mn := manner{Answer: "pong"}
						if k < len(p.Manners) {
							mn = p.Manners[k]
						}
						k++
						old := last
						last = m.Payload
						wrong := append([]byte(nil), m.Payload...)
						wrong[k%8] ^= 0x10
						go func() {
							time.Sleep(mn.Delay)
							pong := func(b []byte) { c.Send(kit.Frame(n.Magic, "pong", b)) }
							switch mn.Answer {
							case "pong":
								pong(m.Payload)
							case "wrong nonce then pong":
								pong(wrong)
								pong(m.Payload)
							case "pong twice":
								pong(m.Payload)
								pong(m.Payload)
							case "pong then old":
								pong(m.Payload)
								if old != nil {
									pong(old)
								}
							case "wrong nonce":
								pong(wrong)
							case "hang up":
								c.Hangup()
							case "by another", "another, then pong": // what another peer says does not count
								if o := conns[(i+1)%len(conns)]; o != c {
									o.Send(kit.Frame(n.Magic, "pong", m.Payload))
								}
								if mn.Answer == "by another" {
									return
								}
								time.Sleep(50 * time.Millisecond)
								pong(m.Payload)
							}
						}()
					}
				}()
			}
			time.Sleep(total)
			synctest.Wait()
			now := time.Now()
			for i, p := range ps {
				if joined[i].IsZero() {
					continue
				}
				c := conns[i]
				pings := only(c.Log(), "ping")
				closed, at := c.State()
				// the ping it fails, if that lies far enough in the past
				wantPings := int(now.Sub(joined[i]) / (2 * time.Minute))
				due := false
				var limit, from time.Time
				if p.dropAt >= 0 {
					failing := joined[i].Add(time.Duration(p.dropAt+1) * 2 * time.Minute)
					from, limit = failing.Add(time.Minute), failing.Add(time.Minute+time.Second)
					if a := p.Manners[p.dropAt].Answer; a == "hang up" || a == "wrong nonce" {
						from = failing
					}
					due = now.After(limit)
					if due && wantPings > p.dropAt+1 {
						wantPings = p.dropAt + 1
					}
					if due {
						dropped++
					}
				}
				if len(pings) != wantPings {
					e.failf("peer %d, connected for %v, is sent %d pings instead of %d (closed: %v)", i, now.Sub(joined[i]), len(pings), wantPings, closed)
				}
				for j, m := range pings {
					if w := joined[i].Add(time.Duration(j+1) * 2 * time.Minute); m.At.Sub(w).Abs() > 2*time.Second {
						e.failf("ping %d of peer %d comes %v after the handshake", j, i, m.At.Sub(joined[i]))
					}
				}
				switch {
				case due && !closed:
					e.failf("peer %d left ping %d open (%s, %v) but is still connected at %v", i, p.dropAt, p.Manners[p.dropAt].Answer, p.Manners[p.dropAt].Delay, now.Sub(begin))
				case due && (at.After(limit) || at.Before(from.Add(-time.Second))):
					e.failf("peer %d left ping %d open (%s) and is dropped %v after that ping", i, p.dropAt, p.Manners[p.dropAt].Answer, at.Sub(from.Add(-time.Minute)))
				case closed && p.dropAt < 0:
					e.failf("peer %d answered every ping in time but was dropped after %v: %+v", i, at.Sub(joined[i]), p.Manners[:min(len(pings), len(p.Manners))])
				case closed && !due && p.Manners[p.dropAt].Answer != "hang up" && at.Before(from.Add(-time.Second)):
					e.failf("peer %d was dropped %v after joining, before it left a ping open", i, at.Sub(joined[i]))
				}
				if !closed {
					kept++
					// it is still served
					c.Send(kit.Frame(n.Magic, "ping", kit.PingPayload(4711)))
				}
			}
			_ = e.svc.SendTransaction(hex.EncodeToString(kit.TxBytes(kit.TxN(9))))
			synctest.Wait()
			for i, c := range conns {
				if closed, _ := c.State(); !closed && !joined[i].IsZero() {
					if len(only(c.Log(), "pong")) != 1 || len(only(c.Log(), "tx")) != 1 {
						e.failf("peer %d is connected but no longer served: its ping got %d answers, a submitted transaction was sent %d times", i, len(only(c.Log(), "pong")), len(only(c.Log(), "tx")))
					}
				}
			}
		})
		kit.Case("liveness", odd || dropped > 0 && kept > 0, kit.Key(fmt.Sprint(desc)), func() any { return desc })
	})
}

func TestC18(t *testing.T) {
	t.Run("submit", func(t *testing.T) {
		kit.Rule("submit", "1-5 (sometimes up to 30) peers (some without compact filters, some whose connection fails writes or was closed) and 1-8 valid transactions submitted one after the other or at once, while peers leave: every working connected peer gets each transaction exactly once, byte for byte, and nobody else gets one; non-trivial: two or more peers, or concurrent submissions")
		kit.Checks(t, 2100, 20000, func(rt *rapid.T) {
			n := net3(rt)
			kinds := rapid.SliceOfN(rapid.SampledFrom([]string{"ok", "ok", "ok", "failing", "hung up", "no filters", "no version"}), 1, rapid.SampledFrom([]int{5, 5, 5, 30}).Draw(rt, "most peers")).Draw(rt, "peers")
			var txs [][]byte
			for i := rapid.IntRange(1, 8).Draw(rt, "transactions"); i > 0; i-- {
				tx := kit.Tx(rt, "tx", 4, 4, 120)
				txs = append(txs, kit.TxBytes(tx))
			}
			parallel := rapid.Bool().Draw(rt, "parallel")
			upper := rapid.Bool().Draw(rt, "upper case")
			desc := map[string]any{"test": "C18", "peers": kinds, "transactions": len(txs), "parallel": parallel}
			bubble(t, rt, desc, n, kit.NewHeaders(nil), func(e *env) {
				var cs []*kit.Conn
				for i, k := range kinds {
					c, a := e.conn(i, nil)
					cs = append(cs, c)
					if i == 0 {
						e.start(a)
					} else if err := e.add(a); err != nil {
						e.failf("AddOutboundPeer: %v", err)
					}
					switch k {
					case "no filters":
						c.Send(kit.Frame(n.Magic, "version", version(1, 0)))
					case "no version":
					default:
						c.Send(kit.Frame(n.Magic, "version", version(kit.SFNodeCF|1, 0)))
					}
				}
				synctest.Wait()
				for i, k := range kinds {
					if k == "failing" {
						cs[i].FailWrites()
					}
					if k == "hung up" {
						cs[i].Hangup()
						synctest.Wait()
					}
				}
				submit := func(tx []byte) {
					s := hex.EncodeToString(tx)
					if upper {
						s = fmt.Sprintf("%X", tx)
					}
					err := e.svc.SendTransaction(s)
					all := true
					for _, k := range kinds {
						all = all && (k == "ok" || k == "no filters" || k == "no version" || k == "hung up")
					}
					if err != nil && all {
						e.failf("SendTransaction of a valid transaction (peers %v): %v", kinds, err)
					}
				}
				var wg sync.WaitGroup
				for _, tx := range txs {
					if parallel {
						wg.Add(1)
						go func() { defer wg.Done(); submit(tx) }()
					} else {
						submit(tx)
					}
				}
				wg.Wait()
				synctest.Wait()
				for i, k := range kinds {
					got := sorted(only(cs[i].Log(), "tx"), func(m kit.Sent) string { return string(m.Payload) })
					var want []string
					if k == "ok" {
						want = sorted(txs, func(b []byte) string { return string(b) })
					}
					if len(got) != len(want) {
						e.failf("peer %d (%s of %v) is sent %d transactions, %d were submitted", i, k, kinds, len(got), len(txs))
						continue
					}
					for j := range got {
						if !bytes.Equal([]byte(got[j]), []byte(want[j])) {
							e.failf("peer %d (%s of %v): a submitted transaction is sent altered: %x instead of %x", i, k, kinds, got[j], want[j])
						}
					}
				}
			})
			kit.Case("submit", len(kinds) > 1 || parallel && len(txs) > 1, kit.Key(fmt.Sprint(desc), txs[0]), func() any { return desc })
		})
	})
	t.Run("invalid", func(t *testing.T) {
		kit.Rule("invalid", "hex that is no valid transaction: cut anywhere, extended, with an odd or foreign digit, empty, or arbitrary bytes: an error, and nothing is sent; non-trivial: derived from a valid transaction")
		kit.Checks(t, 2100, 20000, func(rt *rapid.T) {
			n := net3(rt)
			b := kit.TxBytes(kit.Tx(rt, "tx", 3, 3, 60))
			s := hex.EncodeToString(b)
			kind := rapid.SampledFrom([]string{"cut", "cut digit", "extend", "foreign digit", "empty", "prefix", "space", "zeros"}).Draw(rt, "kind")
			switch kind {
			case "cut":
				s = s[:2*rapid.IntRange(0, len(b)-1).Draw(rt, "bytes")]
			case "cut digit":
				s = s[:len(s)-1]
			case "extend":
				s += hex.EncodeToString(append(kit.Blob(rt, 20, "more"), 0))
			case "foreign digit":
				i := rapid.IntRange(0, len(s)-1).Draw(rt, "at")
				s = s[:i] + rapid.SampledFrom([]string{"g", "x", " ", "-", "\n", "G"}).Draw(rt, "digit") + s[i+1:]
			case "empty":
				s = ""
			case "prefix":
				s = "0x" + s
			case "space":
				s = s + " "
			case "zeros":
				s = hex.EncodeToString(make([]byte, rapid.IntRange(0, 9).Draw(rt, "zeros")))
			}
			desc := map[string]any{"test": "C18 invalid", "kind": kind, "hex": s[:min(len(s), 400)]}
			bubble(t, rt, desc, n, kit.NewHeaders(nil), func(e *env) {
				c, a := e.conn(0, nil)
				e.start(a)
				c.Send(kit.Frame(n.Magic, "version", version(kit.SFNodeCF|1, 0)))
				synctest.Wait()
				before := len(c.Log())
				if err := e.svc.SendTransaction(s); err == nil {
					e.failf("SendTransaction(%s: %q) reports success", kind, s)
				}
				synctest.Wait()
				if l := c.Log(); len(l) != before {
					e.failf("SendTransaction(%s: %q) sends %v", kind, s, cmds(l[before:]))
				}
			})
			kit.Case("invalid", kind != "empty" && kind != "zeros", kit.Key(s), func() any { return desc })
		})
	})
}

func TestC20(t *testing.T) {
	kit.Rule("stop", "a node synchronising a chain of up to 200 headers from 1-3 peers (honest, refused, silent, not yet through the handshake, or hung up), with pings, filters, transactions, failing stores and growth, is stopped at an arbitrary moment between connecting and many minutes later, or within a drawn call of its header store: its connections are closed, Start has returned, no goroutine of it is left, and nothing is written to a store or sent afterwards though the peers go on sending; non-trivial: stopped before synchronisation ended, or with several peers")
	kit.Checks(t, 1500, 15000, func(rt *rapid.T) {
		n := net3(rt)
		length := rapid.IntRange(0, 200).Draw(rt, "length")
		stored := rapid.IntRange(0, length).Draw(rt, "stored")
		quirks, growths := genQuirks(rt, length), genGrowth(rt)
		kinds := rapid.SliceOfN(rapid.SampledFrom([]string{"honest", "honest", "honest", "refused", "silent", "no pong", "hung up"}), 1, 3).Draw(rt, "peers")
		after := rapid.OneOf(rapid.IntRange(0, 20), rapid.IntRange(0, 5000), rapid.IntRange(0, 1_200_000)).Draw(rt, "stopped after ms")
		busy := rapid.Bool().Draw(rt, "busy peers")
		settle := rapid.Bool().Draw(rt, "settle before stopping")
		twice := rapid.Bool().Draw(rt, "stop twice")
		// stopped while the store works on its n-th call
		call := 0
		if rapid.IntRange(0, 2).Draw(rt, "stopped at a store call") == 0 {
			call = rapid.IntRange(1, 60).Draw(rt, "call")
		}
		extra := 0
		for _, g := range growths {
			extra += g.Blocks
		}
		full := kit.Chain(uint64(length)+61, n.Genesis, length+extra)
		hdrs := kit.NewHeaders(full[:stored])
		hdrs.WriteF = &kit.Faults{Plan: rapid.SliceOfN(rapid.Bool(), 0, 6).Draw(rt, "write faults")}
		fdown := rapid.SampledFrom([]string{"no", "no", "some", "always"}).Draw(rt, "filter store fails")
		desc := map[string]any{"test": "C20", "filter store fails": fdown, "length": length, "stored": stored, "quirks": quirks, "growths": growths, "peers": kinds, "after ms": after, "busy": busy, "settle": settle, "store call": call}
		kit.Journal(desc)
		unfinished := false
		var e *env
		leaked, stuck := kit.Bubble(t, func() {
			e = newEnv(n, hdrs)
			e.fils.PutF = &kit.Faults{}
			switch fdown {
			case "some":
				e.fils.PutF.Arm(3)
			case "always":
				e.fils.PutF.Down(true)
			}
			reached := make(chan struct{})
			if call > 0 {
				var calls atomic.Int64
				hdrs.Delay = func() {
					e.hold()
					switch k := int(calls.Add(1)); {
					case k == call:
						close(reached)
					case k < call:
						return
					}
					for i := 0; i < 50; i++ {
						runtime.Gosched()
					}
				}
			}
			var ps []*kit.Honest
			var over atomic.Bool
			for i, k := range kinds {
				c, a := e.conn(i, nil)
				p := kit.NewHonest(c, n, full[:length])
				p.Quirks = quirks
				p.NoPong = k == "no pong"
				for _, h := range full {
					x := kit.HeaderHash(h)
					p.AddFilter(x, filterOf(x, 1))
				}
				if k == "refused" {
					p.Services = 1
				}
				if k != "silent" {
					go p.Run()
				}
				ps = append(ps, p)
				if i == 0 {
					go func() {
						err := e.svc.Start(a)
						e.mu.Lock()
						e.started, e.startErr = true, err
						e.mu.Unlock()
					}()
				} else {
					go func() {
						time.Sleep(time.Duration(i*37) * time.Millisecond)
						if pp, err := peer.NewElementsPeer(a); err == nil {
							if e.svc.AddOutboundPeer(pp) != nil {
								c.Close()
							}
						}
					}()
				}
				if k == "hung up" {
					go func() { time.Sleep(200 * time.Millisecond); c.Hangup() }()
				}
			}
			go func() {
				at := length
				for _, g := range growths {
					if e.stopping.Load() {
						return
					}
					for _, p := range ps[1:] {
						p.Grow(full[at : at+g.Blocks]...)
					}
					grow(ps[0], full[at:at+g.Blocks], g)
					at += g.Blocks
				}
			}()
			chatter := func() {
				for i, p := range ps {
					c := p.C
					for _, f := range [][]byte{
						kit.Frame(n.Magic, "ping", kit.PingPayload(uint64(i))),
						kit.Frame(n.Magic, "pong", kit.PingPayload(uint64(i))),
						kit.Frame(n.Magic, "tx", kit.TxBytes(kit.TxN(uint64(i)))),
						kit.Frame(n.Magic, "inv", kit.EncodeInv([]kit.Inv{{1, [32]byte{1}}})),
						kit.Frame(n.Magic, "cfilter", kit.EncodeCFilter(0, [32]byte{9}, []byte{0})),
						kit.Frame(n.Magic, "headers", kit.EncodeHeaders(full)),
						kit.Frame(n.Magic, "version", p.Version()),
					} {
						c.Send(f)
					}
				}
			}
			if busy {
				go func() {
					for i := 0; i < 40 && !over.Load(); i++ {
						time.Sleep(time.Duration(1+i*i) * time.Millisecond)
						chatter()
					}
				}()
			}
			select {
			case <-time.After(time.Duration(after) * time.Millisecond):
				if settle {
					synctest.Wait()
				}
			case <-reached:
			}
			started, _ := e.isStarted()
			unfinished = !started
			e.stopping.Store(true)
			stopped := make(chan error, 2)
			var atStop atomic.Int64
			go func() {
				err := e.svc.Stop()
				w, _ := hdrs.Counts()
				atStop.Store(int64(w))
				stopped <- err
			}()
			time.Sleep(200 * time.Millisecond)
			synctest.Wait()
			if len(stopped) > 0 {
				before := make([]int, len(e.conns))
				for i, c := range e.conns {
					before[i] = len(c.Log())
				}
				chatter()
				synctest.Wait()
				for i, c := range e.conns {
					if l := c.Log(); len(l) > before[i] {
						e.failf("peer %d is sent %v after Stop returned", i, cmds(l[before[i]:]))
					}
				}
			}
			time.Sleep(1800 * time.Millisecond)
			select {
			case err := <-stopped:
				if err != nil {
					e.failf("Stop: %v", err)
				}
			default:
				e.failf("Stop does not return")
			}
			over.Store(true)
			synctest.Wait()
			// nor does it take up new work
			c, a := e.conn(len(kinds), nil)
			if p, err := peer.NewElementsPeer(a); err == nil {
				if e.svc.AddOutboundPeer(p) != nil {
					c.Close()
				}
			}
			_ = e.svc.SendTransaction(hex.EncodeToString(kit.TxBytes(kit.TxN(9))))
			synctest.Wait()
			if l := c.Log(); len(l) > 0 {
				e.failf("a peer added after Stop is sent %v", cmds(l))
			}
			time.Sleep(time.Second)
			synctest.Wait()
			if started, _ := e.isStarted(); !started {
				e.failf("Start is still waiting after Stop")
			}
			var sent []int
			for i, c := range e.conns {
				if closed, _ := c.State(); !closed && len(c.Log()) > 0 {
					e.failf("the connection to peer %d (%s) is not closed after Stop", i, kinds[i])
				}
				sent = append(sent, len(c.Log()))
			}
			w, _ := hdrs.Counts()
			// a write of each peer's may have been about to begin
			if late := w - int(atStop.Load()); late > len(kinds)+1 {
				e.failf("%d headers are written after Stop returned", late)
			}
			pu, _ := e.fils.Counts()
			chatter()
			for _, p := range ps {
				if len(p.C.Log()) > 0 {
					p.Handle(kit.Msg{Cmd: "getheaders", Payload: kit.EncodeGetHeaders(70015, nil, [32]byte{})})
				}
			}
			time.Sleep(10 * time.Minute)
			synctest.Wait()
			if w2, _ := hdrs.Counts(); w2 != w {
				e.failf("headers are written after Stop")
			}
			if p2, _ := e.fils.Counts(); p2 != pu {
				e.failf("filters are written after Stop")
			}
			for i, c := range e.conns {
				if l := c.Log(); len(l) != sent[i] {
					e.failf("peer %d is sent %v later after Stop", i, cmds(l[sent[i]:]))
				}
			}
			if len(e.errs) == 0 {
				if left := kit.RepoGoroutines(); len(left) > 0 {
					e.failf("%d goroutines of the node are left 10 minutes after Stop, for instance:\n%s", len(left), left[0])
				}
			}
			if twice && len(e.errs) == 0 {
				func() {
					defer func() {
						if r := recover(); r != nil {
							e.failf("a second Stop panics: %v", r)
						}
					}()
					_ = e.svc.Stop()
				}()
			}
			for _, p := range ps {
				p.Stop()
				p.C.Close()
			}
			e.frozen.Store(true)
		})
		if e != nil && len(e.errs) > 0 {
			rt.Fatalf("%s", e.errs[0])
		}
		if leaked != "" {
			rt.Fatalf("goroutines are left after Stop: %s", leaked)
		}
		if stuck != "" {
			stuckCase(rt, stuck)
		}
		kit.Case("stop", unfinished || len(kinds) > 1, kit.Key(fmt.Sprint(desc)), func() any { return desc })
	})
}

// attempt is one call of Start.
type attempt struct {
	Kind string // refused, odd, deaf or good
	Addr string `json:",omitempty"` // of an odd one
}

func TestC20Start(t *testing.T) {
	kit.Rule("start", "1-5 attempts to start a node: with an address that refuses, a malformed one that a dial would accept, a peer that cannot be written to, or a good peer: every connection that a failing Start opened is closed and nothing is left running, a good peer completes Start; then Stop; non-trivial: a failing attempt before a good one")
	kit.Checks(t, 300, 4000, func(rt *rapid.T) {
		n := net3(rt)
		length := rapid.IntRange(1, 30).Draw(rt, "length")
		full := kit.Chain(uint64(length)+91, n.Genesis, length)
		attempts := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) attempt {
			a := attempt{Kind: rapid.SampledFrom([]string{"refused", "odd", "odd", "deaf"}).Draw(t, "kind")}
			if a.Kind == "odd" {
				a.Addr = rapid.SampledFrom([]string{"[::1]:18333", "::1:18333", "localhost", "localhost:", ":18333", "h:http", "10.9.9.9:65536", "10.9.9.9:-1", "10.9.9.9:+5", "a:b:1", ""}).Draw(t, "address")
			}
			return a
		}), 0, 4).Draw(rt, "attempts")
		failing := len(attempts)
		good := rapid.IntRange(0, 4).Draw(rt, "good") > 0
		if good {
			attempts = append(attempts, attempt{Kind: "good"})
		}
		desc := map[string]any{"test": "C20Start", "length": length, "attempts": attempts}
		kit.Journal(desc)
		var e *env
		leaked, stuck := kit.Bubble(t, func() {
			e = newEnv(n, kit.NewHeaders(nil))
			var honest *kit.Honest
			for i, a := range attempts {
				var c *kit.Conn
				addr := fmt.Sprintf("10.8.0.%d:18000", i+1)
				switch a.Kind {
				case "odd":
					addr = a.Addr
					c = kit.NewConn(fmt.Sprintf("127.0.0.1:%d", 50000+i), "10.7.7.7:1", nil)
					c.Hold = e.hold
					pendingDials.Store(addr, c)
				case "deaf":
					c, addr = e.conn(i, nil)
					c.FailWrites()
				case "good":
					c, addr = e.conn(i, nil)
					honest = kit.NewHonest(c, n, full)
					go honest.Run()
				}
				ended := make(chan error, 1)
				go func() { ended <- e.svc.Start(addr) }()
				time.Sleep(time.Duration(5+i*20) * time.Second)
				synctest.Wait()
				_, undialled := pendingDials.LoadAndDelete(addr)
				closed := c == nil || undialled
				if !closed {
					closed, _ = c.State()
				}
				var err error
				select {
				case err = <-ended:
				default:
					if a.Kind == "good" || a.Kind == "refused" || a.Kind == "deaf" {
						e.failf("Start (%s, attempt %d) does not return", a.Kind, i)
					}
					continue
				}
				switch {
				case a.Kind == "good" && err != nil:
					e.failf("Start fails with a good peer after %d failed ones: %v", failing, err)
				case a.Kind == "refused" && err == nil, a.Kind == "deaf" && err == nil:
					e.failf("Start succeeds without a peer (%s)", a.Kind)
				case err != nil && !closed:
					e.failf("Start(%q) fails (%v) but leaves the connection it opened", addr, err)
				}
				if err != nil && honest == nil && len(e.errs) == 0 {
					if left := kit.RepoGoroutines(); len(left) > 0 {
						e.failf("%d goroutines are left after Start (%s) failed, for instance:\n%s", len(left), a.Kind, left[0])
					}
				}
			}
			if good {
				if d := e.hdrs.Diff(full); d != "" {
					e.failf("after Start: %s", d)
				}
			}
			e.stopping.Store(true)
			if err := e.svc.Stop(); err != nil {
				e.failf("Stop: %v", err)
			}
			time.Sleep(time.Minute)
			synctest.Wait()
			for i, c := range e.conns {
				if closed, _ := c.State(); !closed && len(c.Log()) > 0 {
					e.failf("connection %d is not closed after Stop", i)
				}
			}
			if len(e.errs) == 0 {
				if left := kit.RepoGoroutines(); len(left) > 0 {
					e.failf("%d goroutines are left after Stop, for instance:\n%s", len(left), left[0])
				}
			}
			if honest != nil {
				honest.Stop()
				honest.C.Close()
			}
			for _, c := range e.conns {
				c.Close()
			}
			e.frozen.Store(true)
		})
		if e != nil && len(e.errs) > 0 {
			rt.Fatalf("%s", e.errs[0])
		}
		if leaked != "" {
			rt.Fatalf("goroutines are left after Stop: %s", leaked)
		}
		if stuck != "" {
			stuckCase(rt, stuck)
		}
		kit.Case("start", good && failing > 0, kit.Key(fmt.Sprint(desc)), func() any { return desc })
	})
}
