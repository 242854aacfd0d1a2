package nodep

import (
	"bytes"
	"fmt"
	"net"
	"testing"
	"testing/synctest"
	"time"

	"github.com/vulpemventures/neutrino-elements/verifharness/kit"
	"pgregory.net/rapid"
)

// services draws a service mask with or without the compact filter bit.
func services(t *rapid.T, cf bool) uint64 {
	s := rapid.OneOf(rapid.Uint64(), rapid.SampledFrom([]uint64{0, 1, 1 << 6, 1 | 1<<3, 1 << 10, 1<<7 | 1<<5, ^uint64(0)})).Draw(t, "services")
	if cf {
		return s | kit.SFNodeCF
	}
	return s &^ kit.SFNodeCF
}

type hsPeer struct {
	CF       bool
	Services uint64
	Height   int32
	Steps    []string // what it sends, in order
	Again    string   // when it is added once more
}

func TestC11(t *testing.T) {
	kit.Rule("handshakes", "1-4 peers with arbitrary service bits that send versions (once or again with other services and heights), veracks, headers, blocks, inventories, filters and pings in any order, and are added a second time, against an empty or filled store, with a transaction submitted at the end: what every peer is sent is compared with the rules of the handshake; non-trivial: two peers, or one that repeats its version, or one without compact filters")
	kit.Checks(t, 3500, 20000, func(rt *rapid.T) {
		n := net3(rt)
		stored := rapid.SampledFrom([]int{0, 1, 5, 30}).Draw(rt, "stored headers")
		chain := kit.Chain(3, n.Genesis, stored+3)
		var peers []*hsPeer
		nt := false
		for i := rapid.IntRange(1, 4).Draw(rt, "peers"); i > 0; i-- {
			p := &hsPeer{CF: rapid.IntRange(0, 2).Draw(rt, "filters") > 0}
			p.Services = services(rt, p.CF)
			p.Height = rapid.Int32Range(0, int32(stored)).Draw(rt, "height")
			p.Steps = []string{"version"}
			for j := rapid.IntRange(0, 6).Draw(rt, "more"); j > 0; j-- {
				p.Steps = append(p.Steps, rapid.SampledFrom([]string{"verack", "version again", "ping", "headers", "inv", "block", "old headers"}).Draw(rt, "step"))
			}
			// a peer may also talk before its version
			if rapid.IntRange(0, 3).Draw(rt, "early") == 0 {
				p.Steps = append([]string{rapid.SampledFrom([]string{"verack", "ping", "headers", "inv"}).Draw(rt, "early step")}, p.Steps...)
			}
			p.Again = rapid.SampledFrom([]string{"", "", "at once", "after the handshake", "at the end"}).Draw(rt, "added again")
			nt = nt || !p.CF || len(p.Steps) > 2
			peers = append(peers, p)
		}
		nt = nt || len(peers) > 1
		tx := kit.TxBytes(kit.TxN(rapid.Uint64().Draw(rt, "tx")))
		hdrs := kit.NewHeaders(chain[:stored])
		start := rapid.IntRange(0, len(peers)-1).Draw(rt, "start with")
		peers[0], peers[start] = peers[start], peers[0]
		bubble(t, rt, map[string]any{"test": "C11", "peers": peers, "stored": stored}, n, hdrs, func(e *env) {
			firstCF := -1
			var conns []*kit.Conn
			for i, p := range peers {
				c, a := e.conn(i, nil)
				conns = append(conns, c)
				if i == 0 {
					e.start(a)
				} else if err := e.add(a); err != nil {
					e.failf("AddOutboundPeer(%d): %v", i, err)
				}
				if p.Again == "at once" {
					e.addAgain(p.Again)
				}
				synctest.Wait()
				e.checkVersion(c, a)
				storedBefore := len(only(c.Log(), "getheaders"))
				for _, s := range p.Steps {
					e.hsStep(c, p, s, chain, stored)
					synctest.Wait()
					if s == "version" && p.CF && firstCF < 0 {
						firstCF = i
						e.checkFirstGetHeaders(c, storedBefore)
					}
					if s == "version" && p.Again == "after the handshake" {
						e.addAgain(p.Again)
					}
				}
				if p.Again == "at the end" {
					e.addAgain(p.Again)
				}
				// repeated greetings to the same connection
				time.Sleep(3 * time.Second)
			}
			err := e.svc.SendTransaction(fmt.Sprintf("%x", tx))
			if err != nil {
				e.failf("SendTransaction: %v", err)
			}
			time.Sleep(10 * time.Second)
			synctest.Wait()
			asksFilters := 0
			for i, p := range peers {
				log := conns[i].Log()
				count := map[string]int{}
				for _, m := range log {
					count[m.Cmd]++
					if m.Magic != n.Magic {
						e.failf("peer %d is sent a %q of another network", i, m.Cmd)
					}
				}
				want := 0
				if p.CF {
					want = 1
				}
				if count["version"] != 1 || log[0].Cmd != "version" {
					e.failf("peer %d %+v: messages %v, want one version first", i, *p, cmds(log))
				}
				for _, c := range []string{"verack", "sendheaders", "tx"} {
					if count[c] != want {
						e.failf("peer %d %+v (compact filters: %v) is sent %d %q instead of %d: %v", i, *p, p.CF, count[c], c, want, cmds(log))
					}
				}
				if !p.CF && count["getheaders"]+count["getcfilters"] > 0 {
					e.failf("peer %d %+v does not serve compact filters but is asked for headers or filters: %v", i, *p, cmds(log))
				}
				asksFilters += count["getcfilters"]
			}
		})
		kit.Case("handshakes", nt, kit.Key(fmt.Sprint(deref(peers)), stored, n.Name), func() any {
			return map[string]any{"peers": deref(peers), "stored": stored, "network": n.Name}
		})
	})
}

func deref[T any](xs []*T) (out []T) {
	for _, x := range xs {
		out = append(out, *x)
	}
	return
}

func (e *env) hsStep(c *kit.Conn, p *hsPeer, s string, chain []*blockHeader, stored int) {
	send := func(cmd string, b []byte) { c.Send(kit.Frame(e.net.Magic, cmd, b)) }
	switch s {
	case "version":
		send("version", version(p.Services, p.Height))
	case "version again":
		// the repetition never upgrades a peer that was refused
		send("version", version(p.Services, p.Height+3))
	case "verack":
		send("verack", nil)
	case "ping":
		send("ping", kit.PingPayload(5))
	case "inv":
		send("inv", kit.EncodeInv([]kit.Inv{{1, kit.HeaderHash(chain[0])}}))
	case "headers":
		send("headers", kit.EncodeHeaders(chain[stored:]))
	case "old headers":
		send("headers", kit.EncodeHeaders(chain[:1]))
	case "block":
		send("block", kit.EncodeBlock(kit.Block(chain[stored], kit.TxN(1))))
	}
}

// checkVersion checks the greeting, which must be all that was sent on a fresh connection.
func (e *env) checkVersion(c *kit.Conn, addr string) {
	log := c.Log()
	if len(log) != 1 || log[0].Cmd != "version" {
		e.failf("a fresh connection carries %v instead of one version message", cmds(log))
		return
	}
	if log[0].Magic != e.net.Magic {
		e.failf("the version message carries the magic %x of another network than %s", log[0].Magic, e.net.Name)
	}
	v, err := kit.DecodeVersion(log[0].Payload)
	if err != nil {
		e.failf("version message: %v", err)
		return
	}
	host, port, _ := net.SplitHostPort(addr)
	if v.UserAgent != agent || v.Services != kit.SFNodeCF || v.FromServices != kit.SFNodeCF && v.RecvServices != kit.SFNodeCF {
		e.failf("version message names agent %q and services %x", v.UserAgent, v.Services)
	}
	ip := net.ParseIP(host).To4()
	match := func(a [4]byte, p uint16) bool { return bytes.Equal(a[:], ip) && fmt.Sprint(p) == port }
	if !match(v.FromIP, v.FromPort) && !match(v.RecvIP, v.RecvPort) {
		e.failf("version message to %s names %v:%d and %v:%d", addr, v.FromIP, v.FromPort, v.RecvIP, v.RecvPort)
	}
}

func (e *env) checkFirstGetHeaders(c *kit.Conn, before int) {
	asked := only(c.Log(), "getheaders")
	if len(asked) != before+1 {
		e.failf("the first peer that serves compact filters is asked for headers %d times instead of once: %v", len(asked)-before, cmds(c.Log()))
		return
	}
	_, loc, stop, err := kit.DecodeGetHeaders(asked[before].Payload)
	if err != nil {
		e.failf("request for headers: %v", err)
		return
	}
	want := e.net.Genesis
	if tip, n := e.hdrs.Tip(); n > 0 {
		h, _ := e.hdrs.GetBlockHashByHeight(nil, tip)
		want = [32]byte(*h)
	}
	if len(loc) == 0 || loc[0] != want {
		e.failf("the first request for headers starts from %x instead of %x", loc, want)
	}
	if stop != [32]byte{} {
		e.failf("the first request for headers ends at %x", stop)
	}
}
