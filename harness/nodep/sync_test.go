package nodep

import (
	"fmt"
	"runtime"
	"testing"
	"testing/synctest"
	"time"

	"github.com/vulpemventures/neutrino-elements/verifharness/kit"
	"pgregory.net/rapid"
)

type growth struct {
	Wait   time.Duration
	Blocks int
	How    string // headers, last header, inv, block, blocks
}

func genQuirks(t *rapid.T, length int) []kit.Quirk {
	batches := []int{1, 2, 3, 7, 50, 1999, 2000}
	if length > 400 {
		batches = []int{97, 500, 1999, 2000}
	}
	var qs []kit.Quirk
	for i := rapid.IntRange(1, 6).Draw(t, "quirks"); i > 0; i-- {
		q := kit.Quirk{Batch: rapid.SampledFrom(batches).Draw(t, "batch")}
		q.Overlap = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 5, 60}).Draw(t, "overlap")
		q.Dup = rapid.IntRange(0, 3).Draw(t, "dup") == 0
		q.Empty = rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "empty")
		q.Delay = time.Duration(rapid.SampledFrom([]int{0, 0, 10, 700, 3000}).Draw(t, "delay")) * time.Millisecond
		qs = append(qs, q)
	}
	return qs
}

func genGrowth(t *rapid.T) []growth {
	var gs []growth
	for i := rapid.IntRange(0, 6).Draw(t, "growth steps"); i > 0; i-- {
		gs = append(gs, growth{
			Wait:   time.Duration(rapid.SampledFrom([]int{0, 1, 300, 1000, 5000, 200000}).Draw(t, "wait")) * time.Millisecond,
			Blocks: rapid.IntRange(1, 4).Draw(t, "blocks"),
			How:    rapid.SampledFrom([]string{"headers", "last header", "inv", "block", "blocks", "each header"}).Draw(t, "how"),
		})
	}
	return gs
}

func grow(p *kit.Honest, hs []*blockHeader, g growth) {
	time.Sleep(g.Wait)
	if g.How == "each header" || g.How == "blocks" {
		for _, h := range hs {
			p.Grow(h)
			if g.How == "blocks" {
				p.SendBlock(h)
			} else {
				p.AnnounceHeaders(1)
			}
		}
		return
	}
	p.Grow(hs...)
	switch g.How {
	case "headers":
		p.AnnounceHeaders(len(hs))
	case "last header":
		p.AnnounceHeaders(1)
	case "inv":
		p.AnnounceInv()
	case "block":
		p.SendBlock(hs[len(hs)-1])
	}
}

func TestC12(t *testing.T) {
	t.Run("converge", func(t *testing.T) {
		kit.Rule("converge", "an honest peer with a chain of 0-900 headers (sometimes 1990-4100), a store holding a prefix of it, answers in batches of 1-2000 with overlaps, duplicates, empty batches and delays, and up to 6 later growths announced by headers or blocks, during or after synchronisation, any segmentation: in the end the store equals the chain, Start has returned, not before the announced height was stored, and the tip is the chain's; non-trivial: at least two batches or a growth")
		kit.Checks(t, 1050, 8000, func(rt *rapid.T) {
			n := net3(rt)
			length := rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(0, 120), rapid.IntRange(100, 900)).Draw(rt, "length")
			if rapid.IntRange(0, 24).Draw(rt, "long") == 0 {
				length = rapid.IntRange(1990, 4100).Draw(rt, "long length")
			}
			stored := 0
			if rapid.Bool().Draw(rt, "prefilled") {
				stored = rapid.IntRange(0, length).Draw(rt, "stored")
			}
			quirks, growths := genQuirks(rt, length), genGrowth(rt)
			segs := kit.Sizes(rt, "segments")
			if length > 300 && len(segs) > 0 {
				segs = []int{3000, 1, 17}
			}
			early := rapid.Bool().Draw(rt, "grow at once") // growth starts during synchronisation
			extra := 0
			for _, g := range growths {
				extra += g.Blocks
			}
			full := kit.Chain(uint64(length)+11, n.Genesis, length+extra)
			hdrs := kit.NewHeaders(full[:stored])
			desc := map[string]any{"test": "C12", "network": n.Name, "length": length, "stored": stored, "quirks": quirks, "growths": growths, "segments": segs, "early": early}
			announced, returned := uint32(length), false
			bubble(t, rt, desc, n, hdrs, func(e *env) {
				c, a := e.conn(0, segs)
				p := kit.NewHonest(c, n, full[:length])
				p.Quirks = quirks
				go p.Run()
				go func() {
					err := e.svc.Start(a)
					tip, count := hdrs.Tip()
					if err != nil {
						if !e.stopping.Load() {
							e.failf("Start: %v", err)
						}
					} else if tip < announced || count != int(tip) {
						e.failf("Start returned with %d headers up to height %d stored; the peer announced height %d", count, tip, announced)
					}
					e.mu.Lock()
					e.started = true
					e.mu.Unlock()
				}()
				synctest.Wait()
				if !early {
					time.Sleep(time.Minute)
				}
				at := length
				for _, g := range growths {
					grow(p, full[at:at+g.Blocks], g)
					at += g.Blocks
				}
				time.Sleep(4*time.Minute + time.Duration(length)*4*time.Second)
				synctest.Wait()
				if d := hdrs.Diff(full); d != "" {
					e.failf("the store does not hold the honest peer's chain of %d (%d at first): %s", len(full), length, d)
				}
				tip, err := e.svc.GetChainTip()
				if len(full) > 0 && (err != nil || kit.HeaderHash(tip) != kit.HeaderHash(full[len(full)-1])) {
					e.failf("GetChainTip: %v, %v, want height %d", tip, err, len(full))
				}
				returned, _ = e.isStarted()
				if !returned && len(full) > 0 && length > 0 {
					e.failf("Start has not returned though everything the peer announced is stored")
				}
				p.Stop()
			})
			if b := hdrs.Broken(); len(b) > 0 {
				rt.Fatalf("%s", b[0])
			}
			kit.Case("converge", extra > 0 || length > quirks[0].Batch, kit.Key(fmt.Sprint(desc)), func() any { return desc })
		})
	})
	t.Run("announced", func(t *testing.T) {
		kit.Rule("announced", "a peer with a chain of 0-60 headers, some or all of them stored, that announces a greater height, up to 2^31-1: Start does not return while the stored chain is lower, and returns once the peer has grown to the height it announced, where that is near; non-trivial: the announced height differs from the chain's in its upper bits, or the peer grows to it")
		kit.Checks(t, 750, 5000, func(rt *rapid.T) {
			n := net3(rt)
			length := rapid.IntRange(0, 60).Draw(rt, "length")
			stored := length
			if rapid.Bool().Draw(rt, "partly stored") {
				stored = rapid.IntRange(0, length).Draw(rt, "stored")
			}
			near := rapid.IntRange(1, 5).Draw(rt, "missing")
			claims := rapid.OneOf(rapid.Just(length+near), rapid.IntRange(length+1, length+3000), rapid.IntRange(length+1, 1<<31-1),
				rapid.Map(rapid.IntRange(7, 30), func(b int) int { return 1<<b + length - 1 }), rapid.Map(rapid.IntRange(7, 30), func(b int) int { return 1 << b })).Draw(rt, "announced")
			if claims <= length {
				claims = length + near
			}
			full := kit.Chain(uint64(length)+61, n.Genesis, length+near)
			how := rapid.SampledFrom([]string{"headers", "each header", "blocks"}).Draw(rt, "how")
			hdrs := kit.NewHeaders(full[:stored])
			desc := map[string]any{"test": "C12 announced", "network": n.Name, "length": length, "stored": stored, "announced": claims, "how": how}
			bubble(t, rt, desc, n, hdrs, func(e *env) {
				c, a := e.conn(0, nil)
				p := kit.NewHonest(c, n, full[:length])
				p.Claims = int32(claims)
				go p.Run()
				e.start(a)
				time.Sleep(3 * time.Minute)
				synctest.Wait()
				if done, err := e.isStarted(); done {
					tip, _ := hdrs.Tip()
					e.failf("Start returned (%v) with headers up to height %d stored; the peer announced height %d", err, tip, claims)
				}
				if claims == length+near {
					grow(p, full[length:], growth{Blocks: near, How: how})
					time.Sleep(3 * time.Minute)
					synctest.Wait()
					if done, err := e.isStarted(); !done || err != nil {
						e.failf("Start has not returned (%v) though the peer has reached the height %d that it announced", err, claims)
					}
					if d := hdrs.Diff(full); d != "" {
						e.failf("the store does not hold the peer's chain of %d: %s", len(full), d)
					}
				}
				p.Stop()
			})
			kit.Case("announced", claims == length+near || claims>>8 != length>>8, kit.Key(fmt.Sprint(desc)), func() any { return desc })
		})
	})
	t.Run("failover", func(t *testing.T) {
		kit.Rule("failover", "two to five honest peers with the same chain of 1-300 headers, connected at drawn moments; one or more but not all of them hang up at drawn moments, mostly during the synchronisation, perhaps after they grew: in the end the store equals the chain of the peer that stayed; non-trivial: a peer hung up before the store held its chain")
		kit.Checks(t, 750, 6000, func(rt *rapid.T) {
			n := net3(rt)
			length := rapid.IntRange(1, 300).Draw(rt, "length")
			stored := 0
			if rapid.IntRange(0, 3).Draw(rt, "prefilled") == 0 {
				stored = rapid.IntRange(0, length-1).Draw(rt, "stored")
			}
			full := kit.Chain(uint64(length)+51, n.Genesis, length)
			np := rapid.SampledFrom([]int{2, 2, 3, 3, 4, 5}).Draw(rt, "peers")
			stays := rapid.IntRange(0, np-1).Draw(rt, "stays")
			more := make([]bool, np) // others that stay
			if np > 2 && rapid.Bool().Draw(rt, "several stay") {
				for i := range more {
					more[i] = rapid.Bool().Draw(rt, "stays too")
				}
			}
			ms := func(l string) time.Duration {
				return time.Duration(rapid.SampledFrom([]int{0, 1, 50, 400, 1000, 3000, 8000, 130000}).Draw(rt, l)) * time.Millisecond
			}
			var joins, leaves []time.Duration
			var quirks [][]kit.Quirk
			for i := 0; i < np; i++ {
				joins = append(joins, ms("joins after"))
				leaves = append(leaves, ms("leaves after"))
				q := genQuirks(rt, length)
				for j := range q {
					q[j].Batch = min(q[j].Batch, max(1, length/rapid.IntRange(1, 9).Draw(rt, "batches")))
				}
				quirks = append(quirks, q)
			}
			hdrs := kit.NewHeaders(full[:stored])
			desc := map[string]any{"test": "C12 failover", "network": n.Name, "length": length, "stored": stored, "peers": np, "stays": stays, "more stay": more, "joins": joins, "leaves": leaves, "quirks": quirks}
			early := 0
			bubble(t, rt, desc, n, hdrs, func(e *env) {
				var ps []*kit.Honest
				// everybody is connected before the first one leaves
				for i := 0; i < np; i++ {
					c, a := e.conn(i, nil)
					p := kit.NewHonest(c, n, full)
					p.Quirks = quirks[i]
					go p.Run()
					ps = append(ps, p)
					if i == 0 {
						go func() { _ = e.svc.Start(a) }()
					} else {
						time.Sleep(joins[i])
						if err := e.add(a); err != nil {
							e.failf("AddOutboundPeer: %v", err)
						}
					}
					synctest.Wait()
				}
				for i, p := range ps {
					if i == stays || more[i] {
						continue
					}
					time.Sleep(leaves[i])
					if tip, _ := hdrs.Tip(); int(tip) < length {
						early++
					}
					p.Stop()
					p.C.Close()
				}
				time.Sleep(4*time.Minute + time.Duration(length)*4*time.Second)
				synctest.Wait()
				if d := hdrs.Diff(full); d != "" {
					e.failf("the store does not hold the chain of %d of the peer that stayed: %s", length, d)
				}
				for _, p := range ps {
					p.Stop()
				}
			})
			if b := hdrs.Broken(); len(b) > 0 {
				rt.Fatalf("%s", b[0])
			}
			kit.Case("failover", early > 0, kit.Key(fmt.Sprint(desc)), func() any { return desc })
		})
	})
}

// TestC13 feeds the node arbitrary headers and blocks from several peers.
func TestC13(t *testing.T) {
	t.Run("hostile", func(t *testing.T) {
		kit.Rule("hostile", "1-3 peers send up to 14 header batches and blocks taken from a chain, from forks leaving it anywhere, with broken links, wrong heights, repetitions, reversed or skipping batches, arbitrary announced heights and failing store writes: after every write the stored headers form one linked chain from height 1 and the tip has not gone down; non-trivial: a batch that is not a part of the chain, or two peers")
		kit.Checks(t, 3000, 30000, func(rt *rapid.T) {
			n := net3(rt)
			length := rapid.IntRange(2, 25).Draw(rt, "length")
			stored := rapid.IntRange(0, length).Draw(rt, "stored")
			chains := [][]*blockHeader{kit.Chain(21, n.Genesis, length)}
			for i := rapid.IntRange(0, 3).Draw(rt, "forks"); i > 0; i-- {
				base := chains[rapid.IntRange(0, len(chains)-1).Draw(rt, "fork of")]
				at := rapid.IntRange(0, len(base)-1).Draw(rt, "fork at")
				chains = append(chains, kit.Extend(100+uint64(i), base[:at], n.Genesis, rapid.IntRange(1, 12).Draw(rt, "fork length")))
			}
			np := rapid.IntRange(1, 3).Draw(rt, "peers")
			type msg struct {
				Peer  int
				What  string
				Wait  time.Duration
				frame []byte
			}
			var msgs []msg
			nt := np > 1
			for i := rapid.IntRange(1, 14).Draw(rt, "messages"); i > 0; i-- {
				m := msg{Peer: rapid.IntRange(0, np-1).Draw(rt, "peer"), Wait: time.Duration(rapid.SampledFrom([]int{0, 0, 0, 1, 6000}).Draw(rt, "wait")) * time.Millisecond}
				ci := rapid.IntRange(0, len(chains)-1).Draw(rt, "chain")
				ch := chains[ci]
				from := rapid.IntRange(0, len(ch)-1).Draw(rt, "from")
				// mostly near the stored tip, where headers may be accepted
				if k := rapid.IntRange(0, 2).Draw(rt, "near"); k > 0 && stored < len(ch) {
					from = max(0, stored-k+1)
				}
				to := rapid.IntRange(from+1, len(ch)).Draw(rt, "to")
				part := append([]*blockHeader(nil), ch[from:to]...)
				kind := rapid.SampledFrom([]string{"headers", "headers", "block", "skip", "reverse", "relink", "reheight", "repeat", "mix", "headers"}).Draw(rt, "kind")
				nt = nt || ci > 0 || kind != "headers" && kind != "block"
				switch kind {
				case "skip":
					if len(part) > 2 {
						part = append(part[:1:1], part[2:]...)
					}
				case "reverse":
					for a, b := 0, len(part)-1; a < b; a, b = a+1, b-1 {
						part[a], part[b] = part[b], part[a]
					}
				case "relink":
					j := rapid.IntRange(0, len(part)-1).Draw(rt, "which")
					c := *part[j]
					h := kit.Hash32(rt, "prev")
					c.PrevBlockHash = h[:]
					part[j] = &c
				case "reheight":
					j := rapid.IntRange(0, len(part)-1).Draw(rt, "which")
					c := *part[j]
					c.Height = rapid.OneOf(rapid.Uint32Range(0, 40), rapid.Uint32()).Draw(rt, "height")
					part[j] = &c
				case "repeat":
					part = append(part, part...)
				case "mix":
					other := chains[rapid.IntRange(0, len(chains)-1).Draw(rt, "other")]
					if to < len(other) {
						part = append(part, other[to:]...)
					}
				}
				m.What = fmt.Sprintf("%s chain %d heights %d-%d", kind, ci, part[0].Height, part[len(part)-1].Height)
				if kind == "block" || len(part) == 1 && rapid.Bool().Draw(rt, "as block") {
					m.What = "block of " + m.What
					m.frame = kit.Frame(n.Magic, "block", kit.EncodeBlock(kit.Block(part[0], kit.TxN(3))))
				} else {
					m.frame = kit.Frame(n.Magic, "headers", kit.EncodeHeaders(part))
				}
				msgs = append(msgs, m)
			}
			heights := make([]int32, np)
			for i := range heights {
				heights[i] = rapid.Int32Range(0, 60).Draw(rt, "announced")
			}
			slow := rapid.Bool().Draw(rt, "slow store")
			hdrs := kit.NewHeaders(chains[0][:stored])
			hdrs.WriteF = &kit.Faults{Plan: rapid.SliceOfN(rapid.Bool(), 0, 8).Draw(rt, "write faults")}
			desc := map[string]any{"test": "C13 hostile", "length": length, "stored": stored, "chains": len(chains), "messages": msgs, "heights": heights, "faults": hdrs.WriteF.Plan, "slow": slow}
			bubble(t, rt, desc, n, hdrs, func(e *env) {
				if slow {
					hdrs.Delay = func() {
						e.hold()
						for i := 0; i < 20; i++ {
							runtime.Gosched()
						}
					}
				}
				var cs []*kit.Conn
				for i := 0; i < np; i++ {
					c, a := e.conn(i, nil)
					cs = append(cs, c)
					if i == 0 {
						e.start(a)
					} else {
						_ = e.add(a)
					}
					c.Send(kit.Frame(n.Magic, "version", version(kit.SFNodeCF|1, heights[i])))
				}
				if rapidBool(heights) {
					synctest.Wait()
				}
				for _, m := range msgs {
					if m.Wait > 0 {
						time.Sleep(m.Wait)
					}
					cs[m.Peer].Send(m.frame)
				}
				time.Sleep(20 * time.Second)
				synctest.Wait()
			})
			if b := hdrs.Broken(); len(b) > 0 {
				rt.Fatalf("%s", b[0])
			}
			kit.Case("hostile", nt, kit.Key(fmt.Sprint(desc)), func() any { return desc })
		})
	})
	t.Run("recovery", func(t *testing.T) {
		kit.Rule("recovery", "an honest peer with up to 120 headers that grows, announced by headers or blocks, while up to 12 of the store's write calls fail, and up to 3 write calls right after a drawn growth step, most often the last thing that happens, and nothing of the store works for up to three times of up to a minute: the stored headers are a gap-free linked chain at all times, and equal to the peer's chain some minutes after the store works again, and Start has returned by then; non-trivial: a write failed")
		kit.Checks(t, 1500, 15000, func(rt *rapid.T) {
			n := net3(rt)
			length := rapid.IntRange(1, 120).Draw(rt, "length")
			stored := rapid.IntRange(0, length).Draw(rt, "stored")
			quirks, growths := genQuirks(rt, length), genGrowth(rt)
			extra := 0
			for _, g := range growths {
				extra += g.Blocks
			}
			full := kit.Chain(uint64(length)+31, n.Genesis, length+extra)
			hdrs := kit.NewHeaders(full[:stored])
			plan := make([]bool, rapid.IntRange(0, 60).Draw(rt, "plan"))
			fails := rapid.IntRange(0, 12).Draw(rt, "fails")
			for i := 0; i < fails && len(plan) > 0; i++ {
				plan[rapid.IntRange(0, len(plan)-1).Draw(rt, "failing call")] = true
			}
			hdrs.WriteF = &kit.Faults{Plan: plan}
			armAt, arm := -1, 0
			if len(growths) > 0 && rapid.Bool().Draw(rt, "fail at a growth") {
				armAt, arm = len(growths)-1, rapid.IntRange(1, 3).Draw(rt, "failing writes")
				if rapid.IntRange(0, 2).Draw(rt, "not the last") == 0 {
					armAt = rapid.IntRange(0, len(growths)-1).Draw(rt, "growth")
				}
				// once the node is at rest
				if rapid.Bool().Draw(rt, "at rest") {
					growths[armAt].Wait = 15 * time.Minute
				}
				if rapid.Bool().Draw(rt, "one block") {
					full = full[:len(full)-growths[armAt].Blocks+1]
					growths[armAt].Blocks, growths[armAt].How = 1, "block"
				}
			}
			// times during which nothing of the store works: start and length
			type outage struct{ Wait, For time.Duration }
			var outages []outage
			if rapid.IntRange(0, 2).Draw(rt, "has outages") == 0 {
				for i := rapid.IntRange(1, 3).Draw(rt, "outages"); i > 0; i-- {
					outages = append(outages, outage{
						time.Duration(rapid.SampledFrom([]int{0, 1, 10, 700, 1000, 4000, 60000, 1000000}).Draw(rt, "works for")) * time.Millisecond,
						time.Duration(rapid.SampledFrom([]int{1, 100, 1000, 4000, 6000, 11000, 60000}).Draw(rt, "fails for")) * time.Millisecond,
					})
				}
			}
			hdrs.ReadF = &kit.Faults{}
			desc := map[string]any{"outages": outages, "armed at": armAt, "armed": arm, "test": "C13 recovery", "length": length, "stored": stored, "quirks": quirks, "growths": growths, "faults": plan}
			bubble(t, rt, desc, n, hdrs, func(e *env) {
				c, a := e.conn(0, nil)
				p := kit.NewHonest(c, n, full[:length])
				p.Quirks = quirks
				go p.Run()
				go func() {
					for _, o := range outages {
						time.Sleep(o.Wait)
						hdrs.WriteF.Down(true)
						hdrs.ReadF.Down(true)
						time.Sleep(o.For)
						hdrs.WriteF.Down(false)
						hdrs.ReadF.Down(false)
					}
				}()
				e.start(a)
				at := length
				for i, g := range growths {
					if i == armAt {
						time.Sleep(g.Wait)
						g.Wait = 0
						hdrs.WriteF.Arm(arm)
					}
					grow(p, full[at:at+g.Blocks], g)
					at += g.Blocks
				}
				time.Sleep(20*time.Minute + time.Duration(length)*4*time.Second)
				for _, o := range outages {
					time.Sleep(o.Wait + o.For)
				}
				synctest.Wait()
				if d := hdrs.Diff(full); d != "" {
					e.failf("after %d failed writes the store does not recover the peer's chain of %d: %s", hdrs.WriteF.Fires(), len(full), d)
				}
				if ok, err := e.isStarted(); !ok || err != nil && len(outages) == 0 {
					e.failf("the node's start (returned: %v, error: %v) does not complete once the store works again", ok, err)
				}
				p.Stop()
			})
			if b := hdrs.Broken(); len(b) > 0 {
				rt.Fatalf("%s", b[0])
			}
			kit.Case("recovery", hdrs.WriteF.Fires() > 0, kit.Key(fmt.Sprint(desc)), func() any { return desc })
		})
	})
}

func rapidBool(h []int32) bool { return h[0]%2 == 0 }
