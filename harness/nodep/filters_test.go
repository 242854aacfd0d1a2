package nodep

import (
	"bytes"
	"fmt"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/vulpemventures/neutrino-elements/verifharness/kit"
	"pgregory.net/rapid"
)

// reply is how a peer answers the i-th filter request.
type reply struct {
	Delay time.Duration
	Kind  string // once, twice, never, other type first, split by ping
}

func filterOf(h [32]byte, n int) []byte {
	var items [][]byte
	for i := 0; i < n; i++ {
		items = append(items, kit.Expand(uint64(h[0])<<8+uint64(h[1])<<16+uint64(i), 22))
	}
	return kit.BuildFilter(h, items)
}

func TestC14(t *testing.T) {
	kit.Rule("filters", "1-3 peers, one of which serves a chain of up to 80 (rarely 900-2100) headers over a partly filled store that grows by announced headers and blocks, with filters of 0-300 elements answered late, in any order, twice, never, after one of another type, plus unrequested filters, filters for unknown blocks and unrelated messages in between, while the filter store takes its time, some header and filter writes fail and the connection of one of several peers stops taking messages at a drawn moment: every stored header's filter is requested by a request naming just that block, every regular filter sent is stored verbatim under its block unless storing it failed, and nothing else is stored; non-trivial: at least two headers are stored and an answer is delayed, doubled or mistyped, a write failed or a peer's connection stopped taking messages")
	kit.Checks(t, 1500, 15000, func(rt *rapid.T) {
		n := net3(rt)
		length := rapid.OneOf(rapid.IntRange(1, 10), rapid.IntRange(1, 80)).Draw(rt, "length")
		stored := rapid.IntRange(0, length).Draw(rt, "stored")
		if rapid.IntRange(0, 39).Draw(rt, "long") == 0 {
			length, stored = rapid.IntRange(900, 2100).Draw(rt, "long length"), rapid.IntRange(0, 100).Draw(rt, "few stored")
		}
		quirks, growths := genQuirks(rt, length), genGrowth(rt)
		// how long the filter store takes, call by call
		lags := rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 1, 30, 200}), 0, 5).Draw(rt, "filter store takes")
		extra := 0
		for _, g := range growths {
			extra += g.Blocks
		}
		// a peer's pongs wait behind its filters: all of them together take less than a ping may
		for i := range lags {
			lags[i] = min(lags[i], 5000/(length+extra))
		}
		full := kit.Chain(uint64(length)+41, n.Genesis, length+extra)
		var replies []reply
		odd := false
		for i := rapid.IntRange(1, 6).Draw(rt, "replies"); i > 0; i-- {
			r := reply{
				Delay: time.Duration(rapid.SampledFrom([]int{0, 0, 1, 50, 4000}).Draw(rt, "delay")) * time.Millisecond,
				Kind:  rapid.SampledFrom([]string{"once", "once", "twice", "never", "other type first", "ping between"}).Draw(rt, "kind"),
			}
			odd = odd || r.Delay > 0 || r.Kind != "once"
			replies = append(replies, r)
		}
		sizes := rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 2, 5, 40, 300}), 1, 5).Draw(rt, "elements")
		np := rapid.IntRange(1, 3).Draw(rt, "peers")
		strays := rapid.IntRange(0, 3).Draw(rt, "strays")
		segs := kit.Sizes(rt, "segments")
		plan := make([]bool, rapid.SampledFrom([]int{0, 0, 10, 60}).Draw(rt, "plan"))
		for i := range plan {
			plan[i] = rapid.IntRange(0, 9).Draw(rt, "write fails") == 0
		}
		fplan := make([]bool, rapid.SampledFrom([]int{0, 0, 0, 5, 40}).Draw(rt, "filter plan"))
		for i := range fplan {
			fplan[i] = rapid.IntRange(0, 4).Draw(rt, "put fails") == 0
		}
		// a peer whose connection breaks for writing only, after so many growths
		half, halfAt, halfWait := -1, 0, time.Duration(0)
		if np > 1 && rapid.Bool().Draw(rt, "half-dead peer") {
			half = rapid.IntRange(0, np-1).Draw(rt, "which peer")
			halfAt = rapid.IntRange(0, len(growths)).Draw(rt, "breaks after growth")
			halfWait = time.Duration(rapid.SampledFrom([]int{0, 1, 100, 5000}).Draw(rt, "breaks after")) * time.Millisecond
		}
		desc := map[string]any{"half-dead": half, "half-dead at": halfAt, "half-dead wait": halfWait, "write faults": plan, "test": "C14", "length": length, "stored": stored, "quirks": quirks, "growths": growths, "replies": replies, "elements": sizes, "peers": np, "strays": strays, "segments": segs, "lags": lags, "put faults": fplan}
		hdrs := kit.NewHeaders(full[:stored])
		hdrs.WriteF = &kit.Faults{Plan: plan}
		want := map[[32]byte][]byte{} // filters sent
		sure := map[[32]byte]bool{}   // sent over a connection that lasts
		future := map[[32]byte]int{}
		for i, h := range full {
			future[kit.HeaderHash(h)] = i + 1
		}
		e := bubble(t, rt, desc, n, hdrs, func(e *env) {
			var ps []*kit.Honest
			served := 0
			e.fils.PutF = &kit.Faults{Plan: fplan}
			if len(lags) > 0 {
				var calls atomic.Int64
				e.fils.Delay = func() {
					e.hold()
					if ms := lags[int(calls.Add(1))%len(lags)]; ms > 0 {
						time.Sleep(time.Duration(ms) * time.Millisecond)
					}
				}
			}
			for i := 0; i < np; i++ {
				c, a := e.conn(i, segs)
				p := kit.NewHonest(c, n, full[:length])
				p.Quirks = quirks
				p.Future = future
				p.Filters = func(h [32]byte) {
					e.mu.Lock()
					r := replies[served%len(replies)]
					f := filterOf(h, sizes[served%len(sizes)])
					served++
					if r.Kind != "never" {
						if old, ok := want[h]; ok {
							f = old
						}
						want[h] = f
						sure[h] = sure[h] || i != half
					}
					e.mu.Unlock()
					go func() {
						time.Sleep(r.Delay)
						switch r.Kind {
						case "never":
							return
						case "other type first":
							p.SendFilter(1+h[0]%255, h, filterOf(h, 1))
						case "ping between":
							c.Send(kit.Frame(n.Magic, "ping", kit.PingPayload(3)))
						}
						p.SendFilter(0, h, f)
						if r.Kind == "twice" {
							p.SendFilter(0, h, f)
						}
					}()
				}
				ps = append(ps, p)
				go p.Run()
				if i == 0 {
					e.start(a)
				} else if err := e.add(a); err != nil {
					e.failf("AddOutboundPeer: %v", err)
				}
				synctest.Wait()
			}
			breakIt := func(at int) {
				if half >= 0 && halfAt == at {
					if halfWait > 0 {
						time.Sleep(halfWait)
					}
					ps[half].C.FailWrites()
				}
			}
			at := length
			breakIt(0)
			announcer := 0
			if half == 0 {
				announcer = 1
			}
			for i, g := range growths {
				for j, p := range ps {
					if j != announcer {
						p.Grow(full[at : at+g.Blocks]...)
					}
				}
				grow(ps[announcer], full[at:at+g.Blocks], g)
				at += g.Blocks
				breakIt(i + 1)
				if i < strays {
					h := kit.DHash([]byte{byte(i), byte(length)})
					f := filterOf(h, sizes[i%len(sizes)])
					ps[i%len(ps)].SendFilter(0, h, f)
					e.mu.Lock()
					want[h] = f
					sure[h] = i%len(ps) != half
					e.mu.Unlock()
				}
			}
			time.Sleep(20*time.Minute + time.Duration(length)*4*time.Second)
			synctest.Wait()
			asked := map[[32]byte]int{}
			for _, p := range ps {
				a, odd := p.AskedFor()
				if len(odd) > 0 {
					e.failf("%s", odd[0])
				}
				for _, h := range a {
					asked[h]++
				}
			}
			if d := hdrs.Diff(full); d != "" {
				e.failf("the headers were not synchronised: %s", d)
			}
			for i, h := range full {
				k := kit.HeaderHash(h)
				if i >= stored && asked[k] == 0 {
					e.failf("the filter of block %d, whose header was stored while a peer was connected, was never requested", h.Height)
				}
			}
			for _, p := range ps {
				p.Stop()
			}
		})
		late := 0
		for h, f := range want {
			got, ok := e.fils.Get(h)
			if !ok && (!sure[h] || e.fils.Failed(h)) {
				late++
				continue
			}
			if !ok {
				rt.Fatalf("a regular filter of %d bytes that a peer sent for block %x is not stored", len(f), h[:4])
			}
			if !bytes.Equal(got, f) {
				rt.Fatalf("the filter stored for block %x is %x instead of %x", h[:4], got[:min(len(got), 40)], f[:min(len(f), 40)])
			}
		}
		if e.fils.Len() != len(want)-late {
			rt.Fatalf("%d filters are stored, %d regular ones were sent", e.fils.Len(), len(want))
		}
		kit.Case("filters", length+extra-stored >= 2 && (odd || half >= 0 || hdrs.WriteF.Fires() > 0 || e.fils.PutF.Fires() > 0), kit.Key(fmt.Sprint(desc)), func() any { return desc })
	})
}

func TestC15(t *testing.T) {
	kit.Rule("requests", "a store of 0-60 headers (sometimes 990-1100) with a filter for all or an arbitrary part of the blocks, some unreadable, and 1-8 filter requests with arbitrary type, start and stop (stored, unknown, around the limits), mixed with pings: the filter messages sent are exactly, for each acceptable request, those of the blocks of the range whose filter is stored; non-trivial: a request that must be answered by at least one filter")
	kit.Checks(t, 2100, 20000, func(rt *rapid.T) {
		n := net3(rt)
		long := rapid.IntRange(0, 9).Draw(rt, "long") == 0
		length := rapid.IntRange(0, 60).Draw(rt, "length")
		if long {
			length = rapid.IntRange(990, 1100).Draw(rt, "long length")
		}
		full := kit.Chain(51, n.Genesis, length)
		missing := map[int]bool{}
		for i := rapid.SampledFrom([]int{0, 0, 1, 5, 30}).Draw(rt, "missing"); i > 0 && length > 0; i-- {
			missing[rapid.IntRange(1, length).Draw(rt, "missing height")] = true
		}
		elements := rapid.IntRange(0, 3).Draw(rt, "elements")
		// filters that were stored as received but cannot be read: they may be sent or not
		unreadable := map[int][]byte{}
		for i := rapid.SampledFrom([]int{0, 0, 0, 1, 4}).Draw(rt, "unreadable"); i > 0 && length > 0; i-- {
			h := rapid.IntRange(1, length).Draw(rt, "unreadable height")
			missing[h] = true
			unreadable[h] = [][]byte{{}, {0xfd}, {0xfe, 1, 2}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}}[rapid.IntRange(0, 3).Draw(rt, "unreadable bytes")]
		}
		type req struct {
			Typ   uint8
			Start uint32
			Stop  string
			hash  [32]byte
			want  []int
			stop  int
		}
		var reqs []req
		nt := false
		for i := rapid.IntRange(1, 8).Draw(rt, "requests"); i > 0; i-- {
			r := req{Typ: uint8(rapid.SampledFrom([]int{0, 0, 0, 0, 0, 1, 2, 255}).Draw(rt, "type"))}
			stop := rapid.IntRange(0, length).Draw(rt, "stop")
			if rapid.IntRange(0, 3).Draw(rt, "at tip") == 0 {
				stop = length
			}
			if stop == 0 || rapid.IntRange(0, 7).Draw(rt, "unknown stop") == 0 {
				r.Stop, stop = "unknown", 0
				r.hash = kit.Hash32(rt, "stop hash")
				if rapid.Bool().Draw(rt, "genesis") {
					r.hash = n.Genesis
				}
			} else {
				r.Stop, r.hash = fmt.Sprint(stop), kit.HeaderHash(full[stop-1])
			}
			r.Start = rapid.OneOf(
				rapid.Uint32Range(0, uint32(length)+2), rapid.Uint32Range(uint32(max(0, stop-2)), uint32(stop+2)),
				rapid.Uint32Range(uint32(max(0, stop-1002)), uint32(max(0, stop-997))), rapid.Uint32()).Draw(rt, "start")
			if stop >= 998 && rapid.Bool().Draw(rt, "at the limit") {
				r.Start = uint32(stop) - rapid.SampledFrom([]uint32{997, 998, 999, 1000, 1001}).Draw(rt, "start below the stop")
				if int64(r.Start) > int64(stop) {
					r.Start = 0
				}
			}
			if r.Typ == 0 && stop > 0 && int64(r.Start) <= int64(stop) && int64(stop)-int64(r.Start)+1 <= 1000 {
				for h := int(r.Start); h <= stop; h++ {
					if h > 0 && !missing[h] {
						r.want = append(r.want, h)
					}
				}
			}
			nt = nt || len(r.want) > 0
			r.stop = stop
			reqs = append(reqs, r)
		}
		pings := rapid.Bool().Draw(rt, "pings")
		segs := kit.Sizes(rt, "segments")
		desc := map[string]any{"test": "C15", "length": length, "missing": len(missing), "requests": fmt.Sprintf("%+v", reqs)[:min(400, len(fmt.Sprintf("%+v", reqs)))], "segments": segs}
		bubble(t, rt, desc, n, kit.NewHeaders(full), func(e *env) {
			for i, h := range full {
				if !missing[i+1] {
					k := kit.HeaderHash(h)
					e.fils.Set(k, filterOf(k, elements))
				}
			}
			for h, b := range unreadable {
				e.fils.Set(kit.HeaderHash(full[h-1]), b)
			}
			c, a := e.conn(0, segs)
			e.start(a)
			c.Send(kit.Frame(n.Magic, "version", version(kit.SFNodeCF|1, int32(length))))
			synctest.Wait()
			seen, pong := 0, 0
			for i, r := range reqs {
				c.Send(kit.Frame(n.Magic, "getcfilters", kit.EncodeGetCFilters(r.Typ, r.Start, r.hash)))
				if pings {
					c.Send(kit.Frame(n.Magic, "ping", kit.PingPayload(uint64(i))))
					pong++
				}
				synctest.Wait()
				time.Sleep(time.Second)
				synctest.Wait()
				got := only(c.Log(), "cfilter")[seen:]
				seen += len(got)
				left := map[string]int{}
				maybe := map[string]bool{}
				if r.Typ == 0 && r.stop-int(r.Start) < 1000 {
					for h, b := range unreadable {
						if stop := r.stop; h >= int(r.Start) && h <= stop {
							maybe[string(kit.EncodeCFilter(0, kit.HeaderHash(full[h-1]), b))] = true
						}
					}
				}
				for _, h := range r.want {
					k := kit.HeaderHash(full[h-1])
					left[string(kit.EncodeCFilter(0, k, filterOf(k, elements)))] = h
				}
				for _, m := range got {
					if maybe[string(m.Payload)] {
						delete(maybe, string(m.Payload))
						continue
					}
					if _, ok := left[string(m.Payload)]; !ok {
						typ, hash, f, err := kit.DecodeCFilter(m.Payload)
						e.failf("request %d (%+v, chain of %d): an unwanted, repeated or altered filter is sent: type %d, block %x, %d bytes, %v", i, r, length, typ, hash[:4], len(f), err)
					}
					delete(left, string(m.Payload))
				}
				if len(left) > 0 {
					var hs []int
					for _, h := range left {
						hs = append(hs, h)
					}
					e.failf("request %d (start %d, stop %s, chain of %d): %d of %d filters are not sent, for instance of height %d", i, r.Start, r.Stop, length, len(left), len(r.want), hs[0])
				}
				if p := only(c.Log(), "pong"); len(p) != pong {
					e.failf("after request %d (%+v): %d pongs for %d pings", i, r, len(p), pong)
				}
				if cl, _ := c.State(); cl {
					e.failf("request %d (%+v) ended the connection", i, r)
				}
			}
		})
		kit.Case("requests", nt, kit.Key(fmt.Sprint(desc), fmt.Sprint(missing)), func() any { return desc })
	})
}

func TestC16(t *testing.T) {
	kit.Rule("inventories", "1-6 inventory announcements of 0-50000 items with arbitrary types and hashes, with repetitions, on one or two peers, any segmentation: the data requests on each connection equal the announcements, in order; non-trivial: an announcement of more than 252 items or two connections")
	kit.Checks(t, 900, 8000, func(rt *rapid.T) {
		n := net3(rt)
		np := rapid.IntRange(1, 2).Draw(rt, "peers")
		type ann struct {
			Peer, Items int
			Seed        uint64
			payload     []byte
		}
		var anns []ann
		nt := np > 1
		for i := rapid.IntRange(1, 6).Draw(rt, "announcements"); i > 0; i-- {
			a := ann{Peer: rapid.IntRange(0, np-1).Draw(rt, "peer"), Items: rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(0, 300), rapid.SampledFrom([]int{252, 253, 254, 1000, 50000})).Draw(rt, "items"), Seed: rapid.Uint64().Draw(rt, "seed")}
			nt = nt || a.Items > 252
			types := []uint32{1, 2, 0x40000001, 0x40000002, 4, 0, ^uint32(0)}
			var xs []kit.Inv
			b := kit.Expand(a.Seed, 32*a.Items+a.Items)
			for j := 0; j < a.Items; j++ {
				x := kit.Inv{types[int(b[32*a.Items+j])%len(types)], [32]byte(b[32*j : 32*j+32])}
				if j > 0 && b[32*a.Items+j] > 240 {
					x.Hash = xs[j-1].Hash
				}
				xs = append(xs, x)
			}
			a.payload = kit.EncodeInv(xs)
			anns = append(anns, a)
		}
		segs := kit.Sizes(rt, "segments")
		big := 0
		for _, a := range anns {
			big += a.Items
		}
		if big > 2000 && len(segs) > 0 {
			segs = []int{4000, 1, 333}
		}
		hs := rapid.Bool().Draw(rt, "handshake")
		desc := map[string]any{"test": "C16", "announcements": fmt.Sprintf("%+v", summary(anns, func(a ann) string { return fmt.Sprintf("%d items on %d", a.Items, a.Peer) })), "segments": segs, "handshake": hs}
		bubble(t, rt, desc, n, kit.NewHeaders(nil), func(e *env) {
			var cs []*kit.Conn
			for i := 0; i < np; i++ {
				c, a := e.conn(i, segs)
				cs = append(cs, c)
				if i == 0 {
					e.start(a)
				} else {
					_ = e.add(a)
				}
				if hs {
					c.Send(kit.Frame(n.Magic, "version", version(kit.SFNodeCF|1, 0)))
				}
			}
			want := make([][][]byte, np)
			for _, a := range anns {
				cs[a.Peer].Send(kit.Frame(n.Magic, "inv", a.payload))
				want[a.Peer] = append(want[a.Peer], a.payload)
			}
			time.Sleep(10 * time.Second)
			synctest.Wait()
			for i, c := range cs {
				e.sameAnswers(nil, "getdata", only(c.Log(), "getdata"), want[i])
			}
		})
		kit.Case("inventories", nt, kit.Key(fmt.Sprint(desc), anns[0].Seed), func() any { return desc })
	})
}

func summary[T any](xs []T, f func(T) string) (out []string) {
	for _, x := range xs {
		out = append(out, f(x))
	}
	return
}
