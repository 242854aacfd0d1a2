package scan

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/vulpemventures/neutrino-elements/verifharness/kit"
	"pgregory.net/rapid"
)

func poolScript(seed uint64) func(int) []byte { return func(i int) []byte { return scriptN(seed, i) } }

func drawWatches(t *rapid.T, w *world, seed uint64, lo, hi int) (out []*watch) {
	plans := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) watchPlan { return drawWatch(t, len(w.headers)) }), lo, hi).Draw(t, "watches")
	for _, p := range plans {
		out = append(out, w.watch(p, poolScript(seed)))
	}
	return out
}

func (w *world) expected(ws []*watch) (n, multi int) {
	for _, x := range ws {
		e := w.expect(x, w.top())
		n += len(e)
		if len(e) > 1 {
			multi++
		}
	}
	return
}

// C40: everything is there from the start.
func TestC40(t *testing.T) {
	kit.Rule("fixed", "a random chain of 1-16 blocks (random network) with transactions paying and spending scripts of a small pool, filters with occasional false positives, and 1-8 random watches (received at a plain or confidential address of 4 script types, or spent outpoints incl. unspent, absent and look-alike ones; any start height 0..top+4, lasting or one-off, duplicate items and clients) given before or after Start; the reports are compared with the model as a multiset; some chains start at great heights, some watches look like those of the chain but for a byte, some transactions carry up to hundreds of inputs and outputs, some cases watch with a crowd of clients, or with up to 2500 watches that match nothing before the others. Non-trivial: at least 2 expected reports")
	kit.Checks(t, 12000, 300000, func(rt *rapid.T) {
		p := drawWorld(rt, 16, 4, true)
		w := build(p, nil)
		ws := drawWatches(rt, w, p.Seed, 1, 8)
		if rapid.IntRange(0, 15).Draw(rt, "crowd") == 0 {
			for i, n := 0, rapid.IntRange(40, 300).Draw(rt, "crowd size"); i < n; i++ {
				c := ws[i%min(len(ws), 8)].plan
				c.Target, c.Start, c.Client = c.Target+i, (c.Start+i)%(len(w.headers)+2), i%3
				ws = append(ws, w.watch(c, poolScript(p.Seed)))
			}
			kit.Class("dozens of watches")
		}
		if rapid.IntRange(0, 23).Draw(rt, "strangers first") == 0 {
			// many watches that nothing matches come before
			k := rapid.OneOf(rapid.IntRange(50, 300), rapid.IntRange(50, 300), rapid.IntRange(300, 2500)).Draw(rt, "strangers")
			strangers := make([]*watch, 0, k+len(ws))
			for i := 0; i < k; i++ {
				strangers = append(strangers, w.watch(watchPlan{Start: i % 2, Persistent: true, Client: i % 3}, func(int) []byte { return scriptN(p.Seed+1_000_000+uint64(i), i%4) }))
			}
			ws = append(strangers, ws...)
			kit.Class("hundreds of watches")
		}
		before := rapid.IntRange(0, len(ws)).Draw(rt, "before start")
		inBubble(t, rt, func() *env {
			e := newEnv(w, w.top())
			for i, x := range ws {
				if i == before {
					e.start()
				}
				e.add(x)
			}
			if before == len(ws) {
				e.start()
			}
			time.Sleep(10 * time.Second)
			e.compare(ws, 0, time.Time{})
			e.finish()
			return e
		})
		n, multi := w.expected(ws)
		if multi > 0 {
			kit.Class("a watch with several reports")
		}
		if w.base > 0 {
			kit.Class("a chain of great heights")
		}
		if w.extra > 0 {
			kit.Class("filter with false positives")
		}
		kit.Case("fixed", n >= 2, kit.Key(fmt.Sprint(p), fmt.Sprint(plans(ws))), func() any {
			return map[string]any{"blocks": len(p.Blocks) - 1, "transactions": len(w.txs), "watches": len(ws), "last watches": plans(ws[max(0, len(ws)-10):]), "expected reports": n}
		})
	})
}

func plans(ws []*watch) (out []watchPlan) {
	for _, x := range ws {
		out = append(out, x.plan)
	}
	return
}

// op is a step of a history.
type op struct {
	Op string
	N  int
	D  time.Duration
}

func (o op) String() string {
	switch o.Op {
	case "sleep":
		return fmt.Sprint("sleep ", o.D)
	case "watch", "watch together", "grow":
		return fmt.Sprint(o.Op, " ", o.N)
	}
	if o.D > 0 {
		return fmt.Sprint(o.Op, " ", o.D)
	}
	return o.Op
}

func drawSleep(t *rapid.T) op {
	return op{"sleep", 0, rapid.SampledFrom([]time.Duration{0, 1, 100 * time.Millisecond, 499 * time.Millisecond, 500 * time.Millisecond, 501 * time.Millisecond, 2 * time.Second, 7 * time.Second}).Draw(t, "sleep")}
}

// play runs one step; next tells which watch comes next.
func (e *env) play(o op, ws []*watch, next *int) {
	switch o.Op {
	case "sleep":
		if o.D == 0 {
			synctest.Wait()
		} else {
			time.Sleep(o.D)
		}
	case "watch":
		for i := 0; i < o.N && *next < len(ws); i++ {
			e.add(ws[*next])
			*next++
		}
	case "watch together":
		var wg sync.WaitGroup
		for i := 0; i < o.N && *next < len(ws); i++ {
			x := ws[*next]
			*next++
			wg.Add(1)
			go func() { defer wg.Done(); e.add(x) }()
		}
		wg.Wait()
	case "grow":
		e.mu.Lock()
		tip := e.tip
		e.mu.Unlock()
		e.grow(tip+uint32(o.N), 0, o.D)
	case "pause":
		e.pause(true)
	case "resume":
		e.pause(false)
	}
}

func drawHistory(t *rapid.T, n int, kinds []string) (ops []op) {
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) op {
		switch k := rapid.SampledFrom(kinds).Draw(t, "op"); k {
		case "sleep":
			return drawSleep(t)
		case "watch", "watch together":
			return op{k, rapid.SampledFrom([]int{1, 2, 3, 1, 2, 3, 40}).Draw(t, "n"), 0}
		case "grow":
			return op{k, rapid.IntRange(1, 4).Draw(t, "n"), 0}
		default:
			return op{k, 0, 0}
		}
	}), 1, n).Draw(t, "history")
}

func c41(t *testing.T, name string, n, deep int) {
	kit.Checks(t, n, deep, func(rt *rapid.T) {
		p := drawWorld(rt, 16, 3, true)
		w := build(p, nil)
		ws := drawWatches(rt, w, p.Seed, 1, 8)
		tip := w.at(rapid.IntRange(0, len(w.headers)).Draw(rt, "first tip"))
		ops := drawHistory(rt, 14, []string{"sleep", "watch", "watch together", "grow", "sleep"})
		startAt := rapid.IntRange(0, len(ops)).Draw(rt, "start after")
		dark := max(0, rapid.IntRange(-len(w.headers), len(w.headers)).Draw(rt, "dark block"))
		darkKind := rapid.SampledFrom([]byte("bfh")).Draw(rt, "dark kind")
		inBubble(t, rt, func() *env {
			e := newEnv(w, tip)
			if dark > 0 {
				e.darkHeight, e.dark = w.at(dark), darkKind
				e.litAt = time.Now().Add(1000 * time.Hour)
			}
			next := 0
			var started time.Time
			for i, o := range ops {
				if i == startAt {
					e.start()
					started = time.Now()
				}
				e.play(o, ws, &next)
			}
			if startAt == len(ops) {
				e.start()
				started = time.Now()
			}
			e.play(op{Op: "watch", N: len(ws)}, ws, &next)
			e.play(op{Op: "grow", N: len(w.headers)}, ws, &next)
			time.Sleep(10 * time.Second)
			if dark > 0 {
				e.mu.Lock()
				e.dark, e.litAt = 0, time.Now()
				e.mu.Unlock()
				time.Sleep(10 * time.Second)
				kit.Class("a block that cannot be had for long")
			}
			e.compare(ws, 3*time.Second, started)
			e.finish()
			return e
		})
		m, _ := w.expected(ws)
		far := false
		for _, x := range ws {
			far = far || x.start > tip+1
		}
		if far {
			kit.Class("a watch starting above the tip")
		}
		kit.Case(name, m >= 2 && len(ops) >= 3, kit.Key(fmt.Sprint(p, tip, ops, startAt, dark, darkKind), fmt.Sprint(plans(ws))), func() any {
			return map[string]any{"blocks": len(p.Blocks) - 1, "first tip": tip, "history": fmt.Sprint(ops), "watches": plans(ws), "start after step": startAt, "dark block": dark, "of it": string(darkKind), "expected reports": m}
		})
	})
}

func TestC41(t *testing.T) {
	kit.Rule("history", "as in C40, but the watches are added (one by one or from concurrent goroutines) while the chain grows in random steps with random pauses between them, Start somewhere in between; every report must come exactly once and within 3s (fake clock) of its watch, its block and Start being there; in some cases one block, filter or header stays dark, and the watches above it must be served as promptly. Non-trivial: at least 2 expected reports and 3 steps")
	c41(t, "history", 8000, 300000)
}

func TestC41Concurrent(t *testing.T) {
	kit.Rule("race", "the histories of C41 under the race detector")
	c41(t, "race", 1000, 30000)
}

// C42: the stores and the block source fail.
type fault struct {
	At, Len int
	How     string
}

func TestC42(t *testing.T) {
	kit.Rule("every call", "a random history of watches and chain growth is run undisturbed, counting the accesses to the header store, filter store and block source; then it is run again with a fault at the 1st, 2nd, ... access (all of them up to 40, or 25 spread over the run), each fault lasting 1-4 accesses: an error, and for blocks also not-found or a 4s delay. The reports must be those of the undisturbed run. Non-trivial: the fault struck and at least 1 report was expected")
	kit.Checks(t, 600, 12000, func(rt *rapid.T) {
		p := drawWorld(rt, 10, 3, true)
		w := build(p, nil)
		ws := drawWatches(rt, w, p.Seed, 1, 5)
		tip := w.at(rapid.IntRange(0, len(w.headers)).Draw(rt, "first tip"))
		ops := drawHistory(rt, 6, []string{"sleep", "watch", "grow"})
		one := func(f *fault) (total int, struck bool) {
			inBubble(t, rt, func() *env {
				e := newEnv(w, tip)
				if f != nil {
					e.calls.fail = func(i int, kind byte) string {
						if i < f.At || i >= f.At+f.Len {
							return ""
						}
						struck = true
						return f.How
					}
				}
				next := 0
				e.start()
				for _, o := range ops {
					e.play(o, ws, &next)
				}
				e.play(op{Op: "watch", N: len(ws)}, ws, &next)
				e.play(op{Op: "grow", N: len(w.headers)}, ws, &next)
				time.Sleep(25 * time.Second)
				e.calls.mu.Lock()
				total = e.calls.n
				e.calls.mu.Unlock()
				// the scanner keeps serving
				e.compare(ws, 0, time.Time{})
				if f != nil {
					if p := e.problems(); p != "" {
						e.failf("(with the fault %q at access %d, for %d)", f.How, f.At, f.Len)
					}
				}
				e.finish()
				return e
			})
			return
		}
		one(nil)
		// the accesses that matter end with the last report; idle polling follows
		n, _ := w.expected(ws)
		span := 12 + 6*len(ops) + 4*len(w.headers)
		step := max(1, span/25)
		if span <= 40 {
			step = 1
		}
		first := rapid.IntRange(0, step-1).Draw(rt, "first fault")
		length := rapid.IntRange(1, 4).Draw(rt, "fault length")
		how := rapid.SampledFrom([]string{"error", "404", "slow", "error"}).Draw(rt, "fault")
		for at := first; at < span; at += step {
			_, struck := one(&fault{at, length, how})
			kit.Case("every call", struck && n > 0, kit.Key(fmt.Sprint(p, tip, ops, at, length, how), fmt.Sprint(plans(ws))), func() any {
				return map[string]any{"blocks": len(p.Blocks) - 1, "first tip": tip, "history": fmt.Sprint(ops), "watches": plans(ws), "fault": how, "at access": at, "for": length, "expected reports": n}
			})
		}
	})
}

func TestC42Weather(t *testing.T) {
	kit.Rule("weather", "random histories with many faults at once: each access fails with a random pattern (up to 5 in a row), filters and blocks of new headers appear up to 3s after the header, some stored filters are undecodable or never come, blocks answer late, sources stay away for minutes, blocks are gone for good or absent until the end; once it is over the reports must be complete, exactly once, and a watch added after the faults is served. Non-trivial: at least 3 faults struck and 1 report was expected")
	kit.Checks(t, 4500, 80000, func(rt *rapid.T) {
		p := drawWorld(rt, 12, 3, true)
		w := build(p, nil)
		ws := drawWatches(rt, w, p.Seed, 2, 7)
		tip := w.at(rapid.IntRange(0, len(w.headers)).Draw(rt, "first tip"))
		ops := drawHistory(rt, 10, []string{"sleep", "watch", "grow", "pause", "resume"})
		pattern := rapid.SliceOfN(rapid.SampledFrom([]string{"", "", "error", "404", "slow"}), 1, 120).Draw(rt, "faults")
		for i := 5; i < len(pattern); i++ { // never more than 5 in a row
			ok := false
			for _, f := range pattern[i-5 : i] {
				ok = ok || f == ""
			}
			if !ok {
				pattern[i] = ""
			}
		}
		filterLag := time.Duration(rapid.IntRange(0, 3000).Draw(rt, "filter lag ms")) * time.Millisecond
		blockLag := time.Duration(rapid.IntRange(0, 3000).Draw(rt, "block lag ms")) * time.Millisecond
		broken := rapid.SliceOfN(rapid.IntRange(1, len(w.headers)), 0, 3).Draw(rt, "broken filters")
		missing := rapid.SliceOfN(rapid.IntRange(1, len(w.headers)), 0, 3).Draw(rt, "missing filters")
		slow := time.Duration(rapid.IntRange(0, 2).Draw(rt, "slow consumer")) * 300 * time.Millisecond
		outage := rapid.SampledFrom([]string{"", "", "h", "f", "b"}).Draw(rt, "long outage")
		outageAt := rapid.IntRange(0, len(ops)).Draw(rt, "outage after")
		for i := range pattern {
			if outage != "" && pattern[i] == "404" {
				pattern[i] = "error" // a block that is not found twice, with an outage in between, may count as not found for all of it
			}
		}
		flap := rapid.IntRange(0, 2).Draw(rt, "absent at the end") == 0
		gone := rapid.SliceOfN(rapid.IntRange(1, len(w.headers)), 0, 1).Draw(rt, "gone blocks")
		w.gone = map[uint32]bool{}
		for _, g := range gone {
			w.gone[w.at(g)] = true
		}
		struck := 0
		saved := append([][]byte(nil), w.filters...)
		for _, h := range broken {
			w.filters[h] = [][]byte{{}, {0xff}, {0xfd, 0x01}}[(h+len(ops))%3]
		}
		for _, h := range missing {
			w.filters[h] = nil
		}
		inBubble(t, rt, func() *env {
			e := newEnv(w, tip)
			e.slow = slow
			var out atomic.Bool
			e.calls.fail = func(i int, kind byte) string {
				if out.Load() && outage == string(kind) {
					struck++
					return "error"
				}
				if i >= len(pattern) || pattern[i] == "" {
					return ""
				}
				struck++
				return pattern[i]
			}
			next := 0
			e.start()
			for i, o := range ops {
				if i == outageAt && outage != "" {
					out.Store(true)
					time.AfterFunc(75*time.Second, func() { out.Store(false) })
				}
				if o.Op == "grow" {
					e.mu.Lock()
					to := e.tip + uint32(o.N)
					e.mu.Unlock()
					e.grow(to, filterLag, blockLag)
					continue
				}
				e.play(o, ws, &next)
			}
			e.play(op{Op: "resume"}, ws, &next)
			e.play(op{Op: "watch", N: len(ws) - 1 - next}, ws, &next)
			e.grow(w.top(), filterLag, blockLag)
			// every second poll may fail in several ways, and a slow consumer needs its time
			time.Sleep(500 * time.Second)
			if flap {
				// blocks that were there are not to be found for a moment
				e.setAbsent(true)
				time.AfterFunc(4*time.Second, func() { e.setAbsent(false) })
			}
			e.play(op{Op: "watch", N: len(ws)}, ws, &next)
			time.Sleep(60 * time.Second)
			e.compare(ws, 0, time.Time{})
			e.finish()
			return e
		})
		w.filters = saved
		n, _ := w.expected(ws)
		kit.Case("weather", struck >= 3 && n > 0, kit.Key(fmt.Sprint(p, tip, ops, pattern, filterLag, blockLag, broken, missing, outage, outageAt, flap, gone), fmt.Sprint(plans(ws))), func() any {
			return map[string]any{"blocks": len(p.Blocks) - 1, "first tip": tip, "history": fmt.Sprint(ops), "watches": plans(ws), "faults": struck, "filter lag": filterLag.String(), "block lag": blockLag.String(), "undecodable filters": broken, "missing filters": missing, "long outage": outage, "gone blocks": gone, "absent at the end": flap, "expected reports": n}
		})
	})
}

// C44: Stop and Start anywhere.
func c44(t *testing.T, name string, n, deep int) {
	kit.Checks(t, n, deep, func(rt *rapid.T) {
		p := drawWorld(rt, 12, 3, true)
		w := build(p, nil)
		ws := drawWatches(rt, w, p.Seed, 1, 7)
		if rapid.IntRange(0, 7).Draw(rt, "crowd") == 0 {
			// many reports are due at once
			for i, n := 0, rapid.IntRange(4, 30).Draw(rt, "crowd size"); i < n; i++ {
				c := ws[i%min(len(ws), 7)].plan
				c.Client = i % 3
				ws = append(ws, w.watch(c, poolScript(p.Seed)))
			}
		}
		tip := w.at(rapid.IntRange(0, len(w.headers)).Draw(rt, "first tip"))
		ops := drawHistory(rt, 16, []string{"sleep", "watch", "grow", "pause", "resume", "stop", "start", "toggle", "start again", "hang", "unhang", "stop", "start", "away over a stop", "stop while resuming"})
		drag := rapid.SampledFrom([]time.Duration{0, 0, 40 * time.Millisecond, 300 * time.Millisecond}).Draw(rt, "drag")
		slow := time.Duration(rapid.IntRange(0, 3).Draw(rt, "slow consumer")) * 400 * time.Millisecond
		if rapid.IntRange(0, 4).Draw(rt, "started first") > 0 {
			ops = append([]op{{Op: "start"}}, ops...)
		}
		stops, delivering, away := 0, 0, false
		inBubble(t, rt, func() *env {
			e := newEnv(w, tip)
			e.slow, e.drag = slow, drag
			next := 0
			running := func() bool { e.mu.Lock(); defer e.mu.Unlock(); return e.started }
			for _, o := range ops {
				if e.problems() != "" {
					break
				}
				switch o.Op {
				case "stop", "toggle", "start":
					if running() && o.Op != "start" {
						stops++
						e.mu.Lock()
						if e.paused || e.slow > 0 || e.hang != nil {
							delivering++
						}
						e.mu.Unlock()
						e.stop()
					} else if !running() && o.Op != "stop" {
						e.start()
					}
				case "stop while resuming":
					// the consumer goes on reading at the moment of the stop
					if running() {
						stops++
						delivering++
						e.pause(true)
						time.Sleep(3 * time.Second)
						resumed := make(chan struct{})
						go func() { e.pause(false); close(resumed) }()
						e.stop()
						<-resumed
					}
				case "start again":
					if running() {
						e.prompt("Start", func() {
							if _, err := e.svc.Start(); err == nil {
								e.failf("Start of a running scanner succeeded")
							}
						})
					}
				case "hang":
					e.mu.Lock()
					if e.hang == nil {
						e.hang = make(chan struct{})
					}
					e.mu.Unlock()
				case "unhang":
					e.unhang()
				case "away over a stop":
					e.mu.Lock()
					calm := e.started && !e.paused && e.slow == 0 && e.hang == nil && !away
					e.mu.Unlock()
					if !calm {
						continue
					}
					away = true
					e.setAbsent(true)
					time.Sleep(2 * time.Second)
					e.stop()
					stops++
					time.Sleep(100 * time.Second)
					if e.problems() == "" {
						e.start()
					}
					time.Sleep(2 * time.Second)
					e.setAbsent(false)
				default:
					e.play(o, ws, &next)
				}
			}
			if e.problems() == "" {
				e.unhang()
				e.mu.Lock()
				e.slow, e.drag = 0, 0
				e.mu.Unlock()
				e.play(op{Op: "resume"}, ws, &next)
				if !running() {
					e.start()
				}
				e.play(op{Op: "watch", N: len(ws)}, ws, &next)
				e.play(op{Op: "grow", N: len(w.headers)}, ws, &next)
				time.Sleep(20 * time.Second)
				e.compare(ws, 0, time.Time{})
			}
			e.finish()
			return e
		})
		m, _ := w.expected(ws)
		if away {
			kit.Class("blocks not to be found before and after a stop")
		}
		if drag > 0 {
			kit.Class("slow stores")
		}
		if delivering > 0 {
			kit.Class("stopped with a paused or slow consumer or a hanging block source")
		}
		kit.Case(name, m >= 1 && stops > 0, kit.Key(fmt.Sprint(p, tip, ops, slow, drag), fmt.Sprint(plans(ws))), func() any {
			return map[string]any{"blocks": len(p.Blocks) - 1, "first tip": tip, "history": fmt.Sprint(ops), "watches": plans(ws), "stops": stops, "expected reports": m}
		})
	})
}

func (e *env) setAbsent(b bool) { e.mu.Lock(); e.absent = b; e.mu.Unlock() }

func (e *env) unhang() {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.hang != nil {
		close(e.hang)
		e.hang = nil
	}
}

func TestC44(t *testing.T) {
	kit.Rule("restarts", "random histories of watches, growth, pauses, Stop, Start and Start-while-running, with a consumer that is fast, slow, not reading or reading again at the moment of a stop and a block source or a store that may hang, also over a stop; Stop must return within 2s (fake clock), nothing is read or delivered after it, and the reports of all sessions together are those of the model, each once. Non-trivial: at least one Stop before the end and one expected report")
	c44(t, "restarts", 8000, 300000)
}

func TestC44Concurrent(t *testing.T) {
	kit.Rule("race", "the histories of C44 under the race detector")
	c44(t, "race", 1000, 30000)
}
