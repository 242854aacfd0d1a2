package nodep

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
	"unsafe"

	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/pkg/node"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
	"github.com/vulpemventures/neutrino-elements/verifharness/kit"
	"pgregory.net/rapid"
)

type mpOp struct {
	Many int    // subscribers at once
	Op   string // add, block, subscribe, wait
	Txs  []int
	Ms   int
}

type subscriber struct {
	from   map[string]int // events expected: "u0" -> 1
	mu     sync.Mutex
	got    map[string]int
	closed bool
}

// mpCase is one mempool under test with its model.
type mpCase struct {
	t      *testing.T
	mu     sync.Mutex
	errs   []string
	mp     *node.MemPool
	txs    []*transaction.Transaction
	ids    []string
	byID   map[string]int
	subs   []*subscriber
	in     map[int]bool // model: in the pool
	have   map[int]bool // ever received
	blocks int
}

func (c *mpCase) failf(f string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.errs) < 5 {
		c.errs = append(c.errs, fmt.Sprintf(f, a...))
	}
}

func (c *mpCase) failed() bool { c.mu.Lock(); defer c.mu.Unlock(); return len(c.errs) > 0 }

func newMP(n int) *mpCase {
	mp := node.NewMemPool()
	c := &mpCase{mp: &mp, byID: map[string]int{}, in: map[int]bool{}, have: map[int]bool{}}
	for i := 0; i < n; i++ {
		tx := kit.TxN(uint64(1000 + i))
		c.txs = append(c.txs, tx)
		c.ids = append(c.ids, kit.TxIDStr(tx))
		c.byID[c.ids[i]] = i
	}
	c.mp.Start()
	return c
}

// tx is the i-th transaction, its witness different every time.
func (c *mpCase) tx(i, variant int) transaction.Transaction {
	x := *c.txs[i]
	if variant%3 != 0 {
		x.Flag = 1
		in := *x.Inputs[0]
		in.Witness = transaction.TxWitness{[]byte{byte(variant)}, {1, 2}}
		x.Inputs = []*transaction.TxInput{&in}
	}
	return x
}

func (c *mpCase) add(i, variant int) { c.mp.AddTx(protocol.MsgTx{Transaction: c.tx(i, variant)}) }

func (c *mpCase) block(ids []int, variant int) {
	h := kit.Hdr(9, uint32(variant+1), [32]byte{byte(variant)})
	txs := []*transaction.Transaction{kit.TxN(uint64(900_000 + variant))}
	for _, i := range ids {
		x := c.tx(i, variant+1)
		txs = append(txs, &x)
	}
	c.mp.CheckTxConfirmed(*kit.Block(h, txs...))
}

func (c *mpCase) subscribe(delay time.Duration) {
	s := &subscriber{from: map[string]int{}, got: map[string]int{}}
	ch := c.mp.AddSubscriber(fmt.Sprint("s", len(c.subs)))
	c.subs = append(c.subs, s)
	go func() {
		for ev := range ch {
			k := "?"
			if ev != nil {
				k = map[node.TxEventType]string{node.TxUnConfirmed: "unconfirmed ", node.TxConfirmed: "confirmed "}[ev.Type()]
				if i, ok := c.byID[ev.TxID()]; ok {
					k += fmt.Sprint(i)
				} else {
					k += "unknown " + ev.TxID()
				}
			}
			s.mu.Lock()
			s.got[k]++
			s.mu.Unlock()
			time.Sleep(delay)
		}
		s.mu.Lock()
		s.closed = true
		s.mu.Unlock()
	}()
}

func (c *mpCase) expect(k string) {
	for _, s := range c.subs {
		s.from[k]++
	}
}

func (c *mpCase) checkPool(when string) {
	got := map[int]bool{}
	for id, tx := range c.mp.GetMemPool() {
		i, ok := c.byID[id]
		if !ok {
			c.failf("%s: the mempool holds the unknown transaction %s", when, id)
		} else if kit.TxIDStr(&tx) != id {
			c.failf("%s: the mempool holds transaction %s under the ID %s", when, kit.TxIDStr(&tx), id)
		}
		got[i] = true
	}
	for i := range c.in {
		if c.in[i] && !got[i] {
			c.failf("%s: transaction %d was received and not confirmed, but is not in the mempool", when, i)
		}
	}
	for i := range got {
		if !c.in[i] {
			c.failf("%s: transaction %d is in the mempool though it was confirmed or never received", when, i)
		}
	}
}

func (c *mpCase) checkEvents() {
	for i, s := range c.subs {
		s.mu.Lock()
		var diff []string
		for k, n := range s.from {
			if s.got[k] != n {
				diff = append(diff, fmt.Sprintf("%d times %q instead of %d", s.got[k], k, n))
			}
		}
		for k, n := range s.got {
			if _, ok := s.from[k]; !ok {
				diff = append(diff, fmt.Sprintf("%d times %q instead of none", n, k))
			}
		}
		s.mu.Unlock()
		sort.Strings(diff)
		if len(diff) > 0 {
			c.failf("subscriber %d was told %s", i, strings.Join(diff, ", "))
		}
	}
}

func runMP(t *testing.T, rt *rapid.T, desc any, n int, f func(c *mpCase)) {
	kit.Journal(desc)
	var p atomic.Pointer[mpCase]
	var over atomic.Bool
	leaked, stuck := kit.Bubble(t, func() {
		c := newMP(n)
		p.Store(c)
		f(c)
		over.Store(true)
	})
	if leaked != "" && !over.Load() {
		rt.Fatalf("a call of the mempool never returns: %s", leaked[:min(len(leaked), 4000)])
	}
	if c := p.Load(); c != nil && c.failed() {
		rt.Fatalf("%s", c.errs[0])
	}
	if stuck != "" {
		stuckCase(rt, stuck)
	}
}

func TestC19(t *testing.T) {
	t.Run("histories", func(t *testing.T) {
		kit.Rule("histories", "1-30 steps over 1-8 transactions (with differing witnesses): receive one or several, also again while it is in the pool, block with any of them plus unknown ones (twice in one block too), subscribe with a reading delay of 0-10 s, wait; receptions and blocks of one step run concurrently: after each step the pool equals the model, at the end each subscriber has got exactly its events; non-trivial: a subscriber saw a confirmation, or a step had concurrent calls")
		kit.Checks(t, 1600, 20000, func(rt *rapid.T) {
			n := rapid.IntRange(1, 8).Draw(rt, "transactions")
			var ops []mpOp
			conc := false
			for i := rapid.IntRange(1, 30).Draw(rt, "steps"); i > 0; i-- {
				o := mpOp{Op: rapid.SampledFrom([]string{"add", "add", "add", "block", "block", "subscribe", "wait", "both"}).Draw(rt, "op")}
				switch o.Op {
				case "add", "block", "both":
					o.Txs = rapid.SliceOfN(rapid.IntRange(0, n-1), 0, 5).Draw(rt, "txs")
					conc = conc || len(o.Txs) > 1
				case "subscribe":
					o.Ms = rapid.SampledFrom([]int{0, 0, 1, 10000}).Draw(rt, "delay")
					if rapid.IntRange(0, 39).Draw(rt, "crowd") == 0 {
						o.Many = rapid.IntRange(5, 70).Draw(rt, "many")
					}
				case "wait":
					o.Ms = rapid.SampledFrom([]int{0, 1, 5000, 60000}).Draw(rt, "for")
				}
				ops = append(ops, o)
			}
			confirmed := false
			desc := map[string]any{"test": "C19 histories", "transactions": n, "ops": ops}
			runMP(t, rt, desc, n, func(c *mpCase) {
				gone := map[int]bool{} // confirmed once: not received again
				for k, o := range ops {
					when := fmt.Sprintf("after step %d %+v", k, o)
					var wg sync.WaitGroup
					switch o.Op {
					case "wait":
						time.Sleep(time.Duration(o.Ms) * time.Millisecond)
					case "subscribe":
						for i := 0; i < max(1, o.Many) && len(c.subs) < max(4, o.Many); i++ {
							c.subscribe(time.Duration(o.Ms) * time.Millisecond)
						}
					case "add":
						for v, i := range o.Txs {
							if gone[i] {
								continue
							}
							if !c.in[i] {
								c.in[i] = true
								c.expect(fmt.Sprint("unconfirmed ", i))
							}
							wg.Add(1)
							go func() { defer wg.Done(); c.add(i, v+k) }()
						}
					case "block":
						for _, i := range o.Txs {
							if c.in[i] {
								c.in[i] = false
								gone[i] = true
								confirmed = confirmed || len(c.subs) > 0
								c.expect(fmt.Sprint("confirmed ", i))
							}
						}
						c.block(o.Txs, k)
					case "both":
						// new ones are received while a block confirms those of the pool
						var conf []int
						for _, i := range o.Txs {
							if c.in[i] {
								conf = append(conf, i)
							}
						}
						for _, i := range conf {
							if c.in[i] {
								c.in[i], gone[i] = false, true
								c.expect(fmt.Sprint("confirmed ", i))
							}
						}
						wg.Add(1)
						go func() { defer wg.Done(); c.block(conf, k) }()
						for v, i := range o.Txs {
							if !gone[i] {
								if !c.in[i] {
									c.in[i] = true
									c.expect(fmt.Sprint("unconfirmed ", i))
								}
								wg.Add(1)
								go func() { defer wg.Done(); c.add(i, v) }()
							}
						}
					}
					wg.Wait()
					synctest.Wait()
					c.checkPool(when)
					if c.failed() {
						break
					}
				}
				time.Sleep(time.Hour)
				synctest.Wait()
				c.checkEvents()
				c.mp.Stop()
				time.Sleep(time.Minute)
			})
			kit.Case("histories", confirmed || conc, kit.Key(fmt.Sprint(ops), n), func() any { return desc })
		})
	})
	t.Run("node", func(t *testing.T) {
		kit.Rule("node", "a running node with one or two honest peers, over a partly stored chain of up to 12 blocks: the peers send 1-8 transactions, and blocks of the chain holding some of them, each announced by its header, by the block or both, sent by one or both peers, once or again, in up to 25 steps: after each step the node's mempool holds exactly the transactions received and not in a later block, and subscribers got one event per transaction received and confirmed; non-trivial: a block confirmed a transaction after its header was stored, or two peers sent the same")
		kit.Checks(t, 800, 8000, func(rt *rapid.T) {
			net := net3(rt)
			n := rapid.IntRange(1, 8).Draw(rt, "transactions")
			length := rapid.IntRange(1, 12).Draw(rt, "length")
			stored := rapid.IntRange(0, length-1).Draw(rt, "stored")
			np := rapid.IntRange(1, 2).Draw(rt, "peers")
			bodies := make([][]int, length+1)
			for i := 1; i <= length; i++ {
				bodies[i] = rapid.SliceOfNDistinct(rapid.IntRange(0, n-1), 0, 3, rapid.ID[int]).Draw(rt, "block transactions")
			}
			type op struct {
				Op    string // tx, header, block, old block, subscribe
				Peers []int
				Txs   []int
				Back  int
			}
			var ops []op
			for i := rapid.IntRange(1, 25).Draw(rt, "steps"); i > 0; i-- {
				o := op{Op: rapid.SampledFrom([]string{"tx", "tx", "header", "block", "block", "old block", "subscribe"}).Draw(rt, "op"), Peers: []int{rapid.IntRange(0, np-1).Draw(rt, "peer")}}
				if np > 1 && rapid.IntRange(0, 3).Draw(rt, "both peers") == 0 {
					o.Peers = []int{0, 1}
				}
				switch o.Op {
				case "tx":
					o.Txs = rapid.SliceOfN(rapid.IntRange(0, n-1), 1, 4).Draw(rt, "txs")
				case "old block":
					o.Back = rapid.IntRange(0, 3).Draw(rt, "below the tip")
				}
				ops = append(ops, o)
			}
			full := kit.Chain(uint64(length)+71, net.Genesis, length)
			hdrs := kit.NewHeaders(full[:stored])
			desc := map[string]any{"test": "C19 node", "network": net.Name, "length": length, "stored": stored, "peers": np, "bodies": bodies, "ops": ops}
			nt, found := false, true
			bubble(t, rt, desc, net, hdrs, func(e *env) {
				mp := mempoolOf(e.svc)
				if mp == nil {
					found = false
					return
				}
				c := newMP(n)
				c.mp = mp
				var ps []*kit.Honest
				for i := 0; i < np; i++ {
					conn, a := e.conn(i, nil)
					p := kit.NewHonest(conn, net, full[:stored])
					go p.Run()
					ps = append(ps, p)
					if i == 0 {
						e.start(a)
					} else if err := e.add(a); err != nil {
						e.failf("AddOutboundPeer: %v", err)
					}
					synctest.Wait()
				}
				settle := func() {
					synctest.Wait()
					time.Sleep(time.Millisecond)
					synctest.Wait()
				}
				block := func(h int) []byte {
					txs := []*transaction.Transaction{kit.TxN(uint64(800_000 + h))}
					for _, i := range bodies[h] {
						x := c.tx(i, h)
						txs = append(txs, &x)
					}
					return kit.Frame(net.Magic, "block", kit.EncodeBlock(kit.Block(full[h-1], txs...)))
				}
				// transactions of blocks that were sent are not received anymore
				gone := map[int]bool{}
				tip := stored
				deliver := func(o op, h int) {
					for _, i := range bodies[h] {
						gone[i] = true
						if c.in[i] {
							c.in[i] = false
							c.expect(fmt.Sprint("confirmed ", i))
							nt = nt || h <= tip || len(o.Peers) > 1
						}
					}
					for _, p := range o.Peers {
						ps[p].C.Send(block(h))
					}
				}
				for k, o := range ops {
					when := fmt.Sprintf("after step %d %+v", k, o)
					switch o.Op {
					case "subscribe":
						if len(c.subs) < 3 {
							c.subscribe(0)
						}
					case "tx":
						for v, i := range o.Txs {
							if gone[i] {
								continue
							}
							if !c.in[i] {
								c.in[i] = true
								c.expect(fmt.Sprint("unconfirmed ", i))
							}
							x := c.tx(i, v+k)
							for _, p := range o.Peers {
								ps[p].C.Send(kit.Frame(net.Magic, "tx", kit.TxBytes(&x)))
							}
						}
					case "header":
						if tip < length {
							for _, p := range ps {
								p.Grow(full[tip])
							}
							tip++
							for _, p := range o.Peers {
								ps[p].AnnounceHeaders(1)
							}
						}
					case "block":
						if tip < length {
							for _, p := range ps {
								p.Grow(full[tip])
							}
							deliver(o, tip+1)
							tip++
						}
					case "old block":
						if h := tip - o.Back; h > 0 {
							deliver(o, h)
						}
					}
					settle()
					c.checkPool(when)
					if c.failed() {
						break
					}
				}
				time.Sleep(time.Minute)
				synctest.Wait()
				c.checkEvents()
				for _, f := range c.errs {
					e.failf("%s", f)
				}
				for _, p := range ps {
					p.Stop()
				}
			})
			if found {
				kit.Case("node", nt, kit.Key(fmt.Sprint(desc)), func() any { return desc })
			}
		})
	})
	t.Run("races", func(t *testing.T) {
		kit.Rule("races", "2-8 concurrent callers receive, confirm (the same transactions too), list and subscribe, with slow and idle readers, while the pool is or is not stopped at an arbitrary point among them, and go on calling afterwards: nothing crashes, every call returns, and without a stop each transaction was announced once and is either in the pool or was confirmed once; non-trivial: a stop, or a transaction received and confirmed concurrently")
		kit.Checks(t, 1600, 20000, func(rt *rapid.T) {
			n := rapid.IntRange(1, 6).Draw(rt, "transactions")
			callers := rapid.IntRange(2, 8).Draw(rt, "callers")
			var plans [][]mpOp
			adders := map[int]int{}
			clash := false
			for i := 0; i < callers; i++ {
				var plan []mpOp
				for j := rapid.IntRange(1, 6).Draw(rt, "calls"); j > 0; j-- {
					o := mpOp{Op: rapid.SampledFrom([]string{"add", "add", "block", "list", "subscribe"}).Draw(rt, "op"), Ms: rapid.SampledFrom([]int{0, 0, 0, 1, 20}).Draw(rt, "after")}
					if o.Op == "add" || o.Op == "block" {
						o.Txs = rapid.SliceOfN(rapid.IntRange(0, n-1), 1, 3).Draw(rt, "txs")
					}
					if o.Op == "add" {
						var mine []int
						for _, x := range o.Txs {
							if _, ok := adders[x]; !ok {
								adders[x] = i
								mine = append(mine, x)
							}
						}
						o.Txs = mine
					}
					if o.Op == "block" {
						for _, x := range o.Txs {
							_, ok := adders[x]
							clash = clash || ok
						}
					}
					plan = append(plan, o)
				}
				plans = append(plans, plan)
			}
			stop := rapid.Bool().Draw(rt, "stop")
			stopMs := rapid.SampledFrom([]int{0, 0, 1, 2, 21}).Draw(rt, "stop after")
			idle := rapid.Bool().Draw(rt, "idle reader")
			readers := rapid.IntRange(0, 3).Draw(rt, "readers")
			desc := map[string]any{"test": "C19 races", "plans": plans, "stop": stop, "stop after": stopMs, "idle": idle, "readers": readers}
			runMP(t, rt, desc, n, func(c *mpCase) {
				if idle {
					c.mp.AddSubscriber("idle")
				}
				for i := 0; i < readers; i++ {
					c.subscribe(time.Duration(i) * 3 * time.Millisecond)
				}
				var mu sync.Mutex
				returned, calls := 0, 0
				call := func(f func()) {
					mu.Lock()
					calls++
					mu.Unlock()
					f()
					mu.Lock()
					returned++
					mu.Unlock()
				}
				for k, plan := range plans {
					go func() {
						for _, o := range plan {
							if o.Ms > 0 {
								time.Sleep(time.Duration(o.Ms) * time.Millisecond)
							}
							switch o.Op {
							case "add":
								for _, x := range o.Txs {
									call(func() { c.add(x, k) })
								}
							case "block":
								call(func() { c.block(o.Txs, k) })
							case "list":
								call(func() { c.mp.GetMemPool() })
							case "subscribe":
								call(func() {
									ch := c.mp.AddSubscriber(fmt.Sprint("late", k))
									go func() {
										for range ch {
										}
									}()
								})
							}
						}
					}()
				}
				if stop {
					go func() {
						time.Sleep(time.Duration(stopMs) * time.Millisecond)
						call(func() { c.mp.Stop() })
					}()
				}
				time.Sleep(time.Hour)
				synctest.Wait()
				if returned != calls {
					c.failf("%d of %d calls never returned (stopped: %v)", calls-returned, calls, stop)
				}
				if stop {
					return
				}
				pool := c.mp.GetMemPool()
				for i := 0; i < n; i++ {
					_, in := pool[c.ids[i]]
					if _, ok := adders[i]; !ok {
						if in {
							c.failf("transaction %d is in the mempool though it was never received", i)
						}
						continue
					}
					c.expect(fmt.Sprint("unconfirmed ", i))
					inBlock := false
					for _, p := range plans {
						for _, o := range p {
							for _, x := range o.Txs {
								inBlock = inBlock || o.Op == "block" && x == i
							}
						}
					}
					if !in && !inBlock {
						c.failf("transaction %d was received and never confirmed, but is not in the mempool", i)
					}
					if !in {
						c.expect(fmt.Sprint("confirmed ", i))
					}
				}
				c.checkEvents()
				c.mp.Stop()
				time.Sleep(time.Minute)
			})
			kit.Case("races", stop || clash, kit.Key(fmt.Sprint(desc)), func() any { return desc })
		})
	})
}

// mempoolOf finds the mempool of a node among its fields.
func mempoolOf(s node.NodeService) *node.MemPool {
	v := reflect.ValueOf(s)
	if v.Kind() != reflect.Pointer || v.Elem().Kind() != reflect.Struct {
		return nil
	}
	v = v.Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch p := unsafe.Pointer(f.UnsafeAddr()); f.Type() {
		case reflect.TypeOf(node.MemPool{}):
			return (*node.MemPool)(p)
		case reflect.TypeOf(&node.MemPool{}):
			return *(**node.MemPool)(p)
		}
	}
	return nil
}
