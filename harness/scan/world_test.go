// Package scan holds the checks of the scanner (C40-C44).
package scan

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/google/uuid"
	"github.com/vulpemventures/go-elements/address"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/pkg/blockservice"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
	"github.com/vulpemventures/neutrino-elements/verifharness/kit"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { kit.Main(m) }

// A world is a whole chain with its transactions, and the model of what pays and spends what.

type outpoint struct {
	tx     [32]byte
	index  uint32
	script []byte
}

type wtx struct {
	tx     *transaction.Transaction
	id     [32]byte
	height uint32
	pays   [][]byte
	spends []outpoint
}

type world struct {
	net      kit.Net
	base     uint32          // the stores know of the blocks above this height only (0: all)
	headers  []*block.Header // height = base+index+1
	genesis  *block.Header
	hashes   [][32]byte // by height-base
	txs      []wtx
	byHeight map[uint32][]int
	filters  [][]byte // by height-base
	blocks   map[[32]byte]*block.Block
	gone     map[uint32]bool // blocks nobody can provide
	extra    int             // filters with false positives
}

func (w *world) top() uint32 { return w.base + uint32(len(w.headers)) }

// at is the height of the i-th block; a world with a base has no block 0.
func (w *world) at(i int) uint32 {
	if w.base > 0 {
		i = max(i, 1)
	}
	return w.base + uint32(i)
}

func (w *world) hash(h uint32) [32]byte { return w.hashes[h-w.base] }

// pool is what scripts a world pays: the watched ones and look-alikes of them.
func scriptN(pool uint64, i int) []byte {
	if i >= poolSize {
		s := scriptN(pool, i-poolSize)
		switch i % 4 {
		case 0:
			return append(s, 0)
		case 1:
			return s[:len(s)-1]
		case 2:
			s[len(s)-1] ^= 0x80
			return s
		}
		return append([]byte{0x51}, s...)
	}
	h := kit.Expand(pool*64+uint64(i), 32)
	switch i % 4 {
	case 1:
		return append(append([]byte{0x76, 0xa9, 0x14}, h[:20]...), 0x88, 0xac)
	case 2:
		return append(append([]byte{0xa9, 0x14}, h[:20]...), 0x87)
	case 3:
		return append([]byte{0x00, 0x20}, h...)
	}
	return append([]byte{0x00, 0x14}, h[:20]...)
}

type txPlan struct {
	Pays   []int
	Spends []int
	Pad    int // unrelated inputs and outputs before these
	Odd    int // outputs nobody can spend (fees, data) here and there, which no filter has: one digit for each, see oddOutputs
}

// oddOutputs puts fee outputs (no script) and data outputs (OP_RETURN) between the others.
func oddOutputs(odd int, serial uint64, scripts [][]byte) [][]byte {
	for ; odd > 0; odd /= 100 {
		var s []byte
		switch odd % 10 {
		case 0:
			continue
		case 1:
			s = []byte{0x6a}
		case 2:
			s = append([]byte{0x6a, 0x10}, kit.Expand(serial, 16)...)
		case 3:
			s = append([]byte{0x6a, 0x4c, 80}, kit.Expand(serial, 80)...)
		default:
			s = []byte{}
		}
		at := odd / 10 % 10 % (len(scripts) + 1)
		scripts = append(scripts[:at:at], append([][]byte{s}, scripts[at:]...)...)
	}
	return scripts
}

func unspendable(script []byte) bool { return len(script) == 0 || script[0] == 0x6a }

type worldPlan struct {
	Net    int
	Seed   uint64
	Base   uint32
	Blocks [][]txPlan // by height, 0 = genesis
	Extra  []int      // heights whose filter also contains every script of the pool
}

const poolSize = 6

func drawWorld(t *rapid.T, maxHeight, maxTx int, genesis bool) worldPlan {
	p := worldPlan{
		Net:  rapid.IntRange(0, len(kit.Nets)-1).Draw(t, "net"),
		Seed: uint64(rapid.IntRange(1, 1000).Draw(t, "seed")),
		Base: rapid.SampledFrom([]uint32{0, 0, 0, 0, 0, 250, 65530, 1<<24 - 4, 1<<31 - 5, 1<<32 - 40}).Draw(t, "base"),
	}
	n := rapid.IntRange(1, maxHeight).Draw(t, "blocks")
	for h := 0; h <= n; h++ {
		var txs []txPlan
		if h > 0 || genesis && p.Base == 0 {
			for i, k := 0, rapid.IntRange(0, maxTx).Draw(t, "txs"); i < k; i++ {
				txs = append(txs, txPlan{
					Pays:   rapid.SliceOfN(rapid.IntRange(0, poolSize+5), 0, 3).Draw(t, "pays"),
					Spends: rapid.SliceOfN(rapid.IntRange(0, 40), 0, 2).Draw(t, "spends"),
					Pad:    max(0, rapid.IntRange(-10, 12).Draw(t, "pad")),
					Odd:    max(0, rapid.IntRange(-9999, 9999).Draw(t, "odd")),
				})
			}
		}
		p.Blocks = append(p.Blocks, txs)
	}
	p.Extra = rapid.SliceOfN(rapid.IntRange(1, n), 0, 2).Draw(t, "extra")
	return p
}

func build(p worldPlan, script func(i int) []byte) *world {
	w := &world{net: kit.Nets[p.Net], base: p.Base, byHeight: map[uint32][]int{}, blocks: map[[32]byte]*block.Block{}}
	w.genesis = kit.Hdr(p.Seed+5000, 0, [32]byte{})
	for i, prev := 1, w.net.Genesis; i < len(p.Blocks); i++ {
		w.headers = append(w.headers, kit.Hdr(p.Seed, p.Base+uint32(i), prev))
		prev = kit.HeaderHash(w.headers[i-1])
	}
	w.hashes = append(w.hashes, w.net.Genesis)
	for _, h := range w.headers {
		w.hashes = append(w.hashes, kit.HeaderHash(h))
	}
	if script == nil {
		script = func(i int) []byte { return scriptN(p.Seed, i) }
	}
	var unspent []outpoint
	serial := p.Seed * 100000
	for h, txs := range p.Blocks {
		var list []*transaction.Transaction
		var items [][]byte
		for _, tp := range txs {
			serial++
			x := wtx{height: p.Base + uint32(h)}
			var scripts [][]byte
			for i := 0; i < tp.Pad; i++ {
				scripts = append(scripts, kit.ScriptN(serial*50+uint64(i)))
			}
			for _, s := range tp.Pays {
				scripts = append(scripts, script(s))
			}
			if len(scripts) == 0 {
				scripts = append(scripts, kit.ScriptN(serial))
			}
			scripts = oddOutputs(tp.Odd, serial, scripts)
			x.pays = scripts
			tx := kit.SmallTx(serial, nil, scripts...)
			for i := 0; i < tp.Pad; i++ {
				tx.Inputs = append(tx.Inputs, transaction.NewTxInput(kit.Expand(serial*50+uint64(i), 32), uint32(i%3)))
			}
			for _, s := range tp.Spends {
				if len(unspent) == 0 {
					break
				}
				k := len(unspent) - 1 - s%len(unspent)
				o := unspent[k]
				unspent = append(unspent[:k:k], unspent[k+1:]...)
				in := transaction.NewTxInput(o.tx[:], o.index)
				tx.Inputs = append(tx.Inputs, in)
				x.spends = append(x.spends, o)
				items = append(items, o.script)
			}
			x.tx, x.id = tx, kit.TxID(tx)
			for i, s := range scripts {
				if unspendable(s) {
					continue
				}
				unspent = append(unspent, outpoint{x.id, uint32(i), s})
				items = append(items, s)
			}
			w.byHeight[x.height] = append(w.byHeight[x.height], len(w.txs))
			w.txs = append(w.txs, x)
			list = append(list, tx)
		}
		for _, e := range p.Extra {
			if e == h {
				w.extra++
				for i := 0; i < poolSize; i++ {
					items = append(items, script(i))
				}
			}
		}
		w.filters = append(w.filters, kit.BuildFilter(w.hashes[h], items))
		hdr := w.genesis
		if h > 0 {
			hdr = w.headers[h-1]
		}
		w.blocks[w.hashes[h]] = kit.Block(hdr, list...)
	}
	return w
}

// A watch of the model.

type watchPlan struct {
	Spent      bool
	Target     int // script of the pool, or which output of the world (-1-x: an outpoint that does not exist)
	Start      int // which block
	Persistent bool
	Client     int
	Form       int // which form of address
}

func drawWatch(t *rapid.T, top int) watchPlan {
	return watchPlan{
		Spent:      rapid.IntRange(0, 2).Draw(t, "spent") == 0,
		Target:     rapid.IntRange(-3, 40).Draw(t, "target"),
		Start:      rapid.IntRange(0, top+4).Draw(t, "start"),
		Persistent: rapid.IntRange(0, 3).Draw(t, "persistent") > 0,
		Client:     rapid.IntRange(0, 2).Draw(t, "client"),
		Form:       rapid.IntRange(0, 1).Draw(t, "form"),
	}
}

type watch struct {
	plan    watchPlan
	start   uint32
	client  uuid.UUID
	item    scanner.WatchItem
	matches func(x *wtx) bool
	at      time.Time
	issued  bool
}

func clientN(i int) uuid.UUID {
	if i == 0 {
		return uuid.Nil
	}
	return uuid.UUID(kit.Expand(uint64(900+i), 16))
}

// addressOf encodes a script of the pool as an address, plain or confidential.
func addressOf(script []byte, form int, n *network.Network) string {
	key := append([]byte{2}, kit.Expand(31, 32)...)
	var a string
	var err error
	switch {
	case len(script) == 25:
		a = address.ToBase58(&address.Base58{Version: n.PubKeyHash, Data: script[3:23]})
		if form == 1 {
			a, err = address.ToConfidential(&address.ConfidentialAddress{Address: a, BlindingKey: key})
		}
	case len(script) == 23:
		a = address.ToBase58(&address.Base58{Version: n.ScriptHash, Data: script[2:22]})
		if form == 1 {
			a, err = address.ToConfidential(&address.ConfidentialAddress{Address: a, BlindingKey: key})
		}
	case form == 1:
		a, err = address.ToBlech32(&address.Blech32{Prefix: n.Blech32, Version: 0, PublicKey: key, Program: script[2:]})
	default:
		a, err = address.ToBech32(&address.Bech32{Prefix: n.Bech32, Version: 0, Program: script[2:]})
	}
	if err != nil {
		panic(err)
	}
	return a
}

func netParams(name string) *network.Network {
	return map[string]*network.Network{"liquid": &network.Liquid, "testnet": &network.Testnet, "regtest": &network.Regtest}[name]
}

func (w *world) watch(p watchPlan, script func(i int) []byte) *watch {
	x := &watch{plan: p, client: clientN(p.Client), start: w.at(p.Start)}
	if !p.Spent {
		i := p.Target % poolSize
		if i < 0 {
			i = -i
		}
		s := script(i)
		item, err := scanner.NewUnspentWatchItemFromAddress(addressOf(s, p.Form, netParams(w.net.Name)))
		if err != nil {
			panic(fmt.Sprintf("address of %x (form %d): %v", s, p.Form, err))
		}
		x.item = item
		x.matches = func(x *wtx) bool {
			for _, o := range x.pays {
				if string(o) == string(s) {
					return true
				}
			}
			return false
		}
		return x
	}
	o := outpoint{tx: [32]byte(kit.Expand(uint64(p.Target+77), 32)), script: script(0)}
	if len(w.txs) > 0 {
		k := p.Target
		if k < 0 {
			k = -k
		}
		// prefer outputs that get spent, then anything
		var all []outpoint
		for _, x := range w.txs {
			all = append(all, x.spends...)
		}
		if len(all) == 0 || k%5 == 4 {
			for _, x := range w.txs {
				for i, s := range x.pays {
					if unspendable(s) {
						continue
					}
					all = append(all, outpoint{x.id, uint32(i), s})
				}
			}
		}
		o = all[k%len(all)]
		if p.Target < 0 {
			// right transaction, another output; or the other way around
			switch k % 5 {
			case 0:
				o.index += 1 << 16
			case 1:
				o.index += 40
			case 2:
				o.index += 1 << 8
			case 3:
				o.index |= 1 << 29
			case 4:
				o.tx[31] ^= 1
			}
		}
	}
	in := transaction.NewTxInput(append([]byte(nil), o.tx[:]...), o.index)
	item, err := scanner.NewSpentWatchItemFromInput(in, o.script)
	if err != nil {
		panic(err)
	}
	x.item = item
	x.matches = func(x *wtx) bool {
		for _, s := range x.spends {
			if s.tx == o.tx && s.index == o.index {
				return true
			}
		}
		return false
	}
	return x
}

// expect lists which transactions a watch must report once the chain reaches top.
func (w *world) expect(x *watch, top uint32) (out []int) {
	for h := x.start; h <= top && h <= w.top(); h++ {
		if w.gone[h] {
			continue
		}
		for _, i := range w.byHeight[h] {
			if x.matches(&w.txs[i]) {
				out = append(out, i)
			}
		}
		if len(out) > 0 && !x.plan.Persistent {
			break
		}
	}
	return out
}

// Report keys.
func (w *world) key(who string, txid [32]byte, height uint32, hash [32]byte) string {
	return fmt.Sprintf("%s: tx %x.. at height %d in block %x..", who, txid[:4], height, hash[:4])
}

// calls counts every access of the scanner to its stores and block source, makes the chosen
// ones fail, and ends the scanner's goroutine if it never comes to rest.
type calls struct {
	mu      sync.Mutex
	n       int
	kinds   []byte // what every call was
	fail    func(i int, kind byte) string
	stopped bool
	late    string
	flood   bool
	over    bool
}

const callLimit = 60000

// enter returns the fault for this call, or "".
func (c *calls) enter(kind byte) string {
	c.mu.Lock()
	if c.over || c.n > callLimit {
		c.flood = c.flood || c.n > callLimit
		c.mu.Unlock()
		runtime.Goexit()
	}
	i := c.n
	c.n++
	if len(c.kinds) < 4096 {
		c.kinds = append(c.kinds, kind)
	}
	if c.stopped && c.late == "" {
		buf := make([]byte, 4096)
		c.late = string(buf[:runtime.Stack(buf, false)])
	}
	f := c.fail
	c.mu.Unlock()
	if f != nil {
		return f(i, kind)
	}
	return ""
}

// source is the block source.
type source struct {
	e *env
}

var errBroken = fmt.Errorf("Get \"http://explorer/block\": connection reset by peer")

func (s *source) GetBlock(h *chainhash.Hash) (*block.Block, error) {
	e := s.e
	fault := e.calls.enter('b')
	e.mu.Lock()
	hang := e.hang
	_, known := e.w.blocks[*h]
	at, visible := e.blockAt[*h]
	early := !visible || time.Now().Before(at) || e.absent
	if e.dark == 'b' && *h == *kit.ToHash(e.w.hash(e.darkHeight)) {
		fault = "error"
	}
	if visible && e.w.gone[e.w.blocks[*h].Header.Height] {
		early = true
	}
	e.mu.Unlock()
	if hang != nil {
		<-hang
	}
	switch fault {
	case "404":
		return nil, blockservice.ErrorBlockNotFound
	case "slow":
		time.Sleep(4 * time.Second)
	case "":
	default:
		return nil, errBroken
	}
	if !known {
		e.failf("asked for a block that does not exist: %s", h)
		return nil, blockservice.ErrorBlockNotFound
	}
	if early {
		return nil, blockservice.ErrorBlockNotFound
	}
	return e.w.blocks[*h], nil
}

// got is a report that was received.
type got struct {
	r  scanner.Report
	at time.Time
}

type env struct {
	w       *world
	hdrs    *kit.Headers
	fils    *kit.Filters
	calls   *calls
	svc     scanner.Service
	mu      sync.Mutex
	errs    []string
	got     []got
	tip     uint32
	tipAt   map[uint32]time.Time // when all of a block was available
	blockAt map[chainhash.Hash]time.Time
	hang    chan struct{}
	started bool
	ch      <-chan scanner.Report
	gate    chan bool // controls the consumer of the current session: true = pause
	slow    time.Duration
	paused  bool
	closing chan struct{}

	darkHeight uint32 // this block, or its filter or hash, cannot be had...
	dark       byte   // ...at the moment
	litAt      time.Time
	absent     bool          // the block source knows no block
	drag       time.Duration // every access takes that long
	seen       uint64
}

func (e *env) failf(f string, a ...any) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if len(e.errs) < 8 {
		e.errs = append(e.errs, fmt.Sprintf(f, a...))
	}
}

func newEnv(w *world, tip uint32) *env {
	e := &env{w: w, calls: &calls{}, fils: kit.NewFilters(), tipAt: map[uint32]time.Time{},
		blockAt: map[chainhash.Hash]time.Time{}, closing: make(chan struct{})}
	e.hdrs = kit.NewHeaders(nil)
	e.hdrs.ReadHook = func(op string) error {
		e.dragged()
		if e.calls.enter('h') != "" || op != "" && e.isDark('h', op == fmt.Sprint(e.darkHeight)) {
			return kit.ErrInjected
		}
		return nil
	}
	e.fils.GetHook = func(k repository.FilterKey) error {
		e.dragged()
		if e.calls.enter('f') != "" || e.darkHeight > 0 && e.isDark('f', [32]byte(k.BlockHash) == w.hash(e.darkHeight)) {
			return kit.ErrInjected
		}
		return nil
	}
	e.tip = w.base
	e.grow(tip, 0, 0)
	e.svc = scanner.New(e.fils, e.hdrs, &source{e}, kit.ToHash(w.net.Genesis))
	return e
}

func (e *env) isDark(kind byte, is bool) bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return is && e.dark == kind
}

func (e *env) dragged() {
	e.mu.Lock()
	d := e.drag
	e.mu.Unlock()
	if d > 0 {
		time.Sleep(d)
	}
}

// grow makes the blocks up to height tip available: header now, filter and block after delays.
func (e *env) grow(tip uint32, filterLag, blockLag time.Duration) {
	if tip > e.w.top() {
		tip = e.w.top()
	}
	if tip <= e.w.base {
		return // the stores know of no block until the first one after genesis
	}
	now := time.Now()
	e.mu.Lock()
	from := e.tip + 1
	if len(e.tipAt) == 0 && e.w.base == 0 {
		from = 0
	}
	var hs []uint32
	for h := from; h <= tip; h++ {
		hs = append(hs, h)
		lag := max(filterLag, blockLag)
		e.tipAt[h] = now.Add(lag)
		e.blockAt[*kit.ToHash(e.w.hash(h))] = now.Add(blockLag)
	}
	e.tip = max(e.tip, tip)
	e.mu.Unlock()
	if from == 0 {
		e.fils.Set(e.w.hash(0), e.w.filters[0]) // the genesis block is known beforehand
	}
	set := func() {
		for _, h := range hs {
			if e.w.filters[h-e.w.base] != nil {
				e.fils.Set(e.w.hash(h), e.w.filters[h-e.w.base])
			}
		}
	}
	if filterLag == 0 {
		set()
	} else {
		go func() { time.Sleep(filterLag); set() }()
	}
	for _, h := range hs {
		if h > 0 {
			e.hdrs.Put(e.w.headers[h-e.w.base-1])
		}
	}
}

// start starts the scanner; the reports of the session are collected until the case ends.
func (e *env) start() {
	e.calls.mu.Lock()
	e.calls.stopped = false
	e.calls.mu.Unlock()
	var ch <-chan scanner.Report
	var err error
	if !e.prompt("Start", func() { ch, err = e.svc.Start() }) {
		return
	}
	if err != nil {
		e.failf("Start of a stopped scanner failed: %v", err)
		return
	}
	gate := make(chan bool)
	e.mu.Lock()
	e.started, e.ch, e.gate = true, ch, gate
	e.mu.Unlock()
	go e.consume(ch, gate)
}

func (e *env) consume(ch <-chan scanner.Report, gate <-chan bool) {
	e.mu.Lock()
	paused := e.paused
	e.mu.Unlock()
	for {
		in := ch
		if paused {
			in = nil
		}
		select {
		case r, ok := <-in:
			if !ok {
				return
			}
			e.mu.Lock()
			if len(e.got) >= 50000 {
				e.mu.Unlock()
				e.failf("reports without end")
				e.end()
				return
			}
			e.got = append(e.got, got{r, time.Now()})
			if r.Request != nil {
				e.seen += uint64(r.Request.StartHeight) // a report is the reader's: all of it may be read at any time
			}
			late, slow := !e.started || e.ch != ch, e.slow
			e.mu.Unlock()
			if late {
				e.failf("a report was delivered after Stop had returned")
			}
			if slow > 0 {
				time.Sleep(slow)
			}
		case paused = <-gate:
		case <-e.closing:
			return
		}
	}
}

func (e *env) pause(p bool) {
	e.mu.Lock()
	on, gate := e.started, e.gate
	e.paused = p
	e.mu.Unlock()
	if on {
		e.control(gate, p)
	}
}

func (e *env) control(gate chan<- bool, p bool) {
	select {
	case gate <- p:
	case <-time.After(10 * time.Second):
	}
}

// prompt runs a call that must return quickly.
func (e *env) prompt(what string, f func()) bool {
	done := make(chan struct{})
	begin := time.Now()
	go func() { defer close(done); f() }()
	select {
	case <-done:
		if d := time.Since(begin); d > 2*time.Second {
			e.failf("%s took %v", what, d)
		}
		return true
	case <-time.After(20 * time.Second):
		e.failf("%s did not return within 20s", what)
		e.end()
		return false
	}
}

func (e *env) stop() bool {
	if !e.prompt("Stop", e.svc.Stop) {
		return false
	}
	synctest.Wait()
	e.mu.Lock()
	e.started = false
	gate := e.gate
	e.mu.Unlock()
	e.calls.mu.Lock()
	e.calls.stopped = true
	e.calls.mu.Unlock()
	e.control(gate, false)
	return true
}

// end kills whatever still runs.
func (e *env) end() {
	e.calls.mu.Lock()
	e.calls.over = true
	e.calls.mu.Unlock()
	e.mu.Lock()
	select {
	case <-e.closing:
	default:
		close(e.closing)
	}
	if e.hang != nil {
		close(e.hang)
		e.hang = nil
	}
	e.mu.Unlock()
}

// finish stops the scanner for good.
func (e *env) finish() {
	e.mu.Lock()
	on := e.started
	e.mu.Unlock()
	if on {
		e.stop()
		time.Sleep(5 * time.Second)
	}
	e.calls.mu.Lock()
	late, flood, n := e.calls.late, e.calls.flood, e.calls.n
	e.calls.mu.Unlock()
	if late != "" {
		e.failf("a store was read after Stop had returned:\n%s", late)
	}
	if flood {
		e.failf("the scanner never comes to rest: %d accesses to its stores", n)
	}
	e.end()
}

func (e *env) add(x *watch) {
	opts := []scanner.ScanRequestOption{
		scanner.WithRequestID(x.client), scanner.WithStartBlock(x.start), scanner.WithWatchItem(x.item),
	}
	if x.plan.Persistent {
		opts = append(opts, scanner.WithPersistentWatch())
	}
	e.mu.Lock()
	x.at, x.issued = time.Now(), true
	e.mu.Unlock()
	e.svc.Watch(opts...)
}

// received is every report so far.
func (e *env) received() []got { e.mu.Lock(); defer e.mu.Unlock(); return append([]got(nil), e.got...) }

// compare checks the reports received against those of the model.
func (e *env) compare(watches []*watch, promptly time.Duration, startedAt time.Time) {
	e.mu.Lock()
	all := append([]got(nil), e.got...)
	tip := e.tip
	e.mu.Unlock()
	byID := map[string]int{}
	for i, x := range e.w.txs {
		byID[string(x.id[:])] = i
	}
	want := map[string]int{}
	who := func(i int) string { return fmt.Sprintf("watch %d", i) }
	of := map[scanner.WatchItem]int{}
	for i, x := range watches {
		of[x.item] = i
		if !x.issued {
			continue
		}
		for _, k := range e.w.expect(x, tip) {
			tx := e.w.txs[k]
			want[e.w.key(who(i), tx.id, tx.height, e.w.hash(tx.height))]++
		}
	}
	have := map[string]int{}
	for _, g := range all {
		r := g.r
		if r.Transaction == nil || r.BlockHash == nil || r.Request == nil {
			e.failf("an incomplete report was delivered: %+v", r)
			continue
		}
		i, ok := of[r.Request.Item]
		if !ok {
			e.failf("a report names a request that nobody made: %+v", r.Request)
			continue
		}
		x := watches[i]
		if r.Request.ClientID != x.client || r.Request.IsPersistent != x.plan.Persistent {
			e.failf("the report of watch %d (client %v, persistent %v) names client %v, persistent %v", i, x.client, x.plan.Persistent, r.Request.ClientID, r.Request.IsPersistent)
		}
		id := kit.TxID(r.Transaction)
		k, ok := byID[string(id[:])]
		if !ok {
			e.failf("a report holds a transaction of no block: %x", id)
			continue
		}
		if string(kit.TxBytes(r.Transaction)) != string(kit.TxBytes(e.w.txs[k].tx)) {
			e.failf("the transaction of a report was altered: %x", id)
		}
		have[e.w.key(who(i), id, r.BlockHeight, [32]byte(*r.BlockHash))]++
		if promptly > 0 {
			since := e.tipAt[e.w.txs[k].height]
			if x.at.After(since) {
				since = x.at
			}
			if startedAt.After(since) {
				since = startedAt
			}
			if x.start <= e.darkHeight && e.litAt.After(since) {
				since = e.litAt
			}
			if d := g.at.Sub(since); d > promptly {
				e.failf("watch %d (start %d) learnt of a transaction at height %d only %v after it could", i, x.start, e.w.txs[k].height, d)
			}
		}
	}
	diff(e, want, have)
}

func diff(e *env, want, have map[string]int) {
	var keys []string
	for k := range want {
		keys = append(keys, k)
	}
	for k := range have {
		if _, ok := want[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		if want[k] != have[k] {
			e.failf("reported %d times instead of %d: %s", have[k], want[k], k)
		}
	}
}

func (e *env) problems() string {
	e.mu.Lock()
	defer e.mu.Unlock()
	return strings.Join(e.errs, "\n")
}

// inBubble runs a case and returns what went wrong.
func inBubble(t *testing.T, rt *rapid.T, f func() *env) {
	var e *env
	leaked, stuck := kit.Bubble(t, func() { e = f() })
	if stuck != "" {
		rt.Fatalf("the case did not end:\n%s", stuck)
	}
	if p := e.problems(); p != "" {
		rt.Fatalf("%s", p)
	}
	if leaked != "" {
		rt.Fatalf("after Stop: %s", leaked)
	}
}
