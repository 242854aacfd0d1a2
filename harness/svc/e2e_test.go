package svc

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/inmemory"
	dbpg "github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/pg"
	neutrinodws "github.com/vulpemventures/neutrino-elements/internal/interface/web-socket"
	"github.com/vulpemventures/neutrino-elements/pkg/blockservice"
	"github.com/vulpemventures/neutrino-elements/pkg/node"
	"github.com/vulpemventures/neutrino-elements/verifharness/kit"
	"pgregory.net/rapid"
)

// A scenario is a daemon with its peer, its explorer, and clients that come and go.
type scenario struct {
	Net      int
	Seed     uint64
	Postgres bool
	Proc     *procPlan
	Wallets  []kit.Wallet
	Blocks   [][]payPlan // from height 1
	Initial  int         // blocks that are there when the daemon starts
	Quirk    kit.Quirk
	Segs     []int
	Explorer []string // what the explorer does to the n-th request
	Ops      []e2eOp
}

// payPlan is what a transaction pays.
type payPlan []struct{ Wallet, Script int }

type e2eOp struct {
	Kind   string // ws, hook, mine, leave, drop, wait, restart
	Client int
	Wallet int
	Start  int
	N      int
	Via    string
	Settle bool
}

func drawScenario(t *rapid.T) scenario {
	s := scenario{
		Net:      rapid.IntRange(0, 2).Draw(t, "network"),
		Seed:     uint64(rapid.IntRange(1, 100000).Draw(t, "seed")),
		Postgres: rapid.Bool().Draw(t, "postgres"),
		Wallets:  rapid.SliceOfN(rapid.Custom(kit.DrawWallet), 1, 3).Draw(t, "wallets"),
	}
	draw := func(label string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, label) }
	pays := rapid.Custom(func(t *rapid.T) payPlan {
		var p payPlan
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "outputs"); i < n; i++ {
			p = append(p, struct{ Wallet, Script int }{rapid.IntRange(0, len(s.Wallets)-1).Draw(t, "wallet"), rapid.IntRange(0, 9).Draw(t, "script")})
		}
		return p
	})
	s.Initial = draw("initial", 1, 12)
	add := func(n int) {
		for i := 0; i < n; i++ {
			s.Blocks = append(s.Blocks, rapid.SliceOfN(pays, 0, 3).Draw(t, "txs"))
		}
	}
	add(s.Initial)
	s.Quirk = kit.Quirk{Batch: rapid.SampledFrom([]int{2000, 2000, 1, 2, 3, 5}).Draw(t, "batch"), Overlap: draw("overlap", 0, 2)}
	s.Segs = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 3, 24, 100}), 0, 4).Draw(t, "segs")
	s.Explorer = rapid.SliceOfN(rapid.SampledFrom([]string{"", "", "", "", "404", "500", "cut"}), 0, 8).Draw(t, "explorer")
	restarts := 0
	for i, n := 0, draw("ops", 2, 9); i < n; i++ {
		o := e2eOp{Kind: rapid.SampledFrom([]string{"ws", "ws", "ws", "hook", "hook", "mine", "mine", "mine", "wait", "leave", "drop", "restart"}).Draw(t, "op")}
		switch o.Kind {
		case "ws", "hook":
			o.Client, o.Wallet = draw("client", 0, 2), draw("wallet", 0, len(s.Wallets)-1)
			o.Start = draw("start", 0, len(s.Blocks)+4)
		case "mine":
			o.N, o.Via = draw("n", 1, 3), rapid.SampledFrom([]string{"inv", "headers", "headers", "block"}).Draw(t, "via")
			add(o.N)
		case "leave", "drop":
			o.Client, o.Settle = draw("client", 0, 2), rapid.Bool().Draw(t, "settle")
		case "wait":
			o.N = draw("ms", 1, 900)
		case "restart":
			if restarts++; restarts > 1 {
				o = e2eOp{Kind: "wait", N: 1}
			}
		}
		s.Ops = append(s.Ops, o)
	}
	return s
}

// want is what one subscription is due.
type e2eSub struct {
	wallet, start int
	since         int // the operation that made it
}

// party is a WebSocket client or a webhook.
type party struct {
	name  string
	ws    *client
	hook  string
	subs  []e2eSub
	gone  bool
	limit int // once gone: events of blocks up to this height may have been sent
	floor int // and those up to this one must have been
}

type e2e struct {
	s       scenario
	n       int
	net     kit.Net
	headers []*block.Header
	blocks  map[string]*block.Block
	filters map[[32]byte][]byte
	txs     []e2eTx

	cfg     node.NodeConfig
	closeDB func() string
	proc    *proc // the daemon is a process of its own

	ln       net.Listener
	mu       sync.Mutex
	tip      int // what the peer and the explorer have
	peers    []*kit.Honest
	conns    []*kit.Conn
	explorer *httptest.Server
	asked    int

	address string
	cancel  context.CancelFunc
	stopped chan struct{}
	errs    <-chan error

	parties []*party
	closers []func()
	over    bool
	clients map[int]*party
	hooks   int
	problem string
}

type e2eTx struct {
	id     string
	height int
	tx     *transaction.Transaction
	pays   [][]byte
}

func (e *e2e) failf(f string, a ...any) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.problem == "" {
		e.problem = fmt.Sprintf(f, a...)
		if p := e.proc; p != nil && p.cmd != nil {
			select {
			case <-p.ended:
				e.problem += fmt.Sprintf("\nthe daemon had ended (%v):\n%s", p.cmd.ProcessState, p.tail())
			default:
				e.problem += "\n(the daemon runs)"
			}
		}
	}
}

func (e *e2e) failed() bool { e.mu.Lock(); defer e.mu.Unlock(); return e.problem != "" }

var e2eCount atomic.Int64

func newE2e(s scenario) *e2e {
	e := &e2e{s: s, n: int(e2eCount.Add(1)), net: kit.Nets[s.Net], blocks: map[string]*block.Block{}, filters: map[[32]byte][]byte{}, clients: map[int]*party{}}
	// the last block pays every wallet: it tells that everything before it has been looked at
	var all payPlan
	for i := range s.Wallets {
		all = append(all, struct{ Wallet, Script int }{i, 0})
	}
	plan := append(append([][]payPlan{}, s.Blocks...), []payPlan{all})
	e.headers = kit.Chain(s.Seed, e.net.Genesis, len(plan))
	serial := s.Seed * 1000
	for i, txs := range plan {
		h := e.headers[i]
		hash := kit.HeaderHash(h)
		var list []*transaction.Transaction
		var items [][]byte
		for _, p := range txs {
			serial++
			x := e2eTx{height: i + 1}
			for _, o := range p {
				x.pays = append(x.pays, s.Wallets[o.Wallet].Script(o.Script))
			}
			items = append(items, x.pays...)
			x.tx = kit.SmallTx(serial, nil, x.pays...)
			x.id = kit.TxIDStr(x.tx)
			list = append(list, x.tx)
			e.txs = append(e.txs, x)
		}
		e.filters[hash] = kit.BuildFilter(hash, items)
		e.blocks[kit.RevHex(hash)] = kit.Block(h, list...)
	}
	e.tip = s.Initial

	if s.Proc != nil {
		e.newProc()
	} else if s.Postgres {
		pg := kit.NewPG()
		db := pg.DB()
		svc := &dbpg.DbService{Db: db}
		h, err := dbpg.NewHeaderRepositoryImpl(svc)
		if err != nil {
			panic(err)
		}
		f, err := dbpg.NewFilterRepositoryImpl(svc)
		if err != nil {
			panic(err)
		}
		e.cfg.BlockHeadersDB, e.cfg.FiltersDB = h, f
		e.closeDB = func() string { db.Close(); return pg.Bad }
	} else {
		e.cfg.BlockHeadersDB, e.cfg.FiltersDB = inmemory.NewHeaderInmemory(), inmemory.NewFilterInmemory()
		e.closeDB = func() string { return "" }
	}
	e.cfg.Network, e.cfg.UserAgent = e.net.Name, "verif:1"

	var err error
	if e.ln, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	e.explorer = httptest.NewServer(http.HandlerFunc(e.explore))
	// an address of its own
	e.address = fmt.Sprintf("127.%d.%d.%d:8000", loopback(), e.n/250%240, 1+e.n%250)
	if l, err := net.Listen("tcp", e.address); err == nil {
		l.Close()
	} else if l, err = net.Listen("tcp", "127.0.0.1:0"); err == nil {
		e.address = l.Addr().String()
		l.Close()
	}
	return e
}

// loopback is the part of the loopback network that this process has for itself: another run may
// be using its own at the same time.
var loopback = sync.OnceValue(func() int {
	for b := 10; b < 250; b++ {
		if l, err := net.Listen("tcp", fmt.Sprintf("127.%d.255.254:8001", b)); err == nil {
			guard = l
			return b
		}
	}
	return 10
})

var guard net.Listener // held until the process ends

// accept serves the peer's port: each connection is joined to an honest peer.
func (e *e2e) accept() {
	for {
		s, err := e.ln.Accept()
		if err != nil {
			return
		}
		c := kit.NewConn("127.0.0.1:1", "127.0.0.1:2", e.s.Segs)
		e.mu.Lock()
		if e.over {
			e.mu.Unlock()
			s.Close()
			continue
		}
		p := kit.NewHonest(c, e.net, e.headers[:e.tip])
		for _, b := range e.blocks {
			p.AddBlock(b)
		}
		for h, f := range e.filters {
			p.AddFilter(h, f)
		}
		p.Quirks = []kit.Quirk{e.s.Quirk}
		e.peers, e.conns = append(e.peers, p), append(e.conns, c)
		e.mu.Unlock()
		go p.Run()
		go func() {
			buf := make([]byte, 4096)
			for {
				n, err := s.Read(buf)
				if n > 0 {
					c.Write(buf[:n])
				}
				if err != nil {
					c.Close()
					return
				}
			}
		}()
		go func() {
			buf := make([]byte, 65536)
			for {
				n, err := c.Read(buf)
				if err == nil {
					_, err = s.Write(buf[:n])
				}
				if err != nil {
					s.Close()
					return
				}
			}
		}()
	}
}

func (e *e2e) explore(w http.ResponseWriter, r *http.Request) {
	parts := strings.Split(r.URL.Path, "/")
	e.mu.Lock()
	i := e.asked
	e.asked++
	tip := e.tip
	e.mu.Unlock()
	how := ""
	if i < len(e.s.Explorer) {
		how = e.s.Explorer[i]
	}
	if r.Method != "GET" || len(parts) != 4 || parts[1] != "block" || parts[3] != "raw" {
		e.failf("the explorer was asked for %s %s", r.Method, r.URL)
		w.WriteHeader(400)
		return
	}
	b := e.blocks[parts[2]]
	if parts[2] == kit.RevHex(e.net.Genesis) {
		b = kit.Block(kit.Hdr(1, 0, [32]byte{}))
	}
	if b == nil || int(b.Header.Height) > tip {
		e.failf("the explorer was asked for the block %s, which is not in the chain", parts[2])
		w.WriteHeader(404)
		return
	}
	raw := kit.EncodeBlock(b)
	switch how {
	case "404":
		http.Error(w, "Block not found", 404)
	case "500":
		http.Error(w, "busy", 503)
	case "cut":
		w.Header().Set("Content-Length", fmt.Sprint(len(raw)))
		w.Write(raw[:len(raw)/2])
		panic(http.ErrAbortHandler)
	default:
		w.Write(raw)
	}
}

// start runs the daemon; false if it does not come up.
func (e *e2e) start() bool {
	if e.proc != nil {
		return e.proc.start(e)
	}
	blocks := blockservice.NewEsploraBlockService(e.explorer.URL)
	srv, err := neutrinodws.NewElementsNeutrinoServer(e.cfg, blocks, e.ln.Addr().String(), e.address)
	if err != nil {
		e.failf("NewElementsNeutrinoServer: %v", err)
		return false
	}
	ctx, cancel := context.WithCancel(context.Background())
	e.cancel, e.stopped = cancel, make(chan struct{})
	stopped := e.stopped
	up := make(chan struct{})
	go func() {
		errs := srv.Start(ctx, func() { close(stopped) })
		e.mu.Lock()
		e.errs = errs
		e.mu.Unlock()
		close(up)
	}()
	select {
	case <-up:
	case <-time.After(patience):
		e.failf("the daemon did not start:\n%s", repoOf(allStacks()))
		return false
	}
	for end := time.Now().Add(patience); ; {
		select {
		case err := <-e.errs:
			e.failf("the daemon ended: %v", err)
			return false
		default:
		}
		c, err := net.Dial("tcp", e.address)
		if err == nil {
			c.Close()
			return true
		}
		if time.Now().After(end) {
			e.failf("the daemon does not serve: %v", err)
			return false
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// stop ends the daemon; false if it does not end.
func (e *e2e) stop() bool {
	if e.proc != nil {
		return e.proc.stop(e)
	}
	e.cancel()
	select {
	case <-e.stopped:
	case <-time.After(patience):
		e.failf("the daemon did not stop:\n%s", repoOf(allStacks()))
		return false
	}
	for err := range e.errs {
		if err != nil && err != context.DeadlineExceeded {
			e.failf("the daemon ended with %v", err)
			return false
		}
	}
	return true
}

// mine makes n blocks known to the explorer and the peer, which announces them.
func (e *e2e) mine(n int, via string) {
	for i := 0; i < n; i++ {
		e.mu.Lock()
		h := e.headers[e.tip]
		e.tip++
		for _, p := range e.peers {
			p.Grow(h)
		}
		peers := append([]*kit.Honest(nil), e.peers...)
		e.mu.Unlock()
		for _, p := range peers {
			switch via {
			case "inv":
				p.AnnounceInv()
			case "block":
				p.SendBlock(h)
			}
		}
	}
	if via == "headers" {
		e.mu.Lock()
		defer e.mu.Unlock()
		for _, p := range e.peers {
			p.AnnounceHeaders(n)
		}
	}
}

// due is what a party is to hear of, up to a height.
func (e *e2e) due(p *party, upTo int) map[string]int {
	out := map[string]int{}
	for _, s := range p.subs {
		for _, x := range e.txs {
			if x.height < s.start || x.height > upTo {
				continue
			}
			for _, o := range x.pays {
				if e.s.Wallets[s.wallet].Owns(o) {
					out["unspentUtxo "+x.id]++
					break
				}
			}
		}
	}
	return out
}

func (e *e2e) heard(p *party) map[string]int {
	out := map[string]int{}
	if p.ws != nil {
		_, out, _ = p.ws.frames()
		return out
	}
	for _, x := range getHooks().posts(p.hook) {
		out[decodePost(x)]++
	}
	return out
}

func covers(have, want map[string]int) bool {
	for k, n := range want {
		if have[k] < n {
			return false
		}
	}
	return true
}

// settle waits until a party has heard of everything up to the tip.
func (e *e2e) settle(p *party) bool {
	want := e.due(p, e.tip)
	for end := time.Now().Add(patience); ; time.Sleep(5 * time.Millisecond) {
		have := e.heard(p)
		if covers(have, want) {
			return true
		}
		if time.Now().After(end) {
			e.failf("%s, with subscriptions %+v and the chain at %d, has not heard of everything: %s\n%s", p.name, p.subs, e.tip, lack(have, want), repoOf(allStacks()))
			return false
		}
	}
}

func lack(have, want map[string]int) string {
	var out []string
	for k, n := range want {
		if have[k] != n {
			out = append(out, fmt.Sprintf("%s %d times instead of %d", k, have[k], n))
		}
	}
	for k, n := range have {
		if want[k] == 0 {
			out = append(out, fmt.Sprintf("%s %d times instead of never", k, n))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// leave ends a party's part: what it hears of from now on is limited to the blocks there are.
func (e *e2e) leave(p *party) {
	p.gone, p.limit = true, e.tip
	for i, c := range e.clients {
		if c == p {
			delete(e.clients, i)
		}
	}
}

func (e *e2e) registered(p *party, answer func(a string) bool, what string, n int) bool {
	if !p.ws.until(func(a []string, _ map[string]int, over bool) bool { return over || len(a) >= n }) {
		e.failf("%s got no answer to %s", p.name, what)
		return false
	}
	a, _, _ := p.ws.frames()
	if len(a) < n || !strings.HasPrefix(a[n-1], "ok ") {
		e.failf("%s was answered %q to %s", p.name, a, what)
		return false
	}
	return true
}

func (e *e2e) op(i int, o e2eOp) bool {
	switch o.Kind {
	case "wait":
		time.Sleep(time.Duration(o.N) * time.Millisecond)
	case "mine":
		e.mine(o.N, o.Via)
	case "ws":
		p := e.clients[o.Client]
		if p == nil {
			c, err := dial("http://"+e.address+"/neutrino/subscribe/ws", 0, 0)
			if err != nil {
				e.failf("a client cannot connect: %v", err)
				return false
			}
			go c.read()
			p = &party{name: fmt.Sprintf("client %d", len(e.parties)), ws: c}
			e.parties, e.clients[o.Client] = append(e.parties, p), p
		}
		p.subs = append(p.subs, e2eSub{o.Wallet, o.Start, i})
		body := fmt.Sprintf(`{"actionType":"register","eventTypes":["unspentUtxo"],"descriptorWallet":%s,"startBlockHeight":%d}`, quote(e.s.Wallets[o.Wallet].Desc), o.Start)
		if err := p.ws.conn.WriteMessage(websocket.TextMessage, []byte(body)); err != nil {
			e.failf("%s cannot write: %v", p.name, err)
			return false
		}
		return e.registered(p, nil, body, len(p.subs))
	case "hook":
		e.hooks++
		p := &party{name: fmt.Sprintf("webhook %d", len(e.parties)), hook: fmt.Sprintf("/e2e/%d/ok/%d", e.n, e.hooks)}
		e.parties = append(e.parties, p)
		p.subs = append(p.subs, e2eSub{o.Wallet, o.Start, i})
		body := fmt.Sprintf(`{"actionType":"register","eventTypes":["unspentUtxo"],"descriptorWallet":%s,"startBlockHeight":%d,"endpointUrl":%s}`, quote(e.s.Wallets[o.Wallet].Desc), o.Start, quote(getHooks().srv.URL+p.hook))
		resp, err := (&http.Client{Timeout: patience, Transport: &http.Transport{DisableKeepAlives: true}}).Post("http://"+e.address+"/neutrino/subscribe/http", "application/json", bytes.NewReader([]byte(body)))
		if err != nil {
			e.failf("%s cannot register: %v", p.name, err)
			return false
		}
		b, _ := io.ReadAll(resp.Body)
		resp.Body.Close()
		if ok, problem := answer(resp.StatusCode, b); problem != "" || !ok {
			e.failf("%s was answered %d %q to %s", p.name, resp.StatusCode, b, body)
			return false
		}
	case "leave", "drop":
		p := e.clients[o.Client]
		if p == nil {
			return true
		}
		if o.Settle {
			if !e.settle(p) {
				return false
			}
			p.floor = e.tip
		}
		if o.Kind == "drop" {
			p.ws.conn.Close()
		} else {
			if err := p.ws.conn.WriteMessage(websocket.TextMessage, []byte(`{"actionType":"unregister","eventTypes":["unspentUtxo"],"descriptorWallet":"","startBlockHeight":0}`)); err != nil {
				e.failf("%s cannot write: %v", p.name, err)
				return false
			}
			if !e.registered(p, nil, "its unregistration", len(p.subs)+1) {
				return false
			}
		}
		e.leave(p)
	case "kill":
		return e.kill(o)
	case "restart":
		for _, p := range e.parties {
			if !p.gone {
				if !e.settle(p) {
					return false
				}
				p.floor = e.tip
				e.leave(p)
				if p.ws != nil {
					p.ws.conn.Close()
				}
			}
		}
		return e.stop() && e.start()
	}
	return true
}

func (e *e2e) cleanup() {
	for _, f := range e.closers {
		f()
	}
	e.ln.Close()
	e.explorer.Close()
	for _, p := range e.parties {
		if p.ws != nil {
			p.ws.conn.Close()
		}
	}
	e.mu.Lock()
	e.over = true
	for _, c := range e.conns {
		c.Close()
	}
	e.mu.Unlock()
	if bad := e.closeDB(); bad != "" {
		e.failf("HARNESS-ERROR %s", bad)
	}
	getHooks().forget(fmt.Sprintf("/e2e/%d/", e.n))
}

// run plays the scenario.
func (e *e2e) run() {
	defer e.cleanup()
	go e.accept()
	if !e.start() {
		return
	}
	for i, o := range e.s.Ops {
		if !e.op(i, o) {
			break
		}
	}
	if !e.failed() {
		e.mine(1, "headers")
		for _, p := range e.parties {
			if !p.gone && !e.settle(p) {
				break
			}
		}
		if e.proc != nil && !e.failed() {
			e.proc.synced(e)
		}
	}
	ended := e.stop()
	if e.failed() || !ended {
		return
	}
	if e.proc != nil && !e.proc.intact(e, true) {
		return
	}
	time.Sleep(30 * time.Millisecond)
	for _, p := range e.parties {
		have := e.heard(p)
		if !p.gone {
			want := e.due(p, e.tip)
			if !covers(have, want) || !covers(want, have) {
				e.failf("%s, with subscriptions %+v and the chain at %d: %s", p.name, p.subs, e.tip, lack(have, want))
			}
		} else if want := e.due(p, p.limit); !covers(want, have) {
			e.failf("%s, with subscriptions %+v and gone when the chain was at %d: %s", p.name, p.subs, p.limit, lack(have, want))
		} else if !covers(have, e.due(p, p.floor)) {
			e.failf("%s, gone when the chain was at %d, lost events: %s", p.name, p.floor, lack(have, want))
		}
	}
}

// TestC56 runs whole daemons.
func TestC56(t *testing.T) {
	kit.Rule("C56", "scenarios of a whole daemon over loopback sockets: network, store, wallets (descriptors of every supported kind), a chain paying them and look-alikes, a peer with its batch size and segmentation, an explorer that fails now and then, and up to 9 operations: WebSocket clients and webhooks subscribing from any height, blocks mined and announced in three ways, clients leaving or dropping, restarts on the same stores. A last block paying every wallet ends the scenario, then every party's events are compared with the chain. Non-trivial: at least 3 events are due, to at least 2 parties")
	kit.Checks(t, 6, 200, func(rt *rapid.T) {
		ss := rapid.SliceOfN(rapid.Custom(drawScenario), 30, 40).Draw(rt, "scenarios")
		kit.Journal(ss)
		var wg sync.WaitGroup
		es := make([]*e2e, len(ss))
		for i := range ss {
			es[i] = newE2e(ss[i])
			wg.Add(1)
			go func() { defer wg.Done(); es[i].run() }()
		}
		wg.Wait()
		for i, e := range es {
			if e.problem != "" {
				rt.Fatalf("scenario %d: %s", i, e.problem)
			}
			events, parties := 0, 0
			for _, p := range e.parties {
				n := 0
				for _, k := range e.heard(p) {
					n += k
				}
				events += n
				if n > 0 {
					parties++
				}
			}
			kit.Class(e.net.Name)
			kit.Case("C56", events >= 3 && parties >= 2, kit.Key(fmt.Sprintf("%+v", ss[i])), func() any {
				var ops []string
				for _, o := range ss[i].Ops {
					ops = append(ops, fmt.Sprintf("%+v", o))
				}
				return map[string]any{"network": e.net.Name, "blocks": len(ss[i].Blocks), "operations": ops, "events": events}
			})
		}
	})
}
