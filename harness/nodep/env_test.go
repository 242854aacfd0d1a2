package nodep

import (
	"fmt"
	"net"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/pkg/node"
	"github.com/vulpemventures/neutrino-elements/pkg/peer"
	"github.com/vulpemventures/neutrino-elements/verifharness/kit"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { kit.Main(m) }

// env is a node with fake stores and in-memory peers, living in one bubble.
type env struct {
	net      kit.Net
	hdrs     *kit.Headers
	fils     *kit.Filters
	svc      node.NodeService
	conns    []*kit.Conn
	frozen   atomic.Bool
	stopping atomic.Bool

	mu       sync.Mutex
	errs     []string
	dials    map[string]*kit.Conn
	last     peer.Peer // added by add
	started  bool
	startErr error
	startAt  time.Time
}

const agent = "verif-agent:1.2"

func (e *env) failf(f string, a ...any) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if len(e.errs) < 10 {
		e.errs = append(e.errs, fmt.Sprintf(f, a...))
	}
}

func (e *env) hold() {
	if e.frozen.Load() {
		select {}
	}
}

var pendingDials sync.Map

func newEnv(n kit.Net, hdrs *kit.Headers) *env {
	e := &env{net: n, hdrs: hdrs, fils: kit.NewFilters()}
	e.hdrs.Delay, e.fils.Delay = e.hold, e.hold
	svc, err := node.New(node.NodeConfig{Network: n.Name, UserAgent: agent, FiltersDB: e.fils, BlockHeadersDB: e.hdrs})
	if err != nil {
		panic(err)
	}
	e.svc = svc
	peer.Dial = func(_, a string) (net.Conn, error) {
		c, ok := pendingDials.LoadAndDelete(a)
		if !ok {
			return nil, fmt.Errorf("connection refused: %s", a)
		}
		return c.(*kit.Conn), nil
	}
	return e
}

// conn prepares the connection of the i-th peer and returns it with the address to dial.
func (e *env) conn(i int, segs []int) (*kit.Conn, string) {
	a := fmt.Sprintf("10.0.%d.%d:%d", i/200, 1+i%200, 18000+i)
	c := kit.NewConn(fmt.Sprintf("127.0.0.1:%d", 40000+i), a, segs)
	c.Hold = e.hold
	e.conns = append(e.conns, c)
	pendingDials.Store(a, c)
	return c, a
}

// start runs Start in the background.
func (e *env) start(a string) {
	go func() {
		err := e.svc.Start(a)
		e.mu.Lock()
		defer e.mu.Unlock()
		e.started, e.startErr, e.startAt = true, err, time.Now()
	}()
	synctest.Wait()
}

func (e *env) isStarted() (bool, error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.started, e.startErr
}

// add connects a further peer.
func (e *env) add(a string) error {
	p, err := peer.NewElementsPeer(a)
	if err != nil {
		return err
	}
	e.mu.Lock()
	e.last = p
	e.mu.Unlock()
	return e.svc.AddOutboundPeer(p)
}

// addAgain adds the peer that was added last once more.
func (e *env) addAgain(when string) {
	if e.last == nil {
		return
	}
	if e.svc.AddOutboundPeer(e.last) == nil {
		e.failf("a peer is added again %s without an error", when)
	}
}

// shut ends the case.
func (e *env) shut() {
	e.stopping.Store(true)
	_ = e.svc.Stop()
	for _, c := range e.conns {
		c.Close()
	}
	synctest.Wait()
	e.frozen.Store(true)
}

// bubble runs one case and reports its failures to rapid.
func bubble(t *testing.T, rt *rapid.T, journal any, n kit.Net, hdrs *kit.Headers, f func(e *env)) *env {
	kit.Journal(journal)
	var e *env
	var over atomic.Bool
	leaked, stuck := kit.Bubble(t, func() {
		e = newEnv(n, hdrs)
		defer over.Store(true)
		defer e.shut()
		f(e)
	})
	if leaked != "" && !over.Load() {
		rt.Fatalf("a call of the node never returns: %s", leaked[:min(len(leaked), 4000)])
	}
	if e != nil {
		for i, c := range e.conns {
			if err := c.Bad(); err != nil {
				e.failf("connection %d: %v", i, err)
			}
		}
		if len(e.errs) > 0 {
			rt.Fatalf("%s", e.errs[0])
		}
	}
	if stuck != "" {
		stuckCase(rt, stuck)
	}
	return e
}

func net3(t *rapid.T) kit.Net { return kit.Nets[rapid.IntRange(0, 2).Draw(t, "network")] }

func version(services uint64, height int32) []byte {
	return kit.VersionFields{Version: 70015, Services: services, Timestamp: 1_600_000_000, UserAgent: "/peer:0.1/", StartHeight: height, Relay: true, Nonce: 9}.Encode()
}

func cmds(log []kit.Sent) (out []string) {
	for _, m := range log {
		out = append(out, m.Cmd)
	}
	return
}

func only(log []kit.Sent, cmd string) (out []kit.Sent) {
	for _, m := range log {
		if m.Cmd == cmd {
			out = append(out, m)
		}
	}
	return
}

func sorted[T any](xs []T, key func(T) string) []string {
	out := make([]string, len(xs))
	for i, x := range xs {
		out[i] = key(x)
	}
	sort.Strings(out)
	return out
}

type blockHeader = block.Header

// stuckCase ends a case that got stuck in real time.
func stuckCase(rt *rapid.T, stuck string) {
	kit.BubbleLimit = 10 * time.Second
	if d, ok := kit.Deadlocked(stuck); ok {
		rt.Fatalf("goroutines of the node wait for each other for ever:\n%s", d[:min(len(d), 6000)])
	}
	if d, ok := kit.Spinning(); ok {
		rt.Fatalf("a goroutine of the node never rests:\n%s", d)
	}
	fmt.Fprintln(os.Stderr, "HARNESS-ERROR: the case did not end in real time\n"+stuck[:min(len(stuck), 6000)])
	os.Exit(2)
}
