package kit

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/btcsuite/btcd/blockchain"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
)

// ErrInjected is what injected faults return.
var ErrInjected = errors.New("injected failure")

// Bubble runs f under a fake clock that moves when everything is blocked. It returns the
// description of goroutines that were still alive when f returned, if any, and whether the
// bubble got stuck in real time (a goroutine waits for something the fake clock cannot bring).
func Bubble(t *testing.T, f func()) (leaked, stuck string) {
	var over atomic.Bool
	type result struct {
		leaked string
		panic  any
	}
	done := make(chan result, 1)
	go func() {
		var res result
		defer func() {
			if r := recover(); r != nil {
				if s := fmt.Sprint(r); strings.Contains(s, "deadlock") {
					res.leaked = s + "\n" + repoStacks()
				} else {
					res.panic = r
				}
			}
			done <- res
		}()
		synctest.Test(t, func(*testing.T) { defer over.Store(true); f() })
	}()
	begin, ended := time.Now(), time.Time{}
	tick := time.NewTicker(100 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case res := <-done:
			if res.panic != nil {
				panic(res.panic)
			}
			return res.leaked, ""
		case <-tick.C:
		}
		if over.Load() {
			// the case itself is over; what it left behind may keep the bubble from ending
			if ended.IsZero() {
				ended = time.Now()
			} else if time.Since(ended) > 5*time.Second {
				return "goroutines left behind keep running\n" + repoStacks(), ""
			}
		} else if time.Since(begin) > BubbleLimit {
			buf := make([]byte, 64<<20)
			return "", string(buf[:runtime.Stack(buf, true)])
		}
	}
}

// BubbleLimit is the real time one bubble may take.
var BubbleLimit = 60 * time.Second

// Deadlocked tells a bubble whose goroutines wait for each other's locks from one that is merely slow.
func Deadlocked(stuck string) (string, bool) {
	re := regexp.MustCompile(`(?m)^goroutine (\d+) [^\[]*\[([^\]]*)\]`)
	parse := func(s string) map[string][2]string {
		m := map[string][2]string{}
		for _, g := range strings.Split(s, "\n\n") {
			h := re.FindStringSubmatch(g)
			if h != nil && strings.Contains(h[2], "synctest bubble") && repoFrame.MatchString(g) {
				m[h[1]] = [2]string{h[2], g}
			}
		}
		return m
	}
	time.Sleep(time.Second)
	buf := make([]byte, 64<<20)
	now := parse(string(buf[:runtime.Stack(buf, true)]))
	var text []string
	for id, a := range parse(stuck) {
		b, ok := now[id]
		if !ok || strings.Contains(a[0], "runn") || strings.Contains(b[0], "runn") || strings.Contains(b[0], "syscall") {
			return "", false
		}
		if strings.Contains(b[0], "Mutex") {
			text = append(text, b[1])
		}
	}
	return strings.Join(text, "\n\n"), len(text) > 0
}

// Spinning tells a bubble that does not advance because a goroutine of the code under test never rests from one that
// is merely slow: the same goroutine, alone in the latest bubble, is running whenever one looks, for seconds.
func Spinning() (string, bool) {
	bubble := regexp.MustCompile(`^goroutine [^\n]*synctest bubble (\d+)`)
	var id, text string
	for i := 0; i < 20; i++ {
		time.Sleep(250 * time.Millisecond)
		buf := make([]byte, 64<<20)
		all := strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n")
		active, latest := 0, 0
		in := func(g string) (n int) {
			if m := bubble.FindStringSubmatch(g); m != nil {
				n, _ = strconv.Atoi(m[1])
			}
			return
		}
		for _, g := range all {
			latest = max(latest, in(g))
		}
		for _, g := range all {
			m := header.FindStringSubmatch(g)
			if m == nil || latest == 0 || in(g) != latest || m[2] != "running" && m[2] != "runnable" {
				continue
			}
			active++
			if !repoFrame.MatchString(g) || kitFrame.MatchString(stackOnly(g)) || id != "" && id != m[1] {
				return "", false
			}
			id, text = m[1], g
		}
		if active != 1 {
			return "", false
		}
	}
	return text, true
}

func repoStacks() string { return strings.Join(stacks("synctest bubble"), "\n\n") }

func stacks(mark string) (out []string) {
	buf := make([]byte, 64<<20)
	for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if strings.Contains(head, mark) && repoFrame.MatchString(g) {
			out = append(out, g)
		}
		if len(out) >= 6 {
			break
		}
	}
	return out
}

// RepoGoroutines lists the goroutines of the calling bubble that run or were left by the code under test.
func RepoGoroutines() []string {
	buf := make([]byte, 1<<12)
	me := string(buf[:runtime.Stack(buf, false)])
	i := strings.Index(me, "synctest bubble ")
	if i < 0 {
		return nil
	}
	j := i + strings.IndexAny(me[i:], "]")
	return stacks(me[i:j] + "]")
}

// Sent is a message the client wrote.
type Sent struct {
	At time.Time
	Msg
}

// Conn is the client's end of an in-memory connection to a scripted peer. Writes never block.
type Conn struct {
	mu            sync.Mutex
	cond          *sync.Cond
	Local, Remote string
	in            []byte
	eof           bool
	segs          []int
	segi          int
	out           []byte
	sent          []Sent
	closed        bool
	closedAt      time.Time
	failWrites    bool
	failedWrites  int
	bad           error
	Hold          func() // called before every operation of the client
	flood         bool
}

// FloodLimit is how many messages a client may send on one connection within a case.
const FloodLimit = 60000

func NewConn(local, remote string, segs []int) *Conn {
	c := &Conn{Local: local, Remote: remote, segs: segs}
	c.cond = sync.NewCond(&c.mu)
	return c
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

func (c *Conn) LocalAddr() net.Addr              { return addr(c.Local) }
func (c *Conn) RemoteAddr() net.Addr             { return addr(c.Remote) }
func (c *Conn) SetDeadline(time.Time) error      { return nil }
func (c *Conn) SetReadDeadline(time.Time) error  { return nil }
func (c *Conn) SetWriteDeadline(time.Time) error { return nil }

func (c *Conn) hold() {
	if c.Hold != nil {
		c.Hold()
	}
}

func (c *Conn) Read(p []byte) (int, error) {
	c.hold()
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(c.in) > 0 {
			n := len(p)
			if len(c.segs) > 0 {
				if s := c.segs[c.segi%len(c.segs)]; s > 0 && s < n {
					n = s
				}
				c.segi++
			}
			n = copy(p[:n], c.in)
			c.in = c.in[n:]
			return n, nil
		}
		if c.eof {
			return 0, io.EOF
		}
		c.cond.Wait()
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	c.hold()
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.failWrites {
		c.failedWrites++
		return 0, ErrInjected
	}
	c.out = append(c.out, p...)
	for {
		m, rest, ok, err := Unframe(c.out)
		if err != nil && c.bad == nil {
			c.bad = err
		}
		if !ok {
			break
		}
		c.out = rest
		c.sent = append(c.sent, Sent{time.Now(), m})
	}
	for len(c.sent) > FloodLimit {
		// the client never comes to rest: stop it here, so that the case ends
		c.flood = true
		c.cond.Wait()
	}
	c.cond.Broadcast()
	return len(p), nil
}

func (c *Conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if !c.closed {
		c.closed, c.closedAt = true, time.Now()
	}
	c.cond.Broadcast()
	return nil
}

// Send gives the client bytes to read.
func (c *Conn) Send(b []byte) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.in = append(c.in, b...)
	c.cond.Broadcast()
}

// Hangup ends the stream of bytes the client reads.
func (c *Conn) Hangup() { c.mu.Lock(); defer c.mu.Unlock(); c.eof = true; c.cond.Broadcast() }

// FailWrites makes every later write fail.
func (c *Conn) FailWrites() { c.mu.Lock(); defer c.mu.Unlock(); c.failWrites = true }

// Wake wakes up Next, for conditions outside the connection.
func (c *Conn) Wake() { c.mu.Lock(); defer c.mu.Unlock(); c.cond.Broadcast() }

// Next waits for the i-th message of the client; false when it closed the connection first or stop holds.
func (c *Conn) Next(i int, stop func() bool) (Sent, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for len(c.sent) <= i {
		if c.closed || (stop != nil && stop()) {
			return Sent{}, false
		}
		c.cond.Wait()
	}
	return c.sent[i], true
}

// Log is everything the client sent so far.
func (c *Conn) Log() []Sent { c.mu.Lock(); defer c.mu.Unlock(); return append([]Sent(nil), c.sent...) }

// State reports whether the client closed the connection, and when.
func (c *Conn) State() (closed bool, at time.Time) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed, c.closedAt
}

// Unread is how many bytes the client has not read.
func (c *Conn) Unread() int { c.mu.Lock(); defer c.mu.Unlock(); return len(c.in) }

// Bad reports bytes the client wrote that are no complete, well-formed messages.
func (c *Conn) Bad() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.bad != nil {
		return c.bad
	}
	if c.flood {
		return fmt.Errorf("the client sent more than %d messages without coming to rest (the last: %s, %s)", FloodLimit, c.sent[FloodLimit].Cmd, c.sent[FloodLimit-1].Cmd)
	}
	if len(c.out) > 0 {
		return fmt.Errorf("%d bytes written that are no complete message", len(c.out))
	}
	return nil
}

// Faults decides which calls of a fake fail: the i-th call fails if Plan[i] holds.
type Faults struct {
	mu    sync.Mutex
	Plan  []bool
	calls int
	armed int
	Fired int
	down  bool
}

// Down makes every call fail until it is told otherwise.
func (f *Faults) Down(is bool) { f.mu.Lock(); defer f.mu.Unlock(); f.down = is }

// Arm makes the next k calls fail.
func (f *Faults) Arm(k int) { f.mu.Lock(); defer f.mu.Unlock(); f.armed = k }

func (f *Faults) hit() bool {
	if f == nil {
		return false
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	i := f.calls
	f.calls++
	if f.down {
		f.Fired++
		return true
	}
	if f.armed > 0 {
		f.armed--
		f.Fired++
		return true
	}
	if i < len(f.Plan) && f.Plan[i] {
		f.Fired++
		return true
	}
	return false
}

// Hit counts a call and reports whether it must fail.
func (f *Faults) Hit() bool { return f.hit() }

// Fires reports how many calls failed.
func (f *Faults) Fires() int { f.mu.Lock(); defer f.mu.Unlock(); return f.Fired }

// Headers is a reference header store that records how it is used and checks, after every
// write, that what it holds is one chain.
type Headers struct {
	mu       sync.Mutex
	byHash   map[[32]byte]*block.Header
	byHeight map[uint32][][32]byte
	tip      uint32
	Writes   int
	Reads    int
	Problems []string
	WriteF   *Faults
	ReadF    *Faults
	OnWrite  func(h *block.Header)
	Delay    func()
	ReadHook func(op string) error // may fail any read
}

func NewHeaders(initial []*block.Header) *Headers {
	h := &Headers{byHash: map[[32]byte]*block.Header{}, byHeight: map[uint32][][32]byte{}}
	for _, x := range initial {
		h.put(x)
	}
	return h
}

func (s *Headers) put(x *block.Header) bool {
	k := HeaderHash(x)
	if _, ok := s.byHash[k]; ok {
		return false
	}
	c := *x
	s.byHash[k] = &c
	s.byHeight[x.Height] = append(s.byHeight[x.Height], k)
	if x.Height > s.tip {
		s.tip = x.Height
	}
	return true
}

// Put adds a header directly.
func (s *Headers) Put(x *block.Header) { s.mu.Lock(); defer s.mu.Unlock(); s.put(x) }

func (s *Headers) problem(f string, a ...any) {
	if len(s.Problems) < 20 {
		s.Problems = append(s.Problems, fmt.Sprintf(f, a...))
	}
}

func (s *Headers) read(ops ...string) error {
	if s.Delay != nil {
		s.Delay()
	}
	if s.ReadHook != nil {
		if err := s.ReadHook(strings.Join(ops, "")); err != nil {
			return err
		}
	}
	s.mu.Lock()
	s.Reads++
	s.mu.Unlock()
	if s.ReadF.hit() {
		return ErrInjected
	}
	return nil
}

func (s *Headers) ChainTip(context.Context) (*block.Header, error) {
	if err := s.read(); err != nil {
		return nil, err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.byHash) == 0 {
		return nil, repository.ErrNoBlocksHeaders
	}
	c := *s.byHash[s.byHeight[s.tip][0]]
	return &c, nil
}

func (s *Headers) GetBlockHeader(_ context.Context, h chainhash.Hash) (*block.Header, error) {
	if err := s.read(); err != nil {
		return nil, err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	x, ok := s.byHash[h]
	if !ok {
		return nil, repository.ErrBlockNotFound
	}
	c := *x
	return &c, nil
}

func (s *Headers) GetBlockHashByHeight(_ context.Context, h uint32) (*chainhash.Hash, error) {
	if err := s.read(fmt.Sprint(h)); err != nil {
		return nil, err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	k := s.byHeight[h]
	if len(k) == 0 {
		return nil, repository.ErrBlockNotFound
	}
	return ToHash(k[0]), nil
}

func (s *Headers) WriteHeaders(_ context.Context, hs ...block.Header) error {
	if s.Delay != nil {
		s.Delay()
	}
	s.mu.Lock()
	s.Writes++
	s.mu.Unlock()
	if s.WriteF.hit() {
		return ErrInjected
	}
	s.mu.Lock()
	var fresh []*block.Header
	for i := range hs {
		x := &hs[i]
		before := s.tip
		if !s.put(x) {
			continue
		}
		fresh = append(fresh, x)
		if len(s.byHeight[x.Height]) > 1 {
			s.problem("a second header was stored at height %d", x.Height)
			continue
		}
		if x.Height != before+1 {
			s.problem("header of height %d stored when the tip was %d", x.Height, before)
			continue
		}
		if x.Height > 1 {
			if p := s.byHeight[x.Height-1]; !bytes.Equal(x.PrevBlockHash, p[0][:]) {
				s.problem("header of height %d stored that does not link to the stored header below", x.Height)
			}
		}
	}
	f := s.OnWrite
	s.mu.Unlock()
	if f != nil {
		for _, x := range fresh {
			f(x)
		}
	}
	return nil
}

func (s *Headers) LatestBlockLocator(context.Context) (blockchain.BlockLocator, error) {
	if err := s.read(); err != nil {
		return nil, err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.byHash) == 0 {
		return nil, repository.ErrNoBlocksHeaders
	}
	var l blockchain.BlockLocator
	step := uint32(1)
	for h := s.tip; h > 0 && len(l) < 500; {
		if k := s.byHeight[h]; len(k) > 0 {
			l = append(l, ToHash(k[0]))
		}
		if len(l) >= 10 {
			step *= 2
		}
		if step >= h {
			break
		}
		h -= step
	}
	return l, nil
}

func (s *Headers) HasAllAncestors(_ context.Context, h chainhash.Hash) (bool, error) {
	if err := s.read(); err != nil {
		return false, err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	x, ok := s.byHash[h]
	if !ok {
		return false, repository.ErrBlockNotFound
	}
	for x.Height > 1 {
		if x, ok = s.byHash[[32]byte(x.PrevBlockHash)]; !ok {
			return false, nil
		}
	}
	return true, nil
}

// Tip is the height of the highest header (0 if none) and how many are stored.
func (s *Headers) Tip() (uint32, int) { s.mu.Lock(); defer s.mu.Unlock(); return s.tip, len(s.byHash) }

// Counts returns the numbers of write and read calls so far.
func (s *Headers) Counts() (w, r int) { s.mu.Lock(); defer s.mu.Unlock(); return s.Writes, s.Reads }

// Broken lists what was wrong with the stored chain at some moment.
func (s *Headers) Broken() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string(nil), s.Problems...)
}

// Diff compares the store with a chain.
func (s *Headers) Diff(chain []*block.Header) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, x := range chain {
		y, ok := s.byHash[HeaderHash(x)]
		if !ok {
			return fmt.Sprintf("header of height %d is missing (%d of %d stored, tip %d)", x.Height, len(s.byHash), len(chain), s.tip)
		}
		if !bytes.Equal(EncodeHeader(x, false), EncodeHeader(y, false)) {
			return fmt.Sprintf("header of height %d was altered", x.Height)
		}
	}
	if len(s.byHash) != len(chain) {
		return fmt.Sprintf("%d headers stored, the chain has %d", len(s.byHash), len(chain))
	}
	return ""
}

// Filters is a reference filter store that records how it is used.
type Filters struct {
	mu    sync.Mutex
	m     map[string][]byte
	Puts  int
	Gets  int
	PutF  *Faults
	GetF  *Faults
	Delay func()

	GetHook func(k repository.FilterKey) error // may fail any look-up

	lost map[string]bool // whose put has failed
}

func NewFilters() *Filters { return &Filters{m: map[string][]byte{}} }

func fkey(hash []byte, typ byte) string { return string(hash) + string(rune(typ)) }

func (s *Filters) PutFilter(_ context.Context, e *repository.FilterEntry) error {
	if s.Delay != nil {
		s.Delay()
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Puts++
	k := fkey(e.Key.BlockHash, byte(e.Key.FilterType))
	if s.PutF.hit() {
		if s.lost == nil {
			s.lost = map[string]bool{}
		}
		s.lost[k] = true
		return ErrInjected
	}
	if _, ok := s.m[k]; !ok {
		s.m[k] = append([]byte(nil), e.NBytes...)
	}
	return nil
}

func (s *Filters) GetFilter(_ context.Context, k repository.FilterKey) (*repository.FilterEntry, error) {
	if s.Delay != nil {
		s.Delay()
	}
	if s.GetHook != nil {
		if err := s.GetHook(k); err != nil {
			return nil, err
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Gets++
	if s.GetF.hit() {
		return nil, ErrInjected
	}
	b, ok := s.m[fkey(k.BlockHash, byte(k.FilterType))]
	if !ok {
		return nil, repository.ErrFilterNotFound
	}
	return &repository.FilterEntry{Key: k, NBytes: append([]byte(nil), b...)}, nil
}

// Set stores a filter directly.
func (s *Filters) Set(hash [32]byte, b []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.m[fkey(hash[:], 0)] = append([]byte(nil), b...)
}

// Get looks a regular filter up directly.
func (s *Filters) Get(hash [32]byte) ([]byte, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	b, ok := s.m[fkey(hash[:], 0)]
	return b, ok
}

// Failed tells whether storing a block's regular filter has failed.
func (s *Filters) Failed(hash [32]byte) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.lost[fkey(hash[:], 0)]
}

// Len is the number of filters of any type.
func (s *Filters) Len() int { s.mu.Lock(); defer s.mu.Unlock(); return len(s.m) }

// Counts returns the numbers of put and get calls.
func (s *Filters) Counts() (p, g int) { s.mu.Lock(); defer s.mu.Unlock(); return s.Puts, s.Gets }
