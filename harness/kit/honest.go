package kit

import (
	"encoding/binary"
	"sync"
	"time"

	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/go-elements/transaction"
)

// SFNodeCF is the service bit of peers that serve compact filters (BIP157).
const SFNodeCF = 1 << 6

// Quirk is how an honest peer answers one request for headers.
type Quirk struct {
	Batch   int           // most headers per answer
	Overlap int           // headers below the requested ones that are repeated
	Dup     bool          // the answer is sent twice
	Empty   int           // 1: an empty batch before, 2: one after the answer
	Delay   time.Duration // before answering
}

// Honest is a peer that follows the protocol and owns a chain.
type Honest struct {
	C        *Conn
	Net      Net
	Services uint64
	mu       sync.Mutex
	chain    []*block.Header
	blocks   map[[32]byte]*block.Block
	index    map[[32]byte]int
	filters  map[[32]byte][]byte
	Quirks   []Quirk
	answers  int
	Filters  func(hash [32]byte) // takes over answering a filter request
	NoPong   bool
	Asked    [][32]byte // stop hashes of the filter requests with start height = stop height
	OddAsked []string   // other filter requests
	quit     bool
	Claims   int32            // height announced, if not the chain's
	Future   map[[32]byte]int // heights of the headers that other peers have and this one will have
}

func NewHonest(c *Conn, n Net, chain []*block.Header) *Honest {
	p := &Honest{C: c, Net: n, Services: SFNodeCF | 1, blocks: map[[32]byte]*block.Block{}, index: map[[32]byte]int{}, filters: map[[32]byte][]byte{}}
	p.Grow(chain...)
	return p
}

// Grow appends headers to the peer's chain, silently.
func (p *Honest) Grow(hs ...*block.Header) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, h := range hs {
		p.chain = append(p.chain, h)
		p.index[HeaderHash(h)] = len(p.chain)
	}
}

// AddBlock gives the body of a block.
func (p *Honest) AddBlock(b *block.Block) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.blocks[HeaderHash(b.Header)] = b
}

// AddFilter gives the filter of a block.
func (p *Honest) AddFilter(hash [32]byte, f []byte) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.filters[hash] = f
}

func (p *Honest) Height() int { p.mu.Lock(); defer p.mu.Unlock(); return len(p.chain) }

// Stop ends Run at its next message.
func (p *Honest) Stop() { p.mu.Lock(); p.quit = true; p.mu.Unlock(); p.C.Wake() }

func (p *Honest) stopped() bool { p.mu.Lock(); defer p.mu.Unlock(); return p.quit }

func (p *Honest) send(cmd string, payload []byte) { p.C.Send(Frame(p.Net.Magic, cmd, payload)) }

// Version is the peer's own version message.
func (p *Honest) Version() []byte {
	height := int32(p.Height())
	if p.Claims > 0 {
		height = p.Claims
	}
	v := VersionFields{Version: 70015, Services: p.Services, Timestamp: 1_600_000_000, UserAgent: "/honest:0.1/", StartHeight: height, Relay: true, Nonce: 7}
	return v.Encode()
}

// AnnounceHeaders announces the last n headers in one headers message.
func (p *Honest) AnnounceHeaders(n int) {
	p.mu.Lock()
	hs := append([]*block.Header(nil), p.chain[len(p.chain)-n:]...)
	p.mu.Unlock()
	p.send("headers", EncodeHeaders(hs))
}

// AnnounceInv announces the last block by inventory; the client then asks for it.
func (p *Honest) AnnounceInv() {
	p.mu.Lock()
	h := HeaderHash(p.chain[len(p.chain)-1])
	p.mu.Unlock()
	p.send("inv", EncodeInv([]Inv{{2, h}}))
}

// SendBlock sends a block message.
func (p *Honest) SendBlock(h *block.Header) {
	p.mu.Lock()
	b := p.blocks[HeaderHash(h)]
	p.mu.Unlock()
	if b == nil {
		b = Block(h, SmallTx(uint64(h.Height), nil, ScriptN(uint64(h.Height))))
	}
	p.send("block", EncodeBlock(b))
}

// Run serves the client until it closes the connection or Stop is called.
func (p *Honest) Run() {
	for i := 0; ; i++ {
		m, ok := p.C.Next(i, p.stopped)
		if !ok {
			return
		}
		p.Handle(m.Msg)
	}
}

// Handle answers one message.
func (p *Honest) Handle(m Msg) {
	switch m.Cmd {
	case "version":
		p.send("version", p.Version())
		p.send("verack", nil)
	case "ping":
		if !p.NoPong {
			p.send("pong", m.Payload)
		}
	case "getheaders":
		p.headers(m.Payload)
	case "getcfilters":
		p.cfilters(m.Payload)
	case "getdata":
		inv, err := DecodeInv(m.Payload)
		if err != nil {
			return
		}
		for _, x := range inv {
			p.mu.Lock()
			i := p.index[x.Hash]
			var h *block.Header
			if i > 0 {
				h = p.chain[i-1]
			}
			p.mu.Unlock()
			if h != nil {
				p.SendBlock(h)
			}
		}
	}
}

func (p *Honest) headers(payload []byte) {
	_, loc, stop, err := DecodeGetHeaders(payload)
	if err != nil {
		return
	}
	p.mu.Lock()
	q := Quirk{Batch: 2000}
	if len(p.Quirks) > 0 {
		q = p.Quirks[p.answers%len(p.Quirks)]
	}
	p.answers++
	p.mu.Unlock()
	if q.Delay > 0 {
		time.Sleep(q.Delay)
	}
	p.mu.Lock()
	from := 0
	for _, l := range loc {
		if i, ok := p.index[l]; ok {
			from = i
			break
		}
	}
	lo := from - q.Overlap
	if lo < 0 {
		lo = 0
	}
	hi := from + q.Batch
	if hi > lo+2000 {
		hi = lo + 2000
	}
	if hi > len(p.chain) {
		hi = len(p.chain)
	}
	if s, ok := p.index[stop]; ok && s < hi {
		hi = s
	}
	var hs []*block.Header
	if hi > from {
		hs = append(hs, p.chain[lo:hi]...)
	}
	p.mu.Unlock()
	if q.Empty == 1 {
		p.send("headers", EncodeHeaders(nil))
	}
	p.send("headers", EncodeHeaders(hs))
	if q.Dup {
		p.send("headers", EncodeHeaders(hs))
	}
	if q.Empty == 2 {
		p.send("headers", EncodeHeaders(nil))
	}
}

func (p *Honest) cfilters(payload []byte) {
	typ, start, stop, err := DecodeGetCFilters(payload)
	if err != nil || typ != 0 {
		p.mu.Lock()
		p.OddAsked = append(p.OddAsked, "not a request for regular filters")
		p.mu.Unlock()
		return
	}
	p.mu.Lock()
	i := p.index[stop]
	if i == 0 {
		i = p.Future[stop]
	}
	if i == 0 || uint32(i) != start {
		p.OddAsked = append(p.OddAsked, "filter request whose start height is not the height of its stop block")
	} else {
		p.Asked = append(p.Asked, stop)
	}
	f, ok := p.filters[stop]
	p.mu.Unlock()
	if p.Filters != nil {
		p.Filters(stop)
		return
	}
	if ok {
		p.send("cfilter", EncodeCFilter(0, stop, f))
	}
}

// SendFilter sends a filter message.
func (p *Honest) SendFilter(typ uint8, hash [32]byte, f []byte) {
	p.send("cfilter", EncodeCFilter(typ, hash, f))
}

// AskedFor lists the blocks whose filter alone was requested, and the other filter requests.
func (p *Honest) AskedFor() ([][32]byte, []string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([][32]byte(nil), p.Asked...), append([]string(nil), p.OddAsked...)
}

// TxN is the transaction number n of the harness.
func TxN(n uint64) *transaction.Transaction { return SmallTx(n, nil, ScriptN(n)) }

// PingPayload is the payload of a ping or pong.
func PingPayload(n uint64) []byte { return binary.LittleEndian.AppendUint64(nil, n) }
