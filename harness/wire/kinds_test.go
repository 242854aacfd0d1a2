package wire

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/pkg/binary"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
	"github.com/vulpemventures/neutrino-elements/verifharness/kit"
	"io"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { kit.Main(m) }

var magics = map[string][4]byte{
	"liquid":  {0xfa, 0xbf, 0xb5, 0xda},
	"testnet": {0x41, 0x0e, 0xdd, 0x62},
	"regtest": {0x12, 0x34, 0x56, 0x78},
}
var networks = []string{"liquid", "testnet", "regtest"}

var known = []string{"block", "getdata", "inv", "ping", "pong", "tx", "verack", "version", "addr", "notfound", "getblocks",
	"getheaders", "headers", "getaddr", "mempool", "checkorder", "submitorder", "reply", "reject", "filterload", "filteradd",
	"filterclear", "merkleblock", "alert", "sendheaders", "feefilter", "sendcmpct", "cmpctblock", "getblocktxn", "blocktxn",
	"getcfilters", "cfilter", "wtxidrelay", "sendaddrv2"}

func isKnown(s string) bool {
	for _, k := range known {
		if k == s {
			return true
		}
	}
	return false
}

// a kind is something decodable: it draws a value, knows its reference bytes, and compares a decoded value with the drawn one.
type kind struct {
	name string
	// gen draws a value; returns its reference encoding, a check of a decoded value and a description
	gen func(t *rapid.T) (payload []byte, check func(v any) error)
	// fresh is a new decoding target
	fresh func() any
	// toEOF: decoding consumes the reader to its end (payload framed from outside)
	toEOF bool
	// truthKind is kit.Truthful's name for payloads decoded by go-elements
	truthKind string
	// heavy kinds get a smaller share
	small bool
}

func decode(r io.Reader, v any) error { return binary.NewDecoder(r).Decode(v) }

func eq(what string, got, want any) error {
	if g, ok := got.([]byte); ok {
		if !bytes.Equal(g, want.([]byte)) {
			return fmt.Errorf("%s: got %x want %x", what, cut(g), cut(want.([]byte)))
		}
		return nil
	}
	if got != want {
		return fmt.Errorf("%s: got %v want %v", what, got, want)
	}
	return nil
}

func cut(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}

func first(errs ...error) error {
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

func genVersion(t *rapid.T) kit.VersionFields {
	ip := func(l string) (a [4]byte) {
		copy(a[:], kit.Expand(rapid.Uint64().Draw(t, l), 4))
		return
	}
	return kit.VersionFields{
		Version: rapid.Int32().Draw(t, "version"), Services: rapid.Uint64().Draw(t, "services"),
		Timestamp: rapid.Int64().Draw(t, "time"), RecvServices: rapid.Uint64().Draw(t, "recv services"), RecvIP: ip("recv ip"),
		RecvPort: rapid.Uint16().Draw(t, "recv port"), FromServices: rapid.Uint64().Draw(t, "from services"), FromIP: ip("from ip"),
		FromPort: rapid.Uint16().Draw(t, "from port"), Nonce: rapid.Uint64().Draw(t, "nonce"),
		UserAgent: string(kit.Blob(t, 70000, "ua")), StartHeight: rapid.Int32().Draw(t, "start"), Relay: rapid.Bool().Draw(t, "relay"),
	}
}

func toMsgVersion(f kit.VersionFields) protocol.MsgVersion {
	return protocol.MsgVersion{Version: f.Version, Services: f.Services, Timestamp: f.Timestamp,
		AddrRecv: protocol.VersionNetAddr{Services: f.RecvServices, IP: f.RecvIP, Port: f.RecvPort},
		AddrFrom: protocol.VersionNetAddr{Services: f.FromServices, IP: f.FromIP, Port: f.FromPort},
		Nonce:    f.Nonce, UserAgent: protocol.NewUserAgent(f.UserAgent), StartHeight: f.StartHeight, Relay: f.Relay}
}

func fromMsgVersion(v *protocol.MsgVersion) kit.VersionFields {
	return kit.VersionFields{Version: v.Version, Services: v.Services, Timestamp: v.Timestamp,
		RecvServices: v.AddrRecv.Services, RecvIP: v.AddrRecv.IP, RecvPort: v.AddrRecv.Port,
		FromServices: v.AddrFrom.Services, FromIP: v.AddrFrom.IP, FromPort: v.AddrFrom.Port,
		Nonce: v.Nonce, UserAgent: v.UserAgent.String, StartHeight: v.StartHeight, Relay: v.Relay}
}

func genInv(t *rapid.T, max int) []kit.Inv {
	n := kit.Size(t, max, "items")
	items := make([]kit.Inv, n)
	if n > 16 {
		seed := rapid.Uint64().Draw(t, "items seed")
		for i := range items {
			b := kit.Expand(seed+uint64(i), 33)
			items[i].Type = uint32(b[32] % 7)
			copy(items[i].Hash[:], b)
		}
		return items
	}
	for i := range items {
		items[i] = kit.Inv{Type: rapid.OneOf(rapid.Uint32Range(0, 5), rapid.Uint32(), rapid.SampledFrom([]uint32{1 << 30, 1<<30 | 1, 1<<30 | 2})).Draw(t, "type"), Hash: kit.Hash32(t, "hash")}
	}
	return items
}

func genHeaders(t *rapid.T, max int) []*block.Header {
	n := kit.Size(t, max, "headers")
	hs := make([]*block.Header, n)
	if n > 12 {
		h := kit.Header(t, "template", 20)
		seed := rapid.Uint64().Draw(t, "headers seed")
		for i := range hs {
			c := *h
			c.PrevBlockHash, c.Height = kit.Expand(seed+uint64(i), 32), uint32(i)
			hs[i] = &c
		}
		return hs
	}
	for i := range hs {
		hs[i] = kit.Header(t, "header", 300)
	}
	return hs
}

func genLocator(t *rapid.T, max int) [][32]byte {
	n := kit.Size(t, max, "locator")
	out := make([][32]byte, n)
	seed := rapid.Uint64().Draw(t, "locator seed")
	for i := range out {
		copy(out[i][:], kit.Expand(seed+uint64(i), 32))
	}
	return out
}

func genBlock(t *rapid.T) *block.Block {
	n := kit.Size(t, 4, "txs")
	b := &block.Block{Header: kit.Header(t, "header", 300), TransactionsData: &block.Transactions{}}
	for i := 0; i < n; i++ {
		b.TransactionsData.Transactions = append(b.TransactionsData.Transactions, kit.Tx(t, "tx", 3, 3, 300))
	}
	return b
}

func sameTx(got, want *transaction.Transaction) error {
	// the reference encoder shows every field; the flag tells whether there is a witness section
	return first(eq("flag", got.Flag == 1, want.Flag == 1), eq("transaction", kit.TxBytes(got), kit.TxBytes(want)))
}

func sameHeader(got, want *block.Header) error {
	return first(eq("header kind", got.ExtData.IsDyna, want.ExtData.IsDyna), eq("header", kit.EncodeHeader(got, false), kit.EncodeHeader(want, false)))
}

func invItems(v []protocol.InvVector) []kit.Inv {
	out := make([]kit.Inv, len(v))
	for i, x := range v {
		out[i] = kit.Inv{Type: x.Type, Hash: x.Hash}
	}
	return out
}

var kinds = []kind{
	{name: "header", fresh: func() any { return new(protocol.MessageHeader) }, gen: func(t *rapid.T) ([]byte, func(any) error) {
		w := &kit.W{}
		w.Raw(kit.Expand(rapid.Uint64().Draw(t, "magic"), 4))
		c := kit.CommandBytes(rapid.SampledFrom(known).Draw(t, "cmd"))
		w.Raw(c[:])
		n := rapid.Uint32().Draw(t, "len")
		w.U32(n)
		w.Raw(kit.Expand(rapid.Uint64().Draw(t, "checksum"), 4))
		return w.B, func(v any) error {
			h := v.(*protocol.MessageHeader)
			return first(eq("magic", h.Magic[:], w.B[:4]), eq("cmd", h.Command[:], w.B[4:16]), eq("len", h.Length, n), eq("sum", h.Checksum[:], w.B[20:24]))
		}
	}},
	{name: "version", fresh: func() any { return new(protocol.MsgVersion) }, gen: func(t *rapid.T) ([]byte, func(any) error) {
		f := genVersion(t)
		return f.Encode(), func(v any) error {
			return first(eq("version", fromMsgVersion(v.(*protocol.MsgVersion)), f))
		}
	}},
	{name: "headers", truthKind: "headers", toEOF: true, fresh: func() any { return new(protocol.MsgHeaders) }, gen: func(t *rapid.T) ([]byte, func(any) error) {
		hs := genHeaders(t, 2000)
		return kit.EncodeHeaders(hs), func(v any) error {
			got := v.(*protocol.MsgHeaders).Headers
			if len(got) != len(hs) {
				return fmt.Errorf("got %d headers, want %d", len(got), len(hs))
			}
			for i := range hs {
				if err := sameHeader(got[i], hs[i]); err != nil {
					return fmt.Errorf("entry %d: %w", i, err)
				}
			}
			return nil
		}
	}},
	{name: "inv", fresh: func() any { return new(protocol.MsgInv) }, gen: func(t *rapid.T) ([]byte, func(any) error) {
		items := genInv(t, 50000)
		return kit.EncodeInv(items), func(v any) error {
			m := v.(*protocol.MsgInv)
			n, err := m.Count.Int()
			return first(err, eq("count", n, len(items)), eq("items", kit.EncodeInv(invItems(m.Inventory)), kit.EncodeInv(items)))
		}
	}},
	{name: "cfilter", fresh: func() any { return new(protocol.MsgCFilter) }, gen: func(t *rapid.T) ([]byte, func(any) error) {
		h := kit.Hash32(t, "block")
		f := kit.Filter(t, h, 1200, "filter")
		return kit.EncodeCFilter(0, h, f), func(v any) error {
			m := v.(*protocol.MsgCFilter)
			got, err := m.Filter.NBytes()
			return first(err, eq("type", m.FilterType, uint8(0)), eq("block", [32]byte(*m.BlockHash), h), eq("filter", got, f))
		}
	}},
	{name: "getcfilters", fresh: func() any { return new(protocol.MsgGetCFilters) }, gen: func(t *rapid.T) ([]byte, func(any) error) {
		typ, start, stop := rapid.Byte().Draw(t, "type"), rapid.Uint32().Draw(t, "start"), kit.Hash32(t, "stop")
		return kit.EncodeGetCFilters(typ, start, stop), func(v any) error {
			m := v.(*protocol.MsgGetCFilters)
			return first(eq("type", m.FilterType, typ), eq("start", m.StartHeight, start), eq("stop", m.StopHash, stop))
		}
	}},
	{name: "getheaders", fresh: func() any { return new(protocol.MsgGetHeaders) }, gen: func(t *rapid.T) ([]byte, func(any) error) {
		ver, loc, stop := rapid.Uint32().Draw(t, "version"), genLocator(t, 500), kit.Hash32(t, "stop")
		return kit.EncodeGetHeaders(ver, loc, stop), func(v any) error {
			m := v.(*protocol.MsgGetHeaders)
			return first(eq("getheaders", kit.EncodeGetHeaders(m.Version, [][32]byte(m.BlockLocatorHashes), m.HashStop), kit.EncodeGetHeaders(ver, loc, stop)))
		}
	}},
	{name: "block", truthKind: "block", toEOF: true, fresh: func() any { return new(protocol.MsgBlock) }, gen: func(t *rapid.T) ([]byte, func(any) error) {
		b := genBlock(t)
		return kit.EncodeBlock(b), func(v any) error {
			m := v.(*protocol.MsgBlock)
			if err := sameHeader(m.Header, b.Header); err != nil {
				return err
			}
			got, want := m.TransactionsData.Transactions, b.TransactionsData.Transactions
			if len(got) != len(want) {
				return fmt.Errorf("got %d transactions, want %d", len(got), len(want))
			}
			for i := range want {
				if err := sameTx(got[i], want[i]); err != nil {
					return fmt.Errorf("transaction %d: %w", i, err)
				}
			}
			return nil
		}
	}},
	{name: "tx", truthKind: "tx", toEOF: true, fresh: func() any { return new(protocol.MsgTx) }, gen: func(t *rapid.T) ([]byte, func(any) error) {
		tx := kit.Tx(t, "tx", 300, 300, 600)
		id := kit.TxIDStr(tx)
		return kit.TxBytes(tx), func(v any) error {
			m := v.(*protocol.MsgTx)
			h, err := m.Hash()
			return first(err, sameTx(&m.Transaction, tx), eq("txid string", m.HashStr(), id), eq("txid", fmt.Sprintf("%x", h), id))
		}
	}},
	{name: "ping", small: true, fresh: func() any { return new(protocol.MsgPing) }, gen: func(t *rapid.T) ([]byte, func(any) error) {
		n := rapid.Uint64().Draw(t, "nonce")
		return w64(n), func(v any) error { return eq("nonce", v.(*protocol.MsgPing).Nonce, n) }
	}},
	{name: "pong", small: true, fresh: func() any { return new(protocol.MsgPong) }, gen: func(t *rapid.T) ([]byte, func(any) error) {
		n := rapid.Uint64().Draw(t, "nonce")
		return w64(n), func(v any) error { return eq("nonce", v.(*protocol.MsgPong).Nonce, n) }
	}},
	{name: "sendcmpct", small: true, fresh: func() any { return new(protocol.MsgSendCmpct) }, gen: func(t *rapid.T) ([]byte, func(any) error) {
		b, n := rapid.Bool().Draw(t, "flag"), rapid.Uint64().Draw(t, "version")
		w := &kit.W{}
		w.Bool(b)
		w.U64(n)
		return w.B, func(v any) error {
			m := v.(*protocol.MsgSendCmpct)
			return first(eq("flag", m.LowBandwitdhType, b), eq("version", m.Version, n))
		}
	}},
	{name: "string", small: true, fresh: func() any { return new(protocol.VarStr) }, gen: func(t *rapid.T) ([]byte, func(any) error) {
		s := kit.Blob(t, 70000, "string")
		w := &kit.W{}
		w.VarBytes(s)
		return w.B, func(v any) error { return eq("string", []byte(v.(*protocol.VarStr).String), s) }
	}},
	{name: "varint", small: true, fresh: func() any { return new(protocol.VarInt) }, gen: func(t *rapid.T) ([]byte, func(any) error) {
		n := genNumber(t, "n")
		return kit.Varint(n), func(v any) error { return eq("value", varValue(v.(*protocol.VarInt)), n) }
	}},
	{name: "locator", small: true, fresh: func() any { return new(protocol.BlockLocators) }, gen: func(t *rapid.T) ([]byte, func(any) error) {
		loc := genLocator(t, 600)
		w := &kit.W{}
		w.Var(uint64(len(loc)))
		for _, h := range loc {
			w.Raw(h[:])
		}
		return w.B, func(v any) error {
			got := *v.(*protocol.BlockLocators)
			if len(got) != len(loc) {
				return fmt.Errorf("got %d entries, want %d", len(got), len(loc))
			}
			for i := range loc {
				if got[i] != loc[i] {
					return fmt.Errorf("entry %d: got %x want %x", i, got[i], loc[i])
				}
			}
			return nil
		}
	}},
	{name: "netaddr", small: true, fresh: func() any { return new(protocol.VersionNetAddr) }, gen: func(t *rapid.T) ([]byte, func(any) error) {
		f := genVersion(t)
		return f.Encode()[20:46], func(v any) error {
			a := v.(*protocol.VersionNetAddr)
			return first(eq("services", a.Services, f.RecvServices), eq("ip", [4]byte(a.IP), f.RecvIP), eq("port", a.Port, f.RecvPort))
		}
	}},
	{name: "hash", small: true, fresh: func() any { return new([32]byte) }, gen: func(t *rapid.T) ([]byte, func(any) error) {
		h := kit.Hash32(t, "hash")
		return h[:], func(v any) error { return eq("hash", *v.(*[32]byte), h) }
	}},
	{name: "scalars", small: true, fresh: func() any { return new(scalars) }, gen: func(t *rapid.T) ([]byte, func(any) error) {
		s := scalars{rapid.Bool().Draw(t, "a"), rapid.Int32().Draw(t, "b"), rapid.Int64().Draw(t, "c"), rapid.Byte().Draw(t, "d"),
			rapid.Uint16().Draw(t, "e"), rapid.Uint32().Draw(t, "f"), rapid.Uint64().Draw(t, "g"), [4]byte{}, [12]byte{}}
		copy(s.H[:], kit.Expand(rapid.Uint64().Draw(t, "h"), 4))
		copy(s.I[:], kit.Expand(rapid.Uint64().Draw(t, "i"), 12))
		w := &kit.W{}
		w.Bool(s.A)
		w.U32(uint32(s.B))
		w.U64(uint64(s.C))
		w.U8(s.D)
		w.U16BE(s.E)
		w.U32(s.F)
		w.U64(s.G)
		w.Raw(s.H[:])
		w.Raw(s.I[:])
		return w.B, func(v any) error { return eq("scalars", *v.(*scalars), s) }
	}},
}

type scalars struct {
	A bool
	B int32
	C int64
	D uint8
	E uint16
	F uint32
	G uint64
	H [4]byte
	I [12]byte
}

func w64(n uint64) []byte { w := &kit.W{}; w.U64(n); return w.B }

func varValue(v *protocol.VarInt) uint64 {
	switch x := v.Value.(type) {
	case uint8:
		return uint64(x)
	case uint16:
		return uint64(x)
	case uint32:
		return uint64(x)
	case uint64:
		return x
	}
	return 0xdeadbeefdeadbeef
}

// genNumber favours the borders of the four forms.
func genNumber(t *rapid.T, label string) uint64 {
	switch rapid.IntRange(0, 3).Draw(t, label+" kind") {
	case 0:
		base := rapid.SampledFrom([]uint64{0, 0xfc, 0xfd, 0xff, 0x100, 0xffff, 0x10000, 0xffffffff, 0x100000000, 1<<63 - 1, 1 << 63, 1<<64 - 1}).Draw(t, label+" border")
		d := rapid.Int64Range(-2, 2).Draw(t, label+" offset")
		return base + uint64(d)
	case 1:
		return rapid.Uint64().Draw(t, label) >> rapid.UintRange(0, 63).Draw(t, label+" shift")
	case 2:
		return uint64(rapid.Uint16().Draw(t, label))
	}
	return rapid.Uint64().Draw(t, label)
}

func drawKind(t *rapid.T) kind {
	return kinds[rapid.IntRange(0, len(kinds)-1).Draw(t, "kind")]
}
