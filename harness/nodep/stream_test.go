package nodep

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"
	"testing/synctest"
	"time"

	"github.com/vulpemventures/neutrino-elements/verifharness/kit"
	"pgregory.net/rapid"
)

type step struct {
	Name  string
	Bytes []byte
	Pong  []byte // nonce of the expected answer
	Inv   []byte // payload of the expected getdata
	// what it would store if it were taken at face value
	Stores bool
}

var knownCmds = []string{"block", "getdata", "inv", "ping", "pong", "tx", "verack", "version", "addr", "notfound", "getblocks", "getheaders", "headers", "getaddr", "mempool", "reject", "filterload", "merkleblock", "alert", "sendheaders", "feefilter", "sendcmpct", "cmpctblock", "getblocktxn", "getcfilters", "cfilter", "wtxidrelay", "sendaddrv2"}
var unknownCmds = []string{"sendtxrcncl", "cfheaders", "getcfheaders", "cfcheckpt", "foo", "", "PING", "ping2", "versionn", "zzzzzzzzzzzz", "package"}
var parsedCmds = []string{"version", "ping", "pong", "inv", "tx", "block", "sendcmpct", "getheaders", "headers", "cfilter", "getcfilters"}

// breakFrame damages the envelope's checksum.
func breakFrame(b []byte, bit int) []byte {
	c := append([]byte(nil), b...)
	c[20+bit/8%4] ^= 1 << (bit % 8)
	return c
}

func genStep(t *rapid.T, n kit.Net) step {
	ping := func() (nonce []byte, frame []byte) {
		p := kit.PingPayload(rapid.Uint64().Draw(t, "nonce"))
		return p, kit.Frame(n.Magic, "ping", p)
	}
	inv := func() []byte {
		k := rapid.IntRange(0, 6).Draw(t, "items")
		var xs []kit.Inv
		for i := 0; i < k; i++ {
			xs = append(xs, kit.Inv{rapid.Uint32().Draw(t, "type"), kit.Hash32(t, "item")})
		}
		return kit.EncodeInv(xs)
	}
	valid := func(cmd string) []byte {
		switch cmd {
		case "version":
			s := uint64(1)
			if rapid.Bool().Draw(t, "cf") {
				s |= kit.SFNodeCF
			}
			return version(s, rapid.Int32Range(0, 10).Draw(t, "height"))
		case "pong":
			return kit.PingPayload(rapid.Uint64().Draw(t, "nonce"))
		case "tx":
			return kit.TxBytes(kit.TxN(rapid.Uint64Range(0, 9).Draw(t, "tx")))
		case "block":
			h := kit.Hdr(5, rapid.Uint32Range(2, 9).Draw(t, "height"), kit.Hash32(t, "prev"))
			return kit.EncodeBlock(kit.Block(h, kit.TxN(1)))
		case "sendcmpct":
			return append([]byte{byte(rapid.IntRange(0, 1).Draw(t, "low"))}, 1, 0, 0, 0, 0, 0, 0, 0)
		case "getheaders":
			return kit.EncodeGetHeaders(70015, [][32]byte{kit.Hash32(t, "locator")}, [32]byte{})
		case "headers":
			return kit.EncodeHeaders(nil)
		case "cfilter":
			h := kit.Hash32(t, "block")
			return kit.EncodeCFilter(1, h, []byte{0})
		case "getcfilters":
			return kit.EncodeGetCFilters(0, 1, kit.Hash32(t, "stop"))
		}
		return nil
	}
	// bytes that look like a message of their own
	hostile := func() []byte {
		switch rapid.IntRange(0, 4).Draw(t, "payload kind") {
		case 0:
			_, f := ping()
			return bytes.Repeat(f, rapid.IntRange(1, 3).Draw(t, "copies"))
		case 1:
			_, f := ping()
			return append(kit.Blob(t, 30, "prefix"), f[:rapid.IntRange(1, len(f)).Draw(t, "cut")]...)
		case 2:
			return kit.Blob(t, 100, "payload")
		case 3:
			return bytes.Repeat([]byte{0xff}, rapid.IntRange(0, 60).Draw(t, "ones"))
		}
		return kit.Expand(rapid.Uint64().Draw(t, "big"), rapid.SampledFrom([]int{1, 23, 24, 25, 100, 4096, 70000}).Draw(t, "size"))
	}
	switch rapid.IntRange(0, 10).Draw(t, "step") {
	case 10:
		// a byte string of a length that no memory could hold
		size := binary.LittleEndian.AppendUint64([]byte{0xff}, rapid.SampledFrom([]uint64{1 << 50, 1<<63 - 1, 1 << 63, 1<<64 - 1}).Draw(t, "impossible"))
		tx := append(append([]byte{2, 0, 0, 0, 0, 1}, kit.Expand(1, 36)...), size...)
		switch rapid.IntRange(0, 2).Draw(t, "of") {
		case 0:
			return step{Name: "impossible tx", Bytes: kit.Frame(n.Magic, "tx", tx)}
		case 1:
			b := kit.EncodeBlock(kit.Block(kit.Hdr(5, 3, [32]byte{7}), kit.TxN(1)))
			i := bytes.Index(b, kit.TxBytes(kit.TxN(1)))
			return step{Name: "impossible block", Bytes: kit.Frame(n.Magic, "block", append(b[:i:i], tx...))}
		}
		return step{Name: "impossible headers", Bytes: kit.Frame(n.Magic, "headers", append(append([]byte{1}, kit.EncodeHeaders(kit.Chain(1, n.Genesis, 1))[1:77]...), size...))}
	case 9:
		// a message of no network of ours
		magic := [4]byte{0xf9, 0xbe, 0xb4, 0xd9}
		if rapid.Bool().Draw(t, "any magic") {
			copy(magic[:], kit.Expand(rapid.Uint64().Draw(t, "magic"), 4))
		}
		for _, k := range kit.Nets {
			if k.Magic == magic {
				magic = [4]byte{}
			}
		}
		c := rapid.SampledFrom(append([]string{"inv", "headers", "addr"}, unknownCmds...)).Draw(t, "foreign")
		var p []byte
		switch c {
		case "inv":
			p = inv()
		case "headers":
			return step{Name: "foreign headers", Bytes: kit.Frame(magic, c, kit.EncodeHeaders(kit.Chain(1, n.Genesis, rapid.IntRange(1, 3).Draw(t, "n")))), Stores: true}
		default:
			p = hostile()
		}
		return step{Name: "foreign " + c, Bytes: kit.Frame(magic, c, p)}
	case 0, 1:
		p, f := ping()
		return step{Name: "ping", Bytes: f, Pong: p}
	case 2:
		c := rapid.SampledFrom(unknownCmds).Draw(t, "unknown")
		return step{Name: "unknown " + c, Bytes: kit.Frame(n.Magic, c, hostile())}
	case 3:
		c := rapid.SampledFrom(knownCmds).Draw(t, "unparsed")
		for _, p := range parsedCmds {
			if p == c {
				c = "addr"
			}
		}
		return step{Name: "ignored " + c, Bytes: kit.Frame(n.Magic, c, hostile())}
	case 4:
		// a known command with a payload of another shape
		c := rapid.SampledFrom(parsedCmds).Draw(t, "parsed")
		if c == "ping" || c == "inv" {
			c = "tx"
		}
		p := hostile()
		if !kit.Truthful(c, p) {
			p = nil
		}
		return step{Name: "garbled " + c, Bytes: kit.Frame(n.Magic, c, p)}
	case 5:
		c := rapid.SampledFrom(parsedCmds).Draw(t, "parsed")
		if c == "ping" || c == "inv" {
			c = "headers"
		}
		p := valid(c)
		if rapid.Bool().Draw(t, "truncate") && len(p) > 0 {
			p = p[:rapid.IntRange(0, len(p)-1).Draw(t, "cut")]
		}
		if !kit.Truthful(c, p) {
			p = nil
		}
		return step{Name: "valid or cut " + c, Bytes: kit.Frame(n.Magic, c, p)}
	case 6:
		p := inv()
		return step{Name: "inv", Bytes: kit.Frame(n.Magic, "inv", p), Inv: p}
	case 7:
		_, f := ping()
		if rapid.Bool().Draw(t, "short ping") {
			cut := rapid.IntRange(0, 7).Draw(t, "ping bytes")
			return step{Name: "short ping", Bytes: kit.Frame(n.Magic, "ping", f[24:24+cut])}
		}
		return step{Name: "ping with a wrong checksum", Bytes: breakFrame(f, rapid.IntRange(0, 31).Draw(t, "bit"))}
	}
	// messages that would have an effect, with a wrong checksum
	bit := rapid.IntRange(0, 31).Draw(t, "bit")
	switch rapid.IntRange(0, 3).Draw(t, "damaged") {
	case 0:
		return step{Name: "inv with a wrong checksum", Bytes: breakFrame(kit.Frame(n.Magic, "inv", inv()), bit)}
	case 1:
		h := kit.Hash32(t, "block")
		return step{Name: "cfilter with a wrong checksum", Bytes: breakFrame(kit.Frame(n.Magic, "cfilter", kit.EncodeCFilter(0, h, kit.BuildFilter(h, [][]byte{{1}}))), bit), Stores: true}
	case 2:
		return step{Name: "headers with a wrong checksum", Bytes: breakFrame(kit.Frame(n.Magic, "headers", kit.EncodeHeaders(kit.Chain(1, n.Genesis, rapid.IntRange(1, 3).Draw(t, "n")))), bit), Stores: true}
	}
	h := kit.Chain(1, n.Genesis, 1)[0]
	return step{Name: "block with a wrong checksum", Bytes: breakFrame(kit.Frame(n.Magic, "block", kit.EncodeBlock(kit.Block(h, kit.TxN(1)))), bit), Stores: true}
}

func TestC10(t *testing.T) {
	t.Run("sequences", func(t *testing.T) {
		kit.Rule("sequences", "1-25 well-framed messages (pings; unknown, unhandled and handled commands with arbitrary, truncated or message-like payloads; damaged checksums) before or after the handshake, any segmentation: pongs and getdata answers equal those of the valid pings and inventories, in order, and nothing is stored; non-trivial: a ping follows a message that carries message-like bytes, is unknown, cannot be used, or has a wrong checksum")
		kit.Checks(t, 3600, 40000, func(rt *rapid.T) {
			n := net3(rt)
			handshake := rapid.Bool().Draw(rt, "handshake first")
			segs := kit.Sizes(rt, "segments")
			var steps []step
			k := rapid.IntRange(1, 25).Draw(rt, "messages")
			for i := 0; i < k; i++ {
				steps = append(steps, genStep(rt, n))
			}
			split := rapid.Bool().Draw(rt, "pauses")
			var names []string
			var pongs, datas [][]byte
			nt, odd := false, false
			for _, s := range steps {
				names = append(names, s.Name)
				if s.Pong != nil {
					pongs = append(pongs, s.Pong)
					nt = nt || odd
				} else if s.Inv != nil {
					datas = append(datas, s.Inv)
				} else {
					odd = true
				}
			}
			hdrs := kit.NewHeaders(nil)
			e := bubble(t, rt, map[string]any{"test": "C10 sequences", "network": n.Name, "steps": names, "segments": segs}, n, hdrs, func(e *env) {
				c, a := e.conn(0, segs)
				e.start(a)
				if handshake {
					c.Send(kit.Frame(n.Magic, "version", version(kit.SFNodeCF|1, 0)))
					c.Send(kit.Frame(n.Magic, "verack", nil))
					synctest.Wait()
				}
				for _, s := range steps {
					c.Send(s.Bytes)
					if split {
						synctest.Wait()
						time.Sleep(time.Millisecond)
					}
				}
				synctest.Wait()
				time.Sleep(time.Second)
				synctest.Wait()
				if u := c.Unread(); u > 0 {
					e.failf("after %v the client stopped reading with %d bytes left", names, u)
				}
				log := c.Log()
				e.sameAnswers(names, "pong", only(log, "pong"), pongs)
				e.sameAnswers(names, "getdata", only(log, "getdata"), datas)
				if closed, _ := c.State(); closed {
					e.failf("after %v the client closed the connection", names)
				}
			})
			if _, stored := hdrs.Tip(); stored > 0 {
				rt.Fatalf("after %v, of which no message offers a valid header, %d headers are stored", names, stored)
			}
			if e.fils.Len() > 0 {
				rt.Fatalf("after %v, of which no message carries a valid regular filter, %d filters are stored", names, e.fils.Len())
			}
			kit.Case("sequences", nt, kit.Key(fmt.Sprint(names), segs, handshake, n.Name), func() any {
				return map[string]any{"messages": names, "segments": segs, "handshake": handshake, "pongs": len(pongs)}
			})
		})
	})
	t.Run("sizes", func(t *testing.T) {
		kit.Rule("sizes", "one message of an arbitrary command with a payload of up to 6 MB, sometimes up to 36 MB, between two pings, made of arbitrary bytes or of whole pings, in large or random segments; non-trivial: payload above 64 KB")
		kit.Checks(t, 210, 800, func(rt *rapid.T) {
			n := net3(rt)
			size := rapid.OneOf(rapid.IntRange(0, 70000), rapid.IntRange(1<<20, 6<<20)).Draw(rt, "size")
			if rapid.IntRange(0, 5).Draw(rt, "huge") == 3 {
				size = rapid.OneOf(rapid.IntRange(1<<25-2, 1<<25+3000), rapid.IntRange(1<<25, 36<<20)).Draw(rt, "huge size")
			}
			pings := rapid.Bool().Draw(rt, "made of pings")
			cmd := rapid.SampledFrom(append([]string{"addr", "foo", "cmpctblock", "cfilter", "getdata"}, unknownCmds...)).Draw(rt, "command")
			seg := rapid.IntRange(500, 100000).Draw(rt, "segment")
			bubble(t, rt, map[string]any{"test": "C10 sizes", "size": size, "command": cmd}, n, kit.NewHeaders(nil), func(e *env) {
				c, a := e.conn(0, []int{seg})
				e.start(a)
				payload := kit.Expand(uint64(size), min(size, 6<<20))
				if pings || size > len(payload) {
					f := kit.Frame(n.Magic, "ping", kit.PingPayload(77))
					payload = bytes.Repeat(f, size/len(f)+1)[:size]
					for i := 0; i < min(size/2, 1<<20); i += 96 {
						payload[i] ^= 1
					}
				}
				if !kit.Truthful(cmd, payload) {
					payload = make([]byte, size)
				}
				var pongs [][]byte
				for i := uint64(0); i < 2; i++ {
					p := kit.PingPayload(binary.LittleEndian.Uint64(kit.Expand(uint64(size)+i, 8)))
					pongs = append(pongs, p)
					c.Send(kit.Frame(n.Magic, "ping", p))
					if i == 0 {
						c.Send(kit.Frame(n.Magic, cmd, payload))
					}
				}
				synctest.Wait()
				e.sameAnswers([]string{"ping", fmt.Sprintf("%s of %d bytes", cmd, size), "ping"}, "pong", only(c.Log(), "pong"), pongs)
			})
			kit.Case("sizes", size > 65536, kit.Key(size, cmd, seg), func() any { return map[string]any{"command": cmd, "size": size, "segment": seg} })
		})
	})
}

func (e *env) sameAnswers(steps []string, cmd string, got []kit.Sent, want [][]byte) {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			e.failf("after %v: %d %q answers instead of %d", steps, len(got), cmd, len(want))
			return
		case i >= len(want):
			e.failf("after %v: %d %q answers instead of %d", steps, len(got), cmd, len(want))
			return
		case !bytes.Equal(got[i].Payload, want[i]):
			e.failf("after %v: answer %d of %q carries %x instead of %x", steps, i, cmd, got[i].Payload[:min(len(got[i].Payload), 80)], want[i][:min(len(want[i]), 80)])
			return
		case got[i].Magic != e.net.Magic:
			e.failf("after %v: answer %q with the magic of another network", steps, cmd)
			return
		}
	}
}
