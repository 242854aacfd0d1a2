package wire

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"net"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/btcsuite/btcd/blockchain"
	"github.com/btcsuite/btcd/btcutil/gcs"
	"github.com/btcsuite/btcd/btcutil/gcs/builder"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/pkg/binary"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
	"github.com/vulpemventures/neutrino-elements/verifharness/kit"
	"pgregory.net/rapid"
)

// ---- C01 -------------------------------------------------------------------------------------

func TestC01(t *testing.T) {
	t.Run("envelope", func(t *testing.T) {
		kit.Rule("envelope", "a known command, a supported network and a payload (raw bytes or any typed message) are made into a message; all 24+n bytes are compared with an independent encoding and read back; non-trivial: payload not empty")
		kit.Checks(t, 12000, 60000, func(t *rapid.T) {
			net := rapid.SampledFrom(networks).Draw(t, "net")
			cmd := rapid.SampledFrom(known).Draw(t, "cmd")
			var payload any
			var want []byte
			switch rapid.IntRange(0, 3).Draw(t, "payload kind") {
			case 0:
				want = kit.Blob(t, 100000, "payload")
				payload = want
			case 1:
				f := genVersion(t)
				m := toMsgVersion(f)
				payload, want = m, f.Encode()
				if rapid.Bool().Draw(t, "pointer") {
					payload = &m
				}
			case 2:
				n := rapid.Uint64().Draw(t, "nonce")
				payload, want = protocol.MsgPing{Nonce: n}, w64(n)
			case 3:
				items := genInv(t, 300)
				payload, want = toGetData(items), kit.EncodeInv(items)
			}
			keep := append([]byte(nil), want...)
			msg, err := protocol.NewMessage(cmd, protocol.Magic(magics[net]), payload)
			if err != nil {
				t.Fatalf("NewMessage(%q, %s): %v", cmd, net, err)
			}
			frame := kit.Frame(magics[net], cmd, keep)
			var got []byte
			if rapid.Bool().Draw(t, "message by value") {
				got, err = binary.Marshal(*msg)
			} else {
				got, err = binary.Marshal(msg)
			}
			if err != nil {
				t.Fatalf("Marshal: %v", err)
			}
			if !bytes.Equal(got, frame) {
				t.Fatalf("command %q on %s: wrote\n%x want\n%x", cmd, net, cut(got), cut(frame))
			}
			if b, ok := payload.([]byte); ok && !bytes.Equal(b, keep) {
				t.Fatalf("payload was altered")
			}
			var h protocol.MessageHeader
			if err := decode(bytes.NewReader(got), &h); err != nil {
				t.Fatalf("header does not read back: %v", err)
			}
			if h.Magic != magics[net] || h.CommandString() != cmd || int(h.Length) != len(keep) || h != msg.MessageHeader {
				t.Fatalf("header read back as %+v (%q)", h, h.CommandString())
			}
			sum := kit.DHash(keep)
			if !bytes.Equal(h.Checksum[:], sum[:4]) {
				t.Fatalf("checksum %x want %x", h.Checksum, sum[:4])
			}
			if err := h.Validate(); err != nil {
				t.Fatalf("own header is invalid: %v", err)
			}
			kit.Case("envelope", len(keep) > 0, kit.Key(net, cmd, keep), func() any {
				return map[string]any{"network": net, "command": cmd, "payload_len": len(keep), "frame": hex.EncodeToString(cut(frame))}
			})
		})
	})
	t.Run("large", func(t *testing.T) {
		kit.Rule("large", "payloads of 2^16 to 2^25 bytes at and around powers of two: the message is the reference encoding; all are non-trivial")
		kit.Checks(t, 60, 120, func(t *rapid.T) {
			size := 1<<rapid.IntRange(16, 25).Draw(t, "exponent") + rapid.IntRange(-2, 2).Draw(t, "around")
			net := rapid.SampledFrom(networks).Draw(t, "net")
			payload := bytes.Repeat(kit.Expand(rapid.Uint64().Draw(t, "bytes"), 4096), size/4096+1)[:size]
			msg, err := protocol.NewMessage("block", protocol.Magic(magics[net]), payload)
			if err != nil {
				t.Fatalf("a payload of %d bytes: %v", size, err)
			}
			got, err := binary.Marshal(msg)
			if err != nil || !bytes.Equal(got, kit.Frame(magics[net], "block", payload)) {
				t.Fatalf("a payload of %d bytes is written as %x... (%d bytes, %v)", size, cut(got), len(got), err)
			}
			kit.Case("large", true, kit.Key(size, payload[:16]), func() any { return map[string]any{"size": size, "network": net} })
		})
	})
	t.Run("commands", func(t *testing.T) {
		kit.Rule("commands", "command names near known ones or arbitrary: refused by NewMessage unless known; headers with near or arbitrary magic and command: valid exactly when both are known; non-trivial: at least one of magic and command is off by a small edit")
		kit.Checks(t, 18000, 100000, func(t *rapid.T) {
			name, nearC := nearCommand(t)
			net := rapid.SampledFrom(networks).Draw(t, "net")
			_, err := protocol.NewMessage(name, protocol.Magic(magics[net]), []byte{1})
			if (err == nil) != isKnown(name) {
				t.Fatalf("NewMessage(%q): err=%v, known=%v", name, err, isKnown(name))
			}
			var h protocol.MessageHeader
			magic, nearM := nearMagic(t)
			h.Magic = magic
			h.Command = kit.CommandBytes(name)
			h.Length = rapid.Uint32().Draw(t, "len")
			wantC := isKnown(string(bytes.TrimRight(h.Command[:], "\x00")))
			if len(name) > 12 {
				wantC = isKnown(name[:12])
			}
			if rapid.IntRange(0, 7).Draw(t, "shift") == 0 && len(name) < 12 && len(name) > 0 {
				// zero bytes pad a command at its end only
				n := rapid.IntRange(1, 12-len(name)).Draw(t, "by")
				h.Command = kit.CommandBytes(strings.Repeat("\x00", n) + name)
				wantC, nearC = false, true
			} else if tail := rapid.IntRange(0, 5).Draw(t, "tail"); tail == 0 && len(name) < 11 && len(name) > 0 {
				h.Command[11] = byte(rapid.IntRange(1, 255).Draw(t, "tail byte"))
				wantC = false
			}
			wantM := false
			for _, m := range magics {
				wantM = wantM || m == magic
			}
			if h.HasValidMagic() != wantM || h.HasValidCommand() != wantC || (h.Validate() == nil) != (wantM && wantC) {
				t.Fatalf("header magic %x command %q: valid magic %v (want %v), valid command %v (want %v), Validate %v", h.Magic, h.Command, h.HasValidMagic(), wantM, h.HasValidCommand(), wantC, h.Validate())
			}
			kit.Case("commands", nearC || nearM, kit.Key(name, magic[:], h.Command[:]), func() any {
				return map[string]any{"command": name, "magic": fmt.Sprintf("%x", magic), "valid": wantC && wantM}
			})
		})
	})
	t.Run("all", func(t *testing.T) {
		// every known command on every network
		for _, c := range known {
			for n, m := range magics {
				msg, err := protocol.NewMessage(c, protocol.Magic(m), []byte(c))
				if err != nil {
					t.Fatalf("%s: %v", c, err)
				}
				got, err := binary.Marshal(msg)
				if err != nil || !bytes.Equal(got, kit.Frame(m, c, []byte(c))) {
					t.Fatalf("%s on %s: %x %v", c, n, got, err)
				}
				if msg.Validate() != nil || msg.CommandString() != c {
					t.Fatalf("%s on %s: own header not valid", c, n)
				}
				kit.Case("all", true, c+n, nil)
			}
		}
		kit.Rule("all", "every known command on every network, exhaustively; all are non-trivial")
	})
}

func nearCommand(t *rapid.T) (string, bool) {
	base := rapid.SampledFrom(known).Draw(t, "base")
	switch rapid.IntRange(0, 6).Draw(t, "edit") {
	case 0:
		return base, false
	case 1:
		return base[:len(base)-1], true
	case 2:
		return base + string(rapid.SampledFrom([]byte("sx2_ ")).Draw(t, "suffix")), true
	case 3:
		return strings.ToUpper(base[:1]) + base[1:], true
	case 4:
		b := []byte(base)
		i := rapid.IntRange(0, len(b)-1).Draw(t, "pos")
		b[i] ^= byte(1 << rapid.IntRange(0, 6).Draw(t, "bit"))
		if b[0] == 0 || b[len(b)-1] == 0 {
			return base, false
		}
		return string(b), true
	case 5:
		return " " + base, true
	}
	return rapid.StringMatching(`[a-z]{1,14}`).Draw(t, "name"), false
}

func nearMagic(t *rapid.T) ([4]byte, bool) {
	m := magics[rapid.SampledFrom(networks).Draw(t, "magic of")]
	switch rapid.IntRange(0, 4).Draw(t, "magic edit") {
	case 0:
		m[rapid.IntRange(0, 3).Draw(t, "byte")] ^= byte(1 << rapid.IntRange(0, 7).Draw(t, "bit"))
		return m, true
	case 1:
		m[0], m[1], m[2], m[3] = m[3], m[2], m[1], m[0]
		return m, true
	case 2:
		copy(m[:], kit.Expand(rapid.Uint64().Draw(t, "magic"), 4))
		return m, true
	}
	return m, false
}

// ---- C02 -------------------------------------------------------------------------------------

type around struct {
	Before uint8
	N      protocol.VarInt
	After  uint8
}
type aroundPtr struct {
	Before uint8
	N      *protocol.VarInt
	After  uint8
}

func TestC02(t *testing.T) {
	t.Run("encode", func(t *testing.T) {
		kit.Rule("encode", "numbers around the borders of the four forms and arbitrary ones, given as every Go integer type that holds them, encoded alone, through a pointer, and inside a larger value by value and by pointer, compared with the one shortest form and decoded back with bytes following; non-trivial: n above 252 or within 2 of a border")
		kit.Checks(t, 18000, 200000, func(t *rapid.T) {
			n := genNumber(t, "n")
			want := kit.Varint(n)
			var givens []any
			if n <= math.MaxUint8 {
				givens = append(givens, uint8(n))
			}
			if n <= math.MaxUint16 {
				givens = append(givens, uint16(n))
			}
			if n <= math.MaxUint32 {
				givens = append(givens, uint32(n))
			}
			if n <= math.MaxInt {
				givens = append(givens, int(n))
			}
			givens = append(givens, n)
			for _, g := range givens {
				v, err := protocol.NewVarint(g)
				if err != nil {
					t.Fatalf("NewVarint(%T %d): %v", g, g, err)
				}
				if i, err := v.Int(); n <= math.MaxInt64 && (err != nil || uint64(i) != n) {
					t.Fatalf("NewVarint(%T %d).Int() = %d, %v", g, g, i, err)
				}
				form := func(what string, x any, want []byte) {
					got, err := binary.Marshal(x)
					if err != nil || !bytes.Equal(got, want) {
						t.Fatalf("%s of %T %d: %x, %v; want %x", what, g, g, got, err, want)
					}
				}
				form("value", v, want)
				form("pointer", &v, want)
				wrapped := append(append([]byte{7}, want...), 9)
				form("field", around{7, v, 9}, wrapped)
				form("field of pointed struct", &around{7, v, 9}, wrapped)
				form("pointer field", aroundPtr{7, &v, 9}, wrapped)
				m, err := v.MarshalBinary()
				if err != nil || !bytes.Equal(m, want) {
					t.Fatalf("MarshalBinary of %d: %x %v", n, m, err)
				}
			}
			tail := kit.Expand(rapid.Uint64().Draw(t, "tail"), 5)
			stream := append(append([]byte{}, want...), tail...)
			r := bytes.NewReader(stream)
			var v protocol.VarInt
			if err := decode(r, &v); err != nil || varValue(&v) != n {
				t.Fatalf("decoding %x gave %v, %v; want %d", want, v, err, n)
			}
			if r.Len() != len(tail) {
				t.Fatalf("decoding %x consumed %d bytes", stream, len(stream)-r.Len())
			}
			if i, err := v.Int(); n <= math.MaxInt64 && (err != nil || uint64(i) != n) {
				t.Fatalf("decoded %x: Int() = %d, %v", want, i, err)
			}
			var a around
			wr := append(append([]byte{7}, want...), 9)
			if err := decode(bytes.NewReader(wr), &a); err != nil || a.Before != 7 || a.After != 9 || varValue(&a.N) != n {
				t.Fatalf("decoding inside a struct: %+v %v", a, err)
			}
			back, err := binary.Marshal(v)
			if err != nil || !bytes.Equal(back, want) {
				t.Fatalf("%x decodes and encodes to %x %v", want, back, err)
			}
			kit.Case("encode", n > 0xf0, kit.Key(n), func() any { return map[string]any{"n": n, "bytes": hex.EncodeToString(want)} })
		})
	})
	t.Run("truncated", func(t *testing.T) {
		kit.Rule("truncated", "every strict prefix of an encoding, in every segmentation: an error; non-trivial: multi-byte form")
		kit.Checks(t, 6000, 50000, func(t *rapid.T) {
			n := genNumber(t, "n")
			enc := kit.Varint(n)
			k := rapid.IntRange(0, len(enc)-1).Draw(t, "keep")
			r := &kit.Split{B: append([]byte{}, enc[:k]...), Sizes: kit.Sizes(t, "sizes"), EOFTogether: rapid.Bool().Draw(t, "eof")}
			var v protocol.VarInt
			if err := decode(r, &v); err == nil {
				t.Fatalf("truncated %x (of %x) decoded as %v", enc[:k], enc, v.Value)
			}
			kit.Case("truncated", len(enc) > 1, kit.Key(n, k), func() any { return map[string]any{"n": n, "kept": k} })
		})
	})
	t.Run("small", func(t *testing.T) {
		kit.Rule("small", "every number below 70000, exhaustively")
		for n := 0; n < 70000; n++ {
			v, err := protocol.NewVarint(n)
			if err != nil {
				t.Fatal(err)
			}
			got, err := v.MarshalBinary()
			if err != nil || !bytes.Equal(got, kit.Varint(uint64(n))) {
				t.Fatalf("%d encodes to %x %v", n, got, err)
			}
			var back protocol.VarInt
			if err := back.UnmarshalBinary(bytes.NewReader(got)); err != nil || varValue(&back) != uint64(n) {
				t.Fatalf("%x decodes to %v %v", got, back, err)
			}
			kit.Case("small", true, strconv.Itoa(n), nil)
		}
	})
}

// ---- C03 -------------------------------------------------------------------------------------

func toGetData(items []kit.Inv) *protocol.MsgGetData {
	c, err := protocol.NewVarint(len(items))
	if err != nil {
		panic(err)
	}
	m := &protocol.MsgGetData{Count: c}
	for _, i := range items {
		m.Inventory = append(m.Inventory, protocol.InvVector{Type: i.Type, Hash: i.Hash})
	}
	return m
}

func TestC03(t *testing.T) {
	t.Run("decode", func(t *testing.T) {
		kit.Rule("decode", "a value of each receivable type is drawn (list lengths up to the protocol maximum, all header, transaction and string shapes), encoded by an independent encoder and decoded, bytes following when the type has its own end; every field is compared; non-trivial: payload longer than 8 bytes")
		kit.Checks(t, 18000, 60000, func(t *rapid.T) {
			k := drawKind(t)
			payload, check := k.gen(t)
			v := k.fresh()
			tail := 0
			stream := append([]byte{}, payload...)
			if !k.toEOF {
				tail = rapid.IntRange(0, 3).Draw(t, "tail")
				stream = append(stream, make([]byte, tail)...)
			}
			r := bytes.NewReader(stream)
			if err := decode(r, v); err != nil {
				t.Fatalf("%s: %d-byte payload does not decode: %v (%x)", k.name, len(payload), err, cut(payload))
			}
			if r.Len() != tail {
				t.Fatalf("%s: decoding %d bytes consumed %d", k.name, len(payload), len(stream)-r.Len())
			}
			if err := check(v); err != nil {
				t.Fatalf("%s: %v", k.name, err)
			}
			kit.Case("decode", len(payload) > 8, kit.Key(k.name, payload), func() any {
				return map[string]any{"type": k.name, "len": len(payload), "start": hex.EncodeToString(cut(payload))}
			})
			kit.Class("decode/" + k.name)
		})
	})
	t.Run("encode", func(t *testing.T) {
		kit.Rule("encode", "values of each type the client sends, through the constructors the client uses, compared byte for byte with an independent encoding; non-trivial: payload longer than 8 bytes")
		kit.Checks(t, 18000, 60000, func(t *rapid.T) {
			netName := rapid.SampledFrom(networks).Draw(t, "net")
			net := protocol.Magic(magics[netName])
			var cmd string
			var msg *protocol.Message
			var err error
			var want []byte
			switch rapid.IntRange(0, 10).Draw(t, "type") {
			case 0:
				cmd = "version"
				f := genVersion(t)
				want = f.Encode()
				msg, err = protocol.NewMessage(cmd, net, toMsgVersion(f))
			case 1:
				cmd = "version"
				ua := string(kit.Blob(t, 400, "ua"))
				var ip protocol.IPv4
				copy(ip[:], kit.Expand(rapid.Uint64().Draw(t, "ip"), 4))
				port, services := rapid.Uint16().Draw(t, "port"), protocol.ServiceFlag(rapid.Uint64().Draw(t, "services"))
				before := time.Now().Unix()
				msg, err = protocol.NewVersionMsg(net, ua, ip, port, services)
				if err != nil {
					break
				}
				v, derr := kit.DecodeVersion(msg.Payload)
				if derr != nil {
					t.Fatalf("own version message: %v (%x)", derr, cut(msg.Payload))
				}
				if v.UserAgent != ua || v.RecvIP != [4]byte(ip) || v.RecvPort != port || v.Services != uint64(services) || v.RecvServices&uint64(services) != uint64(services) || v.Version != 70016 || v.Timestamp < before-5 || v.Timestamp > before+300 {
					t.Fatalf("version message for agent %q, %v:%d, services %x says %+v", ua, ip, port, services, v)
				}
				want = msg.Payload
			case 2:
				cmd = "getdata"
				items := genInv(t, 50000)
				want = kit.EncodeInv(items)
				gd := toGetData(items)
				if rapid.Bool().Draw(t, "by value") {
					msg, err = protocol.NewMessage(cmd, net, *gd)
				} else {
					msg, err = protocol.NewMessage(cmd, net, gd)
				}
			case 3:
				cmd = "getheaders"
				loc := genLocator(t, 520)
				stop := kit.Hash32(t, "stop")
				var l blockchain.BlockLocator
				for i := range loc {
					l = append(l, kit.ToHash(loc[i]))
				}
				want = kit.EncodeGetHeaders(70016, loc, stop)
				msg, err = protocol.NewMsgGetHeaders(net, stop, l)
				if len(loc) > 500 {
					if err == nil {
						t.Fatalf("getheaders with %d locator entries was accepted (500 is the limit)", len(loc))
					}
					kit.Class("encode/locator over the limit")
					return
				}
			case 4:
				cmd = "getcfilters"
				start, stop := kit.Header(t, "start", 20), kit.Header(t, "stop", 20)
				span := rapid.OneOf(rapid.Int64Range(-2, 3), rapid.Int64Range(995, 1003), rapid.Int64Range(0, 1<<32)).Draw(t, "span")
				sh := int64(start.Height) + span
				if sh < 0 || sh > math.MaxUint32 {
					sh = int64(start.Height)
				}
				stop.Height = uint32(sh)
				span = sh - int64(start.Height)
				want = kit.EncodeGetCFilters(0, start.Height, kit.HeaderHash(stop))
				msg, err = protocol.NewGetCFilters(net, start, stop)
				if span < 0 || span >= 1000 {
					if err == nil {
						t.Fatalf("getcfilters from %d to %d was accepted", start.Height, stop.Height)
					}
					kit.Class("encode/filter range refused")
					return
				}
			case 5:
				cmd = "cfilter"
				h := kit.Hash32(t, "block")
				f := kit.Filter(t, h, 600, "filter")
				g, gerr := gcs.FromNBytes(builder.DefaultP, builder.DefaultM, f)
				if gerr != nil {
					t.Fatalf("generator: %v", gerr)
				}
				want = kit.EncodeCFilter(0, h, f)
				msg, err = protocol.NewMsgCFilter(net, kit.ToHash(h), g)
			case 6:
				cmd = "tx"
				tx := kit.Tx(t, "tx", 300, 300, 600)
				want = kit.TxBytes(tx)
				m, herr := protocol.NewMsgTxFromHex(hex.EncodeToString(want))
				if herr != nil {
					t.Fatalf("valid transaction refused: %v", herr)
				}
				if id := kit.TxIDStr(tx); m.HashStr() != id {
					t.Fatalf("txid %s want %s", m.HashStr(), id)
				}
				if rapid.Bool().Draw(t, "pointer") {
					msg, err = protocol.NewMessage(cmd, net, &m)
				} else {
					msg, err = protocol.NewMessage(cmd, net, m)
				}
			case 7:
				cmd = "ping"
				var n uint64
				msg, n, err = protocol.NewPingMsg(net)
				want = w64(n)
			case 8:
				cmd = "pong"
				n := rapid.Uint64().Draw(t, "nonce")
				want = w64(n)
				msg, err = protocol.NewPongMsg(net, n)
			case 9:
				cmd = "verack"
				msg, err = protocol.NewVerackMsg(net)
			case 10:
				cmd = "sendheaders"
				msg, err = protocol.NewSendHeadersMessage(net)
			}
			if err != nil {
				t.Fatalf("%s: %v", cmd, err)
			}
			if !bytes.Equal(msg.Payload, want) {
				t.Fatalf("%s payload\n%x want\n%x", cmd, cut(msg.Payload), cut(want))
			}
			all, err := binary.Marshal(msg)
			if err != nil || !bytes.Equal(all, kit.Frame(magics[netName], cmd, want)) {
				t.Fatalf("%s on %s is framed as %x (%v)", cmd, netName, cut(all), err)
			}
			kit.Case("encode", len(want) > 8, kit.Key(cmd, want), func() any {
				return map[string]any{"command": cmd, "len": len(want), "start": hex.EncodeToString(cut(want))}
			})
			kit.Class("encode/" + cmd)
		})
	})
	t.Run("badhex", func(t *testing.T) {
		kit.Rule("badhex", "hex of a transaction, damaged (odd length, foreign character, cut short, bytes appended): refused; all are non-trivial")
		kit.Checks(t, 4500, 20000, func(t *rapid.T) {
			raw := kit.TxBytes(kit.Tx(t, "tx", 4, 4, 80))
			s := hex.EncodeToString(raw)
			switch rapid.IntRange(0, 3).Draw(t, "damage") {
			case 0:
				s = s[:len(s)-1]
			case 1:
				i := rapid.IntRange(0, len(s)-1).Draw(t, "pos")
				s = s[:i] + "g" + s[i+1:]
			case 2:
				s = s[:2*rapid.IntRange(0, len(raw)-1).Draw(t, "keep")]
			case 3:
				s += hex.EncodeToString(kit.Expand(rapid.Uint64().Draw(t, "extra"), rapid.IntRange(1, 9).Draw(t, "extra len")))
			}
			if _, err := protocol.NewMsgTxFromHex(s); err == nil {
				t.Fatalf("damaged transaction hex accepted: %.200s", s)
			}
			kit.Case("badhex", true, s, func() any { return fmt.Sprintf("%.80s", s) })
		})
	})
}

// ---- C04 -------------------------------------------------------------------------------------

func TestC04(t *testing.T) {
	t.Run("segments", func(t *testing.T) {
		kit.Rule("segments", "payloads of every type, decoded from one read and from a drawn segmentation (byte by byte, cyclic sizes, with or without EOF on the last read): the same value; non-trivial: at least 3 segments")
		kit.Checks(t, 12000, 60000, func(t *rapid.T) {
			k := drawKind(t)
			payload, check := k.gen(t)
			sizes := kit.Sizes(t, "sizes")
			r := &kit.Split{B: append([]byte{}, payload...), Sizes: sizes, EOFTogether: rapid.Bool().Draw(t, "eof together")}
			v := k.fresh()
			if err := decode(r, v); err != nil {
				t.Fatalf("%s: segments %v: %v", k.name, sizes, err)
			}
			if err := check(v); err != nil {
				t.Fatalf("%s: segments %v: %v", k.name, sizes, err)
			}
			kit.Case("segments", r.Reads >= 3, kit.Key(k.name, payload, sizes), func() any {
				return map[string]any{"type": k.name, "len": len(payload), "segments": sizes, "reads": r.Reads}
			})
			kit.Class("segments/" + k.name)
		})
	})
	t.Run("truncated", func(t *testing.T) {
		kit.Rule("truncated", "a strict prefix of a valid payload, in a drawn segmentation: an error, like the one-read case; cut points near the end and anywhere; non-trivial: prefix not empty")
		kit.Checks(t, 18000, 80000, func(t *rapid.T) {
			k := drawKind(t)
			payload, _ := k.gen(t)
			if len(payload) == 0 {
				t.Skip("empty")
			}
			keep := rapid.IntRange(0, len(payload)-1).Draw(t, "keep")
			if rapid.Bool().Draw(t, "near the end") {
				back := rapid.IntRange(1, 40).Draw(t, "back")
				if back < len(payload) {
					keep = len(payload) - back
				}
			}
			sizes := kit.Sizes(t, "sizes")
			v := k.fresh()
			if err := decode(&kit.Split{B: append([]byte{}, payload[:keep]...), Sizes: sizes, EOFTogether: rapid.Bool().Draw(t, "eof")}, v); err == nil {
				t.Fatalf("%s: %d of %d bytes decoded without error in segments %v (%x)", k.name, keep, len(payload), sizes, cut(payload[:keep]))
			}
			if err := decode(bytes.NewReader(payload[:keep]), k.fresh()); err == nil {
				t.Fatalf("%s: %d of %d bytes decoded without error", k.name, keep, len(payload))
			}
			kit.Case("truncated", keep > 0, kit.Key(k.name, payload, keep), func() any {
				return map[string]any{"type": k.name, "len": len(payload), "kept": keep, "segments": sizes}
			})
			kit.Class("truncated/" + k.name)
		})
	})
	t.Run("overstated", func(t *testing.T) {
		kit.Rule("overstated", "a valid payload whose count or length field says more than follows it (one more, or a border value up to 2^64-1): an error, in one read and in segments; non-trivial: always")
		at := map[string]int{"cfilter": 33, "version": 80}
		for _, n := range []string{"inv", "getdata", "headers", "locator", "string"} {
			at[n] = 0
		}
		at["getheaders"] = 4
		kit.Checks(t, 9000, 40000, func(t *rapid.T) {
			k := drawKind(t)
			pos, ok := at[k.name]
			if !ok {
				return
			}
			payload, _ := k.gen(t)
			if len(payload) <= pos {
				t.Fatalf("HARNESS: %s payload of %d bytes", k.name, len(payload))
			}
			count, size := varintAt(payload[pos:])
			more := count + 1 + uint64(rapid.IntRange(0, 3).Draw(t, "more"))
			if rapid.Bool().Draw(t, "border") {
				if b := rapid.SampledFrom([]uint64{0xfc, 0xfd, 0xffff, 0x10000, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 2, 1<<64 - 1}).Draw(t, "value"); b > count {
					more = b
				}
			}
			bad := append(append(append([]byte{}, payload[:pos]...), kit.Varint(more)...), payload[pos+size:]...)
			if k.name == "version" || k.name == "getheaders" {
				// fields after the list could be taken for its elements
				bad = bad[:pos+len(kit.Varint(more))+rapid.IntRange(0, len(payload)-pos-size).Draw(t, "keep")]
				left := uint64(len(bad) - pos - len(kit.Varint(more)))
				if k.name == "getheaders" {
					left /= 32
				}
				if left >= more {
					return
				}
			}
			if k.truthKind != "" && !kit.Truthful(k.truthKind, bad) {
				kit.Class("overstated/excluded: length beyond payload (recorded finding)")
				return
			}
			sizes := kit.Sizes(t, "sizes")
			if err := decode(bytes.NewReader(bad), k.fresh()); err == nil {
				t.Fatalf("%s: a count of %d in place of %d decoded without error (%x)", k.name, more, count, cut(bad))
			}
			if err := decode(&kit.Split{B: append([]byte{}, bad...), Sizes: sizes, EOFTogether: rapid.Bool().Draw(t, "eof")}, k.fresh()); err == nil {
				t.Fatalf("%s: a count of %d in place of %d decoded without error in segments %v (%x)", k.name, more, count, sizes, cut(bad))
			}
			kit.Case("overstated", true, kit.Key(k.name, bad), func() any {
				return map[string]any{"type": k.name, "count": count, "said": fmt.Sprint(more), "len": len(bad)}
			})
			kit.Class("overstated/" + k.name)
		})
	})
	t.Run("differential", func(t *testing.T) {
		kit.Rule("differential", "damaged payloads (random edits): one-read and segmented decoding agree on failing and, when both succeed, on the value; non-trivial: the edit changed the bytes")
		kit.Checks(t, 12000, 60000, func(t *rapid.T) {
			k := drawKind(t)
			payload, _ := k.gen(t)
			bad := mutate(t, payload)
			if k.truthKind != "" && !kit.Truthful(k.truthKind, bad) {
				kit.Class("differential/excluded: length beyond payload (recorded finding)")
				return
			}
			sizes := kit.Sizes(t, "sizes")
			a, b := k.fresh(), k.fresh()
			ea := decode(bytes.NewReader(bad), a)
			eb := decode(&kit.Split{B: append([]byte{}, bad...), Sizes: sizes, EOFTogether: rapid.Bool().Draw(t, "eof")}, b)
			if (ea == nil) != (eb == nil) {
				t.Fatalf("%s: one read: %v; segments %v: %v (%x)", k.name, ea, sizes, eb, cut(bad))
			}
			if ea == nil {
				if x, y := dump(a), dump(b); x != y {
					t.Fatalf("%s: one read gives %.300s, segments %v give %.300s", k.name, x, sizes, y)
				}
				kit.Class("differential/still decodes")
			}
			kit.Case("differential", !bytes.Equal(bad, payload), kit.Key(k.name, bad, sizes), func() any {
				return map[string]any{"type": k.name, "len": len(bad), "segments": sizes, "error": ea != nil}
			})
		})
	})
}

func dump(v any) string {
	switch m := v.(type) {
	case *protocol.MsgHeaders:
		var out []byte
		out = kit.EncodeHeaders(m.Headers)
		return string(out)
	case *protocol.MsgBlock:
		return string(kit.EncodeBlock(&block.Block{Header: m.Header, TransactionsData: m.TransactionsData}))
	case *protocol.MsgTx:
		return string(kit.TxBytes(&m.Transaction))
	case *protocol.MsgCFilter:
		b, _ := m.Filter.NBytes()
		return fmt.Sprint(m.FilterType, m.BlockHash, b)
	}
	return fmt.Sprintf("%+v", v)
}

func mutate(t *rapid.T, b []byte) []byte {
	out := append([]byte{}, b...)
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "edits"); i < n; i++ {
		if len(out) == 0 {
			return append(out, kit.Blob(t, 30, "new")...)
		}
		// places near the start hold the counts
		pos := rapid.IntRange(0, len(out)-1).Draw(t, "pos")
		if rapid.Bool().Draw(t, "early") {
			pos = rapid.IntRange(0, min(len(out)-1, 90)).Draw(t, "early pos")
		}
		switch rapid.IntRange(0, 5).Draw(t, "edit") {
		case 0:
			out[pos] ^= byte(1 << rapid.IntRange(0, 7).Draw(t, "bit"))
		case 1:
			out = out[:pos]
		case 2:
			out = append(out[:pos:pos], append(hugeCount(t), out[pos:]...)...)
		case 3:
			e := hugeCount(t)
			out = append(out[:pos:pos], append(e, out[min(len(out), pos+1):]...)...)
		case 4:
			out[pos] = rapid.SampledFrom([]byte{0, 1, 2, 0xfc, 0xfd, 0xfe, 0xff}).Draw(t, "byte")
		case 5:
			out = append(out[:pos:pos], append(kit.Blob(t, 20, "insert"), out[pos:]...)...)
		}
	}
	return out
}

func hugeCount(t *rapid.T) []byte {
	n := rapid.SampledFrom([]uint64{1 << 14, 1 << 16, 1 << 20, 1 << 24, 1 << 28, 1<<31 - 1, 1 << 31, 1 << 32, 1 << 40, 1 << 56, 1<<63 - 1, 1 << 63, 1<<64 - 1}).Draw(t, "count")
	return kit.Varint(n + uint64(rapid.Int64Range(-2, 2).Draw(t, "count offset")))
}

// ---- C05 -------------------------------------------------------------------------------------

const findingC05 = "a headers, block or tx payload with an inner byte-string or list length larger than the payload makes go-elements v0.4.0 (bufferutil.ReadSlice, deserializeFullParams, deserializeSignBlockWitness) allocate by that length or panic"

func TestC05(t *testing.T) {
	t.Run("hostile", func(t *testing.T) {
		kit.Rule("hostile", "arbitrary bytes, and valid payloads of every type with huge counts written over or into them, bits flipped, bytes inserted or cut: decoding returns, without panic, and allocates no more than 1 MiB plus 2000 bytes per byte offered; non-trivial: an edited valid payload")
		kit.Checks(t, 36000, 400000, func(t *rapid.T) {
			k := drawKind(t)
			var payload []byte
			edited := rapid.IntRange(0, 4).Draw(t, "source") > 0
			if edited {
				valid, _ := k.gen(t)
				if len(valid) > 30000 {
					valid = valid[:30000]
				}
				payload = mutate(t, valid)
			} else if rapid.Bool().Draw(t, "count first") {
				payload = append(hugeCount(t), kit.Blob(t, 400, "bytes")...)
			} else {
				payload = kit.Blob(t, 2000, "bytes")
			}
			if k.truthKind != "" && !kit.Truthful(k.truthKind, payload) {
				kit.Class("hostile/excluded: length beyond payload (recorded finding)")
				return
			}
			kit.Journal(map[string]any{"type": k.name, "payload": hex.EncodeToString(payload)})
			used, err := measured(k, payload)
			if p, ok := err.(panicked); ok {
				t.Fatalf("%s: decoding %d bytes panicked: %v (%x)", k.name, len(payload), p.v, cut(payload))
			}
			if limit := uint64(1<<20 + 2000*len(payload)); used > limit {
				t.Fatalf("%s: decoding %d bytes allocated %d bytes (%x)", k.name, len(payload), used, cut(payload))
			}
			kit.Case("hostile", edited, kit.Key(k.name, payload), func() any {
				return map[string]any{"type": k.name, "len": len(payload), "start": hex.EncodeToString(cut(payload)), "allocated": used, "error": err != nil}
			})
			kit.Class("hostile/" + k.name)
			if err == nil {
				kit.Class("hostile/still decodes")
			}
		})
	})
	t.Run("finding", func(t *testing.T) {
		// a 90-byte headers payload announcing a 2^62-byte challenge
		w := &kit.W{}
		w.Var(1)
		w.Raw(make([]byte, 76))
		w.Var(1 << 62)
		w.Raw(make([]byte, 4))
		_, err := measured(kindNamed("headers"), w.B)
		if _, ok := err.(panicked); ok {
			kit.KnownFinding("C05", findingC05)
		}
		kit.Case("finding", true, "headers challenge 2^62", func() any { return hex.EncodeToString(w.B) })
		kit.Rule("finding", "the recorded finding's input, replayed")
	})
}

type panicked struct{ v any }

func (p panicked) Error() string { return fmt.Sprint(p.v) }

func measured(k kind, payload []byte) (used uint64, err error) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	defer func() {
		runtime.ReadMemStats(&b)
		used = b.TotalAlloc - a.TotalAlloc
		if r := recover(); r != nil {
			err = panicked{r}
		}
	}()
	return 0, decode(bytes.NewReader(payload), k.fresh())
}

func kindNamed(n string) kind {
	for _, k := range kinds {
		if k.name == n {
			return k
		}
	}
	panic(n)
}

// ---- C06 -------------------------------------------------------------------------------------

var digits = regexp.MustCompile(`^[0-9]+$`)

func TestC06(t *testing.T) {
	t.Run("addresses", func(t *testing.T) {
		kit.Rule("addresses", "host:port strings from IPv4 addresses, host names, missing parts, extra colons, and ports in and out of range or not numbers; accepted exactly when the grammar says so, and IPv4 host and port reach the version message; non-trivial: not plainly host:port in range")
		kit.Checks(t, 24000, 100000, func(t *rapid.T) {
			host := rapid.OneOf(
				rapid.Custom(func(t *rapid.T) string {
					b := rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, "ip")
					return net.IP(b).String()
				}),
				rapid.StringMatching(`[a-z][a-z0-9-]{0,10}(\.[a-z]{2,5}){0,3}`),
				rapid.SampledFrom([]string{"", "localhost", "256.1.1.1", "1.2.3", "127.0.0.1", "::1", "[::1]", "0.0.0.0", "255.255.255.255"}),
			).Draw(t, "host")
			port := rapid.OneOf(
				rapid.Custom(func(t *rapid.T) string { return strconv.Itoa(rapid.IntRange(0, 65535).Draw(t, "port")) }),
				rapid.Custom(func(t *rapid.T) string { return strconv.Itoa(rapid.IntRange(65530, 65545).Draw(t, "port")) }),
				rapid.Custom(func(t *rapid.T) string { return strconv.Itoa(rapid.IntRange(-70000, 200000).Draw(t, "port")) }),
				rapid.Custom(func(t *rapid.T) string { return strconv.FormatUint(rapid.Uint64().Draw(t, "port"), 10) }),
				rapid.SampledFrom([]string{"", "-1", "-0", "+80", "+0", "1_0", "٣", "0x50", "8o", "80 ", " 80", "1e3", "80.0", "http", "99999999999999999999999", "4294967376", "18446744073709551696", "65536", "065536", "00080"}),
			).Draw(t, "port")
			sep := rapid.SampledFrom([]string{":", ":", ":", ":", ":", "", "::", ";"}).Draw(t, "sep")
			s := host + sep + port
			if rapid.IntRange(0, 3).Draw(t, "noise") == 0 {
				noise := rapid.OneOf(rapid.SampledFrom([]string{" ", "/", "\t", "\n", "\x00", ".", ",", ":", "tcp://", "@", "#", "?", "+", "0", "%", "[", "]"}), rapid.StringN(1, 2, 4)).Draw(t, "inserted")
				at := rapid.SampledFrom([]int{0, len(host), len(host) + len(sep), len(s), rapid.IntRange(0, len(s)).Draw(t, "anywhere")}).Draw(t, "at")
				s = s[:at] + noise + s[at:]
			}
			parts := strings.Split(s, ":")
			want := len(parts) == 2 && parts[0] != "" && digits.MatchString(parts[1])
			var p uint64
			if want {
				var err error
				p, err = strconv.ParseUint(parts[1], 10, 64)
				want = err == nil && p <= 65535
			}
			got, err := protocol.ParseNodeAddr(s)
			if (err == nil) != want {
				t.Fatalf("address %q: err=%v, want accepted=%v", s, err, want)
			}
			if err == nil {
				if uint64(got.Port) != p {
					t.Fatalf("address %q: port %d", s, got.Port)
				}
				if ip := net.ParseIP(parts[0]).To4(); ip != nil {
					if !bytes.Equal(got.IP[:], ip) || got.IP.String() != ip.String() {
						t.Fatalf("address %q: ip %v", s, got.IP)
					}
					m, err := protocol.NewVersionMsg(protocol.MagicLiquid, "x", got.IP, got.Port, protocol.SFNodeCF)
					if err != nil {
						t.Fatal(err)
					}
					v, err := kit.DecodeVersion(m.Payload)
					if err != nil || !bytes.Equal(v.RecvIP[:], ip) || uint64(v.RecvPort) != p {
						t.Fatalf("address %q is advertised as %v:%d (%v)", s, v.RecvIP, v.RecvPort, err)
					}
					kit.Class("addresses/ipv4 accepted")
				} else {
					kit.Class("addresses/name accepted")
				}
			} else {
				kit.Class("addresses/refused")
			}
			kit.Case("addresses", true, s, func() any { return map[string]any{"address": s, "accepted": want} })
		})
	})
	t.Run("networks", func(t *testing.T) {
		kit.Rule("networks", "the three networks, exhaustively: magic, genesis header, genesis hash and the start-of-sync checkpoint against published values")
		for _, n := range []struct {
			name   string
			magic  protocol.Magic
			header block.Header
			hash   string
			want   string
		}{
			{"liquid", protocol.MagicLiquid, protocol.LiquidGenesisHeader, protocol.LiquidGenesisBlockHash, "1466275836220db2944ca059a3a10ef6fd2ea684b0688d2c379296888a206003"},
			{"testnet", protocol.MagicLiquidTestnet, protocol.LiquidTestnetGenesisHeader, protocol.LiquidTestnetGenesisBlockHash, "a771da8e52ee6ad581ed1e9a99825e5b3b7992225534eaa2ae23244fe26ab1c1"},
			{"regtest", protocol.MagicRegtest, protocol.RegtestGenesisHeader, protocol.RegtestGenesisBlockHash, "00902a6b70c2ca83b5d9c815d96a0e2f4202179316970d14ea1847dae5b1ca21"},
		} {
			if n.magic != magics[n.name] || protocol.Networks[n.name] != magics[n.name] {
				t.Fatalf("%s: magic %x / %x", n.name, n.magic, protocol.Networks[n.name])
			}
			if n.hash != n.want {
				t.Fatalf("%s: genesis hash %s", n.name, n.hash)
			}
			if h := kit.HeaderHash(&n.header); kit.RevHex(h) != n.want || n.header.Height != 0 {
				t.Fatalf("%s: genesis header hashes to %s", n.name, kit.RevHex(h))
			}
			own, err := n.header.Hash()
			if err != nil || own.String() != n.want {
				t.Fatalf("%s: genesis header hashes to %s", n.name, own)
			}
			if cp := protocol.GetCheckpoints(n.magic); cp[0] != n.want {
				t.Fatalf("%s: synchronisation starts from %s", n.name, cp[0])
			}
			if len(protocol.Networks) != 3 {
				t.Fatalf("networks: %v", protocol.Networks)
			}
			kit.Case("networks", true, n.name, func() any { return n.name })
		}
	})
}

func varintAt(b []byte) (v uint64, size int) {
	le := func(n int) (x uint64) {
		for i := n; i > 0; i-- {
			x = x<<8 | uint64(b[i])
		}
		return
	}
	switch b[0] {
	case 0xfd:
		return le(2), 3
	case 0xfe:
		return le(4), 5
	case 0xff:
		return le(8), 9
	}
	return uint64(b[0]), 1
}
