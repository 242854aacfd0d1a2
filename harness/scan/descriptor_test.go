package scan

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/google/uuid"
	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
	"github.com/vulpemventures/neutrino-elements/verifharness/kit"
	"pgregory.net/rapid"
)

type sub struct {
	Start  int
	Events []scanner.EventType
	Client int
}

func TestC43(t *testing.T) {
	kit.Rule("descriptor", "a random wallet descriptor (public key, WIF, extended key with a path, or ranged; with and without key origin and checksum) watched 1-3 times by random subscribers from random heights, with the received event alone, doubled, or together with others, over a growing chain whose transactions pay its scripts (several of them at once; first, middle and 100th), those past the 100th, or look-alikes; reports are compared with the model, the scripts being derived by the harness. Non-trivial: at least 2 expected reports")
	kit.Checks(t, 700, 30000, func(rt *rapid.T) {
		wal := kit.DrawWallet(rt)
		p := drawWorld(rt, 10, 3, false)
		w := build(p, wal.Script)
		tip := w.at(rapid.IntRange(0, len(w.headers)).Draw(rt, "first tip"))
		subs := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) sub {
			return sub{int(w.at(rapid.IntRange(0, len(w.headers)+2).Draw(t, "start"))),
				rapid.SampledFrom([][]scanner.EventType{{scanner.UnspentUtxo}, {scanner.UnspentUtxo, scanner.UnspentUtxo}, {scanner.SpentUtxo, scanner.UnspentUtxo}, {scanner.UnspentUtxo, scanner.SpentUtxo}}).Draw(t, "events"),
				rapid.IntRange(0, 3).Draw(t, "client")}
		}), 1, 3).Draw(rt, "subscriptions")
		expected := 0
		inBubble(t, rt, func() *env {
			e := newEnv(w, tip)
			e.start()
			want := map[string]int{}
			for _, s := range subs {
				if err := e.svc.WatchDescriptorWallet(clientN(s.Client), wal.Desc, s.Events, s.Start); err != nil {
					e.failf("%s refused: %v", wal.Desc, err)
				}
				for _, x := range w.txs {
					mine := false
					for _, o := range x.pays {
						mine = mine || wal.Owns(o)
					}
					if mine && int(x.height) >= s.Start {
						want[w.key(clientN(s.Client).String(), x.id, x.height, w.hash(x.height))]++
						expected++
					}
				}
				time.Sleep(time.Second)
				e.grow(e.tip+1, 0, 0)
			}
			e.grow(w.top(), 0, 0)
			time.Sleep(10 * time.Second)
			have := map[string]int{}
			for _, g := range e.received() {
				r := g.r
				if r.Request.Item.EventType() != scanner.UnspentUtxo {
					e.failf("report of event type %v", r.Request.Item.EventType())
				}
				have[w.key(r.Request.ClientID.String(), kit.TxID(r.Transaction), r.BlockHeight, [32]byte(*r.BlockHash))]++
			}
			diff(e, want, have)
			e.finish()
			return e
		})
		kit.Class(wal.Kind)
		kit.Case("descriptor", expected >= 2, kit.Key(wal.Desc, fmt.Sprint(p, tip, subs)), func() any {
			return map[string]any{"descriptor": wal.Desc, "blocks": len(p.Blocks) - 1, "first tip": tip, "subscriptions": fmt.Sprint(subs), "expected reports": expected}
		})
	})
}

// bad descriptors: each is unusable for a stated reason.
func drawBad(t *rapid.T, good kit.Wallet) (desc, why string) {
	body := good.Desc[len("elwpkh("):strings.LastIndex(good.Desc, ")")]
	body = strings.TrimSpace(body)
	why = rapid.SampledFrom([]string{"empty", "no parentheses", "nothing inside", "unknown function", "unsupported function", "checksum length", "two checksums", "not a key", "key with a typo", "hardened step of a public key", "path out of range", "empty step", "fingerprint", "bracket", "two origins"}).Draw(t, "why")
	xpub := "xpub661MyMwAqRbcFtXgS5sYJABqqG9YLmC4Q1Rdap9gSE8NqtwybGhePY2gZ29ESFjqJoCu1Rupje8YtGqsefD265TMg7usUDFdp6W1EGMcet8"
	switch why {
	case "empty":
		desc = rapid.SampledFrom([]string{"", " ", "\t\n", "#", "()"}).Draw(t, "form")
	case "no parentheses":
		desc = rapid.SampledFrom([]string{"elwpkh", "elwpkh" + body, "elwpkh(" + body, "elwpkh" + body + ")", body}).Draw(t, "form")
	case "nothing inside":
		desc = rapid.SampledFrom([]string{"elwpkh()", "elwpkh( )", "elwpkh()#12345678"}).Draw(t, "form")
	case "unknown function":
		desc = rapid.SampledFrom([]string{"foo", "el", "elwpkhx", "ELWPKH", "1"}).Draw(t, "form") + "(" + body + ")"
	case "unsupported function":
		f := rapid.SampledFrom([]string{"elsh", "elwsh", "elpk", "elpkh", "elcombo", "elmulti", "elsortedmulti", "elmulti_a", "elsortedmulti_a", "eltr", "eladdr", "elraw"}).Draw(t, "form")
		desc = f + "(" + body + ")"
		if rapid.Bool().Draw(t, "nested") {
			desc = f + "(elwpkh(" + body + "))"
		}
	case "checksum length":
		desc = "elwpkh(" + body + ")#" + strings.Repeat("q", rapid.SampledFrom([]int{0, 1, 7, 9, 64}).Draw(t, "length"))
	case "two checksums":
		desc = "elwpkh(" + body + ")#12345678#12345678"
	case "not a key":
		desc = "elwpkh(" + rapid.SampledFrom([]string{"00", "zz", "02" + strings.Repeat("0", 64), strings.Repeat("f", 66), "04" + strings.Repeat("1", 128), "xpub", "xprv", "xpub/0/*", "tpub1234", "*", "/*", "/", "0/*", "\x00"}).Draw(t, "form") + ")"
	case "key with a typo":
		b := []byte(xpub)
		i := rapid.IntRange(4, len(b)-1).Draw(t, "position")
		if b[i] != 'z' {
			b[i] = 'z'
		} else {
			b[i] = 'y'
		}
		desc = "elwpkh(" + string(b) + "/0/*)"
	case "hardened step of a public key":
		desc = "elwpkh(" + xpub + rapid.SampledFrom([]string{"/0'/*", "/1h/*", "/0/2'"}).Draw(t, "form") + ")"
	case "path out of range":
		desc = "elwpkh(" + xpub + rapid.SampledFrom([]string{"/4294967296/*", "/2147483648'/*", "/-1/*", "/99999999999999999999/*", "/a/*", "/0/**", "/*/0", "/0/*'"}).Draw(t, "form") + ")"
	case "empty step":
		desc = "elwpkh(" + xpub + rapid.SampledFrom([]string{"/", "//*", "/0//*", "/0/"}).Draw(t, "form") + ")"
	case "fingerprint":
		desc = "elwpkh(" + rapid.SampledFrom([]string{"[d34db33]", "[d34db33f0]", "[zzzzzzzz]", "[]", "[/0]", "[d34db33f/x]", "[d34db33f/4294967296]"}).Draw(t, "form") + xpub + "/0/*)"
	case "bracket":
		desc = "elwpkh(" + rapid.SampledFrom([]string{"]", "]" + xpub, "d34db33f]" + xpub, xpub + "]", "x]"}).Draw(t, "form") + ")"
	case "two origins":
		desc = "elwpkh([d34db33f][d34db33f]" + xpub + "/0/*)"
	}
	return
}

func TestC43Bad(t *testing.T) {
	kit.Rule("unusable", "descriptors unusable for one of 15 stated reasons must be refused, and valid descriptors damaged at random must not crash; while something is refused nothing must be watched: a usable descriptor of another subscriber, watched before or after, gets exactly its own reports. Non-trivial: every case that is refused")
	kit.Checks(t, 1500, 60000, func(rt *rapid.T) {
		var desc, why string
		wal := kit.DrawWallet(rt)
		mutated := rapid.IntRange(0, 2).Draw(rt, "damaged") == 0
		if mutated {
			b := []byte(wal.Desc)
			for i, n := 0, rapid.IntRange(1, 4).Draw(rt, "edits"); i < n && len(b) > 0; i++ {
				at := rapid.IntRange(0, len(b)-1).Draw(rt, "at")
				c := rapid.SampledFrom([]byte("()[]#/*'h ,0129abxyzXPelwkph\x00\xff]")).Draw(rt, "char")
				switch rapid.IntRange(0, 2).Draw(rt, "edit") {
				case 0:
					b[at] = c
				case 1:
					b = append(b[:at:at], b[at+1:]...)
				case 2:
					b = append(b[:at:at], append([]byte{c}, b[at:]...)...)
				}
			}
			desc, why = string(b), "damaged"
		} else {
			desc, why = drawBad(rt, wal)
		}
		events := rapid.SampledFrom([][]scanner.EventType{{scanner.UnspentUtxo}, {scanner.UnspentUtxo, scanner.UnspentUtxo}}).Draw(rt, "events")
		p := drawWorld(rt, 4, 3, false)
		w := build(p, wal.Script)
		order := rapid.IntRange(0, 2).Draw(rt, "order")
		kit.Journal(map[string]any{"descriptor": desc, "why": why})
		refused := false
		inBubble(t, rt, func() *env {
			e := newEnv(w, w.top())
			e.start()
			bad, good := uuid.UUID(kit.Expand(1, 16)), uuid.UUID(kit.Expand(2, 16))
			watchGood := func() {
				if err := e.svc.WatchDescriptorWallet(good, wal.Desc, []scanner.EventType{scanner.UnspentUtxo}, int(w.at(0))); err != nil {
					e.failf("%s refused: %v", wal.Desc, err)
				}
			}
			if order == 1 {
				watchGood()
			}
			var err error
			func() {
				defer func() {
					if r := recover(); r != nil {
						e.failf("panic for %q: %v", desc, r)
					}
				}()
				err = e.svc.WatchDescriptorWallet(bad, desc, events, int(w.at(0)))
			}()
			refused = err != nil
			if err == nil && !mutated {
				e.failf("descriptor accepted although unusable (%s): %q", why, desc)
			}
			if order == 2 {
				watchGood()
			}
			time.Sleep(5 * time.Second)
			want, have := map[string]int{}, map[string]int{}
			if order > 0 {
				for _, x := range w.txs {
					mine := false
					for _, o := range x.pays {
						mine = mine || wal.Owns(o)
					}
					if mine {
						want[w.key(good.String(), x.id, x.height, w.hash(x.height))]++
					}
				}
			}
			for _, g := range e.received() {
				if g.r.Request.ClientID == bad && !refused {
					continue
				}
				have[w.key(g.r.Request.ClientID.String(), kit.TxID(g.r.Transaction), g.r.BlockHeight, [32]byte(*g.r.BlockHash))]++
			}
			diff(e, want, have)
			e.calls.mu.Lock()
			reads := 0
			for _, k := range e.calls.kinds {
				if k == 'f' || k == 'b' {
					reads++
				}
			}
			e.calls.mu.Unlock()
			if refused && order == 0 && reads > 0 {
				e.failf("%q was refused, but something is watched: %d filters and blocks were read", desc, reads)
			}
			e.finish()
			return e
		})
		kit.Class(why)
		kit.Case("unusable", refused, kit.Key(desc, events, order, fmt.Sprint(p)), func() any {
			return map[string]any{"descriptor": desc, "why": why, "events": len(events), "blocks": len(p.Blocks) - 1}
		})
	})
}
