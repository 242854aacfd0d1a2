package svc

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/vulpemventures/neutrino-elements/verifharness/kit"
	"pgregory.net/rapid"
)

// subPlan is a run of "neutrino subscribe" against a daemon that says what it is told to.
type subPlan struct {
	Path    string
	How     int // how the daemon's address is configured
	Desc    string
	Height  int
	Events  []string
	Comma   bool
	Missing string // an option that is left out
	Say     []say
	End     string // close, drop, garbage, refuse
}

type say struct {
	Kind, Text string
	Pause      bool
}

func drawSub(t *rapid.T) subPlan {
	p := subPlan{
		Path:   rapid.SampledFrom([]string{"/neutrino/subscribe/ws", "/neutrino/subscribe/ws", "/", "/a b", "/x/y.z/", "/é", "/a%20b", "/q?x=1#f"}).Draw(t, "path"),
		How:    rapid.IntRange(0, 2).Draw(t, "how"),
		Desc:   rapid.OneOf(rapid.Map(rapid.Custom(kit.DrawWallet), func(w kit.Wallet) string { return w.Desc }), rapid.Custom(func(t *rapid.T) string { return drawText(t, "text") })).Draw(t, "descriptor"),
		Height: rapid.OneOf(rapid.IntRange(0, 3_000_000), rapid.SampledFrom([]int{0, -1, 1<<31 - 1, 1 << 40})).Draw(t, "height"),
		Events: rapid.SampledFrom([][]string{{"unspentUtxo"}, {"unspentUtxo"}, {"spentUtxo"}, {"unspentUtxo", "spentUtxo"}, {"spentUtxo", "unspentUtxo"}, {}, {"x"}, {"unspentUtxo", "unspentUtxo"}}).Draw(t, "events"),
		Comma:  rapid.Bool().Draw(t, "comma"),
		End:    rapid.SampledFrom([]string{"close", "close", "drop", "garbage", "refuse"}).Draw(t, "end"),
	}
	if rapid.IntRange(0, 9).Draw(t, "incomplete") == 0 {
		p.Missing = rapid.SampledFrom([]string{"descriptor", "block_height"}).Draw(t, "missing")
	}
	p.Say = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) say {
		s := say{Kind: rapid.SampledFrom([]string{"event", "event", "event", "ok", "error"}).Draw(t, "kind"), Pause: rapid.IntRange(0, 9).Draw(t, "pause") == 0}
		if s.Kind == "event" {
			s.Text = fmt.Sprintf("%x", kit.Expand(uint64(rapid.IntRange(0, 1<<30).Draw(t, "tx")), 32))
		} else {
			s.Text = "m" + drawText(t, "text")
		}
		return s
	}), 0, 12).Draw(t, "say")
	return p
}

func (s say) encode() []byte {
	m := map[string]string{"message": s.Text}
	switch s.Kind {
	case "event":
		m = map[string]string{"eventType": "unspentUtxo", "txId": s.Text}
	case "error":
		m = map[string]string{"errorMessage": s.Text}
	}
	b, _ := json.Marshal(m)
	return b
}

// logged are the messages of the lines a logger wrote.
func logged(out string) (msgs []string) {
	for _, l := range strings.Split(out, "\n") {
		i := strings.Index(l, "level=")
		if i < 0 {
			continue
		}
		level, rest, _ := strings.Cut(l[i+len("level="):], " ")
		m := strings.TrimPrefix(rest, "msg=")
		if u, err := strconv.Unquote(m); err == nil {
			m = u
		}
		msgs = append(msgs, level+" "+m)
	}
	return
}

// TestC58 runs the command-line tool's subscription against scripted daemons.
func TestC58(t *testing.T) {
	kit.Rule("C58", "runs of the subscribe command: address and path configured in three ways, descriptors (of wallets, or any text), heights and events, options left out, against a daemon that accepts or refuses, sends up to 12 events, answers and errors, then closes, drops or sends garbage. Non-trivial: at least two messages were sent")
	c := newCli()
	defer os.RemoveAll(c.dir)
	n := 0
	kit.Checks(t, 450, 4000, func(rt *rapid.T) {
		p := drawSub(rt)
		kit.Journal(p)
		n++
		c.fresh(n)
		var mu sync.Mutex
		var asked, paths []string
		got := make(chan struct{}, 10)
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			mu.Lock()
			paths = append(paths, r.URL.Path+"|"+r.URL.RawQuery)
			mu.Unlock()
			if p.End == "refuse" {
				http.Error(w, "no", 403)
				return
			}
			conn, err := (&websocket.Upgrader{}).Upgrade(w, r, nil)
			if err != nil {
				return
			}
			defer conn.Close()
			conn.SetReadDeadline(time.Now().Add(patience))
			typ, b, err := conn.ReadMessage()
			if err != nil {
				return
			}
			mu.Lock()
			asked = append(asked, fmt.Sprint(typ, " ", string(b)))
			mu.Unlock()
			got <- struct{}{}
			for _, s := range p.Say {
				if s.Pause {
					time.Sleep(5 * time.Millisecond)
				}
				conn.WriteMessage(websocket.TextMessage, s.encode())
			}
			switch p.End {
			case "close":
				conn.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""), time.Now().Add(patience))
			case "garbage":
				conn.WriteMessage(websocket.TextMessage, []byte("garbage"))
			case "drop":
				return
			}
			// whatever else the tool sends
			for {
				typ, b, err := conn.ReadMessage()
				if err != nil {
					return
				}
				mu.Lock()
				asked = append(asked, fmt.Sprint(typ, " ", string(b)))
				mu.Unlock()
			}
		}))
		defer srv.Close()
		host := strings.TrimPrefix(srv.URL, "http://")
		must := func(args ...string) {
			if _, errs, code := c.run(args...); code != 0 {
				rt.Fatalf("%q failed: %s", args, errs)
			}
		}
		switch p.How {
		case 0:
			must("config", "--url", host, "--path", p.Path)
		case 1:
			must("config", "set", "url", host)
			must("config", "set", "path", p.Path)
		case 2:
			must("config")
			must("config", "set", "path", p.Path)
			must("config", "set", "url", "127.0.0.1:1")
			must("config", "set", "url", host)
		}
		args := []string{"subscribe"}
		if p.Missing != "descriptor" {
			args = append(args, "--descriptor="+p.Desc)
		}
		if p.Missing != "block_height" {
			args = append(args, fmt.Sprintf("--block_height=%d", p.Height))
		}
		if p.Comma && len(p.Events) > 0 {
			args = append(args, "--events="+strings.Join(p.Events, ","))
		} else {
			for _, e := range p.Events {
				args = append(args, "--events", e)
			}
		}
		out, errs, code := c.run(args...)
		if code == 0 || code < 0 {
			rt.Fatalf("%q ended with status %d although the connection ended: %s%s", args, code, out, errs)
		}
		mu.Lock()
		defer mu.Unlock()
		if p.Missing != "" {
			if len(paths) > 0 {
				rt.Fatalf("%q reached the daemon although --%s is missing", args, p.Missing)
			}
			return
		}
		if len(paths) != 1 || paths[0] != p.Path+"|" {
			rt.Fatalf("%q asked for %q instead of %q, once", args, paths, p.Path)
		}
		if p.End == "refuse" {
			return
		}
		if len(asked) != 1 || !strings.HasPrefix(asked[0], "1 ") {
			rt.Fatalf("%q sent %q", args, asked)
		}
		var req struct {
			ActionType       string
			EventTypes       []string
			DescriptorWallet string
			StartBlockHeight int
		}
		if err := json.Unmarshal([]byte(asked[0][2:]), &req); err != nil || req.ActionType != "register" || req.DescriptorWallet != p.Desc || req.StartBlockHeight != p.Height || strings.Join(req.EventTypes, ",") != strings.Join(p.Events, ",") {
			rt.Fatalf("%q sent %s (%v)", args, asked[0], err)
		}
		var want []string
		for _, s := range p.Say {
			switch s.Kind {
			case "event":
				want = append(want, "info tx_id: "+s.Text)
			case "ok":
				want = append(want, "info "+s.Text)
			default:
				want = append(want, "error error: "+s.Text)
			}
		}
		have := logged(out + errs)
		if len(have) > len(want) && p.End == "garbage" {
			have = have[:len(want)] // what it says about the garbage
		}
		if strings.Join(have, "\n") != strings.Join(want, "\n") {
			rt.Fatalf("the daemon said %q and the tool printed %q", want, have)
		}
		kit.Case("C58", len(p.Say) >= 2, kit.Key(fmt.Sprintf("%+v", p)), func() any { return p })
	})
}
