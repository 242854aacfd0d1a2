package svc

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/pkg/blockservice"
	"github.com/vulpemventures/neutrino-elements/verifharness/kit"
	"pgregory.net/rapid"
)

// explorer is a TCP server that answers what it is told to, byte by byte.
type explorer struct {
	ln    net.Listener
	mu    sync.Mutex
	plan  respPlan
	asked []string
}

type respPlan struct {
	raw   []byte
	segs  []int
	pause bool
	hang  bool
}

func newExplorer() *explorer {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	e := &explorer{ln: ln}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go e.serve(c)
		}
	}()
	return e
}

func (e *explorer) serve(c net.Conn) {
	defer c.Close()
	r, err := http.ReadRequest(bufio.NewReader(c))
	if err != nil {
		return
	}
	e.mu.Lock()
	e.asked = append(e.asked, r.Method+" "+r.RequestURI)
	p := e.plan
	e.mu.Unlock()
	raw := p.raw
	for i := 0; len(raw) > 0; i++ {
		n := len(raw)
		if len(p.segs) > 0 {
			n = min(n, max(1, p.segs[i%len(p.segs)]))
		}
		if i > 200 {
			n = len(raw)
		}
		if _, err := c.Write(raw[:n]); err != nil {
			return
		}
		raw = raw[n:]
		if p.pause && i < 5 {
			time.Sleep(time.Millisecond)
		}
	}
	if p.hang {
		_, _ = c.Read(make([]byte, 1))
		return
	}
	if tc, ok := c.(*net.TCPConn); ok {
		_ = tc.CloseWrite()
		_ = c.SetReadDeadline(time.Now().Add(time.Second))
		_, _ = io.Copy(io.Discard, c)
	}
}

func drawBlock(t *rapid.T) *block.Block {
	h := kit.Header(t, "header", 200)
	b := &block.Block{Header: h, TransactionsData: &block.Transactions{Transactions: []*transaction.Transaction{}}}
	n := rapid.SampledFrom([]int{0, 1, 1, 2, 3, 5, 252, 253, 300}).Draw(t, "txs")
	if n > 5 {
		tx := kit.Tx(t, "tx", 2, 2, 60)
		for i := 0; i < n; i++ {
			b.TransactionsData.Transactions = append(b.TransactionsData.Transactions, tx)
		}
		return b
	}
	for i := 0; i < n; i++ {
		b.TransactionsData.Transactions = append(b.TransactionsData.Transactions, kit.Tx(t, "tx", 4, 4, 300))
	}
	return b
}

// TestC54 fetches blocks from an explorer that answers in all ways.
func TestC54(t *testing.T) {
	kit.Rule("C54", "generated blocks, served whole, truncated, corrupted or with a broken connection at every kind of point, with every status class, framing (length, chunks, until close, compressed) and segmentation; non-trivial when the block has a transaction or the answer is not the whole block")
	ex := newExplorer()
	defer ex.ln.Close()
	kit.Checks(t, 2500, 60000, func(rt *rapid.T) {
		b := drawBlock(rt)
		enc := kit.EncodeBlock(b)
		asked := kit.Hash32(rt, "hash")
		how := rapid.SampledFrom([]string{"whole", "whole", "whole", "whole", "short", "cut", "corrupt", "status", "status", "missing", "empty", "nothing", "garbage", "refused", "redirect", "trailing"}).Draw(rt, "how")
		framing := rapid.SampledFrom([]string{"length", "length", "chunked", "close", "gzip", "http10", "hints"}).Draw(rt, "framing")
		segs := rapid.SliceOfN(rapid.IntRange(1, 5000), 0, 4).Draw(rt, "segs")
		if how == "cut" && (framing == "close" || framing == "http10") {
			framing = "length"
		}
		status := 200
		body := enc
		switch how {
		case "status":
			status = rapid.OneOf(rapid.SampledFrom([]int{201, 202, 203, 206, 304, 400, 401, 403, 405, 409, 410, 429, 500, 501, 502, 503, 504, 599}), rapid.IntRange(305, 599).Filter(func(s int) bool { return s != 404 && s != 307 && s != 308 })).Draw(rt, "status")
			if rapid.Bool().Draw(rt, "text") {
				body = []byte("Block not found")
			}
		case "missing":
			status = 404
			if rapid.Bool().Draw(rt, "text") {
				body = []byte("Block not found")
			}
		case "short":
			body = enc[:rapid.IntRange(0, len(enc)-1).Draw(rt, "at")]
		case "empty":
			body = nil
		case "trailing":
			body = append(append([]byte{}, enc...), kit.Expand(uint64(len(enc)), rapid.IntRange(1, 40).Draw(rt, "more"))...)
		case "corrupt":
			body = append([]byte{}, enc...)
			for i, k := 0, rapid.IntRange(1, 3).Draw(rt, "flips"); i < k; i++ {
				body[rapid.IntRange(0, len(body)-1).Draw(rt, "at")] ^= byte(rapid.IntRange(1, 255).Draw(rt, "by"))
			}
			if !kit.Truthful("block", body) {
				rt.Skip("a recorded finding of its own")
			}
		case "redirect":
			status = rapid.SampledFrom([]int{301, 302, 303, 307, 308}).Draw(rt, "status")
		}
		raw := frame(status, framing, body)
		switch how {
		case "cut":
			head := bytes.Index(raw, []byte("\r\n\r\n")) + 4
			if framing == "hints" {
				head += bytes.Index(raw[head:], []byte("\r\n\r\n")) + 4
			}
			last := len(raw) - 1
			if framing == "chunked" {
				last = len(raw) - 6 // within the last chunk, or before the end mark
			}
			raw = raw[:rapid.IntRange(0, max(0, last)).Draw(rt, "cut")]
			_ = head
		case "nothing":
			raw = nil
		case "garbage":
			raw = []byte(rapid.SampledFrom([]string{"HTTP/1.1 abc\r\n\r\n", "\x00\x01\x02", "HTTP/1.1 200", "SSH-2.0-x\r\n", "HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n"}).Draw(rt, "garbage"))
		}
		base := "http://" + ex.ln.Addr().String()
		prefix := rapid.SampledFrom([]string{"", "", "/liquid/api", "/a%20b"}).Draw(rt, "prefix")
		if how == "refused" {
			base = "http://127.0.0.1:1"
		}
		slow := rapid.IntRange(0, 9).Draw(rt, "slow") == 0
		ex.mu.Lock()
		ex.plan = respPlan{raw: raw, segs: segs, pause: slow}
		ex.asked = nil
		ex.mu.Unlock()
		sample := map[string]any{"how": how, "framing": framing, "status": status, "segments": segs, "txs": len(b.TransactionsData.Transactions), "block bytes": len(enc), "body bytes": len(body)}
		kit.Journal(sample)
		var got *block.Block
		var err error
		if stuck := kit.Guarded(patience, func() { got, err = blockservice.NewEsploraBlockService(base + prefix).GetBlock(kit.ToHash(asked)) }); stuck != "" {
			rt.Fatalf("GetBlock did not return:\n%s", repoOf(stuck))
		}
		kit.Case("C54", how != "whole" || len(b.TransactionsData.Transactions) > 0, kit.Key(raw, fmt.Sprint(segs), how), func() any { return sample })
		ex.mu.Lock()
		reqs := append([]string(nil), ex.asked...)
		ex.mu.Unlock()
		want := fmt.Sprintf("GET %s/block/%s/raw", prefix, kit.RevHex(asked))
		if how != "refused" {
			for _, r := range reqs {
				if r != want {
					rt.Fatalf("asked %q instead of %q", r, want)
				}
			}
			if len(reqs) == 0 {
				rt.Fatalf("nothing was asked of the explorer")
			}
		}
		if err != nil && got != nil && how != "whole" {
			rt.Fatalf("%s: a partial block came with the error %v", how, err)
		}
		if errors.Is(err, blockservice.ErrorBlockNotFound) != (how == "missing") {
			rt.Fatalf("%s, status %d: the error is %v", how, status, err)
		}
		switch how {
		case "whole":
			if err != nil || got == nil {
				rt.Fatalf("a whole block (%d bytes, %d transactions, %s) could not be fetched: %v", len(enc), len(b.TransactionsData.Transactions), framing, err)
			}
			if got.Header == nil || got.TransactionsData == nil || !bytes.Equal(kit.EncodeBlock(got), enc) {
				rt.Fatalf("the block fetched is not the one sent (%d bytes, %d transactions, %s)", len(enc), len(b.TransactionsData.Transactions), framing)
			}
		case "trailing":
			if err == nil && (got == nil || !bytes.Equal(kit.EncodeBlock(got), enc)) {
				rt.Fatalf("the block fetched is not the one sent")
			}
		case "corrupt":
			if err == nil && got == nil {
				rt.Fatalf("neither a block nor an error")
			}
		default:
			if err == nil {
				rt.Fatalf("%s, status %d, %d of %d bytes, %s: no error", how, status, len(body), len(enc), framing)
			}
		}
	})
}

// frame writes a whole HTTP response.
func frame(status int, framing string, body []byte) []byte {
	var w bytes.Buffer
	version := "HTTP/1.1"
	if framing == "http10" {
		version = "HTTP/1.0"
	}
	if framing == "hints" {
		w.WriteString("HTTP/1.1 103 Early Hints\r\nLink: </x>\r\n\r\n")
	}
	fmt.Fprintf(&w, "%s %d %s\r\nContent-Type: application/octet-stream\r\n", version, status, http.StatusText(status))
	if status == 304 || status == 204 {
		w.WriteString("\r\n")
		return w.Bytes()
	}
	switch framing {
	case "length", "hints":
		fmt.Fprintf(&w, "Content-Length: %d\r\n\r\n", len(body))
		w.Write(body)
	case "chunked":
		w.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		for i := 0; len(body) > 0; i++ {
			n := min(len(body), []int{1, 100, 7, 4096}[i%4])
			fmt.Fprintf(&w, "%x\r\n%s\r\n", n, body[:n])
			body = body[n:]
		}
		w.WriteString("0\r\n\r\n")
	case "gzip":
		var z bytes.Buffer
		g := gzip.NewWriter(&z)
		_, _ = g.Write(body)
		_ = g.Close()
		fmt.Fprintf(&w, "Content-Encoding: gzip\r\nContent-Length: %d\r\n\r\n", z.Len())
		w.Write(z.Bytes())
	default:
		w.WriteString("Connection: close\r\n\r\n")
		w.Write(body)
	}
	return w.Bytes()
}

// TestC54Stalled has an explorer that stops answering.
func TestC54Stalled(t *testing.T) {
	kit.Rule("C54Stalled", "an explorer stops answering before or within the block, the fetch must end with an error; every case is non-trivial")
	ex := newExplorer()
	defer ex.ln.Close()
	kit.Checks(t, 1, 6, func(rt *rapid.T) {
		b := drawBlock(rt)
		raw := frame(200, "length", kit.EncodeBlock(b))
		at := rapid.IntRange(0, len(raw)-1).Draw(rt, "at")
		ex.mu.Lock()
		ex.plan = respPlan{raw: raw[:at], hang: true}
		ex.mu.Unlock()
		var err error
		if stuck := kit.Guarded(2*patience, func() {
			_, err = blockservice.NewEsploraBlockService("http://" + ex.ln.Addr().String()).GetBlock(kit.ToHash(kit.DHash(nil)))
		}); stuck != "" {
			rt.Fatalf("GetBlock did not return:\n%s", repoOf(stuck))
		}
		kit.Case("C54Stalled", true, kit.Key(raw, at), func() any { return map[string]any{"bytes": len(raw), "sent": at} })
		if err == nil || errors.Is(err, blockservice.ErrorBlockNotFound) || strings.Contains(fmt.Sprint(err), "<nil>") {
			rt.Fatalf("%d of %d bytes: the error is %v", at, len(raw), err)
		}
	})
}

// shelf is an explorer that has many blocks and answers for each as it is told to.
type shelf struct {
	mu     sync.Mutex
	answer map[string]shelved // by path
	open   chan struct{}      // nobody is answered before it is closed
}

type shelved struct {
	status int
	body   []byte
}

func (s *shelf) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	s.mu.Lock()
	a, ok := s.answer[r.RequestURI]
	open := s.open
	s.mu.Unlock()
	if open != nil {
		<-open
	}
	if !ok {
		a.status = 410
	}
	w.WriteHeader(a.status)
	half := len(a.body) / 2
	_, _ = w.Write(a.body[:half])
	if f, ok := w.(http.Flusher); ok {
		f.Flush()
	}
	_, _ = w.Write(a.body[half:])
}

type fetchStep struct {
	Which  int // which of the blocks
	Status int // of the answer
	Cut    int // how much of the body is missing
}

// TestC54History fetches several blocks, some again and again and some at the same time, from one service.
func TestC54History(t *testing.T) {
	kit.Rule("C54History", "rounds of 1-6 fetches at the same time of 1-4 blocks from one service, each answered with the block, cut or with an error status, which changes from round to round; non-trivial when a block is fetched after it could not be or two at the same time")
	sh := &shelf{}
	srv := httptest.NewServer(sh)
	defer srv.Close()
	kit.Checks(t, 150, 4000, func(rt *rapid.T) {
		n := rapid.IntRange(1, 4).Draw(rt, "blocks")
		var encs [][]byte
		var hashes [][32]byte
		for i := 0; i < n; i++ {
			encs = append(encs, kit.EncodeBlock(drawBlock(rt)))
			h := kit.Hash32(rt, "hash")
			if i > 0 && rapid.Bool().Draw(rt, "alike") {
				h = hashes[i-1]
				h[rapid.SampledFrom([]int{0, 3, 7, 8, 16, 24, 31}).Draw(rt, "at")] ^= 0x10
			}
			hashes = append(hashes, h)
		}
		rounds := rapid.SliceOfN(rapid.SliceOfN(rapid.Custom(func(t *rapid.T) fetchStep {
			return fetchStep{
				Which:  rapid.IntRange(0, n-1).Draw(t, "which"),
				Status: rapid.SampledFrom([]int{200, 200, 200, 200, 404, 404, 500, 429}).Draw(t, "status"),
				Cut:    max(0, rapid.IntRange(-20, 9).Draw(t, "cut")),
			}
		}), 1, 6), 1, 5).Draw(rt, "rounds")
		kit.Journal(map[string]any{"blocks": n, "rounds": rounds})
		service := blockservice.NewEsploraBlockService(srv.URL)
		type fetched struct {
			b    *block.Block
			want []byte
		}
		var kept []fetched
		missed := map[int]bool{}
		interesting := false
		for k, round := range rounds {
			sh.mu.Lock()
			sh.answer = map[string]shelved{}
			sh.open = make(chan struct{})
			plans := map[[32]byte]fetchStep{} // one answer for each block in a round
			for _, f := range round {
				h := hashes[f.Which]
				if _, ok := plans[h]; ok {
					continue
				}
				plans[h] = f
				body := encs[f.Which]
				if f.Status != 200 {
					body = nil
				}
				sh.answer["/block/"+kit.RevHex(h)+"/raw"] = shelved{f.Status, body[:max(0, len(body)-f.Cut)]}
			}
			open := sh.open
			sh.mu.Unlock()
			if len(plans) > 1 {
				interesting = true
			}
			got := make([]*block.Block, len(round))
			errs := make([]error, len(round))
			var wg sync.WaitGroup
			for i, f := range round {
				wg.Add(1)
				go func() {
					defer wg.Done()
					got[i], errs[i] = service.GetBlock(kit.ToHash(hashes[f.Which]))
				}()
			}
			close(open)
			if stuck := kit.Guarded(patience, wg.Wait); stuck != "" {
				rt.Fatalf("GetBlock did not return:\n%s", repoOf(stuck))
			}
			for i, f := range round {
				p := plans[hashes[f.Which]]
				what := fmt.Sprintf("round %d of %v, fetch %d", k, rounds, i)
				if errors.Is(errs[i], blockservice.ErrorBlockNotFound) != (p.Status == 404) {
					rt.Fatalf("%s, status %d: the error is %v", what, p.Status, errs[i])
				}
				if p.Status != 200 || p.Cut > 0 {
					missed[p.Which] = true
					if errs[i] == nil || got[i] != nil {
						rt.Fatalf("%s, status %d, %d bytes missing: got %v, %v", what, p.Status, p.Cut, got[i] != nil, errs[i])
					}
					continue
				}
				if missed[p.Which] {
					interesting = true
				}
				if errs[i] != nil || got[i] == nil {
					rt.Fatalf("%s: a whole block could not be fetched: %v", what, errs[i])
				}
				kept = append(kept, fetched{got[i], encs[p.Which]})
			}
			// what was fetched before stays what it is
			for _, f := range kept {
				if f.b.Header == nil || f.b.TransactionsData == nil || !bytes.Equal(kit.EncodeBlock(f.b), f.want) {
					rt.Fatalf("after round %d of %v: a fetched block is not the one sent", k, rounds)
				}
			}
		}
		kit.Case("C54History", interesting, kit.Key(fmt.Sprint(encs, hashes, rounds)), func() any { return map[string]any{"blocks": n, "rounds": rounds} })
	})
}
