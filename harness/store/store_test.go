package store

import (
	"bytes"
	"context"
	"database/sql/driver"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime/debug"
	"sync"
	"testing"

	"github.com/btcsuite/btcd/btcutil/gcs"
	"github.com/btcsuite/btcd/btcutil/gcs/builder"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/lib/pq"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/inmemory"
	dbpg "github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/pg"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	"github.com/vulpemventures/neutrino-elements/verifharness/kit"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { kit.Main(m) }

var ctx = context.Background()

var backends = []string{"inmemory", "postgres"}

type stores struct {
	headers repository.BlockHeaderRepository
	filters repository.FilterRepository
	pg      *kit.PG
	inUse   func() int
	close   func()
}

func open(backend string) *stores {
	if backend == "inmemory" {
		return &stores{headers: inmemory.NewHeaderInmemory(), filters: inmemory.NewFilterInmemory(), close: func() {}, inUse: func() int { return 0 }}
	}
	pg := kit.NewPG()
	db := pg.DB()
	svc := &dbpg.DbService{Db: db}
	h, err := dbpg.NewHeaderRepositoryImpl(svc)
	if err != nil {
		panic(err)
	}
	f, err := dbpg.NewFilterRepositoryImpl(svc)
	if err != nil {
		panic(err)
	}
	return &stores{headers: h, filters: f, pg: pg, inUse: func() int { return db.Stats().InUse }, close: func() {
		db.Close()
		if pg.Bad != "" {
			fmt.Println("HARNESS-ERROR:", pg.Bad)
			os.Exit(2)
		}
	}}
}

// call runs f and gives its panic as an error.
func call(f func() error) (err error, crash string) {
	defer func() {
		if r := recover(); r != nil {
			crash = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	return f(), ""
}

// variedChain is n linked headers with all kinds of contents, from the given height.
func variedChain(rt *rapid.T, n int, first uint32) []*block.Header {
	var out []*block.Header
	var prev [32]byte
	simple := rapid.Bool().Draw(rt, "simple headers")
	if first > 0 {
		prev = kit.Hash32(rt, "prev")
	}
	seed := rapid.Uint64().Draw(rt, "chain seed")
	for i := 0; i < n; i++ {
		h := kit.Hdr(seed, first+uint32(i), prev)
		if !simple && i < 8 {
			x := kit.Header(rt, "header", 200)
			x.Height, x.PrevBlockHash = h.Height, h.PrevBlockHash
			x.MerkleRoot = h.MerkleRoot
			h = x
		}
		out = append(out, h)
		prev = kit.HeaderHash(h)
	}
	return out
}

func sameHeader(got, want *block.Header) string {
	if got == nil {
		return "no header"
	}
	g, w := kit.EncodeHeader(got, false), kit.EncodeHeader(want, false)
	if !bytes.Equal(g, w) {
		return fmt.Sprintf("header of height %d %x instead of height %d %x", got.Height, g[:min(len(g), 120)], want.Height, w[:min(len(w), 120)])
	}
	return ""
}

// checkHeaders compares the whole store with the model (indexes of chain).
func checkHeaders(s *stores, chain []*block.Header, have map[int]bool, full bool) string {
	top := -1
	for i := range have {
		top = max(top, i)
	}
	tip, err := s.headers.ChainTip(ctx)
	switch {
	case top < 0 && err != repository.ErrNoBlocksHeaders:
		return fmt.Sprintf("tip of the empty store: %v", err)
	case top >= 0 && err != nil:
		return fmt.Sprintf("tip: %v", err)
	case top >= 0:
		if d := sameHeader(tip, chain[top]); d != "" {
			return "the tip is not the highest header: " + d
		}
	}
	if !full {
		return ""
	}
	complete := true
	for i, h := range chain {
		if d := checkHeader(s, h, have[i]); d != "" {
			return d
		}
		hash := kit.ToHash(kit.HeaderHash(h))
		all, err := s.headers.HasAllAncestors(ctx, *hash)
		if !have[i] {
			if err == nil {
				return fmt.Sprintf("ancestor check of the unknown header of height %d: %v without an error", h.Height, all)
			}
			if h.Height >= 1 {
				complete = false
			}
			continue
		}
		if err != nil {
			return fmt.Sprintf("ancestor check of height %d: %v", h.Height, err)
		}
		want := h.Height == 0 || complete && chain[0].Height <= 1
		if all != want {
			return fmt.Sprintf("ancestor check of height %d: %v, stored %v of %d", h.Height, all, have, len(chain))
		}
	}
	return ""
}

func checkHeader(s *stores, h *block.Header, have bool) string {
	hash := kit.ToHash(kit.HeaderHash(h))
	got, err := s.headers.GetBlockHeader(ctx, *hash)
	byHeight, errHeight := s.headers.GetBlockHashByHeight(ctx, h.Height)
	if !have {
		if err != repository.ErrBlockNotFound {
			return fmt.Sprintf("header of height %d was not written: %v", h.Height, err)
		}
		if errHeight != repository.ErrBlockNotFound {
			return fmt.Sprintf("hash of height %d that was not written: %v", h.Height, errHeight)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("header of height %d was written: %v", h.Height, err)
	}
	if d := sameHeader(got, h); d != "" {
		return "by hash: " + d
	}
	if errHeight != nil || *byHeight != *hash {
		return fmt.Sprintf("hash of height %d: %v, %v instead of %v", h.Height, byHeight, errHeight, hash)
	}
	return ""
}

func write(s *stores, chain []*block.Header, idx ...int) (error, string) {
	var hs []block.Header
	for _, i := range idx {
		hs = append(hs, *chain[i])
	}
	err, crash := call(func() error { return s.headers.WriteHeaders(ctx, hs...) })
	for i := range hs { // the caller may use its memory for something else
		hs[i] = block.Header{Version: 7, Height: 123456789, PrevBlockHash: make([]byte, 32), MerkleRoot: make([]byte, 32)}
	}
	return err, crash
}

func TestC30(t *testing.T) {
	t.Run("sequences", func(t *testing.T) {
		kit.Rule("sequences", "both stores; a chain of 0-40 headers of all kinds from height 0, 1 or higher, 1-8 write calls of 0-30 headers each in any order with repetitions, within the call and of earlier calls; after each the tip, at the end every header by hash and height, unknown ones, and the ancestor check of each; non-trivial: a call repeats a header and the store has a gap at some time")
		kit.Checks(t, 3600, 40000, func(rt *rapid.T) {
			backend := rapid.SampledFrom(backends).Draw(rt, "store")
			first := rapid.SampledFrom([]uint32{1, 1, 1, 0, 2, 2147483600}).Draw(rt, "first height")
			n := rapid.IntRange(0, 40).Draw(rt, "headers")
			chain := variedChain(rt, n, first)
			s := open(backend)
			defer s.close()
			have := map[int]bool{}
			if d := checkHeaders(s, chain, have, true); d != "" {
				rt.Fatalf("%s, empty: %s", backend, d)
			}
			var desc []string
			repeated, gap := false, false
			for i := rapid.IntRange(1, 8).Draw(rt, "calls"); i > 0; i-- {
				var idx []int
				if n > 0 {
					switch rapid.IntRange(0, 2).Draw(rt, "call kind") {
					case 0:
						a := rapid.IntRange(0, n-1).Draw(rt, "from")
						b := rapid.IntRange(a, n-1).Draw(rt, "to")
						for j := a; j <= b; j++ {
							idx = append(idx, j)
						}
					case 1:
						idx = rapid.SliceOfN(rapid.IntRange(0, n-1), 0, 30).Draw(rt, "any")
					case 2: // continue the highest with an overlap
						top := 0
						for j := range have {
							top = max(top, j)
						}
						a := max(0, top-rapid.IntRange(0, 3).Draw(rt, "overlap"))
						for j := a; j < min(n, a+rapid.IntRange(1, 12).Draw(rt, "length")); j++ {
							idx = append(idx, j)
						}
					}
				}
				seen := map[int]bool{}
				for _, j := range idx {
					repeated = repeated || have[j] || seen[j]
					seen[j] = true
				}
				err, crash := write(s, chain, idx...)
				if crash != "" || err != nil {
					rt.Fatalf("%s: writing %v with %v stored: %v %s", backend, idx, keys(have), err, crash)
				}
				for j := range seen {
					have[j] = true
				}
				lo, hi := n, 0
				for j := range have {
					lo, hi = min(lo, j), max(hi, j)
				}
				gap = gap || len(have) > 0 && hi-lo+1 != len(have)
				desc = append(desc, fmt.Sprint(idx))
				full := i == 1 || rapid.IntRange(0, 2).Draw(rt, "check all") == 0
				if d := checkHeaders(s, chain, have, full); d != "" {
					rt.Fatalf("%s: after writing %v (first height %d): %s", backend, desc, first, d)
				}
			}
			var u chainhash.Hash = kit.Hash32(rt, "unknown")
			if _, err := s.headers.GetBlockHeader(ctx, u); err != repository.ErrBlockNotFound {
				rt.Fatalf("%s: an unknown hash: %v", backend, err)
			}
			for _, h := range []uint32{first + uint32(n), first + uint32(n) + 1, 2147483647, 0} {
				if i := int64(h) - int64(first); i >= 0 && i < int64(n) {
					continue
				}
				if _, err := s.headers.GetBlockHashByHeight(ctx, h); err != repository.ErrBlockNotFound {
					rt.Fatalf("%s: unknown height %d: %v", backend, h, err)
				}
			}
			kit.Case("sequences", repeated && gap, kit.Key(backend, first, n, desc), func() any {
				return map[string]any{"store": backend, "first height": first, "headers": n, "calls": desc}
			})
		})
	})
}

// TestC30Ancestors checks the ancestor check on stores that hold headers of two chains, one of each height, and on long ones.
func TestC30Ancestors(t *testing.T) {
	t.Run("two chains", func(t *testing.T) {
		kit.Rule("two chains", "both stores; for each of 2-40 heights the header of one of two chains that fork at some height, or none, written in any order; everything is found by hash and height, and the ancestor check is that of the header's own ancestors; non-trivial: headers of both chains above the fork are stored")
		kit.Checks(t, 600, 8000, func(rt *rapid.T) {
			backend := rapid.SampledFrom(backends).Draw(rt, "store")
			n := rapid.IntRange(2, 40).Draw(rt, "headers")
			fork := rapid.IntRange(0, n-1).Draw(rt, "fork")
			a := kit.Chain(rapid.Uint64Range(0, 1000).Draw(rt, "chain"), kit.Nets[2].Genesis, n)
			b := append([]*block.Header{}, a[:fork]...)
			for i := fork; i < n; i++ {
				prev := kit.Nets[2].Genesis
				if i > 0 {
					prev = kit.HeaderHash(b[i-1])
				}
				b = append(b, kit.Hdr(77777, uint32(i+1), prev))
			}
			which := make([]int, n) // 0 the first chain's, 1 the other's, 2 none
			rare := rapid.IntRange(0, 3).Draw(rt, "mixing")
			for i := range which {
				switch rapid.IntRange(0, 9).Draw(rt, "which") {
				case 0, 1, 2:
					which[i] = 1 - rare%2
				case 3:
					if rare > 1 {
						which[i] = 2
					}
				default:
					which[i] = rare % 2
				}
			}
			s := open(backend)
			defer s.close()
			var hs []*block.Header
			for i, w := range which {
				if w < 2 {
					hs = append(hs, [][]*block.Header{a, b}[w][i])
				}
			}
			for _, i := range rapid.Permutation(seq(len(hs))).Draw(rt, "order") {
				if err, crash := write(s, hs, i); err != nil || crash != "" {
					rt.Fatalf("%s: writing a header: %v %s", backend, err, crash)
				}
			}
			stored := map[chainhash.Hash]bool{}
			for _, h := range hs {
				stored[*kit.ToHash(kit.HeaderHash(h))] = true
			}
			both := [2]bool{}
			for c, chain := range [][]*block.Header{a, b} {
				complete := true
				for i, h := range chain {
					hash := *kit.ToHash(kit.HeaderHash(h))
					complete = complete && stored[hash]
					both[c] = both[c] || i >= fork && stored[hash]
					got, err := s.headers.HasAllAncestors(ctx, hash)
					if !stored[hash] {
						if err == nil {
							rt.Fatalf("%s: ancestor check of an unknown header of height %d: %v without an error", backend, h.Height, got)
						}
						continue
					}
					if d := checkHeader(s, h, true); d != "" {
						rt.Fatalf("%s: %s", backend, d)
					}
					if err != nil || got != complete {
						rt.Fatalf("%s: chains that fork above height %d, stored %v: ancestor check of height %d of chain %d: %v, %v", backend, fork, which, h.Height, c, got, err)
					}
				}
			}
			kit.Case("two chains", both[0] && both[1], kit.Key(backend, n, fork, which), func() any {
				return map[string]any{"store": backend, "fork above": fork, "stored": which}
			})
		})
	})
	t.Run("long", func(t *testing.T) {
		kit.Rule("long", "both stores; a chain of 100-5000 headers of which none or one is missing, written in batches of up to 2000; tip, lookups and ancestor checks around the missing one and at random heights; non-trivial: every case")
		kit.Checks(t, 24, 300, func(rt *rapid.T) {
			backend := rapid.SampledFrom(backends).Draw(rt, "store")
			n := rapid.OneOf(rapid.IntRange(100, 600), rapid.IntRange(600, 5000)).Draw(rt, "headers")
			chain := kit.Chain(rapid.Uint64Range(0, 1000).Draw(rt, "chain"), kit.Nets[2].Genesis, n)
			missing := -1
			if rapid.IntRange(0, 2).Draw(rt, "one missing") > 0 {
				missing = rapid.OneOf(rapid.IntRange(0, n-1), rapid.IntRange(0, 3)).Draw(rt, "missing")
			}
			batch := rapid.SampledFrom([]int{1, 99, 500, 1000, 2000}).Draw(rt, "batch")
			s := open(backend)
			defer s.close()
			var idx []int
			for i := 0; i <= n; i++ {
				if i < n && i != missing {
					idx = append(idx, i)
				}
				if len(idx) >= batch || i == n {
					if err, crash := write(s, chain, idx...); err != nil || crash != "" {
						rt.Fatalf("%s: writing %d headers: %v %s", backend, len(idx), err, crash)
					}
					idx = nil
				}
			}
			top := n - 1
			if missing == top {
				top--
			}
			tip, err := s.headers.ChainTip(ctx)
			if err != nil {
				rt.Fatalf("%s: tip: %v", backend, err)
			}
			if d := sameHeader(tip, chain[top]); d != "" {
				rt.Fatalf("%s: tip: %s", backend, d)
			}
			for _, i := range append(rapid.SliceOfN(rapid.IntRange(0, n-1), 3, 3).Draw(rt, "at"), 0, 1, missing-1, missing, missing+1, missing+2, n-1, n-2) {
				if i < 0 || i >= n {
					continue
				}
				if d := checkHeader(s, chain[i], i != missing); d != "" {
					rt.Fatalf("%s: %s", backend, d)
				}
				got, err := s.headers.HasAllAncestors(ctx, *kit.ToHash(kit.HeaderHash(chain[i])))
				if i == missing {
					if err == nil {
						rt.Fatalf("%s: ancestor check of an unknown header: %v", backend, got)
					}
					continue
				}
				if want := missing < 0 || i < missing; err != nil || got != want {
					rt.Fatalf("%s, %d headers without index %d: ancestor check of height %d: %v, %v", backend, n, missing, i+1, got, err)
				}
			}
			kit.Case("long", true, kit.Key(backend, n, missing, batch), func() any {
				return map[string]any{"store": backend, "headers": n, "missing": missing, "batch": batch}
			})
		})
	})
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

func keys(m map[int]bool) (out []int) {
	for i := 0; i < 100000 && len(out) < len(m); i++ {
		if m[i] {
			out = append(out, i)
		}
	}
	return out
}

// ---- filters

// keyPool draws block hashes that are all different, many of them nearly equal.
func keyPool(rt *rapid.T) [][32]byte {
	n := rapid.IntRange(1, 8).Draw(rt, "hashes")
	seen := map[[32]byte]bool{}
	var out [][32]byte
	for len(out) < n {
		h := kit.Hash32(rt, "hash")
		if len(out) > 0 {
			switch rapid.IntRange(0, 3).Draw(rt, "near") {
			case 0: // one bit away from an earlier one
				h = out[rapid.IntRange(0, len(out)-1).Draw(rt, "of")]
				h[rapid.IntRange(0, 31).Draw(rt, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
			case 1: // the same start
				copy(h[:rapid.IntRange(1, 31).Draw(rt, "same bytes")], out[0][:])
			case 2: // the same end
				k := rapid.IntRange(1, 31).Draw(rt, "same bytes")
				copy(h[k:], out[0][k:])
			}
		}
		for seen[h] {
			h[5]++
			h[17] += 3
		}
		seen[h] = true
		out = append(out, h)
	}
	return out
}

func TestC31(t *testing.T) {
	t.Run("histories", func(t *testing.T) {
		kit.Rule("histories", "both stores; 1-8 block hashes (many nearly equal, some sharing one array), filter types 0, 1 and 255 or any, 1-25 operations that store one of 4 values (built filters, arbitrary bytes, sometimes none) or look one up; every lookup gives the stored bytes or the not-found error; non-trivial: a conflicting store, a repeated store and a lookup of a type that is not stored")
		kit.Checks(t, 7500, 80000, func(rt *rapid.T) {
			backend := rapid.SampledFrom(backends).Draw(rt, "store")
			pool := keyPool(rt)
			var vals [][]byte
			for i := 0; i < 4; i++ {
				v := kit.Blob(rt, 3000, "value")
				if rapid.Bool().Draw(rt, "built") {
					v = kit.BuildFilter(pool[0], [][]byte{{byte(i), 1}, v})
				}
				if v == nil {
					v = []byte{}
				}
				vals = append(vals, append([]byte{byte(i)}, v...))
			}
			if rapid.IntRange(0, 3).Draw(rt, "an empty one") == 0 {
				vals[3] = []byte{}
			}
			types := []byte{0, 0, 0, 1, 255}
			if rapid.Bool().Draw(rt, "any types") {
				types = append(rapid.SliceOfN(rapid.Byte(), 1, 3).Draw(rt, "types"), 0)
			}
			shared := rapid.Bool().Draw(rt, "one array")
			var array []byte
			for _, h := range pool {
				array = append(array, h[:]...)
			}
			key := func(i int, typ byte) repository.FilterKey {
				b := append([]byte{}, pool[i][:]...)
				if shared {
					b = array[32*i : 32*i+32]
				}
				return repository.FilterKey{BlockHash: b, FilterType: repository.FilterType(typ)}
			}
			s := open(backend)
			defer s.close()
			model := map[string][]byte{}
			conflict, again, miss := false, false, false
			var desc []string
			for i := rapid.IntRange(1, 25).Draw(rt, "operations"); i > 0; i-- {
				k := rapid.IntRange(0, len(pool)-1).Draw(rt, "key")
				typ := rapid.SampledFrom(types).Draw(rt, "type")
				id := fmt.Sprint(k, "/", typ)
				if rapid.Bool().Draw(rt, "store it") {
					v := vals[rapid.IntRange(0, len(vals)-1).Draw(rt, "which")]
					desc = append(desc, fmt.Sprintf("put %s=%d", id, append(v, 99)[0]))
					err, crash := call(func() error {
						return s.filters.PutFilter(ctx, &repository.FilterEntry{Key: key(k, typ), NBytes: append([]byte{}, v...)})
					})
					if crash != "" {
						rt.Fatalf("%s: %v: %s", backend, desc, crash)
					}
					old, ok := model[id]
					switch {
					case !ok:
						if err != nil {
							rt.Fatalf("%s: %v: %v", backend, desc, err)
						}
						model[id] = v
					case bytes.Equal(old, v):
						again = true
						if err != nil {
							rt.Fatalf("%s: %v: storing the same filter again: %v", backend, desc, err)
						}
					default:
						conflict = true
						got, gerr := s.filters.GetFilter(ctx, key(k, typ))
						if gerr != nil {
							rt.Fatalf("%s: %v: lookup after a conflict: %v", backend, desc, gerr)
						}
						if err == nil && !bytes.Equal(got.NBytes, v) {
							rt.Fatalf("%s: %v: the second filter was accepted and is not returned", backend, desc)
						}
						if !bytes.Equal(got.NBytes, v) && !bytes.Equal(got.NBytes, old) {
							rt.Fatalf("%s: %v: after a conflict a third filter is returned", backend, desc)
						}
						model[id] = append([]byte{}, got.NBytes...)
					}
					continue
				}
				desc = append(desc, "get "+id)
				var got *repository.FilterEntry
				err, crash := call(func() (e error) { got, e = s.filters.GetFilter(ctx, key(k, typ)); return })
				if crash != "" {
					rt.Fatalf("%s: %v: %s", backend, desc, crash)
				}
				want, ok := model[id]
				if !ok {
					miss = true
					if err != repository.ErrFilterNotFound {
						rt.Fatalf("%s: %v: a filter that was not stored: %v, %v", backend, desc, got, err)
					}
					continue
				}
				if err != nil || !bytes.Equal(got.NBytes, want) {
					rt.Fatalf("%s: %v: the stored filter is not returned: %v", backend, desc, err)
				}
				if !bytes.Equal(got.Key.BlockHash, pool[k][:]) || byte(got.Key.FilterType) != typ {
					rt.Fatalf("%s: %v: the filter is labelled %x/%d", backend, desc, got.Key.BlockHash, got.Key.FilterType)
				}
			}
			// at the end everything is found under an independent copy of its hash
			for k := range pool {
				for _, typ := range append([]byte{0, 1, 2, 127, 128, 255}, types...) {
					want, ok := model[fmt.Sprint(k, "/", typ)]
					h := pool[k]
					got, err := s.filters.GetFilter(ctx, repository.FilterKey{BlockHash: h[:], FilterType: repository.FilterType(typ)})
					if !ok && err != repository.ErrFilterNotFound {
						rt.Fatalf("%s: %v: key %d/%d was not stored: %v", backend, desc, k, typ, err)
					}
					if ok && (err != nil || !bytes.Equal(got.NBytes, want)) {
						rt.Fatalf("%s: %v: key %d/%d (hashes in one array: %v): %v", backend, desc, k, typ, shared, err)
					}
				}
			}
			kit.Case("histories", conflict && again && miss, kit.Key(backend, fmt.Sprint(pool), desc), func() any {
				return map[string]any{"store": backend, "hashes": len(pool), "operations": desc}
			})
		})
	})
	t.Run("many", func(t *testing.T) {
		kit.Rule("many", "both stores; a filter for each of up to 60000 different block hashes (random, and counters), all found with their own bytes and none for others; non-trivial: every case")
		kit.Checks(t, 12, 40, func(rt *rapid.T) {
			backend := rapid.SampledFrom(backends).Draw(rt, "store")
			n := 60000
			if backend == "postgres" {
				n = 1500
			}
			seed := rapid.Uint64().Draw(rt, "seed")
			random := rapid.Bool().Draw(rt, "random hashes")
			hash := func(i int) []byte {
				if random {
					return kit.Expand(seed+uint64(i)*7919, 32)
				}
				h := kit.Expand(seed, 32)
				j := int(seed % 28)
				h[j], h[j+1], h[j+2] = byte(i), byte(i>>8), byte(i>>16)
				return h
			}
			s := open(backend)
			defer s.close()
			for i := 0; i < n; i++ {
				v := []byte{byte(i), byte(i >> 8), byte(i >> 16), 7}
				if err := s.filters.PutFilter(ctx, &repository.FilterEntry{Key: repository.FilterKey{BlockHash: hash(i)}, NBytes: v}); err != nil {
					rt.Fatalf("%s: filter %d of %d: %v", backend, i, n, err)
				}
			}
			for i := 0; i < n+200; i++ {
				got, err := s.filters.GetFilter(ctx, repository.FilterKey{BlockHash: hash(i)})
				if i >= n {
					if err != repository.ErrFilterNotFound {
						rt.Fatalf("%s: hash %x was not stored: %v", backend, hash(i), err)
					}
					continue
				}
				if err != nil || !bytes.Equal(got.NBytes, []byte{byte(i), byte(i >> 8), byte(i >> 16), 7}) {
					rt.Fatalf("%s: filter %d of %d (%x) is not its own: %v", backend, i, n, hash(i), err)
				}
			}
			kit.Case("many", true, kit.Key(backend, seed, random), func() any {
				return map[string]any{"store": backend, "filters": n, "random": random}
			})
		})
	})
	t.Run("collision", func(t *testing.T) {
		kit.Rule("collision", "both stores; the pair of block hashes found by search whose store keys are equal, and the filters of both; non-trivial: every case")
		var a, b [32]byte
		mustHex(collisionA, a[:])
		mustHex(collisionB, b[:])
		for _, backend := range backends {
			s := open(backend)
			if err := s.filters.PutFilter(ctx, &repository.FilterEntry{Key: repository.FilterKey{BlockHash: a[:]}, NBytes: []byte{1, 2, 3}}); err != nil {
				t.Fatalf("%s: %v", backend, err)
			}
			got, err := s.filters.GetFilter(ctx, repository.FilterKey{BlockHash: b[:]})
			if err == nil {
				if !bytes.Equal(got.NBytes, []byte{1, 2, 3}) {
					t.Fatalf("%s: unknown bytes %x for a hash that was never stored", backend, got.NBytes)
				}
				kit.KnownFinding("C31", collisionFinding)
			} else if err != repository.ErrFilterNotFound {
				t.Fatalf("%s: %v", backend, err)
			}
			s.close()
			kit.Case("collision", true, backend, func() any { return map[string]any{"store": backend, "hashes": []string{collisionA, collisionB}} })
		}
	})
	t.Run("near collisions", func(t *testing.T) {
		kit.Rule("near collisions", "both stores; pairs of block hashes found by search whose store keys are equal but for their last byte: each keeps its own filter; non-trivial: every case")
		for _, pair := range nearPairs {
			for _, backend := range backends {
				s := open(backend)
				for i := range pair {
					var h [32]byte
					mustHex(pair[i], h[:])
					if _, err := s.filters.GetFilter(ctx, repository.FilterKey{BlockHash: h[:]}); err != repository.ErrFilterNotFound {
						t.Fatalf("%s: a filter for %s, which was not stored: %v", backend, pair[i], err)
					}
					if err := s.filters.PutFilter(ctx, &repository.FilterEntry{Key: repository.FilterKey{BlockHash: h[:]}, NBytes: []byte{1, 2, byte(i)}}); err != nil {
						t.Fatalf("%s: %v", backend, err)
					}
				}
				s.close()
				kit.Case("near collisions", true, backend+pair[0], func() any { return map[string]any{"store": backend, "hashes": pair} })
			}
		}
	})
	t.Run("entries", func(t *testing.T) {
		kit.Rule("entries", "a filter built from 0-30 items, made into an entry, stored, looked up and read as a filter: it has the bytes that a reference encoder gives and matches every item; non-trivial: at least two items")
		kit.Checks(t, 450, 6000, func(rt *rapid.T) {
			backend := rapid.SampledFrom(backends).Draw(rt, "store")
			hash := kit.Hash32(rt, "hash")
			items := [][]byte{}
			for i := rapid.IntRange(1, 30).Draw(rt, "items"); i > 0; i-- {
				items = append(items, append([]byte{byte(i)}, kit.Blob(rt, 40, "item")...))
			}
			key := builder.DeriveKey(kit.ToHash(hash))
			f, err := gcs.BuildGCSFilter(builder.DefaultP, builder.DefaultM, key, items)
			if err != nil {
				rt.Fatalf("building: %v", err)
			}
			s := open(backend)
			defer s.close()
			e, err := repository.NewFilterEntry(repository.FilterKey{BlockHash: hash[:]}, f)
			if err != nil {
				rt.Fatalf("entry: %v", err)
			}
			if err := s.filters.PutFilter(ctx, e); err != nil {
				rt.Fatalf("storing: %v", err)
			}
			got, err := s.filters.GetFilter(ctx, repository.FilterKey{BlockHash: hash[:]})
			if err != nil {
				rt.Fatalf("lookup: %v", err)
			}
			if want := kit.BuildFilter(hash, items); !bytes.Equal(got.NBytes, want) {
				rt.Fatalf("%s: entry has %x instead of %x", backend, got.NBytes, want)
			}
			g, err := got.GcsFilter()
			if err != nil {
				rt.Fatalf("filter: %v", err)
			}
			for i := range items {
				if m, err := g.Match(key, items[i]); err != nil || !m {
					rt.Fatalf("%s: item %d of %d is not matched: %v", backend, i, len(items), err)
				}
			}
			kit.Case("entries", len(items) > 1, kit.Key(backend, fmt.Sprint(items)), func() any {
				return map[string]any{"store": backend, "items": len(items), "filter": hex.EncodeToString(got.NBytes[:min(40, len(got.NBytes))])}
			})
		})
	})
}

func mustHex(s string, dst []byte) {
	b, err := hex.DecodeString(s)
	if err != nil || len(b) != len(dst) {
		panic("bad constant")
	}
	copy(dst, b)
}

// ---- database failures

type faultKind struct {
	Name      string
	Err       error
	Lost      bool
	Retryable bool
}

var faultKinds = []faultKind{
	{Name: "server error", Err: &pq.Error{Severity: "ERROR", Code: "53200", Message: "out of memory"}},
	{Name: "server shutdown", Err: &pq.Error{Severity: "FATAL", Code: "57P01", Message: "terminating connection"}, Lost: true},
	{Name: "network error", Err: &net.OpError{Op: "read", Net: "tcp", Err: errors.New("connection reset by peer")}, Lost: true},
	{Name: "end of stream", Err: io.ErrUnexpectedEOF, Lost: true},
	{Name: "bad connection", Err: driver.ErrBadConn, Lost: true, Retryable: true},
	{Name: "serialization", Err: &pq.Error{Severity: "ERROR", Code: "40001", Message: "could not serialize access"}},
	{Name: "unspecific", Err: errors.New("some driver error")},
}

func TestC32(t *testing.T) {
	type world struct {
		chain []*block.Header
		fkeys [][32]byte
	}
	kit.Rule("faults", "a database with 0-12 headers and 0-3 filters; one store operation of any kind; every operation of the database that it makes (connect, begin, statement, row, commit, rollback) fails in turn, alone or from then on, in 7 ways, a commit also after it took effect; non-trivial: a failing point of an operation that writes or reads more than one row")
	kit.Checks(t, 450, 6000, func(rt *rapid.T) {
		n := rapid.IntRange(0, 12).Draw(rt, "headers")
		w := world{chain: kit.Chain(rapid.Uint64Range(0, 1000).Draw(rt, "chain"), kit.Nets[2].Genesis, n+4), fkeys: [][32]byte{{1}, {2}, {3}}}
		gap := n > 3 && rapid.IntRange(0, 4).Draw(rt, "gap") == 0
		nf := rapid.IntRange(0, 3).Draw(rt, "filters")
		kinds := []string{"write headers", "write headers", "put filter", "put filter", "get filter", "tip", "header", "hash by height", "locator", "ancestors"}
		kind := rapid.SampledFrom(kinds).Draw(rt, "operation")
		target := rapid.IntRange(0, n+3).Draw(rt, "target")
		fk := rapid.IntRange(0, 2).Draw(rt, "filter")
		fv := rapid.IntRange(0, 1).Draw(rt, "filter value")
		from := rapid.IntRange(max(0, n-3), n+3).Draw(rt, "from")
		to := rapid.IntRange(from, n+3).Draw(rt, "to")
		warm := rapid.Bool().Draw(rt, "connection in the pool")

		op := func(s *stores) (res string, err error, crash string) {
			err, crash = call(func() (e error) {
				switch kind {
				case "write headers":
					var hs []block.Header
					for i := from; i <= to; i++ {
						hs = append(hs, *w.chain[i])
					}
					return s.headers.WriteHeaders(ctx, hs...)
				case "put filter":
					return s.filters.PutFilter(ctx, &repository.FilterEntry{Key: repository.FilterKey{BlockHash: w.fkeys[fk][:]}, NBytes: []byte{byte(fk), byte(fv), 9}})
				case "get filter":
					var f *repository.FilterEntry
					if f, e = s.filters.GetFilter(ctx, repository.FilterKey{BlockHash: w.fkeys[fk][:]}); e == nil {
						res = fmt.Sprintf("%x", f.NBytes)
					}
				case "tip":
					var h *block.Header
					if h, e = s.headers.ChainTip(ctx); e == nil {
						res = fmt.Sprintf("%x", kit.HeaderHash(h))
					}
				case "header":
					var h *block.Header
					if h, e = s.headers.GetBlockHeader(ctx, *kit.ToHash(kit.HeaderHash(w.chain[target]))); e == nil {
						res = fmt.Sprintf("%x", kit.HeaderHash(h))
					}
				case "hash by height":
					var h *chainhash.Hash
					if h, e = s.headers.GetBlockHashByHeight(ctx, uint32(target+1)); e == nil {
						res = h.String()
					}
				case "locator":
					var l []*chainhash.Hash
					if l, e = s.headers.LatestBlockLocator(ctx); e == nil {
						res = fmt.Sprint(l)
					}
				case "ancestors":
					var ok bool
					if ok, e = s.headers.HasAllAncestors(ctx, *kit.ToHash(kit.HeaderHash(w.chain[target]))); e == nil {
						res = fmt.Sprint(ok)
					}
				}
				return e
			})
			return
		}
		seedDB := func(s *stores) {
			var hs []block.Header
			for i := 0; i < n; i++ {
				if gap && i == n/2 {
					continue
				}
				hs = append(hs, *w.chain[i])
			}
			if err := s.headers.WriteHeaders(ctx, hs...); err != nil {
				rt.Fatalf("filling the store: %v", err)
			}
			for i := 0; i < nf; i++ {
				if err := s.filters.PutFilter(ctx, &repository.FilterEntry{Key: repository.FilterKey{BlockHash: w.fkeys[i][:]}, NBytes: []byte{byte(i), 0, 9}}); err != nil {
					rt.Fatalf("filling the store: %v", err)
				}
			}
		}
		rows := func(s *stores) string { return fmt.Sprint(s.pg.Rows("block_header"), s.pg.Rows("filter")) }

		// the undisturbed run
		base := open("postgres")
		defer base.close()
		seedDB(base)
		snap := base.pg.Snapshot()
		before := rows(base)
		what := fmt.Sprintf("%s (target %d, range %d-%d, filter %d=%d) on %d headers (gap %v) and %d filters", kind, target+1, from+1, to+1, fk, fv, n, gap, nf)
		fresh := func() *stores {
			s := open("postgres")
			s.pg.Restore(snap)
			if warm {
				_, _ = s.headers.ChainTip(ctx)
			}
			s.pg.Restore(snap)
			return s
		}
		u := fresh()
		wantRes, wantErr, crash := op(u)
		if crash != "" {
			rt.Fatalf("%s: %s", what, crash)
		}
		after := rows(u)
		log := append([]string{}, u.pg.Log...)
		u.close()
		if wantErr != nil && after != before {
			rt.Fatalf("%s: fails with %v and leaves writes behind", what, wantErr)
		}
		runs := 0
		for at := 0; at < len(log); at++ {
			for _, k := range faultKinds {
				for mode := 0; mode < 3; mode++ { // alone, from then on, alone after taking effect
					if mode == 2 && log[at] != "commit" {
						continue
					}
					s := fresh()
					var fired []string
					s.pg.Plan = func(name string, i int) *kit.PGFault {
						if i == at || mode == 1 && i > at {
							fired = append(fired, name)
							return &kit.PGFault{Err: k.Err, Lost: k.Lost, Done: mode == 2}
						}
						return nil
					}
					res, err, crash := op(s)
					s.pg.Plan = nil
					runs++
					where := fmt.Sprintf("%s: %s at operation %d of %v (mode %d)", what, k.Name, at, log, mode)
					if crash != "" {
						rt.Fatalf("%s: %s", where, crash)
					}
					got := rows(s)
					if got != before && got != after {
						rt.Fatalf("%s: half of the writes are kept: %s\nbefore %s\nafter %s", where, got, before, after)
					}
					serious := false
					for _, f := range fired {
						serious = serious || f != "rollback" && f != "ping"
					}
					if err == nil {
						if serious && mode == 1 && !k.Retryable || serious && mode == 1 && kind != "write headers" && kind != "put filter" {
							rt.Fatalf("%s: reports success (%s)", where, res)
						}
						if wantErr == nil && (res != wantRes || got != after) {
							rt.Fatalf("%s: reports success with %q instead of %q, all writes kept: %v", where, res, wantRes, got == after)
						}
						if wantErr != nil {
							rt.Fatalf("%s: reports success (%s), an undisturbed run fails with %v", where, res, wantErr)
						}
					} else if serious && mode == 1 {
						for _, e := range []error{repository.ErrBlockNotFound, repository.ErrNoBlocksHeaders, repository.ErrFilterNotFound} {
							if errors.Is(err, e) {
								rt.Fatalf("%s: is reported as %v", where, err)
							}
						}
					}
					if c := s.inUse(); c != 0 {
						rt.Fatalf("%s: %d connections stay in use", where, c)
					}
					// the failure has passed
					res2, err2, crash := op(s)
					if crash != "" {
						rt.Fatalf("%s, then repeated: %s", where, crash)
					}
					if (err2 == nil) != (wantErr == nil) || res2 != wantRes {
						rt.Fatalf("%s, then repeated: %q, %v instead of %q, %v", where, res2, err2, wantRes, wantErr)
					}
					if got := rows(s); got != after {
						rt.Fatalf("%s, then repeated: the database differs from an undisturbed run: %s instead of %s", where, got, after)
					}
					s.close()
				}
			}
		}
		for i := 0; i < runs; i++ {
			kit.Class("faults/runs")
		}
		kit.Case("faults", kind == "write headers" && to > from || kind == "locator" || kind == "ancestors" || kind == "put filter", kit.Key(what), func() any {
			return map[string]any{"operation": what, "database operations": log, "faulted runs": runs}
		})
	})
}

// TestC32Big has faults at random operations of long writes.
func TestC32Big(t *testing.T) {
	kit.Rule("big", "a write of 100-2500 headers of which some are stored already, with a fault at the first, last or a random operation of the database, alone or from then on; then repeated; non-trivial: every case")
	kit.Checks(t, 24, 400, func(rt *rapid.T) {
		n := rapid.OneOf(rapid.IntRange(100, 700), rapid.IntRange(700, 2500)).Draw(rt, "headers")
		chain := kit.Chain(rapid.Uint64Range(0, 1000).Draw(rt, "chain"), kit.Nets[2].Genesis, n)
		old := rapid.IntRange(0, n/2).Draw(rt, "stored before")
		overlap := rapid.IntRange(0, min(old, 20)).Draw(rt, "overlap")
		type fault struct {
			Kind, At int
			From     bool
			Done     bool
		}
		faults := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) fault {
			return fault{rapid.IntRange(0, len(faultKinds)-1).Draw(t, "kind"), rapid.OneOf(rapid.IntRange(0, n), rapid.SampledFrom([]int{-1, -2, 0, 1, 2})).Draw(t, "at"), rapid.Bool().Draw(t, "from then on"), rapid.Bool().Draw(t, "done")}
		}), 4, 10).Draw(rt, "faults")
		s := open("postgres")
		defer s.close()
		if err, crash := write(s, chain, seq(old)...); err != nil || crash != "" {
			rt.Fatalf("filling the store: %v %s", err, crash)
		}
		snap, before := s.pg.Snapshot(), len(s.pg.Rows("block_header"))
		op := func() (error, string) { return write(s, chain, seq(n)[old-overlap:]...) }
		s.pg.Log = nil
		if err, crash := op(); err != nil || crash != "" {
			rt.Fatalf("writing %d headers: %v %s", n-old+overlap, err, crash)
		}
		log := append([]string{}, s.pg.Log...)
		for _, f := range faults {
			s.pg.Restore(snap)
			at := f.At
			if at < 0 {
				at += len(log)
			}
			at = max(0, min(at, len(log)-1))
			k, seen := faultKinds[f.Kind], 0
			s.pg.Plan = func(name string, i int) *kit.PGFault {
				i = seen
				seen++
				if name != "rollback" && (i == at || f.From && i > at) {
					return &kit.PGFault{Err: k.Err, Lost: k.Lost, Done: f.Done && name == "commit"}
				}
				return nil
			}
			err, crash := op()
			s.pg.Plan = nil
			where := fmt.Sprintf("writing headers %d to %d on %d, %s at operation %d of %d (%s), from then on: %v, done: %v", old-overlap, n, old, k.Name, at, len(log), log[at], f.From, f.Done)
			if crash != "" {
				rt.Fatalf("%s: %s", where, crash)
			}
			got := len(s.pg.Rows("block_header"))
			if got != before && got != n {
				rt.Fatalf("%s: half of the writes are kept: %d headers", where, got)
			}
			if err == nil && got != n {
				rt.Fatalf("%s: reports success and keeps nothing", where)
			}
			if c := s.inUse(); c != 0 {
				rt.Fatalf("%s: %d connections stay in use", where, c)
			}
			if err, crash := op(); err != nil || crash != "" {
				rt.Fatalf("%s, then repeated: %v %s", where, err, crash)
			}
			if got := len(s.pg.Rows("block_header")); got != n {
				rt.Fatalf("%s, then repeated: %d headers instead of %d", where, got, n)
			}
		}
		kit.Case("big", true, kit.Key(n, old, overlap, fmt.Sprint(faults)), func() any {
			return map[string]any{"headers": n, "stored before": old, "overlap": overlap, "faults": faults}
		})
	})
}

// ---- locators

func TestC33(t *testing.T) {
	kit.Rule("locators", "both stores with a gap-free chain of 0-300 (sometimes up to 4000) headers, written in batches, or with gaps; the rules of the property, and that the locator finds a fork of any depth within twice its depth; non-trivial: a gap-free store of more than 12 headers")
	kit.Checks(t, 1200, 6000, func(rt *rapid.T) {
		backend := rapid.SampledFrom(backends).Draw(rt, "store")
		n := rapid.OneOf(rapid.IntRange(0, 30), rapid.IntRange(0, 300)).Draw(rt, "headers")
		if rapid.IntRange(0, 39).Draw(rt, "long") == 0 {
			n = rapid.IntRange(300, 4000).Draw(rt, "long length")
		}
		chain := kit.Chain(uint64(rapid.IntRange(0, 3).Draw(rt, "chain")), kit.Nets[0].Genesis, n)
		missing := map[int]bool{}
		if n > 1 && rapid.IntRange(0, 3).Draw(rt, "gaps") == 0 {
			for i := rapid.IntRange(1, 4).Draw(rt, "missing"); i > 0; i-- {
				missing[rapid.IntRange(0, n-1).Draw(rt, "missing height")] = true
			}
		}
		s := open(backend)
		defer s.close()
		height := map[chainhash.Hash]uint32{}
		var batch []block.Header
		for i, h := range chain {
			if missing[i] {
				continue
			}
			height[*kit.ToHash(kit.HeaderHash(h))] = h.Height
			batch = append(batch, *h)
		}
		if err := s.headers.WriteHeaders(ctx, batch...); err != nil {
			rt.Fatalf("%s: %v", backend, err)
		}
		gaps := false // below the tip
		top := uint32(0)
		for _, h := range height {
			top = max(top, h)
		}
		gaps = int(top) != len(height)
		var loc []*chainhash.Hash
		err, crash := call(func() (e error) { loc, e = s.headers.LatestBlockLocator(ctx); return })
		what := fmt.Sprintf("%s, %d headers without %v", backend, n, keys(missing))
		if crash != "" {
			rt.Fatalf("%s: %s", what, crash)
		}
		kit.Case("locators", !gaps && n > 12, kit.Key(backend, n, keys(missing)), func() any {
			return map[string]any{"store": backend, "headers": n, "missing": len(missing), "entries": len(loc)}
		})
		if len(height) == 0 {
			if err != repository.ErrNoBlocksHeaders {
				rt.Fatalf("%s: empty store: %v", what, err)
			}
			return
		}
		if err != nil {
			if !gaps {
				rt.Fatalf("%s: %v", what, err)
			}
			return
		}
		var hs []uint32
		for i, l := range loc {
			h, ok := height[*l]
			if !ok {
				rt.Fatalf("%s: entry %d of the locator is not a stored header", what, i)
			}
			hs = append(hs, h)
		}
		if gaps {
			return
		}
		if len(hs) == 0 || hs[0] != top {
			rt.Fatalf("%s: the locator %v does not start with the tip", what, hs)
		}
		if len(hs) > 500 {
			rt.Fatalf("%s: %d entries", what, len(hs))
		}
		if len(hs) > 1 && hs[1] == top {
			hs = hs[1:]
		}
		step := uint32(1)
		for i := 1; i < len(hs); i++ {
			if hs[i] >= hs[i-1] {
				rt.Fatalf("%s: the locator %v does not go down", what, hs)
			}
			d := hs[i-1] - hs[i]
			if i < 10 && d != 1 {
				rt.Fatalf("%s: the locator %v leaves out one of the last blocks", what, hs)
			}
			if d > 2*step || d < step {
				rt.Fatalf("%s: the steps of the locator %v do not grow by doubling", what, hs)
			}
			step = d
		}
		if low := hs[len(hs)-1]; low > 2*step || len(hs) < 10 && low > 1 {
			rt.Fatalf("%s: the locator %v stops at height %d", what, hs, low)
		}
		if n > 100 && len(hs) > 40 {
			rt.Fatalf("%s: the locator has %d entries, its steps do not grow", what, len(hs))
		}
	})
}

func TestC30Concurrent(t *testing.T) {
	t.Run("concurrent", func(t *testing.T) {
		kit.Rule("concurrent", "both stores under the race detector; 2-4 goroutines write overlapping ascending ranges of one chain while others read; every read gives a written header, unaltered, or the not-found error, a header whose write has returned is found, and the final store is the union; non-trivial: at least two ranges overlap")
		kit.Checks(t, 180, 3000, func(rt *rapid.T) {
			backend := rapid.SampledFrom(backends).Draw(rt, "store")
			n := rapid.IntRange(1, 60).Draw(rt, "headers")
			chain := kit.Chain(rapid.Uint64().Draw(rt, "seed"), kit.Nets[2].Genesis, n)
			type job struct{ From, To, Batch int }
			var jobs []job
			covered := map[int]int{}
			for i := rapid.IntRange(2, 4).Draw(rt, "writers"); i > 0; i-- {
				a := rapid.IntRange(0, n-1).Draw(rt, "from")
				j := job{a, rapid.IntRange(a, n-1).Draw(rt, "to"), rapid.IntRange(1, 20).Draw(rt, "batch")}
				jobs = append(jobs, j)
				for k := j.From; k <= j.To; k++ {
					covered[k]++
				}
			}
			s := open(backend)
			defer s.close()
			var wg, rd sync.WaitGroup
			var mu sync.Mutex
			var fails []string
			fail := func(f string, a ...any) { mu.Lock(); fails = append(fails, fmt.Sprintf(f, a...)); mu.Unlock() }
			done := make(chan struct{})
			for r := 0; r < 2; r++ {
				rd.Add(1)
				go func() {
					defer rd.Done()
					last := uint32(0)
					for k := 0; ; k++ {
						select {
						case <-done:
							return
						default:
						}
						if tip, err := s.headers.ChainTip(ctx); err == nil {
							if tip.Height < last {
								fail("the tip went from height %d to %d", last, tip.Height)
							}
							last = tip.Height
							if d := sameHeader(tip, chain[last-1]); d != "" {
								fail("tip: %s", d)
							}
						} else if err != repository.ErrNoBlocksHeaders {
							fail("tip: %v", err)
						}
						h := chain[k%n]
						got, err := s.headers.GetBlockHeader(ctx, *kit.ToHash(kit.HeaderHash(h)))
						if err == nil {
							if d := sameHeader(got, h); d != "" {
								fail("by hash: %s", d)
							}
						} else if err != repository.ErrBlockNotFound {
							fail("by hash: %v", err)
						}
						_, _ = s.headers.HasAllAncestors(ctx, *kit.ToHash(kit.HeaderHash(h)))
						_, _ = s.headers.LatestBlockLocator(ctx)
					}
				}()
			}
			for _, j := range jobs {
				wg.Add(1)
				go func(j job) {
					defer wg.Done()
					for a := j.From; a <= j.To; a += j.Batch {
						var idx []int
						for k := a; k <= min(j.To, a+j.Batch-1); k++ {
							idx = append(idx, k)
						}
						if err, crash := write(s, chain, idx...); err != nil || crash != "" {
							fail("writing %v: %v %s", idx, err, crash)
						}
						for _, k := range idx {
							if d := checkHeader(s, chain[k], true); d != "" {
								fail("after its write returned: %s", d)
							}
						}
					}
				}(j)
			}
			wg.Wait()
			close(done)
			rd.Wait()
			if len(fails) > 0 {
				rt.Fatalf("%s, %d headers, writers %v: %s", backend, n, jobs, fails[0])
			}
			have := map[int]bool{}
			overlap := false
			for k, c := range covered {
				have[k] = true
				overlap = overlap || c > 1
			}
			if d := checkHeaders(s, chain, have, true); d != "" {
				rt.Fatalf("%s, %d headers, writers %v: at the end: %s", backend, n, jobs, d)
			}
			kit.Case("concurrent", overlap, kit.Key(backend, n, jobs), func() any {
				return map[string]any{"store": backend, "headers": n, "writers": jobs}
			})
		})
	})
}

func TestC31Concurrent(t *testing.T) {
	t.Run("concurrent", func(t *testing.T) {
		kit.Rule("concurrent", "both stores under the race detector; 2-6 goroutines store and look up filters of shared and own block hashes; no stored filter is lost or mixed up, equal ones are accepted, and of conflicting ones each lookup gives one that was stored; non-trivial: two goroutines store under one hash")
		kit.Checks(t, 300, 4000, func(rt *rapid.T) {
			backend := rapid.SampledFrom(backends).Draw(rt, "store")
			n := rapid.IntRange(2, 6).Draw(rt, "goroutines")
			type op struct {
				Key, Val int
				Put      bool
			}
			jobs := make([][]op, n)
			writers := map[int]map[int]bool{}
			values := map[int]map[int]bool{}
			for g := range jobs {
				for i := rapid.IntRange(1, 12).Draw(rt, "operations"); i > 0; i-- {
					k := rapid.IntRange(0, 9).Draw(rt, "key")
					o := op{Key: k, Put: rapid.IntRange(0, 2).Draw(rt, "put") > 0}
					if k < 3 { // conflicting values
						o.Val = g
					}
					jobs[g] = append(jobs[g], o)
					if o.Put {
						if writers[k] == nil {
							writers[k], values[k] = map[int]bool{}, map[int]bool{}
						}
						writers[k][g] = true
						values[k][o.Val] = true
					}
				}
			}
			s := open(backend)
			defer s.close()
			var wg sync.WaitGroup
			var mu sync.Mutex
			var fails []string
			fail := func(f string, a ...any) { mu.Lock(); fails = append(fails, fmt.Sprintf(f, a...)); mu.Unlock() }
			hash := func(k int) []byte { return kit.Expand(uint64(k)+500, 32) }
			val := func(k, v int) []byte { return kit.Expand(uint64(k*100+v), 50+k) }
			known := func(k int, b []byte) bool {
				for v := range values[k] {
					if bytes.Equal(b, val(k, v)) {
						return true
					}
				}
				return false
			}
			for g := range jobs {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					stored := map[int]bool{}
					for _, o := range jobs[g] {
						key := repository.FilterKey{BlockHash: hash(o.Key)}
						if o.Put {
							err, crash := call(func() error {
								return s.filters.PutFilter(ctx, &repository.FilterEntry{Key: key, NBytes: val(o.Key, o.Val)})
							})
							if crash != "" || err != nil && len(values[o.Key]) < 2 {
								fail("storing filter %d: %v %s", o.Key, err, crash)
							}
							stored[o.Key] = true
						}
						got, err := s.filters.GetFilter(ctx, key)
						if err == nil && !known(o.Key, got.NBytes) {
							fail("filter %d has bytes that nobody stored", o.Key)
						}
						if err != nil && (stored[o.Key] || err != repository.ErrFilterNotFound) {
							fail("filter %d: %v", o.Key, err)
						}
					}
				}(g)
			}
			wg.Wait()
			two := false
			for k, w := range writers {
				two = two || len(w) > 1
				got, err := s.filters.GetFilter(ctx, repository.FilterKey{BlockHash: hash(k)})
				if err != nil || !known(k, got.NBytes) {
					fail("at the end: filter %d: %v", k, err)
				}
			}
			if len(fails) > 0 {
				rt.Fatalf("%s, %v: %s", backend, jobs, fails[0])
			}
			kit.Case("concurrent", two, kit.Key(backend, fmt.Sprint(jobs)), func() any {
				return map[string]any{"store": backend, "operations": fmt.Sprint(jobs)[:min(300, len(fmt.Sprint(jobs)))]}
			})
		})
	})
}
