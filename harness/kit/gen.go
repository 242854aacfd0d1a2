package kit

import (
	"crypto/sha256"
	"encoding/binary"
	"io"

	"github.com/btcsuite/btcd/btcutil/gcs"
	"github.com/btcsuite/btcd/btcutil/gcs/builder"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/go-elements/transaction"
	"pgregory.net/rapid"
)

// Expand makes n bytes out of a drawn number.
func Expand(seed uint64, n int) []byte {
	out := make([]byte, 0, n+32)
	var b [16]byte
	binary.LittleEndian.PutUint64(b[:], seed)
	for i := uint64(0); len(out) < n; i++ {
		binary.LittleEndian.PutUint64(b[8:], i)
		h := sha256.Sum256(b[:])
		out = append(out, h[:]...)
	}
	return out[:n:n]
}

// Hash32 is a hash-like value: usually well mixed, sometimes an extreme.
func Hash32(t *rapid.T, label string) (h [32]byte) {
	s := rapid.Uint64().Draw(t, label)
	switch s {
	case 0:
		return
	case 1:
		for i := range h {
			h[i] = 0xff
		}
		return
	}
	copy(h[:], Expand(s, 32))
	return
}

// Blob is a byte string up to max long; lengths around the varint boundaries are favoured.
func Blob(t *rapid.T, max int, label string) []byte {
	n := Size(t, max, label+" len")
	if n == 0 {
		return []byte{}
	}
	if n <= 8 {
		return rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, label)
	}
	return Expand(rapid.Uint64().Draw(t, label+" seed"), n)
}

// Size draws 0..max favouring small numbers and varint boundaries.
func Size(t *rapid.T, max int, label string) int {
	switch rapid.IntRange(0, 9).Draw(t, label+" kind") {
	case 0:
		if max >= 0xfc {
			edges := []int{}
			for _, e := range []int{0xfb, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0x101, 499, 500, 501, 999, 1000, 1001, 1999, 2000, 0xffff, 0x10000, 0x10001, max - 1, max} {
				if e <= max {
					edges = append(edges, e)
				}
			}
			return rapid.SampledFrom(edges).Draw(t, label)
		}
	case 1:
		return rapid.IntRange(0, max).Draw(t, label)
	}
	if max > 12 {
		max = 12
	}
	return rapid.IntRange(0, max).Draw(t, label)
}

func some[T any](t *rapid.T, label string, f func() T) (v T) {
	if rapid.Bool().Draw(t, label) {
		return f()
	}
	return
}

func fixed(t *rapid.T, prefix byte, n int, label string) []byte {
	return append([]byte{prefix}, Expand(rapid.Uint64().Draw(t, label), n)...)
}

// ElValue is an explicit, confidential or null amount.
func ElValue(t *rapid.T, null bool, label string) []byte {
	k := rapid.IntRange(0, 3).Draw(t, label+" kind")
	switch {
	case k == 2:
		return fixed(t, byte(rapid.IntRange(8, 9).Draw(t, label+" prefix")), 32, label)
	case k == 3 && null:
		return []byte{0}
	}
	return fixed(t, 1, 8, label)
}

// Script is an output script: common templates, empty, or arbitrary bytes.
func Script(t *rapid.T, label string) []byte {
	switch rapid.IntRange(0, 5).Draw(t, label+" kind") {
	case 0:
		return []byte{}
	case 1:
		return append([]byte{0x6a}, Blob(t, 80, label)...)
	case 2:
		return Blob(t, 300, label)
	}
	return ScriptN(rapid.Uint64().Draw(t, label))
}

// ScriptN is a witness program derived from a number.
func ScriptN(n uint64) []byte {
	return append([]byte{0x00, 0x14}, Expand(n, 20)...)
}

// Tx is an arbitrary well-formed Elements transaction whose Flag says whether it carries a witness section.
func Tx(t *rapid.T, label string, maxIn, maxOut, maxBlob int) *transaction.Transaction {
	tx := &transaction.Transaction{
		Version:  rapid.Int32().Draw(t, label+" version"),
		Locktime: rapid.Uint32().Draw(t, label+" locktime"),
	}
	wit := rapid.Bool().Draw(t, label+" witness")
	if wit {
		tx.Flag = 1
	}
	for i, n := 0, Size(t, maxIn, label+" inputs"); i < n; i++ {
		h := Hash32(t, label+" in hash")
		in := &transaction.TxInput{
			Hash:     h[:],
			Index:    uint32(rapid.IntRange(0, 0x3ffffffe).Draw(t, label+" in index")),
			Sequence: rapid.Uint32().Draw(t, label+" in seq"),
			Script:   Blob(t, maxBlob, label+" in script"),
		}
		switch rapid.IntRange(0, 7).Draw(t, label+" in kind") {
		case 0:
			in.Issuance = &transaction.TxIssuance{
				AssetBlindingNonce: Expand(rapid.Uint64().Draw(t, label+" nonce"), 32),
				AssetEntropy:       Expand(rapid.Uint64().Draw(t, label+" entropy"), 32),
				AssetAmount:        ElValue(t, true, label+" asset amount"),
				TokenAmount:        ElValue(t, true, label+" token amount"),
			}
		case 1:
			in.IsPegin = true
		case 2:
			in.Index = 0xffffffff // coinbase
		}
		if wit {
			in.IssuanceRangeProof = Blob(t, maxBlob, label+" irp")
			in.InflationRangeProof = Blob(t, maxBlob, label+" frp")
			in.Witness = [][]byte{}
			for j, m := 0, Size(t, 6, label+" wit"); j < m; j++ {
				in.Witness = append(in.Witness, Blob(t, maxBlob, label+" wit item"))
			}
			in.PeginWitness = [][]byte{}
			for j, m := 0, rapid.SampledFrom([]int{0, 0, 0, 1, 6}).Draw(t, label+" pegin wit"); j < m; j++ {
				in.PeginWitness = append(in.PeginWitness, Blob(t, maxBlob, label+" pegin item"))
			}
		}
		tx.Inputs = append(tx.Inputs, in)
	}
	for i, n := 0, Size(t, maxOut, label+" outputs"); i < n; i++ {
		o := &transaction.TxOutput{
			Asset:  fixed(t, rapid.SampledFrom([]byte{1, 1, 10, 11}).Draw(t, label+" asset prefix"), 32, label+" asset"),
			Value:  ElValue(t, false, label+" value"),
			Script: Script(t, label+" script"),
			Nonce:  []byte{0},
		}
		if rapid.IntRange(0, 2).Draw(t, label+" nonce?") == 0 {
			o.Nonce = fixed(t, byte(rapid.IntRange(2, 3).Draw(t, label+" nonce prefix")), 32, label+" nonce")
		}
		if wit {
			o.SurjectionProof = Blob(t, maxBlob, label+" sp")
			o.RangeProof = Blob(t, maxBlob, label+" rp")
		}
		tx.Outputs = append(tx.Outputs, o)
	}
	return tx
}

// Header is an arbitrary well-formed header, signed-blocks or dynamic-federation.
func Header(t *rapid.T, label string, maxBlob int) *block.Header {
	p, m := Hash32(t, label+" prev"), Hash32(t, label+" merkle")
	h := &block.Header{
		Version:       rapid.Uint32Range(0, 1<<31-1).Draw(t, label+" version"),
		PrevBlockHash: p[:], MerkleRoot: m[:],
		Timestamp: rapid.Uint32().Draw(t, label+" time"),
		Height:    rapid.Uint32().Draw(t, label+" height"),
	}
	h.ExtData = Ext(t, label, maxBlob)
	return h
}

func Ext(t *rapid.T, label string, maxBlob int) *block.ExtData {
	if rapid.Bool().Draw(t, label+" dyna") {
		return &block.ExtData{IsDyna: true, DynamicFederation: &block.DynamicFederation{
			Current: dynaParams(t, label+" current", maxBlob), Proposed: dynaParams(t, label+" proposed", maxBlob),
			SignBlockWitness: blobs(t, label+" witness", maxBlob),
		}}
	}
	return &block.ExtData{Proof: &block.Proof{Challenge: Blob(t, maxBlob, label+" challenge"), Solution: Blob(t, maxBlob, label+" solution")}}
}

func blobs(t *rapid.T, label string, maxBlob int) [][]byte {
	out := [][]byte{}
	for i, n := 0, Size(t, 5, label+" n"); i < n; i++ {
		out = append(out, Blob(t, maxBlob, label))
	}
	return out
}

func dynaParams(t *rapid.T, label string, maxBlob int) *block.DynamicFederationParams {
	switch rapid.IntRange(0, 2).Draw(t, label+" kind") {
	case 0:
		return nil
	case 1:
		return &block.DynamicFederationParams{CompactParams: &block.CompactParams{
			SignBlockScript: Blob(t, maxBlob, label+" script"), SignBlockWitnessLimit: rapid.Uint32().Draw(t, label+" limit"),
			ElidedRoot: Expand(rapid.Uint64().Draw(t, label+" root"), 32)}}
	}
	return &block.DynamicFederationParams{FullParams: &block.FullParams{
		SignBlockScript: Blob(t, maxBlob, label+" script"), SignBlockWitnessLimit: rapid.Uint32().Draw(t, label+" limit"),
		FedpegProgram: Blob(t, maxBlob, label+" program"), FedpegScript: Blob(t, maxBlob, label+" fedpeg"),
		ExtensionSpace: blobs(t, label+" ext", maxBlob)}}
}

// Filter is a compact filter with n (0..max) entries keyed to a hash.
func Filter(t *rapid.T, key [32]byte, max int, label string) []byte {
	var data [][]byte
	for i, n := 0, Size(t, max, label+" n"); i < n; i++ {
		data = append(data, Expand(rapid.Uint64().Draw(t, label+" item"), 8))
	}
	return BuildFilter(key, data)
}

// BuildFilter is BIP158's basic construction over items with the block hash as key.
func BuildFilter(key [32]byte, items [][]byte) []byte {
	var k [16]byte
	copy(k[:], key[:])
	seen := map[string]bool{}
	var uniq [][]byte
	for _, i := range items {
		if len(i) > 0 && !seen[string(i)] {
			seen[string(i)] = true
			uniq = append(uniq, i)
		}
	}
	if len(uniq) == 0 {
		return []byte{0}
	}
	f, err := gcs.BuildGCSFilter(builder.DefaultP, builder.DefaultM, k, uniq)
	must(err)
	b, err := f.NBytes()
	must(err)
	return b
}

func ToHash(h [32]byte) *chainhash.Hash { c := chainhash.Hash(h); return &c }

// Split is a reader that hands out b in the given chunk sizes (repeating), and then EOF.
// With eofTogether the last chunk comes with the EOF.
type Split struct {
	B           []byte
	Sizes       []int
	EOFTogether bool
	i           int
	Reads       int
}

func (s *Split) Read(p []byte) (int, error) {
	s.Reads++
	if len(p) == 0 {
		return 0, nil
	}
	if len(s.B) == 0 {
		return 0, io.EOF
	}
	n := len(s.B)
	if len(s.Sizes) > 0 {
		n = s.Sizes[s.i%len(s.Sizes)]
		s.i++
	}
	if n > len(s.B) {
		n = len(s.B)
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, s.B[:n])
	s.B = s.B[n:]
	if s.EOFTogether && len(s.B) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// Sizes draws a segmentation.
func Sizes(t *rapid.T, label string) []int {
	switch rapid.IntRange(0, 3).Draw(t, label+" kind") {
	case 0:
		return []int{1}
	case 1:
		return nil
	}
	return rapid.SliceOfN(rapid.IntRange(1, 40), 1, 12).Draw(t, label)
}
