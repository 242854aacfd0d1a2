package kit

import (
	"encoding/binary"
	"encoding/hex"

	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/go-elements/transaction"
)

// Net is one of the supported networks as a peer of that network knows it.
type Net struct {
	Name    string
	Magic   [4]byte
	Genesis [32]byte
}

func unrev(s string) (h [32]byte) {
	b, err := hex.DecodeString(s)
	must(err)
	for i := range h {
		h[i] = b[31-i]
	}
	return h
}

// Nets lists the networks, written down independently of the code under test.
var Nets = []Net{
	{"liquid", [4]byte{0xfa, 0xbf, 0xb5, 0xda}, unrev("1466275836220db2944ca059a3a10ef6fd2ea684b0688d2c379296888a206003")},
	{"testnet", [4]byte{0x41, 0x0e, 0xdd, 0x62}, unrev("a771da8e52ee6ad581ed1e9a99825e5b3b7992225534eaa2ae23244fe26ab1c1")},
	{"regtest", [4]byte{0x12, 0x34, 0x56, 0x78}, unrev("00902a6b70c2ca83b5d9c815d96a0e2f4202179316970d14ea1847dae5b1ca21")},
}

// Hdr is the header of a harness chain at a height on top of prev.
func Hdr(seed uint64, height uint32, prev [32]byte) *block.Header {
	r := Expand(seed*1_000_003+uint64(height), 96)
	p := prev
	return &block.Header{
		Version:       0x20000000,
		PrevBlockHash: p[:],
		MerkleRoot:    r[:32],
		Timestamp:     1_600_000_000 + height*60,
		Height:        height,
		ExtData: &block.ExtData{
			Proof: &block.Proof{Challenge: r[32 : 32+int(r[95]%32)], Solution: r[64 : 64+int(r[94]%30)]},
		},
	}
}

// Chain is n linked headers: Chain(...)[i] has height i+1.
func Chain(seed uint64, genesis [32]byte, n int) []*block.Header {
	return Extend(seed, nil, genesis, n)
}

// Extend appends n headers to a chain.
func Extend(seed uint64, chain []*block.Header, genesis [32]byte, n int) []*block.Header {
	prev, h := genesis, uint32(len(chain))
	out := append([]*block.Header(nil), chain...)
	if h > 0 {
		prev = HeaderHash(chain[h-1])
	}
	for i := 0; i < n; i++ {
		h++
		x := Hdr(seed, h, prev)
		out = append(out, x)
		prev = HeaderHash(x)
	}
	return out
}

// SmallTx is a small valid transaction, different for every n; its only output pays script.
func SmallTx(n uint64, in *transaction.TxInput, scripts ...[]byte) *transaction.Transaction {
	r := Expand(n^0x5bd1e995, 40)
	if in == nil {
		in = transaction.NewTxInput(r[:32], binary.LittleEndian.Uint32(r[32:36])%8)
	}
	tx := &transaction.Transaction{Version: 2, Inputs: []*transaction.TxInput{in}}
	for i, s := range scripts {
		asset := append([]byte{1}, Expand(77, 32)...)
		value := make([]byte, 9)
		value[0] = 1
		binary.BigEndian.PutUint64(value[1:], 1000+n%100000+uint64(i))
		tx.Outputs = append(tx.Outputs, transaction.NewTxOutput(asset, value, s))
	}
	return tx
}

// Block wraps transactions under a header.
func Block(h *block.Header, txs ...*transaction.Transaction) *block.Block {
	return &block.Block{Header: h, TransactionsData: &block.Transactions{Transactions: txs}}
}
