package kit

import (
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"

	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/go-elements/transaction"
)

// Reference encoders, written from the protocol documentation and independent of the code under test.

type W struct{ B []byte }

func (w *W) U8(v uint8)        { w.B = append(w.B, v) }
func (w *W) U16LE(v uint16)    { w.B = binary.LittleEndian.AppendUint16(w.B, v) }
func (w *W) U16BE(v uint16)    { w.B = binary.BigEndian.AppendUint16(w.B, v) }
func (w *W) U32(v uint32)      { w.B = binary.LittleEndian.AppendUint32(w.B, v) }
func (w *W) U64(v uint64)      { w.B = binary.LittleEndian.AppendUint64(w.B, v) }
func (w *W) Raw(b []byte)      { w.B = append(w.B, b...) }
func (w *W) Var(n uint64)      { w.B = AppendVarint(w.B, n) }
func (w *W) VarBytes(b []byte) { w.Var(uint64(len(b))); w.Raw(b) }
func (w *W) Bool(v bool) {
	if v {
		w.U8(1)
	} else {
		w.U8(0)
	}
}

func AppendVarint(b []byte, n uint64) []byte {
	switch {
	case n < 0xfd:
		return append(b, byte(n))
	case n <= 0xffff:
		return binary.LittleEndian.AppendUint16(append(b, 0xfd), uint16(n))
	case n <= 0xffffffff:
		return binary.LittleEndian.AppendUint32(append(b, 0xfe), uint32(n))
	}
	return binary.LittleEndian.AppendUint64(append(b, 0xff), n)
}

func Varint(n uint64) []byte { return AppendVarint(nil, n) }

func DHash(b []byte) [32]byte {
	h := sha256.Sum256(b)
	return sha256.Sum256(h[:])
}

func CommandBytes(cmd string) (c [12]byte) { copy(c[:], cmd); return }

// Frame is a complete message on the wire.
func Frame(magic [4]byte, cmd string, payload []byte) []byte {
	w := &W{}
	w.Raw(magic[:])
	c := CommandBytes(cmd)
	w.Raw(c[:])
	w.U32(uint32(len(payload)))
	h := DHash(payload)
	w.Raw(h[:4])
	w.Raw(payload)
	return w.B
}

// Msg is a message read off the wire.
type Msg struct {
	Magic   [4]byte
	Cmd     string
	Payload []byte
}

// Unframe cuts the first complete message off b (nil rest if incomplete).
func Unframe(b []byte) (m Msg, rest []byte, ok bool, err error) {
	if len(b) < 24 {
		return m, b, false, nil
	}
	n := int(binary.LittleEndian.Uint32(b[16:20]))
	if len(b) < 24+n {
		return m, b, false, nil
	}
	copy(m.Magic[:], b[:4])
	cmd := b[4:16]
	end := 12
	for end > 0 && cmd[end-1] == 0 {
		end--
	}
	m.Cmd = string(cmd[:end])
	m.Payload = append([]byte(nil), b[24:24+n]...)
	h := DHash(m.Payload)
	if string(h[:4]) != string(b[20:24]) {
		err = fmt.Errorf("message %q written with a wrong checksum", m.Cmd)
	}
	return m, b[24+n:], true, err
}

type VersionFields struct {
	Version      int32
	Services     uint64
	Timestamp    int64
	RecvServices uint64
	RecvIP       [4]byte
	RecvPort     uint16
	FromServices uint64
	FromIP       [4]byte
	FromPort     uint16
	Nonce        uint64
	UserAgent    string
	StartHeight  int32
	Relay        bool
}

var v4prefix = []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff}

func (v VersionFields) Encode() []byte {
	w := &W{}
	w.U32(uint32(v.Version))
	w.U64(v.Services)
	w.U64(uint64(v.Timestamp))
	w.U64(v.RecvServices)
	w.Raw(v4prefix)
	w.Raw(v.RecvIP[:])
	w.U16BE(v.RecvPort)
	w.U64(v.FromServices)
	w.Raw(v4prefix)
	w.Raw(v.FromIP[:])
	w.U16BE(v.FromPort)
	w.U64(v.Nonce)
	w.VarBytes([]byte(v.UserAgent))
	w.U32(uint32(v.StartHeight))
	w.Bool(v.Relay)
	return w.B
}

func DecodeVersion(b []byte) (v VersionFields, err error) {
	r := &R{B: b}
	v.Version = int32(r.U32())
	v.Services = r.U64()
	v.Timestamp = int64(r.U64())
	v.RecvServices = r.U64()
	if string(r.Raw(12)) != string(v4prefix) {
		r.fail("receiver address is not IPv4-mapped")
	}
	copy(v.RecvIP[:], r.Raw(4))
	v.RecvPort = r.U16BE()
	v.FromServices = r.U64()
	if string(r.Raw(12)) != string(v4prefix) {
		r.fail("sender address is not IPv4-mapped")
	}
	copy(v.FromIP[:], r.Raw(4))
	v.FromPort = r.U16BE()
	v.Nonce = r.U64()
	v.UserAgent = string(r.Raw(int(r.Var())))
	v.StartHeight = int32(r.U32())
	v.Relay = r.U8() != 0
	if r.Err == nil && len(r.B) != 0 {
		r.fail("trailing bytes")
	}
	return v, r.Err
}

// R is a reference reader.
type R struct {
	B   []byte
	Err error
}

func (r *R) fail(s string) {
	if r.Err == nil {
		r.Err = errors.New(s)
	}
}
func (r *R) Raw(n int) []byte {
	if r.Err != nil || n < 0 || n > len(r.B) {
		r.fail("too short")
		if n < 0 || n > 1<<20 {
			n = 0
		}
		return make([]byte, n)
	}
	b := r.B[:n]
	r.B = r.B[n:]
	return b
}
func (r *R) U8() uint8     { return r.Raw(1)[0] }
func (r *R) U16BE() uint16 { return binary.BigEndian.Uint16(r.Raw(2)) }
func (r *R) U16LE() uint16 { return binary.LittleEndian.Uint16(r.Raw(2)) }
func (r *R) U32() uint32   { return binary.LittleEndian.Uint32(r.Raw(4)) }
func (r *R) U64() uint64   { return binary.LittleEndian.Uint64(r.Raw(8)) }
func (r *R) Var() uint64 {
	switch b := r.U8(); b {
	case 0xfd:
		return uint64(r.U16LE())
	case 0xfe:
		return uint64(r.U32())
	case 0xff:
		return r.U64()
	default:
		return uint64(b)
	}
}

type Inv struct {
	Type uint32
	Hash [32]byte
}

func EncodeInv(items []Inv) []byte {
	w := &W{}
	w.Var(uint64(len(items)))
	for _, i := range items {
		w.U32(i.Type)
		w.Raw(i.Hash[:])
	}
	return w.B
}

func DecodeInv(b []byte) (items []Inv, err error) {
	r := &R{B: b}
	n := r.Var()
	for i := uint64(0); i < n && r.Err == nil; i++ {
		var v Inv
		v.Type = r.U32()
		copy(v.Hash[:], r.Raw(32))
		items = append(items, v)
	}
	if r.Err == nil && len(r.B) != 0 {
		r.fail("trailing bytes")
	}
	return items, r.Err
}

func EncodeCFilter(typ uint8, hash [32]byte, filter []byte) []byte {
	w := &W{}
	w.U8(typ)
	w.Raw(hash[:])
	w.VarBytes(filter)
	return w.B
}

func DecodeCFilter(b []byte) (typ uint8, hash [32]byte, filter []byte, err error) {
	r := &R{B: b}
	typ = r.U8()
	copy(hash[:], r.Raw(32))
	filter = r.Raw(int(r.Var()))
	if r.Err == nil && len(r.B) != 0 {
		r.fail("trailing bytes")
	}
	return typ, hash, filter, r.Err
}

func EncodeGetCFilters(typ uint8, start uint32, stop [32]byte) []byte {
	w := &W{}
	w.U8(typ)
	w.U32(start)
	w.Raw(stop[:])
	return w.B
}

func DecodeGetCFilters(b []byte) (typ uint8, start uint32, stop [32]byte, err error) {
	r := &R{B: b}
	typ = r.U8()
	start = r.U32()
	copy(stop[:], r.Raw(32))
	if r.Err == nil && len(r.B) != 0 {
		r.fail("trailing bytes")
	}
	return typ, start, stop, r.Err
}

func EncodeGetHeaders(version uint32, locator [][32]byte, stop [32]byte) []byte {
	w := &W{}
	w.U32(version)
	w.Var(uint64(len(locator)))
	for _, h := range locator {
		w.Raw(h[:])
	}
	w.Raw(stop[:])
	return w.B
}

func DecodeGetHeaders(b []byte) (version uint32, locator [][32]byte, stop [32]byte, err error) {
	r := &R{B: b}
	version = r.U32()
	n := r.Var()
	for i := uint64(0); i < n && r.Err == nil; i++ {
		var h [32]byte
		copy(h[:], r.Raw(32))
		locator = append(locator, h)
	}
	copy(stop[:], r.Raw(32))
	if r.Err == nil && len(r.B) != 0 {
		r.fail("trailing bytes")
	}
	return version, locator, stop, r.Err
}

// EncodeHeader is the network form of a header; forHash leaves out the signature data.
func EncodeHeader(h *block.Header, forHash bool) []byte {
	w := &W{}
	v := h.Version
	if h.ExtData.IsDyna {
		v |= 1 << 31
	}
	w.U32(v)
	w.Raw(h.PrevBlockHash)
	w.Raw(h.MerkleRoot)
	w.U32(h.Timestamp)
	w.U32(h.Height)
	if h.ExtData.IsDyna {
		d := h.ExtData.DynamicFederation
		encParams(w, d.Current)
		encParams(w, d.Proposed)
		if !forHash {
			w.Var(uint64(len(d.SignBlockWitness)))
			for _, x := range d.SignBlockWitness {
				w.VarBytes(x)
			}
		}
	} else {
		w.VarBytes(h.ExtData.Proof.Challenge)
		if !forHash {
			w.VarBytes(h.ExtData.Proof.Solution)
		}
	}
	return w.B
}

func encParams(w *W, p *block.DynamicFederationParams) {
	switch {
	case p == nil:
		w.U8(0)
	case p.CompactParams != nil:
		w.U8(1)
		w.VarBytes(p.CompactParams.SignBlockScript)
		w.U32(p.CompactParams.SignBlockWitnessLimit)
		w.Raw(p.CompactParams.ElidedRoot)
	default:
		w.U8(2)
		f := p.FullParams
		w.VarBytes(f.SignBlockScript)
		w.U32(f.SignBlockWitnessLimit)
		w.VarBytes(f.FedpegProgram)
		w.VarBytes(f.FedpegScript)
		w.Var(uint64(len(f.ExtensionSpace)))
		for _, x := range f.ExtensionSpace {
			w.VarBytes(x)
		}
	}
}

// HeaderHash is a header's hash in wire byte order.
func HeaderHash(h *block.Header) [32]byte { return DHash(EncodeHeader(h, true)) }

func EncodeHeaders(hs []*block.Header) []byte {
	w := &W{}
	w.Var(uint64(len(hs)))
	for _, h := range hs {
		w.Raw(EncodeHeader(h, false))
		w.U8(0)
	}
	return w.B
}

// EncodeTx is the network form of a transaction. withWitness is whether the witness section is present.
func EncodeTx(tx *transaction.Transaction, withWitness bool) []byte {
	w := &W{}
	w.U32(uint32(tx.Version))
	w.Bool(withWitness)
	w.Var(uint64(len(tx.Inputs)))
	for _, in := range tx.Inputs {
		w.Raw(in.Hash)
		idx := in.Index
		if in.Issuance != nil {
			idx |= 1 << 31
		}
		if in.IsPegin {
			idx |= 1 << 30
		}
		w.U32(idx)
		w.VarBytes(in.Script)
		w.U32(in.Sequence)
		if in.Issuance != nil {
			w.Raw(in.Issuance.AssetBlindingNonce)
			w.Raw(in.Issuance.AssetEntropy)
			w.Raw(in.Issuance.AssetAmount)
			w.Raw(in.Issuance.TokenAmount)
		}
	}
	w.Var(uint64(len(tx.Outputs)))
	for _, o := range tx.Outputs {
		w.Raw(o.Asset)
		w.Raw(o.Value)
		w.Raw(o.Nonce)
		w.VarBytes(o.Script)
	}
	w.U32(tx.Locktime)
	if withWitness {
		for _, in := range tx.Inputs {
			w.VarBytes(in.IssuanceRangeProof)
			w.VarBytes(in.InflationRangeProof)
			w.Var(uint64(len(in.Witness)))
			for _, x := range in.Witness {
				w.VarBytes(x)
			}
			w.Var(uint64(len(in.PeginWitness)))
			for _, x := range in.PeginWitness {
				w.VarBytes(x)
			}
		}
		for _, o := range tx.Outputs {
			w.VarBytes(o.SurjectionProof)
			w.VarBytes(o.RangeProof)
		}
	}
	return w.B
}

// TxBytes encodes a transaction with its own flag.
func TxBytes(tx *transaction.Transaction) []byte { return EncodeTx(tx, tx.Flag == 1) }

// TxID is the transaction identifier in wire byte order: the hash without witnesses.
func TxID(tx *transaction.Transaction) [32]byte { return DHash(EncodeTx(tx, false)) }

// TxIDStr is the identifier as displayed.
func TxIDStr(tx *transaction.Transaction) string { return RevHex(TxID(tx)) }

func RevHex(h [32]byte) string {
	for i := 0; i < 16; i++ {
		h[i], h[31-i] = h[31-i], h[i]
	}
	return fmt.Sprintf("%x", h[:])
}

func EncodeBlock(b *block.Block) []byte {
	w := &W{}
	w.Raw(EncodeHeader(b.Header, false))
	w.Var(uint64(len(b.TransactionsData.Transactions)))
	for _, tx := range b.TransactionsData.Transactions {
		w.Raw(TxBytes(tx))
	}
	return w.B
}

// Truthful reports whether every length and count inside a headers, block or tx payload
// fits the bytes that follow it (each counted entry taking at least min bytes), up to the point
// where the payload ends or becomes malformed. Payloads for which this is false reach go-elements'
// allocation by announced length, a recorded finding of its own.
func Truthful(kind string, b []byte) bool {
	r := &R{B: b}
	ok := true
	vb := func() {
		n := r.Var()
		if r.Err == nil && n > uint64(len(r.B)) {
			ok = false
		}
		if ok {
			r.Raw(int(n))
		}
	}
	vec := func() {
		n := r.Var()
		if r.Err == nil && n > uint64(len(r.B)) {
			ok = false
			return
		}
		for i := uint64(0); i < n && r.Err == nil && ok; i++ {
			vb()
		}
	}
	params := func() {
		switch r.U8() {
		case 0:
		case 1:
			vb()
			r.Raw(36)
		case 2:
			vb()
			r.Raw(4)
			vb()
			vb()
			vec()
		default:
			r.fail("type")
		}
	}
	step := func(fs ...func()) {
		for _, f := range fs {
			if r.Err == nil && ok {
				f()
			}
		}
	}
	header := func() {
		v := r.U32()
		r.Raw(72)
		if v&(1<<31) != 0 {
			step(params, params, vec)
		} else {
			step(vb, vb)
		}
	}
	value := func() {
		switch r.U8() {
		case 0:
		case 1:
			r.Raw(8)
		case 8, 9:
			r.Raw(32)
		default:
			r.fail("value")
		}
	}
	tx := func() {
		r.U32()
		flag := r.U8()
		nin := r.Var()
		for i := uint64(0); i < nin && r.Err == nil && ok; i++ {
			r.Raw(32)
			idx := r.U32()
			step(vb, func() { r.U32() })
			if idx != 0xffffffff && idx&(1<<31) != 0 {
				r.Raw(64)
				step(value, value)
			}
		}
		if !ok || r.Err != nil {
			return
		}
		nout := r.Var()
		for i := uint64(0); i < nout && r.Err == nil && ok; i++ {
			if a := r.U8(); a == 1 || a == 10 || a == 11 {
				r.Raw(32)
			} else {
				r.fail("asset")
				return
			}
			step(value, func() {
				if n := r.U8(); n >= 1 && n <= 3 {
					r.Raw(32)
				}
			}, vb)
		}
		step(func() { r.U32() })
		if flag == 1 {
			for i := uint64(0); i < nin && r.Err == nil && ok; i++ {
				step(vb, vb, vec, vec)
			}
			for i := uint64(0); i < nout && r.Err == nil && ok; i++ {
				step(vb, vb)
			}
		}
	}
	switch kind {
	case "headers":
		n := r.Var()
		for i := uint64(0); i < n && r.Err == nil && ok; i++ {
			step(header, func() { r.Var() })
		}
	case "block":
		header()
		if ok && r.Err == nil {
			n := r.Var()
			for i := uint64(0); i < n && r.Err == nil && ok; i++ {
				tx()
			}
		}
	case "tx":
		tx()
	}
	return ok
}
