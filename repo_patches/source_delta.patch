From e8e54b58e607340b091f990782ed10ee67d229b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:17 +0000
Subject: [PATCH 01/54] hook: connect peers through a function that the verif
 build tag makes replaceable

---
 pkg/peer/dial.go       | 10 ++++++++++
 pkg/peer/dial_verif.go | 13 +++++++++++++
 pkg/peer/peer.go       |  2 +-
 3 files changed, 24 insertions(+), 1 deletion(-)
 create mode 100644 pkg/peer/dial.go
 create mode 100644 pkg/peer/dial_verif.go

diff --git a/pkg/peer/dial.go b/pkg/peer/dial.go
new file mode 100644
index 0000000..e875687
--- /dev/null
+++ b/pkg/peer/dial.go
@@ -0,0 +1,10 @@
+//go:build !verif
+
+package peer
+
+import "net"
+
+// dial opens the connection to a peer.
+func dial(network, address string) (net.Conn, error) {
+	return net.Dial(network, address)
+}
diff --git a/pkg/peer/dial_verif.go b/pkg/peer/dial_verif.go
new file mode 100644
index 0000000..d11451b
--- /dev/null
+++ b/pkg/peer/dial_verif.go
@@ -0,0 +1,13 @@
+//go:build verif
+
+package peer
+
+import "net"
+
+// Dial is what NewElementsPeer uses to connect when built with the verif tag:
+// a verification harness replaces it to connect peers over in-memory connections.
+var Dial = net.Dial
+
+func dial(network, address string) (net.Conn, error) {
+	return Dial(network, address)
+}
diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index ccae398..a1068e2 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -35,7 +35,7 @@ type elementsPeer struct {
 }
 
 func NewElementsPeer(peerAddr string) (Peer, error) {
-	conn, err := net.Dial("tcp", peerAddr)
+	conn, err := dial("tcp", peerAddr)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From f9a3796cf0821bb89c9ea66ab8f1fa4308bd7555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:57 +0000
Subject: [PATCH 02/54] fix: read fixed-size fields completely when decoding

A single Read may return fewer bytes than asked for; the rest of the field was
silently left zero. Truncated fields are now reported as errors.
---
 pkg/binary/unmarshaler.go | 4 ++--
 pkg/protocol/msg.go       | 4 ++--
 pkg/protocol/netaddr.go   | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/binary/unmarshaler.go b/pkg/binary/unmarshaler.go
index 5eac02c..b271703 100644
--- a/pkg/binary/unmarshaler.go
+++ b/pkg/binary/unmarshaler.go
@@ -90,7 +90,7 @@ func (d Decoder) Decode(v interface{}) error {
 		}
 
 	case *[]byte:
-		if err := d.decodeArray(hashLength, *val); err != nil {
+		if err := d.decodeArray(int64(len(*val)), *val); err != nil {
 			return err
 		}
 
@@ -152,7 +152,7 @@ func (d Decoder) DecodeBytes(len int64) ([]byte, error) {
 }
 
 func (d Decoder) decodeArray(len int64, out []byte) error {
-	if _, err := io.LimitReader(d.r, len).Read(out); err != nil {
+	if _, err := io.ReadFull(io.LimitReader(d.r, len), out); err != nil {
 		return err
 	}
 
diff --git a/pkg/protocol/msg.go b/pkg/protocol/msg.go
index 5eed0c0..7dd144a 100644
--- a/pkg/protocol/msg.go
+++ b/pkg/protocol/msg.go
@@ -108,13 +108,13 @@ func newVarStr(str string) VarStr {
 // UnmarshalBinary implements the binary.Unmarshaler interface
 func (v *VarStr) UnmarshalBinary(r io.Reader) error {
 	lengthBuf := make([]byte, 1)
-	if _, err := r.Read(lengthBuf); err != nil {
+	if _, err := io.ReadFull(r, lengthBuf); err != nil {
 		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
 	}
 	v.Length = uint8(lengthBuf[0])
 
 	stringBuf := make([]byte, v.Length)
-	if _, err := r.Read(stringBuf); err != nil {
+	if _, err := io.ReadFull(r, stringBuf); err != nil {
 		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
 	}
 	v.String = string(stringBuf)
diff --git a/pkg/protocol/netaddr.go b/pkg/protocol/netaddr.go
index d57fef3..bef5087 100644
--- a/pkg/protocol/netaddr.go
+++ b/pkg/protocol/netaddr.go
@@ -34,7 +34,7 @@ func (ip IPv4) String() string {
 // UnmarshalBinary implements the binary.Marshaler interface
 func (ip IPv4) UnmarshalBinary(r io.Reader) error {
 	data := make([]byte, 16)
-	if _, err := r.Read(data); err != nil {
+	if _, err := io.ReadFull(r, data); err != nil {
 		return fmt.Errorf("unmarshal IPv4: %+v", err)
 	}
 
-- 
2.43.0


From 86700820620be1ea4d699a9542a56ab7c10c598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:01 +0000
Subject: [PATCH 03/54] fix: keep the decoded value of IPv4 addresses and block
 locators

Both decoded into a copy of the receiver, so the caller always saw zeroes.
---
 pkg/protocol/blocklocator.go | 4 ++--
 pkg/protocol/netaddr.go      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/protocol/blocklocator.go b/pkg/protocol/blocklocator.go
index a2accce..7857539 100644
--- a/pkg/protocol/blocklocator.go
+++ b/pkg/protocol/blocklocator.go
@@ -44,7 +44,7 @@ func (locators BlockLocators) MarshalBinary() ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
-func (locators BlockLocators) UnmarshalBinary(r io.Reader) error {
+func (locators *BlockLocators) UnmarshalBinary(r io.Reader) error {
 	d := binary.NewDecoder(r)
 
 	var count VarInt
@@ -67,6 +67,6 @@ func (locators BlockLocators) UnmarshalBinary(r io.Reader) error {
 		hashes[i] = hash
 	}
 
-	locators = hashes
+	*locators = hashes
 	return nil
 }
diff --git a/pkg/protocol/netaddr.go b/pkg/protocol/netaddr.go
index bef5087..f590dc9 100644
--- a/pkg/protocol/netaddr.go
+++ b/pkg/protocol/netaddr.go
@@ -32,7 +32,7 @@ func (ip IPv4) String() string {
 }
 
 // UnmarshalBinary implements the binary.Marshaler interface
-func (ip IPv4) UnmarshalBinary(r io.Reader) error {
+func (ip *IPv4) UnmarshalBinary(r io.Reader) error {
 	data := make([]byte, 16)
 	if _, err := io.ReadFull(r, data); err != nil {
 		return fmt.Errorf("unmarshal IPv4: %+v", err)
-- 
2.43.0


From 2e09d10a915840620f56101cd3f0a96ed1a7b0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:39 +0000
Subject: [PATCH 04/54] fix: encode variable-length integers and cfilter
 messages passed by value or pointer

Marshal dereferences pointers, so a MarshalBinary with a pointer receiver was
never called: integers above 252 lost their prefix (and byte order), and cfilter
messages could not be built at all.
---
 pkg/protocol/msg_cfilter.go | 11 +++--------
 pkg/protocol/varint.go      |  2 +-
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/pkg/protocol/msg_cfilter.go b/pkg/protocol/msg_cfilter.go
index afc31cf..1f9e1b3 100644
--- a/pkg/protocol/msg_cfilter.go
+++ b/pkg/protocol/msg_cfilter.go
@@ -32,19 +32,14 @@ func NewMsgCFilter(network Magic, blockHash *chainhash.Hash, filter *gcs.Filter)
 	return NewMessage("cfilter", network, payload)
 }
 
-func (msg *MsgCFilter) MarshalBinary() ([]byte, error) {
+func (msg MsgCFilter) MarshalBinary() ([]byte, error) {
 	buf := bytes.NewBuffer([]byte{})
 
 	if err := buf.WriteByte(msg.FilterType); err != nil {
 		return nil, err
 	}
 
-	b, err := binary.Marshal(msg.BlockHash)
-	if err != nil {
-		return nil, err
-	}
-
-	if _, err := buf.Write(b); err != nil {
+	if _, err := buf.Write(msg.BlockHash[:]); err != nil {
 		return nil, err
 	}
 
@@ -54,7 +49,7 @@ func (msg *MsgCFilter) MarshalBinary() ([]byte, error) {
 	}
 
 	filterLen := newFromInt(len(bytesFilter))
-	b, err = binary.Marshal(filterLen)
+	b, err := binary.Marshal(filterLen)
 	if err != nil {
 		return nil, err
 	}
diff --git a/pkg/protocol/varint.go b/pkg/protocol/varint.go
index f296b23..978cd94 100644
--- a/pkg/protocol/varint.go
+++ b/pkg/protocol/varint.go
@@ -82,7 +82,7 @@ func (vi VarInt) Int() (int, error) {
 	return 0, errInvalidVarIntValue
 }
 
-func (vi *VarInt) MarshalBinary() ([]byte, error) {
+func (vi VarInt) MarshalBinary() ([]byte, error) {
 	buf := bytes.NewBuffer([]byte{})
 
 	switch vi.Value.(type) {
-- 
2.43.0


From 2748c427f5fca21f448e78a05eb23474357d7ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:44 +0000
Subject: [PATCH 05/54] fix: make NewVarint choose the shortest encoding

uint8 values above 252 were written as a bare prefix byte, and wider types kept
their width whatever their value.
---
 pkg/protocol/varint.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/protocol/varint.go b/pkg/protocol/varint.go
index 978cd94..962065c 100644
--- a/pkg/protocol/varint.go
+++ b/pkg/protocol/varint.go
@@ -44,15 +44,18 @@ func NewVarint(u interface{}) (VarInt, error) {
 	switch v := u.(type) {
 	case int:
 		return newFromInt(v), nil
-	case uint8, uint16, uint32:
-		return VarInt{Value: v}, nil
+	case uint8:
+		return newFromInt(int(v)), nil
+	case uint16:
+		return newFromInt(int(v)), nil
+	case uint32:
+		return newFromInt(int(v)), nil
 	case uint64:
-		var err error = nil
 		if v > math.MaxInt64 {
 			v = math.MaxInt64
 		}
 
-		return VarInt{Value: v}, err
+		return newFromInt(int(v)), nil
 	}
 
 	return VarInt{Value: nil}, errInvalidVarIntValue
-- 
2.43.0


From 15effaefb4bda225916aad809742877ec7783136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:49 +0000
Subject: [PATCH 06/54] fix: do not allocate by counts and lengths announced by
 the peer

A few bytes could make the decoders of headers, cfilter and block locators
allocate any amount of memory or panic.
---
 pkg/binary/unmarshaler.go    | 12 +++++++++---
 pkg/protocol/blocklocator.go |  5 +++--
 pkg/protocol/msg_headers.go  |  5 +++--
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/pkg/binary/unmarshaler.go b/pkg/binary/unmarshaler.go
index b271703..ca6033d 100644
--- a/pkg/binary/unmarshaler.go
+++ b/pkg/binary/unmarshaler.go
@@ -146,9 +146,15 @@ func (d Decoder) DecodeBytes(len int64) ([]byte, error) {
 		return []byte{byte(val)}, err
 	}
 
-	out := make([]byte, len)
-	err := d.decodeArray(len, out)
-	return out, err
+	// do not trust len for the allocation, it may come from the stream
+	var out bytes.Buffer
+	if _, err := io.CopyN(&out, d.r, len); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+		return nil, err
+	}
+	return out.Bytes(), nil
 }
 
 func (d Decoder) decodeArray(len int64, out []byte) error {
diff --git a/pkg/protocol/blocklocator.go b/pkg/protocol/blocklocator.go
index 7857539..c733805 100644
--- a/pkg/protocol/blocklocator.go
+++ b/pkg/protocol/blocklocator.go
@@ -57,14 +57,15 @@ func (locators *BlockLocators) UnmarshalBinary(r io.Reader) error {
 		return err
 	}
 
-	hashes := make([][32]byte, numberOfBlockLocatorHashes)
+	// do not trust the announced count for the allocation
+	hashes := make([][32]byte, 0)
 
 	for i := 0; i < numberOfBlockLocatorHashes; i++ {
 		var hash [hashLen]byte
 		if err := d.Decode(&hash); err != nil {
 			return err
 		}
-		hashes[i] = hash
+		hashes = append(hashes, hash)
 	}
 
 	*locators = hashes
diff --git a/pkg/protocol/msg_headers.go b/pkg/protocol/msg_headers.go
index 6bd9762..dcdc1a0 100644
--- a/pkg/protocol/msg_headers.go
+++ b/pkg/protocol/msg_headers.go
@@ -31,7 +31,8 @@ func (msgHeaders *MsgHeaders) UnmarshalBinary(r io.Reader) error {
 		return err
 	}
 
-	headers := make([]*block.Header, numberOfHeaders)
+	// do not trust the announced count for the allocation
+	headers := make([]*block.Header, 0)
 
 	for i := 0; i < numberOfHeaders; i++ {
 		header, err := block.DeserializeHeader(&headersBytes)
@@ -39,7 +40,7 @@ func (msgHeaders *MsgHeaders) UnmarshalBinary(r io.Reader) error {
 			return err
 		}
 
-		headers[i] = header
+		headers = append(headers, header)
 
 		// assume that we read a "block" with zero transactions
 		var tmpLen VarInt
-- 
2.43.0


From 7ad11f2d14b56b48549df604fdd10b0563ea75a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:54 +0000
Subject: [PATCH 07/54] fix: read and write inventory counts as variable-length
 integers

Messages with more than 252 entries were misparsed.
---
 pkg/protocol/msg_getdata.go | 2 +-
 pkg/protocol/msg_inv.go     | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/protocol/msg_getdata.go b/pkg/protocol/msg_getdata.go
index 06b9834..6ca244b 100644
--- a/pkg/protocol/msg_getdata.go
+++ b/pkg/protocol/msg_getdata.go
@@ -8,7 +8,7 @@ import (
 
 // MsgGetData represents 'getdata' message.
 type MsgGetData struct {
-	Count     uint8 // TODO: Change to var_int
+	Count     VarInt
 	Inventory []InvVector
 }
 
diff --git a/pkg/protocol/msg_inv.go b/pkg/protocol/msg_inv.go
index d85e6e1..70ed012 100644
--- a/pkg/protocol/msg_inv.go
+++ b/pkg/protocol/msg_inv.go
@@ -16,7 +16,7 @@ const (
 
 // MsgInv represents 'inv' message.
 type MsgInv struct {
-	Count     uint8 // TODO: Change to var_int
+	Count     VarInt
 	Inventory []InvVector
 }
 
@@ -28,7 +28,12 @@ func (inv *MsgInv) UnmarshalBinary(r io.Reader) error {
 		return err
 	}
 
-	for i := uint8(0); i < inv.Count; i++ {
+	count, err := inv.Count.Int()
+	if err != nil {
+		return err
+	}
+
+	for i := 0; i < count; i++ {
 		var v InvVector
 
 		if err := d.Decode(&v); err != nil {
-- 
2.43.0


From 66014a37bd0a90121a6d2f0fc09d7ed128d3d251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:17 +0000
Subject: [PATCH 08/54] fix: read and write string lengths as variable-length
 integers

The user agent of a version message was misparsed from 253 bytes on.
---
 pkg/protocol/msg.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pkg/protocol/msg.go b/pkg/protocol/msg.go
index 7dd144a..4a14c57 100644
--- a/pkg/protocol/msg.go
+++ b/pkg/protocol/msg.go
@@ -94,27 +94,35 @@ func (mh MessageHeader) HasValidMagic() bool {
 
 // VarStr ...
 type VarStr struct {
-	Length uint8
+	Length VarInt
 	String string
 }
 
 func newVarStr(str string) VarStr {
 	return VarStr{
-		Length: uint8(len(str)), // TODO: implement var_int
+		Length: newFromInt(len(str)),
 		String: str,
 	}
 }
 
 // UnmarshalBinary implements the binary.Unmarshaler interface
 func (v *VarStr) UnmarshalBinary(r io.Reader) error {
-	lengthBuf := make([]byte, 1)
-	if _, err := io.ReadFull(r, lengthBuf); err != nil {
+	d := binary.NewDecoder(r)
+	if err := d.Decode(&v.Length); err != nil {
 		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
 	}
-	v.Length = uint8(lengthBuf[0])
 
-	stringBuf := make([]byte, v.Length)
-	if _, err := io.ReadFull(r, stringBuf); err != nil {
+	length, err := v.Length.Int()
+	if err != nil {
+		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
+	}
+	if length == 0 {
+		v.String = ""
+		return nil
+	}
+
+	stringBuf, err := d.DecodeBytes(int64(length))
+	if err != nil {
 		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
 	}
 	v.String = string(stringBuf)
-- 
2.43.0


From 5648812fe1f5b2f6b92baaec63beade62220889d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:21 +0000
Subject: [PATCH 09/54] fix: compute the transaction ID without witnesses

Hash included the witnesses and ordered the bytes with an inconsistent sort, so
it disagreed with HashStr and with the rest of the network.
---
 pkg/protocol/msg_tx.go | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/pkg/protocol/msg_tx.go b/pkg/protocol/msg_tx.go
index ae27c60..d2c2766 100644
--- a/pkg/protocol/msg_tx.go
+++ b/pkg/protocol/msg_tx.go
@@ -1,10 +1,7 @@
 package protocol
 
 import (
-	"crypto/sha256"
-	"fmt"
 	"io"
-	"sort"
 
 	"github.com/vulpemventures/go-elements/transaction"
 	"github.com/vulpemventures/neutrino-elements/pkg/binary"
@@ -26,19 +23,13 @@ func NewMsgTxFromHex(hex string) (MsgTx, error) {
 
 // Hash returns transaction ID.
 func (tx MsgTx) Hash() ([]byte, error) {
-	serialized, err := tx.MarshalBinary()
-	if err != nil {
-		return nil, fmt.Errorf("tx.MarshalBinary: %+v", err)
-	}
-
-	hash := sha256.Sum256(serialized)
-	hash = sha256.Sum256(hash[:])
+	hash := tx.TxHash()
 
-	txid := hash[:]
-
-	sort.SliceStable(txid, func(i, j int) bool {
-		return true
-	})
+	// transaction IDs are displayed in reverse byte order
+	txid := make([]byte, 0, len(hash))
+	for i := len(hash) - 1; i >= 0; i-- {
+		txid = append(txid, hash[i])
+	}
 
 	return txid, nil
 }
-- 
2.43.0


From b1e28f181d4f4858105c75e3705d0d7b12b90ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 10/54] fix: keep the last byte when a reader returns it
 together with EOF

---
 pkg/binary/unmarshaler.go | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/pkg/binary/unmarshaler.go b/pkg/binary/unmarshaler.go
index ca6033d..43d7ca7 100644
--- a/pkg/binary/unmarshaler.go
+++ b/pkg/binary/unmarshaler.go
@@ -117,19 +117,8 @@ func (d Decoder) Decode(v interface{}) error {
 func (d Decoder) ReadUntilEOF() (bytes.Buffer, error) {
 	var b bytes.Buffer
 
-	for {
-		buf := make([]byte, 1)
-		n, err := d.r.Read(buf)
-
-		if err != nil {
-			if err == io.EOF {
-				break
-			}
-
-			return b, err
-		}
-
-		b.Write(buf[:n])
+	if _, err := b.ReadFrom(d.r); err != nil {
+		return b, err
 	}
 
 	return b, nil
-- 
2.43.0


From 866ed8e91bc2bcee98b8a4502758dd2914f82f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 11/54] fix: refuse truncated transactions and blocks and
 inexact transaction hex

---
 pkg/protocol/msg_block.go | 10 ++++++++++
 pkg/protocol/msg_tx.go    | 31 +++++++++++++++++++++++++++----
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/pkg/protocol/msg_block.go b/pkg/protocol/msg_block.go
index 66ee8ad..591dbbe 100644
--- a/pkg/protocol/msg_block.go
+++ b/pkg/protocol/msg_block.go
@@ -22,11 +22,21 @@ func (blck *MsgBlock) UnmarshalBinary(r io.Reader) error {
 		return err
 	}
 
+	length := bytes.Len()
 	decodedBlock, err := block.NewFromBuffer(&bytes)
 	if err != nil {
 		return err
 	}
 
+	// the decoder pads a byte string cut short by the end of the payload
+	serialized, err := decodedBlock.SerializeBlock()
+	if err != nil {
+		return err
+	}
+	if len(serialized) > length {
+		return io.ErrUnexpectedEOF
+	}
+
 	blck.Header = decodedBlock.Header
 	blck.TransactionsData = &block.Transactions{
 		Transactions: decodedBlock.TransactionsData.Transactions,
diff --git a/pkg/protocol/msg_tx.go b/pkg/protocol/msg_tx.go
index d2c2766..9d7ae9d 100644
--- a/pkg/protocol/msg_tx.go
+++ b/pkg/protocol/msg_tx.go
@@ -1,6 +1,9 @@
 package protocol
 
 import (
+	"bytes"
+	"encoding/hex"
+	"errors"
 	"io"
 
 	"github.com/vulpemventures/go-elements/transaction"
@@ -12,12 +15,26 @@ type MsgTx struct {
 	transaction.Transaction
 }
 
-func NewMsgTxFromHex(hex string) (MsgTx, error) {
-	tx, err := transaction.NewTxFromHex(hex)
+func NewMsgTxFromHex(txHex string) (MsgTx, error) {
+	raw, err := hex.DecodeString(txHex)
 	if err != nil {
 		return MsgTx{}, err
 	}
 
+	tx, err := transaction.NewTxFromBuffer(bytes.NewBuffer(raw))
+	if err != nil {
+		return MsgTx{}, err
+	}
+
+	// the decoder accepts trailing bytes and a byte string cut short by the end of the transaction
+	serialized, err := tx.Serialize()
+	if err != nil {
+		return MsgTx{}, err
+	}
+	if !bytes.Equal(serialized, raw) {
+		return MsgTx{}, errors.New("invalid transaction encoding")
+	}
+
 	return MsgTx{*tx}, nil
 }
 
@@ -46,16 +63,22 @@ func (tx MsgTx) MarshalBinary() ([]byte, error) {
 // UnmarshalBinary implements binary.Unmarshaler
 func (tx *MsgTx) UnmarshalBinary(r io.Reader) error {
 	d := binary.NewDecoder(r)
-	bytes, err := d.ReadUntilEOF()
+	buf, err := d.ReadUntilEOF()
 	if err != nil {
 		return err
 	}
 
-	decodedTx, err := transaction.NewTxFromBuffer(&bytes)
+	length := buf.Len()
+	decodedTx, err := transaction.NewTxFromBuffer(&buf)
 	if err != nil {
 		return err
 	}
 
+	// the decoder pads a byte string cut short by the end of the payload
+	if decodedTx.SerializeSize(true, false) > length {
+		return io.ErrUnexpectedEOF
+	}
+
 	tx.Transaction = *decodedTx
 
 	return nil
-- 
2.43.0


From 043d58fef108f7d62ce4cbf543cff6f7322f9201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 12/54] fix: refuse truncated blocks from the explorer

---
 pkg/blockservice/service.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pkg/blockservice/service.go b/pkg/blockservice/service.go
index 1271bc7..fa621e3 100644
--- a/pkg/blockservice/service.go
+++ b/pkg/blockservice/service.go
@@ -1,14 +1,13 @@
 package blockservice
 
 import (
-	"bytes"
 	"fmt"
-	"io/ioutil"
 	"net/http"
 	"time"
 
 	"github.com/btcsuite/btcd/chaincfg/chainhash"
 	"github.com/vulpemventures/go-elements/block"
+	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
 var ErrorBlockNotFound = fmt.Errorf("block not found")
@@ -57,15 +56,10 @@ func (b *esploraBlockService) GetBlock(hash *chainhash.Hash) (*block.Block, erro
 		return nil, fmt.Errorf("getBlock http get error, status code: %v", resp.StatusCode)
 	}
 
-	bodyBytes, err := ioutil.ReadAll(resp.Body)
-	if err != nil {
-		return nil, err
-	}
-
-	block, err := block.NewFromBuffer(bytes.NewBuffer(bodyBytes))
-	if err != nil {
+	var msgBlock protocol.MsgBlock
+	if err := msgBlock.UnmarshalBinary(resp.Body); err != nil {
 		return nil, err
 	}
 
-	return block, nil
+	return &msgBlock.Block, nil
 }
-- 
2.43.0


From e497d54e2aa94b380221b11d29e15ef2137e777f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:27 +0000
Subject: [PATCH 13/54] fix: encode variable-length integers above the signed
 range unchanged

---
 pkg/protocol/varint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/protocol/varint.go b/pkg/protocol/varint.go
index 962065c..b0605fc 100644
--- a/pkg/protocol/varint.go
+++ b/pkg/protocol/varint.go
@@ -52,7 +52,7 @@ func NewVarint(u interface{}) (VarInt, error) {
 		return newFromInt(int(v)), nil
 	case uint64:
 		if v > math.MaxInt64 {
-			v = math.MaxInt64
+			return VarInt{Value: v}, nil
 		}
 
 		return newFromInt(int(v)), nil
-- 
2.43.0


From b8e2b07ee60323f023333cb0e40d78fe7faf69b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:06 +0000
Subject: [PATCH 14/54] fix: read peer messages by their announced length and
 check their checksum

A short read, an unknown command, an undecodable payload or a refused version
left the reader in the middle of a message, so that payload bytes were taken for
headers and later messages were lost.
---
 pkg/node/cmd_block.go       |  5 ++-
 pkg/node/cmd_cfilter.go     |  5 ++-
 pkg/node/cmd_getcfilters.go |  5 ++-
 pkg/node/cmd_getheaders.go  |  5 ++-
 pkg/node/cmd_headers.go     |  7 ++--
 pkg/node/cmd_inv.go         |  5 ++-
 pkg/node/cmd_ping.go        |  5 ++-
 pkg/node/cmd_pong.go        |  5 ++-
 pkg/node/cmd_sendcmpct.go   |  5 ++-
 pkg/node/cmd_skip.go        |  5 ++-
 pkg/node/cmd_tx.go          |  5 ++-
 pkg/node/cmd_verack.go      |  4 ++-
 pkg/node/cmd_version.go     |  5 ++-
 pkg/node/node.go            | 66 ++++++++++++++++++++++++++++---------
 14 files changed, 77 insertions(+), 55 deletions(-)

diff --git a/pkg/node/cmd_block.go b/pkg/node/cmd_block.go
index 21cf16c..2ee0956 100644
--- a/pkg/node/cmd_block.go
+++ b/pkg/node/cmd_block.go
@@ -11,7 +11,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
 
-func (n node) handleBlock(header *protocol.MessageHeader, p peer.Peer) error {
+func (n node) handleBlock(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var msgBlock protocol.MsgBlock
 
 	_, err := n.blockHeadersDb.ChainTip(context.Background())
@@ -19,8 +19,7 @@ func (n node) handleBlock(header *protocol.MessageHeader, p peer.Peer) error {
 		return err
 	}
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&msgBlock); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&msgBlock); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_cfilter.go b/pkg/node/cmd_cfilter.go
index 1a27c2c..7bf54e3 100644
--- a/pkg/node/cmd_cfilter.go
+++ b/pkg/node/cmd_cfilter.go
@@ -8,11 +8,10 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleCFilter(header *protocol.MessageHeader, p peer.Peer) error {
+func (n node) handleCFilter(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var cfilter protocol.MsgCFilter
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&cfilter); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&cfilter); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_getcfilters.go b/pkg/node/cmd_getcfilters.go
index 105506c..0ffa1d0 100644
--- a/pkg/node/cmd_getcfilters.go
+++ b/pkg/node/cmd_getcfilters.go
@@ -13,10 +13,9 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
 
-func (n node) handleGetCFilters(header *protocol.MessageHeader, p peer.Peer) error {
+func (n node) handleGetCFilters(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var getCFilters protocol.MsgGetCFilters
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&getCFilters); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&getCFilters); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_getheaders.go b/pkg/node/cmd_getheaders.go
index 096664c..9435285 100644
--- a/pkg/node/cmd_getheaders.go
+++ b/pkg/node/cmd_getheaders.go
@@ -9,10 +9,9 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleGetHeaders(header *protocol.MessageHeader, p peer.Peer) error {
+func (n node) handleGetHeaders(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var getHeaders protocol.MsgGetHeaders
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&getHeaders); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&getHeaders); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_headers.go b/pkg/node/cmd_headers.go
index 6bb9c91..bdf72e1 100644
--- a/pkg/node/cmd_headers.go
+++ b/pkg/node/cmd_headers.go
@@ -12,13 +12,10 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleHeaders(msgHeader *protocol.MessageHeader, p peer.Peer) error {
+func (n node) handleHeaders(msgHeader *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var headers protocol.MsgHeaders
 
-	conn := p.Connection()
-	lr := io.LimitReader(conn, int64(msgHeader.Length))
-
-	if err := binary.NewDecoder(lr).Decode(&headers); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&headers); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_inv.go b/pkg/node/cmd_inv.go
index f44e0dd..9ca3889 100644
--- a/pkg/node/cmd_inv.go
+++ b/pkg/node/cmd_inv.go
@@ -8,12 +8,11 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleInv(header *protocol.MessageHeader, p peer.Peer) error {
+func (n node) handleInv(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var inv protocol.MsgInv
 
 	conn := p.Connection()
-	lr := io.LimitReader(conn, int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&inv); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&inv); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_ping.go b/pkg/node/cmd_ping.go
index d2e7dfd..0a52ff0 100644
--- a/pkg/node/cmd_ping.go
+++ b/pkg/node/cmd_ping.go
@@ -8,12 +8,11 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handlePing(header *protocol.MessageHeader, p peer.Peer) error {
+func (n node) handlePing(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var ping protocol.MsgPing
 
 	conn := p.Connection()
-	lr := io.LimitReader(conn, int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&ping); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&ping); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_pong.go b/pkg/node/cmd_pong.go
index 62e3c58..938d4c1 100644
--- a/pkg/node/cmd_pong.go
+++ b/pkg/node/cmd_pong.go
@@ -8,11 +8,10 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handlePong(header *protocol.MessageHeader, p peer.Peer) error {
+func (n node) handlePong(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var pong protocol.MsgPing
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&pong); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&pong); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_sendcmpct.go b/pkg/node/cmd_sendcmpct.go
index fb07790..754dbfb 100644
--- a/pkg/node/cmd_sendcmpct.go
+++ b/pkg/node/cmd_sendcmpct.go
@@ -9,10 +9,9 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleSendCmpct(header *protocol.MessageHeader, p peer.Peer) error {
+func (n node) handleSendCmpct(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var sendCmpct protocol.MsgSendCmpct
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&sendCmpct); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&sendCmpct); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_skip.go b/pkg/node/cmd_skip.go
index 98e3be7..e9aeb5a 100644
--- a/pkg/node/cmd_skip.go
+++ b/pkg/node/cmd_skip.go
@@ -10,11 +10,10 @@ import (
 )
 
 // skipMessage is using to skip unhandled messages coming from peers
-func (n node) skipMessage(header *protocol.MessageHeader, p peer.Peer) error {
+func (n node) skipMessage(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	logrus.Debugf("skipping message: %s", header.Command)
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if _, err := binary.NewDecoder(lr).ReadUntilEOF(); err != nil {
+	if _, err := binary.NewDecoder(payload).ReadUntilEOF(); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_tx.go b/pkg/node/cmd_tx.go
index 8b51438..232fb3f 100644
--- a/pkg/node/cmd_tx.go
+++ b/pkg/node/cmd_tx.go
@@ -9,11 +9,10 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleTx(header *protocol.MessageHeader, p peer.Peer) error {
+func (n node) handleTx(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var tx protocol.MsgTx
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&tx); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&tx); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_verack.go b/pkg/node/cmd_verack.go
index 47e353e..fb76f96 100644
--- a/pkg/node/cmd_verack.go
+++ b/pkg/node/cmd_verack.go
@@ -1,10 +1,12 @@
 package node
 
 import (
+	"io"
+
 	"github.com/vulpemventures/neutrino-elements/pkg/peer"
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleVerack(header *protocol.MessageHeader, p peer.Peer) error {
+func (n node) handleVerack(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	return nil
 }
diff --git a/pkg/node/cmd_version.go b/pkg/node/cmd_version.go
index 0c48ac4..5056a83 100644
--- a/pkg/node/cmd_version.go
+++ b/pkg/node/cmd_version.go
@@ -10,12 +10,11 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleVersion(header *protocol.MessageHeader, p peer.Peer) error {
+func (n node) handleVersion(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var version protocol.MsgVersion
 
 	conn := p.Connection()
-	lr := io.LimitReader(conn, int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&version); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&version); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/node.go b/pkg/node/node.go
index 0463eae..7df20a2 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"context"
 	"fmt"
+	"github.com/btcsuite/btcd/chaincfg/chainhash"
 	"github.com/sirupsen/logrus"
 	log "github.com/sirupsen/logrus"
 	"github.com/vulpemventures/go-elements/block"
@@ -19,6 +20,9 @@ import (
 const (
 	pingIntervalSec = 120
 	pingTimeoutSec  = 60
+
+	// maxPayloadLength is the largest payload accepted from a peer
+	maxPayloadLength = 32 * 1024 * 1024
 )
 
 type NodeService interface {
@@ -175,19 +179,26 @@ func (n *node) handlePeerMessages(p peer.Peer) {
 
 Loop:
 	for {
-		nn, err := conn.Read(tmp)
-		if err != nil {
+		if _, err := io.ReadFull(conn, tmp); err != nil {
 			logrus.Errorf(err.Error())
 			n.DisconCh <- p.ID()
 			break Loop
 		}
 
 		var msgHeader protocol.MessageHeader
-		if err := binary.NewDecoder(bytes.NewReader(tmp[:nn])).Decode(&msgHeader); err != nil {
+		if err := binary.NewDecoder(bytes.NewReader(tmp)).Decode(&msgHeader); err != nil {
 			logrus.Debugf("decoding header failed: %+v", err)
 			continue
 		}
 
+		// always consume the payload the header announces, so that the next
+		// read starts at the next message whatever happens to this one
+		payload, err := readPayload(conn, &msgHeader)
+		if err != nil {
+			logrus.Debugf("reading payload failed: %+v", err)
+			continue
+		}
+
 		if err := msgHeader.Validate(); err != nil {
 			logrus.Debugf("validate header failed: %+v", err)
 			continue
@@ -197,67 +208,67 @@ Loop:
 
 		switch msgHeader.CommandString() {
 		case "version":
-			if err := n.handleVersion(&msgHeader, p); err != nil {
+			if err := n.handleVersion(&msgHeader, payload, p); err != nil {
 				logrus.Errorf("failed to handle 'version': %+v", err)
 				continue
 			}
 		case "verack":
-			if err := n.handleVerack(&msgHeader, p); err != nil {
+			if err := n.handleVerack(&msgHeader, payload, p); err != nil {
 				logrus.Errorf("failed to handle 'verack': %+v", err)
 				continue
 			}
 		case "ping":
-			if err := n.handlePing(&msgHeader, p); err != nil {
+			if err := n.handlePing(&msgHeader, payload, p); err != nil {
 				logrus.Errorf("failed to handle 'ping': %+v", err)
 				continue
 			}
 		case "pong":
-			if err := n.handlePong(&msgHeader, p); err != nil {
+			if err := n.handlePong(&msgHeader, payload, p); err != nil {
 				logrus.Errorf("failed to handle 'pong': %+v", err)
 				continue
 			}
 		case "inv":
-			if err := n.handleInv(&msgHeader, p); err != nil {
+			if err := n.handleInv(&msgHeader, payload, p); err != nil {
 				logrus.Errorf("failed to handle 'inv': %+v", err)
 				continue
 			}
 		case "tx":
-			if err := n.handleTx(&msgHeader, p); err != nil {
+			if err := n.handleTx(&msgHeader, payload, p); err != nil {
 				logrus.Errorf("failed to handle 'tx': %+v", err)
 				continue
 			}
 		case "block":
-			if err := n.handleBlock(&msgHeader, p); err != nil {
+			if err := n.handleBlock(&msgHeader, payload, p); err != nil {
 				logrus.Errorf("failed to handle 'block': %+v", err)
 				continue
 			}
 		case "sendcmpct":
-			if err := n.handleSendCmpct(&msgHeader, p); err != nil {
+			if err := n.handleSendCmpct(&msgHeader, payload, p); err != nil {
 				logrus.Errorf("failed to handle 'sendcmpct': %+v", err)
 				continue
 			}
 		case "getheaders":
-			if err := n.handleGetHeaders(&msgHeader, p); err != nil {
+			if err := n.handleGetHeaders(&msgHeader, payload, p); err != nil {
 				logrus.Errorf("failed to handle 'getheaders': %+v", err)
 				continue
 			}
 		case "headers":
-			if err := n.handleHeaders(&msgHeader, p); err != nil {
+			if err := n.handleHeaders(&msgHeader, payload, p); err != nil {
 				logrus.Errorf("failed to handle 'headers': %+v", err)
 				continue
 			}
 		case "cfilter":
-			if err := n.handleCFilter(&msgHeader, p); err != nil {
+			if err := n.handleCFilter(&msgHeader, payload, p); err != nil {
 				logrus.Errorf("failed to handle 'cfilter': %+v", err)
 				continue
 			}
 		case "getcfilters":
-			if err := n.handleGetCFilters(&msgHeader, p); err != nil {
+			if err := n.handleGetCFilters(&msgHeader, payload, p); err != nil {
 				logrus.Errorf("failed to handle 'getcfilters': %+v", err)
 				continue
 			}
 		default:
-			if err := n.skipMessage(&msgHeader, p); err != nil {
+			if err := n.skipMessage(&msgHeader, payload, p); err != nil {
 				logrus.Errorf("failed to skip message: %+v", err)
 				continue
 			}
@@ -266,6 +277,29 @@ Loop:
 	}
 }
 
+// readPayload reads from conn the payload announced by header.
+// returns an error if the payload is too large or does not match the checksum.
+func readPayload(conn io.Reader, header *protocol.MessageHeader) (io.Reader, error) {
+	if header.Length > maxPayloadLength {
+		if _, err := io.CopyN(io.Discard, conn, int64(header.Length)); err != nil {
+			return nil, err
+		}
+		return nil, fmt.Errorf("payload of %d bytes is too large", header.Length)
+	}
+
+	payload := new(bytes.Buffer)
+	if _, err := io.CopyN(payload, conn, int64(header.Length)); err != nil {
+		return nil, err
+	}
+
+	checksum := chainhash.DoubleHashB(payload.Bytes())[:len(header.Checksum)]
+	if !bytes.Equal(checksum, header.Checksum[:]) {
+		return nil, fmt.Errorf("invalid payload checksum")
+	}
+
+	return payload, nil
+}
+
 // Returns the services (as serviceFlag) supported by the node.
 func (n *node) getServicesFlag() protocol.ServiceFlag {
 	return protocol.SFNodeCF
-- 
2.43.0


From 71100e0bf34f545b8397ec1ab2306e62b6055b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 15/54] fix: make Stop end the work of the node

Start ran on a copy of the node and replaced its quit channel, so Stop reached
none of the background goroutines, left the connections open and left a pending
Start waiting; several goroutines blocked forever on channels nobody read.
---
 pkg/node/chainsync.go       |  9 +++--
 pkg/node/cmd_block.go       |  8 +++--
 pkg/node/cmd_cfilter.go     |  7 ++--
 pkg/node/cmd_getcfilters.go |  2 +-
 pkg/node/cmd_getheaders.go  |  2 +-
 pkg/node/cmd_headers.go     |  8 +++--
 pkg/node/cmd_inv.go         |  2 +-
 pkg/node/cmd_ping.go        |  2 +-
 pkg/node/cmd_pong.go        |  7 ++--
 pkg/node/cmd_sendcmpct.go   |  2 +-
 pkg/node/cmd_skip.go        |  2 +-
 pkg/node/cmd_tx.go          |  2 +-
 pkg/node/cmd_verack.go      |  2 +-
 pkg/node/cmd_version.go     |  2 +-
 pkg/node/handle_ping.go     | 12 +++++--
 pkg/node/node.go            | 67 ++++++++++++++++++++++++++++++-------
 16 files changed, 101 insertions(+), 35 deletions(-)

diff --git a/pkg/node/chainsync.go b/pkg/node/chainsync.go
index bef86ef..49f1aac 100644
--- a/pkg/node/chainsync.go
+++ b/pkg/node/chainsync.go
@@ -100,7 +100,12 @@ func (n *node) checkSyncedInitial(p peer.Peer) {
 			n.notifySynced()
 			return
 		}
-		time.Sleep(time.Second * 1)
+
+		select {
+		case <-n.quit:
+			return
+		case <-time.After(time.Second * 1):
+		}
 	}
 }
 
@@ -124,7 +129,7 @@ func (n *node) notifySynced() {
 	n.notifySyncedOnce.Do(
 		func() {
 			log.Debugf("node: syncing block headers finished")
-			n.syncedChan <- struct{}{}
+			close(n.syncedChan)
 		},
 	)
 }
diff --git a/pkg/node/cmd_block.go b/pkg/node/cmd_block.go
index 2ee0956..6c8eccf 100644
--- a/pkg/node/cmd_block.go
+++ b/pkg/node/cmd_block.go
@@ -11,7 +11,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
 
-func (n node) handleBlock(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
+func (n *node) handleBlock(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var msgBlock protocol.MsgBlock
 
 	_, err := n.blockHeadersDb.ChainTip(context.Background())
@@ -50,7 +50,11 @@ func (n node) handleBlock(header *protocol.MessageHeader, payload io.Reader, p p
 
 		return nil
 	}
-	n.blockHeadersCh <- *msgBlock.Header
+	select {
+	case n.blockHeadersCh <- *msgBlock.Header:
+	case <-n.quit:
+		return nil
+	}
 	n.memPool.CheckTxConfirmed(msgBlock.Block)
 
 	return nil
diff --git a/pkg/node/cmd_cfilter.go b/pkg/node/cmd_cfilter.go
index 7bf54e3..0299161 100644
--- a/pkg/node/cmd_cfilter.go
+++ b/pkg/node/cmd_cfilter.go
@@ -8,7 +8,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleCFilter(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
+func (n *node) handleCFilter(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var cfilter protocol.MsgCFilter
 
 	if err := binary.NewDecoder(payload).Decode(&cfilter); err != nil {
@@ -16,7 +16,10 @@ func (n node) handleCFilter(header *protocol.MessageHeader, payload io.Reader, p
 	}
 
 	// send the cfilter to the chan
-	n.compactFiltersCh <- cfilter
+	select {
+	case n.compactFiltersCh <- cfilter:
+	case <-n.quit:
+	}
 
 	return nil
 }
diff --git a/pkg/node/cmd_getcfilters.go b/pkg/node/cmd_getcfilters.go
index 0ffa1d0..2a3a61a 100644
--- a/pkg/node/cmd_getcfilters.go
+++ b/pkg/node/cmd_getcfilters.go
@@ -13,7 +13,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
 
-func (n node) handleGetCFilters(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
+func (n *node) handleGetCFilters(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var getCFilters protocol.MsgGetCFilters
 	if err := binary.NewDecoder(payload).Decode(&getCFilters); err != nil {
 		return err
diff --git a/pkg/node/cmd_getheaders.go b/pkg/node/cmd_getheaders.go
index 9435285..8edf8ed 100644
--- a/pkg/node/cmd_getheaders.go
+++ b/pkg/node/cmd_getheaders.go
@@ -9,7 +9,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleGetHeaders(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
+func (n *node) handleGetHeaders(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var getHeaders protocol.MsgGetHeaders
 	if err := binary.NewDecoder(payload).Decode(&getHeaders); err != nil {
 		return err
diff --git a/pkg/node/cmd_headers.go b/pkg/node/cmd_headers.go
index bdf72e1..bdecb09 100644
--- a/pkg/node/cmd_headers.go
+++ b/pkg/node/cmd_headers.go
@@ -12,7 +12,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleHeaders(msgHeader *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
+func (n *node) handleHeaders(msgHeader *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var headers protocol.MsgHeaders
 
 	if err := binary.NewDecoder(payload).Decode(&headers); err != nil {
@@ -72,7 +72,11 @@ func (n node) handleHeaders(msgHeader *protocol.MessageHeader, payload io.Reader
 
 	if len(headers.Headers) > 0 {
 		for _, v := range headers.Headers {
-			n.blockHeadersCh <- *v
+			select {
+			case n.blockHeadersCh <- *v:
+			case <-n.quit:
+				return nil
+			}
 		}
 
 		log.Debugf("node: local tip: %v", headers.Headers[len(headers.Headers)-1].Height)
diff --git a/pkg/node/cmd_inv.go b/pkg/node/cmd_inv.go
index 9ca3889..504c91f 100644
--- a/pkg/node/cmd_inv.go
+++ b/pkg/node/cmd_inv.go
@@ -8,7 +8,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleInv(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
+func (n *node) handleInv(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var inv protocol.MsgInv
 
 	conn := p.Connection()
diff --git a/pkg/node/cmd_ping.go b/pkg/node/cmd_ping.go
index 0a52ff0..c3a0dab 100644
--- a/pkg/node/cmd_ping.go
+++ b/pkg/node/cmd_ping.go
@@ -8,7 +8,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handlePing(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
+func (n *node) handlePing(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var ping protocol.MsgPing
 
 	conn := p.Connection()
diff --git a/pkg/node/cmd_pong.go b/pkg/node/cmd_pong.go
index 938d4c1..78dda0d 100644
--- a/pkg/node/cmd_pong.go
+++ b/pkg/node/cmd_pong.go
@@ -8,14 +8,17 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handlePong(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
+func (n *node) handlePong(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var pong protocol.MsgPing
 
 	if err := binary.NewDecoder(payload).Decode(&pong); err != nil {
 		return err
 	}
 
-	n.pongsCh <- pong.Nonce
+	select {
+	case n.pongsCh <- pong.Nonce:
+	case <-n.quit:
+	}
 
 	return nil
 }
diff --git a/pkg/node/cmd_sendcmpct.go b/pkg/node/cmd_sendcmpct.go
index 754dbfb..fa77fd6 100644
--- a/pkg/node/cmd_sendcmpct.go
+++ b/pkg/node/cmd_sendcmpct.go
@@ -9,7 +9,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleSendCmpct(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
+func (n *node) handleSendCmpct(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var sendCmpct protocol.MsgSendCmpct
 	if err := binary.NewDecoder(payload).Decode(&sendCmpct); err != nil {
 		return err
diff --git a/pkg/node/cmd_skip.go b/pkg/node/cmd_skip.go
index e9aeb5a..ddd5ae8 100644
--- a/pkg/node/cmd_skip.go
+++ b/pkg/node/cmd_skip.go
@@ -10,7 +10,7 @@ import (
 )
 
 // skipMessage is using to skip unhandled messages coming from peers
-func (n node) skipMessage(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
+func (n *node) skipMessage(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	logrus.Debugf("skipping message: %s", header.Command)
 
 	if _, err := binary.NewDecoder(payload).ReadUntilEOF(); err != nil {
diff --git a/pkg/node/cmd_tx.go b/pkg/node/cmd_tx.go
index 232fb3f..051a608 100644
--- a/pkg/node/cmd_tx.go
+++ b/pkg/node/cmd_tx.go
@@ -9,7 +9,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleTx(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
+func (n *node) handleTx(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var tx protocol.MsgTx
 
 	if err := binary.NewDecoder(payload).Decode(&tx); err != nil {
diff --git a/pkg/node/cmd_verack.go b/pkg/node/cmd_verack.go
index fb76f96..68f8e87 100644
--- a/pkg/node/cmd_verack.go
+++ b/pkg/node/cmd_verack.go
@@ -7,6 +7,6 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleVerack(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
+func (n *node) handleVerack(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	return nil
 }
diff --git a/pkg/node/cmd_version.go b/pkg/node/cmd_version.go
index 5056a83..deb9b3f 100644
--- a/pkg/node/cmd_version.go
+++ b/pkg/node/cmd_version.go
@@ -10,7 +10,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleVersion(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
+func (n *node) handleVersion(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var version protocol.MsgVersion
 
 	conn := p.Connection()
diff --git a/pkg/node/handle_ping.go b/pkg/node/handle_ping.go
index d421fe4..5813aa1 100644
--- a/pkg/node/handle_ping.go
+++ b/pkg/node/handle_ping.go
@@ -95,9 +95,13 @@ func (n *node) monitorPeer(peer peer.Peer) {
 
 			logrus.Debugf("sent 'ping' to %s", peer)
 
-			n.pingsCh <- peerPing{
+			select {
+			case n.pingsCh <- peerPing{
 				nonce:  nonce,
 				peerID: peer.ID(),
+			}:
+			case <-n.quit:
+				return
 			}
 
 			t := time.NewTimer(pingTimeoutSec * time.Second)
@@ -106,12 +110,14 @@ func (n *node) monitorPeer(peer peer.Peer) {
 			case pn := <-n.peersPongCh[peer.ID()]:
 				if pn != nonce {
 					logrus.Errorf("nonce doesn't match for %s: want %d, got %d", peer, nonce, pn)
-					n.DisconCh <- peer.ID()
+					n.notifyDisconnect(peer.ID())
 					return
 				}
 				logrus.Debugf("got 'pong' from %s", peer)
+			case <-n.quit:
+				return
 			case <-t.C:
-				n.DisconCh <- peer.ID()
+				n.notifyDisconnect(peer.ID())
 				return
 			}
 
diff --git a/pkg/node/node.go b/pkg/node/node.go
index 7df20a2..1475de2 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -3,6 +3,7 @@ package node
 import (
 	"bytes"
 	"context"
+	"errors"
 	"fmt"
 	"github.com/btcsuite/btcd/chaincfg/chainhash"
 	"github.com/sirupsen/logrus"
@@ -56,10 +57,13 @@ type node struct {
 	syncedChan chan struct{}
 
 	notifySyncedOnce sync.Once
+	stopOnce         sync.Once
 }
 
 var _ NodeService = (*node)(nil)
 
+var errNodeStopped = errors.New("node stopped")
+
 type NodeConfig struct {
 	Network        string
 	UserAgent      string
@@ -93,18 +97,24 @@ func New(config NodeConfig) (NodeService, error) {
 	}, nil
 }
 
-func (n node) GetChainTip() (*block.Header, error) {
+func (n *node) GetChainTip() (*block.Header, error) {
 	return n.blockHeadersDb.ChainTip(context.Background())
 }
 
 // AddOutboundPeer sends a new version message to a new peer
 // returns an error if the peer is already connected.
 // it also starts a goroutine to monitor the peer's messages.
-func (n node) AddOutboundPeer(outbound peer.Peer) error {
+func (n *node) AddOutboundPeer(outbound peer.Peer) error {
 	if _, ok := n.Peers[outbound.ID()]; ok {
 		return fmt.Errorf("peer already known by node")
 	}
 
+	select {
+	case <-n.quit:
+		return errNodeStopped
+	default:
+	}
+
 	msgVersion, err := n.createNodeVersionMsg(outbound)
 	if err != nil {
 		return err
@@ -121,8 +131,7 @@ func (n node) AddOutboundPeer(outbound peer.Peer) error {
 }
 
 // Start starts a node and add an initial outbound peer.
-func (n node) Start(initialOutboundPeerAddr string) error {
-	n.quit = make(chan struct{})
+func (n *node) Start(initialOutboundPeerAddr string) error {
 	initialPeer, err := peer.NewElementsPeer(initialOutboundPeerAddr)
 	if err != nil {
 		return err
@@ -130,6 +139,7 @@ func (n node) Start(initialOutboundPeerAddr string) error {
 
 	err = n.AddOutboundPeer(initialPeer)
 	if err != nil {
+		initialPeer.Connection().Close()
 		return err
 	}
 
@@ -140,14 +150,20 @@ func (n node) Start(initialOutboundPeerAddr string) error {
 
 	n.memPool.Start()
 
-	<-n.syncedChan
-
-	return nil
+	select {
+	case <-n.syncedChan:
+		return nil
+	case <-n.quit:
+		return errNodeStopped
+	}
 }
 
+// Stop ends all the background work of the node and closes the connections of its peers.
 func (n *node) Stop() error {
-	n.memPool.Stop()
-	close(n.quit)
+	n.stopOnce.Do(func() {
+		close(n.quit)
+		n.memPool.Stop()
+	})
 	return nil
 }
 
@@ -167,22 +183,39 @@ func (n *node) getBestPeerForSync() peer.Peer {
 
 // handlePeerMessages handles messages coming from peers.
 func (n *node) handlePeerMessages(p peer.Peer) {
+	done := make(chan struct{})
+	defer close(done)
+
+	// unblock the reader when the node stops
+	go func() {
+		select {
+		case <-n.quit:
+		case <-done:
+		}
+		p.Connection().Close()
+	}()
+
+	for !n.readPeerMessages(p) {
+	}
+}
+
+// readPeerMessages handles the messages of a peer until its connection fails.
+// returns false if a message made it panic.
+func (n *node) readPeerMessages(p peer.Peer) (done bool) {
 	defer func() {
 		if r := recover(); r != nil {
 			log.Infof("recovered handlePeerMessages: %v", string(debug.Stack()))
-			n.handlePeerMessages(p)
 		}
 	}()
 
 	tmp := make([]byte, protocol.MsgHeaderLength)
 	conn := p.Connection()
 
-Loop:
 	for {
 		if _, err := io.ReadFull(conn, tmp); err != nil {
 			logrus.Errorf(err.Error())
-			n.DisconCh <- p.ID()
-			break Loop
+			n.notifyDisconnect(p.ID())
+			return true
 		}
 
 		var msgHeader protocol.MessageHeader
@@ -330,6 +363,14 @@ func (n *node) sendMessage(conn io.Writer, msg *protocol.Message) error {
 	return err
 }
 
+// notifyDisconnect asks to disconnect the peer, unless the node is stopped.
+func (n *node) notifyDisconnect(peerID peer.PeerID) {
+	select {
+	case n.DisconCh <- peerID:
+	case <-n.quit:
+	}
+}
+
 // on disconnect, remove the peer from the node.
 // and close the connection.
 func (n *node) disconnectPeer(peerID peer.PeerID) {
-- 
2.43.0


From 94585fb2f48d2568cdc2316e071c65440a2d734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:29 +0000
Subject: [PATCH 16/54] fix: track the liveness of each peer independently of
 the others

The peer table was shared without a lock; delivering an unexpected pong blocked
the only goroutine that handles pongs and disconnections; a pong could overtake
the registration of its ping; a failed or blocked write kept the peer monitored
instead of dropping it.
---
 pkg/node/chainsync.go   | 14 ++++----
 pkg/node/handle_ping.go | 75 ++++++++++++++++++++++++++++-------------
 pkg/node/node.go        | 43 ++++++++++++++++++-----
 3 files changed, 91 insertions(+), 41 deletions(-)

diff --git a/pkg/node/chainsync.go b/pkg/node/chainsync.go
index 49f1aac..b598de7 100644
--- a/pkg/node/chainsync.go
+++ b/pkg/node/chainsync.go
@@ -58,8 +58,7 @@ func (n *node) getGenesisBlockHash() (*chainhash.Hash, error) {
 func (n *node) syncWithPeer(peerID peer.PeerID) error {
 	log.Infof("node: syncing block headers with peer: %s ...", peerID)
 
-	p := n.Peers[peerID]
-
+	p := n.getPeer(peerID)
 	if p == nil {
 		return fmt.Errorf("peer %s not found", peerID)
 	}
@@ -111,12 +110,11 @@ func (n *node) checkSyncedInitial(p peer.Peer) {
 
 func (n *node) sync(p peer.Peer) {
 	if p == nil {
-		for _, bestPeer := range n.Peers {
-			if bestPeer != nil {
-				p = bestPeer
-				break
-			}
-		}
+		p = n.getBestPeerForSync()
+	}
+
+	if p == nil {
+		return
 	}
 
 	if err := n.syncWithPeer(p.ID()); err != nil {
diff --git a/pkg/node/handle_ping.go b/pkg/node/handle_ping.go
index 5813aa1..95135bb 100644
--- a/pkg/node/handle_ping.go
+++ b/pkg/node/handle_ping.go
@@ -16,13 +16,17 @@ type peerPing struct {
 }
 
 func (n *node) addPeer(peer peer.Peer) error {
+	n.peersMutex.Lock()
+	defer n.peersMutex.Unlock()
+
 	if _, found := n.Peers[peer.ID()]; found {
 		return fmt.Errorf("peer already known: %s", peer.ID())
 	}
 
 	id := peer.ID()
 	n.Peers[id] = peer
-	n.peersPongCh[id] = make(chan uint64)
+	// never more than one pong is expected, so that delivering it does not block
+	n.peersPongCh[id] = make(chan uint64, 1)
 
 	if len(n.Peers) == 1 {
 		logrus.Infof("node: start sync block headers with peer: %s", peer.ID())
@@ -32,6 +36,13 @@ func (n *node) addPeer(peer peer.Peer) error {
 	return nil
 }
 
+func (n *node) getPongCh(peerID peer.PeerID) chan uint64 {
+	n.peersMutex.RLock()
+	defer n.peersMutex.RUnlock()
+
+	return n.peersPongCh[peerID]
+}
+
 func (n *node) monitorPeers() {
 	peerPings := make(map[uint64]peer.PeerID)
 
@@ -44,14 +55,15 @@ func (n *node) monitorPeers() {
 			if peerID == "" {
 				break
 			}
-			p := n.Peers[peerID]
-			if p == nil {
-				break
-			}
-
-			n.peersPongCh[peerID] <- nonce
 			delete(peerPings, nonce)
 
+			if pongCh := n.getPongCh(peerID); pongCh != nil {
+				select {
+				case pongCh <- nonce:
+				default:
+				}
+			}
+
 		case pp := <-n.pingsCh:
 			peerPings[pp.nonce] = pp.peerID
 
@@ -61,7 +73,6 @@ func (n *node) monitorPeers() {
 			for k, v := range peerPings {
 				if v == peerID {
 					delete(peerPings, k)
-					break
 				}
 			}
 		}
@@ -73,6 +84,8 @@ func (n *node) monitorPeer(peer peer.Peer) {
 	ticker := time.NewTicker(pingIntervalSec * time.Second)
 	defer ticker.Stop()
 
+	pongCh := n.getPongCh(peer.ID())
+
 	for {
 		select {
 		case <-n.quit:
@@ -89,12 +102,7 @@ func (n *node) monitorPeer(peer peer.Peer) {
 				logrus.Fatalf("monitorPeer, binary.Marshal: %v", err)
 			}
 
-			if _, err := peer.Connection().Write(msg); err != nil {
-				n.disconnectPeer(peer.ID())
-			}
-
-			logrus.Debugf("sent 'ping' to %s", peer)
-
+			// the pong may come back before Write returns
 			select {
 			case n.pingsCh <- peerPing{
 				nonce:  nonce,
@@ -106,19 +114,38 @@ func (n *node) monitorPeer(peer peer.Peer) {
 
 			t := time.NewTimer(pingTimeoutSec * time.Second)
 
-			select {
-			case pn := <-n.peersPongCh[peer.ID()]:
-				if pn != nonce {
-					logrus.Errorf("nonce doesn't match for %s: want %d, got %d", peer, nonce, pn)
+			// a peer that stopped reading must not block the timeout
+			writeErr := make(chan error, 1)
+			go func() {
+				_, err := peer.Connection().Write(msg)
+				writeErr <- err
+			}()
+
+			for waiting := true; waiting; {
+				select {
+				case err := <-writeErr:
+					if err != nil {
+						t.Stop()
+						n.notifyDisconnect(peer.ID())
+						return
+					}
+					logrus.Debugf("sent 'ping' to %s", peer)
+				case pn := <-pongCh:
+					if pn != nonce {
+						t.Stop()
+						logrus.Errorf("nonce doesn't match for %s: want %d, got %d", peer, nonce, pn)
+						n.notifyDisconnect(peer.ID())
+						return
+					}
+					logrus.Debugf("got 'pong' from %s", peer)
+					waiting = false
+				case <-t.C:
 					n.notifyDisconnect(peer.ID())
 					return
+				case <-n.quit:
+					t.Stop()
+					return
 				}
-				logrus.Debugf("got 'pong' from %s", peer)
-			case <-n.quit:
-				return
-			case <-t.C:
-				n.notifyDisconnect(peer.ID())
-				return
 			}
 
 			t.Stop()
diff --git a/pkg/node/node.go b/pkg/node/node.go
index 1475de2..93fc903 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -42,6 +42,8 @@ type node struct {
 	pingsCh     chan peerPing
 	pongsCh     chan uint64
 	peersPongCh map[peer.PeerID]chan uint64
+	// peersMutex protects Peers and peersPongCh
+	peersMutex sync.RWMutex
 
 	DisconCh  chan peer.PeerID
 	UserAgent string
@@ -105,7 +107,7 @@ func (n *node) GetChainTip() (*block.Header, error) {
 // returns an error if the peer is already connected.
 // it also starts a goroutine to monitor the peer's messages.
 func (n *node) AddOutboundPeer(outbound peer.Peer) error {
-	if _, ok := n.Peers[outbound.ID()]; ok {
+	if n.getPeer(outbound.ID()) != nil {
 		return fmt.Errorf("peer already known by node")
 	}
 
@@ -167,12 +169,32 @@ func (n *node) Stop() error {
 	return nil
 }
 
+// getPeer returns the connected peer with the given ID, nil if there is none.
+func (n *node) getPeer(peerID peer.PeerID) peer.Peer {
+	n.peersMutex.RLock()
+	defer n.peersMutex.RUnlock()
+
+	return n.Peers[peerID]
+}
+
+// getPeers returns the connected peers.
+func (n *node) getPeers() []peer.Peer {
+	n.peersMutex.RLock()
+	defer n.peersMutex.RUnlock()
+
+	peers := make([]peer.Peer, 0, len(n.Peers))
+	for _, p := range n.Peers {
+		peers = append(peers, p)
+	}
+
+	return peers
+}
+
 // Return the best peer (now randomly)
 // TODO : implement a better way to select the best peer (eg. by latency)
 func (n *node) getBestPeerForSync() peer.Peer {
-	if len(n.Peers) == 0 {
-		return nil
-	}
+	n.peersMutex.RLock()
+	defer n.peersMutex.RUnlock()
 
 	for _, p := range n.Peers {
 		return p
@@ -376,13 +398,17 @@ func (n *node) notifyDisconnect(peerID peer.PeerID) {
 func (n *node) disconnectPeer(peerID peer.PeerID) {
 	logrus.Debugf("disconnecting peer %s", peerID)
 
-	peer := n.Peers[peerID]
+	peer := n.getPeer(peerID)
 	if peer == nil {
 		return
 	}
 
 	peer.Connection().Close()
+
+	n.peersMutex.Lock()
+	defer n.peersMutex.Unlock()
 	delete(n.Peers, peerID)
+	delete(n.peersPongCh, peerID)
 }
 
 // monitorBlockHeaders monitors new block headers coming from peers.
@@ -400,7 +426,7 @@ func (n *node) monitorBlockHeaders() {
 
 			log.Debugf("node: new block header: %v\n", newHeader.Height)
 
-			if len(n.Peers) > 0 {
+			if bestPeer := n.getBestPeerForSync(); bestPeer != nil {
 				hash, err := newHeader.Hash()
 				if err != nil {
 					logrus.Error(err)
@@ -419,8 +445,7 @@ func (n *node) monitorBlockHeaders() {
 					continue
 				}
 
-				conn := n.getBestPeerForSync().Connection()
-				err = n.sendMessage(conn, msg)
+				err = n.sendMessage(bestPeer.Connection(), msg)
 				if err != nil {
 					logrus.Error(err)
 					continue
@@ -466,7 +491,7 @@ func (n *node) SendTransaction(txhex string) error {
 		return err
 	}
 
-	for _, peer := range n.Peers {
+	for _, peer := range n.getPeers() {
 		err = n.sendMessage(peer.Connection(), msg)
 		if err != nil {
 			return err
-- 
2.43.0


From e68dc035581644683293dafb273cce1792e66655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:31 +0000
Subject: [PATCH 17/54] fix: acknowledge only the first version message of a
 peer

A repeated version message was acknowledged again and replaced the height that
the peer had announced.
---
 pkg/node/cmd_version.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/node/cmd_version.go b/pkg/node/cmd_version.go
index deb9b3f..3d0b8d0 100644
--- a/pkg/node/cmd_version.go
+++ b/pkg/node/cmd_version.go
@@ -18,6 +18,10 @@ func (n *node) handleVersion(header *protocol.MessageHeader, payload io.Reader,
 		return err
 	}
 
+	if n.getPeer(p.ID()) != nil {
+		return fmt.Errorf("peer already known: %s", p.ID())
+	}
+
 	// check if the peer supports compact block filters
 	if !version.HasService(protocol.SFNodeCF) {
 		return fmt.Errorf("peer %s does not support Compact Filters Service (BIP0158)", p.ID())
-- 
2.43.0


From d757581fc540a4ce958ee608a3ed7339f549533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:33 +0000
Subject: [PATCH 18/54] fix: send transactions to the remaining peers when one
 connection fails

---
 pkg/node/node.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/node/node.go b/pkg/node/node.go
index 93fc903..6820d15 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -491,12 +491,13 @@ func (n *node) SendTransaction(txhex string) error {
 		return err
 	}
 
+	var sendErr error
 	for _, peer := range n.getPeers() {
-		err = n.sendMessage(peer.Connection(), msg)
-		if err != nil {
-			return err
+		if err := n.sendMessage(peer.Connection(), msg); err != nil {
+			logrus.Errorf("failed to send transaction to %s: %+v", peer.ID(), err)
+			sendErr = err
 		}
 	}
 
-	return nil
+	return sendErr
 }
-- 
2.43.0


From 4772cb60bac05a35cf3274b1555c5b0eacc14c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:36 +0000
Subject: [PATCH 19/54] fix: answer filter requests with the first block of the
 range too

---
 pkg/node/cmd_getcfilters.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/node/cmd_getcfilters.go b/pkg/node/cmd_getcfilters.go
index 2a3a61a..986a7e2 100644
--- a/pkg/node/cmd_getcfilters.go
+++ b/pkg/node/cmd_getcfilters.go
@@ -41,7 +41,9 @@ func (n *node) handleGetCFilters(header *protocol.MessageHeader, payload io.Read
 		return fmt.Errorf("end height is too far away from start height")
 	}
 
-	for height := endBlockHeader.Height; height > getCFilters.StartHeight; height-- {
+	filtersCount := endBlockHeader.Height - getCFilters.StartHeight + 1
+	for i := uint32(0); i < filtersCount; i++ {
+		height := endBlockHeader.Height - i
 		blockHash, err := n.blockHeadersDb.GetBlockHashByHeight(context.Background(), height)
 		if err != nil {
 			logrus.Error(err)
-- 
2.43.0


From 18360d4f4af74e6395043ed6fb6cccef44d0aa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:13 +0000
Subject: [PATCH 20/54] fix: append headers to the stored chain only when they
 continue it

Headers were queued and stored one by one without looking at the stored chain:
a failed write left a permanent hole, a header that repeats or does not link to
the tip was stored as well, and Start could return before the handshake.
---
 pkg/node/chainsync.go   | 123 ++++++++++++++++++++++++++++++++++++++++
 pkg/node/cmd_block.go   |  15 +++--
 pkg/node/cmd_headers.go |  29 +++-------
 pkg/node/node.go        |  52 ++---------------
 4 files changed, 142 insertions(+), 77 deletions(-)

diff --git a/pkg/node/chainsync.go b/pkg/node/chainsync.go
index b598de7..bd208dd 100644
--- a/pkg/node/chainsync.go
+++ b/pkg/node/chainsync.go
@@ -1,17 +1,22 @@
 package node
 
 import (
+	"bytes"
 	"context"
 	"fmt"
 	"github.com/btcsuite/btcd/blockchain"
 	"github.com/btcsuite/btcd/chaincfg/chainhash"
 	log "github.com/sirupsen/logrus"
+	"github.com/vulpemventures/go-elements/block"
 	"github.com/vulpemventures/neutrino-elements/pkg/peer"
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 	"time"
 )
 
+// retrySyncInterval is the time to wait before synchronising again after a failure
+const retrySyncInterval = 5 * time.Second
+
 var zeroHash [32]byte = [32]byte{
 	0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
 	0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
@@ -20,6 +25,11 @@ var zeroHash [32]byte = [32]byte{
 }
 
 func (n *node) synced(p peer.Peer) (bool, error) {
+	// the peer's tip is unknown until the handshake is done
+	if p.PeersTip() == 0 && n.getPeer(p.ID()) == nil {
+		return false, nil
+	}
+
 	chainTip, err := n.blockHeadersDb.ChainTip(context.Background())
 	if err != nil {
 		return false, err
@@ -91,6 +101,118 @@ func (n *node) syncWithPeer(peerID peer.PeerID) error {
 	return nil
 }
 
+// storeHeaders appends to the stored chain the headers that continue it, until the first that does not.
+// returns the number of headers stored.
+func (n *node) storeHeaders(headers ...*block.Header) (int, error) {
+	stored, err := n.appendHeaders(headers)
+
+	for _, header := range stored {
+		log.Debugf("node: new block header: %v\n", header.Height)
+		if err := n.requestCFilter(header); err != nil {
+			log.Error(err)
+		}
+	}
+
+	return len(stored), err
+}
+
+func (n *node) appendHeaders(headers []*block.Header) ([]*block.Header, error) {
+	n.chainMutex.Lock()
+	defer n.chainMutex.Unlock()
+
+	stored := make([]*block.Header, 0)
+
+	tip, err := n.blockHeadersDb.ChainTip(context.Background())
+	if err != nil && err != repository.ErrNoBlocksHeaders {
+		return stored, err
+	}
+
+	tipHeight := uint32(0)
+	var tipHash chainhash.Hash
+	if tip != nil {
+		tipHeight = tip.Height
+		if tipHash, err = tip.Hash(); err != nil {
+			return stored, err
+		}
+	}
+
+	for _, header := range headers {
+		if header.Height <= tipHeight {
+			continue
+		}
+
+		if header.Height != tipHeight+1 || (tipHeight > 0 && !bytes.Equal(header.PrevBlockHash, tipHash[:])) {
+			log.Debugf("node: block header %d does not continue the chain", header.Height)
+			return stored, nil
+		}
+
+		hash, err := header.Hash()
+		if err != nil {
+			return stored, err
+		}
+
+		select {
+		case <-n.quit:
+			return stored, errNodeStopped
+		default:
+		}
+
+		if err := n.blockHeadersDb.WriteHeaders(context.Background(), *header); err != nil {
+			return stored, err
+		}
+
+		stored = append(stored, header)
+		tipHeight, tipHash = header.Height, hash
+	}
+
+	return stored, nil
+}
+
+// requestCFilter asks a connected peer for the compact filter of a block.
+func (n *node) requestCFilter(header *block.Header) error {
+	hash, err := header.Hash()
+	if err != nil {
+		return err
+	}
+
+	getcFilter := protocol.MsgGetCFilters{
+		FilterType:  0,
+		StartHeight: header.Height,
+		StopHash:    hash,
+	}
+
+	msg, err := protocol.NewMessage("getcfilters", n.Network, &getcFilter)
+	if err != nil {
+		return err
+	}
+
+	for _, p := range n.getPeers() {
+		if err = n.sendMessage(p.Connection(), msg); err == nil {
+			return nil
+		}
+	}
+
+	return err
+}
+
+// retrySync asks again for the missing headers later, once the header store may work again.
+func (n *node) retrySync() {
+	if !n.retryingSync.CompareAndSwap(false, true) {
+		return
+	}
+
+	go func() {
+		select {
+		case <-n.quit:
+			return
+		case <-time.After(retrySyncInterval):
+		}
+
+		n.retryingSync.Store(false)
+		n.sync(nil)
+	}()
+}
+
 func (n *node) checkSyncedInitial(p peer.Peer) {
 	for {
 		log.Debug("node: checkSynced")
@@ -119,6 +241,7 @@ func (n *node) sync(p peer.Peer) {
 
 	if err := n.syncWithPeer(p.ID()); err != nil {
 		log.Errorf("node: sync block headers with peer: %s failed: %s", p.ID(), err)
+		n.retrySync()
 	}
 }
 
diff --git a/pkg/node/cmd_block.go b/pkg/node/cmd_block.go
index 6c8eccf..77da06f 100644
--- a/pkg/node/cmd_block.go
+++ b/pkg/node/cmd_block.go
@@ -14,11 +14,6 @@ import (
 func (n *node) handleBlock(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var msgBlock protocol.MsgBlock
 
-	_, err := n.blockHeadersDb.ChainTip(context.Background())
-	if err != nil && err != repository.ErrNoBlocksHeaders {
-		return err
-	}
-
 	if err := binary.NewDecoder(payload).Decode(&msgBlock); err != nil {
 		return err
 	}
@@ -30,6 +25,7 @@ func (n *node) handleBlock(header *protocol.MessageHeader, payload io.Reader, p
 				Height: 0,
 			}
 		} else {
+			n.retrySync()
 			return err
 		}
 	}
@@ -50,9 +46,12 @@ func (n *node) handleBlock(header *protocol.MessageHeader, payload io.Reader, p
 
 		return nil
 	}
-	select {
-	case n.blockHeadersCh <- *msgBlock.Header:
-	case <-n.quit:
+	stored, err := n.storeHeaders(msgBlock.Header)
+	if err != nil {
+		n.retrySync()
+		return err
+	}
+	if stored == 0 {
 		return nil
 	}
 	n.memPool.CheckTxConfirmed(msgBlock.Block)
diff --git a/pkg/node/cmd_headers.go b/pkg/node/cmd_headers.go
index bdecb09..63843cd 100644
--- a/pkg/node/cmd_headers.go
+++ b/pkg/node/cmd_headers.go
@@ -26,6 +26,7 @@ func (n *node) handleHeaders(msgHeader *protocol.MessageHeader, payload io.Reade
 				Height: 0,
 			}
 		} else {
+			n.retrySync()
 			return err
 		}
 	}
@@ -55,30 +56,14 @@ func (n *node) handleHeaders(msgHeader *protocol.MessageHeader, payload io.Reade
 		return nil
 	}
 
-	//in case received headers portion has first header block height less than tip
-	//check if there are other received headers that are continuation of the tip in sequence
-	if firstHeaderBlockHeight < tip.Height && lastHeaderBlockHeight > tip.Height {
-		newHeaders := make([]*block.Header, 0)
-		for _, header := range headers.Headers {
-			if header.Height > tip.Height {
-				newHeaders = append(newHeaders, header)
-			}
-		}
-
-		if len(newHeaders) > 0 {
-			headers.Headers = newHeaders
-		}
+	//headers that are already stored are skipped
+	stored, err := n.storeHeaders(headers.Headers...)
+	if err != nil {
+		n.retrySync()
+		return err
 	}
 
-	if len(headers.Headers) > 0 {
-		for _, v := range headers.Headers {
-			select {
-			case n.blockHeadersCh <- *v:
-			case <-n.quit:
-				return nil
-			}
-		}
-
+	if stored > 0 {
 		log.Debugf("node: local tip: %v", headers.Headers[len(headers.Headers)-1].Height)
 		log.Debugf("node: peers tip: %v", p.PeersTip())
 
diff --git a/pkg/node/node.go b/pkg/node/node.go
index 6820d15..7bcd0c3 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -16,6 +16,7 @@ import (
 	"io"
 	"runtime/debug"
 	"sync"
+	"sync/atomic"
 )
 
 const (
@@ -49,9 +50,12 @@ type node struct {
 	UserAgent string
 
 	compactFiltersCh chan protocol.MsgCFilter
-	blockHeadersCh   chan block.Header
 	filtersDb        repository.FilterRepository
 	blockHeadersDb   repository.BlockHeaderRepository
+	// chainMutex makes sure that headers are appended one after the other
+	chainMutex sync.Mutex
+	// retryingSync is set while a synchronisation is scheduled
+	retryingSync atomic.Bool
 
 	memPool MemPool
 
@@ -90,7 +94,6 @@ func New(config NodeConfig) (NodeService, error) {
 		UserAgent:   config.UserAgent,
 
 		compactFiltersCh: make(chan protocol.MsgCFilter),
-		blockHeadersCh:   make(chan block.Header),
 		filtersDb:        config.FiltersDB,
 		blockHeadersDb:   config.BlockHeadersDB,
 		memPool:          NewMemPool(),
@@ -146,7 +149,6 @@ func (n *node) Start(initialOutboundPeerAddr string) error {
 	}
 
 	go n.monitorPeers()
-	go n.monitorBlockHeaders()
 	go n.monitorCFilters()
 	go n.checkSyncedInitial(initialPeer)
 
@@ -411,50 +413,6 @@ func (n *node) disconnectPeer(peerID peer.PeerID) {
 	delete(n.peersPongCh, peerID)
 }
 
-// monitorBlockHeaders monitors new block headers coming from peers.
-func (n *node) monitorBlockHeaders() {
-	for {
-		select {
-		case <-n.quit:
-			return
-		case newHeader := <-n.blockHeadersCh:
-			err := n.blockHeadersDb.WriteHeaders(context.Background(), newHeader)
-			if err != nil {
-				logrus.Error(err)
-				continue
-			}
-
-			log.Debugf("node: new block header: %v\n", newHeader.Height)
-
-			if bestPeer := n.getBestPeerForSync(); bestPeer != nil {
-				hash, err := newHeader.Hash()
-				if err != nil {
-					logrus.Error(err)
-					continue
-				}
-
-				getcFilter := protocol.MsgGetCFilters{
-					FilterType:  0,
-					StartHeight: newHeader.Height,
-					StopHash:    hash,
-				}
-
-				msg, err := protocol.NewMessage("getcfilters", n.Network, &getcFilter)
-				if err != nil {
-					logrus.Error(err)
-					continue
-				}
-
-				err = n.sendMessage(bestPeer.Connection(), msg)
-				if err != nil {
-					logrus.Error(err)
-					continue
-				}
-			}
-		}
-	}
-}
-
 // monitorCFilters monitors new cfilters comming from peers.
 func (n *node) monitorCFilters() {
 	for {
-- 
2.43.0


From 3366e064a7cca10cf2459c0a64ad427eca5967eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:02 +0000
Subject: [PATCH 21/54] fix: make the mempool safe to use concurrently and to
 stop

A transaction could be added after the block that confirms it was checked, known
transactions were announced again, the pool was read without its lock, and Stop
closed channels that callers and notifications were still sending on.
---
 pkg/node/mempool.go | 134 +++++++++++++++++++++++++-------------------
 1 file changed, 75 insertions(+), 59 deletions(-)

diff --git a/pkg/node/mempool.go b/pkg/node/mempool.go
index 92411d9..da9ff33 100644
--- a/pkg/node/mempool.go
+++ b/pkg/node/mempool.go
@@ -17,8 +17,6 @@ const (
 )
 
 type MemPool struct {
-	//txChan receives new transactions from the network
-	txChan chan protocol.MsgTx
 	//quitChan receives a quit signal
 	quitChan chan struct{}
 
@@ -31,15 +29,17 @@ type MemPool struct {
 	txSubscribersMutex *sync.RWMutex
 	//txSubscribers is a list of subscribers listening for new transactions
 	txSubscribers []txSubscriber
+	//notifications counts the events being delivered to subscribers
+	notifications *sync.WaitGroup
 }
 
 func NewMemPool() MemPool {
 	return MemPool{
-		txChan:             make(chan protocol.MsgTx),
 		txs:                make(map[string]txData),
 		quitChan:           make(chan struct{}),
 		txsMutex:           new(sync.RWMutex),
 		txSubscribersMutex: new(sync.RWMutex),
+		notifications:      new(sync.WaitGroup),
 	}
 }
 
@@ -88,18 +88,33 @@ type txSubscriber struct {
 
 func (m *MemPool) Start() {
 	log.Debugln("mem-pool: mem-pool started")
-	go m.listenForNewTxs()
 }
 
 func (m *MemPool) Stop() {
-	close(m.txChan)
+	m.txSubscribersMutex.Lock()
+	defer m.txSubscribersMutex.Unlock()
+
+	if m.isStopped() {
+		return
+	}
 	close(m.quitChan)
-	subs := m.getSubscribersSafe()
-	for _, v := range subs {
+
+	// no event is being sent anymore when the channels are closed
+	m.notifications.Wait()
+	for _, v := range m.txSubscribers {
 		close(v.txEvent)
 	}
 }
 
+func (m *MemPool) isStopped() bool {
+	select {
+	case <-m.quitChan:
+		return true
+	default:
+		return false
+	}
+}
+
 func (m *MemPool) GetMemPool() map[string]transaction.Transaction {
 	m.txsMutex.RLock()
 	defer m.txsMutex.RUnlock()
@@ -113,13 +128,37 @@ func (m *MemPool) GetMemPool() map[string]transaction.Transaction {
 }
 
 func (m *MemPool) AddTx(tx protocol.MsgTx) {
-	m.txChan <- tx
+	if m.isStopped() {
+		return
+	}
+
+	added := m.addTx(
+		tx.HashStr(),
+		txData{
+			tx:           tx.Transaction,
+			timeReceived: time.Now(),
+		},
+	)
+	if !added {
+		return
+	}
+
+	m.notifySubscribers(TxUnConfirmedEvent{
+		txID: tx.HashStr(),
+		tx:   tx.Transaction,
+	})
+
+	log.Debugf("tx %s added to memPool", tx.HashStr())
 }
 
 func (m *MemPool) AddSubscriber(id string) <-chan TxEvent {
 	m.txSubscribersMutex.Lock()
 	defer m.txSubscribersMutex.Unlock()
 	txEvent := make(chan TxEvent)
+	if m.isStopped() {
+		close(txEvent)
+		return txEvent
+	}
 	m.txSubscribers = append(m.txSubscribers, txSubscriber{
 		id:      id,
 		txEvent: txEvent,
@@ -128,32 +167,17 @@ func (m *MemPool) AddSubscriber(id string) <-chan TxEvent {
 	return txEvent
 }
 
-func (m *MemPool) getSubscribersSafe() []txSubscriber {
-	m.txSubscribersMutex.RLock()
-	defer m.txSubscribersMutex.RUnlock()
-
-	return m.txSubscribers
-}
-
 func (m *MemPool) CheckTxConfirmed(block block.Block) {
-	go m.checkTxConfirmed(block)
-}
-
-func (m *MemPool) checkTxConfirmed(block block.Block) {
-	//TODO: check if this is the best way to do this
-	for _, v := range m.txs {
-		for _, tx := range block.TransactionsData.Transactions {
-			if tx.TxHash().String() == v.tx.TxHash().String() {
-				if err := m.removeTxFromMemPool(v.tx.TxHash().String()); err != nil {
-					log.Errorln("failed to remove tx from memPool")
-				}
-
-				m.notifySubscribers(TxConfirmedEvent{
-					txID: tx.TxHash().String(),
-					tx:   *tx,
-				})
-			}
+	for _, tx := range block.TransactionsData.Transactions {
+		txID := tx.TxHash().String()
+		if err := m.removeTxFromMemPool(txID); err != nil {
+			continue
 		}
+
+		m.notifySubscribers(TxConfirmedEvent{
+			txID: txID,
+			tx:   *tx,
+		})
 	}
 }
 
@@ -168,44 +192,36 @@ func (m *MemPool) removeTxFromMemPool(txID string) error {
 	return errors.New("tx not found")
 }
 
-func (m *MemPool) addTx(txID string, txData txData) {
+// addTx returns false if the transaction is already in the memPool.
+func (m *MemPool) addTx(txID string, txData txData) bool {
 	m.txsMutex.Lock()
 	defer m.txsMutex.Unlock()
 
-	if _, ok := m.txs[txID]; !ok {
-		m.txs[txID] = txData
+	if _, ok := m.txs[txID]; ok {
+		return false
 	}
-}
 
-func (m *MemPool) listenForNewTxs() {
-	log.Debugln("mem-pool: listening for new transactions")
-
-	for tx := range m.txChan {
-		m.addTx(
-			tx.HashStr(),
-			txData{
-				tx:           tx.Transaction,
-				timeReceived: time.Now(),
-			},
-		)
+	m.txs[txID] = txData
+	return true
+}
 
-		m.notifySubscribers(TxUnConfirmedEvent{
-			txID: tx.HashStr(),
-			tx:   tx.Transaction,
-		})
+func (m *MemPool) notifySubscribers(txEvent TxEvent) {
+	m.txSubscribersMutex.RLock()
+	defer m.txSubscribersMutex.RUnlock()
 
-		log.Debugf("tx %s added to memPool", tx.HashStr())
+	if m.isStopped() {
+		return
 	}
 
-	log.Debugln("mem-pool: memPool listener stopped")
-}
-
-func (m *MemPool) notifySubscribers(txEvent TxEvent) {
-	subs := m.getSubscribersSafe()
-	for _, v := range subs {
+	for _, v := range m.txSubscribers {
+		m.notifications.Add(1)
 		go func(subscriber txSubscriber) {
+			defer m.notifications.Done()
 			log.Debugf("notifying subscriber %s of new tx started", subscriber.id)
-			subscriber.txEvent <- txEvent
+			select {
+			case subscriber.txEvent <- txEvent:
+			case <-m.quitChan:
+			}
 			log.Debugf("notifying subscriber %s of new tx done", subscriber.id)
 		}(v)
 	}
-- 
2.43.0


From 51e5b448301942783f15bb9ceeda60408cc94146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:39 +0000
Subject: [PATCH 22/54] fix: keep synchronising until the announced height is
 reached

A block or header announced while a request for headers was pending could leave
the headers above it unrequested.
---
 pkg/node/cmd_block.go   | 6 ++++++
 pkg/node/cmd_headers.go | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/pkg/node/cmd_block.go b/pkg/node/cmd_block.go
index 77da06f..cca5027 100644
--- a/pkg/node/cmd_block.go
+++ b/pkg/node/cmd_block.go
@@ -54,6 +54,12 @@ func (n *node) handleBlock(header *protocol.MessageHeader, payload io.Reader, p
 	if stored == 0 {
 		return nil
 	}
+
+	//the answer to a pending request may bring nothing new after this block
+	if newBlockHeight < p.PeersTip() {
+		n.sync(p)
+	}
+
 	n.memPool.CheckTxConfirmed(msgBlock.Block)
 
 	return nil
diff --git a/pkg/node/cmd_headers.go b/pkg/node/cmd_headers.go
index 63843cd..95ef014 100644
--- a/pkg/node/cmd_headers.go
+++ b/pkg/node/cmd_headers.go
@@ -47,6 +47,10 @@ func (n *node) handleHeaders(msgHeader *protocol.MessageHeader, payload io.Reade
 	//prevent storing un-sequenced headers in db, retry the request again
 	firstHeaderBlockHeight := headers.Headers[0].Height
 	lastHeaderBlockHeight := headers.Headers[len(headers.Headers)-1].Height
+	if lastHeaderBlockHeight > p.PeersTip() {
+		p.SetPeersTip(lastHeaderBlockHeight)
+	}
+
 	if firstHeaderBlockHeight > tip.Height+1 {
 		n.sync(p)
 		return nil
-- 
2.43.0


From b350328028b43b368670a57d2902810758bcbcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:35 +0000
Subject: [PATCH 23/54] fix: keep each header of a call in the in-memory store

The loop variable is shared by all iterations (go 1.18 semantics), so that every
header of a call was stored as the last one.
---
 internal/infrastructure/storage/db/inmemory/header_inmemory.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/infrastructure/storage/db/inmemory/header_inmemory.go b/internal/infrastructure/storage/db/inmemory/header_inmemory.go
index 72b9ff3..5535268 100644
--- a/internal/infrastructure/storage/db/inmemory/header_inmemory.go
+++ b/internal/infrastructure/storage/db/inmemory/header_inmemory.go
@@ -72,7 +72,8 @@ func (h *headerInmemory) WriteHeaders(_ context.Context, headers ...block.Header
 	h.locker.Lock()
 	defer h.locker.Unlock()
 
-	for _, header := range headers {
+	for i := range headers {
+		header := headers[i]
 		hash, err := header.Hash()
 		if err != nil {
 			logrus.Error(err)
-- 
2.43.0


From 939c304c0c3c91fbf0f784fd979e9f4ef55d969b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:35 +0000
Subject: [PATCH 24/54] fix: report an unknown hash in the ancestor check of
 the in-memory store

---
 internal/infrastructure/storage/db/inmemory/header_inmemory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/infrastructure/storage/db/inmemory/header_inmemory.go b/internal/infrastructure/storage/db/inmemory/header_inmemory.go
index 5535268..48bc1ae 100644
--- a/internal/infrastructure/storage/db/inmemory/header_inmemory.go
+++ b/internal/infrastructure/storage/db/inmemory/header_inmemory.go
@@ -166,6 +166,9 @@ func (h *headerInmemory) HasAllAncestors(_ context.Context, hash chainhash.Hash)
 	}
 
 	blockHeader := h.headers[hash]
+	if blockHeader == nil {
+		return false, repository.ErrBlockNotFound
+	}
 
 	for blockHeader.Height > 1 {
 		currentHash, err := chainhash.NewHash(blockHeader.PrevBlockHash)
-- 
2.43.0


From 5f911a8c39cbeacab37a5e827c96294d42dc88a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:35 +0000
Subject: [PATCH 25/54] fix: give the not-found error for an unknown height in
 the postgres store

---
 internal/infrastructure/storage/db/pg/header_repository_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/infrastructure/storage/db/pg/header_repository_impl.go b/internal/infrastructure/storage/db/pg/header_repository_impl.go
index 65a9ccf..58f4baa 100644
--- a/internal/infrastructure/storage/db/pg/header_repository_impl.go
+++ b/internal/infrastructure/storage/db/pg/header_repository_impl.go
@@ -253,7 +253,7 @@ func (h *headerRepositoryImpl) getBlockHeaderByHeight(height uint32) (*block.Hea
 	err := h.db.Db.Get(blockHeader, query, height)
 	if err != nil {
 		if err == sql.ErrNoRows {
-			return nil, repository.ErrNoBlocksHeaders
+			return nil, repository.ErrBlockNotFound
 		}
 
 		return nil, err
-- 
2.43.0


From 4966f5d5a8d7465376aa010aeab2d24c9dd32543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:35 +0000
Subject: [PATCH 26/54] fix: store the new headers of a call that repeats
 stored ones

A header that was already stored made the whole transaction roll back without an
error, and errors that do not come from the server made the type assertion panic.
---
 .../storage/db/pg/header_repository_impl.go           | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/internal/infrastructure/storage/db/pg/header_repository_impl.go b/internal/infrastructure/storage/db/pg/header_repository_impl.go
index 58f4baa..e0acd49 100644
--- a/internal/infrastructure/storage/db/pg/header_repository_impl.go
+++ b/internal/infrastructure/storage/db/pg/header_repository_impl.go
@@ -7,8 +7,6 @@ import (
 	"github.com/btcsuite/btcd/blockchain"
 	"github.com/btcsuite/btcd/chaincfg/chainhash"
 	"github.com/btcsuite/btcd/wire"
-	"github.com/lib/pq"
-	log "github.com/sirupsen/logrus"
 	"github.com/vulpemventures/go-elements/block"
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
@@ -120,15 +118,10 @@ func (h *headerRepositoryImpl) WriteHeaders(
 			HeaderBytes: headerBytes,
 		}
 
-		query := `INSERT INTO block_header (hash, height, header_bytes) VALUES (:hash, :height, :header_bytes);`
+		// a header that is already stored must not keep the others from being stored
+		query := `INSERT INTO block_header (hash, height, header_bytes) VALUES (:hash, :height, :header_bytes) ON CONFLICT (hash) DO NOTHING;`
 
 		if _, err = tx.NamedExec(query, bh); err != nil {
-			if pqErr := err.(*pq.Error); pqErr != nil {
-				if pqErr.Code == uniqueViolation {
-					log.Warnf("header already exists: %s", hash.String())
-					return nil
-				}
-			}
 			return err
 		}
 	}
-- 
2.43.0


From e19365ef1c38244d4463ef9e524ac3143a63814b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:35 +0000
Subject: [PATCH 27/54] fix: report database errors that do not come from the
 server when storing a filter

---
 .../storage/db/pg/filter_repository_impl.go   | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/internal/infrastructure/storage/db/pg/filter_repository_impl.go b/internal/infrastructure/storage/db/pg/filter_repository_impl.go
index d38871f..5bfda34 100644
--- a/internal/infrastructure/storage/db/pg/filter_repository_impl.go
+++ b/internal/infrastructure/storage/db/pg/filter_repository_impl.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"context"
 	"database/sql"
+	"errors"
 	"fmt"
 	"github.com/lib/pq"
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
@@ -49,19 +50,18 @@ func (f filterRepositoryImpl) PutFilter(
 		&filter,
 	)
 	if err != nil {
-		if pqErr := err.(*pq.Error); pqErr != nil {
-			if pqErr.Code == uniqueViolation {
-				f, err := f.GetFilter(ctx, entry.Key)
-				if err != nil {
-					return fmt.Errorf("PutFilter -> failed to get filter: %w", err)
-				}
-
-				if !bytes.Equal(f.NBytes, entry.NBytes) {
-					return fmt.Errorf("PutFilter -> filter already exists but with different value")
-				}
+		var pqErr *pq.Error
+		if errors.As(err, &pqErr) && pqErr.Code == uniqueViolation {
+			f, err := f.GetFilter(ctx, entry.Key)
+			if err != nil {
+				return fmt.Errorf("PutFilter -> failed to get filter: %w", err)
+			}
 
-				return nil
+			if !bytes.Equal(f.NBytes, entry.NBytes) {
+				return fmt.Errorf("PutFilter -> filter already exists but with different value")
 			}
+
+			return nil
 		}
 		return err
 	}
-- 
2.43.0


From 539c9d624827fea97fff7b22c1c819695e25cc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:35 +0000
Subject: [PATCH 28/54] fix: report a failure to read all the headers

---
 .../storage/db/pg/header_repository_impl.go               | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/infrastructure/storage/db/pg/header_repository_impl.go b/internal/infrastructure/storage/db/pg/header_repository_impl.go
index e0acd49..b400792 100644
--- a/internal/infrastructure/storage/db/pg/header_repository_impl.go
+++ b/internal/infrastructure/storage/db/pg/header_repository_impl.go
@@ -265,8 +265,12 @@ func (h *headerRepositoryImpl) getAllBlockHeaders() ([]*block.Header, error) {
 
 	blockHeaders := []*BlockHeader{}
 	err := h.db.Db.Select(&blockHeaders, query)
-	if err == sql.ErrNoRows {
-		return nil, repository.ErrNoBlocksHeaders
+	if err != nil {
+		if err == sql.ErrNoRows {
+			return nil, repository.ErrNoBlocksHeaders
+		}
+
+		return nil, err
 	}
 
 	var headers []*block.Header
-- 
2.43.0


From 3380f32783014c61f254f2532732ba2207467e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:35 +0000
Subject: [PATCH 29/54] fix: report a gap in the stored headers when building a
 block locator

---
 .../infrastructure/storage/db/pg/header_repository_impl.go   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/infrastructure/storage/db/pg/header_repository_impl.go b/internal/infrastructure/storage/db/pg/header_repository_impl.go
index b400792..a8eac7c 100644
--- a/internal/infrastructure/storage/db/pg/header_repository_impl.go
+++ b/internal/infrastructure/storage/db/pg/header_repository_impl.go
@@ -214,7 +214,10 @@ func (h *headerRepositoryImpl) blockLocatorFromHash(blck *block.Header) (blockch
 	height := blck.Height
 	decrement := uint32(1)
 	for height > 0 && len(locator) < wire.MaxBlockLocatorsPerMsg {
-		blockHeader, _ := headersMap[height]
+		blockHeader, ok := headersMap[height]
+		if !ok {
+			return nil, repository.ErrBlockNotFound
+		}
 
 		headerHash, err := blockHeader.Hash()
 		if err != nil {
-- 
2.43.0


From 91cbac8d1000278766ee1f0874a317e0afe197e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:35 +0000
Subject: [PATCH 30/54] fix: do not write past the block hash of a filter key

---
 pkg/repository/filter_repository.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/repository/filter_repository.go b/pkg/repository/filter_repository.go
index e132e10..cf17e5b 100644
--- a/pkg/repository/filter_repository.go
+++ b/pkg/repository/filter_repository.go
@@ -53,6 +53,8 @@ type FilterKey struct {
 }
 
 func (k FilterKey) String() string {
-	hashedKey := btcutil.Hash160(append(k.BlockHash, byte(k.FilterType)))
+	// do not write to the array of the block hash
+	key := append(append([]byte{}, k.BlockHash...), byte(k.FilterType))
+	hashedKey := btcutil.Hash160(key)
 	return hex.EncodeToString(hashedKey[:6])
 }
-- 
2.43.0


From 0f877bb20e094c5ee089b72f0715de1bcefe5197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:43 +0000
Subject: [PATCH 31/54] fix: put a persistent request back only once per block

---
 pkg/scanner/scanner.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index d0a321c..42bb245 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -251,16 +251,23 @@ func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Re
 			for _, report := range reports {
 				// send the report to the output channel
 				reportsChan <- report
+			}
 
-				// if the request is persistent, the scanner will keep watching the item at the next block height
-				if report.Request.IsPersistent {
-					s.Watch(
-						WithRequestID(report.Request.ClientID),
-						WithStartBlock(report.BlockHeight+1),
-						WithWatchItem(report.Request.Item),
-						WithPersistentWatch(),
-					)
+			// if the request is persistent, the scanner will keep watching the item at the next block height
+			// several transactions of the block may resolve the same request: it is put back only once
+			requeued := make(map[*ScanRequest]struct{})
+			for _, report := range reports {
+				if _, ok := requeued[report.Request]; ok || !report.Request.IsPersistent {
+					continue
 				}
+
+				requeued[report.Request] = struct{}{}
+				s.Watch(
+					WithRequestID(report.Request.ClientID),
+					WithStartBlock(nextHeight+1),
+					WithWatchItem(report.Request.Item),
+					WithPersistentWatch(),
+				)
 			}
 
 			// if some requests remain, put them back in the next batch
-- 
2.43.0


From 5653376dd6ef8d45dfbde9a32aa6446e8cbaaf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:43 +0000
Subject: [PATCH 32/54] fix: serve the scan requests from the lowest start
 height, without spinning

---
 pkg/scanner/request.go      |  6 +++
 pkg/scanner/requestqueue.go | 39 +++++++++++-------
 pkg/scanner/scanner.go      | 82 +++++++++++++++++++------------------
 3 files changed, 74 insertions(+), 53 deletions(-)

diff --git a/pkg/scanner/request.go b/pkg/scanner/request.go
index 820b6fe..4c84e69 100644
--- a/pkg/scanner/request.go
+++ b/pkg/scanner/request.go
@@ -46,3 +46,9 @@ func newScanRequest(options ...ScanRequestOption) *ScanRequest {
 	}
 	return req
 }
+
+// startingAt returns a copy of the request with another start height
+func (req ScanRequest) startingAt(height uint32) *ScanRequest {
+	req.StartHeight = height
+	return &req
+}
diff --git a/pkg/scanner/requestqueue.go b/pkg/scanner/requestqueue.go
index 7e014c0..4bd5dd3 100644
--- a/pkg/scanner/requestqueue.go
+++ b/pkg/scanner/requestqueue.go
@@ -7,7 +7,8 @@ import (
 type scanRequestQueue struct {
 	requests []*ScanRequest
 	locker   sync.Locker
-	cond     sync.Cond
+	// wake holds a token whenever new requests have been enqueued since the last time it was read
+	wake chan struct{}
 }
 
 func newScanRequestQueue() *scanRequestQueue {
@@ -15,7 +16,7 @@ func newScanRequestQueue() *scanRequestQueue {
 	return &scanRequestQueue{
 		requests: make([]*ScanRequest, 0),
 		locker:   new(sync.Mutex),
-		cond:     sync.Cond{L: &sync.Mutex{}},
+		wake:     make(chan struct{}, 1),
 	}
 }
 
@@ -37,28 +38,38 @@ func (queue *scanRequestQueue) dequeueAtHeight(height uint32) []*ScanRequest {
 	return selected
 }
 
+// enqueue adds a new request and wakes up the requests manager
 func (queue *scanRequestQueue) enqueue(req *ScanRequest) {
-	queue.locker.Lock()
-	defer queue.locker.Unlock()
-	defer queue.cond.Signal()
+	queue.requeue(req)
 
-	queue.requests = append(queue.requests, req)
+	select {
+	case queue.wake <- struct{}{}:
+	default: // already awake
+	}
 }
 
-func (queue *scanRequestQueue) peek() *ScanRequest {
+// requeue puts back a request without waking up the requests manager
+func (queue *scanRequestQueue) requeue(req *ScanRequest) {
 	queue.locker.Lock()
 	defer queue.locker.Unlock()
 
-	if len(queue.requests) == 0 {
-		return nil
-	}
-
-	return queue.requests[0]
+	queue.requests = append(queue.requests, req)
 }
 
-func (queue *scanRequestQueue) isEmpty() bool {
+// nextHeight returns the lowest start height of the requests starting at "from" or above
+// it returns false if there is no such request
+func (queue *scanRequestQueue) nextHeight(from uint32) (uint32, bool) {
 	queue.locker.Lock()
 	defer queue.locker.Unlock()
 
-	return len(queue.requests) == 0
+	var lowest uint32
+	found := false
+	for _, req := range queue.requests {
+		if req.StartHeight >= from && (!found || req.StartHeight < lowest) {
+			lowest = req.StartHeight
+			found = true
+		}
+	}
+
+	return lowest, found
 }
diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 42bb245..4c93823 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -3,6 +3,9 @@ package scanner
 import (
 	"context"
 	"fmt"
+	"math"
+	"time"
+
 	"github.com/google/uuid"
 
 	"github.com/vulpemventures/go-elements/descriptor"
@@ -22,6 +25,9 @@ const (
 	SpentUtxo
 
 	numOsScripts = 100
+
+	// pollInterval is how often the scanner looks for new blocks when it has nothing else to do
+	pollInterval = 500 * time.Millisecond
 )
 
 type EventType int
@@ -171,54 +177,57 @@ func (s *scannerService) requestsManager(ch chan<- Report) {
 	defer close(s.quitCh)
 
 	for {
-		s.requestsQueue.cond.L.Lock()
-		for s.requestsQueue.isEmpty() {
-			logrus.Debug("scanner: scanner queue is empty, waiting for new requests")
-			s.requestsQueue.cond.Wait() // wait for new requests
-
-			// check if we should quit the routine
-			select {
-			case <-s.quitCh:
-				s.requestsQueue.cond.L.Unlock()
-				return
-			default:
-			}
-		}
-		s.requestsQueue.cond.L.Unlock()
-
-		// get the next request without removing it from the queue
-		nextRequest := s.requestsQueue.peek()
-		err := s.requestWorker(nextRequest.StartHeight, ch)
-		if err != nil {
-			logrus.Errorf("error while scanning: %v", err)
-		}
+		s.handleRequests(ch)
 
-		// check if we should quit the routine
+		// everything that can be resolved has been: wait for new requests or new blocks
 		select {
 		case <-s.quitCh:
 			return
-		default:
-			continue
+		case <-s.requestsQueue.wake:
+		case <-time.After(pollInterval):
+		}
+	}
+}
+
+// handleRequests scans the chain for all the requests of the queue, from the lowest start height to the tip
+func (s *scannerService) handleRequests(ch chan<- Report) {
+	height, ok := s.requestsQueue.nextHeight(0)
+	for ok {
+		nextHeight, err := s.requestWorker(height, ch)
+		if err != nil {
+			logrus.Errorf("error while scanning: %v", err)
+			// do not let the other requests wait for that one
+			if nextHeight == math.MaxUint32 {
+				return
+			}
+			nextHeight++
+		} else if nextHeight == height {
+			return // the chain did not reach the request's start height yet
 		}
 
+		height, ok = s.requestsQueue.nextHeight(nextHeight)
 	}
 }
 
 // will check if any blocks has the requested item
 // if yes, will extract the transaction that match the item
+// it returns the height of the first block that has not been scanned
 // TODO handle properly errors (enqueue the unresolved requests ??)
-func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Report) error {
+func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Report) (uint32, error) {
 	nextBatch := make([]*ScanRequest, 0)
 	nextHeight := startHeight
 
 	chainTip, err := s.headerDB.ChainTip(context.Background())
 	if err != nil {
-		return err
+		return nextHeight, err
 	}
 
 	for nextHeight <= chainTip.Height {
 		// append all the requests with start height = nextHeight
 		nextBatch = append(nextBatch, s.requestsQueue.dequeueAtHeight(nextHeight)...)
+		if len(nextBatch) == 0 {
+			return nextHeight, nil // nothing left to look for in the next blocks
+		}
 
 		itemsBytes := make([][]byte, len(nextBatch))
 		for i, req := range nextBatch {
@@ -232,20 +241,20 @@ func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Re
 		} else {
 			blockHash, err = s.headerDB.GetBlockHashByHeight(context.Background(), nextHeight)
 			if err != nil {
-				return err
+				return nextHeight, err
 			}
 		}
 
 		// check with filterDB if the block has one of the items
 		matched, err := s.blockFilterMatches(itemsBytes, blockHash)
 		if err != nil {
-			return err
+			return nextHeight, err
 		}
 
 		if matched {
 			reports, remainReqs, err := s.extractBlockMatches(blockHash, nextBatch)
 			if err != nil {
-				return err
+				return nextHeight, err
 			}
 
 			for _, report := range reports {
@@ -262,12 +271,7 @@ func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Re
 				}
 
 				requeued[report.Request] = struct{}{}
-				s.Watch(
-					WithRequestID(report.Request.ClientID),
-					WithStartBlock(nextHeight+1),
-					WithWatchItem(report.Request.Item),
-					WithPersistentWatch(),
-				)
+				s.requestsQueue.requeue(report.Request.startingAt(nextHeight + 1))
 			}
 
 			// if some requests remain, put them back in the next batch
@@ -281,16 +285,16 @@ func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Re
 
 		chainTip, err = s.headerDB.ChainTip(context.Background())
 		if err != nil {
-			return err
+			return nextHeight, err
 		}
 	}
 
-	// enqueue the remaining requests
+	// put back the remaining requests: the scan will go on when the chain grows
 	for _, req := range nextBatch {
-		s.requestsQueue.enqueue(req)
+		s.requestsQueue.requeue(req.startingAt(nextHeight))
 	}
 
-	return nil
+	return nextHeight, nil
 }
 
 func (s *scannerService) blockFilterMatches(items [][]byte, blockHash *chainhash.Hash) (bool, error) {
-- 
2.43.0


From a7822a83af2bd10bfaf3c853372b31dbb055cb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:16 +0000
Subject: [PATCH 33/54] fix: keep the scan requests when the scan fails

---
 pkg/scanner/scanner.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 4c93823..0c80e78 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -212,11 +212,18 @@ func (s *scannerService) handleRequests(ch chan<- Report) {
 // will check if any blocks has the requested item
 // if yes, will extract the transaction that match the item
 // it returns the height of the first block that has not been scanned
-// TODO handle properly errors (enqueue the unresolved requests ??)
 func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Report) (uint32, error) {
 	nextBatch := make([]*ScanRequest, 0)
 	nextHeight := startHeight
 
+	// put back the unresolved requests whenever the scan ends
+	// it will go on from there when the chain grows, or when what failed works again
+	defer func() {
+		for _, req := range nextBatch {
+			s.requestsQueue.requeue(req.startingAt(nextHeight))
+		}
+	}()
+
 	chainTip, err := s.headerDB.ChainTip(context.Background())
 	if err != nil {
 		return nextHeight, err
@@ -289,11 +296,6 @@ func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Re
 		}
 	}
 
-	// put back the remaining requests: the scan will go on when the chain grows
-	for _, req := range nextBatch {
-		s.requestsQueue.requeue(req.startingAt(nextHeight))
-	}
-
 	return nextHeight, nil
 }
 
-- 
2.43.0


From 1b644a0fc23adf1ec215698aaf17eed8ba8acd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:16 +0000
Subject: [PATCH 34/54] fix: check the blocks whose filter is missing or
 unusable

---
 pkg/scanner/scanner.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 0c80e78..7cd79ea 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -2,6 +2,7 @@ package scanner
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"math"
 	"time"
@@ -299,6 +300,7 @@ func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Re
 	return nextHeight, nil
 }
 
+// blockFilterMatches returns true if the block may contain one of the items
 func (s *scannerService) blockFilterMatches(items [][]byte, blockHash *chainhash.Hash) (bool, error) {
 	filterToFetchKey := repository.FilterKey{
 		BlockHash:  blockHash.CloneBytes(),
@@ -307,21 +309,25 @@ func (s *scannerService) blockFilterMatches(items [][]byte, blockHash *chainhash
 
 	filter, err := s.filterDB.GetFilter(context.Background(), filterToFetchKey)
 	if err != nil {
-		if err == repository.ErrFilterNotFound {
-			return false, nil
+		if errors.Is(err, repository.ErrFilterNotFound) {
+			// only the genesis block has no filter: the filter of any other block may come after its header,
+			// without it the block itself has to be checked
+			return !blockHash.IsEqual(s.genesisHash), nil
 		}
 		return false, err
 	}
 
 	gcsFilter, err := filter.GcsFilter()
 	if err != nil {
-		return false, err
+		log.Warnf("scanner: unusable filter for block %s: %v", blockHash, err)
+		return true, nil
 	}
 
 	key := builder.DeriveKey(blockHash)
 	matched, err := gcsFilter.MatchAny(key, items)
 	if err != nil {
-		return false, err
+		log.Warnf("scanner: unusable filter for block %s: %v", blockHash, err)
+		return true, nil
 	}
 
 	return matched, nil
-- 
2.43.0


From ac785c94dbd75b36892a3dd167d50f07f67044e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:17 +0000
Subject: [PATCH 35/54] fix: ask again for the blocks that the block service
 does not find

---
 pkg/scanner/scanner.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 7cd79ea..764a41b 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -29,6 +29,9 @@ const (
 
 	// pollInterval is how often the scanner looks for new blocks when it has nothing else to do
 	pollInterval = 500 * time.Millisecond
+
+	// missingBlockTimeout is how long a block that is not found is asked again before being skipped
+	missingBlockTimeout = 30 * time.Second
 )
 
 type EventType int
@@ -70,6 +73,8 @@ type scannerService struct {
 	genesisHash   *chainhash.Hash
 	blockService  blockservice.BlockService
 	quitCh        chan struct{}
+	// missingSince is when the block svc did not find a block for the first time
+	missingSince map[chainhash.Hash]time.Time
 }
 
 var _ Service = (*scannerService)(nil)
@@ -87,6 +92,7 @@ func New(
 		blockService:  blockSvc,
 		quitCh:        make(chan struct{}),
 		genesisHash:   genesisHash,
+		missingSince:  make(map[chainhash.Hash]time.Time),
 	}
 }
 
@@ -336,12 +342,20 @@ func (s *scannerService) blockFilterMatches(items [][]byte, blockHash *chainhash
 func (s *scannerService) extractBlockMatches(blockHash *chainhash.Hash, requests []*ScanRequest) ([]Report, []*ScanRequest, error) {
 	block, err := s.blockService.GetBlock(blockHash)
 	if err != nil {
-		if err == blockservice.ErrorBlockNotFound {
-			return nil, requests, nil // skip requests if block svc is not able to find the block
+		if errors.Is(err, blockservice.ErrorBlockNotFound) {
+			// the block svc may not know yet about a new block
+			since, ok := s.missingSince[*blockHash]
+			if !ok {
+				s.missingSince[*blockHash] = time.Now()
+			} else if time.Since(since) > missingBlockTimeout {
+				delete(s.missingSince, *blockHash)
+				return nil, requests, nil // skip requests if block svc is not able to find the block
+			}
 		}
 
 		return nil, nil, err
 	}
+	delete(s.missingSince, *blockHash)
 
 	results := make([]Report, 0)
 
-- 
2.43.0


From c06bcd89789fe98ddfd5262000f24c87942f5d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:42 +0000
Subject: [PATCH 36/54] fix: stop the scanner at any time, and go on from there
 when it is started again

---
 pkg/scanner/scanner.go | 128 ++++++++++++++++++++++++++++++++---------
 1 file changed, 101 insertions(+), 27 deletions(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 764a41b..ecf8531 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"math"
+	"sync"
 	"time"
 
 	"github.com/google/uuid"
@@ -14,6 +15,7 @@ import (
 	"github.com/btcsuite/btcd/btcutil/gcs/builder"
 	"github.com/btcsuite/btcd/chaincfg/chainhash"
 	"github.com/sirupsen/logrus"
+	"github.com/vulpemventures/go-elements/block"
 	"github.com/vulpemventures/go-elements/transaction"
 	"github.com/vulpemventures/neutrino-elements/pkg/blockservice"
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
@@ -66,13 +68,19 @@ type Service interface {
 }
 
 type scannerService struct {
+	// lifecycle serializes Start and Stop
+	lifecycle     sync.Mutex
 	started       bool
 	requestsQueue *scanRequestQueue
 	filterDB      repository.FilterRepository
 	headerDB      repository.BlockHeaderRepository
 	genesisHash   *chainhash.Hash
 	blockService  blockservice.BlockService
-	quitCh        chan struct{}
+	// quit cancels the context of the requests manager, which closes doneCh once it is over
+	quit   context.CancelFunc
+	doneCh chan struct{}
+	// undelivered are the reports that have been found but not delivered when the scanner was stopped
+	undelivered []Report
 	// missingSince is when the block svc did not find a block for the first time
 	missingSince map[chainhash.Hash]time.Time
 }
@@ -90,7 +98,6 @@ func New(
 		filterDB:      filterDB,
 		headerDB:      headerDB,
 		blockService:  blockSvc,
-		quitCh:        make(chan struct{}),
 		genesisHash:   genesisHash,
 		missingSince:  make(map[chainhash.Hash]time.Time),
 	}
@@ -99,25 +106,40 @@ func New(
 func (s *scannerService) Start() (<-chan Report, error) {
 	log.Debugln("scanner: starting scanner ...")
 
+	s.lifecycle.Lock()
+	defer s.lifecycle.Unlock()
+
 	if s.started {
 		return nil, fmt.Errorf("scanner already started")
 	}
 
-	s.quitCh = make(chan struct{}, 1)
+	ctx, quit := context.WithCancel(context.Background())
+	s.quit = quit
+	s.doneCh = make(chan struct{})
+	s.missingSince = make(map[chainhash.Hash]time.Time)
 	resultCh := make(chan Report)
 	// start the requests manager
-	go s.requestsManager(resultCh)
+	go s.requestsManager(ctx, s.doneCh, resultCh)
 
 	s.started = true
 	return resultCh, nil
 }
 
+// Stop stops the scanner and waits for the requests manager to be over
+// the unresolved requests stay in the queue: the scanner goes on with them if it is started again
 func (s *scannerService) Stop() {
 	log.Debugln("scanner: stopping scanner ...")
 
-	s.quitCh <- struct{}{}
+	s.lifecycle.Lock()
+	defer s.lifecycle.Unlock()
+
+	if !s.started {
+		return
+	}
+
+	s.quit()
+	<-s.doneCh
 	s.started = false
-	//s.requestsQueue = newScanRequestQueue() TODO: commented cause data race
 }
 
 func (s *scannerService) Watch(opts ...ScanRequestOption) {
@@ -180,15 +202,15 @@ func (s *scannerService) WatchDescriptorWallet(
 }
 
 // requestsManager is responsible to resolve the requests that are waiting for in the queue.
-func (s *scannerService) requestsManager(ch chan<- Report) {
-	defer close(s.quitCh)
+func (s *scannerService) requestsManager(ctx context.Context, doneCh chan<- struct{}, ch chan<- Report) {
+	defer close(doneCh)
 
 	for {
-		s.handleRequests(ch)
+		s.handleRequests(ctx, ch)
 
 		// everything that can be resolved has been: wait for new requests or new blocks
 		select {
-		case <-s.quitCh:
+		case <-ctx.Done():
 			return
 		case <-s.requestsQueue.wake:
 		case <-time.After(pollInterval):
@@ -196,11 +218,37 @@ func (s *scannerService) requestsManager(ch chan<- Report) {
 	}
 }
 
+// deliver sends the reports to the output channel
+// it returns an error, and keeps those that are left for the next start, if the scanner is stopped
+func (s *scannerService) deliver(ctx context.Context, ch chan<- Report, reports []Report) error {
+	s.undelivered = append(s.undelivered, reports...)
+
+	for len(s.undelivered) > 0 {
+		select {
+		case <-ctx.Done():
+			return ctx.Err()
+		case ch <- s.undelivered[0]:
+			s.undelivered = s.undelivered[1:]
+		}
+	}
+
+	return nil
+}
+
 // handleRequests scans the chain for all the requests of the queue, from the lowest start height to the tip
-func (s *scannerService) handleRequests(ch chan<- Report) {
+func (s *scannerService) handleRequests(ctx context.Context, ch chan<- Report) {
+	// start with what the scanner had already found before being stopped
+	if err := s.deliver(ctx, ch, nil); err != nil {
+		return
+	}
+
 	height, ok := s.requestsQueue.nextHeight(0)
 	for ok {
-		nextHeight, err := s.requestWorker(height, ch)
+		nextHeight, err := s.requestWorker(ctx, height, ch)
+		if ctx.Err() != nil {
+			return
+		}
+
 		if err != nil {
 			logrus.Errorf("error while scanning: %v", err)
 			// do not let the other requests wait for that one
@@ -219,7 +267,7 @@ func (s *scannerService) handleRequests(ch chan<- Report) {
 // will check if any blocks has the requested item
 // if yes, will extract the transaction that match the item
 // it returns the height of the first block that has not been scanned
-func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Report) (uint32, error) {
+func (s *scannerService) requestWorker(ctx context.Context, startHeight uint32, reportsChan chan<- Report) (uint32, error) {
 	nextBatch := make([]*ScanRequest, 0)
 	nextHeight := startHeight
 
@@ -231,12 +279,16 @@ func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Re
 		}
 	}()
 
-	chainTip, err := s.headerDB.ChainTip(context.Background())
+	chainTip, err := s.headerDB.ChainTip(ctx)
 	if err != nil {
 		return nextHeight, err
 	}
 
 	for nextHeight <= chainTip.Height {
+		if ctx.Err() != nil {
+			return nextHeight, ctx.Err()
+		}
+
 		// append all the requests with start height = nextHeight
 		nextBatch = append(nextBatch, s.requestsQueue.dequeueAtHeight(nextHeight)...)
 		if len(nextBatch) == 0 {
@@ -253,29 +305,24 @@ func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Re
 		if nextHeight == 0 {
 			blockHash = s.genesisHash
 		} else {
-			blockHash, err = s.headerDB.GetBlockHashByHeight(context.Background(), nextHeight)
+			blockHash, err = s.headerDB.GetBlockHashByHeight(ctx, nextHeight)
 			if err != nil {
 				return nextHeight, err
 			}
 		}
 
 		// check with filterDB if the block has one of the items
-		matched, err := s.blockFilterMatches(itemsBytes, blockHash)
+		matched, err := s.blockFilterMatches(ctx, itemsBytes, blockHash)
 		if err != nil {
 			return nextHeight, err
 		}
 
 		if matched {
-			reports, remainReqs, err := s.extractBlockMatches(blockHash, nextBatch)
+			reports, remainReqs, err := s.extractBlockMatches(ctx, blockHash, nextBatch)
 			if err != nil {
 				return nextHeight, err
 			}
 
-			for _, report := range reports {
-				// send the report to the output channel
-				reportsChan <- report
-			}
-
 			// if the request is persistent, the scanner will keep watching the item at the next block height
 			// several transactions of the block may resolve the same request: it is put back only once
 			requeued := make(map[*ScanRequest]struct{})
@@ -291,13 +338,19 @@ func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Re
 			// if some requests remain, put them back in the next batch
 			// this will remove the resolved requests from the batch
 			nextBatch = remainReqs
+
+			// send the reports to the output channel
+			if err := s.deliver(ctx, reportsChan, reports); err != nil {
+				nextHeight++ // the block has been scanned
+				return nextHeight, err
+			}
 		}
 
 		// increment the height to scan
 		// if nothing was found, we can just continue with same batch and next height
 		nextHeight++
 
-		chainTip, err = s.headerDB.ChainTip(context.Background())
+		chainTip, err = s.headerDB.ChainTip(ctx)
 		if err != nil {
 			return nextHeight, err
 		}
@@ -307,13 +360,13 @@ func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Re
 }
 
 // blockFilterMatches returns true if the block may contain one of the items
-func (s *scannerService) blockFilterMatches(items [][]byte, blockHash *chainhash.Hash) (bool, error) {
+func (s *scannerService) blockFilterMatches(ctx context.Context, items [][]byte, blockHash *chainhash.Hash) (bool, error) {
 	filterToFetchKey := repository.FilterKey{
 		BlockHash:  blockHash.CloneBytes(),
 		FilterType: repository.RegularFilter,
 	}
 
-	filter, err := s.filterDB.GetFilter(context.Background(), filterToFetchKey)
+	filter, err := s.filterDB.GetFilter(ctx, filterToFetchKey)
 	if err != nil {
 		if errors.Is(err, repository.ErrFilterNotFound) {
 			// only the genesis block has no filter: the filter of any other block may come after its header,
@@ -339,8 +392,8 @@ func (s *scannerService) blockFilterMatches(items [][]byte, blockHash *chainhash
 	return matched, nil
 }
 
-func (s *scannerService) extractBlockMatches(blockHash *chainhash.Hash, requests []*ScanRequest) ([]Report, []*ScanRequest, error) {
-	block, err := s.blockService.GetBlock(blockHash)
+func (s *scannerService) extractBlockMatches(ctx context.Context, blockHash *chainhash.Hash, requests []*ScanRequest) ([]Report, []*ScanRequest, error) {
+	block, err := s.getBlock(ctx, blockHash)
 	if err != nil {
 		if errors.Is(err, blockservice.ErrorBlockNotFound) {
 			// the block svc may not know yet about a new block
@@ -382,3 +435,24 @@ func (s *scannerService) extractBlockMatches(blockHash *chainhash.Hash, requests
 
 	return results, remainRequests, nil
 }
+
+// getBlock asks the block svc for a block, without waiting for it once the scanner is stopped
+func (s *scannerService) getBlock(ctx context.Context, blockHash *chainhash.Hash) (*block.Block, error) {
+	type result struct {
+		block *block.Block
+		err   error
+	}
+
+	resultCh := make(chan result, 1)
+	go func() {
+		b, err := s.blockService.GetBlock(blockHash)
+		resultCh <- result{b, err}
+	}()
+
+	select {
+	case <-ctx.Done():
+		return nil, ctx.Err()
+	case res := <-resultCh:
+		return res.block, res.err
+	}
+}
-- 
2.43.0


From c9bb977a053f6e3fc0c3c2c25390d2339faab937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:24 +0000
Subject: [PATCH 37/54] fix: refuse the descriptors that cannot be expanded,
 and watch their scripts once

---
 pkg/scanner/scanner.go | 90 +++++++++++++++++++++++++-----------------
 1 file changed, 54 insertions(+), 36 deletions(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index ecf8531..67a9cdd 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -153,52 +153,70 @@ func (s *scannerService) WatchDescriptorWallet(
 	eventType []EventType,
 	blockStart int,
 ) error {
+	scripts, err := descriptorScripts(desc)
+	if err != nil {
+		return err
+	}
+
+	watchUnspents := false
 	for _, v := range eventType {
 		switch v {
 		case UnspentUtxo:
-			wallet, err := descriptor.Parse(desc)
-			if err != nil {
-				return err
-			}
-
-			var scripts []descriptor.ScriptResponse
+			watchUnspents = true
+		}
+	}
 
-			if wallet.IsRange() {
-				scripts, err = wallet.Script(descriptor.WithRange(numOsScripts))
-				if err != nil {
-					return err
-				}
+	if !watchUnspents {
+		return nil
+	}
 
-				for _, v := range scripts {
-					s.Watch(
-						WithRequestID(requestID),
-						WithStartBlock(uint32(blockStart)),
-						WithWatchItem(&UnspentWatchItem{
-							outputScript: v.Script,
-						}),
-						WithPersistentWatch(),
-					)
-				}
-			} else {
-				scripts, err = wallet.Script(nil)
-				if err != nil {
-					return err
-				}
+	for _, script := range scripts {
+		s.Watch(
+			WithRequestID(requestID),
+			WithStartBlock(uint32(blockStart)),
+			WithWatchItem(&UnspentWatchItem{
+				outputScript: script,
+			}),
+			WithPersistentWatch(),
+		)
+	}
 
-				s.Watch(
-					WithRequestID(requestID),
-					WithStartBlock(uint32(blockStart)),
-					WithWatchItem(&UnspentWatchItem{
-						outputScript: scripts[0].Script,
-					}),
-					WithPersistentWatch(),
-				)
-			}
+	return nil
+}
 
+// descriptorScripts returns the script of the wallet descriptor, or the first ones if it is ranged
+func descriptorScripts(desc string) (scripts [][]byte, err error) {
+	// the parser does not expect some of the malformed descriptors
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("invalid descriptor: %v", r)
 		}
+	}()
+
+	wallet, err := descriptor.Parse(desc)
+	if err != nil {
+		return nil, err
 	}
 
-	return nil
+	if wallet == nil {
+		return nil, fmt.Errorf("unsupported descriptor")
+	}
+
+	var opts *descriptor.ScriptOpts
+	if wallet.IsRange() {
+		opts = descriptor.WithRange(numOsScripts)
+	}
+
+	responses, err := wallet.Script(opts)
+	if err != nil {
+		return nil, err
+	}
+
+	for _, response := range responses {
+		scripts = append(scripts, response.Script)
+	}
+
+	return scripts, nil
 }
 
 // requestsManager is responsible to resolve the requests that are waiting for in the queue.
-- 
2.43.0


From b9be492d68605a42994d68a9fa455334d2b30f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:25 +0000
Subject: [PATCH 38/54] fix: report once a transaction paying several scripts
 of a descriptor

---
 pkg/scanner/request.go      |  2 ++
 pkg/scanner/requestqueue.go | 12 +++++------
 pkg/scanner/scanner.go      | 43 ++++++++++++++++++++++++-------------
 3 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/pkg/scanner/request.go b/pkg/scanner/request.go
index 4c84e69..65f3c59 100644
--- a/pkg/scanner/request.go
+++ b/pkg/scanner/request.go
@@ -11,6 +11,8 @@ type ScanRequest struct {
 	Item WatchItem
 	// IsPersistent if true, the request will be re-added with StartHeight = StartHeiht + 1
 	IsPersistent bool
+	// group is shared by the requests of a same wallet descriptor
+	group uuid.UUID
 }
 
 type ScanRequestOption func(req *ScanRequest)
diff --git a/pkg/scanner/requestqueue.go b/pkg/scanner/requestqueue.go
index 4bd5dd3..0ecc637 100644
--- a/pkg/scanner/requestqueue.go
+++ b/pkg/scanner/requestqueue.go
@@ -38,9 +38,9 @@ func (queue *scanRequestQueue) dequeueAtHeight(height uint32) []*ScanRequest {
 	return selected
 }
 
-// enqueue adds a new request and wakes up the requests manager
-func (queue *scanRequestQueue) enqueue(req *ScanRequest) {
-	queue.requeue(req)
+// enqueue adds new requests and wakes up the requests manager
+func (queue *scanRequestQueue) enqueue(reqs ...*ScanRequest) {
+	queue.requeue(reqs...)
 
 	select {
 	case queue.wake <- struct{}{}:
@@ -48,12 +48,12 @@ func (queue *scanRequestQueue) enqueue(req *ScanRequest) {
 	}
 }
 
-// requeue puts back a request without waking up the requests manager
-func (queue *scanRequestQueue) requeue(req *ScanRequest) {
+// requeue puts back requests without waking up the requests manager
+func (queue *scanRequestQueue) requeue(reqs ...*ScanRequest) {
 	queue.locker.Lock()
 	defer queue.locker.Unlock()
 
-	queue.requests = append(queue.requests, req)
+	queue.requests = append(queue.requests, reqs...)
 }
 
 // nextHeight returns the lowest start height of the requests starting at "from" or above
diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 67a9cdd..b0fdf80 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -50,6 +50,12 @@ type Report struct {
 	Request *ScanRequest
 }
 
+// groupReport identifies a transaction reported for a group of requests
+type groupReport struct {
+	group       uuid.UUID
+	transaction *transaction.Transaction
+}
+
 type Service interface {
 	// Start runs a go-routine in order to handle incoming requests via Watch
 	Start() (<-chan Report, error)
@@ -170,8 +176,11 @@ func (s *scannerService) WatchDescriptorWallet(
 		return nil
 	}
 
+	// the requests are enqueued all together, a transaction paying several of the scripts is reported only once
+	group := uuid.New()
+	requests := make([]*ScanRequest, 0, len(scripts))
 	for _, script := range scripts {
-		s.Watch(
+		req := newScanRequest(
 			WithRequestID(requestID),
 			WithStartBlock(uint32(blockStart)),
 			WithWatchItem(&UnspentWatchItem{
@@ -179,7 +188,10 @@ func (s *scannerService) WatchDescriptorWallet(
 			}),
 			WithPersistentWatch(),
 		)
+		req.group = group
+		requests = append(requests, req)
 	}
+	s.requestsQueue.enqueue(requests...)
 
 	return nil
 }
@@ -341,20 +353,9 @@ func (s *scannerService) requestWorker(ctx context.Context, startHeight uint32,
 				return nextHeight, err
 			}
 
-			// if the request is persistent, the scanner will keep watching the item at the next block height
-			// several transactions of the block may resolve the same request: it is put back only once
-			requeued := make(map[*ScanRequest]struct{})
-			for _, report := range reports {
-				if _, ok := requeued[report.Request]; ok || !report.Request.IsPersistent {
-					continue
-				}
-
-				requeued[report.Request] = struct{}{}
-				s.requestsQueue.requeue(report.Request.startingAt(nextHeight + 1))
-			}
-
 			// if some requests remain, put them back in the next batch
-			// this will remove the resolved requests from the batch
+			// this will remove the resolved requests from the batch, except the persistent ones:
+			// the scanner will keep watching their items at the next block height
 			nextBatch = remainReqs
 
 			// send the reports to the output channel
@@ -430,6 +431,9 @@ func (s *scannerService) extractBlockMatches(ctx context.Context, blockHash *cha
 
 	results := make([]Report, 0)
 
+	// the transactions already reported for each group of requests
+	reported := make(map[groupReport]struct{})
+
 	remainRequests := make([]*ScanRequest, 0)
 
 	for _, req := range requests {
@@ -437,6 +441,15 @@ func (s *scannerService) extractBlockMatches(ctx context.Context, blockHash *cha
 		for _, tx := range block.TransactionsData.Transactions {
 			if req.Item.Match(tx) {
 				reqMatchedAtLeastOneTime = true
+
+				if req.group != uuid.Nil {
+					key := groupReport{req.group, tx}
+					if _, ok := reported[key]; ok {
+						continue
+					}
+					reported[key] = struct{}{}
+				}
+
 				results = append(results, Report{
 					Transaction: tx,
 					BlockHash:   blockHash,
@@ -446,7 +459,7 @@ func (s *scannerService) extractBlockMatches(ctx context.Context, blockHash *cha
 			}
 		}
 
-		if !reqMatchedAtLeastOneTime {
+		if !reqMatchedAtLeastOneTime || req.IsPersistent {
 			remainRequests = append(remainRequests, req)
 		}
 	}
-- 
2.43.0


From 1acc351c4e0b7e3e6721565b71d205014e8431e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:31 +0000
Subject: [PATCH 39/54] fix: keep the subscriptions isolated from each other

---
 .../core/application/notification_service.go  | 183 +++++++++++-------
 1 file changed, 112 insertions(+), 71 deletions(-)

diff --git a/internal/core/application/notification_service.go b/internal/core/application/notification_service.go
index 025786b..c05c883 100644
--- a/internal/core/application/notification_service.go
+++ b/internal/core/application/notification_service.go
@@ -6,6 +6,7 @@ import (
 	log "github.com/sirupsen/logrus"
 	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
 	"runtime/debug"
+	"sync"
 )
 
 type NotificationService interface {
@@ -18,45 +19,39 @@ type NotificationService interface {
 }
 
 type notificationService struct {
-	// subscribers is a map of subscriber IDs and Subscribers with wallet descriptors
-	subscribers map[SubscriberID]Subscriber
+	// subscribersLock protects subscribers and watches
+	subscribersLock sync.RWMutex
+	// subscribers holds the subscribers and the ids of the watches made for them
+	subscribers map[SubscriberID][]uuid.UUID
+	// watches holds the subscriber of each watch
+	watches map[uuid.UUID]SubscriberID
 	// scannerSvc is the scanner service used to watch on-chain events
 	scannerSvc scanner.Service
 
-	// registerSubs is a channel used to register subscribers
-	registerSubs chan Subscriber
-	// unregisterSubs is a channel used to unregister subscribers
-	unregisterSubs chan Subscriber
-
 	// subsEventReport is a channel used to report events to subscribers
 	subsEventReport chan SubscriberEventReport
 	// subsErrorReport is a channel used to report errors to subscribers
 	subsErrorReport chan SubscriberErrorReport
 
-	// quitHandleOnChainEvents is a channel used to stop handleOnChainEvents
-	quitHandleOnChainEvents chan struct{}
-	// quitHandleOnChainEvents is a channel used to stop handleOnChainEvents
-	quitHandleSubscribers chan struct{}
+	// quit is closed when the service is stopped
+	quit     chan struct{}
+	stopOnce sync.Once
 }
 
 func NewNotificationService(
 	scannerSvc scanner.Service,
 ) NotificationService {
 	return &notificationService{
-		subscribers:             make(map[SubscriberID]Subscriber),
-		scannerSvc:              scannerSvc,
-		registerSubs:            make(chan Subscriber),
-		unregisterSubs:          make(chan Subscriber),
-		subsEventReport:         make(chan SubscriberEventReport),
-		subsErrorReport:         make(chan SubscriberErrorReport),
-		quitHandleOnChainEvents: make(chan struct{}),
-		quitHandleSubscribers:   make(chan struct{}),
+		subscribers:     make(map[SubscriberID][]uuid.UUID),
+		watches:         make(map[uuid.UUID]SubscriberID),
+		scannerSvc:      scannerSvc,
+		subsEventReport: make(chan SubscriberEventReport),
+		subsErrorReport: make(chan SubscriberErrorReport),
+		quit:            make(chan struct{}),
 	}
 }
 
 func (n *notificationService) Start() error {
-	go n.handleSubscribers()
-
 	scannerReport, err := n.scannerSvc.Start()
 	if err != nil {
 		return err
@@ -77,10 +72,10 @@ func (n *notificationService) ErrorReport() chan SubscriberErrorReport {
 }
 
 func (n *notificationService) Stop() {
-	log.Debug("sss")
-	n.quitHandleOnChainEvents <- struct{}{}
-	n.quitHandleSubscribers <- struct{}{}
-	log.Debug("sssdsds")
+	n.stopOnce.Do(func() {
+		close(n.quit)
+	})
+	log.Debug("notification-service stopped")
 }
 
 func (n *notificationService) handleOnChainEvents(scannerReport <-chan scanner.Report) {
@@ -92,51 +87,29 @@ func (n *notificationService) handleOnChainEvents(scannerReport <-chan scanner.R
 	}()
 	for {
 		select {
-		case report := <-scannerReport:
-			n.subsEventReport <- SubscriberEventReport{
-				SubscriberID: SubscriberID(report.Request.ClientID),
+		case report, ok := <-scannerReport:
+			if !ok {
+				return
+			}
+
+			subscriberID, ok := n.getSubscriber(report.Request.ClientID)
+			if !ok {
+				continue // un-subscribed in the meantime
+			}
+
+			select {
+			case n.subsEventReport <- SubscriberEventReport{
+				SubscriberID: subscriberID,
 				EventType:    report.Request.Item.EventType(),
 				BlockHeight:  int(report.BlockHeight),
 				BlockHash:    report.BlockHash,
 				Transaction:  report.Transaction,
-			}
-		case <-n.quitHandleOnChainEvents:
-			log.Debug("notificationService -> handleOnChainEvents stopped")
-			return
-		}
-	}
-}
-
-func (n *notificationService) handleSubscribers() {
-	defer func() {
-		if err := recover(); err != nil {
-			log.Errorf("handleSubscribers recovered from panic: %v", err)
-			log.Tracef("handleSubscribers recovered from panic: %v", string(debug.Stack()))
-		}
-	}()
-
-	for {
-		select {
-		case sub := <-n.registerSubs:
-			n.subscribers[sub.ID] = sub
-
-			if err := n.scannerSvc.WatchDescriptorWallet(
-				uuid.UUID(sub.ID),
-				sub.WalletDescriptor,
-				sub.Events,
-				sub.BlockHeight,
-			); err != nil {
-				n.subsErrorReport <- SubscriberErrorReport{
-					SubscriberID: sub.ID,
-					ErrorMsg:     err,
-				}
-
+			}:
+			case <-n.quit:
 				return
 			}
-		case sub := <-n.unregisterSubs:
-			delete(n.subscribers, sub.ID)
-		case <-n.quitHandleSubscribers:
-			log.Debug("notificationService -> handleSubscribers stopped")
+		case <-n.quit:
+			log.Debug("notificationService -> handleOnChainEvents stopped")
 			return
 		}
 	}
@@ -149,22 +122,90 @@ func (n *notificationService) Subscribe(
 		return err
 	}
 
-	go func() {
-		n.registerSubs <- subscriber
-	}()
+	watchID := n.addWatch(subscriber.ID)
+
+	if err := n.scannerSvc.WatchDescriptorWallet(
+		watchID,
+		subscriber.WalletDescriptor,
+		subscriber.Events,
+		subscriber.BlockHeight,
+	); err != nil {
+		n.removeWatch(watchID)
+
+		// the subscriber is told about it once it knows that its request has been received
+		go func() {
+			select {
+			case n.subsErrorReport <- SubscriberErrorReport{
+				SubscriberID: subscriber.ID,
+				ErrorMsg:     err,
+			}:
+			case <-n.quit:
+			}
+		}()
+	}
 
 	return nil
 }
 
 func (n *notificationService) UnSubscribe(subscriber Subscriber) error {
-	_, ok := n.subscribers[subscriber.ID]
+	n.subscribersLock.Lock()
+	defer n.subscribersLock.Unlock()
+
+	watches, ok := n.subscribers[subscriber.ID]
 	if !ok {
 		return errors.New("subscriber not found")
 	}
 
-	go func() {
-		n.unregisterSubs <- subscriber
-	}()
+	for _, watchID := range watches {
+		delete(n.watches, watchID)
+	}
+	delete(n.subscribers, subscriber.ID)
 
 	return nil
 }
+
+// addWatch returns the id of a new watch of the subscriber
+func (n *notificationService) addWatch(subscriberID SubscriberID) uuid.UUID {
+	n.subscribersLock.Lock()
+	defer n.subscribersLock.Unlock()
+
+	watchID := uuid.New()
+	n.watches[watchID] = subscriberID
+	n.subscribers[subscriberID] = append(n.subscribers[subscriberID], watchID)
+
+	return watchID
+}
+
+// removeWatch removes a watch, and its subscriber if it has no other
+func (n *notificationService) removeWatch(watchID uuid.UUID) {
+	n.subscribersLock.Lock()
+	defer n.subscribersLock.Unlock()
+
+	subscriberID, ok := n.watches[watchID]
+	if !ok {
+		return
+	}
+	delete(n.watches, watchID)
+
+	var others []uuid.UUID
+	for _, id := range n.subscribers[subscriberID] {
+		if id != watchID {
+			others = append(others, id)
+		}
+	}
+
+	if len(others) == 0 {
+		delete(n.subscribers, subscriberID)
+		return
+	}
+	n.subscribers[subscriberID] = others
+}
+
+// getSubscriber returns the subscriber of a watch
+func (n *notificationService) getSubscriber(watchID uuid.UUID) (SubscriberID, bool) {
+	n.subscribersLock.RLock()
+	defer n.subscribersLock.RUnlock()
+
+	subscriberID, ok := n.watches[watchID]
+	return subscriberID, ok
+}
-- 
2.43.0


From ea6226c00cf8f5407803f7c0177244c5edb95014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:31 +0000
Subject: [PATCH 40/54] fix: refuse the block heights and event types that
 cannot be watched

---
 internal/core/application/types.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/core/application/types.go b/internal/core/application/types.go
index a32f73e..d53625b 100644
--- a/internal/core/application/types.go
+++ b/internal/core/application/types.go
@@ -1,6 +1,8 @@
 package application
 
 import (
+	"math"
+
 	"github.com/btcsuite/btcd/chaincfg/chainhash"
 	"github.com/google/uuid"
 	"github.com/vulpemventures/go-elements/transaction"
@@ -22,8 +24,12 @@ func (s *Subscriber) validate() error {
 	return validation.ValidateStruct(
 		s,
 		validation.Field(&s.ID, validation.Required),
-		validation.Field(&s.BlockHeight, validation.Min(1)),
-		validation.Field(&s.Events, validation.Required),
+		validation.Field(&s.BlockHeight, validation.Min(0), validation.Max(math.MaxInt32)),
+		validation.Field(
+			&s.Events,
+			validation.Required,
+			validation.Each(validation.In(scanner.UnspentUtxo, scanner.SpentUtxo)),
+		),
 		validation.Field(&s.WalletDescriptor, validation.Required),
 	)
 }
-- 
2.43.0


From 9332168a411bdc8bf041cdea9e4c78b02a5b22c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:53 +0000
Subject: [PATCH 41/54] fix: serve every subscriber whatever the others do

The websocket and http handlers now route the reports from one place, without
blocking on the registration of subscribers, skip the subscribers that are gone,
answer exactly once each request, keep serving a socket after a malformed
message, unsubscribe it when it ends, and can be stopped at any time.
---
 .../web-socket/handler/http_handler.go        |  13 +-
 .../handler/notification_handler.go           | 175 +++++++-----------
 .../interface/web-socket/handler/types.go     |   4 +
 .../web-socket/handler/ws_handler.go          |  60 ++++--
 4 files changed, 119 insertions(+), 133 deletions(-)

diff --git a/internal/interface/web-socket/handler/http_handler.go b/internal/interface/web-socket/handler/http_handler.go
index 8894a8f..b6c0ead 100644
--- a/internal/interface/web-socket/handler/http_handler.go
+++ b/internal/interface/web-socket/handler/http_handler.go
@@ -22,13 +22,13 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 	}
 
 	subsID := uuid.New()
-	d.registerSubs <- &HttpSubscriber{
-		ID:          SubscriberID(subsID),
-		EndpointUrl: subscriptionReq.EndpointUrl,
-	}
-
 	switch subscriptionReq.ActionType {
 	case neutrinodtypes.Register:
+		d.addSubscriberSafe(&HttpSubscriber{
+			ID:          SubscriberID(subsID),
+			EndpointUrl: subscriptionReq.EndpointUrl,
+		})
+
 		if err := d.notificationSvc.Subscribe(application.Subscriber{
 			ID:               application.SubscriberID(subsID),
 			BlockHeight:      subscriptionReq.StartBlockHeight,
@@ -36,11 +36,13 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 			WalletDescriptor: subscriptionReq.DescriptorWallet,
 		}); err != nil {
 			log.Errorf("unsucesfull registration: %v, subscriber: %v", err, subsID)
+			d.deleteSubscriberSafe(SubscriberID(subsID))
 
 			resp := neutrinodtypes.MessageErrorResponse{
 				ErrorMessage: "un-successful registration",
 			}
 			sendResponseToSubscriberHttp(w, resp)
+			return
 		}
 		log.Infof("sucesfull registration, subscriber: %v", subsID)
 
@@ -58,6 +60,7 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 				ErrorMessage: "un-successful un-registration",
 			}
 			sendResponseToSubscriberHttp(w, resp)
+			return
 		}
 
 		log.Infof("sucesfull un-registration: %v, subscriber: %v", err, subsID)
diff --git a/internal/interface/web-socket/handler/notification_handler.go b/internal/interface/web-socket/handler/notification_handler.go
index fd4b6e8..256bc8a 100644
--- a/internal/interface/web-socket/handler/notification_handler.go
+++ b/internal/interface/web-socket/handler/notification_handler.go
@@ -3,7 +3,6 @@ package handler
 import (
 	"bytes"
 	"encoding/json"
-	"github.com/google/uuid"
 	log "github.com/sirupsen/logrus"
 	"github.com/vulpemventures/neutrino-elements/internal/core/application"
 	neutrinodtypes "github.com/vulpemventures/neutrino-elements/pkg/neutrinod-types"
@@ -15,6 +14,8 @@ import (
 
 const (
 	maxMessageSize = 512
+	// writeTimeout is how long sending a message to a ws subscriber can take
+	writeTimeout = 5 * time.Second
 
 	wsType   SubscriberType = "ws"
 	httpType SubscriberType = "http"
@@ -32,15 +33,10 @@ type descriptorWalletNotifierHandler struct {
 	subscribers map[SubscriberID]Subscriber
 	// subscribersLock is a mutex for subscribers map
 	subscribersLock *sync.RWMutex
-	// registerSubs is a channel for registering subscribers
-	registerSubs chan Subscriber
-	// unregisterSubs is a channel for unregistering subscribers
-	unregisterSubs chan Subscriber
-
-	// quit is a channel for stopping handleSubscribers
-	quitHandleSubscribers chan struct{}
-	// quit is a channel for stopping handleSubscribers
-	quitHandleOnChainNotifications chan struct{}
+
+	// quit is closed when the handler is stopped
+	quit     chan struct{}
+	stopOnce sync.Once
 }
 
 type DescriptorWalletNotifierHandler interface {
@@ -54,52 +50,25 @@ func NewDescriptorWalletNotifierHandler(
 	notificationSvc application.NotificationService,
 ) DescriptorWalletNotifierHandler {
 	return &descriptorWalletNotifierHandler{
-		notificationSvc:                notificationSvc,
-		subscribers:                    make(map[SubscriberID]Subscriber),
-		subscribersLock:                new(sync.RWMutex),
-		registerSubs:                   make(chan Subscriber),
-		unregisterSubs:                 make(chan Subscriber),
-		quitHandleSubscribers:          make(chan struct{}),
-		quitHandleOnChainNotifications: make(chan struct{}),
+		notificationSvc: notificationSvc,
+		subscribers:     make(map[SubscriberID]Subscriber),
+		subscribersLock: new(sync.RWMutex),
+		quit:            make(chan struct{}),
 	}
 }
 
 func (d *descriptorWalletNotifierHandler) Start() {
 	go d.handleOnChainNotifications()
-	go d.handleSubscribers()
 }
 
 func (d *descriptorWalletNotifierHandler) Stop() {
-	d.quitHandleSubscribers <- struct{}{}
-	d.quitHandleOnChainNotifications <- struct{}{}
-	time.Sleep(time.Second) // wait for DescriptorWalletNotifierHandler to stop
+	d.stopOnce.Do(func() {
+		close(d.quit)
+	})
 
 	d.notificationSvc.Stop()
 }
 
-func (d *descriptorWalletNotifierHandler) handleSubscribers() {
-	for {
-		select {
-		case sub := <-d.registerSubs:
-			log.Debugf("subscriber: %v, registrated", uuid.UUID(sub.SubscriberID()).String())
-			d.addSubscriberSafe(sub)
-
-		case sub := <-d.unregisterSubs:
-			log.Infof("subscriber: %v, un-registered", uuid.UUID(sub.SubscriberID()).String())
-			d.deleteSubscriberSafe(sub.SubscriberID())
-			if err := d.notificationSvc.UnSubscribe(application.Subscriber{
-				ID: application.SubscriberID(sub.SubscriberID()),
-			}); err != nil {
-				log.Errorf("failed unsubscribing from chain: %v", err.Error())
-			}
-
-		case <-d.quitHandleSubscribers:
-			log.Debugf("descriptorWalletNotifierHandler -> handleSubscribers stopped")
-			return
-		}
-	}
-}
-
 func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 	defer func() {
 		if err := recover(); err != nil {
@@ -110,46 +79,19 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 	for {
 		select {
 		case eventReport := <-d.notificationSvc.EventReport():
-			subscriber := d.getSubscriberSafe(SubscriberID(eventReport.SubscriberID))
-
 			eventType, err := neutrinodtypes.FromScannerEventTypeToNeutrinodType(eventReport.EventType)
 			if err != nil {
 				log.Errorf("failed to convert FromScannerEventTypeToNeutrinodType: %v", err.Error())
 				continue
 			}
 
-			response := neutrinodtypes.OnChainEventResponse{
-				EventType: eventType,
-				TxID:      eventReport.Transaction.TxHash().String(),
-			}
-
-			switch subscriber.Type() {
-			case wsType:
-				wsSubscriber := subscriber.(*WsSubscriber)
-				if err := sendResponseToSubscriberWs(*wsSubscriber, response); err != nil {
-					log.Errorf("failed sending response to subscriber: %v", err.Error())
-					continue
-				}
-			case httpType:
-				httpSubscriber := subscriber.(*HttpSubscriber)
-				go func() {
-					respJson, err := json.Marshal(response)
-					if err != nil {
-						log.Errorf("handleOnChainNotifications -> %v", err)
-					}
-
-					resp, err := http.Post(
-						httpSubscriber.EndpointUrl,
-						"application/json",
-						bytes.NewBuffer(respJson),
-					)
-					if err != nil {
-						log.Errorf("failed sending response to subscriber: %v", err.Error())
-						return
-					}
-					defer resp.Body.Close()
-				}()
-			}
+			notifySubscriber(
+				d.getSubscriberSafe(SubscriberID(eventReport.SubscriberID)),
+				neutrinodtypes.OnChainEventResponse{
+					EventType: eventType,
+					TxID:      eventReport.Transaction.TxHash().String(),
+				},
+			)
 
 		case errReport := <-d.notificationSvc.ErrorReport():
 			log.Errorf(
@@ -158,47 +100,56 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 				errReport.SubscriberID,
 			)
 
-			subscriber := d.getSubscriberSafe(SubscriberID(errReport.SubscriberID))
-
-			response := neutrinodtypes.MessageErrorResponse{
-				ErrorMessage: errReport.ErrorMsg.Error(),
-			}
-
-			switch subscriber.Type() {
-			case wsType:
-				wsSubscriber := subscriber.(*WsSubscriber)
-				if err := sendResponseToSubscriberWs(*wsSubscriber, response); err != nil {
-					log.Errorf("failed sending response to subscriber: %v", err.Error())
-					continue
-				}
-			case httpType:
-				httpSubscriber := subscriber.(*HttpSubscriber)
-				go func() {
-					respJson, err := json.Marshal(response)
-					if err != nil {
-						log.Errorf("handleOnChainNotifications -> %v", err)
-					}
-
-					resp, err := http.Post(
-						httpSubscriber.EndpointUrl,
-						"application/json",
-						bytes.NewBuffer(respJson),
-					)
-					if err != nil {
-						log.Errorf("failed sending response to subscriber: %v", err.Error())
-						return
-					}
-					defer resp.Body.Close()
-				}()
-			}
+			notifySubscriber(
+				d.getSubscriberSafe(SubscriberID(errReport.SubscriberID)),
+				neutrinodtypes.MessageErrorResponse{
+					ErrorMessage: errReport.ErrorMsg.Error(),
+				},
+			)
 
-		case <-d.quitHandleOnChainNotifications:
+		case <-d.quit:
 			log.Debugf("descriptorWalletNotifierHandler -> handleOnChainNotifications stopped")
 			return
 		}
 	}
 }
 
+// notifySubscriber sends an event or an error to its subscriber, the one of a closed connection is skipped
+func notifySubscriber[
+	V neutrinodtypes.MessageErrorResponse |
+		neutrinodtypes.OnChainEventResponse](
+	subscriber Subscriber,
+	response V,
+) {
+	switch sub := subscriber.(type) {
+	case *WsSubscriber:
+		if err := sendResponseToSubscriberWs(sub, response); err != nil {
+			log.Errorf("failed sending response to subscriber: %v", err.Error())
+		}
+	case *HttpSubscriber:
+		go func() {
+			respJson, err := json.Marshal(response)
+			if err != nil {
+				log.Errorf("handleOnChainNotifications -> %v", err)
+				return
+			}
+
+			resp, err := http.Post(
+				sub.EndpointUrl,
+				"application/json",
+				bytes.NewBuffer(respJson),
+			)
+			if err != nil {
+				log.Errorf("failed sending response to subscriber: %v", err.Error())
+				return
+			}
+			defer resp.Body.Close()
+		}()
+	default:
+		log.Debug("the subscriber of a report is gone")
+	}
+}
+
 func (d *descriptorWalletNotifierHandler) getSubscriberSafe(subscriberID SubscriberID) Subscriber {
 	d.subscribersLock.RLock()
 	defer d.subscribersLock.RUnlock()
diff --git a/internal/interface/web-socket/handler/types.go b/internal/interface/web-socket/handler/types.go
index c5db394..66dd1e1 100644
--- a/internal/interface/web-socket/handler/types.go
+++ b/internal/interface/web-socket/handler/types.go
@@ -1,6 +1,8 @@
 package handler
 
 import (
+	"sync"
+
 	"github.com/google/uuid"
 	"github.com/gorilla/websocket"
 )
@@ -17,6 +19,8 @@ type Subscriber interface {
 type WsSubscriber struct {
 	ID           SubscriberID
 	WsConnection *websocket.Conn
+	// writeLock is needed since a connection supports only one concurrent writer
+	writeLock sync.Mutex
 }
 
 func (w *WsSubscriber) Type() SubscriberType {
diff --git a/internal/interface/web-socket/handler/ws_handler.go b/internal/interface/web-socket/handler/ws_handler.go
index 6906d2d..93ef769 100644
--- a/internal/interface/web-socket/handler/ws_handler.go
+++ b/internal/interface/web-socket/handler/ws_handler.go
@@ -12,6 +12,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
 	"net/http"
 	"runtime/debug"
+	"time"
 )
 
 func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestWs(
@@ -39,10 +40,19 @@ func (d *descriptorWalletNotifierHandler) handleRequest(conn *websocket.Conn) {
 	conn.SetReadLimit(maxMessageSize)
 
 	subsID := uuid.New()
-	d.registerSubs <- &WsSubscriber{
+	subscriber := &WsSubscriber{
 		ID:           SubscriberID(subsID),
 		WsConnection: conn,
 	}
+	d.addSubscriberSafe(subscriber)
+	defer func() {
+		d.deleteSubscriberSafe(subscriber.ID)
+		if err := d.notificationSvc.UnSubscribe(application.Subscriber{
+			ID: application.SubscriberID(subsID),
+		}); err != nil {
+			log.Debugf("subscriber %v was not subscribed: %v", subsID, err)
+		}
+	}()
 
 	log.Debugf("new ws subscriber connected: %v", subsID)
 
@@ -62,10 +72,6 @@ msgloop:
 				log.Warnf("Error reading message: %v\n", err)
 			}
 
-			d.unregisterSubs <- &WsSubscriber{
-				ID: SubscriberID(subsID),
-			}
-
 			return
 		}
 
@@ -73,20 +79,25 @@ msgloop:
 		wsMsg := &neutrinodtypes.SubscriptionRequestWs{}
 		if err = json.Unmarshal(message, wsMsg); err != nil {
 			log.Warn(err)
-			return
+
+			if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.MessageErrorResponse{
+				ErrorMessage: "bad request",
+			}); err != nil {
+				log.Errorf("failed sending response to subscriber: %v", err.Error())
+			}
+
+			continue
 		}
 
 		log.Debugf("new message from subscriber: %v", subsID)
 
-		subscriber := d.getSubscriberSafe(SubscriberID(subsID)).(*WsSubscriber)
-
 		events := make([]scanner.EventType, 0, len(wsMsg.EventTypes))
 		for _, v := range wsMsg.EventTypes {
 			eventType, err := neutrinodtypes.FromNeutrinodTypeToScannerEventType(v)
 			if err != nil {
 				log.Errorf("unsucesfull conversion FromNeutrinodTypeToScannerEventType %v", err)
 
-				if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
+				if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.MessageErrorResponse{
 					ErrorMessage: "irregular event type",
 				}); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -109,16 +120,17 @@ msgloop:
 			}); err != nil {
 				log.Errorf("unsucesfull registration: %v, subscriber: %v", err, subsID)
 
-				if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
+				if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.MessageErrorResponse{
 					ErrorMessage: err.Error(),
 				}); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
-					goto msgloop
 				}
+
+				goto msgloop
 			}
 			log.Infof("sucesfull registration, subscriber: %v", subsID)
 
-			if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.GeneralMessageResponse{
+			if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.GeneralMessageResponse{
 				Message: "successfully registered",
 			}); err != nil {
 				log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -130,17 +142,18 @@ msgloop:
 			}); err != nil {
 				log.Errorf("unsucesfull un-registration: %v, subscriber: %v", err, subsID)
 
-				if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
+				if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.MessageErrorResponse{
 					ErrorMessage: err.Error(),
 				}); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
-					goto msgloop
 				}
+
+				goto msgloop
 			}
 
 			log.Infof("sucesfull un-registration: %v, subscriber: %v", err, subsID)
 
-			if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.GeneralMessageResponse{
+			if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.GeneralMessageResponse{
 				Message: "successfully un-registered",
 			}); err != nil {
 				log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -148,6 +161,12 @@ msgloop:
 			}
 		default:
 			log.Errorf("unknown action type: %v\n", wsMsg.ActionType)
+
+			if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.MessageErrorResponse{
+				ErrorMessage: "bad request",
+			}); err != nil {
+				log.Errorf("failed sending response to subscriber: %v", err.Error())
+			}
 		}
 	}
 }
@@ -156,7 +175,7 @@ func sendResponseToSubscriberWs[
 	V neutrinodtypes.MessageErrorResponse |
 		neutrinodtypes.OnChainEventResponse |
 		neutrinodtypes.GeneralMessageResponse](
-	subscriber WsSubscriber,
+	subscriber *WsSubscriber,
 	resp V,
 ) error {
 	defer func() {
@@ -171,7 +190,16 @@ func sendResponseToSubscriberWs[
 		return fmt.Errorf("sendResponseToSubscriberWs -> %v", err)
 	}
 
+	subscriber.writeLock.Lock()
+	defer subscriber.writeLock.Unlock()
+
+	// a subscriber that does not read must not hold up the others
+	if err = subscriber.WsConnection.SetWriteDeadline(time.Now().Add(writeTimeout)); err != nil {
+		return fmt.Errorf("sendResponseToSubscriberWs -> %v", err)
+	}
+
 	if err = subscriber.WsConnection.WriteMessage(websocket.TextMessage, r); err != nil {
+		_ = subscriber.WsConnection.Close()
 		return fmt.Errorf("sendResponseToSubscriberWs -> %v", err)
 	}
 
-- 
2.43.0


From b031f05c7b6441da4780626d4622ff58b81e463f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:21 +0000
Subject: [PATCH 42/54] fix: take the event types of webhook subscriptions by
 name, as documented

---
 pkg/neutrinod-types/types_http.go | 45 ++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/pkg/neutrinod-types/types_http.go b/pkg/neutrinod-types/types_http.go
index 056de09..c22be8d 100644
--- a/pkg/neutrinod-types/types_http.go
+++ b/pkg/neutrinod-types/types_http.go
@@ -1,6 +1,10 @@
 package neutrinodtypes
 
-import "github.com/vulpemventures/neutrino-elements/pkg/scanner"
+import (
+	"encoding/json"
+
+	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
+)
 
 type SubscriptionRequestHttp struct {
 	ActionType       ActionType          `json:"actionType"`
@@ -9,3 +13,42 @@ type SubscriptionRequestHttp struct {
 	StartBlockHeight int                 `json:"startBlockHeight"`
 	EndpointUrl      string              `json:"endpointUrl"`
 }
+
+// UnmarshalJSON decodes a request whose event types are given by name or by number
+func (s *SubscriptionRequestHttp) UnmarshalJSON(data []byte) error {
+	type Request SubscriptionRequestHttp
+
+	var req struct {
+		*Request
+		EventTypes []httpEventType `json:"eventTypes"`
+	}
+	req.Request = (*Request)(s)
+
+	if err := json.Unmarshal(data, &req); err != nil {
+		return err
+	}
+
+	s.EventTypes = make([]scanner.EventType, 0, len(req.EventTypes))
+	for _, v := range req.EventTypes {
+		s.EventTypes = append(s.EventTypes, scanner.EventType(v))
+	}
+
+	return nil
+}
+
+type httpEventType scanner.EventType
+
+func (h *httpEventType) UnmarshalJSON(data []byte) error {
+	var name EventType
+	if err := json.Unmarshal(data, &name); err != nil {
+		return json.Unmarshal(data, (*scanner.EventType)(h))
+	}
+
+	eventType, err := FromNeutrinodTypeToScannerEventType(name)
+	if err != nil {
+		return err
+	}
+	*h = httpEventType(eventType)
+
+	return nil
+}
-- 
2.43.0


From 820f734dfa3799bc1005612a0025c813a2c3d6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:22 +0000
Subject: [PATCH 43/54] fix: use the genesis block of the daemon's network, and
 stop at the first error

---
 internal/interface/web-socket/server.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/interface/web-socket/server.go b/internal/interface/web-socket/server.go
index f35dd11..dc4c31a 100644
--- a/internal/interface/web-socket/server.go
+++ b/internal/interface/web-socket/server.go
@@ -54,13 +54,15 @@ func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-c
 	log.Infoln("neutrinod: waiting for node to sync with peer...")
 	if err := n.nodeSvc.Start(n.peerUrl); err != nil {
 		errC <- err
+		return errC
 	}
 	log.Infoln("neutrinod: node is synced with peer")
 
-	genesisBlockHashStr := protocol.GetCheckpoints(protocol.MagicRegtest)[0]
+	genesisBlockHashStr := protocol.GetCheckpoints(protocol.Networks[n.nodeCfg.Network])[0]
 	genesisBlockHash, err := chainhash.NewHashFromStr(genesisBlockHashStr)
 	if err != nil {
 		errC <- err
+		return errC
 	}
 
 	scannerSvc := scanner.New(
@@ -74,6 +76,7 @@ func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-c
 
 	if err := notificationSvc.Start(); err != nil {
 		errC <- err
+		return errC
 	}
 
 	descriptorWalletNotifierSvc := handler.NewDescriptorWalletNotifierHandler(notificationSvc)
-- 
2.43.0


From 00eee903927f1a464bcf7c409eaffbebdbbe4e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 44/54] fix: do not send on the closed error channel when the
 daemon is stopped while its port is taken

---
 internal/interface/web-socket/server.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/interface/web-socket/server.go b/internal/interface/web-socket/server.go
index dc4c31a..3ed0319 100644
--- a/internal/interface/web-socket/server.go
+++ b/internal/interface/web-socket/server.go
@@ -49,7 +49,8 @@ func NewElementsNeutrinoServer(
 }
 
 func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-chan error {
-	errC := make(chan error, 1)
+	// there is room for the error of each step of the shutdown and for the one of the http server
+	errC := make(chan error, 3)
 
 	log.Infoln("neutrinod: waiting for node to sync with peer...")
 	if err := n.nodeSvc.Start(n.peerUrl); err != nil {
@@ -106,6 +107,9 @@ func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-c
 		Handler: muxRouter,
 	}
 
+	// httpServerDone is closed when the http server does not serve anymore
+	httpServerDone := make(chan struct{})
+
 	go func() {
 		<-ctx.Done()
 
@@ -123,6 +127,7 @@ func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-c
 
 			stop()
 			cancel()
+			<-httpServerDone
 			close(errC)
 		}()
 
@@ -136,6 +141,8 @@ func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-c
 
 	// start http server
 	go func() {
+		defer close(httpServerDone)
+
 		log.Infof(
 			"neutrinod: neutrino-elements daemon listening and serving at: %v",
 			n.serverAddress)
-- 
2.43.0


From e2d005b665340c7f8b762d9767af9fa9163e8c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:30 +0000
Subject: [PATCH 45/54] fix: let the daemon be stopped during the initial
 synchronisation

---
 internal/interface/web-socket/server.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/internal/interface/web-socket/server.go b/internal/interface/web-socket/server.go
index 3ed0319..18225a9 100644
--- a/internal/interface/web-socket/server.go
+++ b/internal/interface/web-socket/server.go
@@ -53,7 +53,23 @@ func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-c
 	errC := make(chan error, 3)
 
 	log.Infoln("neutrinod: waiting for node to sync with peer...")
-	if err := n.nodeSvc.Start(n.peerUrl); err != nil {
+	nodeStarted := make(chan struct{})
+	go func() {
+		select {
+		case <-ctx.Done():
+			_ = n.nodeSvc.Stop()
+		case <-nodeStarted:
+		}
+	}()
+	err := n.nodeSvc.Start(n.peerUrl)
+	close(nodeStarted)
+	if err != nil {
+		// not an error if the daemon has been stopped meanwhile
+		if ctx.Err() != nil {
+			stop()
+			close(errC)
+			return errC
+		}
 		errC <- err
 		return errC
 	}
-- 
2.43.0


From 192390fa273c48e7fbf9fc6bbbd765de10e4b48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:25 +0000
Subject: [PATCH 46/54] fix: escape the database credentials in the connection
 string

---
 .../storage/db/pg/db_service.go               | 27 ++++++++++---------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/internal/infrastructure/storage/db/pg/db_service.go b/internal/infrastructure/storage/db/pg/db_service.go
index b97435c..862eead 100644
--- a/internal/infrastructure/storage/db/pg/db_service.go
+++ b/internal/infrastructure/storage/db/pg/db_service.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"github.com/go-testfixtures/testfixtures/v3"
 	"github.com/golang-migrate/migrate/v4"
+	"net/url"
 	"sync"
 
 	"github.com/golang-migrate/migrate/v4/database/postgres"
@@ -16,11 +17,10 @@ import (
 )
 
 const (
-	postgresDriver             = "postgres"
-	insecureDataSourceTemplate = "postgresql://%s:%s@%s:%d/%s?sslmode=disable"
-	dataSourceTemplate         = "host=%s port=%d user=%s password=%s dbname=%s"
-	postgresDialect            = "postgres"
-	fixturesPath               = "../fixtures"
+	postgresDriver     = "postgres"
+	dataSourceTemplate = "host=%s port=%d user=%s password=%s dbname=%s"
+	postgresDialect    = "postgres"
+	fixturesPath       = "../fixtures"
 )
 
 var (
@@ -97,14 +97,15 @@ func migrateDb(db *sql.DB, migrationSourceUrl string) error {
 
 // insecureDataSourceStr converts database configuration params to connection string
 func insecureDataSourceStr(dbConfig DbConfig) string {
-	return fmt.Sprintf(
-		insecureDataSourceTemplate,
-		dbConfig.DbUser,
-		dbConfig.DbPassword,
-		dbConfig.DbHost,
-		dbConfig.DbPort,
-		dbConfig.DbName,
-	)
+	dataSource := url.URL{
+		Scheme:   "postgresql",
+		User:     url.UserPassword(dbConfig.DbUser, dbConfig.DbPassword),
+		Host:     fmt.Sprintf("%s:%d", dbConfig.DbHost, dbConfig.DbPort),
+		Path:     "/" + dbConfig.DbName,
+		RawQuery: "sslmode=disable",
+	}
+
+	return dataSource.String()
 }
 
 // CreateLoader creates loader that is to be used to load fixtures from given
-- 
2.43.0


From 3feef2b4d912f41d2bb17b903d7d0144a871ff37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:33 +0000
Subject: [PATCH 47/54] fix: let another peer continue the synchronisation when
 a peer disconnects

---
 pkg/node/chainsync.go   | 12 ++++++++++++
 pkg/node/handle_ping.go |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/pkg/node/chainsync.go b/pkg/node/chainsync.go
index bd208dd..ee9179a 100644
--- a/pkg/node/chainsync.go
+++ b/pkg/node/chainsync.go
@@ -245,6 +245,18 @@ func (n *node) sync(p peer.Peer) {
 	}
 }
 
+// resumeSync asks another peer for the headers that are still missing after a peer was disconnected.
+func (n *node) resumeSync() {
+	p := n.getBestPeerForSync()
+	if p == nil {
+		return
+	}
+
+	if isSynced, _ := n.synced(p); !isSynced {
+		n.sync(p)
+	}
+}
+
 func (n *node) notifySynced() {
 	log.Debug("node: notifySynced")
 	n.notifySyncedOnce.Do(
diff --git a/pkg/node/handle_ping.go b/pkg/node/handle_ping.go
index 95135bb..c608a75 100644
--- a/pkg/node/handle_ping.go
+++ b/pkg/node/handle_ping.go
@@ -75,6 +75,8 @@ func (n *node) monitorPeers() {
 					delete(peerPings, k)
 				}
 			}
+
+			go n.resumeSync()
 		}
 	}
 }
-- 
2.43.0


From 869e95bd7695cc0118a76f7070a83503c933b648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 48/54] fix: refuse peer addresses whose port has a sign

---
 pkg/protocol/addr.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pkg/protocol/addr.go b/pkg/protocol/addr.go
index efbc1b8..46e2bb4 100644
--- a/pkg/protocol/addr.go
+++ b/pkg/protocol/addr.go
@@ -2,7 +2,6 @@ package protocol
 
 import (
 	"errors"
-	"math"
 	"net"
 	"strconv"
 	"strings"
@@ -27,15 +26,12 @@ func ParseNodeAddr(nodeAddr string) (*Addr, error) {
 		return nil, errors.New("malformed node address")
 	}
 
-	port, err := strconv.Atoi(portPart)
+	// a port has no sign and fits 16 bits
+	port, err := strconv.ParseUint(portPart, 10, 16)
 	if err != nil {
 		return nil, errors.New("malformed node address")
 	}
 
-	if port < 0 || port > math.MaxUint16 {
-		return nil, errors.New("malformed node address")
-	}
-
 	var addr Addr
 	ip := net.ParseIP(hostnamePart)
 	copy(addr.IP[:], []byte(ip.To4()))
-- 
2.43.0


From a9cf9ee35e53cebfa340cec546090c614cb790e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:54 +0000
Subject: [PATCH 49/54] fix: do not take a command that starts with zero bytes
 for a known one

---
 pkg/protocol/msg.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/protocol/msg.go b/pkg/protocol/msg.go
index 4a14c57..fcfba30 100644
--- a/pkg/protocol/msg.go
+++ b/pkg/protocol/msg.go
@@ -57,9 +57,9 @@ func NewMessage(cmd string, networkMagic Magic, payload interface{}) (*Message,
 	return &msg, nil
 }
 
-// CommandString returns command as a string with zero bytes removed.
+// CommandString returns command as a string without the zero bytes that pad it.
 func (mh MessageHeader) CommandString() string {
-	return strings.Trim(string(mh.Command[:]), "\x00")
+	return strings.TrimRight(string(mh.Command[:]), "\x00")
 }
 
 // Validate ...
-- 
2.43.0


From 6b26cec36d8752ab08792c8841bc8859432b2db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 50/54] fix: confirm the transactions of blocks whose header is
 already stored

---
 pkg/node/cmd_block.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pkg/node/cmd_block.go b/pkg/node/cmd_block.go
index cca5027..cb49afc 100644
--- a/pkg/node/cmd_block.go
+++ b/pkg/node/cmd_block.go
@@ -44,6 +44,11 @@ func (n *node) handleBlock(header *protocol.MessageHeader, payload io.Reader, p
 			n.sync(p)
 		}
 
+		//the header may have been stored before its block arrived
+		if n.isStored(msgBlock.Header) {
+			n.memPool.CheckTxConfirmed(msgBlock.Block)
+		}
+
 		return nil
 	}
 	stored, err := n.storeHeaders(msgBlock.Header)
@@ -52,6 +57,11 @@ func (n *node) handleBlock(header *protocol.MessageHeader, payload io.Reader, p
 		return err
 	}
 	if stored == 0 {
+		//or be stored meanwhile
+		if n.isStored(msgBlock.Header) {
+			n.memPool.CheckTxConfirmed(msgBlock.Block)
+		}
+
 		return nil
 	}
 
@@ -64,3 +74,14 @@ func (n *node) handleBlock(header *protocol.MessageHeader, payload io.Reader, p
 
 	return nil
 }
+
+// isStored returns true if the header is part of the stored chain.
+func (n *node) isStored(header *block.Header) bool {
+	hash, err := header.Hash()
+	if err != nil {
+		return false
+	}
+
+	stored, err := n.blockHeadersDb.GetBlockHashByHeight(context.Background(), header.Height)
+	return err == nil && stored.IsEqual(&hash)
+}
-- 
2.43.0


From 722a8ffc76ef2a9872a2d27fc870fbadd983c594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:58 +0000
Subject: [PATCH 51/54] fix: do not count the time since a block was missing
 once it is not needed anymore

---
 pkg/scanner/scanner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index b0fdf80..6cbe1f0 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -363,6 +363,9 @@ func (s *scannerService) requestWorker(ctx context.Context, startHeight uint32,
 				nextHeight++ // the block has been scanned
 				return nextHeight, err
 			}
+		} else {
+			// the block is not needed anymore, it starts over if it is missing the next time it is
+			delete(s.missingSince, *blockHash)
 		}
 
 		// increment the height to scan
-- 
2.43.0


From 0f475f28ed49d7b4d09117c445eeb73e9c14344d Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:00:16 +0000
Subject: [PATCH 52/54] fix: only the pong of the peer that was pinged keeps it
 connected

A pong with the nonce of the ping of another peer was delivered to that peer, so a
silent one was not dropped when another one answered for it.
---
 pkg/node/cmd_pong.go    |  2 +-
 pkg/node/handle_ping.go | 12 ++++++------
 pkg/node/node.go        |  4 ++--
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pkg/node/cmd_pong.go b/pkg/node/cmd_pong.go
index 78dda0d..27d39de 100644
--- a/pkg/node/cmd_pong.go
+++ b/pkg/node/cmd_pong.go
@@ -16,7 +16,7 @@ func (n *node) handlePong(header *protocol.MessageHeader, payload io.Reader, p p
 	}
 
 	select {
-	case n.pongsCh <- pong.Nonce:
+	case n.pongsCh <- peerPing{nonce: pong.Nonce, peerID: p.ID()}:
 	case <-n.quit:
 	}
 
diff --git a/pkg/node/handle_ping.go b/pkg/node/handle_ping.go
index c608a75..77eb5fb 100644
--- a/pkg/node/handle_ping.go
+++ b/pkg/node/handle_ping.go
@@ -50,16 +50,16 @@ func (n *node) monitorPeers() {
 		select {
 		case <-n.quit:
 			return
-		case nonce := <-n.pongsCh:
-			peerID := peerPings[nonce]
-			if peerID == "" {
+		case pong := <-n.pongsCh:
+			// only the peer that was pinged can answer
+			if peerID, pinged := peerPings[pong.nonce]; !pinged || peerID != pong.peerID {
 				break
 			}
-			delete(peerPings, nonce)
+			delete(peerPings, pong.nonce)
 
-			if pongCh := n.getPongCh(peerID); pongCh != nil {
+			if pongCh := n.getPongCh(pong.peerID); pongCh != nil {
 				select {
-				case pongCh <- nonce:
+				case pongCh <- pong.nonce:
 				default:
 				}
 			}
diff --git a/pkg/node/node.go b/pkg/node/node.go
index 7bcd0c3..bb665aa 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -41,7 +41,7 @@ type node struct {
 	Network     protocol.Magic
 	Peers       map[peer.PeerID]peer.Peer
 	pingsCh     chan peerPing
-	pongsCh     chan uint64
+	pongsCh     chan peerPing
 	peersPongCh map[peer.PeerID]chan uint64
 	// peersMutex protects Peers and peersPongCh
 	peersMutex sync.RWMutex
@@ -88,7 +88,7 @@ func New(config NodeConfig) (NodeService, error) {
 		Network:     networkMagic,
 		Peers:       make(map[peer.PeerID]peer.Peer),
 		pingsCh:     make(chan peerPing),
-		pongsCh:     make(chan uint64),
+		pongsCh:     make(chan peerPing),
 		peersPongCh: make(map[peer.PeerID]chan uint64),
 		DisconCh:    make(chan peer.PeerID),
 		UserAgent:   config.UserAgent,
-- 
2.43.0


From 25dc48a24dd8b59798a3b9945ed4f7435c3dfa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:39 +0000
Subject: [PATCH 53/54] fix: a peer that is added twice before its handshake is
 refused the second time

---
 pkg/node/node.go | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/pkg/node/node.go b/pkg/node/node.go
index bb665aa..3193969 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -43,7 +43,9 @@ type node struct {
 	pingsCh     chan peerPing
 	pongsCh     chan peerPing
 	peersPongCh map[peer.PeerID]chan uint64
-	// peersMutex protects Peers and peersPongCh
+	// outbound holds the peers whose messages are handled, also before their handshake
+	outbound map[peer.PeerID]struct{}
+	// peersMutex protects Peers, peersPongCh and outbound
 	peersMutex sync.RWMutex
 
 	DisconCh  chan peer.PeerID
@@ -90,6 +92,7 @@ func New(config NodeConfig) (NodeService, error) {
 		pingsCh:     make(chan peerPing),
 		pongsCh:     make(chan peerPing),
 		peersPongCh: make(map[peer.PeerID]chan uint64),
+		outbound:    make(map[peer.PeerID]struct{}),
 		DisconCh:    make(chan peer.PeerID),
 		UserAgent:   config.UserAgent,
 
@@ -109,10 +112,15 @@ func (n *node) GetChainTip() (*block.Header, error) {
 // AddOutboundPeer sends a new version message to a new peer
 // returns an error if the peer is already connected.
 // it also starts a goroutine to monitor the peer's messages.
-func (n *node) AddOutboundPeer(outbound peer.Peer) error {
-	if n.getPeer(outbound.ID()) != nil {
+func (n *node) AddOutboundPeer(outbound peer.Peer) (err error) {
+	if !n.reserveOutbound(outbound.ID()) {
 		return fmt.Errorf("peer already known by node")
 	}
+	defer func() {
+		if err != nil {
+			n.releaseOutbound(outbound.ID())
+		}
+	}()
 
 	select {
 	case <-n.quit:
@@ -135,6 +143,29 @@ func (n *node) AddOutboundPeer(outbound peer.Peer) error {
 	return nil
 }
 
+// reserveOutbound returns false if the peer is known or its messages are handled already.
+func (n *node) reserveOutbound(peerID peer.PeerID) bool {
+	n.peersMutex.Lock()
+	defer n.peersMutex.Unlock()
+
+	if _, known := n.Peers[peerID]; known {
+		return false
+	}
+	if _, reserved := n.outbound[peerID]; reserved {
+		return false
+	}
+
+	n.outbound[peerID] = struct{}{}
+	return true
+}
+
+func (n *node) releaseOutbound(peerID peer.PeerID) {
+	n.peersMutex.Lock()
+	defer n.peersMutex.Unlock()
+
+	delete(n.outbound, peerID)
+}
+
 // Start starts a node and add an initial outbound peer.
 func (n *node) Start(initialOutboundPeerAddr string) error {
 	initialPeer, err := peer.NewElementsPeer(initialOutboundPeerAddr)
@@ -209,6 +240,7 @@ func (n *node) getBestPeerForSync() peer.Peer {
 func (n *node) handlePeerMessages(p peer.Peer) {
 	done := make(chan struct{})
 	defer close(done)
+	defer n.releaseOutbound(p.ID())
 
 	// unblock the reader when the node stops
 	go func() {
-- 
2.43.0


From 2aae7425375435e29567620d7f62a6ec36174a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:46 +0000
Subject: [PATCH 54/54] fix: do not connect to an address that cannot be used

NewElementsPeer dialled before it parsed the address and left the
connection open when the address turned out to be malformed.
---
 pkg/peer/peer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index a1068e2..565fceb 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -35,12 +35,12 @@ type elementsPeer struct {
 }
 
 func NewElementsPeer(peerAddr string) (Peer, error) {
-	conn, err := dial("tcp", peerAddr)
+	netAddress, err := protocol.ParseNodeAddr(peerAddr)
 	if err != nil {
 		return nil, err
 	}
 
-	netAddress, err := protocol.ParseNodeAddr(peerAddr)
+	conn, err := dial("tcp", peerAddr)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0

