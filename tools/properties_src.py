W = "pkg/protocol"; N = "pkg/node"; S = "pkg/scanner"; H = "internal/interface/web-socket/handler"
PBT = "property-based testing (rapid) against "

# ---------------------------------------------------------------- wire format
prop("C01", "Outgoing messages carry a correct envelope and exact payload",
 "Every protocol message built for a known command and any of the supported networks serialises to exactly: that network's magic, the command name zero-padded to 12 bytes, the payload length (little endian), the first four bytes of the double SHA-256 of the payload, then the payload unchanged. Reading such bytes back yields the same header fields and command name. An unknown command is refused, and a header is reported valid exactly when its magic belongs to a supported network and its command is a known one.",
 ["inputs"], "all commands x networks x payload types and sizes; arbitrary 24-byte headers",
 "The tests compare one or two fixed messages; the envelope must be right for every payload length, command and network, and header validation for every 24-byte value.",
 [W+"/msg.go", W+"/cmd.go", W+"/network.go", "pkg/binary/marshaler.go"],
 [("message constructor and header validation", W+"/msg.go:NewMessage, MessageHeader.Validate"), ("reflection based encoder", "pkg/binary/marshaler.go:Marshal")],
 ["protocol.NewMessage", "binary.Marshal", "binary.Decoder.Decode", "MessageHeader.Validate"],
 technique=PBT+"an independent reference encoder", note="Reference encoder written from the protocol documentation; sampled inputs, boundary lengths forced.")

prop("C02", "Variable-length integers are canonical and round-trip everywhere",
 "Any non-negative integer made into a variable-length integer is written in its one shortest standard form (1, 3, 5 or 9 bytes, little endian), whether it is encoded on its own, through a pointer, or as part of a larger value. Decoding those bytes gives the same number back and consumes exactly that many bytes. Truncated encodings are reported as errors.",
 ["inputs"], "all integers 0..2^63-1, all width boundaries, all embedding contexts",
 "The tests use a handful of values and only one way of invoking the encoder; the property ranges over all values and over every place the encoding is used.",
 [W+"/varint.go", "pkg/binary/marshaler.go", "pkg/binary/unmarshaler.go"],
 [("variable-length integer codec", W+"/varint.go:MarshalBinary, UnmarshalBinary, NewVarint")],
 ["protocol.NewVarint", "binary.Marshal", "binary.Decoder.Decode"],
 technique=PBT+"a reference codec and round-trip", note="All width boundaries are always generated; other values are sampled log-uniformly.")

prop("C03", "Every message type encodes to the standard layout and decodes back",
 "For every message type the client sends, the payload bytes equal the documented network layout of the values given, for any number of list entries the protocol allows. For every message type the client receives, decoding a payload in that layout yields exactly the values it encodes: every field, and every list entry, in order. Transaction identifiers reported for a received transaction equal its witness-stripped double hash.",
 ["inputs"], "all field values, list lengths (including above 252 entries) and strings for version, ping, pong, inv, getdata, getheaders, headers, getcfilters, cfilter, tx, block, sendcmpct",
 "Only four messages have example tests with short lists; none has a list whose count needs more than one byte and several messages have no test.",
 [W+"/msg_version.go", W+"/msg_inv.go", W+"/msg_getdata.go", W+"/msg_getheaders.go", W+"/blocklocator.go", W+"/msg_headers.go", W+"/msg_getcfilters.go", W+"/msg_cfilter.go", W+"/msg_tx.go", W+"/msg_block.go", W+"/netaddr.go"],
 [("per-message codecs", W+"/msg_*.go, blocklocator.go, netaddr.go"), ("reflection based codec", "pkg/binary")],
 ["protocol.New*Msg / NewMessage", "binary.Decoder.Decode on each Msg type"],
 technique=PBT+"an independent reference encoder/decoder, round-trip", note="Reference layouts are hand written; transactions and blocks come from a generator that builds valid Elements transactions.")

prop("C04", "Decoding does not depend on how the bytes arrive",
 "Decoding a message header or payload gives the same value, or fails, identically for every way the same bytes are split into reads, including one byte at a time. If the stream ends before a fixed-size field, list entry, or declared byte string is complete, or before as many entries or bytes arrive as a count or length field says, decoding reports an error rather than a partly filled value.",
 ["inputs", "schedules"], "all payloads x all read segmentations x all truncation points",
 "The tests decode from in-memory buffers that return everything in one read; TCP delivers arbitrary segments.",
 ["pkg/binary/unmarshaler.go", W+"/msg.go", W+"/netaddr.go", W+"/msg_cfilter.go"],
 [("array, string and byte decoding", "pkg/binary/unmarshaler.go:decodeArray, DecodeBytes; "+W+"/msg.go:VarStr; "+W+"/netaddr.go:IPv4")],
 ["binary.Decoder.Decode over a segmented io.Reader"],
 technique=PBT+"a metamorphic relation (segmentation and truncation)", note="Segmentations are generated; truncation of complete payloads is enumerated for small payloads and sampled for large ones.")

prop("C05", "Hostile payloads are rejected without crashing or hoarding memory",
 "For any byte string offered as the payload of any message type, decoding returns a value or an error: it never panics, never reads past the bytes offered, and never reserves memory out of proportion to them because of a count or length field written in the bytes.",
 ["inputs"], "arbitrary, truncated, bit-flipped and length-inflated payloads for every decodable message",
 "The tests only decode well-formed samples; robustness quantifies over all byte strings a peer may send.",
 [W+"/msg_headers.go", W+"/msg_cfilter.go", W+"/blocklocator.go", W+"/msg_inv.go", W+"/msg_tx.go", W+"/msg_block.go", "pkg/binary/unmarshaler.go"],
 [("length and count checks in decoders", W+"/msg_*.go, pkg/binary/unmarshaler.go:DecodeBytes")],
 ["binary.Decoder.Decode"],
 technique="structure-aware fuzzing (rapid) with crash, over-read and allocation oracles", note="Length and count fields that belong to the go-elements dependency's own block/transaction parsers are generated truthfully (see DESIGN.md).")

prop("C06", "Peer addresses and built-in network parameters are exact",
 "A peer address is accepted exactly when it is a host and a decimal port between 0 and 65535 separated by one colon, and an accepted IPv4 host and port are what the client advertises for that peer in its own version message. For each supported network the magic, the built-in genesis header and the genesis hash used to start synchronisation agree with one another and are those of that network.",
 ["inputs", "configurations"], "all strings; all networks",
 "Tests try seven addresses; acceptance is a statement about every string, and nothing ties genesis headers, hashes and checkpoints together.",
 [W+"/addr.go", W+"/network.go", W+"/checkpoints.go"],
 [("address parser", W+"/addr.go:ParseNodeAddr"), ("network tables", W+"/network.go, checkpoints.go")],
 ["protocol.ParseNodeAddr", "protocol.Networks", "protocol.GetCheckpoints", "version message on the wire"],
 technique=PBT+"a reference grammar; cross-consistency of the tables", note="Hosts that are not IPv4 literals are only required to be accepted with the right port.")

# ---------------------------------------------------------------- node
node_files = [N+"/node.go"]
prop("C10", "The peer stream stays in step whatever messages a peer interleaves",
 "Whatever sequence of well-framed messages a connected peer sends (known, unknown to the client, with unusable payloads or a wrong checksum) and however the bytes are segmented, the client keeps reading at message boundaries: every ping in the sequence with a valid envelope is answered by exactly one pong with the same nonce, in order. A message whose checksum does not match its payload has no effect, and bytes in a payload are never interpreted as a message header.",
 ["inputs", "schedules"], "all sequences of framed messages x all segmentations",
 "No test drives the read loop; the property concerns every interleaving of good, unknown and bad messages and every split of the byte stream.",
 [N+"/node.go", N+"/cmd_ping.go", N+"/cmd_skip.go", W+"/msg.go"],
 [("read loop and dispatch", N+"/node.go:handlePeerMessages"), ("skipping of unhandled messages", N+"/cmd_skip.go")],
 ["bytes written by the client to the peer connection"],
 technique="stateful property-based testing of the real node over an in-memory connection with a fake clock", note="Ping/pong is the synchronisation oracle; transport is an in-memory net.Conn.")

prop("C11", "Handshake: only peers that serve compact filters are used",
 "On connecting, the client first sends one version message naming its network, user agent, services and the peer's address. A peer whose version offers compact filters receives one verack and one request for header announcements, and the first such peer is asked for headers from the client's tip (or genesis when the store is empty). A peer that does not offer them is never acknowledged, never asked for headers or filters and is never sent a transaction, and a repeated version message adds no second peer. Adding a peer that was added before is refused and changes nothing for it.",
 ["inputs", "histories"], "all version messages (services, heights, agents), orders of handshake messages, several peers",
 "No test performs a handshake against generated peers.",
 [N+"/cmd_version.go", N+"/node.go", N+"/handle_ping.go", N+"/chainsync.go"],
 [("version handling and peer registration", N+"/cmd_version.go, handle_ping.go:addPeer"), ("first header request", N+"/chainsync.go:syncWithPeer")],
 ["messages written to the peer connection"],
 technique="stateful property-based testing against a handshake model over in-memory peers", note="Runs the real node in a fake-clock bubble.")

prop("C12", "Against an honest peer the header store converges to the peer's chain",
 "With an honest peer, the header store ends up holding exactly the peer's chain, for any chain length, starting store, batch size, segmentation, duplicated, overlapping or empty header batches, and any later announcements of new blocks by header or by block; if peers with that chain disconnect at any moment, one that stays connected completes it. Starting the node returns only after the store holds every header from the first up to at least the height that the peer announced, and the reported chain tip is the highest stored header.",
 ["inputs", "schedules", "histories"], "all chains, batch sizes, prefixes already stored, duplication/overlap patterns and announcement histories",
 "The repository's tests need a live network and check one synced chain; batching, restarts from a prefix and duplicated deliveries are never varied.",
 [N+"/chainsync.go", N+"/cmd_headers.go", N+"/cmd_block.go", N+"/node.go"],
 [("header request loop", N+"/chainsync.go:sync, synced, checkSyncedInitial"), ("header and block ingestion", N+"/cmd_headers.go, cmd_block.go, node.go:monitorBlockHeaders")],
 ["BlockHeaderRepository contents", "NodeService.Start return", "NodeService.GetChainTip"],
 technique="stateful property-based testing with a model honest peer on a fake clock", note="Chains up to a few hundred headers, batch sizes 1..chain length; time is virtual.")

prop("C13", "The stored chain is always one gap-free linked chain",
 "Whatever header and block messages peers send, the stored headers always form a single chain: consecutive heights without gaps or duplicates, each header's previous-block hash equal to the hash of the stored header below it, and the tip height never decreases. A store failure while writing a header leaves no permanent hole: the missing headers are fetched again and stored once the store works, and a node that is waiting for them to start does start then.",
 ["inputs", "histories", "fault_sequences"], "all header/block message histories, honest or adversarial; transient store failures at any write",
 "The only test checks that a batch has consecutive heights; linkage, gaps across batches, forks and write failures are never exercised.",
 [N+"/cmd_headers.go", N+"/cmd_block.go", N+"/node.go", N+"/chainsync.go"],
 [("sequence checks", N+"/cmd_headers.go:handleHeaders, checkHeadersInSequence"), ("header writer", N+"/node.go:monitorBlockHeaders")],
 ["BlockHeaderRepository contents after each message"],
 technique="model-based property testing with generated adversarial peers and injected store faults", note="Signatures of block signers are out of scope: the client does not verify them.")

prop("C14", "Every stored header's filter is requested and stored verbatim",
 "For every header the node stores while a peer is connected, the node asks a connected peer for that block's compact filter, naming exactly that block. Every regular filter received is stored under the block hash it names with exactly the received bytes, and later lookups return it, however filters are ordered, delayed or interleaved with other messages; messages with another filter type store nothing.",
 ["inputs", "schedules", "histories"], "all chains, filter contents and response orders",
 "No test covers filter requests or their storage.",
 [N+"/node.go", N+"/cmd_cfilter.go", W+"/msg_cfilter.go", "pkg/repository/filter_repository.go"],
 [("filter request per new header", N+"/node.go:monitorBlockHeaders"), ("filter storage", N+"/node.go:monitorCFilters")],
 ["getcfilters messages on the wire", "FilterRepository contents"],
 technique="stateful property-based testing with a model peer", note="Filters are real Golomb-coded sets built from generated blocks plus arbitrary byte filters.")

prop("C15", "Filter requests from peers are answered completely and correctly",
 "A request for regular filters over a height range ending at a stored block and spanning at most 1000 blocks is answered with one filter message for each block of the range, both ends included, whose filter is stored, carrying that block's hash and the stored bytes. Requests with another filter type, an unknown stop block, a start above the stop, or too long a range get no filter at all, and no request disturbs the connection.",
 ["inputs"], "all (type, start, stop) requests against all stores",
 "Serving filters has no test.",
 [N+"/cmd_getcfilters.go", W+"/msg_getcfilters.go", W+"/msg_cfilter.go"],
 [("range validation and answer loop", N+"/cmd_getcfilters.go")],
 ["cfilter messages on the wire"],
 technique=PBT+"a reference range model over in-memory peers", note="Order of the answers is not constrained.")

prop("C16", "Announced inventory is requested exactly",
 "Each inventory announcement from a peer is answered on the same connection with one data request listing exactly the announced items (type and hash) in order, for any number of items the protocol allows.",
 ["inputs"], "inventories of 0..several thousand entries of any type",
 "Inventory handling has no test; larger counts need the multi-byte form.",
 [N+"/cmd_inv.go", W+"/msg_inv.go", W+"/msg_getdata.go"],
 [("inventory handler", N+"/cmd_inv.go")],
 ["getdata messages on the wire"],
 technique=PBT+"an echo model over in-memory peers", note="Empty inventories may be answered with an empty request or not at all.")

prop("C17", "Silent peers are dropped, responsive peers are kept",
 "Every connected peer is pinged every two minutes; a peer that answers each ping with its nonce within one minute is never dropped, and a peer that does not is disconnected and its connection closed when the minute has passed. One peer's silence, wrong nonces, unsolicited pongs or disconnection never affects the liveness tracking or service of the others.",
 ["schedules", "histories", "fault_sequences"], "all answer delays (including immediate and at the deadline), nonces, peers and write failures",
 "No test waits for pings; the behaviour depends on timing and on interleavings between peers.",
 [N+"/handle_ping.go", N+"/cmd_pong.go", N+"/node.go"],
 [("per-peer ping timer and pong routing", N+"/handle_ping.go:monitorPeer, monitorPeers"), ("disconnection", N+"/node.go:disconnectPeer")],
 ["ping messages and closure of the peer connections, on a fake clock"],
 technique="property-based testing of timed histories on a fake clock against a liveness model", note="Fake time makes minutes exact; answers exactly at the deadline are only required not to disturb other peers.")

prop("C18", "A submitted transaction reaches every connected peer unchanged",
 "Submitting a valid transaction in hex sends each connected peer exactly one transaction message whose payload is exactly those bytes, also when submissions run concurrently or some peer's connection fails. Invalid hex or an invalid transaction is reported as an error and nothing is sent.",
 ["inputs", "schedules", "fault_sequences"], "all transactions, peer sets, concurrent submissions and failing connections",
 "Broadcasting has no test.",
 [N+"/node.go", W+"/msg_tx.go"],
 [("broadcast loop", N+"/node.go:SendTransaction")],
 ["tx messages on the wire", "error results"],
 technique="property-based testing with generated peers and write faults", note="Peers are in-memory connections.")

prop("C19", "The mempool tracks exactly the unconfirmed transactions and tells everyone",
 "After any sequence of received transactions and blocks of the stored chain, the mempool contains exactly the transactions received and not confirmed by a later block, whether the block or its header came first and whichever peers sent them. Every subscriber registered at the time gets one unconfirmed event for each new transaction and one confirmed event when a block includes it, no more and no fewer, even with slow subscribers and concurrent calls. Stopping the mempool at any moment neither crashes the process nor blocks callers.",
 ["inputs", "schedules", "histories"], "all histories of add/confirm/subscribe/read/stop, concurrent or not",
 "The one test adds and confirms three transactions sequentially.",
 [N+"/mempool.go", N+"/cmd_tx.go", N+"/cmd_block.go"],
 [("transaction map and its lock", N+"/mempool.go"), ("ingestion", N+"/cmd_tx.go, cmd_block.go:handleBlock"), ("subscriber notification", N+"/mempool.go:notifySubscribers")],
 ["MemPool.GetMemPool", "subscriber channels"],
 technique="model-based (stateful) property testing on a fake scheduler, plus concurrent stress histories", note="Relative order of the events of different transactions is not constrained.")

prop("C20", "Stopping the node stops everything it started",
 "After the node is stopped, at any point during or after synchronisation, it closes its peer connections, ends all of its background work, lets a pending start return, and no longer writes to its header or filter store nor sends messages, whatever peers still send. A start that fails leaves neither a connection nor background work behind, and does not keep a later one from succeeding.",
 ["schedules", "histories"], "all stop points within generated sync histories; all sequences of failing starts",
 "No test stops a node.",
 [N+"/node.go", N+"/handle_ping.go", N+"/chainsync.go", N+"/mempool.go"],
 [("quit channel", N+"/node.go:Start, Stop")],
 ["open goroutines of the node", "peer connections", "store writes"],
 technique="property-based testing of stop points in a fake-clock bubble with leak detection", note="Leak detection is exact: the bubble fails if any goroutine survives.")

# ---------------------------------------------------------------- storage
IM = "internal/infrastructure/storage/db/inmemory"; PG = "internal/infrastructure/storage/db/pg"
prop("C30", "Header stores behave as one chain map",
 "For both header stores, after any sequence of writes every written header is returned, unaltered, by its hash and by its height; unknown hashes and heights give the not-found error and an empty store the no-headers error. The tip is the highest header written, writing a header again changes nothing and does not prevent the other headers of that call from being stored, and the ancestor check is true exactly when every header down to height one is present.",
 ["inputs", "histories"], "all write/read histories (batches, duplicates, gaps, forks of height) on each store",
 "Unit tests of the SQL store need a live database and fixtures; the in-memory store is not tested directly.",
 [IM+"/header_inmemory.go", PG+"/header_repository_impl.go", "pkg/repository/header_repository.go"],
 [("in-memory store", IM+"/header_inmemory.go"), ("SQL store", PG+"/header_repository_impl.go")],
 ["BlockHeaderRepository API"],
 technique="model-based (stateful) property testing of both stores against one reference model", note="The SQL store runs against an in-process SQL engine stand-in that implements the statements it issues and enforces the uniqueness constraints read from the migration script; PostgreSQL itself is not installed.")

prop("C31", "Filter stores return exactly what was stored",
 "For both filter stores, a stored filter is returned byte for byte for its block hash and type, and only for them; a lookup of anything else gives the not-found error. Storing the same filter again is harmless, and a conflicting second filter never yields anything but one of the two, with an error if the first is kept. Concurrent use loses no stored filter.",
 ["inputs", "histories", "schedules"], "all put/get histories and keys, concurrent callers",
 "The SQL test stores one filter; the in-memory store is untested.",
 [IM+"/filter_inmemory.go", PG+"/filter_repository_impl.go", "pkg/repository/filter_repository.go"],
 [("key derivation", "pkg/repository/filter_repository.go:FilterKey.String"), ("stores", IM+"/filter_inmemory.go, "+PG+"/filter_repository_impl.go")],
 ["FilterRepository API"],
 technique="model-based property testing of both stores, differential", note="SQL stand-in as in C30.")

prop("C32", "Database failures are reported and never half-applied",
 "If the database fails at any statement, commit or connection attempt during a store operation, the operation returns an error instead of crashing or reporting success, and the database holds either all or none of that call's writes. After the failure passes, repeating the operation succeeds and gives the state an uninterrupted run would have given.",
 ["fault_sequences", "histories"], "every failure point (and kind of error) of every operation in generated histories",
 "Needs fault injection; the tests use a healthy database.",
 [PG+"/header_repository_impl.go", PG+"/filter_repository_impl.go", PG+"/db_service.go"],
 [("transactions and error mapping", PG+"/header_repository_impl.go:WriteHeaders; filter_repository_impl.go:PutFilter")],
 ["repository API results", "database contents"], level="fault_enumeration",
 technique="property-based testing with enumerated fault points in a stand-in SQL driver", note="Every driver call of each generated operation is failed in turn, with driver, connection and PostgreSQL errors.")

prop("C33", "Block locators let any peer find the fork point",
 "For any non-empty gap-free store, the locator starts with the tip's hash, continues with strictly lower stored blocks (the tip itself may appear twice), includes each of the last blocks one by one before its steps grow exponentially, reaches down to the lowest blocks, and never exceeds the protocol's 500 entries. For an empty store it reports that there are no headers, and on a store with gaps it fails without crashing or still lists only stored blocks.",
 ["inputs"], "all chain lengths and gaps, both stores",
 "A single ten-header fixture is tested, with a live database only.",
 [IM+"/header_inmemory.go", PG+"/header_repository_impl.go"],
 [("locator construction", IM+"/header_inmemory.go:blockLocatorFromHash; "+PG+"/header_repository_impl.go:blockLocatorFromHash")],
 ["LatestBlockLocator"],
 technique=PBT+"a validity predicate and a differential check of the two stores", note="Chain lengths up to a few thousand.")

# ---------------------------------------------------------------- scanner
prop("C40", "Scanning reports exactly the matching transactions",
 "Over a fixed chain with all headers, filters and blocks available, each lasting watch is reported once for every transaction, at or above its start height, that pays the watched script or spends the watched output, and a one-off watch once for each matching transaction of the first block that has one; nothing else is reported. Each report carries the right transaction, block hash, height and originating request.",
 ["inputs", "configurations"], "all chains, transactions and sets of watches (start heights, kinds, duplicates, shared scripts)",
 "The scanner tests need a live network and watch one address at a time.",
 [S+"/scanner.go", S+"/watchitem.go", S+"/requestqueue.go", S+"/request.go"],
 [("batch scan over heights", S+"/scanner.go:requestWorker, blockFilterMatches, extractBlockMatches"), ("matching", S+"/watchitem.go")],
 ["reports channel"],
 technique=PBT+"a naive full-scan reference model", note="Filters are real BIP158 filters built by the harness, including false-positive and collision-prone ones.")

prop("C41", "Watches work however arrival and chain growth interleave",
 "Watches added at any time, in any order and with any start heights (including far above the tip), while the chain grows block by block, are each served as if they had been there from the start: no report is lost, duplicated, or delayed behind a watch whose start is not reached yet. A watch is served promptly once its blocks are available, without the scanner waiting for unrelated requests.",
 ["schedules", "histories"], "all interleavings of adding watches, extending the chain, filters arriving after headers, and consuming reports",
 "Tests add one or two watches to a static chain.",
 [S+"/scanner.go", S+"/requestqueue.go"],
 [("request queue and manager loop", S+"/requestqueue.go, scanner.go:requestsManager")],
 ["reports channel in a fake-clock bubble"],
 technique="stateful property-based testing on generated schedules against the full-scan model", note="Schedules are controlled through the fakes and log hook points; filters may lag behind their headers.")

prop("C42", "Failures during scanning lose and duplicate nothing",
 "Transient failures of the header store, filter store or block source at any point of a scan never lose a watch or a report: once they stop, every report of an undisturbed run is delivered, exactly once, and the scanner keeps serving.",
 ["fault_sequences", "histories"], "all sequences of transient failures at any call",
 "Tests never inject failures.",
 [S+"/scanner.go"],
 [("error handling of the scan worker", S+"/scanner.go:requestWorker, requestsManager")],
 ["reports channel"], level="fault_enumeration",
 technique="property-based testing with injected fault sequences against the full-scan model", note="Faults are injected per call index in fakes of the three collaborators; a block the source answers not-found for is documented as skipped.")

prop("C43", "Watching a descriptor watches exactly its scripts",
 "Watching a wallet descriptor for received outputs reports, for its subscriber and from its start height, exactly the transactions paying the script of the descriptor, or one of its first 100 scripts if it is ranged, each once. A descriptor that cannot be parsed or expanded is an error, leaves nothing watched, and never crashes.",
 ["inputs"], "all descriptors (fixed and ranged keys, malformed strings), start heights and payments at any index",
 "The tests use one or two fixed descriptors.",
 [S+"/scanner.go", S+"/watchitem.go"],
 [("descriptor expansion", S+"/scanner.go:WatchDescriptorWallet")],
 ["reports channel", "error results"],
 technique=PBT+"an independent script derivation", note="Spent-output events for descriptors are a recorded known finding.")

prop("C44", "The scanner can be stopped and restarted at any time",
 "Stopping the scanner returns promptly whether it is idle, scanning or delivering, and afterwards it reads no store and delivers nothing. Starting it again resumes the pending watches without losing or repeating reports, and starting a running scanner is an error and disturbs nothing.",
 ["schedules", "histories"], "all stop/start points in generated scan histories",
 "No test stops or restarts a scanner in a controlled state.",
 [S+"/scanner.go"],
 [("quit channel and manager loop", S+"/scanner.go:Start, Stop, requestsManager")],
 ["reports channel", "calls to the stores"],
 technique="stateful property-based testing of stop/start schedules in a fake-clock bubble", note="Reports handed to the reader before the stop count as delivered.")

# ---------------------------------------------------------------- services
prop("C50", "Subscriptions are isolated and events reach their own subscriber",
 "Every on-chain event found for a subscription is delivered once, labelled with that subscription's identity, event type, transaction, height and block. A subscription that is invalid, or whose descriptor is unusable, produces an error for that subscriber alone and has no effect on any other, existing or later. Unsubscribing succeeds exactly for known subscribers, and nothing found after it is delivered to the former subscriber.",
 ["inputs", "histories", "schedules"], "all histories of subscribe/unsubscribe/events, valid or not",
 "The service has no unit tests.",
 ["internal/core/application/notification_service.go", "internal/core/application/types.go"],
 [("subscriber loop and event forwarding", "internal/core/application/notification_service.go")],
 ["EventReport and ErrorReport channels", "Subscribe/UnSubscribe results", "calls to the scanner"],
 technique="stateful property-based testing against a routing model with a scripted scanner", note="The scanner is a scripted fake; C56 uses the real one.")

prop("C51", "The webhook API answers once, correctly, and posts to the right URL",
 "Every HTTP subscription request gets exactly one well-formed JSON answer (or an HTTP error status for an undecodable body): success when the registration was accepted, an error message otherwise, and event types may be given by the documented names. Every event of an accepted registration is posted to exactly that registration's URL with the right type and transaction id, and failing or slow endpoints, rejected requests and events for unknown subscribers never stop delivery to others.",
 ["inputs", "histories", "fault_sequences"], "all request bodies and event histories, failing endpoints",
 "Only an end-to-end test against a live network exists.",
 [H+"/http_handler.go", H+"/notification_handler.go", "pkg/neutrinod-types/types_http.go"],
 [("request handler", H+"/http_handler.go"), ("event dispatch", H+"/notification_handler.go")],
 ["HTTP responses", "webhook posts"],
 technique="stateful property-based testing with generated requests and a scripted notification service", note="Unregistering a webhook through the API always gets an error answer, since the request carries no identity; the answer is checked, not the removal.")

prop("C52", "The WebSocket API answers each request once and routes events",
 "Each text message on a subscription socket, within the size the server reads, gets exactly one answer: success, or the error that made it fail; malformed messages never end other connections' service. Every event or error of a socket's subscription is sent to that socket only, as one well-formed message, however answers and events interleave. Once the socket closes its subscription is removed, and events for it neither crash nor block the service. A client that stops reading does not stop the service of the others.",
 ["inputs", "histories", "schedules"], "all message sequences on many sockets, interleaved with events and disconnections",
 "Only an end-to-end test against a live network exists.",
 [H+"/ws_handler.go", H+"/notification_handler.go"],
 [("socket loop", H+"/ws_handler.go:handleRequest"), ("event dispatch", H+"/notification_handler.go")],
 ["WebSocket frames", "calls to the notification service"],
 technique="stateful property-based testing over real sockets with a scripted notification service", note="Loopback sockets; no wall-clock value decides a verdict other than a generous hang limit.")

prop("C53", "Middlewares wrap in order and contain panics",
 "Wrapping a handler with any list of middlewares runs them outermost first and the handler last, exactly once per request, with the request and response passed through unaltered. With the recovery middleware anywhere outside it, a panic with any value in a handler or inner middleware yields an internal-server-error answer instead of ending the process, and later requests are served normally.",
 ["inputs", "configurations"], "all middleware stacks, panic values and panic positions",
 "Middlewares have no tests.",
 ["internal/interface/web-socket/middleware/middleware_service.go", "internal/interface/web-socket/middleware/panic.go", "internal/interface/web-socket/middleware/logging.go"],
 [("wrapping", "internal/interface/web-socket/middleware/middleware_service.go"), ("recovery", "internal/interface/web-socket/middleware/panic.go")],
 ["HTTP responses and call order"],
 technique=PBT+"a trace model", note="Handlers that already wrote a status keep it.")

prop("C54", "Fetching a block returns that block or a faithful error",
 "Fetching a block asks the explorer for exactly that hash's raw bytes and returns the block those bytes encode, for any block and any response segmentation. A 404 gives the not-found error and nothing else does; any other status, an undecodable or truncated body, or a connection that breaks or stalls gives an error, never a crash or a partial block.",
 ["inputs", "fault_sequences"], "all blocks, statuses, truncations, segmentations and disconnections",
 "The client has no unit tests.",
 ["pkg/blockservice/service.go"],
 [("HTTP client and decoding", "pkg/blockservice/service.go:GetBlock")],
 ["BlockService.GetBlock"],
 technique="property-based testing against a scripted HTTP explorer", note="Loopback HTTP server or in-memory transport.")

prop("C55", "Configuration is read, validated and kept exactly",
 "The daemon's configuration takes each documented environment variable's value, the documented default otherwise, and refuses networks other than the three supported. The command-line tool's stored settings equal the last value given to each key after any sequence of commands, and printing shows exactly them.",
 ["inputs", "histories", "configurations"], "all environments; all sequences of config commands",
 "Neither has tests.",
 ["internal/config/config.go", "cmd/neutrino/main.go", "cmd/neutrino/config.go"],
 [("environment binding", "internal/config/config.go"), ("state file merge", "cmd/neutrino/main.go:setState")],
 ["config getters", "CLI output and state file in a scratch HOME"],
 technique=PBT+"a last-write-wins map model (library and built CLI)", note="The CLI runs as a child process with HOME in a scratch directory.")

prop("C56", "End to end: a subscriber hears of every payment exactly once",
 "With the whole daemon running against an honest peer and explorer on any supported network, a WebSocket client or webhook that subscribes to a wallet descriptor from some height is told exactly once of every transaction paying that wallet at or above that height, already mined or mined later, and of nothing else.",
 ["inputs", "schedules", "histories", "configurations"], "generated chains, descriptors, subscription times and new blocks; all networks",
 "The end-to-end tests need a live regtest network and check one payment.",
 ["internal/interface/web-socket/server.go", N+"/node.go", S+"/scanner.go", "internal/core/application/notification_service.go", H+"/notification_handler.go"],
 [("service wiring", "internal/interface/web-socket/server.go:Start")],
 ["WebSocket frames", "webhook posts"],
 technique="property-based end-to-end testing with a simulated peer and explorer", note="Loopback sockets; in-memory stores.")

prop("C57", "The daemon starts only if it can serve and stops whenever it is told to",
 "Starting the daemon either serves its API once it is synced with its peer, or delivers the error that keeps it from doing so (the peer refuses connections, its port is taken). Cancelling its context at any moment, before, during or after the initial synchronisation and whatever its clients and its peer are doing, makes it stop in bounded time without a crash: Start returns, the stop function is called, the error channel is closed, the port is free again, the connection to the peer is closed and none of its background work goes on.",
 ["schedules", "histories", "fault_sequences"], "all moments of stopping; peers that are silent, slow, hang up or refuse; ports taken; clients in any state",
 "Nothing tests the daemon's life cycle.",
 ["internal/interface/web-socket/server.go", "internal/core/application/notification_service.go", N+"/node.go"],
 [("start and shutdown", "internal/interface/web-socket/server.go:Start")],
 ["the error channel and stop function of NeutrinoServer.Start", "sockets", "goroutines after the end"],
 technique="property-based testing of the life cycle with injected peer faults and random moments of stopping", note="Loopback sockets and in-memory or fake-postgres stores; sockets of WebSocket clients are closed by the clients.")

prop("C58", "The subscribe command sends what was asked and prints each message once",
 "However its daemon's address and path were configured, `neutrino subscribe` connects to that address and path, sends one registration that carries exactly the given descriptor, height and event types in the given order, and then prints every event, answer and error of the daemon once and in the order they were sent. When the connection is refused, closed or dropped it ends with a non-zero status, and it contacts nobody when a required option is missing.",
 ["inputs", "histories", "configurations"], "all descriptors, heights, event lists, configured addresses and message sequences",
 "The command-line tool has no tests.",
 ["cmd/neutrino/subscribe.go", "cmd/neutrino/main.go", "pkg/neutrinod-types"],
 [("subscribe command", "cmd/neutrino/subscribe.go:subscribeAction"), ("connection", "cmd/neutrino/main.go:getNeutrinodConnection")],
 ["exit status and output of the built CLI", "WebSocket frames at the daemon"],
 technique=PBT+"the plan of a scripted daemon (the built CLI as a child process)", note="Loopback sockets; HOME in a scratch directory.")

prop("C59", "The daemon keeps its data and goes on after restarts and crashes",
 "The daemon program logs into the configured database with exactly the configured credentials, creates its schema there once, and ends with status 0 on SIGTERM, SIGINT and SIGQUIT. Whatever the moment at which it is stopped or killed (once its schema exists), the database then holds an unbroken prefix of the peer's chain with only genuine filters, nothing that was stored is ever lost or changed, and a daemon started again on it comes up, completes the chain, and tells a new subscriber of every payment since its start height exactly once.",
 ["crash_points", "histories", "fault_sequences", "configurations"], "all moments of being killed, all statements and commits; generated chains, credentials and subscriptions",
 "Nothing runs the daemon program; the stores are only tested with a live database.",
 ["cmd/neutrinod/main.go", "internal/infrastructure/storage/db/pg", "internal/interface/web-socket/server.go", N+"/chainsync.go"],
 [("program", "cmd/neutrinod/main.go:main"), ("database service", "internal/infrastructure/storage/db/pg/db_service.go:NewDbService"), ("resuming", N+"/chainsync.go:syncWithPeer")],
 ["exit status of the built daemon", "rows of the database", "WebSocket frames and webhook posts"],
 technique="property-based crash-point testing: the built daemon against a simulated database server, peer and explorer, killed at generated statements, commits and times", note="The database server is a simulation of PostgreSQL's protocol and of the SQL the daemon uses; kills during the very first schema creation are left out (the migration library then wants an operator).")

import sys; sys.path.insert(0, os.path.join(ROOT, "tools"))
from checks_config import CHECKS
CLAIMED = list(CHECKS)
NOT_APPLICABLE = [(p["id"], "not built yet") for p in P if p["id"] not in CLAIMED]
HOOK_COMMITS = ["e8e54b58e607340b091f990782ed10ee67d229b0"]
