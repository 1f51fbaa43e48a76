#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so the records stay readable).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":[observe]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","The active header chain is always consensus-valid",
 "Whatever headers peers or the user supply, in whatever order, batching and at whatever time, every block of the chain the node reports as active descends from the network's genesis, satisfies its proof-of-work, carries exactly the difficulty its own ancestors require, has a timestamp above the median of its own eleven ancestors and no more than two hours ahead of network-adjusted time when it was accepted, and agrees with the checkpoints. A header that breaks one of these rules never becomes, and never stays, part of the active chain, whether it extends the tip or sits anywhere on a competing branch.",
 ["inputs","schedules","histories"],"every set of headers (valid, mutated, forked, out of order), every interleaving of their delivery by several peers and the user, every clock trajectory",
 "Tests import a handful of fixed or randomly grown valid chains into the tree; they do not mutate headers on branches, cross difficulty periods on forks, or interleave peers, so rule checks evaluated against the wrong ancestors go unseen.",
 ["chain/src/block/cache.rs","common/src/block/tree.rs","common/src/block/time.rs","p2p/src/fsm/syncmgr.rs"],
 [("header validation","chain/src/block/cache.rs: validate, validate_branch, import_block"),("difficulty retarget","common/src/block/tree.rs: next_difficulty_target; cache.rs: next_min_difficulty_target"),("median time past","cache.rs: median_time_past")],
 "tree queries (tip, by height, by hash) after every step of the simulated node")

p("C02","The most-work valid chain is selected whatever the arrival order",
 "After any set of valid headers has been imported, in any order, batching, duplication or mix of sources, the active chain is the valid chain with the greatest accumulated work among them, and among equals on test networks the one whose tip has the lowest hash, and the reported total work is exactly the sum of the work of its blocks. The node never moves to a chain with less work, and blocks of losing branches stay known so that a later extension can make them win.",
 ["inputs","schedules","histories"],"every block tree and every permutation, batching and duplication of its headers across peers and user imports",
 "The tree tests compare with a model on chains generated in-process with one import at a time and constant difficulty; they do not vary batch boundaries, sources, difficulty and interleaved reorganisations.",
 ["chain/src/block/cache.rs","common/src/block/tree.rs"],
 [("chain selection","chain/src/block/cache.rs: import_block, chain_candidates, fork, switch_to_fork"),("work accounting","cache.rs: rollback, extend_chain, chainwork")],
 "tree queries after every import of the simulated node")

p("C03","Chain events replay to exactly the active chain",
 "A subscriber that starts from the chain reported at start-up and applies every block-connected and block-disconnected event in order always holds exactly the node's active chain: connects extend the subscriber's tip, disconnects remove the subscriber's tip from the highest block downwards, no block is skipped, repeated or invented. The headers-imported summary of each change names the same blocks and the new tip.",
 ["schedules","histories","inputs","fault_sequences"],"every history of header messages, imports, reorganisations (including several within one message and ones cut short by an invalid header), peer failures and restarts",
 "Tests check events for single, clean reorganisations; batches which abort half-way, or reorganise more than once, are never driven.",
 ["p2p/src/fsm/syncmgr.rs","p2p/src/fsm.rs","chain/src/block/cache.rs","p2p/src/fsm/event.rs"],
 [("event emission on import","p2p/src/fsm/syncmgr.rs: import_blocks / extend_chain"),("connected/reverted accounting","chain/src/block/cache.rs: import_blocks")],
 "event subscription of the client handle, compared with tree queries after every step")

p("C04","Stored headers survive any crash and reload as a valid chain",
 "If the process stops at any instant, including in the middle of a write or of a reorganisation, or if a disk write fails or is cut short, the next start succeeds without manual repair, and the headers it loads form one linked chain from genesis, each a header the node had accepted, and none that had been completely written before the interruption and not reverted since is lost. The node then synchronises normally from there.",
 ["crash_points","fault_sequences","histories"],"every crash point (any byte of any write, truncate), every torn or failing write, every history of extensions and reorganisations, repeated crashes",
 "Store tests corrupt a file once at a record boundary or a fixed offset; no test stops a running node inside a multi-part write or a reorganisation, nor injects disk errors.",
 ["chain/src/block/store/io.rs","chain/src/block/cache.rs","client/src/client.rs"],
 [("append and truncate","chain/src/block/store/io.rs: put, rollback"),("recovery","io.rs: check, heal; client/src/client.rs: load; cache.rs: load_with")],
 "headers file and the chain reported after restart, versus the journal of completed writes")

p("C05","Filter headers always mirror the active chain",
 "At every moment the node's filter-header chain is at most as long as its block chain, each entry being (as far as its peers told the truth) the commitment for the block at that height of the active chain; when blocks are reverted the commitments above the fork are dropped with them, and after any crash the two chains are aligned again on restart. As long as a reachable peer serves filters truthfully, the filter-header chain catches up with the block chain, also after reorganisations, restarts, timeouts and peer losses.",
 ["schedules","crash_points","histories","fault_sequences"],"every interleaving of header and filter-header download, reorganisations at any point of it, crashes between the updates of the two stores",
 "Tests drive one peer with scripted replies and a single rollback; crash windows between the two stores and interleaved reorganisations are out of their reach.",
 ["p2p/src/fsm/cbfmgr.rs","p2p/src/fsm.rs","chain/src/filter/cache.rs","client/src/client.rs","chain/src/block/store/io.rs"],
 [("filter-header sync","p2p/src/fsm/cbfmgr.rs: sync, received_cfheaders"),("rollback","cbfmgr.rs: rollback; chain/src/filter/cache.rs: rollback"),("verification at load","chain/src/filter/cache.rs: verify_with")],
 "filters file, filter-header replies to peers, filter-tip reports")

p("C06","A rescan visits every block once, in order, and misses no match",
 "For every rescan range and watch list, every block of the active chain in the range is filtered exactly once and in increasing height order, every block that contains a watched script is downloaded and delivered as a match, in height order, and the scan is never reported to have passed a height with an undelivered match. When blocks are replaced while the scan is running, the replaced heights are scanned again on the new branch, and a bounded rescan reports completion exactly when its last height has been filtered; all this under any filter arrival order, duplication, timeouts, peer losses and cache hits.",
 ["schedules","histories","inputs","fault_sequences"],"every order of filter and block deliveries, every reorganisation during the scan, every watch list change, every range, cache size and peer failure pattern",
 "Rescan tests use short chains with a single peer that answers in a few scripted orders; none combines reorganisations, lost peers, cached filters and reordered replies.",
 ["p2p/src/fsm/cbfmgr.rs","p2p/src/fsm/cbfmgr/rescan.rs","p2p/src/fsm/filter_cache.rs","p2p/src/fsm/invmgr.rs","p2p/src/fsm.rs"],
 [("rescan state machine","p2p/src/fsm/cbfmgr/rescan.rs"),("filter processing","p2p/src/fsm/cbfmgr.rs: received_cfilter, process; filter_cache.rs"),("block fetch and ordered processing","p2p/src/fsm/invmgr.rs: get_block, received_block")],
 "event subscription: filter-processed, block-matched, scanned, rescan started/stopped")

p("C07","Only authenticated filters and blocks are ever delivered",
 "Every filter the node processes or hands to its user hashes into the filter-header commitment the node holds for that height, and every block it delivers, matches or uses to change a transaction's status is the complete block committed to by a header on its active chain at that height, with transactions that match the header's merkle root. Data that fails these checks, was never requested or belongs to another chain has no effect on what the user sees.",
 ["inputs","schedules","fault_sequences"],"every forged, corrupted, swapped, truncated or stale filter and block sent by any mix of honest and malicious peers at any time",
 "Tests only feed well-formed data plus one or two invalid filters; blocks with a valid header and altered contents, or replies racing with reorganisations, are never sent.",
 ["p2p/src/fsm/cbfmgr.rs","p2p/src/fsm/invmgr.rs","common/src/block/filter.rs"],
 [("filter authentication","p2p/src/fsm/cbfmgr.rs: received_cfilter"),("block acceptance","p2p/src/fsm/invmgr.rs: received_block")],
 "event subscription: filter-received, filter-processed, block-processed, block-matched, transaction status")

p("C08","Submitted transactions are relayed until confirmed and tracked truthfully",
 "A submitted transaction is announced to every connected relaying peer, including ones that connect later, served on request, re-announced periodically to each of them until it asks for it or the transaction is known to be confirmed, and handed to the user's tracker with statuses that are true: acknowledged only by a peer that asked for it, confirmed only in a block of the active chain that contains it, reverted when that block leaves the chain (after which it is relayed again), and confirmed again on the new branch.",
 ["schedules","histories","fault_sequences"],"every interleaving of submissions, peer arrivals and losses, getdata requests, confirmations, reorganisations and timer firings",
 "Tests submit one or two transactions with fixed peers and a single confirm/revert cycle.",
 ["p2p/src/fsm/invmgr.rs","p2p/src/fsm.rs","p2p/src/fsm/event.rs"],
 [("announcement and rebroadcast","p2p/src/fsm/invmgr.rs: announce, received_wake, received_getdata"),("confirmation and revert","invmgr.rs: received_block, block_reverted")],
 "messages sent to peers and transaction status events")

p("C09","Header sync always reaches the best honest chain once faults stop",
 "Whatever happened before - lost, stalled, lying or reordered peers, timeouts, reorganisations, partitions, restarts, clock jumps - once faults stop and at least one honest full-node peer stays reachable, the node's tip equals the most-work chain offered by honest peers within a bounded time, new blocks they announce are followed within a bounded time, and the node then reports itself synchronised to that tip (provided the tip is recent and no peer claims more blocks than it has).",
 ["schedules","fault_sequences","histories"],"every prior fault sequence and peer mix; every chain shape, length and announcement style",
 "Sync tests use cooperating peers or one scripted timeout; recovery from compound faults is a liveness claim over all schedules.",
 ["p2p/src/fsm/syncmgr.rs","p2p/src/fsm.rs","p2p/src/fsm/peermgr.rs"],
 [("header download and retries","p2p/src/fsm/syncmgr.rs: sync, request, received_headers, received_wake"),("tip tracking","syncmgr.rs: received_inv, sample_peers")],
 "tip queries and synchronised events after the faults stop")

p("C10","Peer sessions follow the handshake and event protocol",
 "For every connection the user sees at most one connected, then at most one negotiated, then exactly one disconnected event, in that order; negotiation is reported only after both sides' version and acknowledgement were exchanged in the right order, and nothing but handshake traffic is sent to or acted upon from a peer before that. Peers that are ourselves, speak too old a version, lack the services an outbound peer needs, or do not complete the handshake in time are disconnected; the configured inbound and outbound limits are never exceeded.",
 ["schedules","inputs","fault_sequences"],"every interleaving of connection, handshake, timeout and disconnection events over many peers, with misordered, repeated, missing or invalid handshake messages",
 "Tests cover single scripted handshakes and a few misorderings, not interleavings across many peers with failing connections.",
 ["p2p/src/fsm/peermgr.rs","p2p/src/fsm.rs"],
 [("handshake state machine","p2p/src/fsm/peermgr.rs: received_version, received_verack, peer_connected"),("limits and timeouts","peermgr.rs: received_wake, peer_connected")],
 "event subscription and messages sent to each peer")

p("C11","Protocol-violating peers are dropped; honest peers never are",
 "A peer that provably misbehaves - sends headers that cannot be valid, oversized or malformed replies, filters or filter headers that contradict what it must know, or undecodable bytes - is disconnected and is not dialled again while banned, and nothing it sent stays in effect. A peer that follows the protocol is never reported or disconnected as misbehaving, however slow, reordered or reorganising the network is.",
 ["inputs","schedules","fault_sequences"],"every misbehaviour kind at every protocol state, every honest behaviour under arbitrary delays and reorganisations",
 "Tests assert a few misbehaviours in isolation and never the absence of punishment over arbitrary honest schedules.",
 ["p2p/src/fsm.rs","p2p/src/fsm/syncmgr.rs","p2p/src/fsm/cbfmgr.rs","p2p/src/fsm/addrmgr.rs","p2p/src/stream.rs","client/src/service.rs"],
 [("misbehaviour handling","p2p/src/fsm/syncmgr.rs: record_misbehavior, handle_error; cbfmgr.rs: handle_error"),("bans","p2p/src/fsm/addrmgr.rs: ban; peermgr.rs: disconnected")],
 "events, disconnections and later dial attempts")

p("C12","Unresponsive peers are detected and live ones kept",
 "Every negotiated peer is pinged at the configured interval, each ping is answered by a matching pong, and a peer which does not answer a ping within the timeout is disconnected promptly, whatever else it sends. A peer that answers pings in time is never disconnected for inactivity, and every ping received gets exactly one pong with the same nonce.",
 ["schedules","fault_sequences"],"every pattern of delays, stalls, wrong or late nonces, disconnects and clock jumps over many peers",
 "Tests check one ping/pong cycle with one peer.",
 ["p2p/src/fsm/pingmgr.rs","p2p/src/fsm.rs"],
 [("ping state machine","p2p/src/fsm/pingmgr.rs: received_wake, received_pong, received_ping")],
 "ping/pong traffic and disconnections on every connection")

p("C13","No peer input can crash, wedge or confuse the node",
 "No sequence of bytes from any set of peers, at any protocol state, makes the node panic, loop forever or stop serving its other peers and its user. The effect of a byte stream depends only on its content and never on how the network splits or coalesces it, and an undecodable stream only ends that one connection.",
 ["inputs","schedules","fault_sequences"],"every sequence of well-formed, extreme-valued, mutated and random messages at every protocol state, every fragmentation",
 "Tests decode a fixed stream in a few chunk sizes and never send extreme values of every message kind at every state.",
 ["client/src/service.rs","p2p/src/stream.rs","p2p/src/fsm.rs","p2p/src/fsm/syncmgr.rs","p2p/src/fsm/cbfmgr.rs","p2p/src/fsm/invmgr.rs","p2p/src/fsm/addrmgr.rs","p2p/src/fsm/fees.rs"],
 [("stream decoding","p2p/src/stream.rs: Decoder; client/src/service.rs: message_received"),("message dispatch","p2p/src/fsm.rs: message_received")],
 "panic/hang detection around every step; twin runs with different fragmentation compared output by output")

p("C14","The address book stays sane and survives restarts",
 "The address book only ever holds routable peer addresses of enabled networks, never ones beyond its per-group limits, and remembers the acceptable addresses offered to it while there is room; the node only dials addresses it learned from a source or was told to dial, never two connections to the same address at once, and never one that is banned or was tried too recently. What was saved is read back identically after a restart, and a crash at any point of saving never prevents the node from starting.",
 ["inputs","schedules","crash_points"],"every address gossip history, every connection outcome, every crash point during the save",
 "Tests insert small fixed sets; they do not interleave gossip with dialling outcomes nor interrupt a save.",
 ["p2p/src/fsm/addrmgr.rs","client/src/peer.rs","common/src/p2p/peer.rs","p2p/src/fsm/peermgr.rs"],
 [("address selection","p2p/src/fsm/addrmgr.rs: insert, sample, peer_attempted, peer_disconnected"),("persistence","client/src/peer.rs: open, flush")],
 "connection attempts, address replies to peers, the peers file across restarts")

p("C15","Network-adjusted time is bounded, median-based and follows the clock",
 "The network-adjusted time equals local time plus the median of the offsets of distinct peers (one sample per host, a minimum number of samples, a bounded number kept), is never more than seventy minutes from local time, and follows every local clock change including backwards jumps; peers can never move it further, however many times they connect.",
 ["inputs","schedules","histories"],"every sequence of peer clocks, reconnections and local clock jumps",
 "Tests add fixed offsets; they do not interleave reconnects and local clock jumps.",
 ["common/src/block/time.rs","p2p/src/fsm.rs","p2p/src/fsm/peermgr.rs"],
 [("offset sampling","common/src/block/time.rs: AdjustedTime; peermgr.rs: received_version")],
 "acceptance or rejection of headers at the future-time boundary")

p("C16","Replies served to peers describe the active chain",
 "Header replies start right after the highest locator known on the active chain (or at genesis), are contiguous, stop at the requested stop block or the protocol maximum and contain only active-chain headers; filter-header replies are consistent with the requested range of the active chain and the node's own filter-header chain; nothing is served to a peer that has not completed the handshake. The locators the node itself sends come from its active chain as of the first such request (or are the last header just received from that peer), newest first and ending in genesis or a block not above the last checkpoint, which any peer that shares the chain must know.",
 ["inputs","schedules","histories"],"every locator list, stop hash and range, at any point of sync, reorganisation or restart",
 "Tests query static chains with a few locators.",
 ["chain/src/block/cache.rs","p2p/src/fsm/syncmgr.rs","p2p/src/fsm/cbfmgr.rs","chain/src/filter/cache.rs"],
 [("header serving","p2p/src/fsm/syncmgr.rs: received_getheaders; cache.rs: locate_headers, locator_hashes"),("filter header serving","p2p/src/fsm/cbfmgr.rs: received_getcfheaders")],
 "messages sent to probing peers")

p("C17","Connectivity is restored after any disruption",
 "Whenever the node has fewer outbound peers than its target and knows candidate addresses that can be reached, it gets connected to enough of them within a bounded time after faults stop; configured persistent peers are redialled after every loss with a delay that grows between failures up to a bound and starts afresh after a success, for as long as the node runs.",
 ["schedules","fault_sequences","histories"],"every history of refused, stalled and dropped connections, partitions, bans and restarts",
 "Tests check single reconnects; recovery after compound failures over hours of simulated time is never run.",
 ["p2p/src/fsm/peermgr.rs","p2p/src/fsm/addrmgr.rs"],
 [("outbound maintenance","p2p/src/fsm/peermgr.rs: maintain_connections, maintain_persistent"),("candidate sampling","p2p/src/fsm/addrmgr.rs: sample, received_wake")],
 "connection attempts and negotiated peers over simulated time")

p("C18","The socket reactor delivers bytes, connections and timers faithfully",
 "Under any readiness order, partial read or write, would-block, interruption or socket error, the reactor delivers to the service exactly the bytes each peer sent, in order, and transmits exactly the bytes the service wrote, in order; every established connection yields exactly one connect and one disconnect notification and every dial attempt ends in one of connected or disconnected. Every timer requested by the service fires no earlier than asked and, within the reactor's granularity, no later, and no command or shutdown request is lost.",
 ["schedules","fault_sequences"],"every schedule of socket readiness, short transfer, error and clock advance",
 "Reactor tests use two real loopback sockets; the kernel never produces short writes, interruptions or adverse orders on demand.",
 ["net/poll/src/reactor.rs","net/poll/src/socket.rs","net/poll/src/time.rs","net/poll/src/fallible.rs"],
 [("event loop","net/poll/src/reactor.rs: run, process, handle_readable, handle_writable"),("write buffering","net/poll/src/socket.rs"),("timers","net/poll/src/time.rs")],
 "calls made by the reactor on an instrumented service, and the simulated kernel's socket logs")

p("C19","User handle calls and subscriptions never lose or misreport anything",
 "Every event is delivered to every subscriber exactly once, in emission order, from its subscription on, whatever other subscribers do (slow, dropped, added at any time); every command is executed exactly once in submission order and answered from the state at that point. Waiting calls return as soon as their condition holds, including when it already held or is overshot, and an out-of-range or otherwise invalid request yields an error and never disturbs the node.",
 ["schedules","histories","inputs"],"every interleaving of user threads' calls with node activity, every argument",
 "Tests call each operation once in a quiet state.",
 ["client/src/client.rs","client/src/handle.rs","net/src/event.rs","p2p/src/fsm.rs"],
 [("publish/subscribe","net/src/event.rs"),("handle","client/src/client.rs: Handle"),("command dispatch","p2p/src/fsm.rs: command")],
 "handle call results versus the reference state of the simulated node")

p("C20","The wallet's balance equals its unspent outputs on the active chain",
 "After the wallet has processed the node's notifications up to some height, its balance and coin list equal the outputs paying its addresses in blocks of the active chain up to that height minus those spent by them, for every order of blocks containing receipts and spends, repeated deliveries, restarts and reorganisations.",
 ["histories","crash_points","schedules"],"every chain of blocks with receipts and spends, every replay, restart point and reorganisation",
 "Wallet tests exercise the database calls one by one.",
 ["wallet/src/wallet.rs","wallet/src/wallet/db.rs"],
 [("block application","wallet/src/wallet.rs: apply"),("coin database","wallet/src/wallet/db.rs")],
 "wallet balance and database after each notification")

p("C21","Requested blocks and filters are eventually delivered",
 "Every block of the active chain that the user asks for, and every filter and block that a running rescan needs, is requested again when a peer stalls, refuses or disconnects, and is delivered within a bounded time once some reachable peer can serve it; a request that cannot be answered, because the block is unknown or has left the chain, never delays other requests, later blocks or other peers' data.",
 ["schedules","fault_sequences","histories"],"every pattern of stalls, not-found replies, losses and reorganisations while requests are outstanding",
 "Tests check a single retry with a fixed peer set.",
 ["p2p/src/fsm/invmgr.rs","p2p/src/fsm/cbfmgr.rs","p2p/src/fsm/cbfmgr/rescan.rs"],
 [("block request retries","p2p/src/fsm/invmgr.rs: received_wake, request"),("filter request retries","p2p/src/fsm/cbfmgr.rs: received_wake, get_cfilters")],
 "events after faults stop")

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for r in P:
        assert len(r["title"])<=80,(r["id"],len(r["title"]))
        f.write(json.dumps(r)+"\n")
