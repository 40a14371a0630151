"""Specification table: the properties, and how each is decided."""

def Q(over, text):
    return {"over": over, "text": text}

def A(files, mech, **kw):
    d = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    d.update(kw)
    return d

HOOKS = {"guard": "cfg(nakamoto_verif)", "enable": "RUSTFLAGS=--cfg nakamoto_verif, set by check.sh, replay.sh and setup.sh", "source_commits": ["d8f4663"]}
NOT_APPLICABLE = []

PROPS = [
    dict(
        id="C01",
        title="Only consensus-valid headers ever enter the active chain",
        statement="Every header on the active chain links to its predecessor, carries the difficulty its network's rules require at that point, meets that target without exceeding the network's limit, is later than the median of the eleven headers before it, and was at most two hours ahead of the clock when accepted, all judged against its own ancestors. A header breaking one of these rules never becomes part of the active chain, and a header obeying them that extends the tip is accepted.",
        quantifier=Q(["inputs", "histories", "configurations"], "All header trees, arrival orders, batchings and clocks; networks with and without retargeting and minimum-difficulty rules."),
        why_tests_cant="The tests import a few fixed chains and one random tree without retargeting; rules at retarget boundaries, on side branches and at exact time limits need every tree and order.",
        anchors=A(["chain/src/block/cache.rs", "common/src/block/tree.rs", "common/src/block/time.rs"],
                  [("header validation", "chain/src/block/cache.rs: validate, validate_branch, median_time_past"),
                   ("difficulty", "common/src/block/tree.rs: next_difficulty_target, adjusted_difficulty_target")]),
        technique="property-based testing: generated header trees against a reference implementation of the consensus rules",
        level_note="Generated trees of up to 48 mined headers on four kinds of network with short retarget periods; each rule is broken by itself at its boundary value.",
    ),
    dict(
        id="C02",
        title="The active chain is always the valid chain with the most work",
        statement="After any sequence of header imports the active tip ends a valid chain whose total work is the highest among all chains formed by the headers offered so far; it is replaced only by a chain with more work or, outside mainnet, by one with equal work and a smaller hash. The same set of valid headers leads to a chain of the same (highest) work whatever the order and grouping in which they arrive, and the reported chain work is the sum over the active chain.",
        quantifier=Q(["inputs", "histories", "configurations"], "All trees of headers, with orphans and duplicates, in every order and batching."),
        why_tests_cant="Existing tests shuffle one small random tree of equal-difficulty headers; work comparison across different difficulties and arbitrary orders is not sampled.",
        anchors=A(["chain/src/block/cache.rs", "common/src/block/tree.rs"],
                  [("fork choice", "chain/src/block/cache.rs: import_block, chain_candidates, switch_to_fork")]),
        technique="model-based property testing: reference fork choice over generated header trees, plus order-independence (metamorphic)",
        level_note="Trees of up to 30 headers, all orders and batchings drawn at random, difficulties varying between branches.",
    ),
    dict(
        id="C03",
        title="The result of an import is exactly the change of the active chain",
        statement="The result of importing a batch of headers describes exactly the difference between the active chain before and after: the headers connected in ascending order from the fork point to the new tip, the headers reverted in descending order from the old tip, and the new tip itself; it says the tip is unchanged exactly when the chain is. Applying the results of successive successful imports to a copy of the chain reproduces the chain.",
        quantifier=Q(["inputs", "histories"], "All trees of headers and all batches, including batches that switch branches several times."),
        why_tests_cant="The tests check a few single-switch batches; several switches within one batch and duplicates are not sampled.",
        anchors=A(["chain/src/block/cache.rs"],
                  [("import result", "chain/src/block/cache.rs: import_blocks, import_block, extend_tip")]),
        technique="property-based testing: import results compared with the difference of the chains before and after",
        level_note="Generated batches that flip between competing branches, with duplicates and orphans.",
    ),
    dict(
        id="C04",
        title="All queries on the block tree describe one and the same active chain",
        statement="At every moment, lookups by height and by hash, iteration in both directions, ranges, tip, height, chain work, membership, median times, best-branch searches, locator hashes and locator-based header location all agree with one hash-linked active chain starting at genesis. Locators start at the requested height, thin out at most exponentially and reach down to genesis or the last checkpoint; headers known but not on the active chain are reported as known and never as part of it.",
        quantifier=Q(["histories", "inputs"], "All import histories with reorganisations and all query arguments."),
        why_tests_cant="Tests query small fixed chains; agreement between all queries after arbitrary reorganisations needs generated histories.",
        anchors=A(["chain/src/block/cache.rs", "common/src/block/tree.rs", "common/src/block/iter.rs"],
                  [("queries", "chain/src/block/cache.rs: impl BlockReader for BlockCache"), ("iteration", "common/src/block/iter.rs")]),
        technique="model-based property testing: every query against a plain list model after each import",
        level_note="Histories as in C02 plus linear chains of up to 260 headers.",
    ),
    dict(
        id="C05",
        title="A reached checkpoint is never contradicted or replaced",
        statement="The active chain never contains, at a checkpoint's height, a header other than the checkpoint. Once the chain has reached a checkpoint, no later import changes the chain at or below its height, however much work a competing branch has and whenever its headers were first seen.",
        quantifier=Q(["inputs", "histories", "configurations"], "All trees, checkpoint placements and arrival orders, including branches learned before the checkpoint was reached."),
        why_tests_cant="Tests offer one competing branch after the checkpoint; branches learned earlier, heavier branches and several checkpoints are not sampled.",
        anchors=A(["chain/src/block/cache.rs"],
                  [("checkpoint rule", "chain/src/block/cache.rs: last_checkpoint, import_block, chain_candidates, validate")]),
        technique="property-based testing: generated trees with checkpoints against an invariant over the history",
        level_note="One to three checkpoints on one path of trees of up to 30 headers; heavier side branches below the checkpoint.",
    ),
    dict(
        id="C06",
        title="Stored headers read back exactly, through rollbacks and restarts",
        statement="A header store always holds exactly the sequence genesis, then everything appended, minus what was rolled back: lookups, iteration, length and height agree with that sequence at every moment, for block headers and filter headers, in memory and on file, and a file store reopened later holds the same sequence. A block tree on a file store, closed and loaded again after any import history, has the same active chain.",
        quantifier=Q(["histories", "inputs"], "All sequences of appends, rollbacks, reads, iterations, syncs and reopenings; all import histories."),
        why_tests_cant="Tests append a handful of headers and reopen once; buffer sizes, rollbacks across reopenings and histories with reorganisations are not sampled.",
        anchors=A(["chain/src/block/store/io.rs", "common/src/block/store.rs", "chain/src/block/cache.rs"],
                  [("file store", "chain/src/block/store/io.rs: put, get, rollback, Iter"), ("tree load", "chain/src/block/cache.rs: load_with")]),
        technique="model-based property testing of the stores against a list",
        level_note="Sequences of up to 30 operations with batches around the read buffer sizes; trees of up to 40 headers with reloads.",
    ),
    dict(
        id="C07",
        title="A crash while writing a header store loses at most what was being written",
        statement="If the process dies at any point of an append, rollback or import, the header store can be opened and healed, and then holds an unaltered prefix of the chain before or after the interrupted operation that includes everything untouched by it. A torn record is detected, and removed by healing; a block tree loaded from the healed store works on and can import what was lost again.",
        quantifier=Q(["crash_points", "histories"], "Every byte at which an append can be interrupted and every point between the store's mutations during an import."),
        why_tests_cant="One test truncates a store at one point; every cut, and crashes inside reorganisations, are not sampled.",
        anchors=A(["chain/src/block/store/io.rs", "chain/src/block/cache.rs", "client/src/client.rs"],
                  [("detection and healing", "chain/src/block/store/io.rs: check, heal"), ("rollback before append", "chain/src/block/cache.rs: switch_to_fork, extend_tip")]),
        technique="fault injection: generated crash points (file cuts, mutations cut short, processes killed by the kernel while writing), recovery checked against the old and new chain",
        level="fault_enumeration",
        level_note="Crash points are enumerated at random over all bytes and mutations of generated histories; loss of data the operating system had accepted is not modelled.",
    ),
    dict(
        id="C08",
        title="The filter header chain stays linked, aligned and verifiable",
        statement="The filter header chain always starts at the network's genesis filter header and consists of exactly the records imported and not rolled back; each record's header commits to its filter hash and to the header before it, and verification of the chain succeeds exactly if all of them do. Reads of any height or range, including empty and out-of-range ones, return exactly the stored records, also after a reload.",
        quantifier=Q(["histories", "inputs"], "All sequences of imports, corrupted records, rollbacks, clears and reloads."),
        why_tests_cant="Tests import one fixed range; arbitrary ranges, rollbacks and single corrupted records are not sampled.",
        anchors=A(["chain/src/filter/cache.rs", "common/src/block/filter.rs"],
                  [("filter cache", "chain/src/filter/cache.rs: import_headers, get_headers, rollback, clear, verify_with")]),
        technique="model-based property testing of the filter header chain against a list",
        level_note="Chains of up to 60 filter headers in memory and on file.",
    ),
    dict(
        id="C09",
        title="Filter headers always follow the active chain, and catch up with it",
        statement="At every moment the stored filter headers are no more than the block headers and belong, height by height, to the blocks of the active chain, whatever peers send, in whatever order, and however the chain is re-organised; only peers telling plausible lies about filter hashes are excluded. With an honest outbound peer that serves compact filters connected, the filter headers reach the height of the block headers. Filters and filter headers are only requested of blocks on the active chain, and not more at once than the protocol allows.",
        quantifier=Q(["histories", "schedules", "inputs"], "All schedules of messages, timers, connections, re-organisations, user imports and faulty answers."),
        why_tests_cant="The tests sync one chain with one or two peers in fixed order; re-organisations and answers arriving at any moment are not sampled.",
        anchors=A(["p2p/src/fsm/cbfmgr.rs", "p2p/src/fsm.rs"],
                  [("filter header sync", "p2p/src/fsm/cbfmgr.rs: received_cfheaders, sync, rollback, received_event")]),
        technique="stateful property testing of the state machine in a simulated network, against a generated universe of blocks and their filters",
        level_note="Up to 4 outbound peers, chains of up to 50 blocks (and one of 2,500 for the message limits), up to 60 environment steps, then up to three simulated hours with honest peers.",
    ),
    dict(
        id="C13",
        title="Replaying the chain events always gives the client's active chain",
        statement="Applying the emitted events in order (a disconnected block removes the tip, a connected block extends it) to the chain at startup always yields the client's active chain, whether headers came from peers or from the user, and also if only part of a message was valid. Each import of headers that changes the chain is summed up by one event with the new tip and exactly the blocks connected and reverted, and says so if it was a re-organisation. The headers are reported in sync only with the active tip, only if no connected peer announced a greater height, and only if that tip is less than two hours old.",
        quantifier=Q(["histories", "schedules", "inputs"], "All schedules of messages, timers, connections, re-organisations and user imports."),
        why_tests_cant="The tests look at the events of a few fixed scenarios; aborted imports and repeated re-organisations by several peers are not sampled.",
        anchors=A(["p2p/src/fsm/syncmgr.rs", "p2p/src/fsm.rs", "p2p/src/fsm/event.rs"],
                  [("chain events", "p2p/src/fsm/syncmgr.rs: import_blocks, extend_tip")]),
        technique="stateful property testing: events of a simulated network replayed against the block tree",
        level_note="Up to 4 outbound and 4 inbound peers on up to a dozen competing branches, up to 60 environment steps.",
    ),
    dict(
        id="C23",
        title="The peer address file keeps exactly what was flushed to it",
        statement="After a flush, reopening the peer store yields exactly the addresses it held, with their services, source and times; without a flush nothing changes on disk. A damaged file yields an error or a usable store, never a crash, and a process that dies while flushing leaves either the old or the new addresses.",
        quantifier=Q(["histories", "inputs", "crash_points"], "All sequences of inserts, updates, removals, flushes and reopenings; all address contents; damage and crashes at any byte."),
        why_tests_cant="Tests save and load two addresses; other field values, damage and interrupted flushes are not sampled.",
        anchors=A(["client/src/peer.rs", "common/src/p2p/peer.rs"],
                  [("flush and open", "client/src/peer.rs: Cache"), ("serialization", "common/src/p2p/peer.rs: KnownAddress::to_json, from_json")], hook_needed="the module is private"),
        technique="model-based property testing against a map, with file damage and kernel-killed flushes",
        level_note="Up to 25 operations per case; times up to the year 2106.",
    ),
    dict(
        id="C29",
        title="The client catches up with the best chain of its honest peers",
        statement="The client never moves to a chain with less work. Whatever happened before, once its peers are honest, on one chain that is the best, and one of them is connected and answers, the client reaches that chain's tip: within a quarter of an hour for a peer that connected since, and with the next blocks announced for one that was connected all along. If no block comes for long, the client asks its connected peers, and so finds blocks that no peer announced within an hour and a half, if some peer that has them was not yet asked from the same tip.",
        quantifier=Q(["histories", "schedules"], "All earlier schedules of messages, timers, connections, re-organisations, silent and faulty peers."),
        why_tests_cant="Eventual progress after arbitrary histories cannot be sampled by scripted scenarios.",
        anchors=A(["p2p/src/fsm/syncmgr.rs"],
                  [("header sync", "p2p/src/fsm/syncmgr.rs: sync, received_headers, received_timeout, request, best_height")]),
        technique="stateful property testing: bounded liveness after a generated history in a simulated network",
        level_note="Up to 4 outbound peers, chains of up to 50 blocks (and one of 2,500); up to five rounds of blocks announced in the calm phase.",
    ),
    dict(
        id="C32",
        title="Peers are punished exactly for misbehaviour, never for being honest",
        statement="A peer that follows the protocol is never reported or disconnected as misbehaving, whatever its timing relative to re-organisations, other peers' messages and the client's own requests, and is disconnected for a timeout only if something it was asked for on this connection is overdue. A negotiated peer that sends an invalid header, too many headers, a filter not matching its header, or a handshake message out of order is disconnected at once, and no other peer is.",
        quantifier=Q(["histories", "schedules", "inputs"], "All schedules with honest and faulty peers; all single invalid messages of the kinds listed."),
        why_tests_cant="The tests send a few invalid messages in fixed states; that no honest schedule is ever punished is a universal statement.",
        anchors=A(["p2p/src/fsm/syncmgr.rs", "p2p/src/fsm/cbfmgr.rs", "p2p/src/fsm/peermgr.rs", "p2p/src/fsm.rs"],
                  [("misbehaviour", "p2p/src/fsm/syncmgr.rs: handle_error, received_headers; p2p/src/fsm/cbfmgr.rs: received_cfheaders, received_cfilter; p2p/src/fsm.rs: message_received")]),
        technique="stateful property testing in a simulated network with honest and faulty peers",
        level_note="Up to 4 outbound peers, up to 60 environment steps; silent peers may be disconnected for timing out.",
    ),
    dict(
        id="C10",
        title="A rescan finds and delivers every matching block in its range",
        statement="A rescan processes the filter of every height of its range exactly once and in order, from its first to its last height and no further (going back to the fork point after a re-organisation), always for the active chain's block, and reports a match exactly if the filter matches a watched script. Every block that matched and stays on the active chain is delivered complete, in order of height, also if its filter was cached; the reported scan height never runs ahead of what was scanned and delivered. With an honest peer that serves compact filters connected, the scan reaches the tip or its end.",
        quantifier=Q(["histories", "schedules", "inputs"], "All ranges, watch lists, cache sizes and schedules of rescans, watch commands, filter requests, messages, timers, connections and re-organisations."),
        why_tests_cant="The tests rescan fixed ranges of one chain with prompt answers; overlapping rescans, caches, lost answers and re-organisations at any moment are not sampled.",
        anchors=A(["p2p/src/fsm/cbfmgr.rs", "p2p/src/fsm/cbfmgr/rescan.rs", "p2p/src/fsm/invmgr.rs", "p2p/src/fsm.rs"],
                  [("rescan", "p2p/src/fsm/cbfmgr.rs: rescan, get_cfilters, received_cfilter, rollback"), ("processing", "p2p/src/fsm/cbfmgr/rescan.rs: process, requests, received")]),
        technique="stateful property testing in a simulated network; a monitor follows the scan through the events, with matches computed from the generated blocks",
        level_note="Up to 4 outbound peers, chains of up to 50 blocks (and one of 2,500), up to 60 environment steps with several rescans, then up to three simulated hours with honest peers.",
    ),
    dict(
        id="C11",
        title="Only authentic filters and blocks are processed or handed to the user",
        statement="A compact filter is accepted only if it hashes to the stored filter header of its block on the active chain, and a block only if its transactions are those its header commits to; filters and blocks that are not are never processed, cached or reported, solicited or not. Each accepted filter and block is reported with its true height.",
        quantifier=Q(["inputs", "histories", "schedules"], "All corruptions of filters and blocks, at any moment of any schedule, solicited or not."),
        why_tests_cant="The tests send correct filters and blocks; forged contents under a correct block hash are not sampled.",
        anchors=A(["p2p/src/fsm/cbfmgr.rs", "p2p/src/fsm/invmgr.rs"],
                  [("filter check", "p2p/src/fsm/cbfmgr.rs: received_cfilter"), ("block check", "p2p/src/fsm/invmgr.rs: received_block")]),
        technique="stateful property testing with corrupted filters and blocks, compared with the generated universe",
        level_note="Up to 4 peers sending corrupted filters and blocks, solicited and unsolicited, in schedules of up to 60 steps; wrong filter hashes in plausible filter headers are excluded.",
    ),
    dict(
        id="C12",
        title="The filter cache never exceeds its capacity, and returns what was put in",
        statement="After any sequence of insertions and rollbacks, the filter cache holds exactly the filters inserted last at each height and not rolled back, less those with the smallest heights evicted to stay within its capacity; its reported size is the sum of the sizes of the filters it holds and never exceeds its capacity. A filter that can never fit is refused and changes nothing.",
        quantifier=Q(["histories", "inputs"], "All sequences of insertions (in any order of heights, with replacements) and rollbacks, and all capacities."),
        why_tests_cant="The existing test only appends at increasing heights; replacements and gaps are not sampled.",
        anchors=A(["p2p/src/fsm/filter_cache.rs"], [("cache", "p2p/src/fsm/filter_cache.rs: push, rollback, get, size")]),
        technique="model-based property testing against an ordered map",
        level_note="Up to 40 operations on 12 heights, capacities from 0 to 1,000 bytes.",
    ),
    dict(
        id="C17",
        title="Requested blocks are fetched, and delivered once and in order",
        statement="A requested block that stays on the active chain is fetched again until a peer delivers it, and reported as processed with its true height, exactly once per request; blocks reported at the same time come in order of height. Blocks that are unknown, no longer on the active chain, or served by nobody aren't reported and never hold up the others, and once the connected peers are honest and there is at least one, every requested block of the active chain is delivered within five minutes.",
        quantifier=Q(["histories", "schedules", "inputs"], "All schedules of requests (also for unknown and stale blocks), messages, timers, connections, silent peers and re-organisations."),
        why_tests_cant="The tests request single blocks of one chain; several outstanding requests, re-organisations and unknown blocks are not sampled.",
        anchors=A(["p2p/src/fsm/invmgr.rs"], [("block download", "p2p/src/fsm/invmgr.rs: get_block, timer_expired, received_block")]),
        technique="stateful property testing in a simulated network: exactly-once, order and bounded liveness of deliveries",
        level_note="Up to 4 outbound peers, up to 60 environment steps, then up to an hour of simulated time until honest peers are connected, and five minutes from there.",
    ),
    dict(
        id="C16",
        title="Submitted transactions are relayed, and their status is tracked correctly",
        statement="A submitted transaction is announced to every negotiated peer that wants transactions relayed (by wtxid exactly if the peer negotiated that), also to peers connecting later, until the peer requests it or it is confirmed; it is sent only to peers that request it, and nothing else is ever announced or sent. It is reported acknowledged once per requesting peer and announcement, confirmed with the right block and height as soon as a scanned active-chain block contains it, whatever its outputs and witnesses, and reverted when that block is disconnected (up to twelve blocks deep), after which it is watched and announced again. A lookup finds it exactly while it is unconfirmed.",
        quantifier=Q(["histories", "schedules", "inputs"], "All transactions and schedules of submissions, connections, peer requests, blocks, re-organisations and timers."),
        why_tests_cant="The tests follow one transaction through one script of events; combinations of peers, reverts, segwit transactions and unspendable outputs are not sampled.",
        anchors=A(["p2p/src/fsm/invmgr.rs", "p2p/src/fsm/cbfmgr.rs", "p2p/src/fsm/cbfmgr/rescan.rs", "p2p/src/fsm.rs"],
                  [("relay", "p2p/src/fsm/invmgr.rs: announce, peer_negotiated, received_getdata, timer_expired"), ("confirmation", "p2p/src/fsm/invmgr.rs: process_received, block_reverted; p2p/src/fsm/cbfmgr.rs: watch_transaction; p2p/src/fsm/cbfmgr/rescan.rs: match_filter")]),
        technique="stateful property testing in a simulated network: a monitor of announcements, requests and status events, and bounded liveness",
        level_note="Up to 4 outbound peers, up to 5 transactions, up to 60 environment steps, then calm phases with a block containing the pending transactions and a re-organisation of up to 14 blocks.",
    ),
    dict(
        id="C24",
        title="Fee estimates are those of the blocks processed, also after rollbacks",
        statement="The estimate for a block is the lowest, median and highest fee rate (satoshis per virtual byte, rounded) over exactly those of its transactions that spend only outputs of the blocks processed before and not rolled back, or of the block itself; it is absent if there is no such transaction or the height isn't above that of the last block. Rolling back forgets exactly the blocks above the given height, up to twelve of them (it starts over if it has to go back further), and does nothing if there are none; no block content makes the estimator fail.",
        quantifier=Q(["histories", "inputs"], "All sequences of blocks (also with gaps, repeated heights and invalid amounts) and rollbacks."),
        why_tests_cant="The existing tests roll a single generated chain back twice and compare one estimate.",
        anchors=A(["p2p/src/fsm/fees.rs", "p2p/src/fsm/invmgr.rs"],
                  [("estimator", "p2p/src/fsm/fees.rs: process, rollback, apply, FeeEstimate::from"), ("use", "p2p/src/fsm/invmgr.rs: block_reverted, process_received")]),
        technique="model-based property testing: estimates recomputed from the history of blocks; also through the events of a simulated network",
        level_note="Up to 40 operations with up to 6 transactions per block; simulated networks with re-organisations of up to 14 blocks. Amounts adding up to more than 2^64 are only checked for not failing.",
    ),
    dict(
        id="C14",
        title="The handshake negotiates exactly with acceptable peers, and only once",
        statement="A connection follows the version handshake: version and verack are sent once each, features before verack, and until both veracks are exchanged nothing but handshake messages and answers to requests is sent; a peer is reported negotiated exactly once, with the data of its version message, and only negotiated peers are listed. It is disconnected exactly if its protocol version is too old, it is an outbound peer without the required services or more than 2,016 blocks behind us (unless whitelisted or local), it is ourselves (an inbound version with a nonce we sent), there are enough outbound peers and it lacks compact filters, a user hook refuses it, it uses another network's magic, repeats verack or wtxidrelay after negotiation, or stalls for 12 seconds. No other content of handshake messages (heights, times, services, nonces) disconnects a peer or makes the client fail.",
        quantifier=Q(["inputs", "histories", "schedules"], "All version messages and orders of handshake messages, on any number of inbound and outbound connections, with any delays."),
        why_tests_cant="The tests run a few correct handshakes and single deviations from them; orders of messages, extreme field values and several connections are not sampled.",
        anchors=A(["p2p/src/fsm/peermgr.rs", "p2p/src/fsm.rs", "common/src/block/time.rs"],
                  [("handshake", "p2p/src/fsm/peermgr.rs: peer_connected, handle_version, handle_verack, received_wtxidrelay, received_timer"), ("dispatch", "p2p/src/fsm.rs: message_received")]),
        technique="model-based property testing of connection histories against a reference state machine of the handshake",
        level_note="Up to 6 connections and 40 steps per history; header chains of up to 2,060 blocks; whitelisted, local and other peers; generated configurations.",
    ),
    dict(
        id="C15",
        title="Connections stay within limits, recover, and are reported truthfully",
        statement="Outbound connections, apart from those the user asks for, never exceed the target by more than half, inbound connections are accepted exactly up to their limit, no address is dialed that is connected, being dialed or of an unsupported domain; as long as unused suitable addresses are known, dropped connections are replaced until the target is reached, however many inbound peers there are. Configured persistent peers are dialed again after a delay that doubles from one second up to an hour and no other peers are dialed then; connect and disconnect commands take effect. Every connection is reported connected, then at most once negotiated, then disconnected once; every failed attempt, or one without answer for six seconds, is reported failed.",
        quantifier=Q(["histories", "schedules", "fault_sequences"], "All schedules of accepted, refused, lost and stalled connections, commands and clock advances, with any limits."),
        why_tests_cant="The tests check fixed sequences with one or two peers; limits under churn, back-off and command races are not sampled.",
        anchors=A(["p2p/src/fsm/peermgr.rs", "p2p/src/fsm/addrmgr.rs", "p2p/src/fsm.rs"],
                  [("connections", "p2p/src/fsm/peermgr.rs: connect, disconnect, maintain_connections, maintain_persistent, peer_connected, peer_disconnected, delta"), ("address source", "p2p/src/fsm/addrmgr.rs: sample_with")]),
        technique="stateful property testing with injected connection failures: a monitor of dials, limits and events, and bounded liveness",
        level_note="Targets of 0 to 5 outbound and 0 to 5 inbound peers, up to 3 persistent peers, up to 60 steps, then a phase in which all peers are reachable.",
    ),
    dict(
        id="C18",
        title="The address book keeps valid addresses, and dialed ones come from it",
        statement="Address messages (of 1 to 1,000 addresses) and imports add exactly the routable addresses of supported domains that offer the required services and neither BLOOM nor GETUTXO, aren't ours, banned or known, and (for messages) have a last active time at most an hour ahead; each address range keeps at most 256, dropping some only when full. Peers are dialed only from the book: not those connected, banned, sampled within two minutes or attempted without success, and preferred services first; a peer disconnected for misbehaviour, or in any way that isn't transient, is removed for good. A getaddr request is answered with one address of each range; peers in the book are asked for addresses on the first success, and outbound peers when no unused addresses are left.",
        quantifier=Q(["histories", "inputs", "schedules"], "All sequences of address messages, imports, connections, failures and disconnections."),
        why_tests_cant="The tests insert a few addresses; interactions of bans, ranges, connections and sampling over time are not sampled.",
        anchors=A(["p2p/src/fsm/addrmgr.rs", "p2p/src/fsm/peermgr.rs"],
                  [("book", "p2p/src/fsm/addrmgr.rs: insert, sample_with, ban, populate_address_ranges, received_getaddr, timer_expired"), ("use", "p2p/src/fsm/peermgr.rs: maintain_connections")]),
        technique="model-based property testing of address histories against a reference address book",
        level_note="Up to 60 steps with messages of up to 1,001 addresses, IPv4, IPv6 and onion addresses, bans and connections from and to addresses of the book.",
    ),
    dict(
        id="C20",
        title="Byte streams decode to the same messages however they are split",
        statement="A stream of bytes from a peer yields exactly the messages encoded in it, in order, whatever the boundaries of the reads; what the client sends decodes to the messages it meant to send, and a client fed with bytes behaves like one fed with the messages. A message that is malformed, ends before its stated length, carries a wrong checksum or another network's magic, or claims more than the allowed size, is reported as an error as soon as it can be told, the peer is disconnected, and the client never waits for the rest of such a message, crashes or is affected by it.",
        quantifier=Q(["inputs", "schedules"], "All streams of valid and corrupted messages, and all ways of splitting them into reads."),
        why_tests_cant="The tests decode two fixed messages split at a few places; corrupted lengths, counts, checksums and arbitrary splits of all message kinds are not sampled.",
        anchors=A(["p2p/src/stream.rs", "client/src/service.rs", "client/src/stream.rs"],
                  [("decoder", "p2p/src/stream.rs: Decoder::input, decode_next"), ("service", "client/src/service.rs: message_received, connected, disconnected")]),
        technique="round-trip and metamorphic property testing: chunked streams against whole messages, mutated streams against a reference of what can be decoded, and histories replayed as bytes",
        level_note="All kinds of messages, up to 8 per stream, with 0 or 1 mutations; histories of up to 40 steps replayed through the client's service in random chunks.",
    ),
    dict(
        id="C21",
        title="No message, command or event sequence crashes or wedges the client",
        statement="Whatever messages connected peers send, in whatever order and batches, whatever commands the user gives, and however connections come and go, the protocol state machine doesn't panic, and every input is processed with finitely many outputs. Afterwards an honest peer that can be reached brings the client to the best chain.",
        quantifier=Q(["inputs", "histories", "schedules"], "All sequences of well-formed messages of all kinds with arbitrary contents, commands with arbitrary arguments, connections and clock advances."),
        why_tests_cant="The tests send what each of them expects; messages out of context, with extreme values, and commands given at odd times are not sampled.",
        anchors=A(["p2p/src/fsm.rs", "p2p/src/fsm/syncmgr.rs", "p2p/src/fsm/cbfmgr.rs", "p2p/src/fsm/invmgr.rs", "p2p/src/fsm/peermgr.rs", "p2p/src/fsm/addrmgr.rs", "p2p/src/fsm/pingmgr.rs"],
                  [("inputs", "p2p/src/fsm.rs: message_received, command, connected, disconnected, timer_expired, next")]),
        technique="stateful fuzzing of the state machine with structured messages and commands in a simulated network; oracle: no panic, bounded output, and liveness with an honest peer afterwards",
        level_note="Up to 60 steps per history with overflow checks and debug assertions on; up to 4 scripted peers plus inbound ones; clocks from 2011 on.",
    ),
    dict(
        id="C28",
        title="Same inputs, same behaviour, however they are batched",
        statement="The protocol state machine is deterministic: the same state, random seed and inputs at the same times give the same messages, connections, timers and events. It also doesn't matter whether outputs are processed after each input or after several inputs that arrive at once.",
        quantifier=Q(["histories", "schedules"], "All histories of connections, messages, commands and timers, and all groupings of simultaneous inputs."),
        why_tests_cant="The tests drain all outputs after each input; reactors don't.",
        anchors=A(["p2p/src/fsm.rs", "p2p/src/fsm/output.rs", "net/poll/src/reactor.rs"],
                  [("outputs and events", "p2p/src/fsm.rs: next, settle, event, message_received"), ("grouping", "net/poll/src/reactor.rs: run")]),
        technique="metamorphic property testing: recorded histories are replayed, identically and with outputs held back, and the outputs compared",
        level_note="Histories of up to 40 steps; messages compared per connection, and events, connections and timers in order.",
    ),
    dict(
        id="C19",
        title="Pings are answered, and peers that stop answering are dropped",
        statement="Every ping of a negotiated peer is answered with exactly one pong carrying its nonce, also if it arrives along with the message that completes the handshake, and no pong is sent otherwise. Each peer is pinged as soon as it is negotiated and again at least two minutes (and not much more than three) after it answered, never while a ping is unanswered. A peer is disconnected for not answering exactly if the last ping wasn't answered, with its nonce, within the configured time, and then within a minute or so.",
        quantifier=Q(["histories", "schedules"], "All schedules of pings, right, wrong, late and missing answers, connections and timers."),
        why_tests_cant="The tests follow one peer through one answer and one timeout; wrong nonces, several peers, batched messages and merged timers are not sampled.",
        anchors=A(["p2p/src/fsm/pingmgr.rs", "p2p/src/fsm.rs"],
                  [("pings", "p2p/src/fsm/pingmgr.rs: peer_negotiated, timer_expired, received_ping, received_pong")]),
        technique="stateful property testing in a simulated network: a monitor of pings, pongs and disconnections over the history",
        level_note="Up to 4 outbound and some inbound peers, 80 steps, timeouts from 5 to 150 seconds.",
    ),
    dict(
        id="C22",
        title="The network time follows the median of the peers' clocks, within limits",
        statement="The network-adjusted time is the local time plus an offset that is the median of zero and the offsets of up to 200 sources, each counted once, updated when there are at least five and an odd number of them, and that is zero if the median is more than 70 minutes off. No offset, however extreme, and no local time makes it wrap around or fail, and all holders of the clock see the same time. Sums, differences and conversions of times and durations are exact, and the time since a later time is zero.",
        quantifier=Q(["inputs", "histories"], "All sequences of offsets, sources and local times."),
        why_tests_cant="One test records six fixed offsets.",
        anchors=A(["common/src/block/time.rs", "p2p/src/fsm/peermgr.rs"],
                  [("clock", "common/src/block/time.rs: AdjustedTime::record_offset, from, get; RefClock")]),
        technique="model-based property testing of sequences of offsets against a reference clock",
        level_note="Up to 260 samples; offsets over the whole range of 64-bit integers; local times from 0 to 2^32.",
    ),
    dict(
        id="C27",
        title="Requests for headers and filter headers are answered exactly",
        statement="A negotiated peer's getheaders request is answered, unless the client is waiting for headers itself, with the headers of the active chain that follow the first of the locators on it (or genesis), up to the stop hash and at most 2,000. A getcfheaders request is answered with exactly the filter hashes from the start height to the stop block, linked to the right previous filter header, if these are at most 2,000 and all of them are known and on the active chain; it is never answered partially, and nothing else is ever served.",
        quantifier=Q(["inputs", "histories"], "All requests at all moments of a client's history, also while it syncs and during re-organisations."),
        why_tests_cant="One test requests headers from a synced client; filter headers lagging behind, over-long and empty ranges and stale stop blocks are not sampled.",
        anchors=A(["p2p/src/fsm/syncmgr.rs", "p2p/src/fsm/cbfmgr.rs", "chain/src/block/cache.rs", "common/src/block/filter.rs"],
                  [("headers", "p2p/src/fsm/syncmgr.rs: received_getheaders"), ("filter headers", "p2p/src/fsm/cbfmgr.rs: received_getcfheaders")]),
        technique="stateful property testing: generated requests during simulated histories, answers compared with the client's chain",
        level_note="Histories of up to 70 steps on short chains, and chains of up to 2,500 blocks for the limits.",
    ),
    dict(
        id="C34",
        title="Hooks see every message, and a message they drop has no effect",
        statement="The message hook is called once for each message of a connected peer, in order, before the message has any effect; if the hook returns an error, the client behaves exactly as if the message had never arrived. The hooks for getdata and getcfilters are called once for each such message that isn't dropped, with its sender and contents.",
        quantifier=Q(["histories", "inputs"], "All histories, with arbitrary further messages of all kinds inserted anywhere and dropped."),
        why_tests_cant="One test drops peers by their version message; the other hooks have no tests.",
        anchors=A(["p2p/src/fsm.rs"], [("hooks", "p2p/src/fsm.rs: message_received, Hooks")]),
        technique="metamorphic property testing: recorded histories are replayed with dropped messages inserted, and the behaviour compared",
        level_note="Histories of up to 40 steps; about a third of the inputs preceded by a dropped message.",
    ),
    dict(
        id="C25",
        title="Timers expire in order, exactly once, when they are due",
        statement="A timeout that is registered is returned by waking exactly once, at the first wake-up not before its time, and timeouts are returned in the order of their times. Registering is refused only if another timeout is already set closer to it than the threshold, and the time until the next timeout is always that of the earliest one set, or zero if it is overdue.",
        quantifier=Q(["histories", "inputs"], "All sequences of registrations, passing time and wake-ups, for all thresholds."),
        why_tests_cant="The existing tests register three or four timeouts in one order each.",
        anchors=A(["net/poll/src/time.rs"], [("timeouts", "net/poll/src/time.rs: TimeoutManager::register, wake, next")]),
        technique="model-based property testing: random histories against a set of times",
        level_note="Up to 60 operations; thresholds of 0 to 5 seconds; times up to 20 seconds ahead.",
    ),
    dict(
        id="C30",
        title="The network simulator delivers messages in order and wakes nodes when due",
        statement="In a simulation without failures, every message a node writes to a connected peer is received by that peer once, unchanged, in the order written, and no earlier than half the minimum and no later than twice the maximum latency (per message underway between the two; at least a millisecond); messages of nodes that aren't connected are never received. A connection is reported as attempted and then connected to the node that made it, and as connected with matching addresses to the other, each once; a disconnection is reported at once to the node that asked for it and within the latency to the other. Every timer wakes its node once due, whatever the other nodes do, time never goes backwards, and events are kept in order up to the limit. If all i/o fails nothing is received or connected. While anything is left to process the simulation says so, and the same seed gives the same history.",
        quantifier=Q(["histories", "schedules", "inputs"], "All programs of all nodes (messages, connections, disconnections, timers, events, also from outside between steps), for all latencies, failure rates and seeds."),
        why_tests_cant="The simulator has no tests of its own; the tests that use it only see whether the nodes end up in agreement.",
        anchors=A(["net/src/simulator.rs"], [("scheduling", "net/src/simulator.rs: Simulation::schedule, Inbox::insert, Inbox::last"), ("delivery", "net/src/simulator.rs: Simulation::step, is_done, is_settled")]),
        technique="stateful property testing: scripted recording nodes in generated simulations; the record of everything output and received is checked",
        level_note="Two to five nodes with up to 13 scripted reactions of up to four outputs each; two nodes never connect to each other at the same time, and message order and latency are only required between nodes that connect once.",
    ),
    dict(
        id="C36",
        title="Random selections come from exactly the matching members of a collection",
        statement="A random sample of an address book is one of its members that satisfies the predicate, and exists exactly if there is such a member; each such member can be chosen. Shuffling lists every member exactly once, in changing order, and a cycle repeats all members, once per round. Otherwise the book behaves as a map of what was inserted and not removed, and the same seed and operations give the same choices.",
        quantifier=Q(["histories", "inputs"], "All sequences of insertions, removals, samples with any predicate, shuffles and cycles, for all seeds."),
        why_tests_cant="The collections have no tests, and a selection that leaves out members, or chooses wrong ones, is only seen over many selections from many contents.",
        anchors=A(["common/src/collections.rs"], [("selection", "common/src/collections.rs: AddressBook::sample_with, shuffled, cycle"), ("hashing", "common/src/collections.rs: Hasher, RandomState")]),
        technique="model-based property testing: random histories against an ordered map, with repeated selections",
        level_note="Up to 40 operations and 600 keys; that each of n members can be chosen is checked by 45 n + 250 selections.",
    ),
    dict(
        id="C31",
        title="The reactor connects the service with its peers truthfully and completely",
        statement="Every byte the service writes to a connected peer is sent to it, and every byte the peer sends is handed to the service, in order, unchanged and once, whatever the sizes of the pieces, as long as the connection lasts. The service is told about every connection attempt, connection (incoming or outgoing, never one that failed) and disconnection exactly once and in that order, with nothing after the disconnection, and closing a connection closes it at the other end. Commands arrive in order and once, events are published in order and once, timers expire when due even if the reactor is never idle, and the reactor runs until it is shut down, even if a signal interrupts it.",
        quantifier=Q(["histories", "schedules", "inputs"], "All histories of connections (also several to the same address), connection failures, writes and reads of any size, partial reads, answers in callbacks, closing by either side, outputs for peers that are gone, signals, timers, commands and events."),
        why_tests_cant="The reactor has no tests besides those of its timeouts and of one socket's buffer.",
        anchors=A(["net/poll/src/reactor.rs", "net/poll/src/socket.rs", "net/poll/src/time.rs"],
                  [("loop", "net/poll/src/reactor.rs: Reactor::run, process, handle_readable, handle_writable"), ("buffering", "net/poll/src/socket.rs: Socket::push, flush")]),
        technique="stateful property testing: generated histories on real loopback connections, with the reactor running in a thread; every callback is compared with what was sent and done",
        level_note="Up to 25 operations per history, pieces of up to 1.5 MB; the scheduling is the operating system's, and a failure is reported only if it occurs in three runs of the same history.",
    ),
dict(
 id="C33",
 title="The client handle answers truthfully, waits end, and every event is delivered",
 statement="Calls of the client handle return the state of the client: tip, blocks, branches, peers, submitted transactions and import results are those of the active chain and the connected peers, and a broadcast reaches exactly the peers it reports. wait_for_height, wait_for_peers, connect and disconnect return once what they wait for is so (with blocks and peers for which it was so), and not before. Every subscriber gets every event, block and filter published after it subscribed, in order, and after a shutdown calls fail instead of hanging.",
 quantifier=Q(["histories", "schedules", "inputs"], "every interleaving of handle calls, subscriptions, messages of peers, connections, reorganizations, time and shutdown"),
 why_tests_cant="The client's tests run one or two histories with real sockets; waits and subscriptions go wrong only for particular orders of calls, events, disconnections and reorganizations.",
 anchors=A(["client/src/client.rs","client/src/event.rs","client/src/handle.rs","net/src/event.rs","p2p/src/fsm.rs"],[("Handle","client/src/client.rs"),("event::wait","client/src/event.rs"),("Emitter/Subscriber","net/src/event.rs"),("Command","p2p/src/fsm.rs")]),
 technique="model-based property testing of the real Client (stores on disk, real handle and threads) over a scripted reactor and simulated peers, with the observed history as the oracle",
 level_note="randomized histories; calls made from other threads; 15 s patience for what has to happen",
),
dict(
 id="C35",
 title="A client that crashed or was shut down at any point starts again and catches up",
 statement="Whatever the client was doing when it was killed or shut down (creating its files, syncing, reorganizing, writing part of a header), it starts again on the files that are left, with the block headers it had stored. It then syncs with honest peers to the best chain, with the filter headers of that chain, and without disconnecting honest peers.",
 quantifier=Q(["crash_points", "histories"], "every history of a client, and every point (operation on a file, and number of bytes of it) at which it ends, repeatedly"),
 why_tests_cant="No test kills a client; the stores are separate files which are only consistent at some of the points at which a crash can happen.",
 anchors=A(["client/src/client.rs","chain/src/block/store/io.rs","chain/src/block/cache.rs","chain/src/filter/cache.rs","client/src/peer.rs","p2p/src/fsm/cbfmgr.rs"],[("Client::load","client/src/client.rs"),("File::heal","chain/src/block/store/io.rs"),("FilterCache::load_with","chain/src/filter/cache.rs"),("rollback","p2p/src/fsm/cbfmgr.rs")]),
 technique="fault injection: every write, truncation and rename of the real client's files is logged (replaced C library functions), a crash state is generated from any prefix of the log, and the restarted client is driven to convergence by honest simulated peers",
 level_note="randomized histories of up to three crashes; writes persist in the order they were made (a killed process)",
),
    dict(
        id="C26",
        title="The wallet's balance and unspent outputs are those of its addresses on the chain",
        statement="Once the wallet has processed the matching blocks of a scan, its unspent outputs are exactly the outputs paid to its addresses since its birth height that no block spends, each with its value, and the balance it returns, stores and shows is their sum. This holds across sessions, interrupted scans, rescans of the same blocks and addresses added in between, and the scan it asks for covers all of its addresses from the birth height on. No input, resize or terminal size makes it fail.",
        quantifier=Q(["histories", "inputs", "configurations"], "All chains of blocks with payments to and from the wallet's addresses, all sequences of sessions, and all terminal sizes."),
        why_tests_cant="The existing tests add and remove single outputs of the database; nothing runs the wallet.",
        anchors=A(["wallet/src/wallet.rs", "wallet/src/wallet/db.rs", "wallet/src/wallet/ui.rs"],
                  [("blocks", "wallet/src/wallet.rs: Wallet::apply, run, handle_client_event"), ("storage", "wallet/src/wallet/db.rs: Db")]),
        technique="model-based property testing: the real wallet loop and database are run on generated chains, and compared with a ledger computed from the chain",
        level_note="Up to three sessions on chains of up to 18 blocks; no reorganizations (known finding).",
    ),
]
