GEN = {
"C01": "trees of real, mined headers (three networks' rules with short retarget periods, so that retargets happen every few blocks); each header may break exactly one rule (proof of work, bits, median time past, time too far ahead, version, linkage) at the boundary value and one beyond it; imported alone, in batches, in any order, on the tip and on side branches.",
"C02": "trees with branches of different difficulty, delivered in random orders and batches (`history`), and the same tree delivered in several orders (`orders`).",
"C03": "batches that contain several branches, duplicates, known headers and headers without parents, so that one import may switch branches several times.",
"C04": "histories as for C02, queried after every import with known, unknown, stale and boundary arguments; long linear chains for locators.",
"C05": "trees with one to three checkpoints on one path, branches forking below and above them, some of them heavier and learned before the checkpoint is reached.",
"C06": "sequences of put, rollback, sync, get, iteration, re-opening and healing on the file and memory stores, with batch sizes around the buffer sizes; block trees on top of a file, re-opened at any time.",
"C07": "a history, and a point at which it ends: the file cut at any byte, a mutation cut short at any byte, or a child process killed by the kernel (file size limit) in the middle of a write.",
"C08": "imports, rollbacks, re-loads, verification and range queries of filter header chains (also empty, reversed and out-of-range ranges), and damaged chains for `verify`.",
"C09": "a universe of blocks with their real BIP 158 filters, nodes that follow branches of it (honest, silent or lying), a schedule of connections, losses, deliveries, announcements, re-organisations, clock steps, commands; then calm.",
"C10": "as C09, with rescans of generated ranges (bounded, unbounded, excluded, empty, beyond the tip) and scripts, repeated while others run, with filter caches of any size.",
"C11": "as C09, with nodes that send corrupted, unsolicited, swapped and forged filters and blocks (including forged transactions under a correct header).",
"C12": "sequences of push, rollback, get and capacity changes.",
"C13": "as C09, with inbound peers, and headers imported through the handle's command.",
"C14": "connections in both directions with any order of version, verack, wtxidrelay, sendheaders, other messages, repeated or missing; versions with any protocol version, services, height, nonce, time and relay flag; timeouts.",
"C15": "address books, persistent peers and limits; dials that succeed, fail, hang or are lost at any moment; inbound connections, several per address; commands to connect and disconnect.",
"C16": "transactions (also with witnesses, OP_RETURN outputs and chains of spends) submitted at any time; peers that ask for them, don't relay, or vanish; blocks that include them, and re-organisations that take them out again.",
"C17": "block requests for active, stale and unknown blocks, by scans and by commands, with peers that are slow, silent or lying, and re-organisations in between.",
"C18": "address messages of up to 1,001 entries (all kinds of addresses, times and services), imports, connections, failures, bans and samples.",
"C19": "peers that answer pings in time, late, wrongly or never, ping us themselves, and connect and disconnect at any time.",
"C20": "streams of all kinds of messages, split anywhere, with one mutation (flipped, lost or added bytes; lengths, checksums, magic); recorded histories replayed as bytes through `client::Service`.",
"C21": "everything: structurally valid messages with extreme and inconsistent contents, from any peer at any time, commands with any arguments, timers, clock steps, disconnections; then one honest peer.",
"C22": "sequences of samples from any number of peers with offsets over the whole range of integers, and local times from 0 to 2^32.",
"C23": "sequences of insertions, removals, changes, flushes and re-openings of the file; damaged files; flushes by a child process that is killed at any byte.",
"C24": "blocks with spends of known, unknown and same-block outputs, coinbases, zero and extreme fees; rollbacks to any height; also through the events of simulated networks.",
"C25": "sequences of registrations, time steps and wake-ups.",
"C26": "chains of blocks with payments to own and foreign scripts of every address type and spends of them, in up to three sessions of the wallet (file database), with interrupted scans, falsely matching blocks, addresses added in between, keys, resizes and terminal sizes; and histories of database operations.",
"C27": "getheaders with any locators and stop hashes and getcfheaders with any range, sent during simulated histories and on chains longer than the limits.",
"C28": "histories recorded from the simulated network, replayed with the same seed (`same`), and with outputs held back for a random number of inputs (`batch`), as the reactor does.",
"C29": "as C09: any history, then peers that are honest.",
"C30": "simulations of two to five scripted nodes that write, connect, disconnect, set timers (often for the same time) and emit events when told something, or from outside between steps, with any latencies, failure rates and seeds.",
"C36": "sequences of insertions, removals, samples with random predicates, shuffles and cycles, on two books with the same seed.",
"C31": "histories of real loopback connections: dials to open, closed and unroutable ports, incoming connections, writes of 0 to 1.5 MB in both directions by either side with pauses in reading, closings and resets, timers, commands, events, constant i/o, shutdowns at any time.",
"C32": "honest nodes (possibly slow, on stale branches, re-organising), next to silent and lying ones.",
"C33": "a real `Client` with files on disk and a scripted reactor: connections, deliveries (in pieces), announcements, re-organisations and time, interleaved with calls of its handle from other threads, waits, subscriptions, and a shutdown.",
"C34": "recorded histories, into which messages that a hook drops (or lets pass with an error) are inserted at random.",
"C35": "up to three lives of a real client with files on disk; every write, truncation, creation and rename it makes is logged (the harness binary defines `write`, `ftruncate64`, `open64`, `rename`, … itself), and the files after any prefix of that log, with part of the next write, are what the next life starts with.",
}
ORACLE = {
"C01": "a reference implementation of the header rules (retarget, minimum-difficulty rule, median time, compact bits, work), written from the consensus rules over plain lists; the header must be accepted exactly if the reference does, and every header of the active chain must be valid.",
"C02": "the reference's valid chain with the most work; ties are allowed to stay where they are; the same set of headers in any order must end with the same work.",
"C03": "the difference of the active chains before and after the import.",
"C04": "a list of headers; every query (by hash, height, range, iteration, locators, branches, work, best block) is recomputed from it.",
"C05": "invariant over the history: once the block at a checkpoint height was active, it stays; no other block is ever active at that height.",
"C06": "a list of the headers put and rolled back; after re-opening, exactly these.",
"C07": "the recovered store is the old chain, the new chain, or a prefix of it that contains what was stored before; it works afterwards.",
"C08": "a list of (hash, header) pairs; the header of each is the hash of its filter hash and the previous header.",
"C09": "the filter headers of the universe's blocks: at every moment the stored ones are those of a prefix of the active chain; in the end, of all of it.",
"C10": "a monitor of the events, which computes from the generated blocks which ones match: every matching block of the range is reported as matched and delivered once, in order, per scan; scanned heights increase one by one and go back only for re-organisations; the scan ends.",
"C11": "the universe: every filter and block in an event is the real one of that hash and height.",
"C12": "an ordered map with the sum of sizes; contents, order of eviction, capacity.",
"C13": "a list to which the events are applied; it must equal the active chain after every input.",
"C14": "a reference state machine of the handshake: which messages are sent, when the peer is negotiated, when and why it is disconnected.",
"C15": "a monitor: limits never exceeded, no duplicate dials, every connection and disconnection reported once; in the end the target is reached and persistent peers are connected.",
"C16": "a monitor of announcements and status events per transaction and peer; in the end each transaction is announced, acknowledged and confirmed at the height of its block.",
"C17": "every requested active block is delivered exactly once, in height order, and in bounded time with honest peers.",
"C18": "a reference address book: what may be added, what is sampled, what is removed; every dialed address is in it and not banned.",
"C19": "a monitor of times: pongs carry the nonce, pings are sent regularly, and exactly the peers that don't answer in time are disconnected.",
"C20": "the messages before they were serialised; for mutated streams, the messages before the mutation and then an error or nothing; for histories, the outputs of the state machine on whole messages.",
"C21": "no panic (with overflow checks and debug assertions), outputs in bounded number, and afterwards the client still syncs with an honest peer.",
"C22": "the median of the samples, computed by sorting, with the limits of Bitcoin's network-adjusted time.",
"C23": "a map of what was flushed; after a crash the old or the new map; a damaged file gives an error or a map, never a panic.",
"C24": "the fees recomputed from the list of blocks which are active.",
"C25": "a set of times.",
"C26": "the ledger: outputs of the blocks since the birth height to own scripts, minus those spent, computed from the chain as sets; a map for the database.",
"C27": "the client's own chain and filter headers: the answer is exactly what the protocol says (start after the best locator, stop, 2,000 limit), or nothing.",
"C28": "equality: of all outputs for identical histories; of messages per connection and of events, connections and timers for batched ones.",
"C29": "the best chain of the honest peers is the active chain after bounded time.",
"C30": "the record of all outputs and inputs: each message received was sent once, and vice versa; connections and disconnections match; each timer has a wake-up and each wake-up a timer; a second run is identical.",
"C36": "an ordered map; what is chosen must match, and all that match must be chosen sometimes; both books must do the same.",
"C31": "a service that records every callback: bytes, connections, disconnections, commands, events and timers are compared with what the test did and with what arrives at the other end of each socket.",
"C32": "honest peers are never disconnected, banned or reported for misbehaviour (timeouts excepted if they are slow); peers that send invalid headers are disconnected.",
"C33": "the chain and the peers as they were at each step: answers must be true now, waits must return once what they wait for was so, with what was so; subscribers must have received exactly the events since they subscribed.",
"C34": "equality of the outputs with those of the history without the inserted messages.",
"C35": "the client starts; the stored chain has every block that was stored before what was being written; with honest peers it reaches the best chain and its filter headers, disconnects nobody, and the files are then exactly those of that chain.",
}
