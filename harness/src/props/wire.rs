//! Properties of the message stream and of the state machine as a function of its inputs:
//! C20 message decoding, C28 determinism and batching.
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};
use std::net;
use std::sync::{Arc, Mutex};

use nakamoto_chain::block::store::Memory;
use nakamoto_chain::filter::cache::{FilterCache, StoredHeader};
use nakamoto_client::Service;
use nakamoto_common::bitcoin::blockdata::block::BlockHeader;
use nakamoto_common::bitcoin::consensus::encode::{deserialize, serialize};
use nakamoto_common::bitcoin::hash_types::{BlockHash, FilterHash, FilterHeader, Txid, Wtxid};
use nakamoto_common::bitcoin::network::address::{AddrV2, AddrV2Message, Address};
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::{CommandString, NetworkMessage, RawNetworkMessage};
use nakamoto_common::bitcoin::network::message_blockdata::{GetBlocksMessage, GetHeadersMessage, Inventory};
use nakamoto_common::bitcoin::network::message_compact_blocks::{BlockTxn, CmpctBlock, GetBlockTxn, SendCmpct};
use nakamoto_common::bitcoin::network::message_filter::{CFCheckpt, CFHeaders, CFilter, GetCFCheckpt, GetCFHeaders, GetCFilters};
use nakamoto_common::bitcoin::network::message_network::{Reject, RejectReason, VersionMessage};
use nakamoto_common::bitcoin::util::bip152;
use nakamoto_common::bitcoin_hashes::{sha256d, Hash as _};
use nakamoto_common::block::filter::Filters;
use nakamoto_common::block::time::{AdjustedTime, LocalTime, RefClock};
use nakamoto_common::network::Network;
use nakamoto_net::{Disconnect, Io, Link, Service as _, StateMachine as _};
use nakamoto_p2p::fsm::{Command, DisconnectReason, Event, Hooks, PeerId, StateMachine};
use nakamoto_p2p::stream::Decoder;

use super::net::{setup, step, Opts};
use crate::pbt::{Property, Res, Strategy, G};
use crate::sim::*;
use crate::{ensure, fail, note};

// ---------------------------------------------------------------------------------------------
// Arbitrary messages

fn h32(g: &mut G) -> [u8; 32] {
    let mut h = [0u8; 32];
    let s = g.u64();
    h[..8].copy_from_slice(&s.to_le_bytes());
    h
}

pub fn gen_hash(g: &mut G, u: &Universe) -> BlockHash {
    match g.below(8) {
        0 => BlockHash::from_inner(h32(g)),
        1 => BlockHash::all_zeros(),
        _ => u.blocks[g.below(u.blocks.len() as u64) as usize].hash,
    }
}

fn gen_u32(g: &mut G, u: &Universe) -> u32 {
    match g.below(8) {
        0 => u32::MAX,
        1 => 0,
        2 => g.u32(),
        _ => g.below(u.blocks.len() as u64 + 3) as u32,
    }
}

fn gen_inv(g: &mut G, u: &Universe) -> Inventory {
    let txid = |g: &mut G| -> (Txid, Wtxid) {
        if g.bool() {
            let b = &u.blocks[g.below(u.blocks.len() as u64) as usize].block;
            let t = g.pick(&b.txdata);
            (t.txid(), t.wtxid())
        } else {
            (Txid::from_inner(h32(g)), Wtxid::from_inner(h32(g)))
        }
    };
    match g.below(10) {
        0 => Inventory::Error,
        1 => Inventory::Transaction(txid(g).0),
        2 => Inventory::WTx(txid(g).1),
        3 => Inventory::WitnessTransaction(txid(g).0),
        4 => Inventory::CompactBlock(gen_hash(g, u)),
        5 => Inventory::WitnessBlock(gen_hash(g, u)),
        6 => Inventory::Unknown { inv_type: g.range(100, 200) as u32, hash: h32(g) },
        _ => Inventory::Block(gen_hash(g, u)),
    }
}

fn gen_addr(g: &mut G) -> Address {
    let ip = match g.below(3) {
        0 => net::IpAddr::V6(net::Ipv6Addr::new(0x2a01, g.below(9) as u16, 0, 0, 0, 0, 0, 1)),
        _ => net::IpAddr::V4(net::Ipv4Addr::new(*g.pick(&[0, 10, 60, 88, 127, 224, 255]), g.below(4) as u8, 0, 1)),
    };
    let services = *g.pick(&[ServiceFlags::NONE, ServiceFlags::NETWORK, ServiceFlags::NETWORK | ServiceFlags::COMPACT_FILTERS, ServiceFlags::from(u64::MAX)]);
    if g.chance(1, 8) {
        return Address { services, address: [0xfd87, 0xd87e, 0xeb43, 1, 2, 3, 4, 5], port: 8333 };
    }
    Address::new(&(ip, g.below(3) as u16 * 4000).into(), services)
}

fn count(g: &mut G) -> u64 {
    match g.below(12) {
        0 => 0,
        1 => g.range(5, 60),
        _ => g.range(1, 4),
    }
}

/// Any message a peer could send.
pub fn gen_message(g: &mut G, u: &Universe, now: LocalTime) -> NetworkMessage {
    let n = u.blocks.len() as u64;
    let header = |g: &mut G| -> BlockHeader {
        let mut h = u.blocks[g.below(n) as usize].block.header;
        if g.chance(1, 4) {
            match g.below(5) {
                0 => h.nonce = g.u32(),
                1 => h.time = *g.pick(&[0, 1, u32::MAX]),
                2 => h.bits = *g.pick(&[0, u32::MAX, 0x1d00ffff, 0x01003456, 0x04923456, 0xff123456, 0x207fffff]),
                3 => h.prev_blockhash = BlockHash::all_zeros(),
                _ => h.version = -1,
            }
        }
        h
    };
    match g.below(38) {
        0 => {
            let a = gen_addr(g);
            let b = gen_addr(g);
            NetworkMessage::Version(VersionMessage {
                version: *g.pick(&[0, 70011, 70012, 70016, u32::MAX]),
                services: *g.pick(&[ServiceFlags::NONE, ServiceFlags::NETWORK | ServiceFlags::COMPACT_FILTERS]),
                timestamp: *g.pick(&[0, i64::MAX, i64::MIN, now.as_secs() as i64]),
                receiver: a,
                sender: b,
                nonce: g.u64(),
                user_agent: String::from(*g.pick(&["", "/x:1/", "é"])),
                start_height: *g.pick(&[0, -1, i32::MIN, i32::MAX, 5]),
                relay: g.bool(),
            })
        }
        1 => NetworkMessage::Verack,
        2 => {
            let k = count(g);
            NetworkMessage::Addr((0..k).map(|_| (*g.pick(&[0, 1, now.as_secs() as u32, u32::MAX]), gen_addr(g))).collect())
        }
        3 | 4 => {
            let k = count(g);
            NetworkMessage::Inv((0..k).map(|_| gen_inv(g, u)).collect())
        }
        5 => {
            let k = count(g);
            NetworkMessage::GetData((0..k).map(|_| gen_inv(g, u)).collect())
        }
        6 => {
            let k = count(g);
            NetworkMessage::NotFound((0..k).map(|_| gen_inv(g, u)).collect())
        }
        7 => {
            let k = count(g);
            let l = (0..k).map(|_| gen_hash(g, u)).collect();
            NetworkMessage::GetBlocks(GetBlocksMessage::new(l, gen_hash(g, u)))
        }
        8 | 9 => {
            let k = count(g);
            let l = (0..k).map(|_| gen_hash(g, u)).collect();
            NetworkMessage::GetHeaders(GetHeadersMessage::new(l, gen_hash(g, u)))
        }
        10 => NetworkMessage::MemPool,
        11 => {
            let b = &u.blocks[g.below(n) as usize].block;
            NetworkMessage::Tx(g.pick(&b.txdata).clone())
        }
        12 | 13 => {
            let mut b = u.blocks[g.below(n) as usize].block.clone();
            if g.chance(1, 3) {
                corrupt_block(g, &mut b, u);
            }
            if g.chance(1, 10) {
                b.txdata.clear();
            }
            NetworkMessage::Block(b)
        }
        14 | 15 | 16 => {
            if g.bool() {
                let i = g.below(n) as usize;
                let c = u.chain(i);
                let from = g.below(c.len() as u64) as usize;
                let mut hs: Vec<_> = c[from..].iter().map(|i| u.blocks[*i].block.header).collect();
                if g.chance(1, 3) && !hs.is_empty() {
                    corrupt_headers(g, &mut hs, u);
                }
                NetworkMessage::Headers(hs)
            } else {
                let k = count(g);
                NetworkMessage::Headers((0..k).map(|_| header(g)).collect())
            }
        }
        17 => NetworkMessage::SendHeaders,
        18 => NetworkMessage::GetAddr,
        19 => NetworkMessage::Ping(g.u64()),
        20 => NetworkMessage::Pong(g.u64()),
        21 => NetworkMessage::GetCFilters(GetCFilters { filter_type: g.below(2) as u8, start_height: gen_u32(g, u), stop_hash: gen_hash(g, u) }),
        22 | 23 => {
            let i = g.below(n) as usize;
            let mut f = CFilter { filter_type: g.below(8).saturating_sub(6) as u8, block_hash: u.blocks[i].hash, filter: u.blocks[i].filter.content.clone() };
            match g.below(4) {
                0 => corrupt_cfilter(g, &mut f, u),
                1 if g.bool() => f.filter = g.bytes(6),
                _ => {}
            }
            NetworkMessage::CFilter(f)
        }
        24 | 25 => NetworkMessage::GetCFHeaders(GetCFHeaders { filter_type: g.below(8).saturating_sub(6) as u8, start_height: gen_u32(g, u), stop_hash: gen_hash(g, u) }),
        26 | 27 => {
            let i = g.below(n) as usize;
            let c = u.chain(i);
            let from = g.below(c.len() as u64) as usize;
            let prev = if from == 0 { FilterHeader::all_zeros() } else { u.blocks[c[from - 1]].fheader };
            let mut m = CFHeaders {
                filter_type: g.below(8).saturating_sub(6) as u8,
                stop_hash: u.blocks[i].hash,
                previous_filter_header: prev,
                filter_hashes: c[from..].iter().map(|i| u.blocks[*i].fhash).collect(),
            };
            match g.below(4) {
                0 => corrupt_cfheaders(g, &mut m, u),
                1 if g.bool() => m.filter_hashes = (0..count(g)).map(|_| FilterHash::from_inner(h32(g))).collect(),
                _ => {}
            }
            NetworkMessage::CFHeaders(m)
        }
        28 => NetworkMessage::GetCFCheckpt(GetCFCheckpt { filter_type: g.below(2) as u8, stop_hash: gen_hash(g, u) }),
        29 => NetworkMessage::CFCheckpt(CFCheckpt { filter_type: 0, stop_hash: gen_hash(g, u), filter_headers: vec![FilterHeader::from_inner(h32(g))] }),
        30 => NetworkMessage::SendCmpct(SendCmpct { send_compact: g.bool(), version: g.below(4) }),
        31 => {
            let b = &u.blocks[g.below(n) as usize].block;
            match bip152::HeaderAndShortIds::from_block(b, g.u64(), 2, &[]) {
                Ok(c) => NetworkMessage::CmpctBlock(CmpctBlock { compact_block: c }),
                Err(_) => NetworkMessage::MemPool,
            }
        }
        32 => {
            if g.bool() {
                NetworkMessage::GetBlockTxn(GetBlockTxn { txs_request: bip152::BlockTransactionsRequest { block_hash: gen_hash(g, u), indexes: vec![0, 1] } })
            } else {
                NetworkMessage::BlockTxn(BlockTxn { transactions: bip152::BlockTransactions { block_hash: gen_hash(g, u), transactions: vec![] } })
            }
        }
        33 => NetworkMessage::Alert(g.bytes(9)),
        34 => NetworkMessage::Reject(Reject { message: "tx".into(), ccode: RejectReason::Duplicate, reason: "x".into(), hash: sha256d::Hash::from_inner(h32(g)) }),
        35 => NetworkMessage::FeeFilter(*g.pick(&[0, -1, i64::MAX, i64::MIN, 1000])),
        36 => match g.below(3) {
            0 => NetworkMessage::WtxidRelay,
            1 => NetworkMessage::SendAddrV2,
            _ => NetworkMessage::AddrV2(vec![AddrV2Message { time: g.u32(), services: ServiceFlags::NETWORK, addr: AddrV2::Ipv4([60, 1, 2, 3].into()), port: 8333 }]),
        },
        _ => NetworkMessage::Unknown { command: CommandString::try_from_static("foo").unwrap(), payload: g.bytes(12) },
    }
}

// ---------------------------------------------------------------------------------------------
// C20

/// The outcome of decoding a stream.
#[derive(Clone, Debug, PartialEq)]
enum Dec {
    Msg(RawNetworkMessage),
    Invalid,
}

const MAX_MSG: usize = 5_000_000;

/// Reference: split the stream into frames by their headers, and decode each of them on its own.
/// Returns each outcome with the number of bytes needed for it.
fn frames(b: &[u8]) -> Vec<(usize, Dec)> {
    let mut v = vec![];
    let mut at = 0;
    while b.len() - at >= 24 {
        let len = u32::from_le_bytes(b[at + 16..at + 20].try_into().unwrap()) as usize;
        if b.len() - at < 24 + len {
            break;
        }
        let end = at + 24 + len;
        let sum = &sha256d::Hash::hash(&b[at + 24..end])[..4];
        // The command is followed by zeros.
        let d = if sum != &b[at + 20..at + 24] {
            Dec::Invalid
        } else {
            match deserialize_frame(&b[at..end]) {
                Some(m) => Dec::Msg(m),
                None => Dec::Invalid,
            }
        };
        v.push((end, d.clone()));
        if d == Dec::Invalid {
            break;
        }
        at = end;
    }
    v
}

/// A frame with bytes left over after the contents of its message is as good as one without.
fn deserialize_frame(f: &[u8]) -> Option<RawNetworkMessage> {
    use nakamoto_common::bitcoin::consensus::encode::deserialize_partial;
    deserialize_partial::<RawNetworkMessage>(f).ok().map(|(m, _)| m)
}

fn reframe(f: &mut Vec<u8>) {
    let n = (f.len() - 24) as u32;
    f[16..20].copy_from_slice(&n.to_le_bytes());
    let sum = sha256d::Hash::hash(&f[24..]);
    f[20..24].copy_from_slice(&sum[..4]);
}

fn c20_decoder(g: &mut G) -> Res {
    let mut u = Universe::new();
    let k = g.range(1, 6);
    u.grow(g, 0, k);
    let now = LocalTime::from_secs(1_700_000_000);
    let mut bytes = vec![];
    let mut bad = false;
    let n = g.range(1, 8);
    for _ in 0..n {
        let m = gen_message(g, &u, now);
        let mut f = serialize(&RawNetworkMessage { magic: Network::Regtest.magic(), payload: m.clone() });
        note!(g, "message {} ({} bytes)", m.cmd(), f.len());
        if g.chance(1, 8) {
            bad = true;
            match g.below(7) {
                0 => {
                    note!(g, "wrong checksum");
                    f[20] ^= 1 + g.below(255) as u8;
                }
                1 if f.len() > 24 => {
                    let c = g.range(1, (f.len() - 24) as u64) as usize;
                    note!(g, "contents cut short by {}", c);
                    f.truncate(f.len() - c);
                    reframe(&mut f);
                }
                2 => {
                    note!(g, "bytes appended");
                    let x = g.bytes(7);
                    f.extend(x);
                    reframe(&mut f);
                }
                3 if f.len() > 24 => {
                    let i = g.range(24, f.len() as u64 - 1) as usize;
                    let x = g.u8();
                    note!(g, "byte {} of the contents changed", i);
                    f[i] = x;
                    reframe(&mut f);
                }
                4 => {
                    let i = g.below(f.len() as u64) as usize;
                    note!(g, "byte {} changed", i);
                    f[i] = g.u8();
                }
                5 => {
                    let i = g.range(4, 15) as usize;
                    note!(g, "command changed");
                    f[i] = g.u8();
                }
                _ => {
                    note!(g, "random bytes");
                    let k = g.range(1, 60) as usize;
                    f = g.bytes(k);
                }
            }
        }
        bytes.extend(f);
    }
    if g.chance(1, 4) {
        // The stream breaks off.
        let c = g.below(bytes.len() as u64 + 1) as usize;
        bytes.truncate(c);
        note!(g, "stream cut at {}", c);
    }
    let want = frames(&bytes);
    let mut dec = Decoder::new(g.usize(0, 64));
    let mut at = 0;
    let mut got: Vec<(usize, Dec)> = vec![];
    // A huge message that never ends is slow to decode again and again.
    let last = want.last().map_or(0, |x| x.0);
    let rest = &bytes[last..];
    let huge = want.last().map(|x| &x.1) != Some(&Dec::Invalid) && rest.len() >= 20 && u32::from_le_bytes(rest[16..20].try_into().unwrap()) > 50_000;
    let style = if huge { g.range(2, 3) } else { g.below(4) };
    let mut chunks = 0u64;
    'outer: while at < bytes.len() {
        let k = match style {
            0 => 1,
            1 => g.range(1, 7),
            2 => g.range(1, 200),
            _ => bytes.len() as u64,
        };
        let end = (at + k as usize).min(bytes.len());
        dec.input(&bytes[at..end]);
        at = end;
        chunks += 1;
        loop {
            match dec.decode_next::<RawNetworkMessage>() {
                Ok(Some(m)) => got.push((at, Dec::Msg(m))),
                Ok(None) => break,
                Err(_) => {
                    got.push((at, Dec::Invalid));
                    break 'outer;
                }
            }
        }
        // Everything that is complete has been decoded.
        let due = want.iter().filter(|(e, _)| *e <= at).count();
        ensure!(got.len() == due, "{} messages were decoded after {} bytes, there are {}", got.len(), at, due);
    }
    for (i, (_, d)) in got.iter().enumerate() {
        ensure!(i < want.len() && want[i].1 == *d, "outcome {} is {:?}, expected {:?}", i, d, want.get(i).map(|x| &x.1));
    }
    ensure!(got.len() == want.len(), "{} outcomes, expected {}", got.len(), want.len());
    if want.last().map(|x| &x.1) == Some(&Dec::Invalid) {
        g.label("invalid");
    } else if bad {
        g.label("odd but valid");
    }
    if chunks > 1 && want.len() > 1 {
        g.nontrivial();
    }
    g.count("messages", want.len() as u64);
    Ok(())
}

/// A peer can't make the client hold more than a message of the maximum size.
fn c20_size(g: &mut G) -> Res {
    let len: u64 = match g.below(4) {
        0 => u32::MAX as u64,
        1 => g.range(MAX_MSG as u64 + 1, 40_000_000),
        2 => g.range(MAX_MSG as u64, MAX_MSG as u64 + 50),
        _ => g.range(2_000_000, 4_100_000),
    };
    let big = len + 24 > MAX_MSG as u64;
    let mut f = vec![];
    f.extend(Network::Regtest.magic().to_le_bytes());
    f.extend(b"foo\0\0\0\0\0\0\0\0\0");
    f.extend((len as u32).to_le_bytes());
    let small = !big;
    let body = if small { vec![7u8; len as usize] } else { vec![] };
    let sum = sha256d::Hash::hash(&body);
    f.extend(&sum[..4]);
    f.extend(&body);
    note!(g, "message of {} bytes", len);
    let mut dec = Decoder::new(1024);
    if small {
        // Valid ones are decoded.
        for c in f.chunks(1_000_000) {
            if let Some(m) = match dec.decode_next::<RawNetworkMessage>() {
                Ok(m) => m,
                Err(e) => fail!("valid message of {} bytes refused: {}", len, e),
            } {
                fail!("message {} decoded too early", m.cmd());
            }
            dec.input(c);
        }
        match dec.decode_next::<RawNetworkMessage>() {
            Ok(Some(RawNetworkMessage { payload: NetworkMessage::Unknown { payload, .. }, .. })) => ensure!(payload == body, "wrong contents"),
            x => fail!("message of {} bytes: {:?}", len, x.map(|m| m.map(|m| m.cmd()))),
        }
        g.label("large and valid");
    } else {
        dec.input(&f);
        let chunk = vec![9u8; 1_000_000];
        let mut refused = false;
        for _ in 0..7 {
            match dec.decode_next::<RawNetworkMessage>() {
                Ok(Some(_)) => fail!("oversized message decoded"),
                Ok(None) => {}
                Err(_) => {
                    refused = true;
                    break;
                }
            }
            dec.input(&chunk);
        }
        ensure!(refused, "a message of {} bytes isn't refused after 7 million bytes", len);
        g.label("oversized");
    }
    g.nontrivial();
    Ok(())
}

/// Large messages one after the other, in large pieces.
fn c20_large(g: &mut G) -> Res {
    let n = g.usize(2, 6);
    let mut bytes = vec![];
    let mut want: Vec<Vec<u8>> = vec![];
    for i in 0..n {
        let len = match g.below(4) {
            0 => g.range(0, 300),
            1 => g.range(60_000, 70_000),
            _ => g.range(0, 400_000),
        } as usize;
        note!(g, "message of {} bytes", len);
        let body = vec![i as u8 + 1; len];
        bytes.extend(Network::Regtest.magic().to_le_bytes());
        bytes.extend(b"foo\0\0\0\0\0\0\0\0\0");
        bytes.extend((len as u32).to_le_bytes());
        bytes.extend(&sha256d::Hash::hash(&body)[..4]);
        bytes.extend(&body);
        want.push(body);
    }
    let mut dec = Decoder::new(g.usize(0, 64 * 1024));
    let most = *g.pick(&[70_000u64, 300_000, 2_500_000]);
    let (mut at, mut got) = (0, 0);
    while at < bytes.len() {
        let k = (g.range(most / 4, most) as usize).min(bytes.len() - at);
        note!(g, "piece of {} bytes", k);
        dec.input(&bytes[at..at + k]);
        at += k;
        loop {
            match dec.decode_next::<RawNetworkMessage>() {
                Ok(None) => break,
                Ok(Some(RawNetworkMessage { payload: NetworkMessage::Unknown { payload, .. }, .. })) => {
                    ensure!(got < n && payload == want[got], "message {} has {} bytes", got, payload.len());
                    got += 1;
                }
                x => fail!("message {}: {:?}", got, x.map(|m| m.map(|m| m.cmd()))),
            }
        }
        let full = want.iter().scan(0, |a, w| { *a += 24 + w.len(); Some(*a) }).filter(|e| *e <= at).count();
        ensure!(got == full, "{} messages are complete, and {} were decoded", full, got);
    }
    g.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C28, C20 (service)

/// The state of a client when it starts.
struct Start {
    tree: nakamoto_chain::block::cache::BlockCache<Memory<BlockHeader>>,
    filters: Vec<(FilterHash, FilterHeader)>,
    book: PeerBook,
    now: LocalTime,
    seed: u64,
    cfg: nakamoto_p2p::fsm::Config,
}

impl Start {
    fn of(w: &World) -> Self {
        let f = w.sim.filters.get();
        Start {
            tree: w.sim.tree.get().clone(),
            filters: (1..=f.height()).map(|h| f.get_header(h).unwrap()).collect(),
            book: w.sim.peers.get().clone(),
            now: w.sim.now,
            seed: w.sim.seed,
            cfg: w.sim.cfg.clone(),
        }
    }

    #[allow(clippy::type_complexity)]
    fn parts(&self) -> (SimTree, SimFilters, SimPeers, SimClock, fastrand::Rng) {
        let mut f = FilterCache::load(Memory::<StoredHeader>::genesis(Network::Regtest)).unwrap();
        if !self.filters.is_empty() {
            f.import_headers(self.filters.clone()).unwrap();
        }
        (
            Shared::new(self.tree.clone()),
            Shared::new(f),
            Shared::new(self.book.clone()),
            RefClock::from(AdjustedTime::new(self.now)),
            fastrand::Rng::with_seed(self.seed),
        )
    }
}

/// The client, driven directly or by bytes.
enum Dut {
    Machine(Box<Machine>),
    Service(Box<Service<SimTree, SimFilters, SimPeers, SimClock>>),
}

impl Dut {
    fn next(&mut self) -> Option<Io<NetworkMessage, Event, DisconnectReason>> {
        match self {
            Dut::Machine(m) => m.next().map(|io| match io {
                Io::Write(a, m) => Io::Write(a, m.payload),
                Io::Event(e) => Io::Event(e),
                Io::Connect(a) => Io::Connect(a),
                Io::Disconnect(a, r) => Io::Disconnect(a, r),
                Io::SetTimer(d) => Io::SetTimer(d),
            }),
            Dut::Service(s) => s.next().map(|io| match io {
                Io::Write(a, b) => {
                    let m: RawNetworkMessage = match deserialize(&b) {
                        Ok(m) => m,
                        Err(e) => panic!("invalid bytes written to {}: {}", a, e),
                    };
                    assert_eq!(m.magic, Network::Regtest.magic(), "wrong magic written");
                    Io::Write(a, m.payload)
                }
                Io::Event(e) => Io::Event(e),
                Io::Connect(a) => Io::Connect(a),
                Io::Disconnect(a, r) => Io::Disconnect(a, r),
                Io::SetTimer(d) => Io::SetTimer(d),
            }),
        }
    }
    fn attempted(&mut self, a: &PeerId) {
        match self {
            Dut::Machine(m) => m.attempted(a),
            Dut::Service(m) => m.attempted(a),
        }
    }
    fn connected(&mut self, a: PeerId, l: Link) {
        match self {
            Dut::Machine(m) => m.connected(a, &Sim::local_addr(), l),
            Dut::Service(m) => m.connected(a, &Sim::local_addr(), l),
        }
    }
    fn disconnected(&mut self, a: &PeerId, r: Disconnect<DisconnectReason>) {
        match self {
            Dut::Machine(m) => m.disconnected(a, r),
            Dut::Service(m) => m.disconnected(a, r),
        }
    }
    fn tick(&mut self, t: LocalTime) {
        match self {
            Dut::Machine(m) => m.tick(t),
            Dut::Service(m) => m.tick(t),
        }
    }
    fn timer(&mut self) {
        match self {
            Dut::Machine(m) => m.timer_expired(),
            Dut::Service(m) => m.timer_expired(),
        }
    }
    fn command(&mut self, c: Command) {
        match self {
            Dut::Machine(m) => m.command(c),
            Dut::Service(m) => m.command_received(c),
        }
    }
    fn init(&mut self, t: LocalTime) {
        match self {
            Dut::Machine(m) => m.initialize(t),
            Dut::Service(m) => m.initialize(t),
        }
    }
}

/// What a client did: what is sent to each peer in order, the events and the connections in order.
#[derive(Default)]
struct Trail {
    writes: BTreeMap<PeerId, Vec<NetworkMessage>>,
    events: Vec<String>,
    links: Vec<String>,
    timers: Vec<String>,
}

fn ev(e: &Event) -> String {
    format!("{:?}", e)
}

impl Trail {
    fn add(&mut self, r: &Rec) {
        match r {
            Rec::Write(a, m) => self.writes.entry(*a).or_default().push(m.clone()),
            Rec::Lost(..) | Rec::In(..) | Rec::Now(_) => {}
            Rec::Connect(a) => self.links.push(format!("connect {}", a)),
            Rec::Disconnect(a, r) => self.links.push(format!("disconnect {} {}", a, r)),
            Rec::Timer(d) => self.timers.push(format!("{:?}", d)),
            Rec::Event(e) => self.events.push(ev(e)),
        }
    }

    fn compare(&self, o: &Trail, what: &str) -> Res {
        for (i, (a, b)) in self.links.iter().zip(&o.links).enumerate() {
            ensure!(a == b, "{}: connection output {} is '{}', it was '{}'", what, i, b, a);
        }
        for (i, (a, b)) in self.events.iter().zip(&o.events).enumerate() {
            ensure!(a == b, "{}: event {} is {}, it was {}", what, i, b, a);
        }
        ensure!(self.events.len() == o.events.len(), "{}: {} events, there were {}", what, o.events.len(), self.events.len());
        ensure!(self.links.len() == o.links.len(), "{}: {} connections, there were {}", what, o.links.len(), self.links.len());
        let all: BTreeSet<PeerId> = self.writes.keys().chain(o.writes.keys()).copied().collect();
        let none = vec![];
        for p in all {
            let a = self.writes.get(&p).unwrap_or(&none);
            let b = o.writes.get(&p).unwrap_or(&none);
            for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() {
                ensure!(x == y, "{}: message {} sent to {} is {:?}, it was {:?}", what, i, p, y, x);
            }
            ensure!(a.len() == b.len(), "{}: {} messages sent to {}, it were {}", what, b.len(), p, a.len());
        }
        ensure!(self.timers == o.timers, "{}: other timers are set", what);
        Ok(())
    }
}

/// Replay recorded inputs.
/// `batch`: outputs are processed as late as possible, if they don't open or close connections.
/// `bytes`: messages arrive in chunks of bytes.
fn replay(g: &mut G, s: &Start, tape: &[(LocalTime, Input)], batch: bool, bytes: bool) -> Result<(Trail, u64), crate::pbt::Fail> {
    replay_with(g, s, tape, batch, bytes, &mut |_, _, _| None)
}

/// `insert` gives messages that arrive as well, before the given input.
fn replay_with(
    g: &mut G,
    s: &Start,
    tape: &[(LocalTime, Input)],
    batch: bool,
    bytes: bool,
    insert: &mut dyn FnMut(&mut G, &Input, &BTreeSet<PeerId>) -> Option<(PeerId, NetworkMessage)>,
) -> Result<(Trail, u64), crate::pbt::Fail> {
    let (tree, filters, peers, clock, rng) = s.parts();
    let mut d = if bytes {
        let c = nakamoto_client::Config {
            network: s.cfg.network,
            domains: s.cfg.domains.clone(),
            connect: s.cfg.connect.clone(),
            user_agent: s.cfg.user_agent,
            hooks: s.cfg.hooks.clone(),
            services: s.cfg.services,
            limits: s.cfg.limits.clone(),
            ..nakamoto_client::Config::default()
        };
        Dut::Service(Box::new(Service::new(tree, filters, peers, clock, rng, c)))
    } else {
        Dut::Machine(Box::new(StateMachine::new(tree, filters, peers, clock, rng, s.cfg.clone())))
    };
    let mut t = Trail::default();
    let mut up: BTreeSet<PeerId> = BTreeSet::new();
    let mut dialing: BTreeSet<PeerId> = BTreeSet::new();
    let mut held = 0u64;
    // Bytes on their way, of the peer sending at the moment.
    let mut wire: Option<(PeerId, Vec<u8>)> = None;
    d.init(s.now);
    for (i, (now, x)) in tape.iter().enumerate() {
        if !matches!(x, Input::Drain(..)) {
            d.tick(*now);
        }
        let same_peer = matches!((x, &wire), (Input::Message(a, _), Some((b, _))) if a == b);
        if !same_peer && !matches!(x, Input::Drain(..)) {
            if let Some((a, b)) = wire.take() {
                feed(g, &mut d, &a, &b);
            }
        }
        if let Some((a, m)) = insert(g, x, &up) {
            let raw = RawNetworkMessage { magic: Network::Regtest.magic(), payload: m };
            if let Dut::Machine(x) = &mut d {
                x.message_received(&a, Cow::Owned(raw));
            }
        }
        match x {
            Input::Connected(a, l) => {
                dialing.remove(a);
                up.insert(*a);
                d.connected(*a, *l);
            }
            Input::Disconnected(a, r) => {
                up.remove(a);
                dialing.remove(a);
                d.disconnected(a, r.clone());
            }
            Input::Message(a, m) => {
                let raw = RawNetworkMessage { magic: Network::Regtest.magic(), payload: m.clone() };
                match &mut d {
                    Dut::Machine(x) => x.message_received(a, Cow::Owned(raw)),
                    Dut::Service(_) => {
                        let w = wire.get_or_insert((*a, vec![]));
                        w.1.extend(serialize(&raw));
                    }
                }
            }
            Input::Command(c) => d.command(c.clone()),
            Input::Timer => d.timer(),
            Input::Drain(n, links) => {
                // Hold the outputs back until after the next input, if that arrives at the same time.
                let next = tape.get(i + 1);
                if batch && !*links && i > 0 && next.map_or(false, |(t, x)| t == now && !matches!(x, Input::Timer | Input::Disconnected(..))) && g.chance(3, 4) {
                    held += (*n > 0) as u64;
                    continue;
                }
                if let Some((a, b)) = wire.take() {
                    feed(g, &mut d, &a, &b);
                }
                let mut k = 0;
                while let Some(io) = d.next() {
                    k += 1;
                    if k > 200_000 {
                        fail!("outputs don't end");
                    }
                    match io {
                        Io::Write(a, m) => {
                            if up.contains(&a) {
                                t.add(&Rec::Write(a, m));
                            }
                        }
                        Io::Connect(a) => {
                            t.add(&Rec::Connect(a));
                            if !up.contains(&a) && dialing.insert(a) {
                                d.attempted(&a);
                            }
                        }
                        Io::Disconnect(a, r) => {
                            t.add(&Rec::Disconnect(a, r.clone()));
                            if up.remove(&a) | dialing.remove(&a) {
                                d.disconnected(&a, r.into());
                            }
                        }
                        Io::SetTimer(x) => t.add(&Rec::Timer(x)),
                        Io::Event(e) => t.add(&Rec::Event(e)),
                    }
                }
            }
        }
    }
    Ok((t, held))
}

/// Bytes arrive in chunks.
fn feed(g: &mut G, d: &mut Dut, a: &PeerId, b: &[u8]) {
    let Dut::Service(s) = d else { return };
    let mut at = 0;
    while at < b.len() {
        let k = match g.below(4) {
            0 => g.range(1, 30),
            1 => g.range(1, 2000),
            _ => b.len() as u64,
        };
        let end = (at + k as usize).min(b.len());
        s.message_received(a, Cow::Borrowed(&b[at..end]));
        at = end;
    }
}

/// A history of a client in a network, with its inputs recorded.
fn history(g: &mut G) -> (Start, Vec<(LocalTime, Input)>, Trail) {
    let mut o = Opts::gen(g);
    o.batches = false;
    o.steps = g.range(5, 40);
    let mut w = setup(g, &o, &mut |g, c| {
        c.services = *g.pick(&[ServiceFlags::NONE, ServiceFlags::NETWORK]);
        c.limits.filter_cache_size = *g.pick(&[0, 1000, 1024 * 1024]);
    });
    for n in w.nodes.values_mut() {
        n.time_offset = *g.pick(&[0, 0, -100, 5000]);
    }
    let s = Start::of(&w);
    w.sim.tape = Some(vec![]);
    w.initialize(g);
    for _ in 0..o.steps {
        match g.below(12) {
            0 => {
                let i = g.below(w.u.blocks.len() as u64) as usize;
                let hash = w.u.blocks[i].hash;
                w.command(g, Command::RequestBlock(hash));
            }
            1 => {
                let from = g.below(5);
                let k = g.below(6) as usize;
                w.command(g, Command::Rescan { from: std::ops::Bound::Included(from), to: std::ops::Bound::Unbounded, watch: vec![script(k)] });
            }
            2 => {
                let i = g.below(w.u.blocks.len() as u64) as usize;
                let b = &w.u.blocks[i].block;
                let tx = g.pick(&b.txdata).clone();
                let (s, _) = crossbeam_channel::bounded(1);
                w.command(g, Command::SubmitTransaction(tx, s));
            }
            3 => {
                let ups: Vec<PeerId> = w.sim.up.keys().copied().collect();
                if !ups.is_empty() {
                    let a = *g.pick(&ups);
                    let now = w.sim.now;
                    let m = match g.below(4) {
                        0 => NetworkMessage::Ping(g.u64()),
                        1 => NetworkMessage::GetAddr,
                        _ => gen_message(g, &w.u, now),
                    };
                    w.send(g, a, m);
                }
            }
            _ => step(g, &mut w, &o),
        }
    }
    let tape = w.sim.tape.take().unwrap();
    let mut t = Trail::default();
    for r in &w.log {
        t.add(r);
    }
    if w.events.iter().any(|e| matches!(e, Event::PeerNegotiated { .. })) && w.sim.tree.get().clone().chain_len() > 1 {
        g.nontrivial();
    }
    g.count("inputs", tape.iter().filter(|(_, i)| !matches!(i, Input::Drain(..))).count() as u64);
    (s, tape, t)
}

trait ChainLen {
    fn chain_len(&self) -> usize;
}
impl ChainLen for nakamoto_chain::block::cache::BlockCache<Memory<BlockHeader>> {
    fn chain_len(&self) -> usize {
        use nakamoto_common::block::tree::BlockReader;
        self.height() as usize + 1
    }
}

fn c28_same(g: &mut G) -> Res {
    let (s, tape, t) = history(g);
    let (r, _) = replay(g, &s, &tape, false, false)?;
    t.compare(&r, "with the same inputs")
}

fn c28_batch(g: &mut G) -> Res {
    let (s, tape, t) = history(g);
    let (r, held) = replay(g, &s, &tape, true, false)?;
    g.count("outputs held back", held);
    if held > 0 {
        g.label("batched");
    }
    t.compare(&r, "with inputs processed in batches")
}

#[derive(Default)]
struct Seen {
    /// The next message is to be dropped.
    drop: bool,
    messages: Vec<(PeerId, NetworkMessage)>,
    special: Vec<(PeerId, NetworkMessage)>,
}

fn c34(g: &mut G) -> Res {
    let (mut s, tape, t) = history(g);
    let seen = Arc::new(Mutex::new(Seen::default()));
    let mut hooks = Hooks::default();
    let x = seen.clone();
    hooks.on_message = Arc::new(move |a, m, _| {
        let mut s = x.lock().unwrap();
        s.messages.push((a, m.clone()));
        if std::mem::take(&mut s.drop) {
            Err("dropped")
        } else {
            Ok(())
        }
    });
    let x = seen.clone();
    hooks.on_getcfilters = Arc::new(move |a, m, _| x.lock().unwrap().special.push((a, NetworkMessage::GetCFilters(m))));
    let x = seen.clone();
    hooks.on_getdata = Arc::new(move |a, m, _| x.lock().unwrap().special.push((a, NetworkMessage::GetData(m))));
    s.cfg.hooks = hooks;
    let u = Universe::new();
    let mut want: Vec<(PeerId, NetworkMessage)> = vec![];
    let mut special: Vec<(PeerId, NetworkMessage)> = vec![];
    let mut dropped = 0u64;
    let now = s.now;
    let r = replay_with(g, &s, &tape, false, false, &mut |g, x, up| {
        let r = if !up.is_empty() && !matches!(x, Input::Drain(..)) && g.chance(1, 3) {
            let all: Vec<PeerId> = up.iter().copied().collect();
            let a = *g.pick(&all);
            // Often a message that would have an effect.
            let m = match g.below(4) {
                0 => NetworkMessage::Ping(g.u64()),
                1 => NetworkMessage::Verack,
                _ => gen_message(g, &u, now),
            };
            want.push((a, m.clone()));
            seen.lock().unwrap().drop = true;
            dropped += 1;
            Some((a, m))
        } else {
            None
        };
        if let Input::Message(a, m) = x {
            want.push((*a, m.clone()));
            if matches!(m, NetworkMessage::GetCFilters(_) | NetworkMessage::GetData(_)) {
                special.push((*a, m.clone()));
            }
        }
        r
    })?;
    t.compare(&r.0, "with other messages dropped by a hook")?;
    let seen = seen.lock().unwrap();
    for (i, (x, y)) in want.iter().zip(&seen.messages).enumerate() {
        ensure!(x == y, "message {} the hook saw is {} of {}, it is {} of {}", i, y.1.cmd(), y.0, x.1.cmd(), x.0);
    }
    ensure!(want.len() == seen.messages.len(), "the hook saw {} messages, there were {}", seen.messages.len(), want.len());
    ensure!(special == seen.special, "the hooks for requests saw {} of them, there were {}", seen.special.len(), special.len());
    if !special.is_empty() {
        g.label("requests");
    }
    g.count("messages dropped", dropped);
    g.count("requests", special.len() as u64);
    Ok(())
}

fn c20_service(g: &mut G) -> Res {
    let (s, tape, t) = history(g);
    for (_, i) in &tape {
        if let Input::Message(_, m) = i {
            let raw = RawNetworkMessage { magic: Network::Regtest.magic(), payload: m.clone() };
            // Some messages have no faithful encoding (transactions without inputs, for example).
            if deserialize::<RawNetworkMessage>(&serialize(&raw)).ok() != Some(raw) {
                g.label("not encodable");
                note!(g, "not encodable: {:?}", m);
                return Ok(());
            }
        }
    }
    let (r, _) = replay(g, &s, &tape, true, true)?;
    t.compare(&r, "with messages received as bytes")
}

// ---------------------------------------------------------------------------------------------
// C21

fn gen_height(g: &mut G, u: &Universe) -> u64 {
    match g.below(10) {
        0 => u64::MAX,
        1 => u32::MAX as u64,
        2 => 0,
        3 => g.range(0, 40),
        _ => g.below(u.blocks.len() as u64 + 2),
    }
}

fn gen_bound(g: &mut G, u: &Universe) -> std::ops::Bound<u64> {
    match g.below(3) {
        0 => std::ops::Bound::Unbounded,
        1 => std::ops::Bound::Included(gen_height(g, u)),
        _ => std::ops::Bound::Excluded(gen_height(g, u)),
    }
}

/// Any command the user could give. Nothing waits for the reply.
fn gen_command(g: &mut G, w: &World) -> Command {
    let u = &w.u;
    let n = u.blocks.len() as u64;
    let scripts = |g: &mut G| -> Vec<_> {
        let k = g.below(4);
        (0..k).map(|_| if g.chance(1, 5) { nakamoto_common::bitcoin::Script::from(vec![0x6a; 3]) } else { script(g.below(6) as usize) }).collect()
    };
    let addrs: Vec<PeerId> = w.nodes.keys().copied().chain(w.sim.up.keys().copied()).collect();
    match g.below(17) {
        0 => Command::GetBlockByHeight(gen_height(g, u), crossbeam_channel::bounded(1).0),
        1 => Command::GetBlockByHash(gen_hash(g, u), crossbeam_channel::bounded(1).0),
        2 => Command::GetPeers(ServiceFlags::NONE, crossbeam_channel::bounded(1).0),
        3 => Command::GetTip(crossbeam_channel::bounded(1).0),
        4 => Command::RequestBlock(gen_hash(g, u)),
        5 | 6 => Command::RequestFilters(gen_height(g, u)..=gen_height(g, u), crossbeam_channel::bounded(1).0),
        7 | 8 => Command::Rescan { from: gen_bound(g, u), to: gen_bound(g, u), watch: scripts(g) },
        9 => Command::Watch { watch: scripts(g) },
        10 => {
            let now = w.sim.now;
            Command::Broadcast(gen_message(g, u, now), |_| true, crossbeam_channel::bounded(1).0)
        }
        11 => Command::Connect(if g.bool() { *g.pick(&addrs) } else { peer_addr(60 + g.below(3) as usize) }),
        12 => Command::Disconnect(if g.bool() { *g.pick(&addrs) } else { peer_addr(60 + g.below(3) as usize) }),
        13 => {
            let now = w.sim.now;
            let hs = loop {
                if let NetworkMessage::Headers(hs) = gen_message(g, u, now) {
                    break hs;
                }
                if g.chance(1, 40) {
                    break vec![];
                }
            };
            Command::ImportHeaders(hs, crossbeam_channel::bounded(1).0)
        }
        14 => {
            let k = g.below(4);
            Command::ImportAddresses((0..k).map(|_| gen_addr(g)).collect())
        }
        15 => {
            let b = &u.blocks[g.below(n) as usize].block;
            let mut tx = g.pick(&b.txdata).clone();
            match g.below(8) {
                0 => tx.output.clear(),
                1 => tx.input.clear(),
                2 => {
                    for o in &mut tx.output {
                        o.value = u64::MAX;
                    }
                }
                _ => {}
            }
            Command::SubmitTransaction(tx, crossbeam_channel::bounded(1).0)
        }
        _ => {
            let b = &u.blocks[g.below(n) as usize].block;
            Command::GetSubmittedTransaction(g.pick(&b.txdata).txid(), crossbeam_channel::bounded(1).0)
        }
    }
}

fn c21(g: &mut G) -> Res {
    let mut o = Opts::gen(g);
    o.steps = g.range(5, 60);
    o.faulty = g.bool();
    let mut w = setup(g, &o, &mut |g, c| {
        c.services = *g.pick(&[ServiceFlags::NONE, ServiceFlags::NETWORK]);
        c.limits.filter_cache_size = *g.pick(&[0, 1000, 1024 * 1024]);
        c.limits.max_outbound_peers = g.usize(1, 4);
        c.limits.max_inbound_peers = g.usize(0, 4);
    });
    w.initialize(g);
    let mut inbounds = 0;
    let mut odd = 0u64;
    let mut kinds: BTreeSet<&'static str> = BTreeSet::new();
    for _ in 0..o.steps {
        let up: Vec<PeerId> = w.sim.up.keys().copied().collect();
        match g.weighted(&[12, if up.is_empty() { 0 } else { 14 }, 5, 1, 1, 1]) {
            0 => step(g, &mut w, &o),
            1 => {
                // Some messages, one after the other or at once.
                let a = *g.pick(&up);
                let now = w.sim.now;
                let k = if g.chance(1, 3) { g.range(2, 4) } else { 1 };
                for _ in 0..k {
                    let m = gen_message(g, &w.u, now);
                    kinds.insert(m.cmd());
                    note!(g, "<- {} {}", short(&a), msg_str(&w.u, &m));
                    w.sim.message(a, m);
                    odd += 1;
                    if g.bool() {
                        w.settle_outputs(g);
                    }
                }
                w.settle_outputs(g);
            }
            2 => {
                let c = gen_command(g, &w);
                w.command(g, c);
                odd += 1;
            }
            3 => {
                // Someone connects.
                inbounds += 1;
                let a: PeerId = ([77, 1, 1, inbounds], 9000).into();
                w.inbound(g, a);
            }
            4 => {
                // A long time passes.
                let d = *g.pick(&[60u64, 3600, 86_400, 86_400 * 400]);
                w.advance(g, nakamoto_common::block::time::LocalDuration::from_secs(d));
            }
            _ => {
                // Outputs for several peers at once.
                for a in up.iter().take(3) {
                    let now = w.sim.now;
                    let m = gen_message(g, &w.u, now);
                    note!(g, "<- {} {}", short(a), msg_str(&w.u, &m));
                    w.sim.message(*a, m);
                }
                w.settle_outputs(g);
            }
        }
    }
    if odd > 3 && w.events.iter().any(|e| matches!(e, Event::PeerNegotiated { .. })) {
        g.nontrivial();
    }
    g.count("odd inputs", odd);
    g.count("kinds", kinds.len() as u64);
    // An honest peer can still bring the client up to date.
    super::net::make_honest(&mut w);
    let best = w.u.best(0..w.u.blocks.len());
    let t = w.u.blocks[best].block.header.time as u64 + 30;
    if w.sim.now < LocalTime::from_secs(t) {
        w.sim.now = LocalTime::from_secs(t);
    }
    let a: PeerId = ([99, 1, 2, 3], 8333).into();
    let n = Node::new(a, &w.u, best);
    w.add_node(n);
    // The others may take up all the connections there can be.
    for x in w.sim.up.keys().copied().collect::<Vec<_>>() {
        w.hangup(g, x);
    }
    w.command(g, Command::Connect(a));
    let work = {
        use nakamoto_common::block::tree::BlockReader;
        let f = move |w: &World, hash: &BlockHash| -> bool {
            // As much work as the best known chain.
            w.sim.tree.get().height() >= w.u.blocks[best].height || w.sim.tree.get().tip().0 == *hash
        };
        f
    };
    let goal = w.u.blocks[best].hash;
    let ok = super::net::calm_with(g, &mut w, 3 * 3600, &|x| *x == a, &mut |w| work(w, &goal), &mut |_, _| Ok(()))?;
    ensure!(ok, "the client doesn't follow an honest peer any more: it's at height {}, the best chain has {}", {
        use nakamoto_common::block::tree::BlockReader;
        w.sim.tree.get().height()
    }, w.u.blocks[best].height);
    Ok(())
}

pub static PROPS: &[Property] = &[
    Property {
        id: "C34",
        level: "exploration",
        rule: "a case is a history of a client in a simulated network, replayed with further messages that a hook drops; non-trivial: a peer was negotiated and headers are known",
        strategies: &[Strategy { name: "dropped", quick: 25000, thorough: 1000000, case: c34 }],
        assumptions: &[],
        known: &[],
    },
    Property {
        id: "C21",
        level: "exploration",
        rule: "a case is a history of arbitrary messages and commands among those of ordinary peers; non-trivial: a peer was negotiated and there were more than three arbitrary inputs",
        strategies: &[Strategy { name: "chaos", quick: 80000, thorough: 2000000, case: c21 }],
        assumptions: &["the clock doesn't go backwards"],
        known: &[],
    },
    Property {
        id: "C20",
        level: "exploration",
        rule: "a case is a stream of messages, partly malformed, split into chunks, or a history replayed in bytes; non-trivial: more than one chunk and message, or a peer negotiated",
        strategies: &[
            Strategy { name: "decoder", quick: 60000, thorough: 3000000, case: c20_decoder },
            Strategy { name: "size", quick: 60, thorough: 2000, case: c20_size },
            Strategy { name: "large", quick: 600, thorough: 20000, case: c20_large },
            Strategy { name: "service", quick: 8000, thorough: 400000, case: c20_service },
        ],
        assumptions: &["the bitcoin crate decodes single, complete messages correctly"],
        known: &[],
    },
    Property {
        id: "C28",
        level: "exploration",
        rule: "a case is a history of a client in a simulated network, recorded and replayed; non-trivial: a peer was negotiated and headers are known",
        strategies: &[
            Strategy { name: "same", quick: 8000, thorough: 400000, case: c28_same },
            Strategy { name: "batch", quick: 20000, thorough: 1000000, case: c28_batch },
        ],
        assumptions: &[],
        known: &[],
    },
];
