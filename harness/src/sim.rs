//! Simulated network around the real protocol state machine: a generated block universe, simulated
//! peers, and a driver with the semantics of the real reactor. All choices come from the generator.
use std::borrow::Cow;
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::io;
use std::net;
use std::ops::RangeInclusive;
use std::rc::Rc;
use std::sync::Arc;

use nakamoto_chain::block::cache::BlockCache;
use nakamoto_chain::block::store::Memory;
use nakamoto_chain::filter::cache::{FilterCache, StoredHeader};
use nakamoto_common::bitcoin::blockdata::block::{Block, BlockHeader};
use nakamoto_common::bitcoin::blockdata::script::Script;
use nakamoto_common::bitcoin::blockdata::transaction::{OutPoint, Transaction, TxIn, TxOut};
use nakamoto_common::bitcoin::consensus::params::Params;
use nakamoto_common::bitcoin::hash_types::{BlockHash, FilterHash, FilterHeader, TxMerkleNode};
use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::{NetworkMessage, RawNetworkMessage};
use nakamoto_common::bitcoin::network::message_blockdata::Inventory;
use nakamoto_common::bitcoin::network::message_filter::{CFHeaders, CFilter};
use nakamoto_common::bitcoin::network::message_network::VersionMessage;
use nakamoto_common::bitcoin::util::bip158::BlockFilter;
use nakamoto_common::bitcoin::util::uint::Uint256;
use nakamoto_common::bitcoin::{PackedLockTime, Sequence, Txid, Witness};
use nakamoto_common::bitcoin_hashes::Hash as _;
use nakamoto_common::block::filter::{self, Filters};
use nakamoto_common::block::time::{AdjustedTime, Clock, LocalDuration, LocalTime, RefClock};
use nakamoto_common::block::tree::{self, BlockReader, BlockTree, ImportResult};
use nakamoto_common::network::Network;
use nakamoto_common::nonempty::NonEmpty;
use nakamoto_common::p2p::peer::{self as paddr, KnownAddress};
use nakamoto_net::{Disconnect, Io, Link, StateMachine as _};
use nakamoto_p2p::fsm::{Command, Config, DisconnectReason, Event, PeerId, StateMachine};

use crate::chainsim::mine;
use crate::pbt::G;

// ---------------------------------------------------------------------------------------------
// Shared access to the state owned by the state machine.

/// A value owned by the state machine and inspected by the harness between inputs.
/// Single-threaded; no reference is held across calls into the state machine.
pub struct Shared<T>(Rc<UnsafeCell<T>>);

impl<T> Shared<T> {
    pub fn new(t: T) -> Self {
        Self(Rc::new(UnsafeCell::new(t)))
    }
    pub fn get(&self) -> &T {
        unsafe { &*self.0.get() }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get_mut(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}
impl<T> Clone for Shared<T> {
    fn clone(&self) -> Self {
        Self(self.0.clone())
    }
}

impl<T: BlockReader> BlockReader for Shared<T> {
    fn get_block(&self, hash: &BlockHash) -> Option<(u64, &BlockHeader)> {
        self.get().get_block(hash)
    }
    fn get_block_by_height(&self, height: u64) -> Option<&BlockHeader> {
        self.get().get_block_by_height(height)
    }
    fn find_branch(&self, to: &BlockHash) -> Option<(u64, NonEmpty<BlockHeader>)> {
        self.get().find_branch(to)
    }
    fn chain_work(&self) -> Uint256 {
        self.get().chain_work()
    }
    fn iter<'a>(&'a self) -> Box<dyn DoubleEndedIterator<Item = (u64, BlockHeader)> + 'a> {
        self.get().iter()
    }
    fn range<'a>(&'a self, range: std::ops::Range<u64>) -> Box<dyn Iterator<Item = (u64, BlockHash)> + 'a> {
        self.get().range(range)
    }
    fn height(&self) -> u64 {
        self.get().height()
    }
    fn tip(&self) -> (BlockHash, BlockHeader) {
        self.get().tip()
    }
    fn last_checkpoint(&self) -> u64 {
        self.get().last_checkpoint()
    }
    fn checkpoints(&self) -> BTreeMap<u64, BlockHash> {
        self.get().checkpoints()
    }
    fn is_known(&self, hash: &BlockHash) -> bool {
        self.get().is_known(hash)
    }
    fn contains(&self, hash: &BlockHash) -> bool {
        self.get().contains(hash)
    }
    fn locate_headers(&self, l: &[BlockHash], stop: BlockHash, max: usize) -> Vec<BlockHeader> {
        self.get().locate_headers(l, stop, max)
    }
    fn locator_hashes(&self, from: u64) -> Vec<BlockHash> {
        self.get().locator_hashes(from)
    }
}
impl<T: BlockTree> BlockTree for Shared<T> {
    fn import_blocks<I: Iterator<Item = BlockHeader>, C: Clock>(
        &mut self,
        chain: I,
        context: &C,
    ) -> Result<ImportResult, tree::Error> {
        self.get_mut().import_blocks(chain, context)
    }
    fn extend_tip<C: Clock>(&mut self, header: BlockHeader, context: &C) -> Result<ImportResult, tree::Error> {
        self.get_mut().extend_tip(header, context)
    }
}
impl<T: Filters> Filters for Shared<T> {
    fn get_headers(&self, range: RangeInclusive<u64>) -> Vec<(FilterHash, FilterHeader)> {
        self.get().get_headers(range)
    }
    fn get_header(&self, height: u64) -> Option<(FilterHash, FilterHeader)> {
        self.get().get_header(height)
    }
    fn import_headers(&mut self, headers: Vec<(FilterHash, FilterHeader)>) -> Result<u64, filter::Error> {
        self.get_mut().import_headers(headers)
    }
    fn tip(&self) -> (&FilterHash, &FilterHeader) {
        self.get().tip()
    }
    fn height(&self) -> u64 {
        self.get().height()
    }
    fn get_prev_header(&self, height: u64) -> Option<FilterHeader> {
        self.get().get_prev_header(height)
    }
    fn rollback(&mut self, height: u64) -> Result<(), filter::Error> {
        self.get_mut().rollback(height)
    }
    fn clear(&mut self) -> Result<(), filter::Error> {
        self.get_mut().clear()
    }
}

/// Deterministically ordered peer store.
#[derive(Clone, Default)]
pub struct PeerBook(pub BTreeMap<net::IpAddr, KnownAddress>);

impl paddr::Store for Shared<PeerBook> {
    fn get(&self, ip: &net::IpAddr) -> Option<&KnownAddress> {
        Shared::get(self).0.get(ip)
    }
    fn get_mut(&mut self, ip: &net::IpAddr) -> Option<&mut KnownAddress> {
        Shared::get_mut(self).0.get_mut(ip)
    }
    fn insert(&mut self, ip: net::IpAddr, ka: KnownAddress) -> bool {
        use std::collections::btree_map::Entry;
        match Shared::get_mut(self).0.entry(ip) {
            Entry::Vacant(v) => {
                v.insert(ka);
                true
            }
            Entry::Occupied(_) => false,
        }
    }
    fn remove(&mut self, ip: &net::IpAddr) -> Option<KnownAddress> {
        Shared::get_mut(self).0.remove(ip)
    }
    fn iter<'a>(&'a self) -> Box<dyn Iterator<Item = (&net::IpAddr, &KnownAddress)> + 'a> {
        Box::new(Shared::get(self).0.iter())
    }
    fn len(&self) -> usize {
        Shared::get(self).0.len()
    }
    fn clear(&mut self) {
        Shared::get_mut(self).0.clear()
    }
    fn flush<'a>(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// Block universe.

pub const SCRIPTS: usize = 8;

/// Pay-to-witness-public-key-hash script number `k`.
pub fn script(k: usize) -> Script {
    let mut b = vec![0x00, 0x14];
    b.extend_from_slice(&[k as u8 + 1; 20]);
    Script::from(b)
}

#[derive(Clone)]
pub struct UBlock {
    pub block: Block,
    pub hash: BlockHash,
    pub parent: usize,
    pub height: u64,
    pub filter: BlockFilter,
    pub fhash: FilterHash,
    pub fheader: FilterHeader,
    /// Scripts paid or spent from in this block.
    pub touched: BTreeSet<Script>,
    /// Some unspent outputs available after this block.
    pub utxos: Vec<(OutPoint, TxOut)>,
}

#[derive(Clone)]
pub struct Universe {
    pub blocks: Vec<UBlock>,
    pub by_hash: HashMap<BlockHash, usize>,
    nonce: u64,
}

pub fn fheader_of(hash: &FilterHash, prev: &FilterHeader) -> FilterHeader {
    let mut b = [0u8; 64];
    b[..32].copy_from_slice(&hash[..]);
    b[32..].copy_from_slice(&prev[..]);
    FilterHeader::from_hash(nakamoto_common::bitcoin_hashes::sha256d::Hash::hash(&b))
}

pub fn fhash_of(f: &[u8]) -> FilterHash {
    FilterHash::from_hash(nakamoto_common::bitcoin_hashes::sha256d::Hash::hash(f))
}

/// What to put in a block.
#[derive(Clone, Debug, Default)]
pub struct Content {
    /// Script of the coinbase output (`None`: an unwatched one).
    pub coinbase: Option<usize>,
    /// Transactions spending available outputs, each paying to these scripts.
    pub txs: Vec<Vec<usize>>,
    /// Whole transactions to include.
    pub include: Vec<Transaction>,
    pub spacing: u32,
}

impl Universe {
    pub fn new() -> Self {
        let block = Network::Regtest.genesis_block();
        let hash = block.block_hash();
        let filter = BlockFilter::new_script_filter(&block, |_| -> Result<Script, _> { unreachable!() }).unwrap();
        let fhash = fhash_of(&filter.content);
        let fheader = fheader_of(&fhash, &FilterHeader::all_zeros());
        let g = UBlock {
            block,
            hash,
            parent: 0,
            height: 0,
            filter,
            fhash,
            fheader,
            touched: BTreeSet::new(),
            utxos: vec![],
        };
        let mut by_hash = HashMap::new();
        by_hash.insert(hash, 0);
        Self { blocks: vec![g], by_hash, nonce: 0 }
    }

    pub fn tx(&mut self, inputs: Vec<OutPoint>, outputs: Vec<TxOut>) -> Transaction {
        self.nonce += 1;
        Transaction {
            version: 2,
            lock_time: PackedLockTime(self.nonce as u32),
            input: inputs
                .into_iter()
                .map(|o| TxIn {
                    previous_output: o,
                    script_sig: Script::new(),
                    sequence: Sequence(0xffff_fffd),
                    witness: Witness::from_vec(vec![vec![self.nonce as u8; 4]]),
                })
                .collect(),
            output: outputs,
        }
    }

    pub fn add(&mut self, parent: usize, c: &Content) -> usize {
        self.nonce += 1;
        let p = self.blocks[parent].clone();
        let height = p.height + 1;
        let mut cb = vec![3u8];
        cb.extend_from_slice(&(height as u32).to_le_bytes()[..3]);
        cb.extend_from_slice(&self.nonce.to_le_bytes());
        let out = match c.coinbase {
            Some(k) => script(k),
            None => Script::from([&[0x00u8, 0x14], &[0xee; 12][..], &self.nonce.to_le_bytes()[..]].concat()),
        };
        let coinbase = Transaction {
            version: 1,
            lock_time: PackedLockTime(0),
            input: vec![TxIn {
                previous_output: OutPoint::null(),
                script_sig: Script::from(cb),
                sequence: Sequence(u32::MAX),
                witness: Witness::default(),
            }],
            output: vec![TxOut { value: 50_0000_0000, script_pubkey: out }],
        };
        let mut utxos = p.utxos.clone();
        let mut txs = vec![coinbase];
        let mut touched = BTreeSet::new();
        for outs in &c.txs {
            if utxos.is_empty() {
                break;
            }
            let (op, prev) = utxos.remove(0);
            touched.insert(prev.script_pubkey.clone());
            let n = outs.len().max(1) as u64;
            // A fee that depends on the script numbers.
            let fee = 100 * (1 + outs.iter().sum::<usize>() as u64);
            let value = prev.value.saturating_sub(fee) / n;
            let outs: Vec<TxOut> = if outs.is_empty() {
                vec![TxOut { value, script_pubkey: Script::from([&[0x00u8, 0x14], &[0xdd; 12][..], &self.nonce.to_le_bytes()[..]].concat()) }]
            } else {
                outs.iter().map(|k| TxOut { value, script_pubkey: script(*k) }).collect()
            };
            let tx = self.tx(vec![op], outs);
            txs.push(tx);
        }
        for tx in &c.include {
            for i in &tx.input {
                if let Some(k) = utxos.iter().position(|(o, _)| *o == i.previous_output) {
                    touched.insert(utxos.remove(k).1.script_pubkey);
                }
            }
            txs.push(tx.clone());
        }
        let mut coins: HashMap<OutPoint, TxOut> = HashMap::new();
        for tx in &txs {
            let id = tx.txid();
            for (i, o) in tx.output.iter().enumerate() {
                let op = OutPoint { txid: id, vout: i as u32 };
                coins.insert(op, o.clone());
                utxos.push((op, o.clone()));
                touched.insert(o.script_pubkey.clone());
            }
        }
        if utxos.len() > 24 {
            utxos.drain(..utxos.len() - 24);
        }
        let mut block = Block {
            header: BlockHeader {
                version: 4,
                prev_blockhash: p.hash,
                merkle_root: TxMerkleNode::all_zeros(),
                time: p.block.header.time + c.spacing.max(1),
                bits: p.block.header.bits,
                nonce: 0,
            },
            txdata: txs,
        };
        block.header.merkle_root = block.compute_merkle_root().unwrap();
        assert!(mine(&mut block.header), "HARNESS: mining");
        let hash = block.block_hash();
        let all: HashMap<OutPoint, Script> = self.prevouts(parent);
        let filter = BlockFilter::new_script_filter(&block, |o| {
            Ok::<Script, nakamoto_common::bitcoin::util::bip158::Error>(
                coins.get(o).map(|t| t.script_pubkey.clone()).or_else(|| all.get(o).cloned()).unwrap_or_default(),
            )
        })
        .unwrap();
        let fhash = fhash_of(&filter.content);
        let fheader = fheader_of(&fhash, &p.fheader);
        let i = self.blocks.len();
        self.by_hash.insert(hash, i);
        self.blocks.push(UBlock { block, hash, parent, height, filter, fhash, fheader, touched, utxos });
        i
    }

    fn prevouts(&self, at: usize) -> HashMap<OutPoint, Script> {
        self.blocks[at].utxos.iter().map(|(o, t)| (*o, t.script_pubkey.clone())).collect()
    }

    /// Chain of block indices from genesis to `tip`.
    pub fn chain(&self, tip: usize) -> Vec<usize> {
        let mut v = vec![tip];
        let mut i = tip;
        while i != 0 {
            i = self.blocks[i].parent;
            v.push(i);
        }
        v.reverse();
        v
    }

    pub fn content(g: &mut G) -> Content {
        let coinbase = if g.chance(1, 4) { Some(g.below(SCRIPTS as u64) as usize) } else { None };
        let mut txs = Vec::new();
        for _ in 0..g.below(3) {
            let mut outs = Vec::new();
            for _ in 0..g.below(3) {
                outs.push(g.below(SCRIPTS as u64) as usize);
            }
            txs.push(outs);
        }
        Content { coinbase, txs, include: vec![], spacing: 60 }
    }

    /// Add `n` blocks with generated content on top of `parent`.
    pub fn grow(&mut self, g: &mut G, parent: usize, n: u64) -> usize {
        let mut p = parent;
        for _ in 0..n {
            let c = Self::content(g);
            p = self.add(p, &c);
        }
        p
    }

    /// The block with the most work (ties: smallest hash, as outside mainnet) among `tips`.
    pub fn best(&self, tips: impl Iterator<Item = usize>) -> usize {
        tips.max_by_key(|i| (self.blocks[*i].height, std::cmp::Reverse(self.blocks[*i].hash))).unwrap()
    }

    /// Does the filter of a block match any of these scripts?
    pub fn matches(&self, i: usize, scripts: &BTreeSet<Script>) -> bool {
        if scripts.is_empty() {
            return false;
        }
        let b = &self.blocks[i];
        b.filter.match_any(&b.hash, &mut scripts.iter().map(|s| s.as_bytes())).unwrap()
    }
}

/// A long chain shared by all cases, for batches beyond the message limits.
pub fn long_trunk() -> Universe {
    use std::sync::OnceLock;
    static U: OnceLock<Universe> = OnceLock::new();
    U.get_or_init(|| {
        let mut u = Universe::new();
        let mut p = 0;
        for i in 0..2500u64 {
            let c = Content {
                coinbase: if i % 97 == 3 { Some((i % SCRIPTS as u64) as usize) } else { None },
                ..Content::default()
            };
            p = u.add(p, &c);
            u.blocks[p].utxos.clear();
        }
        u
    })
    .clone()
}

// ---------------------------------------------------------------------------------------------
// Driver with the reactor's semantics.

pub type SimTree = Shared<BlockCache<Memory<BlockHeader>>>;
pub type SimFilters = Shared<FilterCache<Memory<StoredHeader>>>;
pub type SimPeers = Shared<PeerBook>;
pub type SimClock = RefClock<AdjustedTime<PeerId>>;
pub type Machine = StateMachine<SimTree, SimFilters, SimPeers, SimClock>;

/// What the state machine did.
#[derive(Clone, Debug)]
pub enum Rec {
    Write(PeerId, NetworkMessage),
    /// Written to a peer that isn't connected (dropped by the reactor).
    Lost(PeerId, NetworkMessage),
    Connect(PeerId),
    Disconnect(PeerId, DisconnectReason),
    Timer(LocalDuration),
    Event(Event),
    /// Received from a peer.
    In(PeerId, NetworkMessage),
    /// Time of the outputs that follow.
    Now(LocalTime),
}

/// Inputs of the state machine, as recorded.
#[derive(Clone)]
pub enum Input {
    Connected(PeerId, Link),
    Disconnected(PeerId, Disconnect<DisconnectReason>),
    Message(PeerId, NetworkMessage),
    Command(Command),
    Timer,
    /// The outputs were processed. There were this many, and they opened or closed connections.
    Drain(usize, bool),
}

pub struct Sim {
    pub sm: Machine,
    pub seed: u64,
    pub cfg: Config,
    /// Inputs recorded, if wanted.
    pub tape: Option<Vec<(LocalTime, Input)>>,
    pub tree: SimTree,
    pub filters: SimFilters,
    pub peers: SimPeers,
    pub clock: SimClock,
    pub now: LocalTime,
    pub timers: BTreeSet<u128>,
    pub up: BTreeMap<PeerId, Link>,
    pub dialing: BTreeSet<PeerId>,
    /// Addresses for which dialing fails at once.
    pub dial_errors: BTreeSet<PeerId>,
    pub magic: u32,
    pub reorder: bool,
}

pub fn conn_err(kind: io::ErrorKind) -> Disconnect<DisconnectReason> {
    Disconnect::ConnectionError(Arc::new(io::Error::from(kind)))
}

pub fn millis(t: LocalTime) -> u128 {
    t.duration_since(LocalTime::default()).as_millis()
}

impl Sim {
    pub fn new(tree: BlockCache<Memory<BlockHeader>>, filters: FilterCache<Memory<StoredHeader>>, book: PeerBook, now: LocalTime, seed: u64, cfg: Config) -> Self {
        let tree = Shared::new(tree);
        let filters = Shared::new(filters);
        let peers = Shared::new(book);
        let clock: SimClock = RefClock::from(AdjustedTime::new(now));
        let magic = cfg.network.magic();
        let sm = StateMachine::new(tree.clone(), filters.clone(), peers.clone(), clock.clone(), fastrand::Rng::with_seed(seed), cfg.clone());
        Self {
            seed,
            cfg,
            sm,
            tree,
            filters,
            peers,
            clock,
            now,
            timers: BTreeSet::new(),
            up: BTreeMap::new(),
            dialing: BTreeSet::new(),
            dial_errors: BTreeSet::new(),
            magic,
            reorder: false,
            tape: None,
        }
    }

    fn record(&mut self, i: Input) {
        let now = self.now;
        if let Some(t) = &mut self.tape {
            t.push((now, i));
        }
    }

    pub fn local_addr() -> net::SocketAddr {
        ([1, 2, 3, 4], 18444).into()
    }

    pub fn initialize(&mut self) -> Vec<Rec> {
        self.sm.initialize(self.now);
        self.drain()
    }

    /// Process the outputs, as the reactor does.
    pub fn drain(&mut self) -> Vec<Rec> {
        let mut out = Vec::new();
        let mut n = 0;
        while let Some(io) = self.sm.next() {
            n += 1;
            if n > 200_000 {
                panic!("CODE: more than 200000 outputs without an input");
            }
            match io {
                Io::Write(a, m) => {
                    if self.up.contains_key(&a) {
                        out.push(Rec::Write(a, m.payload));
                    } else {
                        out.push(Rec::Lost(a, m.payload));
                    }
                }
                Io::Connect(a) => {
                    out.push(Rec::Connect(a));
                    if self.dial_errors.contains(&a) {
                        self.sm.disconnected(&a, Disconnect::DialError(Arc::new(io::Error::from(io::ErrorKind::Other))));
                    } else if !self.up.contains_key(&a) && self.dialing.insert(a) {
                        self.sm.attempted(&a);
                    }
                }
                Io::Disconnect(a, r) => {
                    out.push(Rec::Disconnect(a, r.clone()));
                    if self.up.remove(&a).is_some() | self.dialing.remove(&a) {
                        self.sm.disconnected(&a, r.into());
                    }
                }
                Io::SetTimer(d) => {
                    self.set_timer(d);
                    out.push(Rec::Timer(d));
                }
                Io::Event(e) => out.push(Rec::Event(e)),
            }
        }
        let links = out.iter().any(|r| matches!(r, Rec::Connect(_) | Rec::Disconnect(..)));
        self.record(Input::Drain(out.len(), links));
        out
    }

    /// As the reactor's timeout manager: timers closer than a second to another one are merged.
    fn set_timer(&mut self, d: LocalDuration) {
        let t = millis(self.now) + d.as_millis();
        let near = self.timers.range(t.saturating_sub(999)..=t + 999).next().is_some();
        if !near {
            self.timers.insert(t);
        }
    }

    pub fn tick(&mut self) {
        self.sm.tick(self.now);
    }

    pub fn connected(&mut self, a: PeerId, link: Link) {
        self.tick();
        self.dialing.remove(&a);
        self.up.insert(a, link);
        self.record(Input::Connected(a, link));
        self.sm.connected(a, &Self::local_addr(), link);
    }

    pub fn disconnected(&mut self, a: PeerId, r: Disconnect<DisconnectReason>) {
        self.tick();
        if self.up.remove(&a).is_some() | self.dialing.remove(&a) {
            self.record(Input::Disconnected(a, r.clone()));
            self.sm.disconnected(&a, r);
        }
    }

    pub fn message(&mut self, a: PeerId, payload: NetworkMessage) {
        self.tick();
        if self.up.contains_key(&a) {
            self.record(Input::Message(a, payload.clone()));
            self.sm.message_received(&a, Cow::Owned(RawNetworkMessage { magic: self.magic, payload }));
        }
    }

    pub fn command(&mut self, c: Command) {
        self.tick();
        self.record(Input::Command(c.clone()));
        self.sm.command(c);
    }

    pub fn elapse(&mut self, d: LocalDuration) {
        self.now.elapse(d);
    }

    /// Time of the next timer, if any.
    pub fn next_timer(&self) -> Option<u128> {
        self.timers.iter().next().copied()
    }

    /// Fire the expired timers, as the reactor does (once for all of them).
    pub fn fire(&mut self) -> bool {
        let now = millis(self.now);
        let before = self.timers.len();
        self.timers.retain(|t| *t > now);
        self.tick();
        if self.timers.len() < before {
            self.record(Input::Timer);
            self.sm.timer_expired();
            true
        } else {
            false
        }
    }
}

/// Tree and filter stores in sync with a chain of the universe.
pub fn stores(u: &Universe, chain: &[usize], filters_to: usize) -> (BlockCache<Memory<BlockHeader>>, FilterCache<Memory<StoredHeader>>) {
    let headers: Vec<BlockHeader> = chain.iter().map(|i| u.blocks[*i].block.header).collect();
    let params = Params::new(nakamoto_common::bitcoin::Network::Regtest);
    let store = Memory::new(NonEmpty::from_vec(headers).unwrap());
    let tree = BlockCache::new(store, params, &[]).unwrap().load().unwrap();
    let store = nakamoto_chain::block::store::Memory::<StoredHeader>::genesis(Network::Regtest);
    let mut f = FilterCache::load(store).unwrap();
    let hs: Vec<_> = chain[1..filters_to + 1].iter().map(|i| (u.blocks[*i].fhash, u.blocks[*i].fheader)).collect();
    if !hs.is_empty() {
        f.import_headers(hs).unwrap();
    }
    (tree, f)
}

// ---------------------------------------------------------------------------------------------
// Simulated peers.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Honest,
    /// Never answers.
    Silent,
    /// Answers with wrong data.
    Wrong,
    /// Each of the above at times.
    Mixed,
}

#[derive(Clone, Debug)]
pub struct Node {
    pub addr: PeerId,
    pub services: ServiceFlags,
    pub version: u32,
    pub relay: bool,
    pub wtxid: bool,
    pub user_agent: String,
    pub time_offset: i64,
    pub height_claim: Option<i32>,
    pub tip: usize,
    pub chain: Vec<usize>,
    pub known: HashSet<usize>,
    pub link: Link,
    pub nonce: u64,
    /// Messages on the wire towards the client.
    pub out: VecDeque<NetworkMessage>,
    pub headers: Mode,
    pub cfheaders: Mode,
    pub cfilters: Mode,
    pub blocks: Mode,
    pub pong: Mode,
    pub getdata: Mode,
    /// Requests every transaction announced, also if it has it.
    pub hungry: bool,
    pub handshake: Mode,
    pub verack_sent: bool,
    pub got_verack: bool,
    pub txs: BTreeMap<Txid, Transaction>,
    pub addrs: Vec<(u32, Address)>,
    /// Everything received from the client on this connection.
    pub got: Vec<NetworkMessage>,
    pub max_cfilters_order: bool,
    /// Announcements to be sent after the handshake.
    pub queued: Vec<NetworkMessage>,
}

pub fn peer_addr(i: usize) -> PeerId {
    ([88, 10 + i as u8, 3, 7], 8333).into()
}

impl Node {
    pub fn new(addr: PeerId, u: &Universe, tip: usize) -> Self {
        let mut n = Self {
            addr,
            services: ServiceFlags::NETWORK | ServiceFlags::COMPACT_FILTERS | ServiceFlags::WITNESS,
            version: 70016,
            relay: true,
            wtxid: true,
            user_agent: "/sim/".into(),
            time_offset: 0,
            height_claim: None,
            tip,
            chain: vec![],
            known: HashSet::new(),
            link: Link::Outbound,
            nonce: addr.port() as u64 * 1000 + match addr.ip() {
                net::IpAddr::V4(i) => i.octets()[1] as u64,
                _ => 7,
            },
            out: VecDeque::new(),
            headers: Mode::Honest,
            cfheaders: Mode::Honest,
            cfilters: Mode::Honest,
            blocks: Mode::Honest,
            pong: Mode::Honest,
            getdata: Mode::Honest,
            hungry: false,
            handshake: Mode::Honest,
            verack_sent: false,
            got_verack: false,
            txs: BTreeMap::new(),
            addrs: vec![],
            got: vec![],
            max_cfilters_order: false,
            queued: vec![],
        };
        n.set_tip(u, tip);
        n
    }

    pub fn set_tip(&mut self, u: &Universe, tip: usize) {
        self.tip = tip;
        self.chain = u.chain(tip);
        self.known.extend(self.chain.iter().copied());
    }

    pub fn version_msg(&self, now: LocalTime) -> VersionMessage {
        let local = Sim::local_addr();
        VersionMessage {
            version: self.version,
            services: self.services,
            timestamp: now.as_secs() as i64 + self.time_offset,
            receiver: Address::new(&local, ServiceFlags::NONE),
            sender: Address::new(&self.addr, self.services),
            nonce: self.nonce,
            user_agent: self.user_agent.clone(),
            start_height: self.height_claim.unwrap_or(self.chain.len() as i32 - 1),
            relay: self.relay,
        }
    }

    /// The connection is up.
    pub fn on_connected(&mut self, link: Link, now: LocalTime) {
        self.link = link;
        self.out.clear();
        self.got.clear();
        self.verack_sent = false;
        self.got_verack = false;
        self.queued.clear();
        if link == Link::Inbound && self.handshake != Mode::Silent {
            self.out.push_back(NetworkMessage::Version(self.version_msg(now)));
        }
    }

    /// Honest in every respect.
    pub fn honest(&self) -> bool {
        [self.headers, self.cfheaders, self.cfilters, self.blocks, self.pong, self.getdata, self.handshake].iter().all(|m| *m == Mode::Honest)
    }

    pub fn negotiated(&self) -> bool {
        self.got_verack && self.verack_sent
    }

    fn mode(g: &mut G, m: Mode) -> Mode {
        match m {
            Mode::Mixed => *g.pick(&[Mode::Honest, Mode::Silent, Mode::Wrong]),
            m => m,
        }
    }

    /// Chain of known blocks ending in `stop`.
    fn ancestors(&self, u: &Universe, stop: &BlockHash) -> Option<Vec<usize>> {
        let i = *u.by_hash.get(stop)?;
        if !self.known.contains(&i) {
            return None;
        }
        let b = &u.blocks[i];
        if self.chain.get(b.height as usize) == Some(&i) {
            Some(self.chain[..=b.height as usize].to_vec())
        } else {
            Some(u.chain(i))
        }
    }

    /// React to a message of the client; answers go on the wire.
    pub fn handle(&mut self, g: &mut G, u: &Universe, now: LocalTime, msg: &NetworkMessage) {
        self.got.push(msg.clone());
        match msg {
            NetworkMessage::Version(_) => {
                if self.handshake == Mode::Silent {
                    return;
                }
                if self.link == Link::Outbound {
                    self.out.push_back(NetworkMessage::Version(self.version_msg(now)));
                }
                if self.wtxid {
                    self.out.push_back(NetworkMessage::WtxidRelay);
                }
                if self.handshake != Mode::Wrong {
                    self.out.push_back(NetworkMessage::Verack);
                    self.verack_sent = true;
                }
            }
            NetworkMessage::Verack => {
                self.got_verack = true;
                if self.verack_sent {
                    self.out.extend(self.queued.drain(..));
                }
            }
            NetworkMessage::Ping(n) => match Self::mode(g, self.pong) {
                Mode::Silent => {}
                Mode::Wrong => self.out.push_back(NetworkMessage::Pong(n.wrapping_add(1))),
                _ => self.out.push_back(NetworkMessage::Pong(*n)),
            },
            NetworkMessage::GetHeaders(m) => {
                let hs = self.locate(u, &m.locator_hashes, &m.stop_hash);
                match Self::mode(g, self.headers) {
                    Mode::Silent => {}
                    Mode::Wrong => {
                        let mut hs = hs;
                        corrupt_headers(g, &mut hs, u);
                        self.out.push_back(NetworkMessage::Headers(hs));
                    }
                    _ => self.out.push_back(NetworkMessage::Headers(hs)),
                }
            }
            NetworkMessage::GetCFHeaders(m) => {
                let Some(c) = self.ancestors(u, &m.stop_hash) else { return };
                let start = m.start_height as usize;
                if start >= c.len() || m.filter_type != 0 || c.len() - start > 2000 {
                    return;
                }
                let mut r = CFHeaders {
                    filter_type: 0,
                    stop_hash: m.stop_hash,
                    previous_filter_header: if start == 0 { FilterHeader::all_zeros() } else { u.blocks[c[start - 1]].fheader },
                    filter_hashes: c[start..].iter().map(|i| u.blocks[*i].fhash).collect(),
                };
                match Self::mode(g, self.cfheaders) {
                    Mode::Silent => {}
                    Mode::Wrong => {
                        corrupt_cfheaders(g, &mut r, u);
                        self.out.push_back(NetworkMessage::CFHeaders(r));
                    }
                    _ => self.out.push_back(NetworkMessage::CFHeaders(r)),
                }
            }
            NetworkMessage::GetCFilters(m) => {
                let Some(c) = self.ancestors(u, &m.stop_hash) else { return };
                let start = m.start_height as usize;
                if start >= c.len() || m.filter_type != 0 || c.len() - start > 1000 {
                    return;
                }
                for i in &c[start..] {
                    let b = &u.blocks[*i];
                    let mut r = CFilter { filter_type: 0, block_hash: b.hash, filter: b.filter.content.clone() };
                    match Self::mode(g, self.cfilters) {
                        Mode::Silent => {}
                        Mode::Wrong => {
                            corrupt_cfilter(g, &mut r, u);
                            self.out.push_back(NetworkMessage::CFilter(r));
                        }
                        _ => self.out.push_back(NetworkMessage::CFilter(r)),
                    }
                }
            }
            NetworkMessage::GetData(invs) => {
                let mut missing = Vec::new();
                for i in invs {
                    match i {
                        Inventory::Block(h) | Inventory::WitnessBlock(h) => match u.by_hash.get(h) {
                            Some(k) if self.known.contains(k) => match Self::mode(g, self.blocks) {
                                Mode::Silent => {}
                                Mode::Wrong => {
                                    let mut b = u.blocks[*k].block.clone();
                                    corrupt_block(g, &mut b, u);
                                    self.out.push_back(NetworkMessage::Block(b));
                                }
                                _ => {
                                    let mut b = u.blocks[*k].block.clone();
                                    if let Inventory::Block(_) = i {
                                        // As full nodes do.
                                        strip(&mut b);
                                    }
                                    self.out.push_back(NetworkMessage::Block(b))
                                }
                            },
                            _ => missing.push(*i),
                        },
                        Inventory::Transaction(t) | Inventory::WitnessTransaction(t) => match self.txs.get(t) {
                            Some(tx) => self.out.push_back(NetworkMessage::Tx(tx.clone())),
                            None => missing.push(*i),
                        },
                        _ => missing.push(*i),
                    }
                }
                if !missing.is_empty() {
                    self.out.push_back(NetworkMessage::NotFound(missing));
                }
            }
            NetworkMessage::Inv(invs) => {
                if Self::mode(g, self.getdata) == Mode::Honest {
                    let want: Vec<Inventory> = invs
                        .iter()
                        .filter(|i| match i {
                            Inventory::Transaction(t) => self.hungry || !self.txs.contains_key(t),
                            Inventory::WTx(w) => self.hungry || !self.txs.values().any(|t| t.wtxid() == *w),
                            _ => false,
                        })
                        .copied()
                        .collect();
                    if !want.is_empty() {
                        self.out.push_back(NetworkMessage::GetData(want));
                    }
                }
            }
            NetworkMessage::Tx(t) => {
                self.txs.insert(t.txid(), t.clone());
            }
            NetworkMessage::GetAddr => {
                if !self.addrs.is_empty() {
                    self.out.push_back(NetworkMessage::Addr(self.addrs.clone()));
                }
            }
            _ => {}
        }
    }

    /// Reference answer to a `getheaders` message, as a full node gives it.
    pub fn locate(&self, u: &Universe, locators: &[BlockHash], stop: &BlockHash) -> Vec<BlockHeader> {
        let mut start = 0;
        for l in locators {
            if let Some(i) = u.by_hash.get(l) {
                let h = u.blocks[*i].height as usize;
                if self.chain.get(h) == Some(i) {
                    start = h;
                    break;
                }
            }
        }
        let mut v = Vec::new();
        for i in self.chain.iter().skip(start + 1).take(2000) {
            v.push(u.blocks[*i].block.header);
            if u.blocks[*i].hash == *stop {
                break;
            }
        }
        v
    }
}

pub fn corrupt_headers(g: &mut G, hs: &mut Vec<BlockHeader>, u: &Universe) {
    match g.below(6) {
        0 if !hs.is_empty() => {
            // Invalid proof of work somewhere.
            let i = g.below(hs.len() as u64) as usize;
            while crate::chainsim::meets(&hs[i]) {
                hs[i].nonce = hs[i].nonce.wrapping_add(1);
            }
        }
        1 if !hs.is_empty() => {
            let i = g.below(hs.len() as u64) as usize;
            hs[i].bits = 0x1d00ffff;
        }
        2 if hs.len() > 1 => {
            let i = g.below(hs.len() as u64) as usize;
            hs.remove(i);
        }
        3 if hs.len() > 1 => hs.reverse(),
        4 if !hs.is_empty() => {
            let i = g.below(hs.len() as u64) as usize;
            hs[i].time = u32::MAX;
            mine(&mut hs[i]);
        }
        _ => {
            let mut x = u.blocks[0].block.header;
            x.prev_blockhash = BlockHash::from_inner([7; 32]);
            mine(&mut x);
            hs.push(x);
        }
    }
}

pub fn corrupt_cfheaders(g: &mut G, r: &mut CFHeaders, u: &Universe) {
    match g.below(6) {
        0 => {
            r.filter_hashes.pop();
        }
        1 => r.filter_hashes.push(u.blocks[0].fhash),
        2 => r.previous_filter_header = FilterHeader::from_inner([9; 32]),
        3 => r.filter_type = 1,
        4 => r.filter_hashes.clear(),
        _ => r.stop_hash = if g.bool() { u.blocks[0].hash } else { BlockHash::from_inner([5; 32]) },
    }
}

pub fn corrupt_cfilter(g: &mut G, r: &mut CFilter, u: &Universe) {
    match g.below(7) {
        0 => {
            if r.filter.is_empty() {
                r.filter.push(1);
            } else {
                let i = g.below(r.filter.len() as u64) as usize;
                r.filter[i] ^= 1 << g.below(8);
            }
        }
        1 => r.filter = vec![0],
        2 => {
            // The filter of another block.
            let i = g.below(u.blocks.len() as u64) as usize;
            r.filter = u.blocks[i].filter.content.clone();
        }
        3 => r.filter = vec![],
        4 => r.filter.push(0),
        5 => {
            let n = r.filter.len() / 2;
            r.filter.truncate(n);
        }
        _ => {
            r.filter.pop();
        }
    }
}

/// Remove the witnesses, which are only sent if asked for.
pub fn strip(b: &mut Block) {
    for t in &mut b.txdata {
        for i in &mut t.input {
            i.witness = Witness::default();
        }
    }
}

pub fn corrupt_block(g: &mut G, b: &mut Block, u: &Universe) {
    match g.below(4) {
        3 => {
            // More transactions with the same merkle root (CVE-2012-2459): the last ones again.
            let mut k = 1;
            while (b.txdata.len() / k) % 2 == 0 {
                k *= 2;
            }
            if b.txdata.len() > k {
                let rest = b.txdata[b.txdata.len() - k..].to_vec();
                b.txdata.extend(rest);
            } else {
                b.txdata.pop();
            }
        }
        0 => {
            // Same header, other transactions.
            let i = g.below(u.blocks.len() as u64) as usize;
            b.txdata = u.blocks[i].block.txdata.clone();
        }
        1 => {
            if let Some(o) = b.txdata.last_mut().and_then(|t| t.output.first_mut()) {
                o.script_pubkey = script(0);
            }
        }
        _ => b.header.nonce = b.header.nonce.wrapping_add(1),
    }
}

// ---------------------------------------------------------------------------------------------
// The client and its peers.

pub struct World {
    pub u: Universe,
    pub sim: Sim,
    pub nodes: BTreeMap<PeerId, Node>,
    pub events: Vec<Event>,
    /// Every output since the start.
    pub log: Vec<Rec>,
    /// Time since which a connected peer is there (and honest).
    pub since: BTreeMap<PeerId, LocalTime>,
}

impl World {
    pub fn new(u: Universe, sim: Sim) -> Self {
        Self { u, sim, nodes: BTreeMap::new(), events: vec![], log: vec![], since: BTreeMap::new() }
    }

    pub fn add_node(&mut self, n: Node) {
        self.nodes.insert(n.addr, n);
    }

    /// Let the outputs take effect. Returns what was output.
    pub fn settle_outputs(&mut self, g: &mut G) -> Vec<Rec> {
        let out = self.sim.drain();
        self.absorb(g, out)
    }

    pub fn absorb(&mut self, g: &mut G, out: Vec<Rec>) -> Vec<Rec> {
        for r in &out {
            if g.trace_on {
                match r {
                    Rec::Write(a, m) => g.trace.push(format!("    -> {} {}", short(a), msg_str(&self.u, m))),
                    Rec::Connect(a) => g.trace.push(format!("    connect {}", short(a))),
                    Rec::Disconnect(a, why) => g.trace.push(format!("    disconnect {} ({})", short(a), why)),
                    Rec::Event(e) => g.trace.push(format!("    event {}", event_str(&self.u, e))),
                    _ => {}
                }
            }
            match r {
                Rec::Write(a, m) => {
                    if let Some(n) = self.nodes.get_mut(a) {
                        n.handle(g, &self.u, self.sim.now, m);
                    }
                }
                Rec::Event(e) => self.events.push(e.clone()),
                _ => {}
            }
        }
        if !out.is_empty() {
            self.log.push(Rec::Now(self.sim.now));
            self.log.extend(out.iter().cloned());
        }
        out
    }

    pub fn initialize(&mut self, g: &mut G) -> Vec<Rec> {
        let out = self.sim.initialize();
        self.absorb(g, out)
    }

    pub fn accept(&mut self, g: &mut G, a: PeerId) -> Vec<Rec> {
        note!(g, "{} accepts", short(&a));
        self.sim.connected(a, Link::Outbound);
        let now = self.sim.now;
        self.since.insert(a, now);
        if let Some(n) = self.nodes.get_mut(&a) {
            n.on_connected(Link::Outbound, now);
        }
        self.settle_outputs(g)
    }

    pub fn refuse(&mut self, g: &mut G, a: PeerId) -> Vec<Rec> {
        note!(g, "{} refuses", short(&a));
        self.sim.disconnected(a, conn_err(io::ErrorKind::ConnectionRefused));
        self.settle_outputs(g)
    }

    pub fn inbound(&mut self, g: &mut G, a: PeerId) -> Vec<Rec> {
        note!(g, "{} connects to us", short(&a));
        self.sim.connected(a, Link::Inbound);
        let now = self.sim.now;
        self.since.insert(a, now);
        if let Some(n) = self.nodes.get_mut(&a) {
            n.on_connected(Link::Inbound, now);
        }
        self.settle_outputs(g)
    }

    pub fn hangup(&mut self, g: &mut G, a: PeerId) -> Vec<Rec> {
        note!(g, "{} hangs up", short(&a));
        self.sim.disconnected(a, conn_err(io::ErrorKind::ConnectionReset));
        if let Some(n) = self.nodes.get_mut(&a) {
            n.out.clear();
        }
        self.settle_outputs(g)
    }

    /// Deliver the next message of a peer, without processing the outputs yet.
    pub fn push_next(&mut self, g: &mut G, a: PeerId) -> bool {
        if !self.sim.up.contains_key(&a) {
            if let Some(n) = self.nodes.get_mut(&a) {
                n.out.clear();
            }
            return false;
        }
        let Some(m) = self.nodes.get_mut(&a).and_then(|n| n.out.pop_front()) else { return false };
        note!(g, "<- {} {}", short(&a), msg_str(&self.u, &m));
        self.log.push(Rec::In(a, m.clone()));
        self.sim.message(a, m);
        true
    }

    pub fn deliver(&mut self, g: &mut G, a: PeerId) -> Vec<Rec> {
        self.push_next(g, a);
        self.settle_outputs(g)
    }

    /// Send an arbitrary message from a peer.
    pub fn send(&mut self, g: &mut G, a: PeerId, m: NetworkMessage) -> Vec<Rec> {
        note!(g, "<- {} {}", short(&a), msg_str(&self.u, &m));
        self.log.push(Rec::In(a, m.clone()));
        self.sim.message(a, m);
        self.settle_outputs(g)
    }

    pub fn command(&mut self, g: &mut G, c: Command) -> Vec<Rec> {
        note!(g, "command {:?}", c);
        self.sim.command(c);
        self.settle_outputs(g)
    }

    pub fn advance(&mut self, g: &mut G, d: LocalDuration) -> Vec<Rec> {
        note!(g, "time +{}ms", d.as_millis());
        self.sim.elapse(d);
        self.sim.fire();
        self.settle_outputs(g)
    }

    /// Jump to the next timer and fire it. Returns false if there is none.
    pub fn next_timer(&mut self, g: &mut G) -> bool {
        let Some(t) = self.sim.next_timer() else { return false };
        let now = millis(self.sim.now);
        let d = t.saturating_sub(now);
        note!(g, "timer +{}ms", d);
        self.sim.elapse(LocalDuration::from_millis(d));
        self.sim.fire();
        self.settle_outputs(g);
        true
    }

    /// Peers with something on the wire.
    pub fn pending(&self) -> Vec<PeerId> {
        self.nodes.iter().filter(|(a, n)| !n.out.is_empty() && self.sim.up.contains_key(a)).map(|(a, _)| *a).collect()
    }

    /// Deliver everything that is on the wire, one message of each peer in turn.
    pub fn flush(&mut self, g: &mut G) {
        for _ in 0..20_000 {
            let p = self.pending();
            if p.is_empty() {
                return;
            }
            for a in p {
                self.deliver(g, a);
            }
        }
        crate::harness_bug!("messages keep flowing");
    }

    pub fn chain_hashes(&self) -> Vec<BlockHash> {
        self.sim.tree.get().iter().map(|(_, h)| h.block_hash()).collect()
    }

    /// Universe indices of the active chain of the client.
    pub fn client_chain(&self) -> Vec<usize> {
        self.sim.tree.get().iter().map(|(_, h)| *self.u.by_hash.get(&h.block_hash()).unwrap_or(&usize::MAX)).collect()
    }

    /// Peers dialed by the client, accepted or not yet.
    pub fn dialing(&self) -> Vec<PeerId> {
        self.sim.dialing.iter().copied().collect()
    }

    /// A peer mines or adopts a chain, and announces it if connected.
    pub fn announce(&mut self, g: &mut G, a: PeerId, tip: usize, inv: bool) {
        let u = &self.u;
        let up = self.sim.up.contains_key(&a);
        let Some(n) = self.nodes.get_mut(&a) else { return };
        let old = n.chain.clone();
        n.set_tip(u, tip);
        let fork = old.iter().zip(n.chain.iter()).take_while(|(x, y)| x == y).count();
        let new: Vec<usize> = n.chain[fork..].to_vec();
        note!(g, "{} now at height {} (fork at {})", short(&a), n.chain.len() - 1, fork.saturating_sub(1));
        if up && !new.is_empty() {
            // Like a full node: headers if there are few, otherwise the last block by inventory.
            let m = if inv || new.len() > 8 {
                NetworkMessage::Inv(vec![Inventory::Block(u.blocks[tip].hash)])
            } else {
                NetworkMessage::Headers(new.iter().map(|i| u.blocks[*i].block.header).collect())
            };
            if n.negotiated() {
                n.out.push_back(m);
            } else {
                n.queued.push(m);
            }
        }
    }
}

pub fn short(a: &PeerId) -> String {
    match a.ip() {
        net::IpAddr::V4(i) if i.octets()[0] == 88 && i.octets()[1] >= 10 => format!("P{}", i.octets()[1] - 10),
        _ => a.to_string(),
    }
}

fn bname(u: &Universe, h: &BlockHash) -> String {
    match u.by_hash.get(h) {
        Some(i) => format!("b{}@{}", i, u.blocks[*i].height),
        None => format!("{}…", &h.to_string()[..8]),
    }
}

pub fn msg_str(u: &Universe, m: &NetworkMessage) -> String {
    match m {
        NetworkMessage::Headers(h) => {
            let n: Vec<String> = h.iter().take(6).map(|x| bname(u, &x.block_hash())).collect();
            format!("headers[{}] {}{}", h.len(), n.join(","), if h.len() > 6 { ",…" } else { "" })
        }
        NetworkMessage::GetHeaders(m) => {
            let n: Vec<String> = m.locator_hashes.iter().take(3).map(|x| bname(u, x)).collect();
            format!("getheaders {} stop {}", n.join(","), bname(u, &m.stop_hash))
        }
        NetworkMessage::GetCFHeaders(m) => format!("getcfheaders {}..{}", m.start_height, bname(u, &m.stop_hash)),
        NetworkMessage::GetCFilters(m) => format!("getcfilters {}..{}", m.start_height, bname(u, &m.stop_hash)),
        NetworkMessage::CFHeaders(m) => format!("cfheaders[{}] stop {}", m.filter_hashes.len(), bname(u, &m.stop_hash)),
        NetworkMessage::CFilter(m) => format!("cfilter {}", bname(u, &m.block_hash)),
        NetworkMessage::Block(b) => format!("block {}", bname(u, &b.block_hash())),
        NetworkMessage::GetData(i) => {
            let n: Vec<String> = i
                .iter()
                .take(6)
                .map(|x| match x {
                    Inventory::Block(h) => bname(u, h),
                    x => format!("{:?}", x),
                })
                .collect();
            format!("getdata {}", n.join(","))
        }
        NetworkMessage::Inv(i) => {
            let n: Vec<String> = i
                .iter()
                .take(6)
                .map(|x| match x {
                    Inventory::Block(h) => bname(u, h),
                    x => format!("{:?}", x),
                })
                .collect();
            format!("inv {}", n.join(","))
        }
        NetworkMessage::Version(v) => format!("version({} {:?} h={})", v.version, v.services, v.start_height),
        NetworkMessage::Tx(t) => format!("tx {}", &t.txid().to_string()[..8]),
        NetworkMessage::Addr(a) => format!("addr[{}]", a.len()),
        m => {
            let mut s = format!("{:?}", m);
            if s.len() > 120 {
                let mut k = 120;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
            }
            s
        }
    }
}

pub fn event_str(u: &Universe, e: &Event) -> String {
    match e {
        Event::BlockConnected { header, height } => format!("BlockConnected {} at {}", bname(u, &header.block_hash()), height),
        Event::BlockDisconnected { header, height } => format!("BlockDisconnected {} at {}", bname(u, &header.block_hash()), height),
        Event::BlockHeadersImported { hash, height, .. } => format!("BlockHeadersImported {} at {}", bname(u, hash), height),
        Event::BlockMatched { block, height } => format!("BlockMatched {} at {}", bname(u, &block.block_hash()), height),
        Event::BlockProcessed { block, height, .. } => format!("BlockProcessed {} at {}", bname(u, &block.block_hash()), height),
        Event::FilterProcessed { block, height, matched, cached, .. } => {
            format!("FilterProcessed {} at {} matched={} cached={}", bname(u, block), height, matched, cached)
        }
        Event::FilterReceived { block, height, .. } => format!("FilterReceived {} at {}", bname(u, block), height),
        Event::TxStatusChanged { txid, status } => {
            format!("TxStatusChanged {} {}", &txid.to_string()[..8], format!("{}", status))
        }
        e => {
            let mut s = format!("{:?}", e);
            if s.len() > 140 {
                let mut k = 140;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
            }
            s
        }
    }
}
