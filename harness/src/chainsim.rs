//! Generated block-header trees, and an independent reference implementation of the header
//! consensus rules and of fork choice. Nothing in here calls the code under test.
use std::collections::{BTreeMap, BTreeSet, HashMap};

use nakamoto_common::bitcoin::blockdata::block::BlockHeader;
use nakamoto_common::bitcoin::consensus::params::Params;
use nakamoto_common::bitcoin::hash_types::{BlockHash, TxMerkleNode};
use nakamoto_common::bitcoin::util::uint::Uint256;
use nakamoto_common::bitcoin::Network as BNetwork;
use nakamoto_common::bitcoin_hashes::Hash as _;

use crate::pbt::G;

pub const MAX_FUTURE: u32 = 2 * 60 * 60;

/// Chain configuration of a case.
#[derive(Clone, Debug)]
pub struct Cfg {
    pub params: Params,
    pub genesis: BlockHeader,
    pub name: &'static str,
}

pub fn regtest_genesis() -> BlockHeader {
    nakamoto_common::bitcoin::blockdata::constants::genesis_block(BNetwork::Regtest).header
}

/// The stock regression-test network (no retargeting, minimum difficulty).
pub fn cfg_regtest() -> Cfg {
    Cfg { params: Params::new(BNetwork::Regtest), genesis: regtest_genesis(), name: "regtest" }
}

/// Custom-genesis network with fast retargeting, without the min-difficulty rule.
pub fn cfg_retarget(network: BNetwork, interval: u64, spacing: u64) -> Cfg {
    let mut params = Params::new(network);
    // 2^250, in compact form: about 64 hashes per block at the limit.
    let bits = 0x2003ffffu32;
    params.pow_limit = BlockHeader::u256_from_compact_target(bits);
    params.pow_target_spacing = spacing;
    params.pow_target_timespan = spacing * interval;
    params.allow_min_difficulty_blocks = false;
    params.no_pow_retargeting = false;
    let mut genesis = BlockHeader {
        version: 1,
        prev_blockhash: BlockHash::all_zeros(),
        merkle_root: TxMerkleNode::all_zeros(),
        time: 1_296_688_602,
        bits: 0x2003fffe,
        nonce: 7,
    };
    mine(&mut genesis);
    Cfg { params, genesis, name: if network == BNetwork::Bitcoin { "mainnet-like" } else { "retarget" } }
}

/// Testnet-like: retargeting and the 20-minute min-difficulty rule, at the regtest limit.
pub fn cfg_mindiff(interval: u64, spacing: u64) -> Cfg {
    let mut params = Params::new(BNetwork::Regtest);
    params.pow_target_spacing = spacing;
    params.pow_target_timespan = spacing * interval;
    params.allow_min_difficulty_blocks = true;
    params.no_pow_retargeting = false;
    Cfg { params, genesis: regtest_genesis(), name: "testnet-like" }
}

pub fn gen_cfg(g: &mut G) -> Cfg {
    match g.weighted(&[3, 3, 3, 3]) {
        0 => cfg_regtest(),
        1 => {
            let (i, s) = (*g.pick(&[4u64, 5, 8, 14]), *g.pick(&[2u64, 3, 4]));
            cfg_retarget(BNetwork::Regtest, i, s)
        }
        2 => {
            let (i, s) = (*g.pick(&[4u64, 5, 8, 14]), *g.pick(&[2u64, 3, 4]));
            cfg_mindiff(i, s)
        }
        _ => {
            let (i, s) = (*g.pick(&[4u64, 5, 8, 14]), *g.pick(&[2u64, 3, 4]));
            cfg_retarget(BNetwork::Bitcoin, i, s)
        }
    }
}

fn hash_num(h: &BlockHash) -> Uint256 {
    let b = h.into_inner();
    let mut w = [0u64; 4];
    for i in 0..4 {
        w[i] = u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
    }
    Uint256(w)
}

pub fn meets(h: &BlockHeader) -> bool {
    hash_num(&h.block_hash()) <= h.target()
}

pub fn mine(h: &mut BlockHeader) -> bool {
    for _ in 0..200_000u32 {
        if meets(h) {
            return true;
        }
        h.nonce = h.nonce.wrapping_add(1);
    }
    false
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bad {
    Pow,
    Target,
    Limit,
    Mtp,
    Future,
    Checkpoint,
}

#[derive(Clone, Debug)]
pub struct Node {
    pub header: BlockHeader,
    pub hash: BlockHash,
    pub parent: usize,
    pub height: u64,
    /// Cumulative work from genesis.
    pub work: Uint256,
    /// Validity against own ancestors, leaving out checkpoints and the future-time rule.
    pub fixed: Result<(), Bad>,
    pub pow: Result<(), Bad>,
}

/// A pool of headers forming a tree rooted at genesis (node 0).
#[derive(Clone)]
pub struct Tree {
    pub cfg: Cfg,
    pub nodes: Vec<Node>,
    pub by_hash: HashMap<BlockHash, usize>,
    pub checkpoints: BTreeMap<u64, BlockHash>,
}

pub fn work_of(h: &BlockHeader) -> Uint256 {
    // floor(2^256 / (target + 1)), computed as (~target / (target + 1)) + 1.
    let t = h.target();
    let one = Uint256::from_u64(1).unwrap();
    if t == !Uint256::from_u64(0).unwrap() {
        return one;
    }
    (!t) / (t + one) + one
}

impl Tree {
    pub fn new(cfg: Cfg) -> Self {
        let header = cfg.genesis;
        let hash = header.block_hash();
        Self {
            nodes: vec![Node { header, hash, parent: 0, height: 0, work: work_of(&header), fixed: Ok(()), pow: Ok(()) }],
            by_hash: [(hash, 0)].into_iter().collect(),
            checkpoints: BTreeMap::new(),
            cfg,
        }
    }

    /// Node indexes from genesis to `ix`.
    pub fn path(&self, mut ix: usize) -> Vec<usize> {
        let mut v = vec![ix];
        while ix != 0 {
            ix = self.nodes[ix].parent;
            v.push(ix);
        }
        v.reverse();
        v
    }

    pub fn ancestor(&self, mut ix: usize, height: u64) -> usize {
        while self.nodes[ix].height > height {
            ix = self.nodes[ix].parent;
        }
        ix
    }

    /// Median of the (up to) 11 block times ending at `ix`.
    pub fn mtp(&self, ix: usize) -> u32 {
        let mut t = Vec::new();
        let mut i = ix;
        loop {
            t.push(self.nodes[i].header.time);
            if i == 0 || t.len() == 11 {
                break;
            }
            i = self.nodes[i].parent;
        }
        t.sort();
        t[t.len() / 2]
    }

    /// Difficulty bits required of a child of `parent` with timestamp `time`.
    pub fn required_bits(&self, parent: usize, time: u32) -> u32 {
        let p = &self.cfg.params;
        let interval = p.pow_target_timespan / p.pow_target_spacing;
        let last = &self.nodes[parent];
        let limit_bits = match p.network {
            BNetwork::Bitcoin | BNetwork::Testnet => 0x1d00ffff,
            BNetwork::Regtest => 0x207fffff,
            BNetwork::Signet => 0x1e0377ae,
        };
        if (last.height + 1) % interval != 0 {
            if p.allow_min_difficulty_blocks {
                if time as u64 > last.header.time as u64 + 2 * p.pow_target_spacing {
                    return limit_bits;
                }
                // Last block that did not use the min-difficulty exception.
                let mut i = parent;
                while i != 0
                    && self.nodes[i].height % interval != 0
                    && self.nodes[i].header.bits == limit_bits
                {
                    i = self.nodes[i].parent;
                }
                return self.nodes[i].header.bits;
            }
            return last.header.bits;
        }
        if p.no_pow_retargeting {
            return last.header.bits;
        }
        let first = self.ancestor(parent, last.height + 1 - interval);
        let span = p.pow_target_timespan as i64;
        let actual = last.header.time as i64 - self.nodes[first].header.time as i64;
        let actual = actual.clamp(span / 4, span * 4);
        let mut t = last.header.target().mul_u32(actual as u32);
        t = t / Uint256::from_u64(span as u64).unwrap();
        if t > p.pow_limit {
            t = p.pow_limit;
        }
        BlockHeader::compact_target_from_u256(&t)
    }

    /// Context-free acceptability: proof of work against its own target, and the network limit.
    pub fn pow_ok(&self, h: &BlockHeader) -> Result<(), Bad> {
        if !meets(h) {
            return Err(Bad::Pow);
        }
        if h.target() > self.cfg.params.pow_limit {
            return Err(Bad::Limit);
        }
        Ok(())
    }

    /// Full validity of a node against *its own* ancestors (its parent is assumed valid).
    pub fn valid(&self, ix: usize, now: u32) -> Result<(), Bad> {
        if ix == 0 {
            return Ok(());
        }
        let n = &self.nodes[ix];
        n.fixed?;
        if let Some(cp) = self.checkpoints.get(&n.height) {
            if *cp != n.hash {
                return Err(Bad::Checkpoint);
            }
        }
        if n.header.time as u64 > now as u64 + MAX_FUTURE as u64 {
            return Err(Bad::Future);
        }
        Ok(())
    }

    fn fixed_rules(&self, parent: usize, header: &BlockHeader) -> Result<(), Bad> {
        let bits = self.required_bits(parent, header.time);
        if header.target() != BlockHeader::u256_from_compact_target(bits) {
            return Err(Bad::Target);
        }
        self.pow_ok(header)?;
        if header.time <= self.mtp(parent) {
            return Err(Bad::Mtp);
        }
        Ok(())
    }

    pub fn add(&mut self, parent: usize, header: BlockHeader) -> Option<usize> {
        let hash = header.block_hash();
        if self.by_hash.contains_key(&hash) {
            return None;
        }
        let n = Node {
            header,
            hash,
            parent,
            height: self.nodes[parent].height + 1,
            work: self.nodes[parent].work + work_of(&header),
            fixed: self.fixed_rules(parent, &header),
            pow: self.pow_ok(&header),
        };
        let ix = self.nodes.len();
        self.by_hash.insert(hash, ix);
        self.nodes.push(n);
        Some(ix)
    }

    /// Add a valid child. `dt` picks the timestamp relative to the parent, clipped to the median
    /// time rule. Returns None if mining would take too long.
    pub fn child(&mut self, parent: usize, dt: i64, salt: u64) -> Option<usize> {
        let floor = self.mtp(parent) as i64 + 1;
        let time = (self.nodes[parent].header.time as i64 + dt).max(floor) as u32;
        self.child_at(parent, time, salt)
    }

    pub fn child_at(&mut self, parent: usize, time: u32, salt: u64) -> Option<usize> {
        let bits = self.required_bits(parent, time);
        if !self.minable(bits) {
            return None;
        }
        let mut h = self.blank(parent, time, bits, salt);
        if !mine(&mut h) {
            return None;
        }
        self.add(parent, h)
    }

    pub fn minable(&self, bits: u32) -> bool {
        let t = BlockHeader::u256_from_compact_target(bits);
        // At least 2^242: at most ~16k hashes expected.
        t.bits() >= 243
    }

    pub fn blank(&self, parent: usize, time: u32, bits: u32, salt: u64) -> BlockHeader {
        let mut m = [0u8; 32];
        m[..8].copy_from_slice(&salt.to_le_bytes());
        m[8..16].copy_from_slice(&(self.nodes.len() as u64).to_le_bytes());
        BlockHeader {
            version: 1,
            prev_blockhash: self.nodes[parent].hash,
            merkle_root: TxMerkleNode::from_inner(m),
            time,
            bits,
            nonce: 0,
        }
    }
}

/// Typical time step for a child.
pub fn gen_dt(g: &mut G, cfg: &Cfg) -> i64 {
    let s = cfg.params.pow_target_spacing as i64;
    match g.weighted(&[6, 3, 3, 2, 1, 1]) {
        0 => s,
        1 => g.range(0, 2 * s as u64) as i64,
        2 => 2 * s + g.range(0, 2) as i64,
        3 => -(g.range(0, 12) as i64) * s / 2,
        4 => 8 * s + g.range(0, 40) as i64,
        _ => 0,
    }
}

/// Reference model of what the tree knows and which chain is active.
#[derive(Clone)]
pub struct Model {
    pub known: BTreeSet<usize>,
    pub tip: usize,
    pub now: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Step {
    Duplicate,
    Missing,
    Rejected,
    Unchanged,
    Changed,
}

impl Model {
    pub fn new(now: u32) -> Self {
        Self { known: [0].into_iter().collect(), tip: 0, now }
    }

    pub fn active(&self, t: &Tree) -> Vec<usize> {
        t.path(self.tip)
    }

    pub fn last_checkpoint(&self, t: &Tree) -> u64 {
        let h = t.nodes[self.tip].height;
        t.checkpoints.range(..=h).next_back().map(|(h, _)| *h).unwrap_or(0)
    }

    pub fn is_active(&self, t: &Tree, ix: usize) -> bool {
        t.ancestor(self.tip, t.nodes[ix].height) == ix
    }

    /// Known nodes whose whole path to genesis is known and, off the active chain, valid.
    fn candidates(&self, t: &Tree) -> Vec<usize> {
        let active: BTreeSet<usize> = self.active(t).into_iter().collect();
        let cp = self.last_checkpoint(t);
        let mut out = Vec::new();
        'next: for &k in &self.known {
            if active.contains(&k) {
                continue;
            }
            let mut i = k;
            while !active.contains(&i) {
                if !self.known.contains(&i) || t.valid(i, self.now).is_err() {
                    continue 'next;
                }
                i = t.nodes[i].parent;
            }
            // History up to the last checkpoint is final.
            if t.nodes[i].height < cp {
                continue;
            }
            out.push(k);
        }
        out
    }

    /// Offer one header. `observe` is the tip the implementation ended up with, used only to
    /// resolve choices the specification leaves open (first-seen ties on mainnet).
    pub fn offer(&mut self, t: &Tree, ix: usize, observe: Option<usize>) -> Step {
        if self.known.contains(&ix) {
            return Step::Duplicate;
        }
        let n = &t.nodes[ix];
        if n.parent == self.tip && t.valid(ix, self.now).is_err() {
            return Step::Rejected;
        }
        if n.pow.is_err() {
            return Step::Rejected;
        }
        if self.known.contains(&n.parent)
            && self.is_active(t, n.parent)
            && t.nodes[n.parent].height < self.last_checkpoint(t)
        {
            return Step::Rejected;
        }
        self.known.insert(ix);
        if !self.known.contains(&n.parent) {
            return Step::Missing;
        }
        let best = self.best(t);
        if best.contains(&self.tip) {
            return Step::Unchanged;
        }
        let pick = match observe {
            Some(o) if best.contains(&o) => o,
            _ => best[0],
        };
        self.tip = pick;
        Step::Changed
    }

    /// The set of acceptable tips, given everything known.
    pub fn best(&self, t: &Tree) -> Vec<usize> {
        let mut all = self.candidates(t);
        all.push(self.tip);
        let w = all.iter().map(|i| t.nodes[*i].work).max().unwrap();
        if w == t.nodes[self.tip].work && t.cfg.params.network == BNetwork::Bitcoin {
            return vec![self.tip]; // First seen.
        }
        let mut ties: Vec<usize> = all.into_iter().filter(|i| t.nodes[*i].work == w).collect();
        if t.cfg.params.network != BNetwork::Bitcoin {
            ties.sort_by_key(|i| t.nodes[*i].hash);
            ties.truncate(1);
        }
        ties
    }
}
