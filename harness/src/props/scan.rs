//! Scanning the chain: C10 rescans, C11 authenticity of filters and blocks, C12 filter cache,
//! C17 block download.
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Bound;

use nakamoto_common::bitcoin::blockdata::block::Block;
use nakamoto_common::bitcoin::blockdata::script::Script;
use nakamoto_common::bitcoin::hash_types::BlockHash;
use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::bitcoin::network::message_filter::CFilter;
use nakamoto_common::bitcoin::util::bip158::BlockFilter;
use nakamoto_common::bitcoin_hashes::Hash as _;
use nakamoto_common::block::filter::Filters;
use nakamoto_common::block::tree::BlockReader;
use nakamoto_net::Link;
use nakamoto_p2p::fsm::filter_cache::FilterCache;
use nakamoto_p2p::fsm::{Command, Event};

use super::net::*;
use crate::pbt::{Property, Res, Strategy, G};
use crate::sim::*;
use crate::{ensure, fail, note};

// ---------------------------------------------------------------------------------------------
// C10

/// Follows a scan through the events.
pub struct ScanMonitor {
    pub watch: BTreeSet<Script>,
    seen: usize,
    pub started: bool,
    pub active: bool,
    pub start: u64,
    pub end: Option<u64>,
    pub next: u64,
    /// Blocks that matched and haven't been delivered.
    pub due: BTreeMap<u64, BlockHash>,
    last_matched: Option<u64>,
    /// Heights due from before the scan was restarted.
    old: BTreeSet<u64>,
    /// What the next start event must say.
    expect: Option<(u64, Option<u64>)>,
    pub matched: u64,
    pub processed: u64,
    pub resets: u64,
}

impl ScanMonitor {
    pub fn new() -> Self {
        Self {
            watch: BTreeSet::new(),
            seen: 0,
            started: false,
            active: false,
            start: 0,
            end: None,
            next: 0,
            due: BTreeMap::new(),
            last_matched: None,
            old: BTreeSet::new(),
            expect: None,
            matched: 0,
            processed: 0,
            resets: 0,
        }
    }

    /// A scan is about to be started.
    pub fn command(&mut self, w: &World, from: Bound<u64>, to: Bound<u64>, watch: &[Script]) {
        let start = match from {
            Bound::Unbounded => w.sim.tree.get().height() + 1,
            Bound::Included(h) => h,
            Bound::Excluded(h) => h.saturating_add(1),
        };
        let (start, end) = match to {
            Bound::Unbounded => (start, None),
            Bound::Included(h) => (start, Some(h)),
            // Nothing to scan.
            Bound::Excluded(0) => (start.max(1), Some(0)),
            Bound::Excluded(h) => (start, Some(h - 1)),
        };
        self.expect = Some((start, end));
        self.watch = watch.iter().cloned().collect();
    }

    pub fn done(&self, w: &World) -> bool {
        self.due.is_empty() && (!self.active || self.next > w.sim.tree.get().height())
    }

    pub fn update(&mut self, w: &World) -> Res {
        let chain = w.sim.tree.get();
        for e in &w.events[self.seen..] {
            match e {
                Event::FilterRescanStarted { start, stop } => {
                    let Some((s, t)) = self.expect.take() else { fail!("a rescan started by itself") };
                    ensure!((*start, *stop) == (s, t), "rescan of {}..={:?} reported as {}..={:?}", s, t, start, stop);
                    self.started = true;
                    self.active = true;
                    self.start = s;
                    self.end = t;
                    self.next = s;
                    self.last_matched = None;
                    self.old = self.due.keys().copied().collect();
                }
                Event::FilterRescanStopped { height } => {
                    ensure!(self.active, "a rescan that isn't active was stopped");
                    ensure!(Some(*height) == self.end, "rescan up to {:?} stopped at height {}", self.end, height);
                    ensure!(self.next > *height, "rescan stopped at height {} before that was scanned (next is {})", height, self.next);
                    self.active = false;
                }
                Event::BlockHeadersImported { reverted, .. } => {
                    if let Some((h, _)) = reverted.last() {
                        if self.active && self.next > *h {
                            self.next = self.start.max(*h);
                            self.resets += 1;
                        }
                        self.due.retain(|k, _| k < h);
                        self.last_matched = None;
                    }
                }
                Event::FilterProcessed { block, height, matched, valid, .. } => {
                    if !self.started {
                        // Filters requested by the user are matched, too.
                        if *matched {
                            self.due.insert(*height, *block);
                        }
                        continue;
                    }
                    ensure!(self.active, "filter processed after the rescan was completed");
                    ensure!(*height == self.next, "filter of height {} was processed, the next one to scan is {}", height, self.next);
                    ensure!(self.end.map_or(true, |e| *height <= e), "filter beyond the end of the rescan was processed");
                    ensure!(
                        chain.get_block_by_height(*height).map(|h| h.block_hash()) == Some(*block),
                        "the filter processed at height {} isn't one of the active chain's block",
                        height
                    );
                    ensure!(*valid, "valid filter reported as invalid");
                    let i = w.u.by_hash[block];
                    let m = w.u.matches(i, &self.watch);
                    ensure!(m == *matched, "filter at height {} reported as matched={} but it is {}", height, matched, m);
                    self.processed += 1;
                    self.next += 1;
                    if m {
                        self.matched += 1;
                        self.due.insert(*height, *block);
                        self.old.remove(height);
                    }
                }
                Event::BlockMatched { block, height } => {
                    let Some(h) = self.due.remove(height) else { fail!("block at height {} delivered that isn't due", height) };
                    ensure!(h == block.block_hash(), "block delivered at height {} isn't the one that matched", height);
                    same_block(w, block)?;
                    if !self.old.remove(height) {
                        ensure!(self.last_matched.map_or(true, |l| l < *height), "blocks aren't delivered in order");
                        self.last_matched = Some(*height);
                    }
                }
                Event::Scanned { height } if self.started => {
                    ensure!(
                        self.next > *height || self.next == 0,
                        "scanned up to height {} reported, but only scanned up to {}",
                        height,
                        self.next as i64 - 1
                    );
                    ensure!(
                        !self.due.keys().any(|h| h <= height),
                        "scanned up to height {} reported, but a matching block at height {} wasn't delivered",
                        height,
                        self.due.keys().next().unwrap()
                    );
                }
                _ => {}
            }
        }
        self.seen = w.events.len();
        Ok(())
    }
}

/// The block has the contents it has in the universe.
pub fn same_block(w: &World, b: &Block) -> Res {
    let h = b.block_hash();
    let Some(i) = w.u.by_hash.get(&h) else { fail!("unknown block {}", h) };
    let x = &w.u.blocks[*i].block;
    ensure!(
        x.txdata.len() == b.txdata.len() && x.txdata.iter().zip(b.txdata.iter()).all(|(x, y)| x.txid() == y.txid()),
        "block {} has other transactions than the true one",
        h
    );
    Ok(())
}

fn bounds(g: &mut G, tip: u64) -> (Bound<u64>, Bound<u64>) {
    let from = match g.below(8) {
        0 => Bound::Unbounded,
        1 => Bound::Excluded(g.below(tip + 1)),
        2 => Bound::Included(tip + g.below(4)),
        3 => Bound::Included(0),
        _ => Bound::Included(g.below(tip + 1)),
    };
    let to = match g.below(8) {
        0..=3 => Bound::Unbounded,
        4 => Bound::Excluded(g.below(tip + 6)),
        5 => Bound::Included((tip + g.below(6)).saturating_sub(3)),
        _ => Bound::Included(g.below(tip + 3)),
    };
    (from, to)
}

fn scripts(g: &mut G) -> Vec<Script> {
    match g.below(6) {
        0 => vec![],
        1 => (0..SCRIPTS).map(script).collect(),
        _ => (0..SCRIPTS).filter(|_| g.chance(1, 3)).map(script).collect(),
    }
}

fn cache_size(g: &mut G, c: &mut nakamoto_p2p::fsm::Config) {
    c.limits.filter_cache_size = *g.pick(&[1024 * 1024, 0, 20, 100, 400]);
}

fn scan_command(g: &mut G, w: &mut World, m: &mut ScanMonitor) {
    let tip = w.sim.tree.get().height();
    match g.below(8) {
        0..=3 => {
            let (from, to) = bounds(g, tip);
            let watch = scripts(g);
            m.command(w, from, to, &watch);
            w.command(g, Command::Rescan { from, to, watch });
            g.label("rescan");
        }
        4 => {
            let watch = scripts(g);
            m.watch.extend(watch.iter().cloned());
            w.command(g, Command::Watch { watch });
        }
        5 | 6 => {
            let fh = w.sim.filters.get().height();
            let a = g.below(fh + 1);
            let b = g.range(a, fh);
            let (tx, _rx) = crossbeam_channel::bounded(1);
            w.command(g, Command::RequestFilters(a..=b, tx));
        }
        _ => {
            let c = w.client_chain();
            let i = if g.bool() { *g.pick(&c) } else { c[c.len() - 1 - g.usize(0, 3.min(c.len() - 1))] };
            let h = w.u.blocks[i].hash;
            w.command(g, Command::RequestBlock(h));
        }
    }
}

fn c10_run(g: &mut G, o: Opts, long: bool) -> Res {
    let mut w = setup(g, &o, &mut cache_size);
    let mut m = ScanMonitor::new();
    w.initialize(g);
    m.update(&w)?;
    let early = g.bool();
    if early {
        let tip = w.sim.tree.get().height();
        let (from, to) = if g.bool() { (Bound::Included(g.below(tip + 1)), Bound::Unbounded) } else { bounds(g, tip) };
        let watch = scripts(g);
        m.command(&w, from, to, &watch);
        w.command(g, Command::Rescan { from, to, watch });
        m.update(&w)?;
    }
    for _ in 0..o.steps {
        if g.chance(1, if long { 4 } else { 12 }) {
            scan_command(g, &mut w, &mut m);
        } else {
            step(g, &mut w, &o);
        }
        m.update(&w)?;
    }
    unify(g, &mut w);
    let goal = best_of_peers(&w);
    let synced = |w: &World| w.sim.tree.get().tip().0 == goal;
    let ok = {
        let mc = std::cell::RefCell::new(&mut m);
        calm(
            g,
            &mut w,
            180 * MINUTE,
            &mut |w| cbf_peer(w) && synced(w) && mc.borrow().done(w),
            &mut |_, w| mc.borrow_mut().update(w),
        )?
    };
    if !ok && cbf_peer(&w) && synced(&w) {
        fail!(
            "the scan doesn't catch up: next height {} of {}, {} matching blocks outstanding, after three hours with an honest peer",
            m.next,
            w.sim.tree.get().height(),
            m.due.len()
        );
    }
    if !ok {
        g.label("no-peer");
    }
    if m.matched > 0 {
        g.nontrivial();
        g.label("matched");
    }
    if m.resets > 0 {
        g.label("reset");
    }
    if m.started && m.end.is_some() && !m.active {
        g.label("completed");
    }
    Ok(())
}

fn c10(g: &mut G) -> Res {
    let mut o = Opts::gen(g);
    o.batches = false;
    c10_run(g, o, false)
}

fn c10_long(g: &mut G) -> Res {
    let mut o = Opts::gen(g);
    o.batches = false;
    o.long = true;
    o.import = false;
    o.faulty = false;
    o.reorgs = false;
    o.max_nodes = 3;
    o.steps = g.range(5, 20);
    c10_run(g, o, true)
}

// ---------------------------------------------------------------------------------------------
// C11

fn authentic(w: &World, seen: &mut usize) -> Result<(u64, u64), crate::pbt::Fail> {
    let (mut f, mut b) = (0, 0);
    for e in &w.events[*seen..] {
        match e {
            Event::FilterReceived { filter, height, block, .. } => {
                f += 1;
                let Some(i) = w.u.by_hash.get(block) else { fail!("filter of an unknown block received") };
                ensure!(w.u.blocks[*i].height == *height, "filter received at the wrong height");
                ensure!(w.u.blocks[*i].filter.content == filter.content, "a filter was accepted that doesn't hash to the filter header at height {}", height);
            }
            Event::FilterProcessed { block, height, valid, .. } => {
                let Some(i) = w.u.by_hash.get(block) else { fail!("filter of an unknown block processed") };
                ensure!(w.u.blocks[*i].height == *height && *valid, "filter processed at the wrong height, or invalid");
            }
            Event::BlockProcessed { block, height, .. } | Event::BlockMatched { block, height } => {
                b += 1;
                same_block(w, block)?;
                ensure!(w.u.blocks[w.u.by_hash[&block.block_hash()]].height == *height, "block delivered with a wrong height");
            }
            _ => {}
        }
    }
    *seen = w.events.len();
    Ok((f, b))
}

fn c11(g: &mut G) -> Res {
    let mut o = Opts::gen(g);
    o.faulty = false;
    let mut w = setup(g, &o, &mut cache_size);
    let addrs: Vec<_> = w.nodes.keys().copied().collect();
    for a in addrs {
        let n = w.nodes.get_mut(&a).unwrap();
        n.cfilters = *g.pick(&[Mode::Honest, Mode::Mixed, Mode::Wrong]);
        n.blocks = *g.pick(&[Mode::Honest, Mode::Mixed, Mode::Wrong]);
    }
    w.initialize(g);
    let mut seen = 0;
    let (mut nf, mut nb) = (0, 0);
    let mut m = ScanMonitor::new();
    for k in 0..o.steps {
        if k == 0 || g.chance(1, 12) {
            scan_command(g, &mut w, &mut m);
        } else if g.chance(1, 10) {
            // An unsolicited filter or block.
            let up: Vec<_> = w.sim.up.keys().copied().collect();
            if !up.is_empty() {
                let a = *g.pick(&up);
                let i = g.below(w.u.blocks.len() as u64) as usize;
                if g.bool() {
                    let b = &w.u.blocks[i];
                    let mut f = CFilter { filter_type: g.chance(1, 8) as u8, block_hash: b.hash, filter: b.filter.content.clone() };
                    if !g.chance(1, 4) {
                        corrupt_cfilter(g, &mut f, &w.u);
                    }
                    w.send(g, a, NetworkMessage::CFilter(f));
                } else {
                    let mut b = w.u.blocks[i].block.clone();
                    if !g.chance(1, 4) {
                        corrupt_block(g, &mut b, &w.u);
                    }
                    w.send(g, a, NetworkMessage::Block(b));
                }
            }
        } else {
            step(g, &mut w, &o);
        }
        let (f, b) = authentic(&w, &mut seen)?;
        nf += f;
        nb += b;
    }
    // Wrong answers don't stop the honest ones from getting through.
    let (f, b) = authentic(&w, &mut seen)?;
    nf += f;
    nb += b;
    if nf > 0 {
        g.label("filters");
    }
    if nb > 0 {
        g.label("blocks");
    }
    if nf + nb > 0 {
        g.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C12

fn c12(g: &mut G) -> Res {
    let cap = *g.pick(&[0usize, 1, 5, 16, 64, 200, 1000]);
    let mut c: FilterCache<BlockFilter> = FilterCache::new(cap);
    let mut model: BTreeMap<u64, Vec<u8>> = BTreeMap::new();
    let base = *g.pick(&[0u64, 1, 7, 1000]);
    let n = g.range(1, 40);
    let (mut evicted, mut replaced, mut rolled) = (false, false, false);
    ensure!(c.capacity() == cap, "capacity");
    for _ in 0..n {
        if g.chance(3, 4) {
            let h = base + g.below(12);
            let len = match g.below(6) {
                0 => 0,
                1 => cap,
                2 => cap + 1,
                _ => g.below(cap as u64 / 3 + 3) as usize,
            };
            let f = g.bytes(len);
            note!(g, "push {} ({} bytes)", h, len);
            let r = c.push(h, BlockFilter::new(&f));
            ensure!(r == (len <= cap), "push of {} bytes returned {} (capacity {})", len, r, cap);
            if len <= cap {
                replaced |= model.insert(h, f).is_some();
                while model.values().map(|v| v.len()).sum::<usize>() > cap {
                    let k = *model.keys().next().unwrap();
                    model.remove(&k);
                    evicted = true;
                }
            }
        } else {
            let h = (base + g.below(14)).saturating_sub(1);
            note!(g, "rollback {}", h);
            let before = model.len();
            c.rollback(h);
            model.retain(|k, _| *k <= h);
            rolled |= model.len() < before;
        }
        let size: usize = model.values().map(|v| v.len()).sum();
        ensure!(c.size() == size, "size is {} with {} bytes of filters cached", c.size(), size);
        ensure!(c.len() == model.len() && c.is_empty() == model.is_empty(), "{} filters cached, expected {}", c.len(), model.len());
        ensure!(c.start() == model.keys().next().copied() && c.end() == model.keys().next_back().copied(), "start or end is wrong");
        let got: Vec<(u64, Vec<u8>)> = c.iter().map(|(h, f)| (*h, f.content.clone())).collect();
        let want: Vec<(u64, Vec<u8>)> = model.iter().map(|(h, f)| (*h, f.clone())).collect();
        ensure!(got == want, "cached filters differ from what was pushed");
        ensure!(c.heights().eq(model.keys().copied()), "heights differ");
        for h in base.saturating_sub(1)..base + 14 {
            ensure!(c.get(&h).map(|f| &f.content) == model.get(&h), "lookup of height {} is wrong", h);
        }
    }
    if evicted {
        g.label("evicted");
    }
    if replaced {
        g.label("replaced");
    }
    if rolled {
        g.label("rolled-back");
    }
    if evicted || replaced || rolled {
        g.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C17

fn c17(g: &mut G) -> Res {
    let mut o = Opts::gen(g);
    o.batches = g.chance(1, 4);
    let mut w = setup(g, &o, &mut |_, _| {});
    w.initialize(g);
    let mut seen = 0;
    // Blocks requested, and those of them that have been on the active chain ever since.
    let mut asked: BTreeSet<BlockHash> = BTreeSet::new();
    let mut must: BTreeSet<BlockHash> = BTreeSet::new();
    let mut got = 0u64;
    let junk = g.chance(1, 3);
    let mut stale: BTreeSet<BlockHash> = BTreeSet::new();
    let strict = !o.batches;
    let mut update = |w: &World, asked: &mut BTreeSet<BlockHash>, must: &mut BTreeSet<BlockHash>, got: &mut u64| -> Res {
        let mut last: Option<u64> = None;
        for e in &w.events[seen..] {
            match e {
                Event::BlockProcessed { block, height, .. } => {
                    must.remove(&block.block_hash());
                    ensure!(asked.remove(&block.block_hash()), "block {} at height {} delivered more often than requested", block.block_hash(), height);
                    same_block(w, block)?;
                    // Nb. If outputs aren't processed after each input, the block may have been reverted since.
                    ensure!(!strict || !stale.contains(&block.block_hash()), "block {} at height {} delivered, though it isn't on the active chain anymore", block.block_hash(), height);
                    ensure!(w.u.blocks[w.u.by_hash[&block.block_hash()]].height == *height, "block delivered with a wrong height");
                    ensure!(last.map_or(true, |l| l < *height), "blocks delivered out of order: {} after {:?}", height, last);
                    last = Some(*height);
                    *got += 1;
                }
                Event::BlockDisconnected { header, .. } => {
                    must.remove(&header.block_hash());
                    stale.insert(header.block_hash());
                }
                Event::BlockConnected { header, .. } => {
                    stale.remove(&header.block_hash());
                }
                _ => {}
            }
        }
        seen = w.events.len();
        Ok(())
    };
    for _ in 0..o.steps {
        if g.chance(1, 5) {
            let h = if junk && g.chance(1, 3) {
                if g.bool() {
                    BlockHash::from_inner([3; 32])
                } else {
                    let i = g.below(w.u.blocks.len() as u64) as usize;
                    w.u.blocks[i].hash
                }
            } else {
                let c = w.client_chain();
                let near = g.bool();
                let i = if near { c.len() - 1 - g.below(c.len().min(6) as u64) as usize } else { g.below(c.len() as u64) as usize };
                w.u.blocks[c[i]].hash
            };
            asked.insert(h);
            if w.sim.tree.get().contains(&h) {
                must.insert(h);
            }
            w.command(g, Command::RequestBlock(h));
        } else {
            step(g, &mut w, &o);
        }
        update(&w, &mut asked, &mut must, &mut got)?;
    }
    unify(g, &mut w);
    let goal = best_of_peers(&w);
    for n in w.nodes.values_mut() {
        // They have the blocks of the chain they are on, and of no other.
        n.known = n.chain.iter().copied().collect();
    }
    let served = |w: &World| w.sim.up.iter().any(|(a, l)| *l == Link::Outbound && w.nodes[a].negotiated() && w.nodes[a].services.has(nakamoto_common::bitcoin::network::constants::ServiceFlags::NETWORK));
    let cell = std::cell::RefCell::new((&mut asked, &mut got, &mut update, &mut must));
    // When an honest peer was there and the chain was the one to be reached, and nothing else to do.
    let mut since: Option<nakamoto_common::block::time::LocalTime> = None;
    let mut late = false;
    let ok = calm(
        g,
        &mut w,
        60 * MINUTE,
        &mut |w| {
            let c = cell.borrow();
            let tip = w.sim.tree.get().tip().0 == goal;
            if tip && served(w) {
                let t = *since.get_or_insert(w.sim.now);
                late = !c.3.is_empty() && w.sim.now - t > nakamoto_common::block::time::LocalDuration::from_secs(5 * MINUTE);
            } else {
                since = None;
            }
            tip && c.3.is_empty() || late
        },
        &mut |_, w| {
            let mut c = cell.borrow_mut();
            let (a, b, f, m) = &mut *c;
            f(w, a, m, b)
        },
    )?;
    drop(cell);
    if late || !ok && served(&w) && w.sim.tree.get().tip().0 == goal {
        fail!("requested blocks of the active chain aren't delivered after five minutes with an honest peer");
    }
    if got > 0 {
        g.nontrivial();
    }
    if got > 1 {
        g.label("several");
    }
    Ok(())
}

pub static PROPS: &[Property] = &[
    Property {
        id: "C10",
        level: "exploration",
        rule: "a case is a schedule of a simulated network with rescans, followed by a calm phase with honest peers; non-trivial: at least one block matched",
        strategies: &[
            Strategy { name: "net", quick: 12000, thorough: 400000, case: c10 },
            Strategy { name: "long", quick: 30, thorough: 1500, case: c10_long },
        ],
        assumptions: &["peers that lie about filter headers do so in a way that can be recognised"],
        known: &[],
    },
    Property {
        id: "C11",
        level: "exploration",
        rule: "a case is a schedule of a simulated network with peers serving wrong filters and blocks; non-trivial: a filter or block was accepted",
        strategies: &[Strategy { name: "net", quick: 12000, thorough: 400000, case: c11 }],
        assumptions: &[],
        known: &[],
    },
    Property {
        id: "C12",
        level: "exploration",
        rule: "a case is a sequence of pushes and rollbacks; non-trivial: a filter was evicted, replaced or rolled back",
        strategies: &[Strategy { name: "model", quick: 100000, thorough: 5000000, case: c12 }],
        assumptions: &[],
        known: &[],
    },
    Property {
        id: "C17",
        level: "exploration",
        rule: "a case is a schedule of a simulated network with block requests, followed by a calm phase; non-trivial: a block was delivered",
        strategies: &[Strategy { name: "net", quick: 12000, thorough: 400000, case: c17 }],
        assumptions: &[],
        known: &[],
    },
];
