//! Properties of the protocol state machine in a simulated network:
//! C09 filter header sync, C13 event stream, C29 header sync.
use std::collections::{BTreeMap, BTreeSet};

use nakamoto_common::bitcoin::hash_types::BlockHash;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::block::filter::Filters;
use nakamoto_common::block::time::{LocalDuration, LocalTime};
use nakamoto_common::block::tree::{BlockReader, ImportResult};
use nakamoto_common::network::Network;
use nakamoto_common::p2p::peer::{KnownAddress, Source};
use nakamoto_net::Link;
use nakamoto_p2p::fsm::{Command, Config, DisconnectReason, Event, PeerId};

use crate::pbt::{Property, Res, Strategy, G};
use crate::sim::*;
use crate::{ensure, fail, note};

#[derive(Clone, Debug)]
pub struct Opts {
    /// Some peers give wrong or no answers (never the last one).
    pub faulty: bool,
    /// Peers switch to competing branches.
    pub reorgs: bool,
    pub inbound: bool,
    pub hangups: bool,
    /// Several inputs may arrive before the outputs are processed.
    pub batches: bool,
    pub import: bool,
    pub trunk: u64,
    pub long: bool,
    pub persistent: bool,
    pub steps: u64,
    pub max_nodes: usize,
}

impl Opts {
    pub fn gen(g: &mut G) -> Self {
        Opts {
            faulty: g.chance(1, 3),
            reorgs: g.chance(2, 3),
            inbound: g.chance(1, 4),
            hangups: g.chance(1, 3),
            batches: g.chance(1, 4),
            import: g.chance(1, 4),
            trunk: g.range(1, 16),
            long: false,
            persistent: !g.chance(1, 4),
            steps: g.range(5, 60),
            max_nodes: 4,
        }
    }
}

pub const MINUTE: u64 = 60;

/// A client and its peers.
pub fn setup(g: &mut G, o: &Opts, tweak: &mut dyn FnMut(&mut G, &mut Config)) -> World {
    let (mut u, trunk) = if o.long {
        let u = long_trunk();
        let cut = if g.bool() { 2500 } else { g.range(1990, 2499) as usize };
        (u, cut)
    } else {
        let mut u = Universe::new();
        let t = u.grow(g, 0, o.trunk);
        (u, t)
    };
    let chain = u.chain(trunk);
    let n = chain.len();
    let start = if o.long { *g.pick(&[0usize, 1, 100, 499, 500, 501]) } else if g.chance(1, 3) { 0 } else { g.below(n as u64) as usize };
    let filters_to = if g.bool() { start } else { g.below(start as u64 + 1) as usize };
    let (tree, filters) = stores(&u, &chain[..=start], filters_to);
    let nodes = g.usize(1, o.max_nodes);
    // A second branch that some peers are on.
    let mut tips = vec![trunk];
    if o.reorgs && !o.long {
        let at = chain[g.below(n as u64) as usize];
        let k = g.range(1, 6);
        let t = u.grow(g, at, k);
        tips.push(t);
    }
    let now = LocalTime::from_secs(u.blocks.iter().map(|b| b.block.header.time).max().unwrap() as u64 + *g.pick(&[30u64, 1200, 3 * 3600]));
    let addrs: Vec<PeerId> = (0..nodes).map(peer_addr).collect();
    let mut cfg = Config::from(Network::Regtest, if o.persistent { addrs.clone() } else { vec![] });
    tweak(g, &mut cfg);
    let mut book = PeerBook::default();
    if !o.persistent {
        for a in &addrs {
            let mut ka = KnownAddress::new(
                nakamoto_common::bitcoin::network::address::Address::new(a, ServiceFlags::NETWORK | ServiceFlags::COMPACT_FILTERS | ServiceFlags::WITNESS),
                Source::Imported,
                None,
            );
            ka.last_success = None;
            book.0.insert(a.ip(), ka);
        }
    }
    let seed = g.seed();
    let sim = Sim::new(tree, filters, book, now, seed, cfg);
    note!(g, "client at height {} (filters {}), {} peers, trunk {}", start, filters_to, nodes, n - 1);
    let mut w = World::new(u, sim);
    for (i, a) in addrs.iter().enumerate() {
        let tip = *g.pick(&tips);
        let mut nd = Node::new(*a, &w.u, tip);
        nd.wtxid = g.bool();
        nd.relay = g.chance(3, 4);
        if i + 1 < nodes {
            if g.chance(1, 3) {
                nd.services.remove(ServiceFlags::COMPACT_FILTERS);
            }
            if o.faulty {
                nd.headers = *g.pick(&[Mode::Honest, Mode::Honest, Mode::Mixed, Mode::Silent, Mode::Wrong]);
                nd.cfheaders = *g.pick(&[Mode::Honest, Mode::Honest, Mode::Mixed, Mode::Silent, Mode::Wrong]);
                nd.cfilters = *g.pick(&[Mode::Honest, Mode::Honest, Mode::Mixed, Mode::Silent, Mode::Wrong]);
                nd.blocks = *g.pick(&[Mode::Honest, Mode::Honest, Mode::Mixed, Mode::Silent]);
                nd.pong = *g.pick(&[Mode::Honest, Mode::Honest, Mode::Mixed, Mode::Silent, Mode::Wrong]);
            }
        }
        note!(g, "P{}: tip b{}@{} {:?} {:?}/{:?}/{:?}", i, tip, w.u.blocks[tip].height, nd.services, nd.headers, nd.cfheaders, nd.cfilters);
        w.add_node(nd);
    }
    w
}

/// One step of the environment. Returns the outputs (empty if it was held back by batching).
pub fn step(g: &mut G, w: &mut World, o: &Opts) {
    let pending = w.pending();
    let dialing = w.dialing();
    let up: Vec<PeerId> = w.sim.up.keys().copied().collect();
    let k = g.weighted(&[
        if pending.is_empty() { 0 } else { 20 },
        if dialing.is_empty() { 0 } else { 10 },
        4,
        2,
        5,
        if o.hangups && !up.is_empty() { 1 } else { 0 },
        if o.inbound { 1 } else { 0 },
        if o.batches && !pending.is_empty() { 4 } else { 0 },
        if o.import { 2 } else { 0 },
    ]);
    match k {
        0 => {
            let a = *g.pick(&pending);
            w.deliver(g, a);
        }
        1 => {
            let a = *g.pick(&dialing);
            if g.chance(1, 12) {
                w.refuse(g, a);
            } else {
                w.accept(g, a);
            }
        }
        2 => {
            w.next_timer(g);
        }
        3 => {
            let d = g.range(1, 20_000);
            w.advance(g, LocalDuration::from_millis(d as u128));
        }
        4 => {
            // A peer's chain grows, or it follows another one.
            let all: Vec<PeerId> = w.nodes.keys().copied().collect();
            let a = *g.pick(&all);
            let tip = w.nodes[&a].tip;
            let to = if o.reorgs && g.chance(1, 3) {
                // Another peer's chain, or a new branch, if it is at least as good.
                let other = if g.bool() {
                    let b = *g.pick(&all);
                    w.nodes[&b].tip
                } else {
                    let back = g.below(w.nodes[&a].chain.len() as u64 - 1 + 1).min(g.below(6));
                    let c = &w.nodes[&a].chain;
                    let at = c[c.len() - 1 - back as usize];
                    let n = back + g.range(0, 2);
                    w.u.grow(g, at, n.max(1))
                };
                if w.u.best([tip, other].into_iter()) != other {
                    return;
                }
                other
            } else {
                let n = if g.chance(1, 8) { g.range(9, 30) } else { g.range(1, 3) };
                w.u.grow(g, tip, n)
            };
            // Keep the clock ahead of the blocks.
            let t = w.u.blocks[to].block.header.time as u64 + 1;
            if w.sim.now < LocalTime::from_secs(t) {
                w.sim.now = LocalTime::from_secs(t);
            }
            let inv = g.chance(1, 3);
            w.announce(g, a, to, inv);
        }
        5 => {
            let a = *g.pick(&up);
            w.hangup(g, a);
        }
        6 => {
            let n = w.nodes.len();
            if n < 8 {
                let a = peer_addr(n + 20);
                let any = w.nodes.values().next().unwrap().tip;
                let mut nd = Node::new(a, &w.u, any);
                nd.wtxid = g.bool();
        nd.relay = g.chance(3, 4);
                w.add_node(nd);
                w.inbound(g, a);
            }
        }
        7 => {
            for _ in 0..g.range(2, 4) {
                let p = w.pending();
                if p.is_empty() {
                    break;
                }
                let a = *g.pick(&p);
                w.push_next(g, a);
            }
            g.label("batch");
            w.settle_outputs(g);
        }
        _ => {
            // The user imports headers.
            let i = g.below(w.u.blocks.len() as u64) as usize;
            let c = w.u.chain(i);
            let from = g.below(c.len() as u64) as usize;
            let mut hs: Vec<_> = c[from..].iter().map(|i| w.u.blocks[*i].block.header).collect();
            if g.chance(1, 4) && !hs.is_empty() {
                corrupt_headers(g, &mut hs, &w.u);
            }
            let before = w.chain_hashes();
            let (tx, rx) = crossbeam_channel::bounded(1);
            note!(g, "import {} headers up to b{}", hs.len(), i);
            w.sim.command(Command::ImportHeaders(hs, tx));
            let changed = before != w.chain_hashes();
            match rx.try_recv() {
                Ok(Ok(ImportResult::TipChanged { .. })) | Ok(Err(_)) => {}
                Ok(Ok(ImportResult::TipUnchanged)) => assert!(!changed, "HARNESS: tip changed silently"),
                Err(_) => panic!("HARNESS: no reply"),
            }
            w.settle_outputs(g);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C13

/// Replays the chain events.
pub struct Mirror {
    pub chain: Vec<BlockHash>,
    seen: usize,
    connected: Vec<(u64, BlockHash)>,
    reverted: Vec<(u64, BlockHash)>,
    pub reorgs: u64,
    pub synced: u64,
    /// Heights that the peers announced when they connected.
    peers: BTreeMap<PeerId, u64>,
    /// Check what is requested, too.
    requests: bool,
    /// Blocks that left the chain in the same step.
    left: Vec<BlockHash>,
}

impl Mirror {
    pub fn new(w: &World) -> Self {
        Self { chain: w.chain_hashes(), seen: 0, connected: vec![], reverted: vec![], reorgs: 0, synced: 0, peers: BTreeMap::new(), requests: false, left: vec![] }
    }

    pub fn with_requests(self) -> Self {
        Self { requests: true, ..self }
    }

    /// A request for filters, or filter headers, makes sense.
    fn request(&self, what: &str, start: u32, stop: BlockHash, max: usize) -> Res {
        if self.left.contains(&stop) {
            return Ok(());
        }
        let Some(height) = self.chain.iter().rposition(|h| *h == stop) else {
            fail!("{} are requested up to {}, which isn't on the active chain", what, stop)
        };
        let start = start as usize;
        ensure!(start <= height && height - start < max, "{} are requested from {} to {}", what, start, height);
        Ok(())
    }

    pub fn update(&mut self, w: &World) -> Res {
        if self.seen == w.log.len() && self.chain.last() == Some(&w.sim.tree.get().tip().0) {
            return Ok(());
        }
        let mut now = w.sim.now;
        for r in &w.log[self.seen..] {
            let e = match r {
                Rec::Now(t) => {
                    now = *t;
                    self.left.clear();
                    continue;
                }
                Rec::Write(_, NetworkMessage::GetCFHeaders(m)) if self.requests => {
                    self.request("filter headers", m.start_height, m.stop_hash, 2000)?;
                    continue;
                }
                Rec::Write(_, NetworkMessage::GetCFilters(m)) if self.requests => {
                    self.request("filters", m.start_height, m.stop_hash, 1000)?;
                    continue;
                }
                Rec::Event(e) => e,
                _ => continue,
            };
            match e {
                Event::PeerNegotiated { addr, link, services, height, .. } => {
                    if *link == Link::Inbound || services.has(ServiceFlags::NETWORK) {
                        self.peers.insert(*addr, *height);
                    }
                }
                Event::PeerDisconnected { addr, .. } => {
                    self.peers.remove(addr);
                }
                Event::BlockHeadersSynced { height, hash } => {
                    self.synced += 1;
                    ensure!(
                        self.chain.last() == Some(hash) && self.chain.len() as u64 - 1 == *height,
                        "the headers are reported in sync at {} ({}), which isn't the tip",
                        height,
                        hash
                    );
                    // The last peer may have been dropped in the input that reports this.
                    if let Some((addr, best)) = self.peers.iter().max_by_key(|(_, h)| **h) {
                        ensure!(*height >= *best, "the headers are reported in sync at height {}, while {} has {}", height, short(addr), best);
                    }
                    if let Some((_, b)) = w.sim.tree.get().get_block(hash) {
                        ensure!(
                            LocalTime::from_secs(b.time as u64 + 2 * 3600 + 60) > now,
                            "the headers are reported in sync, but the last block is {} s old",
                            now.as_secs() - b.time as u64
                        );
                    }
                }
                Event::BlockDisconnected { header, height } => {
                    let h = header.block_hash();
                    ensure!(self.connected.is_empty(), "a block is disconnected after others were connected in the same import");
                    ensure!(
                        self.chain.len() as u64 - 1 == *height && self.chain.last() == Some(&h),
                        "disconnected block {} at height {} isn't the tip (height {})",
                        h,
                        height,
                        self.chain.len() - 1
                    );
                    self.chain.pop();
                    self.left.push(h);
                    self.reverted.push((*height, h));
                }
                Event::BlockConnected { header, height } => {
                    ensure!(
                        self.chain.len() as u64 == *height && self.chain.last() == Some(&header.prev_blockhash),
                        "connected block at height {} doesn't extend the tip (height {})",
                        height,
                        self.chain.len() - 1
                    );
                    self.chain.push(header.block_hash());
                    self.connected.push((*height, header.block_hash()));
                }
                Event::BlockHeadersImported { hash, height, connected, reverted, reorg } => {
                    ensure!(
                        self.chain.last() == Some(hash) && self.chain.len() as u64 - 1 == *height,
                        "imported tip is not the result of the block events before it"
                    );
                    let c: Vec<_> = connected.iter().map(|(h, x)| (*h, x.block_hash())).collect();
                    let r: Vec<_> = reverted.iter().map(|(h, x)| (*h, x.block_hash())).collect();
                    ensure!(c == self.connected, "connected headers of the import differ from the block events");
                    ensure!(r == self.reverted, "reverted headers of the import differ from the block events");
                    ensure!(*reorg == !r.is_empty(), "reorg flag is wrong");
                    if *reorg {
                        self.reorgs += 1;
                    }
                    self.connected.clear();
                    self.reverted.clear();
                }
                _ => {}
            }
        }
        self.seen = w.log.len();
        ensure!(self.connected.is_empty() && self.reverted.is_empty(), "block events without import event");
        let tree = w.chain_hashes();
        ensure!(
            self.chain == tree,
            "replaying the events gives a chain of height {} ({}), the tree has height {} ({})",
            self.chain.len() - 1,
            self.chain.last().unwrap(),
            tree.len() - 1,
            tree.last().unwrap()
        );
        Ok(())
    }
}

fn c13(g: &mut G) -> Res {
    let o = Opts::gen(g);
    let mut w = setup(g, &o, &mut |_, _| {});
    let mut m = Mirror::new(&w);
    w.initialize(g);
    for _ in 0..o.steps {
        step(g, &mut w, &o);
        m.update(&w)?;
    }
    w.flush(g);
    m.update(&w)?;
    if m.reorgs > 0 {
        g.label("reorg");
        g.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C09, C29

/// The filter header chain is the one of the active block chain, as far as it goes.
pub fn check_filters(w: &World) -> Res {
    check_filters_from(w, 0)
}

/// As `check_filters`, if anything has changed.
pub struct FilterCheck(Option<(BlockHash, u64, nakamoto_common::block::filter::FilterHeader)>);

impl FilterCheck {
    pub fn new() -> Self {
        Self(None)
    }
    pub fn check(&mut self, w: &World) -> Res {
        let (height, header) = {
            let f = w.sim.filters.get();
            let t = *f.tip().1;
            (f.height(), t)
        };
        let now = Some((w.sim.tree.get().tip().0, height, header));
        if self.0 != now {
            self.0 = now;
            check_filters(w)?;
        }
        Ok(())
    }
}

pub fn check_filters_from(w: &World, from: usize) -> Res {
    let f = w.sim.filters.get();
    let chain = w.client_chain();
    let fh = f.height() as usize;
    ensure!(fh < chain.len(), "filter header chain (height {}) is longer than the block chain (height {})", fh, chain.len() - 1);
    for (h, i) in chain.iter().enumerate().take(fh + 1).skip(from) {
        if *i == usize::MAX {
            crate::harness_bug!("unknown block");
        }
        let got = f.get_header(h as u64);
        let b = &w.u.blocks[*i];
        ensure!(
            got == Some((b.fhash, b.fheader)),
            "filter header at height {} isn't the one of the active chain's block",
            h
        );
    }
    Ok(())
}

/// Calm phase: honest peers, connections are accepted, and time passes, until `done` or the limit.
pub fn calm(g: &mut G, w: &mut World, limit_secs: u64, done: &mut dyn FnMut(&World) -> bool, each: &mut dyn FnMut(&mut G, &World) -> Res) -> Result<bool, crate::pbt::Fail> {
    calm_with(g, w, limit_secs, &|_| true, done, each)
}

/// Like `calm`, with only some of the addresses accepting connections.
pub fn calm_with(
    g: &mut G,
    w: &mut World,
    limit_secs: u64,
    reachable: &dyn Fn(&PeerId) -> bool,
    done: &mut dyn FnMut(&World) -> bool,
    each: &mut dyn FnMut(&mut G, &World) -> Res,
) -> Result<bool, crate::pbt::Fail> {
    let end = w.sim.now + LocalDuration::from_secs(limit_secs);
    let mut rounds = 0;
    loop {
        for a in w.dialing() {
            if reachable(&a) {
                w.accept(g, a);
            } else {
                w.refuse(g, a);
            }
            each(g, w)?;
        }
        loop {
            let p = w.pending();
            if p.is_empty() {
                break;
            }
            for a in p {
                w.deliver(g, a);
                each(g, w)?;
            }
        }
        if done(w) {
            return Ok(true);
        }
        rounds += 1;
        match w.sim.next_timer() {
            Some(t) if t <= millis(end) && rounds < 5000 => {
                w.next_timer(g);
                each(g, w)?;
            }
            _ => return Ok(false),
        }
    }
}

pub fn make_honest(w: &mut World) {
    for n in w.nodes.values_mut() {
        n.headers = Mode::Honest;
        n.cfheaders = Mode::Honest;
        n.cfilters = Mode::Honest;
        n.blocks = Mode::Honest;
        n.pong = Mode::Honest;
        n.getdata = Mode::Honest;
        n.handshake = Mode::Honest;
    }
}

/// From now on, all peers are honest, follow one and the same best chain, and announce it.
pub fn unify(g: &mut G, w: &mut World) {
    unify_with(g, w, false)
}

pub fn unify_with(g: &mut G, w: &mut World, grow: bool) {
    make_honest(w);
    let mine = *w.client_chain().last().unwrap();
    if mine == usize::MAX {
        crate::harness_bug!("the client's tip is unknown");
    }
    let first = w.nodes.values().next().unwrap().tip;
    if !grow && g.chance(1, 3) && w.nodes.values().all(|n| n.tip == first) && (first == mine || w.u.blocks[first].height > w.u.blocks[mine].height) {
        // Nothing new happens.
        note!(g, "all peers are honest");
        return;
    }
    let best = w.u.best(w.nodes.values().map(|n| n.tip).chain(std::iter::once(mine)));
    let to = w.u.grow(g, best, 1);
    let t = LocalTime::from_secs(w.u.blocks[to].block.header.time as u64 + 1);
    if w.sim.now < t {
        w.sim.now = t;
    }
    let all: Vec<PeerId> = w.nodes.keys().copied().collect();
    for a in all {
        let inv = g.chance(1, 3);
        w.announce(g, a, to, inv);
    }
    note!(g, "all peers are honest and on b{}@{}", to, w.u.blocks[to].height);
}

/// All peers move to a branch that forks off some blocks below the client's tip.
pub fn reorg_all(g: &mut G, w: &mut World, max_back: u64) -> usize {
    let chain = w.client_chain();
    let back = g.range(1, max_back).min(chain.len() as u64 - 1) as usize;
    let at = chain[chain.len() - 1 - back];
    let n = back as u64 + g.range(1, 2);
    let to = w.u.grow(g, at, n);
    let t = LocalTime::from_secs(w.u.blocks[to].block.header.time as u64 + 1);
    if w.sim.now < t {
        w.sim.now = t;
    }
    let all: Vec<PeerId> = w.nodes.keys().copied().collect();
    for a in all {
        w.announce(g, a, to, false);
    }
    to
}

/// Is there an honest outbound peer with compact filters connected?
pub fn cbf_peer(w: &World) -> bool {
    w.sim.up.iter().any(|(a, l)| *l == Link::Outbound && w.nodes.get(a).map_or(false, |n| n.negotiated() && n.services.has(ServiceFlags::COMPACT_FILTERS)))
}

fn c09_run(g: &mut G, o: Opts) -> Res {
    let mut w = setup(g, &o, &mut |_, _| {});
    w.initialize(g);
    let mut fc = FilterCheck::new();
    fc.check(&w)?;
    let mut seen = 0;
    let mut m = Mirror::new(&w).with_requests();
    for _ in 0..o.steps {
        step(g, &mut w, &o);
        fc.check(&w)?;
        sync_events(&w, &mut seen)?;
        m.update(&w)?;
    }
    if m.reorgs > 0 {
        g.label("reorg");
        g.nontrivial();
    }
    unify(g, &mut w);
    let goal = best_of_peers(&w);
    let ok = calm(
        g,
        &mut w,
        180 * MINUTE,
        &mut |w| cbf_peer(w) && w.sim.filters.get().height() == w.sim.tree.get().height() && w.sim.tree.get().tip().0 == goal,
        &mut |_, w| {
            fc.check(w)?;
            sync_events(w, &mut seen)
        },
    )?;
    if !ok && cbf_peer(&w) && w.sim.tree.get().tip().0 == goal {
        fail!(
            "filter headers don't catch up: height {} of {} after three hours with an honest peer",
            w.sim.filters.get().height(),
            w.sim.tree.get().height()
        );
    }
    if !ok {
        g.label("no-peer");
    }
    if w.sim.filters.get().height() > 0 {
        g.nontrivial();
    }
    Ok(())
}

/// Hash of the block that all peers are on.
pub fn best_of_peers(w: &World) -> BlockHash {
    w.u.blocks[w.nodes.values().next().unwrap().tip].hash
}

/// Filter headers are reported synced only when they are.
fn sync_events(w: &World, seen: &mut usize) -> Res {
    let mut last = None;
    for e in &w.events[*seen..] {
        if let Event::FilterHeadersSynced { height } = e {
            last = Some(*height);
        }
    }
    *seen = w.events.len();
    if let Some(h) = last {
        ensure!(h <= w.sim.tree.get().height(), "filter headers reported synced at height {} beyond the block chain", h);
    }
    Ok(())
}

fn c09(g: &mut G) -> Res {
    let o = Opts::gen(g);
    c09_run(g, o)
}
fn c09_long(g: &mut G) -> Res {
    let mut o = Opts::gen(g);
    o.long = true;
    // Thousands of orphan headers make the imports very slow.
    o.import = false;
    o.faulty = false;
    o.reorgs = false;
    o.max_nodes = 2;
    o.steps = g.range(5, 20);
    c09_run(g, o)
}

// ---------------------------------------------------------------------------------------------
// C29

/// Has an honest outbound peer been connected for a while?
pub fn sync_peer(w: &World, secs: u64, start: LocalTime) -> bool {
    w.sim.up.iter().any(|(a, l)| {
        *l == Link::Outbound
            && w.nodes.get(a).map_or(false, |n| n.negotiated() && n.services.has(ServiceFlags::NETWORK))
            && w.since.get(a).map_or(false, |t| (*t).max(start) + LocalDuration::from_secs(secs) <= w.sim.now)
    })
}

fn c29_run(g: &mut G, o: Opts) -> Res {
    let mut w = setup(g, &o, &mut |_, _| {});
    w.initialize(g);
    let mut work = w.sim.tree.get().chain_work();
    for _ in 0..o.steps {
        step(g, &mut w, &o);
        let now = w.sim.tree.get().chain_work();
        ensure!(now >= work, "the client moved to a chain with less work");
        work = now;
    }
    unify(g, &mut w);
    let start = w.sim.now;
    let before = w.sim.tree.get().tip().0;
    // Peers announcing a block while the client is busy may go unnoticed until the next block.
    for round in 0..5 {
        let goal = best_of_peers(&w);
        // Nb. All blocks have the same work here. Imports may have told the client about a better chain.
        let height = w.nodes.values().next().unwrap().chain.len() as u64 - 1;
        let mut late = false;
        let round_start = w.sim.now;
        let ok = calm(
            g,
            &mut w,
            180 * MINUTE,
            &mut |w| {
                let done = w.sim.tree.get().tip().0 == goal || w.sim.tree.get().height() > height;
                late = !done && sync_peer(w, 15 * MINUTE, round_start);
                done || late
            },
            &mut |_, _| Ok(()),
        )?;
        if !late {
            if !ok {
                g.label("no-peer");
            } else if before != goal {
                g.label(if round == 0 { "first-round" } else { "later-round" });
                g.nontrivial();
            }
            return Ok(());
        }
        // A peer that connected later told us about its height.
        if round == 4 || w.sim.up.iter().any(|(a, l)| *l == Link::Outbound && w.since[a] > start && w.nodes[a].negotiated() && w.since[a] + LocalDuration::from_secs(15 * MINUTE) <= w.sim.now) {
            fail!(
                "headers don't catch up: height {} of {} after a quarter of an hour with an honest peer (round {})",
                w.sim.tree.get().height(),
                height,
                round
            );
        }
        unify_with(g, &mut w, true);
    }
    Ok(())
}
fn c29(g: &mut G) -> Res {
    let o = Opts::gen(g);
    c29_run(g, o)
}
fn c29_long(g: &mut G) -> Res {
    let mut o = Opts::gen(g);
    o.long = true;
    // Thousands of orphan headers make the imports very slow.
    o.import = false;
    o.faulty = false;
    o.reorgs = false;
    o.max_nodes = 2;
    o.steps = g.range(5, 20);
    c29_run(g, o)
}

/// Did the client ask this peer for what comes after its tip?
fn asked(w: &World, a: &PeerId) -> bool {
    let tip = w.sim.tree.get().tip().0;
    w.log.iter().any(|r| matches!(r, Rec::Write(b, NetworkMessage::GetHeaders(m)) if a == b && m.locator_hashes.first() == Some(&tip)))
}

/// Peers have new blocks, but never say so: the client asks them when no block came for long.
fn c29_stale(g: &mut G) -> Res {
    let mut o = Opts::gen(g);
    o.faulty = false;
    o.reorgs = false;
    o.hangups = false;
    o.import = false;
    o.max_nodes = 3;
    let mut w = setup(g, &o, &mut |_, _| {});
    w.initialize(g);
    for round in 0..g.range(1, 4) {
        unify_with(g, &mut w, true);
        let goal = best_of_peers(&w);
        let n = w.nodes.values().filter(|n| n.link == Link::Outbound).count();
        let ok = calm(
            g,
            &mut w,
            5 * MINUTE,
            &mut |w| w.sim.tree.get().tip().0 == goal && w.sim.up.iter().filter(|(a, l)| **l == Link::Outbound && w.nodes[a].negotiated()).count() == n,
            &mut |_, _| Ok(()),
        )?;
        if !ok {
            g.label("not-synced");
            return Ok(());
        }
        // Time may pass.
        if g.chance(1, 3) {
            let secs = g.range(1, 3 * 3600);
            calm(g, &mut w, secs, &mut |_| false, &mut |_, _| Ok(()))?;
        }
        // Nb. A peer isn't asked the same question twice.
        let fresh: Vec<PeerId> =
            w.sim.up.iter().filter(|(a, l)| **l == Link::Outbound && w.nodes[a].negotiated() && !asked(&w, a)).map(|(a, _)| *a).collect();
        let k = if g.chance(1, 10) { g.range(10, 40) } else { g.range(1, 5) };
        let at = *w.client_chain().last().unwrap();
        let to = w.u.grow(g, at, k);
        let t = LocalTime::from_secs(w.u.blocks[to].block.header.time as u64 + 1);
        if w.sim.now < t {
            w.sim.now = t;
        }
        let who: Vec<PeerId> = w.nodes.iter().filter(|(_, n)| n.link == Link::Outbound).map(|(a, _)| *a).filter(|_| g.chance(3, 4)).collect();
        for a in &who {
            let n = w.nodes.get_mut(a).unwrap();
            n.set_tip(&w.u, to);
        }
        note!(g, "{} peers have b{}@{} without saying so", who.len(), to, w.u.blocks[to].height);
        let goal = w.u.blocks[to].hash;
        let ok = calm(g, &mut w, 90 * MINUTE, &mut |w| w.sim.tree.get().tip().0 == goal, &mut |_, _| Ok(()))?;
        if who.iter().any(|a| fresh.contains(a)) {
            g.label(if round == 0 { "stale" } else { "stale-again" });
            g.nontrivial();
            ensure!(
                ok,
                "no block came for an hour and a half, and the client (height {}) didn't ask all its peers, one of which has height {}",
                w.sim.tree.get().height(),
                w.u.blocks[to].height
            );
        } else if !ok {
            g.label("nobody-to-ask");
            return Ok(());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C32

/// What a connected peer hasn't answered yet.
struct Waiting {
    since: LocalTime,
    negotiated: bool,
    headers: Option<LocalTime>,
    cfheaders: Vec<(BlockHash, LocalTime)>,
    pings: Vec<(u64, LocalTime)>,
}

#[derive(Default)]
struct Blame {
    seen: usize,
    now: Option<LocalTime>,
    waiting: BTreeMap<PeerId, Waiting>,
}

/// No honest peer was treated as misbehaving, or as late before its time was over.
fn blame(w: &World, honest: &BTreeSet<PeerId>, b: &mut Blame) -> Res {
    for r in &w.log[b.seen..] {
        let now = b.now.unwrap_or(w.sim.now);
        let secs = LocalDuration::from_secs;
        match r {
            Rec::Now(t) => b.now = Some(*t),
            Rec::Event(Event::PeerConnected { addr, .. }) => {
                b.waiting.insert(*addr, Waiting { since: now, negotiated: false, headers: None, cfheaders: vec![], pings: vec![] });
            }
            Rec::Event(Event::PeerNegotiated { addr, .. }) => {
                if let Some(p) = b.waiting.get_mut(addr) {
                    p.negotiated = true;
                }
            }
            Rec::Event(Event::PeerDisconnected { addr, .. }) => {
                b.waiting.remove(addr);
            }
            Rec::Write(addr, m) => {
                if let Some(p) = b.waiting.get_mut(addr) {
                    match m {
                        NetworkMessage::GetHeaders(_) => p.headers = p.headers.or(Some(now)),
                        NetworkMessage::GetCFHeaders(q) => p.cfheaders.push((q.stop_hash, now)),
                        NetworkMessage::Ping(n) => p.pings.push((*n, now)),
                        _ => {}
                    }
                }
            }
            Rec::In(addr, m) => {
                if let Some(p) = b.waiting.get_mut(addr) {
                    match m {
                        NetworkMessage::Headers(_) => p.headers = None,
                        NetworkMessage::CFHeaders(q) => {
                            if let Some(i) = p.cfheaders.iter().position(|(h, _)| *h == q.stop_hash) {
                                p.cfheaders.remove(i);
                            }
                        }
                        NetworkMessage::Pong(n) => p.pings.retain(|(m, _)| m != n),
                        _ => {}
                    }
                }
            }
            Rec::Disconnect(addr, DisconnectReason::PeerTimeout(why)) if honest.contains(addr) => {
                if let Some(p) = b.waiting.get(addr) {
                    let late = (!p.negotiated && now - p.since >= secs(12))
                        || p.headers.map_or(false, |t| now - t >= secs(30))
                        || p.cfheaders.iter().any(|(_, t)| now - *t >= secs(6))
                        || p.pings.iter().any(|(_, t)| now - *t >= secs(30));
                    ensure!(late, "honest peer {} was disconnected for a timeout ({}), but nothing it was asked for is due", short(addr), why);
                }
            }
            Rec::Event(Event::PeerMisbehaved { addr, reason }) if honest.contains(addr) => {
                fail!("honest peer {} was reported as misbehaving: {}", short(addr), reason)
            }
            Rec::Disconnect(addr, DisconnectReason::PeerMisbehaving(reason)) if honest.contains(addr) => {
                fail!("honest peer {} was disconnected as misbehaving: {}", short(addr), reason)
            }
            _ => {}
        }
    }
    b.seen = w.log.len();
    Ok(())
}

fn c32_honest(g: &mut G) -> Res {
    let o = Opts::gen(g);
    let mut w = setup(g, &o, &mut |_, _| {});
    let mut honest: BTreeSet<PeerId> = w.nodes.iter().filter(|(_, n)| n.honest()).map(|(a, _)| *a).collect();
    w.initialize(g);
    let mut seen = Blame::default();
    let watch: Vec<_> = (0..SCRIPTS).filter(|_| g.bool()).map(script).collect();
    if g.bool() {
        let from = g.below(4);
        w.command(g, Command::Rescan { from: std::ops::Bound::Included(from), to: std::ops::Bound::Unbounded, watch });
    }
    for _ in 0..o.steps {
        step(g, &mut w, &o);
        for (a, n) in &w.nodes {
            if n.link == Link::Inbound && n.honest() {
                honest.insert(*a);
            }
        }
        blame(&w, &honest, &mut seen)?;
    }
    w.flush(g);
    blame(&w, &honest, &mut seen)?;
    let reorg = w.events.iter().any(|e| matches!(e, Event::BlockHeadersImported { reorg: true, .. }));
    if reorg || o.faulty {
        g.label(if reorg { "reorg" } else { "faulty" });
        g.nontrivial();
    }
    Ok(())
}

/// A peer that sends something provably invalid is disconnected.
fn c32_invalid(g: &mut G) -> Res {
    let mut o = Opts::gen(g);
    o.faulty = false;
    o.hangups = false;
    o.max_nodes = 3;
    let mut w = setup(g, &o, &mut |_, _| {});
    w.initialize(g);
    unify(g, &mut w);
    let goal = best_of_peers(&w);
    let ok = calm(g, &mut w, 180 * MINUTE, &mut |w| cbf_peer(w) && w.sim.filters.get().height() == w.sim.tree.get().height() && w.sim.tree.get().tip().0 == goal, &mut |_, _| Ok(()))?;
    if !ok {
        g.label("not-synced");
        return Ok(());
    }
    let ups: Vec<PeerId> = w.sim.up.iter().filter(|(a, _)| w.nodes[a].negotiated()).map(|(a, _)| *a).collect();
    let a = *g.pick(&ups);
    let chain = w.client_chain();
    let tip = w.u.blocks[*chain.last().unwrap()].block.header;
    let kind = g.below(6);
    let m = match kind {
        0 | 1 => {
            // An invalid header on top of the tip, possibly after valid ones.
            let mut hs = vec![];
            let mut p = *chain.last().unwrap();
            if g.bool() {
                p = w.u.grow(g, p, 1);
                hs.push(w.u.blocks[p].block.header);
            }
            let mut x = tip;
            x.prev_blockhash = w.u.blocks[p].hash;
            x.time = w.u.blocks[p].block.header.time + 60;
            if kind == 0 {
                while crate::chainsim::meets(&x) {
                    x.nonce = x.nonce.wrapping_add(1);
                }
            } else {
                x.time = tip.time.saturating_sub(100_000);
                crate::chainsim::mine(&mut x);
            }
            hs.push(x);
            g.label(if kind == 0 { "header-pow" } else { "header-time" });
            NetworkMessage::Headers(hs)
        }
        2 => {
            g.label("too-many-headers");
            NetworkMessage::Headers(vec![tip; 2001])
        }
        3 => {
            let h = g.range(0, chain.len() as u64 - 1) as usize;
            let b = &w.u.blocks[chain[h]];
            let mut f = nakamoto_common::bitcoin::network::message_filter::CFilter { filter_type: 0, block_hash: b.hash, filter: b.filter.content.clone() };
            corrupt_cfilter(g, &mut f, &w.u);
            if f.filter == b.filter.content {
                return Ok(());
            }
            g.label("cfilter");
            NetworkMessage::CFilter(f)
        }
        4 => {
            g.label("verack");
            NetworkMessage::Verack
        }
        _ => {
            g.label("wtxidrelay");
            NetworkMessage::WtxidRelay
        }
    };
    g.nontrivial();
    let before = w.log.len();
    w.send(g, a, m);
    ensure!(
        w.log[before..].iter().any(|r| matches!(r, Rec::Disconnect(b, _) if *b == a)) && !w.sim.up.contains_key(&a),
        "a peer that sent an invalid message isn't disconnected"
    );
    for (b, _) in w.sim.up.clone() {
        ensure!(b != a, "still connected");
    }
    ensure!(
        !w.log[before..].iter().any(|r| matches!(r, Rec::Disconnect(b, _) if *b != a)),
        "another peer was disconnected"
    );
    Ok(())
}

pub static PROPS: &[Property] = &[
    Property {
        id: "C09",
        level: "exploration",
        rule: "a case is a schedule of messages, timers, connections and chain changes of simulated peers; non-trivial: filter headers were synced",
        strategies: &[
            Strategy { name: "net", quick: 12000, thorough: 400000, case: c09 },
            Strategy { name: "long", quick: 30, thorough: 1500, case: c09_long },
        ],
        assumptions: &["peers that answer do so with true filter hashes or in a way that is recognisably wrong"],
        known: &[],
    },
    Property {
        id: "C13",
        level: "exploration",
        rule: "a case is a schedule of messages, timers, connections, imports and chain changes of simulated peers; non-trivial: the client's chain was reorganised",
        strategies: &[Strategy { name: "net", quick: 30000, thorough: 1000000, case: c13 }],
        assumptions: &[],
        known: &[],
    },
    Property {
        id: "C29",
        level: "exploration",
        rule: "a case is a schedule of messages, timers, connections and chain changes of simulated peers, followed by a calm phase with honest peers on one chain; non-trivial: the client had to catch up in the calm phase and did",
        strategies: &[
            Strategy { name: "net", quick: 12000, thorough: 400000, case: c29 },
            Strategy { name: "long", quick: 30, thorough: 1500, case: c29_long },
            Strategy { name: "stale", quick: 3000, thorough: 100000, case: c29_stale },
        ],
        assumptions: &["the calm phase lasts up to three hours of simulated time"],
        known: &[],
    },
    Property {
        id: "C32",
        level: "exploration",
        rule: "honest: a schedule of a network with honest and other peers, non-trivial if there was a reorganisation or a faulty peer; invalid: one provably invalid message to a synced client, non-trivial always",
        strategies: &[
            Strategy { name: "honest", quick: 30000, thorough: 1200000, case: c32_honest },
            Strategy { name: "invalid", quick: 3000, thorough: 60000, case: c32_invalid },
        ],
        assumptions: &["peers that lie about filters do so in a way that can be recognised"],
        known: &[],
    },
];
