//! Transactions: C16 life cycle of submitted transactions, C24 fee estimates.
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Bound;

use nakamoto_common::bitcoin::blockdata::script::Script;
use nakamoto_common::bitcoin::blockdata::transaction::{OutPoint, Transaction, TxIn, TxOut};
use nakamoto_common::bitcoin::{PackedLockTime, Sequence, Witness};
use nakamoto_common::bitcoin::hash_types::{BlockHash, Txid, Wtxid};
use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::bitcoin::network::message_blockdata::Inventory;
use nakamoto_common::bitcoin_hashes::Hash as _;
use nakamoto_common::block::time::LocalDuration;
use nakamoto_common::block::tree::BlockReader;
use nakamoto_p2p::fsm::event::TxStatus;
use nakamoto_p2p::fsm::fees::{FeeEstimate, FeeEstimator};
use nakamoto_p2p::fsm::{Command, CommandError, Event, PeerId};

use super::net::*;
use crate::pbt::{Property, Res, Strategy, G};
use crate::sim::*;
use crate::{ensure, fail, note};

// ---------------------------------------------------------------------------------------------
// C16

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Stage {
    Pending,
    Confirmed { block: BlockHash, height: u64 },
}

struct PeerState {
    relay: bool,
    wtxid: bool,
    /// Announced or to be announced, and not acknowledged.
    outbox: BTreeSet<Wtxid>,
    gone: bool,
}

struct TxMonitor {
    seen: usize,
    txs: BTreeMap<Txid, (Transaction, Stage)>,
    by_wtxid: BTreeMap<Wtxid, Txid>,
    peers: BTreeMap<PeerId, PeerState>,
    /// Transactions requested by peers and not sent yet.
    wanted: BTreeMap<(PeerId, Txid), u64>,
    /// Pending transactions, and blocks containing them whose filter was processed since they are pending.
    scanned: BTreeSet<(Txid, BlockHash)>,
    /// Blocks by transaction.
    blocks: BTreeMap<Txid, BTreeSet<BlockHash>>,
    known_blocks: usize,
    /// Largest height of the chain since a block was confirmed.
    top: BTreeMap<Txid, u64>,
    /// Outputs are processed after every input.
    strict: bool,
    acks: u64,
    confirmed: u64,
    reverted: u64,
}

impl TxMonitor {
    fn new(strict: bool) -> Self {
        Self {
            seen: 0,
            txs: BTreeMap::new(),
            by_wtxid: BTreeMap::new(),
            peers: BTreeMap::new(),
            wanted: BTreeMap::new(),
            scanned: BTreeSet::new(),
            blocks: BTreeMap::new(),
            known_blocks: 0,
            top: BTreeMap::new(),
            strict,
            acks: 0,
            confirmed: 0,
            reverted: 0,
        }
    }

    fn pending(&self) -> Vec<Transaction> {
        self.txs.values().filter(|(_, s)| *s == Stage::Pending).map(|(t, _)| t.clone()).collect()
    }

    fn to_relay(&mut self, w: Wtxid) -> BTreeSet<PeerId> {
        let mut to = BTreeSet::new();
        for (a, p) in self.peers.iter_mut().filter(|(_, p)| p.relay && !p.gone) {
            p.outbox.insert(w);
            to.insert(*a);
        }
        to
    }

    fn submit(&mut self, g: &mut G, w: &mut World, tx: &Transaction) -> Res {
        let id = tx.txid();
        self.txs.insert(id, (tx.clone(), Stage::Pending));
        self.by_wtxid.insert(tx.wtxid(), id);
        let to = self.to_relay(tx.wtxid());
        let (s, r) = crossbeam_channel::bounded(1);
        note!(g, "submit {}", id);
        w.sim.command(Command::SubmitTransaction(tx.clone(), s));
        let got = r.try_recv();
        match got {
            Ok(Ok(peers)) => {
                let l = peers.len();
                let got: BTreeSet<PeerId> = peers.into_iter().collect();
                ensure!(got.len() == l, "the same peer twice in the answer to a submission");
                ensure!(got == to, "transaction submitted to {:?}, but the negotiated peers that want transactions are {:?}", got, to);
            }
            Ok(Err(CommandError::NotConnected)) => {
                ensure!(to.is_empty(), "submission reported as not connected with peers {:?}", to);
            }
            x => fail!("unexpected answer to a submission: {:?}", x),
        }
        w.settle_outputs(g);
        self.update(w)
    }

    fn update(&mut self, w: &World) -> Res {
        for b in &w.u.blocks[self.known_blocks..] {
            for t in &b.block.txdata {
                self.blocks.entry(t.txid()).or_default().insert(b.hash);
            }
        }
        self.known_blocks = w.u.blocks.len();
        let tree = w.sim.tree.get();
        for r in &w.log[self.seen..] {
            match r {
                Rec::In(a, NetworkMessage::GetData(invs)) => {
                    for i in invs {
                        let id = match i {
                            Inventory::Transaction(t) | Inventory::WitnessTransaction(t) => Some(*t),
                            Inventory::WTx(x) => self.by_wtxid.get(x).copied(),
                            _ => None,
                        };
                        if let Some(id) = id {
                            *self.wanted.entry((*a, id)).or_default() += 1;
                        }
                    }
                }
                Rec::Write(a, NetworkMessage::Inv(invs)) => {
                    let Some(p) = self.peers.get(a).filter(|p| !p.gone) else { fail!("inventory sent to {} which isn't negotiated", short(a)) };
                    ensure!(p.relay, "a transaction was announced to {} which doesn't want any", short(a));
                    let mut twice = BTreeSet::new();
                    for i in invs {
                        let x = match i {
                            Inventory::WTx(x) => {
                                ensure!(p.wtxid, "announced by wtxid to {} which didn't negotiate that", short(a));
                                *x
                            }
                            Inventory::Transaction(t) => {
                                ensure!(!p.wtxid, "announced by txid to {} which negotiated wtxids", short(a));
                                let Some((t, _)) = self.txs.get(t) else { fail!("a transaction was announced that wasn't submitted") };
                                t.wtxid()
                            }
                            x => fail!("announced {:?}", x),
                        };
                        ensure!(twice.insert(x), "announced twice in one message");
                        let Some(id) = self.by_wtxid.get(&x) else { fail!("a transaction was announced that wasn't submitted") };
                        ensure!(self.txs[id].1 == Stage::Pending, "a confirmed transaction was announced");
                        ensure!(p.outbox.contains(&x), "a transaction was announced again to {} after that requested it", short(a));
                    }
                }
                Rec::Write(a, NetworkMessage::Tx(t)) => {
                    let id = t.txid();
                    let Some((tx, _)) = self.txs.get(&id) else { fail!("a transaction was sent that wasn't submitted") };
                    ensure!(tx == t, "another transaction was sent than the submitted one");
                    match self.wanted.get_mut(&(*a, id)) {
                        Some(n) if *n > 0 => *n -= 1,
                        _ => fail!("transaction sent to {} which didn't request it", short(a)),
                    }
                }
                Rec::Event(Event::PeerNegotiated { addr, relay, wtxid_relay, .. }) => {
                    let mut outbox = BTreeSet::new();
                    if *relay {
                        outbox.extend(self.txs.values().filter(|(_, s)| *s == Stage::Pending).map(|(t, _)| t.wtxid()));
                    }
                    if let Some(n) = w.nodes.get(addr) {
                        ensure!(n.relay == *relay && n.wtxid == *wtxid_relay, "peer negotiated with wrong relay settings");
                    }
                    self.peers.insert(*addr, PeerState { relay: *relay, wtxid: *wtxid_relay, outbox, gone: false });
                }
                Rec::Event(Event::PeerDisconnected { addr, .. }) => {
                    if let Some(p) = self.peers.get_mut(addr) {
                        p.gone = true;
                    }
                }
                Rec::Event(Event::FilterProcessed { block, matched, .. }) => {
                    let Some(k) = w.u.by_hash.get(block) else { continue };
                    for t in &w.u.blocks[*k].block.txdata {
                        let id = t.txid();
                        if let Some((_, Stage::Pending)) = self.txs.get(&id) {
                            if self.strict {
                                ensure!(*matched, "the filter of a block with the pending transaction {} didn't match", id);
                            }
                            if *matched {
                                self.scanned.insert((id, *block));
                            }
                        }
                    }
                }
                Rec::Event(Event::BlockProcessed { block, .. }) => {
                    for t in &block.txdata {
                        if let Some((_, Stage::Pending)) = self.txs.get(&t.txid()) {
                            fail!("the block with transaction {} was processed, but that isn't confirmed", t.txid());
                        }
                    }
                }
                Rec::Event(Event::TxStatusChanged { txid, status }) => {
                    let Some((tx, stage)) = self.txs.get_mut(txid) else { fail!("status of an unknown transaction: {}", status) };
                    match status {
                        TxStatus::Acknowledged { peer } => {
                            self.acks += 1;
                            let Some(p) = self.peers.get_mut(peer) else { fail!("acknowledged by unknown peer {}", short(peer)) };
                            ensure!(*stage == Stage::Pending, "confirmed transaction reported as acknowledged");
                            ensure!(self.wanted.contains_key(&(*peer, *txid)), "{} is said to have acknowledged a transaction it never requested", short(peer));
                            ensure!(p.outbox.remove(&tx.wtxid()), "acknowledged twice, or without announcement, by {}", short(peer));
                        }
                        TxStatus::Confirmed { height, block } => {
                            self.confirmed += 1;
                            ensure!(*stage == Stage::Pending, "transaction confirmed twice");
                            let Some(k) = w.u.by_hash.get(block) else { fail!("confirmed in an unknown block") };
                            let b = &w.u.blocks[*k];
                            ensure!(b.height == *height, "confirmed with height {}, the block's is {}", height, b.height);
                            ensure!(b.block.txdata.iter().any(|t| t.txid() == *txid), "confirmed in a block that doesn't contain the transaction");
                            if self.strict {
                                ensure!(tree.contains(block), "confirmed in a block that isn't on the active chain");
                            }
                            *stage = Stage::Confirmed { block: *block, height: *height };
                            self.top.insert(*txid, tree.height());
                            self.scanned.retain(|(t, _)| t != txid);
                            let x = tx.wtxid();
                            for p in self.peers.values_mut() {
                                p.outbox.remove(&x);
                            }
                        }
                        TxStatus::Reverted { transaction } => {
                            self.reverted += 1;
                            let Stage::Confirmed { block, .. } = *stage else { fail!("pending transaction reverted") };
                            ensure!(transaction == tx, "another transaction was reverted");
                            if self.strict {
                                ensure!(!tree.contains(&block), "transaction reverted while its block is on the active chain");
                            }
                            *stage = Stage::Pending;
                            let x = tx.wtxid();
                            self.to_relay(x);
                        }
                        x => fail!("unexpected status {}", x),
                    }
                }
                _ => {}
            }
        }
        self.seen = w.log.len();
        self.peers.retain(|_, p| !p.gone);
        let height = tree.height();
        for (id, (_, stage)) in &self.txs {
            if let Stage::Confirmed { block, height: h } = stage {
                let top = self.top.get_mut(id).unwrap();
                *top = (*top).max(height);
                // Nb. Forgotten after twelve confirmations.
                if *top - h <= 12 {
                    ensure!(tree.contains(block), "the block with transaction {} was disconnected, but the transaction isn't reverted", id);
                }
            }
        }
        Ok(())
    }

    fn lookup(&self, g: &mut G, w: &mut World) -> Res {
        for (id, (tx, stage)) in &self.txs {
            let (s, r) = crossbeam_channel::bounded(1);
            w.sim.command(Command::GetSubmittedTransaction(*id, s));
            let got = r.try_recv().unwrap();
            match stage {
                Stage::Pending => ensure!(got.as_ref() == Some(tx), "pending transaction {} isn't found", id),
                Stage::Confirmed { .. } => ensure!(got.is_none(), "confirmed transaction {} is still pending", id),
            }
        }
        w.settle_outputs(g);
        Ok(())
    }
}

fn new_tx(g: &mut G, w: &mut World) -> Transaction {
    let tip = *w.client_chain().last().unwrap();
    let utxos = w.u.blocks[tip].utxos.clone();
    let mut ins = vec![];
    for _ in 0..g.range(1, 2) {
        if !utxos.is_empty() {
            ins.push(g.pick(&utxos).0);
        }
    }
    if ins.is_empty() {
        ins.push(OutPoint { txid: Txid::from_inner([g.u8(); 32]), vout: 0 });
    }
    ins.dedup();
    let mut outs = vec![];
    for _ in 0..g.range(1, 3) {
        let s = match g.below(5) {
            0 => Script::new_op_return(&g.bytes(4)),
            1..=2 => script(g.below(SCRIPTS as u64) as usize),
            _ => Script::from([&[0x00u8, 0x14], &g.bytes(20)[..]].concat()),
        };
        outs.push(TxOut { value: g.range(0, 10_000), script_pubkey: s });
    }
    let mut tx = w.u.tx(ins, outs);
    if g.chance(1, 3) {
        for i in &mut tx.input {
            i.witness = Default::default();
        }
    }
    tx
}

/// A block with some of the transactions, on the chain of a peer, or on a branch of it.
fn mine_with(g: &mut G, w: &mut World, txs: &[Transaction], reorg: bool) {
    let all: Vec<PeerId> = w.nodes.keys().copied().collect();
    let a = *g.pick(&all);
    let chain = w.nodes[&a].chain.clone();
    let back = if reorg { g.below(6).min(chain.len() as u64 - 1) as usize } else { 0 };
    let mut at = chain[chain.len() - 1 - back];
    for _ in 0..back + 1 {
        let inc: BTreeSet<Txid> = w.u.chain(at).iter().flat_map(|i| w.u.blocks[*i].block.txdata.iter().map(|t| t.txid()).collect::<Vec<_>>()).collect();
        let mut c = Universe::content(g);
        for t in txs {
            if g.chance(1, 2) && !inc.contains(&t.txid()) {
                c.include.push(t.clone());
            }
        }
        at = w.u.add(at, &c);
    }
    let t = nakamoto_common::block::time::LocalTime::from_secs(w.u.blocks[at].block.header.time as u64 + 1);
    if w.sim.now < t {
        w.sim.now = t;
    }
    let inv = g.chance(1, 3);
    w.announce(g, a, at, inv);
}

fn c16(g: &mut G) -> Res {
    let mut o = Opts::gen(g);
    o.batches = g.chance(1, 8);
    let mut w = setup(g, &o, &mut |_, _| {});
    for n in w.nodes.values_mut() {
        n.relay = g.chance(4, 5);
        n.hungry = g.chance(2, 3);
        if o.faulty {
            n.getdata = *g.pick(&[Mode::Honest, Mode::Honest, Mode::Mixed, Mode::Silent]);
        }
    }
    let mut m = TxMonitor::new(!o.batches);
    w.initialize(g);
    m.update(&w)?;
    let from = g.below(w.sim.tree.get().height() + 1);
    let scan = g.chance(7, 8);
    if scan {
        let watch = (0..SCRIPTS).filter(|_| g.chance(1, 6)).map(script).collect();
        w.command(g, Command::Rescan { from: Bound::Included(from), to: Bound::Unbounded, watch });
        m.update(&w)?;
    }
    let many = g.chance(1, 8);
    let most = if many { 40 } else { 5 };
    for _ in 0..o.steps {
        match g.weighted(&[20, 2, 3, 1, 1]) {
            1 => {
                for _ in 0..if many { g.range(1, 16) } else { 1 } {
                    let p = m.pending();
                    let tx = if !p.is_empty() && g.chance(1, 5) { g.pick(&p).clone() } else { new_tx(g, &mut w) };
                    if m.txs.len() < most || m.txs.contains_key(&tx.txid()) {
                        m.submit(g, &mut w, &tx)?;
                    }
                }
            }
            2 if !m.txs.is_empty() => {
                let txs: Vec<Transaction> = m.txs.values().map(|(t, _)| t.clone()).collect();
                let reorg = o.reorgs && g.chance(1, 3);
                mine_with(g, &mut w, &txs, reorg);
            }
            3 if !m.txs.is_empty() => {
                // A peer asks for a transaction, whether or not it was announced.
                let up: Vec<PeerId> = w.sim.up.keys().copied().collect();
                if !up.is_empty() {
                    let a = *g.pick(&up);
                    let txs: Vec<Transaction> = m.txs.values().map(|(t, _)| t.clone()).collect();
                    let mut invs = vec![];
                    for _ in 0..g.range(1, 3) {
                        let t = g.pick(&txs);
                        invs.push(match g.below(4) {
                            0 => Inventory::Transaction(t.txid()),
                            1 => Inventory::WitnessTransaction(t.txid()),
                            2 => Inventory::WTx(t.wtxid()),
                            _ => Inventory::Transaction(Txid::from_inner([7; 32])),
                        });
                    }
                    w.send(g, a, NetworkMessage::GetData(invs));
                }
            }
            4 => m.lookup(g, &mut w)?,
            _ => step(g, &mut w, &o),
        }
        m.update(&w)?;
    }
    m.lookup(g, &mut w)?;
    // From now on, every peer is honest.
    unify(g, &mut w);
    let start = w.sim.now;
    {
        let cell = std::cell::RefCell::new(&mut m);
        calm(g, &mut w, 8 * MINUTE, &mut |_| false, &mut |_, w| cell.borrow_mut().update(w))?;
    }
    let pend = m.pending();
    for (a, n) in w.nodes.iter().filter(|(_, n)| n.relay && n.negotiated()) {
        if w.sim.up.contains_key(a) && w.since.get(a).map_or(false, |t| (*t).max(start) + LocalDuration::from_secs(4 * MINUTE) <= w.sim.now) {
            for t in &pend {
                ensure!(n.txs.contains_key(&t.txid()), "transaction {} was never offered to the connected peer {}", t.txid(), short(a));
            }
        }
    }
    // A block with all pending transactions.
    let goal = {
        let best = w.nodes.values().next().unwrap().tip;
        let inc: BTreeSet<Txid> = w.u.chain(best).iter().flat_map(|i| w.u.blocks[*i].block.txdata.iter().map(|t| t.txid()).collect::<Vec<_>>()).collect();
        let mut c = Universe::content(g);
        c.include = pend.into_iter().filter(|t| !inc.contains(&t.txid())).collect();
        let mut to = w.u.add(best, &c);
        // Make it the best chain for certain.
        to = w.u.grow(g, to, 1);
        let t = nakamoto_common::block::time::LocalTime::from_secs(w.u.blocks[to].block.header.time as u64 + 1);
        if w.sim.now < t {
            w.sim.now = t;
        }
        let all: Vec<PeerId> = w.nodes.keys().copied().collect();
        for a in all {
            w.announce(g, a, to, false);
        }
        w.u.blocks[to].hash
    };
    for n in w.nodes.values_mut() {
        n.known = n.chain.iter().copied().collect();
    }
    let due = |m: &TxMonitor, w: &World| -> Option<Txid> {
        let tree = w.sim.tree.get();
        m.pending().iter().map(|t| t.txid()).find(|id| {
            m.blocks.get(id).map_or(false, |bs| {
                bs.iter().any(|b| {
                    // Nb. The transactions in the last blocks were pending before these were mined.
                    let new = tree.get_block(b).map_or(false, |(h, _)| h >= from && h + 2 > tree.height());
                    tree.contains(b) && (m.scanned.contains(&(*id, *b)) || scan && new)
                })
            })
        })
    };
    let ok = {
        let cell = std::cell::RefCell::new(&mut m);
        calm(
            g,
            &mut w,
            60 * MINUTE,
            &mut |w| cbf_peer(w) && w.sim.tree.get().tip().0 == goal && due(&cell.borrow(), w).is_none(),
            &mut |_, w| cell.borrow_mut().update(w),
        )?
    };
    if !ok && cbf_peer(&w) && w.sim.tree.get().tip().0 == goal {
        fail!("transaction {} is in the active chain, but not confirmed after an hour with an honest peer", due(&m, &w).map_or(String::new(), |x| x.to_string()));
    }
    m.lookup(g, &mut w)?;
    if ok && g.chance(2, 3) {
        // All peers move to another branch, with or without these transactions.
        let conf: BTreeSet<Txid> = m.txs.iter().filter(|(_, (_, s))| *s != Stage::Pending).map(|(t, _)| *t).collect();
        let chain = w.client_chain();
        let back = g.range(1, 14).min(chain.len() as u64 - 1) as usize;
        let at = chain[chain.len() - 1 - back];
        let inc: BTreeSet<Txid> = w.u.chain(at).iter().flat_map(|i| w.u.blocks[*i].block.txdata.iter().map(|t| t.txid()).collect::<Vec<_>>()).collect();
        let mut rest: Vec<Transaction> = m.txs.values().map(|(t, _)| t.clone()).filter(|t| !inc.contains(&t.txid())).collect();
        let mut to = at;
        for _ in 0..back + 1 {
            let mut c = Universe::content(g);
            if g.chance(1, 3) && !rest.is_empty() {
                c.include.push(rest.pop().unwrap());
            }
            to = w.u.add(to, &c);
        }
        let t = nakamoto_common::block::time::LocalTime::from_secs(w.u.blocks[to].block.header.time as u64 + 1);
        if w.sim.now < t {
            w.sim.now = t;
        }
        if g.chance(1, 4) {
            // The user imports the branch, while no peer is connected.
            for a in w.sim.up.keys().copied().collect::<Vec<_>>() {
                w.hangup(g, a);
                m.update(&w)?;
            }
            let hs: Vec<_> = w.u.chain(to).iter().map(|i| w.u.blocks[*i].block.header).collect();
            w.command(g, Command::ImportHeaders(hs, crossbeam_channel::bounded(1).0));
            m.update(&w)?;
            m.lookup(g, &mut w)?;
            g.label("reorg-offline");
        }
        let all: Vec<PeerId> = w.nodes.keys().copied().collect();
        for a in all {
            w.announce(g, a, to, false);
            let n = w.nodes.get_mut(&a).unwrap();
            n.known = n.chain.iter().copied().collect();
            n.txs.retain(|t, _| !conf.contains(t));
        }
        let goal = w.u.blocks[to].hash;
        let start = w.sim.now;
        let due = |m: &TxMonitor, w: &World| {
            let tree = w.sim.tree.get();
            m.pending().iter().map(|t| t.txid()).find(|id| m.blocks.get(id).map_or(false, |bs| bs.iter().any(|b| tree.contains(b) && m.scanned.contains(&(*id, *b)))))
        };
        {
            let cell = std::cell::RefCell::new(&mut m);
            calm(g, &mut w, 8 * MINUTE, &mut |_| false, &mut |_, w| cell.borrow_mut().update(w))?;
        }
        if w.sim.tree.get().tip().0 == goal && cbf_peer(&w) {
            g.label("reorg-phase");
            if let Some(id) = due(&m, &w) {
                let late = w.sim.up.keys().any(|a| w.since.get(a).map_or(false, |t| (*t).max(start) + LocalDuration::from_secs(4 * MINUTE) <= w.sim.now));
                ensure!(!late, "transaction {} is in the new active chain and was scanned, but is not confirmed", id);
            }
            let pend = m.pending();
            for (a, n) in w.nodes.iter().filter(|(_, n)| n.relay && n.negotiated()) {
                if w.sim.up.contains_key(a) && w.since.get(a).map_or(false, |t| (*t).max(start) + LocalDuration::from_secs(4 * MINUTE) <= w.sim.now) {
                    for t in &pend {
                        if conf.contains(&t.txid()) && m.blocks.get(&t.txid()).map_or(true, |bs| !bs.iter().any(|b| w.sim.tree.get().contains(b))) {
                            ensure!(n.txs.contains_key(&t.txid()), "the reverted transaction {} was not offered to the connected peer {}", t.txid(), short(a));
                        }
                    }
                }
            }
        }
        m.lookup(g, &mut w)?;
    }
    if m.acks > 0 {
        g.label("acknowledged");
    }
    if m.confirmed > 0 {
        g.label("confirmed");
        g.nontrivial();
    }
    if m.reverted > 0 {
        g.label("reverted");
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C24

/// The fee estimator, by the book: what it knows is recomputed from the blocks processed.
#[derive(Default)]
struct FeeModel {
    blocks: Vec<(u64, Vec<Transaction>)>,
    /// Blocks that can be rolled back.
    undo: usize,
}

impl FeeModel {
    fn utxos(&self) -> BTreeMap<OutPoint, u64> {
        let mut u = BTreeMap::new();
        for (_, txs) in &self.blocks {
            Self::fees(&mut u, txs);
        }
        u
    }

    /// Fee rates of the transactions whose inputs are all known. `None`: amounts overflow.
    fn fees(u: &mut BTreeMap<OutPoint, u64>, txs: &[Transaction]) -> Option<Vec<u64>> {
        let mut rates = vec![];
        let mut odd = false;
        for tx in txs {
            let id = tx.txid();
            let mut sent = 0u128;
            for (i, o) in tx.output.iter().enumerate() {
                u.insert(OutPoint { txid: id, vout: i as u32 }, o.value);
                sent += o.value as u128;
            }
            if tx.input.len() == 1 && tx.input[0].previous_output == OutPoint::null() {
                continue;
            }
            let mut received = 0u128;
            let mut all = true;
            for i in &tx.input {
                match u.remove(&i.previous_output) {
                    Some(v) => received += v as u128,
                    None => {
                        all = false;
                        break;
                    }
                }
            }
            if received > u64::MAX as u128 || sent > u64::MAX as u128 {
                odd = true;
                continue;
            }
            if all && received >= sent {
                let w = tx.weight() as u128;
                let fee = received - sent;
                rates.push(((8 * fee + w) / (2 * w)) as u64);
            }
        }
        if odd {
            None
        } else {
            Some(rates)
        }
    }

    fn height(&self) -> u64 {
        self.blocks.last().map_or(0, |b| b.0)
    }

    /// Expected estimate (low, median, high). The outer option is `None` if it isn't determined.
    fn process(&mut self, txs: &[Transaction], height: u64) -> Option<Option<(u64, u64, u64)>> {
        if height <= self.height() {
            return Some(None);
        }
        let mut u = self.utxos();
        let rates = Self::fees(&mut u, txs);
        self.blocks.push((height, txs.to_vec()));
        self.undo = (self.undo + 1).min(12);
        let mut r = rates?;
        r.sort();
        if r.is_empty() {
            return Some(None);
        }
        let n = r.len();
        let median = if n % 2 == 1 { r[n / 2] } else { ((r[n / 2 - 1] as u128 + r[n / 2] as u128 + 1) / 2) as u64 };
        Some(Some((r[0], median, r[n - 1])))
    }

    fn rollback(&mut self, height: u64) {
        while self.height() > height {
            if self.undo == 0 {
                self.blocks.clear();
                return;
            }
            self.undo -= 1;
            self.blocks.pop();
        }
    }
}

fn same_fees(want: Option<Option<(u64, u64, u64)>>, got: &Option<FeeEstimate>) -> Res {
    let Some(want) = want else { return Ok(()) };
    match (want, got) {
        (None, None) => Ok(()),
        (Some((l, m, h)), Some(g)) => {
            let near = |a: u64, b: u64| a == b || (a > 1 << 40 && (a as f64 / b as f64 - 1.0).abs() < 1e-9);
            ensure!(near(l, g.low) && near(m, g.median) && near(h, g.high), "fee rates (low, median, high) are {:?}, but {:?} was reported", (l, m, h), g);
            Ok(())
        }
        (w, g) => fail!("fee rates (low, median, high) are {:?}, but {:?} was reported", w, g),
    }
}

fn c24_model(g: &mut G) -> Res {
    let mut e = FeeEstimator::default();
    let mut m = FeeModel::default();
    let mut pool: Vec<(OutPoint, u64)> = vec![];
    let mut nonce = 0u32;
    let mut rolled = false;
    let mut estimates = 0;
    for _ in 0..g.range(1, 40) {
        if g.chance(1, 4) {
            let cur = m.height();
            let h = match g.below(6) {
                0 => cur,
                1 => cur + g.below(5),
                2 => g.below(cur + 1),
                _ => cur.saturating_sub(g.range(1, 5)),
            };
            note!(g, "rollback to {}", h);
            if h < cur {
                rolled = true;
            }
            m.rollback(h);
            e.rollback(h);
            continue;
        }
        let cur = m.height();
        let height = match g.below(10) {
            0 => cur,
            1 => g.below(cur + 1),
            2 => cur + g.range(2, 6),
            _ => cur + 1,
        };
        let mut txs = vec![];
        let mut spent: BTreeSet<OutPoint> = BTreeSet::new();
        let count = if g.chance(1, 6) { g.range(7, 40) } else { g.range(1, 6) };
        for k in 0..count {
            nonce += 1;
            let mut ins: Vec<(OutPoint, u64)> = vec![];
            let coinbase = k == 0 && g.chance(3, 4);
            if coinbase {
                ins.push((OutPoint::null(), 0));
            } else {
                for _ in 0..g.range(1, 3) {
                    if pool.is_empty() || g.chance(1, 10) {
                        ins.push((OutPoint { txid: Txid::from_inner([g.u8(); 32]), vout: g.below(3) as u32 }, 1000));
                    } else {
                        let x = if g.bool() { pool[pool.len() - 1 - g.below(pool.len().min(6) as u64) as usize] } else { *g.pick(&pool) };
                        if g.chance(1, 12) || spent.insert(x.0) {
                            ins.push(x);
                        }
                    }
                }
            }
            let total: u128 = ins.iter().map(|i| i.1 as u128).sum();
            let n = g.range(1, 3);
            let mut outs = vec![];
            let mut left = if coinbase { 50_0000_0000 } else { total.min(u64::MAX as u128) as u64 };
            let odd = g.chance(1, 30);
            for _ in 0..n {
                let v = if odd {
                    *g.pick(&[u64::MAX, u64::MAX / 2, left.saturating_add(1), 1 << 60])
                } else if g.bool() {
                    let f = g.below(left.min(100_000) + 1);
                    left - f
                } else {
                    g.below(left.saturating_add(1))
                };
                left = left.saturating_sub(v);
                outs.push(TxOut { value: v, script_pubkey: Script::from(g.bytes(3)) });
            }
            let tx = Transaction {
                version: 2,
                lock_time: PackedLockTime(nonce),
                input: ins
                    .iter()
                    .map(|(o, _)| TxIn {
                        previous_output: *o,
                        script_sig: Script::from(if coinbase { vec![1, 2, 3] } else { vec![] }),
                        sequence: Sequence(0),
                        witness: if g.bool() { Witness::from_vec(vec![vec![1; 20]]) } else { Witness::default() },
                    })
                    .collect(),
                output: outs,
            };
            if tx.input.is_empty() {
                continue;
            }
            for (i, o) in tx.output.iter().enumerate() {
                pool.push((OutPoint { txid: tx.txid(), vout: i as u32 }, o.value));
            }
            txs.push(tx);
        }
        note!(g, "block at {} with {} transactions", height, txs.len());
        let block = nakamoto_common::bitcoin::Block { header: w_header(), txdata: txs.clone() };
        let want = m.process(&txs, height);
        let got = e.process(block, height);
        same_fees(want, &got)?;
        if got.is_some() {
            estimates += 1;
            if rolled {
                g.label("after-rollback");
            }
        }
    }
    if estimates > 0 {
        g.nontrivial();
    }
    Ok(())
}

fn w_header() -> nakamoto_common::bitcoin::BlockHeader {
    nakamoto_common::network::Network::Regtest.genesis()
}

/// Estimates reported with the blocks processed by the client.
fn c24_net(g: &mut G) -> Res {
    let mut o = Opts::gen(g);
    o.batches = false;
    o.faulty = false;
    o.import = false;
    let mut w = setup(g, &o, &mut |_, _| {});
    let mut m = FeeModel::default();
    let mut seen = 0;
    let mut some = 0;
    let mut update = |g: &mut G, w: &World| -> Res {
        for e in &w.events[seen..] {
            match e {
                Event::BlockProcessed { block, height, fees } => {
                    let want = m.process(&block.txdata, *height);
                    same_fees(want, fees)?;
                    if fees.is_some() {
                        some += 1;
                        g.nontrivial();
                    }
                }
                Event::BlockHeadersImported { reverted, .. } => {
                    if let Some((h, _)) = reverted.last() {
                        if some > 0 {
                            g.label("rolled-back");
                        }
                        m.rollback(*h - 1);
                    }
                }
                _ => {}
            }
        }
        seen = w.events.len();
        Ok(())
    };
    w.initialize(g);
    let from = g.below(w.sim.tree.get().height() + 1);
    let watch = (0..SCRIPTS).filter(|_| g.chance(4, 5)).map(script).collect();
    w.command(g, Command::Rescan { from: Bound::Included(from), to: Bound::Unbounded, watch });
    for _ in 0..o.steps {
        step(g, &mut w, &o);
        update(g, &w)?;
    }
    unify(g, &mut w);
    calm(g, &mut w, 5 * MINUTE, &mut |_| false, &mut |g, w| update(g, w))?;
    for _ in 0..g.below(4) {
        reorg_all(g, &mut w, 14);
        calm(g, &mut w, MINUTE, &mut |_| false, &mut |g, w| update(g, w))?;
    }
    Ok(())
}

pub static PROPS: &[Property] = &[Property {
    id: "C16",
    level: "exploration",
    rule: "a case is a schedule of a simulated network with submitted transactions, followed by a calm phase; non-trivial: a transaction was confirmed",
    strategies: &[Strategy { name: "net", quick: 8000, thorough: 300000, case: c16 }],
    assumptions: &[],
    known: &[],
},
Property {
    id: "C24",
    level: "exploration",
    rule: "a case is a sequence of blocks and rollbacks, or a schedule of a simulated network; non-trivial: at least one estimate was made",
    strategies: &[
        Strategy { name: "model", quick: 20000, thorough: 1000000, case: c24_model },
        Strategy { name: "net", quick: 3000, thorough: 100000, case: c24_net },
    ],
    assumptions: &["transactions whose amounts add up to more than 2^64 are excluded"],
    known: &[],
},
];
