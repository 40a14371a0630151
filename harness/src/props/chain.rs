//! C01-C05: consensus validity, fork choice, import results, chain queries, checkpoints.
use std::collections::BTreeSet;

use nakamoto_chain::block::cache::BlockCache;
use nakamoto_chain::block::store::Memory;
use nakamoto_common::bitcoin::blockdata::block::BlockHeader;
use nakamoto_common::bitcoin::hash_types::BlockHash;
use nakamoto_common::bitcoin::util::uint::Uint256;
use nakamoto_common::bitcoin_hashes::Hash as _;
use nakamoto_common::block::time::LocalTime;
use nakamoto_common::block::tree::{BlockReader, BlockTree, Error, ImportResult};
use nakamoto_common::nonempty::NonEmpty;

use crate::chainsim::*;
use crate::pbt::{Property, Res, Strategy, G};
use crate::{ensure, fail, note};

pub type Cache = BlockCache<Memory<BlockHeader>>;

pub fn new_cache(t: &Tree) -> Cache {
    let cps: Vec<_> = t.checkpoints.iter().map(|(h, b)| (*h, *b)).collect();
    BlockCache::new(Memory::new(NonEmpty::new(t.cfg.genesis)), t.cfg.params.clone(), &cps).unwrap()
}

fn short(h: &BlockHash) -> String {
    h.to_string()[56..].to_string()
}

#[derive(Clone, Copy)]
struct GrowOpts {
    min: u64,
    max: u64,
    /// Chance (of 100) that a node is deliberately invalid.
    invalid: u64,
    /// Chance (of 100) that growth continues from the last node rather than a random one.
    linear: u64,
}

/// A clock close enough to the generated headers for the future-time rule to matter.
fn gen_now(g: &mut G, t: &Tree) -> u32 {
    t.cfg.genesis.time + (t.cfg.params.pow_target_spacing * g.range(10, 120)) as u32
}

/// Grow a tree of headers, valid and invalid, with `now` as the clock of reference.
fn grow(g: &mut G, t: &mut Tree, now: u32, o: GrowOpts) {
    let n = g.range(o.min, o.max);
    let mut last = t.nodes.len() - 1;
    for _ in 0..n {
        let parent = if g.chance(o.linear, 100) {
            last
        } else if g.chance(1, 3) {
            // Near the last node.
            let back = g.below(6);
            t.ancestor(last, t.nodes[last].height.saturating_sub(back))
        } else {
            g.below(t.nodes.len() as u64) as usize
        };
        let salt = g.below(1 << 16);
        let r = if g.chance(o.invalid, 100) {
            let kind = g.below(6);
            let dt = gen_dt(g, &t.cfg);
            let r = bad_child(g, t, parent, now, kind, dt, salt);
            if r.is_some() {
                g.label("invalid-header");
            }
            r
        } else if o.invalid > 0 && g.chance(1, 40) {
            // As far in the future as allowed.
            t.child_at(parent, (now + MAX_FUTURE).max(t.mtp(parent) + 1), salt)
        } else {
            let dt = gen_dt(g, &t.cfg);
            t.child(parent, dt, salt)
        };
        if let Some(ix) = r {
            let nd = &t.nodes[ix];
            note!(
                g,
                "n{}: parent n{} h={} t=+{} bits={:x} {} {:?}",
                ix,
                parent,
                nd.height,
                nd.header.time as i64 - t.cfg.genesis.time as i64,
                nd.header.bits,
                short(&nd.hash),
                t.valid(ix, now)
            );
            last = ix;
        }
    }
}

fn bad_child(
    g: &mut G,
    t: &mut Tree,
    parent: usize,
    now: u32,
    kind: u64,
    dt: i64,
    salt: u64,
) -> Option<usize> {
    let mtp = t.mtp(parent);
    let good_time = (t.nodes[parent].header.time as i64 + dt).max(mtp as i64 + 1) as u32;
    let bits = t.required_bits(parent, good_time);
    if !t.minable(bits) {
        return None;
    }
    let mut h = match kind {
        // At or before the median time past.
        0 => {
            let time = mtp - g.below(3) as u32;
            let bits = t.required_bits(parent, time);
            if !t.minable(bits) {
                return None;
            }
            t.blank(parent, time, bits, salt)
        }
        // Too far in the future.
        1 => {
            let time = now + MAX_FUTURE + 1 + g.below(3) as u32;
            let bits = t.required_bits(parent, time);
            if !t.minable(bits) {
                return None;
            }
            t.blank(parent, time, bits, salt)
        }
        // Wrong difficulty bits, slightly or grossly.
        2 => {
            let limit = BlockHeader::compact_target_from_u256(&t.cfg.params.pow_limit);
            let parent_bits = t.nodes[parent].header.bits;
            let wrong = *g.pick(&[bits - 1, bits + 1, limit, parent_bits, 0x1f7fffff, bits - 0x100]);
            if wrong == bits || !t.minable(wrong) {
                return None;
            }
            t.blank(parent, good_time, wrong, salt)
        }
        // Above the network's limit.
        3 => {
            let wrong = *g.pick(&[0x207fffff, 0x2007ffff, 0x20040000, 0x2100ffff]);
            if wrong == bits || wrong >= 0x2100_0000 {
                return None;
            }
            t.blank(parent, good_time, wrong, salt)
        }
        // No proof of work.
        _ => {
            let mut h = t.blank(parent, good_time, bits, salt);
            while meets(&h) {
                h.nonce = h.nonce.wrapping_add(1);
            }
            return t.add(parent, h);
        }
    };
    if !mine(&mut h) {
        return None;
    }
    t.add(parent, h)
}

/// Import plan: batches of node indexes.
fn plan(g: &mut G, t: &Tree, max_batch: u64) -> Vec<Vec<usize>> {
    let mut order: Vec<usize> = (1..t.nodes.len()).collect();
    match g.weighted(&[4, 3, 2]) {
        0 => {}
        1 => {
            // Local disorder.
            let k = g.range(1, 10);
            for _ in 0..k {
                if order.len() > 1 {
                    let i = g.below(order.len() as u64 - 1) as usize;
                    order.swap(i, i + 1);
                }
            }
        }
        _ => g.shuffle(&mut order),
    }
    // Duplicates and re-offers.
    let dups = g.below(4);
    for _ in 0..dups {
        let x = *g.pick(&order);
        let at = g.below(order.len() as u64 + 1) as usize;
        order.insert(at, x);
    }
    let mut out = Vec::new();
    let mut i = 0;
    while i < order.len() {
        let k = g.range(1, max_batch) as usize;
        let j = (i + k).min(order.len());
        out.push(order[i..j].to_vec());
        i = j;
    }
    out
}

pub fn chain_of(c: &Cache) -> Vec<BlockHeader> {
    c.iter().map(|(_, h)| h).collect()
}

/// Drive a cache and the reference model through an import plan.
/// `check` is called after each batch with (tree, model, cache, before, result).
fn drive(
    g: &mut G,
    t: &Tree,
    now: u32,
    batches: &[Vec<usize>],
    compare: bool,
    check: &mut dyn FnMut(
        &mut G,
        &Tree,
        &Model,
        &mut Cache,
        &[BlockHeader],
        &Result<ImportResult, Error>,
    ) -> Res,
) -> Res {
    let mut cache = new_cache(t);
    let mut m = Model::new(now);
    for batch in batches {
        if g.chance(1, 25) {
            // Time passes: headers that were too far in the future may become acceptable.
            m.now += g.range(1, 8) as u32;
            note!(g, "clock +{}", m.now - now);
        }
        let clock = LocalTime::from_secs(m.now as u64);
        let before = chain_of(&cache);
        let old_tip = m.tip;
        let res = cache.import_blocks(batch.iter().map(|i| t.nodes[*i].header), &clock);
        let seen = cache.tip().0;
        let seen_ix = t.by_hash.get(&seen).copied();
        ensure!(seen_ix.is_some(), "active tip {} was never offered", seen);

        // Reference.
        let mut aborted = None;
        for (i, ix) in batch.iter().enumerate() {
            let last = i + 1 == batch.len();
            let step = m.offer(t, *ix, seen_ix);
            let _ = last;
            match step {
                Step::Rejected => {
                    aborted = Some(i);
                    g.label("rejected");
                    break;
                }
                Step::Duplicate => g.label("duplicate"),
                Step::Missing => g.label("orphan"),
                Step::Changed => {
                    if !t.path(m.tip).contains(&old_tip) {
                        g.label("reorg");
                    }
                }
                Step::Unchanged => g.label("side-branch"),
            }
        }
        note!(g, "import {:?} -> {} tip {}", batch, res.is_ok(), short(&seen));
        if compare {
            match (&res, aborted) {
                (Ok(_), None) => {}
                (Err(Error::BlockImportAborted(..)), Some(_)) => {}
                (Err(e), None) => fail!("import of {:?} failed on acceptable headers: {}", batch, e),
                (r, a) => fail!(
                    "import of {:?}: header #{:?} breaks the consensus rules but result was {:?}",
                    batch,
                    a,
                    r.is_ok()
                ),
            }
            ensure!(
                seen == t.nodes[m.tip].hash,
                "after import of {:?} the active tip is n{} (work {}) instead of n{} (work {})",
                batch,
                seen_ix.unwrap(),
                t.nodes[seen_ix.unwrap()].work,
                m.tip,
                t.nodes[m.tip].work
            );
        } else {
            m.tip = seen_ix.unwrap();
        }
        check(g, t, &m, &mut cache, &before, &res)?;
    }
    Ok(())
}

fn no_check(
    _: &mut G,
    _: &Tree,
    _: &Model,
    _: &mut Cache,
    _: &[BlockHeader],
    _: &Result<ImportResult, Error>,
) -> Res {
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C01

/// Every header of the active chain is valid against its own ancestors.
fn active_valid(t: &Tree, c: &Cache, now: u32) -> Res {
    let chain = chain_of(c);
    ensure!(chain[0] == t.cfg.genesis, "genesis replaced");
    for w in chain.windows(2) {
        ensure!(w[1].prev_blockhash == w[0].block_hash(), "active chain is not hash-linked");
    }
    for h in &chain {
        let ix = match t.by_hash.get(&h.block_hash()) {
            Some(ix) => *ix,
            None => fail!("active header {} was never offered", h.block_hash()),
        };
        if let Err(e) = t.valid(ix, now) {
            fail!("active chain contains n{} which breaks the {:?} rule against its own ancestors", ix, e);
        }
    }
    Ok(())
}

fn c01_case(g: &mut G, o: GrowOpts, max_batch: u64) -> Res {
    let cfg = gen_cfg(g);
    let mut t = Tree::new(cfg);
    let now = gen_now(g, &t);
    grow(g, &mut t, now, o);
    let batches = plan(g, &t, max_batch);
    drive(g, &t, now, &batches, true, &mut |_, t, m, c, _, _| active_valid(t, c, m.now))?;
    if g.has_label("invalid-header") && t.nodes.len() > 10 {
        g.nontrivial();
    }
    Ok(())
}

fn c01_linear(g: &mut G) -> Res {
    c01_case(g, GrowOpts { min: 12, max: 48, invalid: 12, linear: 92 }, 6)
}
fn c01_forky(g: &mut G) -> Res {
    c01_case(g, GrowOpts { min: 8, max: 40, invalid: 15, linear: 70 }, 4)
}

/// One header at a time onto a long valid chain: accepted exactly when the rules say so; the
/// failing rule is the reported one.
fn c01_tip(g: &mut G) -> Res {
    let cfg = gen_cfg(g);
    let mut t = Tree::new(cfg);
    let now = gen_now(g, &t);
    let mut c = new_cache(&t);
    let clock = LocalTime::from_secs(now as u64);
    let n = g.range(14, 40);
    let mut tip = 0;
    for _ in 0..n {
        let salt = g.below(1 << 16);
        let dt = gen_dt(g, &t.cfg);
        let ix = if g.chance(1, 4) {
            let kind = g.below(6);
            bad_child(g, &mut t, tip, now, kind, dt, salt)
        } else {
            t.child(tip, dt, salt)
        };
        let ix = match ix {
            Some(ix) => ix,
            None => continue,
        };
        let h = t.nodes[ix].header;
        let want = t.valid(ix, now);
        let via_extend = g.bool();
        let res = if via_extend {
            c.extend_tip(h, &clock)
        } else {
            c.import_blocks(std::iter::once(h), &clock)
        };
        note!(g, "h={} t=+{} bits={:x} {:?} -> {:?}", t.nodes[ix].height, h.time as i64 - t.cfg.genesis.time as i64, h.bits, want, res.is_ok());
        match (&want, &res) {
            (Ok(()), Ok(ImportResult::TipChanged { hash, height, .. })) => {
                ensure!(*hash == t.nodes[ix].hash && *height == t.nodes[ix].height, "wrong tip reported");
                tip = ix;
                g.label("accepted");
            }
            (Ok(()), r) => fail!("valid header at height {} not accepted: {:?}", t.nodes[ix].height, r),
            (Err(b), Ok(r)) => fail!("header breaking the {:?} rule accepted: {:?}", b, r),
            (Err(_), Err(_)) => g.label("invalid-header"),
        }
        ensure!(c.tip().0 == t.nodes[tip].hash, "tip moved by a rejected header");
    }
    if g.has_label("invalid-header") && g.has_label("accepted") {
        g.nontrivial();
    }
    active_valid(&t, &c, now)
}

// ---------------------------------------------------------------------------------------------
// C02

fn c02_history(g: &mut G) -> Res {
    let cfg = gen_cfg(g);
    let mut t = Tree::new(cfg);
    let now = gen_now(g, &t);
    let linear = *g.pick(&[60u64, 75, 85]);
    grow(g, &mut t, now, GrowOpts { min: 4, max: 30, invalid: 4, linear });
    let batches = plan(g, &t, 4);
    drive(g, &t, now, &batches, true, &mut |_, t, m, c, _, _| {
        // Reported work is the sum over the active chain.
        let w = c.iter().map(|(_, h)| work_of(&h)).fold(Uint256::from_u64(0).unwrap(), |a, b| a + b);
        ensure!(c.chain_work() == w, "chain work {} differs from the sum {}", c.chain_work(), w);
        ensure!(w == t.nodes[m.tip].work, "chain work of the wrong branch");
        Ok(())
    })?;
    if g.has_label("reorg") {
        g.nontrivial();
    }
    Ok(())
}

/// The same set of valid headers, offered in different orders and batchings, ends on the same
/// best chain (up to the documented first-seen rule on mainnet).
fn c02_orders(g: &mut G) -> Res {
    let cfg = gen_cfg(g);
    let mut t = Tree::new(cfg);
    let now = t.cfg.genesis.time + 200_000;
    grow(g, &mut t, now, GrowOpts { min: 4, max: 24, invalid: 0, linear: 70 });
    let clock = LocalTime::from_secs(now as u64);
    let max = t.nodes.iter().map(|n| n.work).max().unwrap();
    let mut tips = BTreeSet::new();
    for k in 0..3 {
        let mut c = new_cache(&t);
        let batches = if k == 0 {
            vec![(1..t.nodes.len()).collect::<Vec<_>>()]
        } else {
            plan(g, &t, 8)
        };
        for b in &batches {
            if let Err(e) = c.import_blocks(b.iter().map(|i| t.nodes[*i].header), &clock) {
                fail!("valid headers rejected in some order: {}", e);
            }
        }
        note!(g, "order {:?} -> {}", batches, short(&c.tip().0));
        let ix = t.by_hash[&c.tip().0];
        ensure!(t.nodes[ix].work == max, "order {:?} ends on a chain with less work than the best", batches);
        ensure!(chain_of(&c).len() as u64 == t.nodes[ix].height + 1, "chain length");
        tips.insert(c.tip().0);
    }
    let ties = t.nodes.iter().filter(|n| n.work == max).count();
    if t.cfg.params.network != nakamoto_common::bitcoin::Network::Bitcoin {
        ensure!(tips.len() == 1, "the final chain depends on the order of imports: {:?}", tips);
    }
    if ties > 1 {
        g.label("equal-work-tips");
    }
    if t.nodes.iter().any(|n| t.nodes.iter().filter(|m| m.parent == t.by_hash[&n.hash] && m.height > 0).count() > 1) {
        g.label("has-fork");
        g.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C03

fn c03_check(
    g: &mut G,
    _t: &Tree,
    _m: &Model,
    c: &mut Cache,
    before: &[BlockHeader],
    res: &Result<ImportResult, Error>,
) -> Res {
    let after = chain_of(c);
    let common = before.iter().zip(after.iter()).take_while(|(a, b)| a == b).count();
    match res {
        Ok(ImportResult::TipUnchanged) => {
            ensure!(before == &after[..], "import reported an unchanged tip but the active chain changed");
        }
        Ok(ImportResult::TipChanged { header, hash, height, reverted, connected }) => {
            ensure!(before != &after[..], "import reported a new tip but nothing changed");
            ensure!(*header == *after.last().unwrap(), "reported tip header is not the tip");
            ensure!(*hash == header.block_hash(), "reported tip hash does not match");
            ensure!(*height as usize == after.len() - 1, "reported tip height does not match");
            let want_rev: Vec<(u64, BlockHeader)> =
                (common..before.len()).rev().map(|h| (h as u64, before[h])).collect();
            let want_con: Vec<(u64, BlockHeader)> =
                (common..after.len()).map(|h| (h as u64, after[h])).collect();
            ensure!(
                *reverted == want_rev,
                "reverted headers {:?} are not exactly the ones that left the chain {:?} (tip first)",
                reverted.iter().map(|x| x.0).collect::<Vec<_>>(),
                want_rev.iter().map(|x| x.0).collect::<Vec<_>>()
            );
            let con: Vec<_> = connected.iter().cloned().collect();
            ensure!(
                con == want_con,
                "connected headers {:?} are not exactly the ones that joined the chain {:?}",
                con.iter().map(|x| x.0).collect::<Vec<_>>(),
                want_con.iter().map(|x| x.0).collect::<Vec<_>>()
            );
            if !want_rev.is_empty() {
                g.label("batch-with-reorg");
                g.nontrivial();
            }
        }
        Err(Error::BlockImportAborted(_, _, h)) => {
            ensure!(*h as usize == after.len() - 1, "aborted import reports a wrong height");
            g.label("aborted");
        }
        Err(e) => fail!("unexpected error {}", e),
    }
    Ok(())
}

fn c03_batches(g: &mut G) -> Res {
    let cfg = gen_cfg(g);
    let mut t = Tree::new(cfg);
    let now = t.cfg.genesis.time + 200_000;
    let linear = *g.pick(&[55u64, 70, 85]);
    grow(g, &mut t, now, GrowOpts { min: 4, max: 28, invalid: 3, linear });
    let mb = *g.pick(&[3u64, 8, 30]);
    let batches = plan(g, &t, mb);
    drive(g, &t, now, &batches, false, &mut c03_check)
}

/// Several branches imported interleaved in a few batches: the chain flips back and forth inside
/// one batch.
fn c03_flip(g: &mut G) -> Res {
    let (t, now, batches) = if g.chance(1, 40) { flip(g, 50, 20, 30) } else { flip(g, 7, 3, 12) };
    drive(g, &t, now, &batches, false, &mut c03_check)
}

/// Long branches that overtake each other.
fn c02_deep(g: &mut G) -> Res {
    let (t, now, batches) = flip(g, 60, 25, 30);
    drive(g, &t, now, &batches, true, &mut |_, t, m, c, _, _| {
        ensure!(c.chain_work() == t.nodes[m.tip].work, "chain work of the wrong branch");
        Ok(())
    })?;
    if g.has_label("reorg") {
        g.nontrivial();
    }
    Ok(())
}

/// Branches from a common root, in batches.
fn flip(g: &mut G, max_len: u64, max_run: u64, max_batch: u64) -> (Tree, u32, Vec<Vec<usize>>) {
    let cfg = if g.bool() { cfg_regtest() } else { cfg_mindiff(8, 3) };
    let mut t = Tree::new(cfg);
    let now = t.cfg.genesis.time + 200_000;
    let spacing = t.cfg.params.pow_target_spacing as i64;
    let spacing = spacing.min(10);
    let mut root = 0;
    for _ in 0..g.below(4) {
        root = t.child(root, spacing, 0).unwrap_or(root);
    }
    let k = g.usize(2, 3);
    let mut branches = vec![Vec::new(); k];
    for (b, branch) in branches.iter_mut().enumerate() {
        let n = g.range(1, max_len);
        let mut p = root;
        for _ in 0..n {
            match t.child(p, spacing, b as u64 + 1) {
                Some(ix) => {
                    p = ix;
                    branch.push(ix);
                }
                None => break,
            }
        }
    }
    let mut order: Vec<usize> = t.path(root)[1..].to_vec();
    let mut pos = vec![0; k];
    loop {
        let live: Vec<usize> = (0..k).filter(|b| pos[*b] < branches[*b].len()).collect();
        if live.is_empty() {
            break;
        }
        let b = *g.pick(&live);
        let run = g.range(1, max_run);
        for _ in 0..run {
            if pos[b] < branches[b].len() {
                order.push(branches[b][pos[b]]);
                pos[b] += 1;
            }
        }
    }
    let mut batches = Vec::new();
    let mut i = 0;
    while i < order.len() {
        let n = g.range(1, max_batch) as usize;
        let j = (i + n).min(order.len());
        batches.push(order[i..j].to_vec());
        i = j;
    }
    note!(g, "branches {:?} from n{}", branches, root);
    (t, now, batches)
}

// ---------------------------------------------------------------------------------------------
// C04

fn c04_queries(
    g: &mut G,
    t: &Tree,
    m: &Model,
    c: &mut Cache,
    _before: &[BlockHeader],
    _res: &Result<ImportResult, Error>,
) -> Res {
    let active = m.active(t);
    let hs: Vec<BlockHeader> = active.iter().map(|i| t.nodes[*i].header).collect();
    let hashes: Vec<BlockHash> = active.iter().map(|i| t.nodes[*i].hash).collect();
    let top = hs.len() as u64 - 1;

    ensure!(c.height() == top, "height {} but the chain has {} headers", c.height(), hs.len());
    ensure!(c.tip() == (hashes[top as usize], hs[top as usize]), "tip() differs");
    ensure!(c.best_block() == (top, &hs[top as usize]), "best_block() differs");
    ensure!(*c.genesis() == hs[0], "genesis() differs");
    ensure!(c.chain().collect::<Vec<_>>() == hs, "chain() differs");
    let fwd: Vec<_> = c.iter().collect();
    ensure!(
        fwd == hs.iter().enumerate().map(|(i, h)| (i as u64, *h)).collect::<Vec<_>>(),
        "iter() differs"
    );
    let mut back: Vec<_> = c.iter().rev().collect();
    back.reverse();
    ensure!(back == fwd, "reverse iteration differs from forward iteration");
    // Mixed-ends iteration visits each block once.
    {
        let mut it = c.iter();
        let mut front = Vec::new();
        let mut rear = Vec::new();
        loop {
            if g.bool() {
                match it.next() {
                    Some(x) => front.push(x),
                    None => break,
                }
            } else {
                match it.next_back() {
                    Some(x) => rear.push(x),
                    None => break,
                }
            }
        }
        rear.reverse();
        front.extend(rear);
        ensure!(front == fwd, "iterating from both ends skips or repeats headers");
    }
    for (i, h) in hs.iter().enumerate() {
        ensure!(c.get_block_by_height(i as u64) == Some(h), "get_block_by_height({}) differs", i);
        ensure!(c.get_block(&hashes[i]) == Some((i as u64, h)), "get_block at height {} differs", i);
    }
    ensure!(c.get_block_by_height(top + 1).is_none(), "block above the tip");
    let a = g.range(0, top + 1);
    let b = g.range(a, top + 3);
    let r: Vec<_> = c.range(a..b).collect();
    let want: Vec<_> = (a..b.min(top + 1)).map(|h| (h, hashes[h as usize])).collect();
    ensure!(r == want, "range({}..{}) differs", a, b);

    let set: BTreeSet<usize> = active.iter().copied().collect();
    for ix in 0..t.nodes.len() {
        let n = &t.nodes[ix];
        let on = set.contains(&ix);
        ensure!(c.contains(&n.hash) == on, "contains(n{}) is {}", ix, !on);
        ensure!(c.is_known(&n.hash) == m.known.contains(&ix), "is_known(n{}) differs", ix);
        if !on {
            ensure!(c.get_block(&n.hash).is_none(), "get_block(n{}) returns a block off the active chain", ix);
        }
        // Branch to any known block.
        let got = c.find_branch(&n.hash).map(|(h, v)| (h, v.iter().cloned().collect::<Vec<_>>()));
        let want = if on {
            Some((n.height, vec![n.header]))
        } else if m.known.contains(&ix) {
            let mut v = vec![];
            let mut i = ix;
            let mut ok = true;
            while !set.contains(&i) {
                if !m.known.contains(&i) {
                    ok = false;
                    break;
                }
                v.push(t.nodes[i].header);
                i = t.nodes[i].parent;
            }
            if ok {
                v.push(t.nodes[i].header);
                v.reverse();
                g.label("stale-branch-query");
                Some((t.nodes[i].height, v))
            } else {
                None
            }
        } else {
            None
        };
        ensure!(got == want, "find_branch(n{}) differs", ix);
    }

    // Locators: from the given height down to the last checkpoint, gaps growing at most
    // exponentially, so that a common ancestor is always found close by.
    let cp = m.last_checkpoint(t);
    for from in [top, g.range(0, top)] {
        let loc = c.locator_hashes(from);
        let mut hts = Vec::new();
        for l in &loc {
            match hashes.iter().position(|h| h == l) {
                Some(p) => hts.push(p as u64),
                None => fail!("locator hash not on the active chain"),
            }
        }
        ensure!(hts.windows(2).all(|w| w[0] > w[1]), "locators not strictly descending");
        if from >= cp {
            ensure!(hts.first() == Some(&from), "locators do not start at the given height");
            ensure!(hts.iter().all(|h| *h >= cp), "locators reach below the last checkpoint");
            if cp == 0 {
                ensure!(hts.last() == Some(&0), "locators do not reach genesis");
            }
            for (i, w) in hts.windows(2).enumerate() {
                let gap = w[0] - w[1];
                if i < 7 {
                    ensure!(gap == 1, "locators skip recent blocks");
                }
                ensure!(gap <= (from - w[0]).max(1) * 2, "locator gap {} at distance {}", gap, from - w[0]);
            }
        }
    }

    // Header location.
    for _ in 0..4 {
        let unknown = |g: &mut G| BlockHash::from_inner({
            let mut b = [9u8; 32];
            b[0] = g.u8();
            b
        });
        let nloc = if g.chance(1, 6) { g.below(120) } else { g.below(4) };
        let far = g.bool();
        let mut locs = Vec::new();
        for _ in 0..nloc {
            let l = match if nloc > 4 && far && locs.len() as u64 + 2 < nloc { 0 } else { g.below(4) } {
                0 => unknown(g),
                1 => t.nodes[g.below(t.nodes.len() as u64) as usize].hash,
                _ => *g.pick(&hashes),
            };
            locs.push(l);
        }
        let stop = match g.below(5) {
            0 => t.nodes[g.below(t.nodes.len() as u64) as usize].hash,
            1 => unknown(g),
            2 => BlockHash::all_zeros(),
            _ => *g.pick(&hashes),
        };
        let max = *g.pick(&[0usize, 1, 2, 3, 5, 2000]);
        let got = c.locate_headers(&locs, stop, max);
        let stop_h = hashes.iter().position(|h| *h == stop);
        let want: Vec<BlockHeader> = if locs.is_empty() {
            stop_h.map(|h| vec![hs[h]]).unwrap_or_default()
        } else {
            let start = locs.iter().find_map(|l| hashes.iter().position(|h| h == l)).unwrap_or(0) + 1;
            let end = stop_h.unwrap_or(top as usize) + 1;
            hs[start.min(hs.len())..end.max(start).min(hs.len())].iter().take(max).cloned().collect()
        };
        ensure!(
            got == want,
            "locate_headers({} locators, max {}) returned {} headers instead of {}",
            locs.len(),
            max,
            got.len(),
            want.len()
        );
    }
    // Median time past of every height.
    for h in 1..=top + 1 {
        ensure!(
            c.median_time_past(h) == t.mtp(active[h as usize - 1]),
            "median_time_past({}) differs",
            h
        );
    }
    Ok(())
}

fn c04_case(g: &mut G) -> Res {
    let cfg = gen_cfg(g);
    let mut t = Tree::new(cfg);
    let now = t.cfg.genesis.time + 200_000;
    let (min, max) = if g.chance(1, 5) { (30, 60) } else { (3, 25) };
    grow(g, &mut t, now, GrowOpts { min, max, invalid: 3, linear: 80 });
    if g.chance(1, 4) && t.nodes.len() > 4 {
        let ix = g.usize(1, t.nodes.len() - 1);
        for i in t.path(ix) {
            if i != 0 && g.chance(1, 4) {
                t.checkpoints.insert(t.nodes[i].height, t.nodes[i].hash);
            }
        }
    }
    let batches = plan(g, &t, 10);
    drive(g, &t, now, &batches, true, &mut c04_queries)?;
    if g.has_label("stale-branch-query") {
        g.nontrivial();
    }
    Ok(())
}

/// The active chain held by the tree is the one that is stored: reloading gives the same tree.
fn c04_long(g: &mut G) -> Res {
    // Long regtest chains: locators and ranges far from the tip.
    let mut t = Tree::new(cfg_regtest());
    let n = g.range(40, 260);
    let mut p = 0;
    for _ in 0..n {
        p = t.child(p, 600, 1).unwrap();
    }
    let now = t.nodes[p].header.time;
    let clock = LocalTime::from_secs(now as u64);
    let mut c = new_cache(&t);
    c.import_blocks(t.nodes[1..].iter().map(|n| n.header), &clock).map_err(|e| crate::pbt::Fail {
        msg: format!("valid chain rejected: {}", e),
    })?;
    let mut m = Model::new(now);
    m.tip = p;
    m.known = (0..t.nodes.len()).collect();
    note!(g, "linear chain of {} headers", n);
    g.nontrivial();
    c04_queries(g, &t, &m, &mut c, &[], &Ok(ImportResult::TipUnchanged))
}

// ---------------------------------------------------------------------------------------------
// C05

fn c05_case(g: &mut G) -> Res {
    let cfg = gen_cfg(g);
    let mut t = Tree::new(cfg);
    let now = t.cfg.genesis.time + 200_000;
    let linear = *g.pick(&[70u64, 80, 88]);
    grow(g, &mut t, now, GrowOpts { min: 6, max: 30, invalid: 0, linear });
    // Checkpoints along some path (usually the best one).
    let end = if g.chance(3, 4) {
        (0..t.nodes.len()).max_by_key(|i| t.nodes[*i].height).unwrap()
    } else {
        g.below(t.nodes.len() as u64) as usize
    };
    let path = t.path(end);
    let k = g.range(1, 3);
    for _ in 0..k {
        if path.len() > 1 {
            let i = path[g.usize(1, path.len() - 1)];
            t.checkpoints.insert(t.nodes[i].height, t.nodes[i].hash);
        }
    }
    note!(g, "checkpoints {:?}", t.checkpoints.keys().collect::<Vec<_>>());
    let batches = plan(g, &t, 4);
    let mut frozen: Vec<BlockHeader> = Vec::new();
    drive(g, &t, now, &batches, true, &mut |g, t, _m, c, _b, _r| {
        let after = chain_of(c);
        for (h, cp) in &t.checkpoints {
            if let Some(b) = after.get(*h as usize) {
                ensure!(b.block_hash() == *cp, "active block at checkpoint height {} is not the checkpoint", h);
            }
        }
        ensure!(
            after.len() >= frozen.len() && after[..frozen.len()] == frozen[..],
            "history at or below a reached checkpoint was replaced"
        );
        let last = t.checkpoints.range(..after.len() as u64).next_back().map(|(h, _)| *h).unwrap_or(0);
        ensure!(c.last_checkpoint() == last, "last_checkpoint() is {} instead of {}", c.last_checkpoint(), last);
        if last > 0 {
            g.label("checkpoint-reached");
        }
        frozen = after[..=last as usize].to_vec();
        Ok(())
    })?;
    if g.has_label("checkpoint-reached") && (g.has_label("rejected") || g.has_label("reorg")) {
        g.nontrivial();
    }
    Ok(())
}

/// A branch that was learned before the checkpoint was reached, and that overtakes it afterwards
/// thanks to more work per block, while staying below the checkpoint's height.
fn c05_heavy(g: &mut G) -> Res {
    let interval = *g.pick(&[4u64, 5]);
    let cfg = cfg_retarget(if g.bool() { nakamoto_common::bitcoin::Network::Regtest } else { nakamoto_common::bitcoin::Network::Bitcoin }, interval, 4);
    let mut t = Tree::new(cfg);
    let now = t.cfg.genesis.time + 50_000;
    // Slow main chain (low difficulty) and fast side chain (high difficulty).
    let root_len = g.below(3);
    let mut root = 0;
    for _ in 0..root_len {
        root = t.child(root, 4, 0).unwrap_or(root);
    }
    let mut main = vec![];
    let mut p = root;
    for _ in 0..g.range(6, 16) {
        let dt = g.range(8, 30) as i64;
        if let Some(ix) = t.child(p, dt, 1) {
            p = ix;
            main.push(ix);
        }
    }
    let mut side = vec![];
    let mut p = root;
    for _ in 0..g.range(4, 14) {
        let dt = g.range(0, 2) as i64;
        match t.child(p, dt, 2) {
            Some(ix) => {
                p = ix;
                side.push(ix);
            }
            None => break,
        }
    }
    if main.is_empty() {
        return Ok(());
    }
    let cp = main[g.usize(0, main.len() - 1)];
    t.checkpoints.insert(t.nodes[cp].height, t.nodes[cp].hash);
    // Import: root, a bit of both, then main, then the rest of side.
    let mut order: Vec<usize> = t.path(root)[1..].to_vec();
    let a = g.usize(0, side.len());
    let b = g.usize(0, main.len());
    order.extend(&main[..b]);
    order.extend(&side[..a]);
    order.extend(&main[b..]);
    order.extend(&side[a..]);
    note!(g, "main {} side {} cp at h{}", main.len(), side.len(), t.nodes[cp].height);
    let batches: Vec<Vec<usize>> = order.iter().map(|i| vec![*i]).collect();
    let mut frozen: Vec<BlockHeader> = Vec::new();
    drive(g, &t, now, &batches, true, &mut |g, t, _m, c, _b, _r| {
        let after = chain_of(c);
        ensure!(
            after.len() >= frozen.len() && after[..frozen.len()] == frozen[..],
            "history at or below a reached checkpoint was replaced"
        );
        let last = t.checkpoints.range(..after.len() as u64).next_back().map(|(h, _)| *h).unwrap_or(0);
        if last > 0 {
            g.label("checkpoint-reached");
        }
        frozen = after[..=last as usize].to_vec();
        Ok(())
    })?;
    if !side.is_empty() && t.nodes[*side.last().unwrap()].work > t.nodes[*main.last().unwrap()].work {
        g.label("heavier-side-branch");
        g.nontrivial();
    }
    Ok(())
}

const ASSUME: &[&str] = &[
    "header hashing, target arithmetic and 256-bit integers of the bitcoin crate are trusted",
    "retarget intervals of 4 to 14 blocks and proof-of-work limits near 2^250..2^255 stand for the real parameters",
];

pub static PROPS: &[Property] = &[
    Property {
        id: "C01",
        level: "exploration",
        rule: "a case grows a tree of headers (valid ones, and ones breaking exactly one of the median-time, future-time, difficulty, limit or proof-of-work rules at its boundary) on one of four kinds of network and offers them in some order and batching; non-trivial: at least one rule-breaking header was offered next to accepted ones",
        strategies: &[
            Strategy { name: "tip", quick: 12000, thorough: 400000, case: c01_tip },
            Strategy { name: "linear", quick: 5000, thorough: 200000, case: c01_linear },
            Strategy { name: "forks", quick: 7000, thorough: 300000, case: c01_forky },
        ],
        assumptions: ASSUME,
        known: &[],
    },
    Property {
        id: "C02",
        level: "exploration",
        rule: "a case grows a tree of mostly valid headers with forks and offers it in some order and batching (disorder, orphans, duplicates); non-trivial: the history contains a reorganisation (history), or a fork (orders)",
        strategies: &[
            Strategy { name: "history", quick: 20000, thorough: 800000, case: c02_history },
            Strategy { name: "orders", quick: 15000, thorough: 600000, case: c02_orders },
            Strategy { name: "deep", quick: 500, thorough: 60000, case: c02_deep },
        ],
        assumptions: ASSUME,
        known: &[],
    },
    Property {
        id: "C03",
        level: "exploration",
        rule: "a case offers batches mixing several branches; the reported result of every batch is compared with the difference between the active chains before and after; non-trivial: some batch reverted headers",
        strategies: &[
            Strategy { name: "batches", quick: 20000, thorough: 800000, case: c03_batches },
            Strategy { name: "flip", quick: 30000, thorough: 1200000, case: c03_flip },
        ],
        assumptions: ASSUME,
        known: &[],
    },
    Property {
        id: "C04",
        level: "exploration",
        rule: "after every batch of a generated import history all queries are compared with the reference chain; non-trivial: known headers outside the active chain were queried, or the chain is long enough for sparse locators",
        strategies: &[
            Strategy { name: "queries", quick: 9000, thorough: 300000, case: c04_case },
            Strategy { name: "long", quick: 1500, thorough: 30000, case: c04_long },
        ],
        assumptions: ASSUME,
        known: &[],
    },
    Property {
        id: "C05",
        level: "exploration",
        rule: "as C02 with checkpoints placed on one path of the tree; non-trivial: a checkpoint was reached and a competing header was offered, or a heavier branch below the checkpoint exists",
        strategies: &[
            Strategy { name: "forks", quick: 20000, thorough: 800000, case: c05_case },
            Strategy { name: "heavy", quick: 9000, thorough: 300000, case: c05_heavy },
        ],
        assumptions: ASSUME,
        known: &[],
    },
];
