//! C06 header stores, C07 crash recovery, C08 filter header chain, C23 peer store.
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::fs;
use std::net;
use std::path::Path;

use nakamoto_chain::block::cache::BlockCache;
use nakamoto_chain::block::store::{File, Memory};
use nakamoto_chain::filter::cache::{FilterCache, StoredHeader};
use nakamoto_client::peer::{self, KnownAddress, Source};
use nakamoto_common::bitcoin::blockdata::block::BlockHeader;
use nakamoto_common::bitcoin::consensus::{Decodable, Encodable};
use nakamoto_common::bitcoin::hash_types::{BlockHash, FilterHash, FilterHeader, TxMerkleNode};
use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin_hashes::{sha256d, Hash as _};
use nakamoto_common::block::filter::Filters;
use nakamoto_common::block::store::{Error, Genesis, Store};
use nakamoto_common::block::time::LocalTime;
use nakamoto_common::block::tree::{BlockReader, BlockTree};
use nakamoto_common::network::Network;
use nakamoto_common::nonempty::NonEmpty;
use nakamoto_common::p2p::peer::Store as _;

use crate::chainsim::*;
use crate::pbt::{Fail, Property, Res, Strategy, G};
use crate::scratch::Scratch;
use crate::{ensure, fail, note};

fn er<E: std::fmt::Display>(what: &str) -> impl FnOnce(E) -> Fail + '_ {
    move |e| Fail { msg: format!("{}: {}", what, e) }
}

trait Hdr: Copy + 'static + Encodable + Decodable + Genesis + Debug {
    fn gen(g: &mut G) -> Self;
    fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::new();
        self.consensus_encode(&mut v).unwrap();
        v
    }
}

fn h32(g: &mut G) -> [u8; 32] {
    let mut b = [0u8; 32];
    match g.below(4) {
        0 => {}
        1 => b = [0xff; 32],
        _ => {
            for c in b.chunks_mut(8) {
                c.copy_from_slice(&g.u64().to_le_bytes());
            }
        }
    }
    b
}

impl Hdr for BlockHeader {
    fn gen(g: &mut G) -> Self {
        BlockHeader {
            version: g.u32() as i32,
            prev_blockhash: BlockHash::from_inner(h32(g)),
            merkle_root: TxMerkleNode::from_inner(h32(g)),
            time: g.u32(),
            bits: g.u32(),
            nonce: g.u32(),
        }
    }
}

impl Hdr for StoredHeader {
    fn gen(g: &mut G) -> Self {
        StoredHeader { hash: FilterHash::from_inner(h32(g)), header: FilterHeader::from_inner(h32(g)) }
    }
}

fn check_store<H: Hdr, S: Store<Header = H>>(g: &mut G, s: &S, model: &[H]) -> Res {
    let n = model.len();
    ensure!(s.genesis().bytes() == model[0].bytes(), "genesis differs");
    let len = s.len().map_err(er("len"))?;
    ensure!(len == n, "store length is {} instead of {}", len, n);
    let height = s.height().map_err(er("height"))?;
    ensure!(height == n as u64 - 1, "store height is {} instead of {}", height, n - 1);
    s.check().map_err(er("integrity check of an intact store"))?;
    for _ in 0..3 {
        let h = match g.below(4) {
            0 => n as u64 - 1,
            1 => g.range(0, n as u64 + 3),
            2 => n as u64,
            _ => g.below(n as u64),
        };
        match (s.get(h), model.get(h as usize)) {
            (Ok(a), Some(b)) => ensure!(a.bytes() == b.bytes(), "get({}) returns another header", h),
            (Err(_), None) => {}
            (Ok(_), None) => fail!("get({}) returned a header beyond the end", h),
            (Err(e), Some(_)) => fail!("get({}) failed: {}", h, e),
        }
    }
    Ok(())
}

fn check_iter<H: Hdr, S: Store<Header = H>>(g: &mut G, s: &S, model: &[H], interleave: bool) -> Res {
    let mut it = s.iter();
    let mut k = 0u64;
    while let Some(r) = it.next() {
        let (h, x) = r.map_err(er("iteration"))?;
        ensure!(h == k, "iteration yields height {} instead of {}", h, k);
        ensure!((k as usize) < model.len(), "iteration yields too many headers");
        ensure!(x.bytes() == model[k as usize].bytes(), "iteration yields another header at {}", k);
        k += 1;
        if interleave && g.chance(1, 8) {
            // Reads in between do not disturb a running iteration.
            let q = g.below(model.len() as u64);
            let y = s.get(q).map_err(er("get during iteration"))?;
            ensure!(y.bytes() == model[q as usize].bytes(), "get({}) during iteration differs", q);
        }
    }
    ensure!(k as usize == model.len(), "iteration yields {} of {} headers", k, model.len());
    Ok(())
}

fn batch_len(g: &mut G) -> u64 {
    match g.weighted(&[5, 3, 2, 1]) {
        0 => g.range(1, 3),
        1 => g.range(14, 18),
        2 => g.range(30, 34),
        _ => 0,
    }
}

fn c06_model<H: Hdr>(g: &mut G, file: bool) -> Res {
    let dir = if file { Some(Scratch::new()) } else { None };
    let genesis = H::genesis(Network::Regtest);
    let path = dir.as_ref().map(|d| d.join("headers.db"));
    enum S<H> {
        F(File<H>),
        M(Memory<H>),
    }
    let mut st = match &path {
        Some(p) => S::F(if g.bool() { File::open(p, genesis).map_err(er("open"))? } else { File::create(p, genesis).map_err(er("create"))? }),
        None => S::M(Memory::new(NonEmpty::new(genesis))),
    };
    let mut model = vec![genesis];
    let steps = g.range(1, 14);
    macro_rules! with {
        ($s:ident => $e:expr) => {
            match &mut st {
                S::F($s) => $e,
                S::M($s) => $e,
            }
        };
    }
    for _ in 0..steps {
        match g.weighted(&[6, 3, 2, 3, 1, 2]) {
            0 => {
                let n = batch_len(g);
                let hs: Vec<H> = (0..n).map(|_| H::gen(g)).collect();
                let h = with!(s => s.put(hs.iter().cloned())).map_err(er("put"))?;
                model.extend(&hs);
                note!(g, "put {} -> {}", n, h);
                ensure!(h == model.len() as u64 - 1, "put returned height {} instead of {}", h, model.len() - 1);
                if model.len() > 17 {
                    g.label("multi-batch");
                }
            }
            1 => {
                let h = g.below(model.len() as u64);
                note!(g, "rollback {}", h);
                with!(s => s.rollback(h)).map_err(er("rollback"))?;
                if h + 1 < model.len() as u64 {
                    g.label("rollback");
                }
                model.truncate(h as usize + 1);
            }
            2 => with!(s => s.sync()).map_err(er("sync"))?,
            3 => {
                if let Some(p) = &path {
                    note!(g, "reopen");
                    drop(std::mem::replace(&mut st, S::M(Memory::new(NonEmpty::new(genesis)))));
                    if g.chance(1, 4) {
                        ensure!(File::create(p, genesis).is_err(), "an existing store was created anew");
                    }
                    st = S::F(File::open(p, genesis).map_err(er("reopen"))?);
                    g.label("reopen");
                }
            }
            4 => with!(s => s.heal()).map_err(er("heal"))?,
            _ => with!(s => check_iter(g, s, &model, true))?,
        }
        with!(s => check_store(g, s, &model))?;
    }
    with!(s => check_iter(g, s, &model, false))?;
    for h in 0..model.len() as u64 {
        let x = with!(s => s.get(h)).map_err(er("get"))?;
        ensure!(x.bytes() == model[h as usize].bytes(), "get({}) differs", h);
    }
    if g.has_label("rollback") && model.len() > 1 {
        g.nontrivial();
    }
    Ok(())
}

fn c06_file_block(g: &mut G) -> Res {
    c06_model::<BlockHeader>(g, true)
}
fn c06_file_filter(g: &mut G) -> Res {
    c06_model::<StoredHeader>(g, true)
}
fn c06_memory(g: &mut G) -> Res {
    if g.bool() {
        c06_model::<BlockHeader>(g, false)
    } else {
        c06_model::<StoredHeader>(g, false)
    }
}

/// What the tree keeps in its store is the active chain, at all times, and reloading the store
/// gives the same tree.
fn c06_tree(g: &mut G) -> Res {
    let dir = Scratch::new();
    let path = dir.join("headers.db");
    let mut t = Tree::new(cfg_regtest());
    let now = t.cfg.genesis.time + 200_000;
    let clock = LocalTime::from_secs(now as u64);
    gen_tree(g, &mut t, 3, 40);
    let mut c = open_tree(&path, &t).map_err(er("open"))?;
    let mut ix = 1;
    let mut tips = vec![0usize];
    while ix < t.nodes.len() {
        let n = g.range(1, 6).min((t.nodes.len() - ix) as u64) as usize;
        let via_extend = n == 1 && t.nodes[ix].parent == *tips.last().unwrap() && g.bool();
        if via_extend {
            c.extend_tip(t.nodes[ix].header, &clock).map_err(er("extend"))?;
        } else {
            c.import_blocks(t.nodes[ix..ix + n].iter().map(|n| n.header), &clock).map_err(er("import"))?;
        }
        let tip = t.by_hash[&c.tip().0];
        if !t.path(tip).contains(tips.last().unwrap()) {
            g.label("reorg");
        }
        tips.push(tip);
        ix += n;
        note!(g, "import {} headers -> height {}", n, c.height());
        let raw: Vec<u8> = t.path(tip)[1..].iter().flat_map(|i| t.nodes[*i].header.bytes()).collect();
        let disk = fs::read(&path).unwrap();
        ensure!(disk.len() == raw.len(), "store holds {} headers while the active chain has {}", disk.len() / 80, raw.len() / 80);
        ensure!(disk == raw, "store content differs from the active chain");
        if g.chance(1, 3) {
            let work = c.chain_work();
            let chain: Vec<_> = c.iter().collect();
            drop(c);
            c = open_tree(&path, &t).map_err(er("reload"))?;
            ensure!(c.iter().collect::<Vec<_>>() == chain, "reloaded chain differs");
            ensure!(c.chain_work() == work, "reloaded chain work differs");
            ensure!(c.tip().0 == t.nodes[tip].hash && c.height() == t.nodes[tip].height, "reloaded tip differs");
            for (h, b) in &chain {
                ensure!(c.get_block(&b.block_hash()).map(|(x, y)| (x, *y)) == Some((*h, *b)), "reloaded index differs at {}", h);
            }
            g.label("reload");
            // Side branches are not stored: offer them again.
            for n in &t.nodes[1..ix] {
                c.import_blocks(std::iter::once(n.header), &clock).map_err(er("re-import"))?;
            }
            ensure!(c.tip().0 == t.nodes[tip].hash, "tip differs after re-import");
        }
    }
    if g.has_label("reorg") && g.has_label("reload") {
        g.nontrivial();
    }
    Ok(())
}

/// Thousands of headers at once.
fn c06_bulk(g: &mut G) -> Res {
    let dir = Scratch::new();
    let path = dir.join("headers.db");
    let genesis = StoredHeader::genesis(Network::Regtest);
    let mut st = File::open(&path, genesis).map_err(er("open"))?;
    let mut model = vec![genesis];
    for _ in 0..g.range(2, 6) {
        match g.below(3) {
            0 if model.len() > 1 => {
                let h = g.below(model.len() as u64);
                st.rollback(h).map_err(er("rollback"))?;
                model.truncate(h as usize + 1);
                g.label("rollback");
            }
            _ => {
                let n = g.range(100, 5000);
                let seed = StoredHeader::gen(g);
                let hs: Vec<StoredHeader> = (0..n)
                    .map(|i| {
                        let mut b = seed.header.into_inner();
                        b[..8].copy_from_slice(&i.to_le_bytes());
                        StoredHeader { hash: FilterHash::from_inner(b), header: FilterHeader::from_inner(b) }
                    })
                    .collect();
                let h = st.put(hs.iter().cloned()).map_err(er("put"))?;
                model.extend(&hs);
                note!(g, "put {} -> {}", n, h);
                ensure!(h == model.len() as u64 - 1, "put returned height {} instead of {}", h, model.len() - 1);
            }
        }
        if g.chance(1, 3) {
            drop(st);
            st = File::open(&path, genesis).map_err(er("reopen"))?;
            st.heal().map_err(er("heal"))?;
        }
        check_iter(g, &st, &model, false)?;
        check_store(g, &mut st, &model)?;
    }
    if model.len() > 2000 && g.has_label("rollback") {
        g.nontrivial();
    }
    Ok(())
}

pub fn open_tree(path: &Path, t: &Tree) -> Result<BlockCache<File<BlockHeader>>, String> {
    let s = File::open(path, t.cfg.genesis).map_err(|e| e.to_string())?;
    BlockCache::from(s, t.cfg.params.clone(), &[]).map_err(|e| e.to_string())
}

/// A tree of valid headers with forks.
pub fn gen_tree(g: &mut G, t: &mut Tree, min: u64, max: u64) {
    let n = g.range(min, max);
    let mut last = t.nodes.len() - 1;
    for _ in 0..n {
        let parent = if g.chance(8, 10) {
            last
        } else {
            let back = g.range(1, 6);
            t.ancestor(last, t.nodes[last].height.saturating_sub(back))
        };
        let dt = *g.pick(&[600i64, 60, 1200]);
        if let Some(ix) = t.child(parent, dt, 0) {
            last = ix;
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C07

/// Cut a store's file at any byte, as an interrupted write would.
fn c07_cut<H: Hdr>(g: &mut G) -> Res {
    let dir = Scratch::new();
    let p = dir.join("store.db");
    let genesis = H::genesis(Network::Regtest);
    let size = genesis.bytes().len() as u64;
    let n = g.range(0, 40);
    let hs: Vec<H> = (0..n).map(|_| H::gen(g)).collect();
    let mut model = vec![genesis];
    model.extend(&hs);
    {
        let mut s = File::open(&p, genesis).map_err(er("open"))?;
        s.put(hs.iter().cloned()).map_err(er("put"))?;
    }
    let rounds = g.range(1, 3);
    for _ in 0..rounds {
        let len = fs::metadata(&p).unwrap().len();
        let cut = match g.below(3) {
            0 => g.below(len + 1),
            1 => (g.below(len / size + 1) * size).min(len),
            _ => len.saturating_sub(g.below(2 * size)),
        };
        fs::OpenOptions::new().write(true).open(&p).unwrap().set_len(cut).unwrap();
        note!(g, "cut {} of {} bytes", cut, len);
        let whole = (cut / size) as usize;
        let torn = cut % size != 0;
        model.truncate(whole + 1);
        let mut s = File::open(&p, genesis).map_err(er("open after crash"))?;
        if torn {
            g.label("torn");
            ensure!(matches!(s.check(), Err(Error::Corruption)), "a torn record is not detected");
            ensure!(s.len().is_err() && s.height().is_err(), "length of a torn store is reported");
            // Iteration never invents headers.
            let mut k = 0;
            for r in s.iter() {
                match r {
                    Ok((h, x)) => {
                        ensure!(h == k && (k as usize) < model.len() && x.bytes() == model[k as usize].bytes(), "iteration over a torn store invents a header");
                        k += 1;
                    }
                    Err(_) => break,
                }
            }
        } else {
            ensure!(s.check().is_ok(), "a store without torn record is reported corrupt");
        }
        s.heal().map_err(er("heal"))?;
        check_store(g, &s, &model)?;
        check_iter(g, &s, &model, true)?;
        // The store goes on working.
        let k = g.range(1, 18);
        let more: Vec<H> = (0..k).map(|_| H::gen(g)).collect();
        s.put(more.iter().cloned()).map_err(er("put after heal"))?;
        model.extend(&more);
        check_store(g, &s, &model)?;
        check_iter(g, &s, &model, false)?;
    }
    if g.has_label("torn") {
        g.nontrivial();
    }
    Ok(())
}
fn c07_cut_block(g: &mut G) -> Res {
    c07_cut::<BlockHeader>(g)
}
fn c07_cut_filter(g: &mut G) -> Res {
    c07_cut::<StoredHeader>(g)
}

/// Store that stops doing anything at a given mutation, leaving it half done, like a crash would.
struct Crashing {
    inner: File<BlockHeader>,
    /// Mutations left before the crash.
    left: u64,
    /// Bytes of the last append that made it.
    part: u64,
    path: std::path::PathBuf,
    dead: bool,
}

impl Store for Crashing {
    type Header = BlockHeader;
    fn genesis(&self) -> BlockHeader {
        self.inner.genesis()
    }
    fn put<I: Iterator<Item = BlockHeader>>(&mut self, headers: I) -> Result<u64, Error> {
        if self.dead {
            return Err(Error::Interrupted);
        }
        if self.left == 0 {
            let len = fs::metadata(&self.path)?.len();
            self.inner.put(headers)?;
            let end = fs::metadata(&self.path)?.len();
            let keep = len + if end > len { self.part % (end - len + 1) } else { 0 };
            fs::OpenOptions::new().write(true).open(&self.path)?.set_len(keep)?;
            self.dead = true;
            return Err(Error::Interrupted);
        }
        self.left -= 1;
        self.inner.put(headers)
    }
    fn get(&self, height: u64) -> Result<BlockHeader, Error> {
        self.inner.get(height)
    }
    fn rollback(&mut self, height: u64) -> Result<(), Error> {
        if self.dead {
            return Err(Error::Interrupted);
        }
        if self.left == 0 {
            if self.part % 2 == 0 {
                self.inner.rollback(height)?;
            }
            self.dead = true;
            return Err(Error::Interrupted);
        }
        self.left -= 1;
        self.inner.rollback(height)
    }
    fn sync(&mut self) -> Result<(), Error> {
        self.inner.sync()
    }
    fn iter(&self) -> Box<dyn Iterator<Item = Result<(u64, BlockHeader), Error>>> {
        self.inner.iter()
    }
    fn len(&self) -> Result<usize, Error> {
        self.inner.len()
    }
    fn height(&self) -> Result<u64, Error> {
        self.inner.height()
    }
    fn check(&self) -> Result<(), Error> {
        self.inner.check()
    }
    fn heal(&self) -> Result<(), Error> {
        self.inner.heal()
    }
}

/// Crash in the middle of an import (also of one that reorganises the chain), reload, resume.
fn c07_tree(g: &mut G) -> Res {
    let dir = Scratch::new();
    let path = dir.join("headers.db");
    let mut t = Tree::new(cfg_regtest());
    let now = t.cfg.genesis.time + 200_000;
    let clock = LocalTime::from_secs(now as u64);
    gen_tree(g, &mut t, 3, 30);
    let left = g.below(t.nodes.len() as u64 + 4);
    let part = g.below(1 << 12);
    let store = Crashing {
        inner: File::open(&path, t.cfg.genesis).map_err(er("open"))?,
        left,
        part,
        path: path.clone(),
        dead: false,
    };
    let mut c = BlockCache::from(store, t.cfg.params.clone(), &[]).map_err(er("load"))?;
    let mut m = Model::new(now);
    let mut before = 0;
    let mut ix = 1;
    let mut crashed = false;
    while ix < t.nodes.len() {
        before = m.tip;
        let r = c.import_blocks(std::iter::once(t.nodes[ix].header), &clock);
        m.offer(&t, ix, None);
        ix += 1;
        if r.is_err() {
            crashed = true;
            break;
        }
    }
    drop(c);
    note!(g, "crash at mutation {} after {} of {} headers (tip n{} -> n{})", left, ix, t.nodes.len(), before, m.tip);
    if crashed {
        g.label(if t.path(m.tip).contains(&before) { "crash-extending" } else { "crash-reorganising" });
        g.nontrivial();
    }
    // Restart.
    let s = File::open(&path, t.cfg.genesis).map_err(er("open after crash"))?;
    if s.check().is_err() {
        s.heal().map_err(er("heal"))?;
        g.label("healed");
    }
    let mut c = BlockCache::from(s, t.cfg.params.clone(), &[]).map_err(er("load after crash"))?;
    let got: Vec<BlockHash> = c.iter().map(|(_, h)| h.block_hash()).collect();
    let old: Vec<BlockHash> = t.path(before).iter().map(|i| t.nodes[*i].hash).collect();
    let new: Vec<BlockHash> = t.path(m.tip).iter().map(|i| t.nodes[*i].hash).collect();
    ensure!(
        old.starts_with(&got) || new.starts_with(&got),
        "the chain after restart is neither a prefix of the chain before nor of the one after the interrupted import"
    );
    // An extension only ever loses what was being added.
    if !crashed || t.path(m.tip).contains(&before) {
        ensure!(got.len() >= old.len(), "restart lost headers that were stored before the interrupted import");
    }
    // Resume.
    c.import_blocks(t.nodes[1..].iter().map(|n| n.header), &clock).map_err(er("import after restart"))?;
    for i in 1..t.nodes.len() {
        m.offer(&t, i, None);
    }
    ensure!(c.tip().0 == t.nodes[m.tip].hash, "the client does not get back to the best chain after the crash");
    let raw: Vec<u8> = t.path(m.tip)[1..].iter().flat_map(|i| t.nodes[*i].header.bytes()).collect();
    ensure!(fs::read(&path).unwrap() == raw, "store content differs from the active chain after recovery");
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C08

fn link(prev: &FilterHeader, hash: &FilterHash) -> FilterHeader {
    // BIP157: header = H(filter hash || previous header).
    let mut b = Vec::new();
    b.extend_from_slice(&hash.into_inner());
    b.extend_from_slice(&prev.into_inner());
    FilterHeader::from_inner(sha256d::Hash::hash(&b).into_inner())
}

fn c08_filters<S: Store<Header = StoredHeader>>(
    g: &mut G,
    open: &dyn Fn() -> Result<S, Fail>,
    persistent: bool,
) -> Res {
    let net = Network::Regtest;
    let genesis = StoredHeader::genesis(net);
    let mut model: Vec<(FilterHash, FilterHeader)> = vec![(genesis.hash, genesis.header)];
    ensure!(genesis.header == link(&FilterHeader::all_zeros(), &genesis.hash), "genesis filter header is not derived from its filter");
    let mut f = FilterCache::load(open()?).map_err(er("load"))?;
    let mut broken_at: Option<usize> = None;
    for _ in 0..g.range(1, 12) {
        match g.weighted(&[6, 3, 1, 3, 1]) {
            0 => {
                let n = g.range(1, 20);
                let mut v = Vec::new();
                for _ in 0..n {
                    let prev = v.last().map(|x: &(FilterHash, FilterHeader)| x.1).unwrap_or(model.last().unwrap().1);
                    let hash = FilterHash::from_inner(h32(g));
                    let mut hd = link(&prev, &hash);
                    let mut hash2 = hash;
                    if g.chance(1, 60) {
                        // Corruption of a record.
                        let i = g.below(32) as usize;
                        let bit = 1u8 << g.below(8);
                        if g.bool() {
                            let mut b = hd.into_inner();
                            b[i] ^= bit;
                            hd = FilterHeader::from_inner(b);
                        } else {
                            let mut b = hash.into_inner();
                            b[i] ^= bit;
                            hash2 = FilterHash::from_inner(b);
                        }
                    }
                    v.push((hash2, hd));
                }
                note!(g, "import {}", n);
                let h = f.import_headers(v.clone()).map_err(er("import"))?;
                model.extend(v);
                ensure!(h == model.len() as u64 - 1, "import returned height {} instead of {}", h, model.len() - 1);
            }
            1 => {
                let h = g.below(model.len() as u64);
                f.rollback(h).map_err(er("rollback"))?;
                model.truncate(h as usize + 1);
                g.label("rollback");
                note!(g, "rollback {}", h);
            }
            2 => {
                f.clear().map_err(er("clear"))?;
                model.truncate(1);
                note!(g, "clear");
            }
            3 => {
                if persistent {
                    drop(f);
                    f = FilterCache::load(open()?).map_err(er("reload"))?;
                    g.label("reload");
                    note!(g, "reload");
                }
            }
            _ => {}
        }
        let top = model.len() as u64 - 1;
        ensure!(f.height() == top, "height is {} instead of {}", f.height(), top);
        let (a, b) = f.tip();
        ensure!((*a, *b) == *model.last().unwrap(), "tip differs");
        for _ in 0..3 {
            let h = g.range(0, top + 3);
            ensure!(f.get_header(h) == model.get(h as usize).copied(), "get_header({}) differs", h);
            let want = if h == 0 { Some(FilterHeader::all_zeros()) } else { model.get(h as usize - 1).map(|x| x.1) };
            ensure!(f.get_prev_header(h) == want, "get_prev_header({}) differs", h);
            let e = g.range(0, top + 3);
            let want: Vec<_> = (h..=e).filter_map(|i| model.get(i as usize).copied()).collect();
            let got = f.get_headers(h..=e);
            ensure!(got == want, "get_headers({}..={}) returned {} headers instead of {}", h, e, got.len(), want.len());
        }
        // Verification finds exactly the broken links.
        let mut prev = FilterHeader::all_zeros();
        broken_at = None;
        for (i, (hash, hd)) in model.iter().enumerate() {
            if link(&prev, hash) != *hd {
                broken_at = Some(i);
                break;
            }
            prev = *hd;
        }
        match (f.verify(net), broken_at) {
            (Ok(()), None) => {}
            (Err(_), Some(_)) => g.label("corrupt"),
            (Ok(()), Some(i)) => fail!("verification accepts a chain whose link at {} is broken", i),
            (Err(e), None) => fail!("verification rejects an intact chain: {}", e),
        }
        if model.len() > 1 {
            ensure!(f.verify(Network::Mainnet).is_err(), "verification accepts a chain of another network");
        }
    }
    let _ = broken_at;
    if g.has_label("rollback") || g.has_label("corrupt") {
        g.nontrivial();
    }
    Ok(())
}

fn c08_file(g: &mut G) -> Res {
    let dir = Scratch::new();
    let p = dir.join("filters.db");
    c08_filters(
        g,
        &|| File::open(&p, StoredHeader::genesis(Network::Regtest)).map_err(er("open")),
        true,
    )
}
fn c08_memory(g: &mut G) -> Res {
    c08_filters(g, &|| Ok(Memory::<StoredHeader>::genesis(Network::Regtest)), false)
}

// ---------------------------------------------------------------------------------------------
// C23

fn gen_ip(g: &mut G) -> net::IpAddr {
    match g.below(3) {
        0 => net::Ipv4Addr::new(g.u8(), g.u8(), g.u8(), g.below(4) as u8).into(),
        1 => net::Ipv4Addr::new(10, 0, 0, g.below(20) as u8).into(),
        _ => {
            let mut s = [0u16; 8];
            for x in s.iter_mut() {
                *x = *g.pick(&[0u16, 1, 0xffff, 0x2001, 0xfd87]);
            }
            net::Ipv6Addr::from(s).into()
        }
    }
}

fn gen_ka(g: &mut G, ip: net::IpAddr) -> KnownAddress {
    let port = *g.pick(&[0u16, 1, 8333, 18333, 65535]);
    let services = ServiceFlags::from(match g.below(4) {
        0 => 0,
        1 => u64::MAX,
        2 => 1 << g.below(64),
        _ => 0x409,
    });
    let src = match g.below(4) {
        0 => Source::Dns,
        1 => Source::Imported,
        _ => {
            let ip = gen_ip(g);
            Source::Peer((ip, 8333).into())
        }
    };
    let mut t = |g: &mut G| match g.below(4) {
        0 => None,
        1 => Some(LocalTime::from_secs(u32::MAX as u64)),
        2 => Some(LocalTime::from_secs(g.below(3))),
        _ => Some(LocalTime::from_secs(g.below(1 << 32))),
    };
    KnownAddress {
        addr: Address::new(&(ip, port).into(), services),
        source: src,
        last_success: t(g),
        last_sampled: t(g),
        last_attempt: t(g),
        last_active: t(g),
    }
}

fn same_peers(c: &peer::Cache, m: &BTreeMap<net::IpAddr, KnownAddress>) -> Res {
    let got: BTreeMap<_, _> = c.iter().map(|(i, k)| (*i, k.clone())).collect();
    ensure!(got.len() == m.len(), "{} addresses instead of {}", got.len(), m.len());
    for (i, k) in m {
        match got.get(i) {
            None => fail!("address {} lost", i),
            Some(x) => ensure!(x == k, "address {} changed: {:?} instead of {:?}", i, x, k),
        }
    }
    ensure!(c.len() == m.len() && c.is_empty() == m.is_empty(), "size differs");
    Ok(())
}

fn c23_model(g: &mut G) -> Res {
    let dir = Scratch::new();
    let p = dir.join("peers.json");
    let mut c = peer::Cache::create(&p).map_err(er("create"))?;
    let mut m: BTreeMap<net::IpAddr, KnownAddress> = BTreeMap::new();
    let mut flushed = m.clone();
    for _ in 0..g.range(1, 25) {
        match g.weighted(&[8, 3, 3, 3, 3, 1]) {
            0 => {
                let ip = gen_ip(g);
                let ka = gen_ka(g, ip);
                let fresh = c.insert(ip, ka.clone());
                ensure!(fresh == !m.contains_key(&ip), "insert of {} reports {}", ip, fresh);
                m.entry(ip).or_insert(ka);
            }
            1 => {
                if let Some(ip) = pick_ip(g, &m) {
                    let ka = gen_ka(g, ip);
                    match c.get_mut(&ip) {
                        Some(k) => *k = ka.clone(),
                        None => fail!("known address {} not found", ip),
                    }
                    m.insert(ip, ka);
                }
            }
            2 => {
                let ip = match pick_ip(g, &m) {
                    Some(ip) if g.chance(3, 4) => ip,
                    _ => gen_ip(g),
                };
                ensure!(c.remove(&ip) == m.remove(&ip), "remove({}) differs", ip);
                ensure!(c.get(&ip).is_none(), "removed address still there");
            }
            3 => {
                c.flush().map_err(er("flush"))?;
                flushed = m.clone();
                note!(g, "flush {}", m.len());
            }
            4 => {
                drop(c);
                c = peer::Cache::open(&p).map_err(er("reopen"))?;
                m = flushed.clone();
                g.label("reopen");
                if !m.is_empty() {
                    g.label("reopen-nonempty");
                }
                note!(g, "reopen {}", m.len());
            }
            _ => {
                c.clear();
                m.clear();
            }
        }
        same_peers(&c, &m)?;
    }
    if g.has_label("reopen-nonempty") {
        g.nontrivial();
    }
    Ok(())
}

fn pick_ip(g: &mut G, m: &BTreeMap<net::IpAddr, KnownAddress>) -> Option<net::IpAddr> {
    if m.is_empty() {
        return None;
    }
    let i = g.below(m.len() as u64) as usize;
    m.keys().nth(i).copied()
}

/// Any damage to the file leads to an error or to a usable store, never to a crash.
fn c23_damage(g: &mut G) -> Res {
    let dir = Scratch::new();
    let p = dir.join("peers.json");
    let mut c = peer::Cache::create(&p).map_err(er("create"))?;
    for _ in 0..g.range(1, 4) {
        let ip = gen_ip(g);
        let ka = gen_ka(g, ip);
        c.insert(ip, ka);
    }
    c.flush().map_err(er("flush"))?;
    drop(c);
    let mut b = fs::read(&p).unwrap();
    match g.below(4) {
        0 => {
            let k = g.below(b.len() as u64 + 1) as usize;
            b.truncate(k);
        }
        1 => {
            for _ in 0..g.range(1, 3) {
                let k = g.below(b.len() as u64) as usize;
                b[k] = *g.pick(b"0129aZ\":,.{}[] -\\nx\xff");
            }
        }
        2 => {
            let k = g.below(b.len() as u64) as usize;
            let n = g.range(1, 8) as usize;
            b.drain(k..(k + n).min(b.len()));
        }
        _ => {
            let k = g.below(b.len() as u64) as usize;
            let n = g.range(1, 4) as usize;
            let x = g.bytes(n);
            for (i, y) in x.into_iter().enumerate() {
                b.insert(k + i, y);
            }
        }
    }
    note!(g, "{}", String::from_utf8_lossy(&b));
    fs::write(&p, &b).unwrap();
    match peer::Cache::open(&p) {
        Ok(mut c) => {
            g.label("accepted");
            let n = c.len();
            c.flush().map_err(er("flush"))?;
            drop(c);
            let c = peer::Cache::open(&p).map_err(er("reopen"))?;
            ensure!(c.len() == n, "store is not stable");
        }
        Err(_) => g.label("refused"),
    }
    g.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Real crashes: a child process is killed by the kernel (SIGXFSZ) while it writes.

/// What the child does, as a function of the seed it is given: `(rollback?, appended)`.
fn child_headers<H: Hdr>(seed: u64, height: u64) -> (Option<u64>, Vec<H>) {
    let mut g = G::random(seed);
    let back = if g.bool() { Some(g.below(height + 1)) } else { None };
    let n = g.range(0, 60);
    (back, (0..n).map(|_| H::gen(&mut g)).collect())
}

/// The peer addresses after the child is done.
fn child_peers(seed: u64, old: &BTreeMap<net::IpAddr, KnownAddress>) -> BTreeMap<net::IpAddr, KnownAddress> {
    let mut g = G::random(seed);
    let mut m = old.clone();
    for _ in 0..g.range(1, 12) {
        let known = if g.chance(1, 3) { pick_ip(&mut g, &m) } else { None };
        match known {
            Some(ip) if g.bool() => {
                m.remove(&ip);
            }
            Some(ip) => {
                let ka = gen_ka(&mut g, ip);
                m.insert(ip, ka);
            }
            None => {
                let ip = gen_ip(&mut g);
                let ka = gen_ka(&mut g, ip);
                m.insert(ip, ka);
            }
        }
    }
    m
}

/// Entry point of the child process: `--child <kind> <path> <limit> <seed>`.
pub fn child(args: &[String]) -> i32 {
    let path = Path::new(&args[1]);
    let limit: u64 = args[2].parse().unwrap();
    let seed: u64 = args[3].parse().unwrap();
    let arm = || unsafe {
        let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &none);
        let l = libc::rlimit { rlim_cur: limit, rlim_max: limit };
        libc::setrlimit(libc::RLIMIT_FSIZE, &l);
        libc::signal(libc::SIGXFSZ, libc::SIG_DFL);
    };
    fn headers<H: Hdr>(path: &Path, seed: u64, arm: &dyn Fn()) -> Option<()> {
        let mut s = File::open(path, H::genesis(Network::Regtest)).ok()?;
        let (back, hs) = child_headers::<H>(seed, s.height().ok()?);
        arm();
        if let Some(h) = back {
            s.rollback(h).ok()?;
        }
        s.put(hs.into_iter()).ok()?;
        s.sync().ok()
    }
    let done = match args[0].as_str() {
        "blocks" => headers::<BlockHeader>(path, seed, &arm),
        "filters" => headers::<StoredHeader>(path, seed, &arm),
        "peers" => (|| {
            let mut c = peer::Cache::open(path).ok()?;
            let old: BTreeMap<_, _> = c.iter().map(|(i, k)| (*i, k.clone())).collect();
            let new = child_peers(seed, &old);
            c.clear();
            for (ip, ka) in new {
                c.insert(ip, ka);
            }
            arm();
            c.flush().ok()
        })(),
        k => panic!("HARNESS: unknown child {}", k),
    };
    match done {
        Some(()) => 0,
        None => 3,
    }
}

/// Run the child; true if it completed, false if it was killed half-way.
fn run_child(kind: &str, path: &Path, limit: u64, seed: u64) -> Result<bool, Fail> {
    use std::os::unix::process::ExitStatusExt;
    let st = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["--child", kind, path.to_str().unwrap(), &limit.to_string(), &seed.to_string()])
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .unwrap_or_else(|e| panic!("HARNESS: can't run child: {}", e));
    match (st.code(), st.signal()) {
        (Some(0), _) => Ok(true),
        (_, Some(libc::SIGXFSZ)) => Ok(false),
        _ => fail!("writing process failed: {:?}", st),
    }
}

fn crash_headers<H: Hdr>(g: &mut G, kind: &str) -> Res {
    let dir = Scratch::new();
    let p = dir.join("store.db");
    let genesis = H::genesis(Network::Regtest);
    let size = genesis.bytes().len() as u64;
    let mut old = vec![genesis];
    {
        let n = g.range(0, 40);
        let hs: Vec<H> = (0..n).map(|_| H::gen(g)).collect();
        let mut s = File::open(&p, genesis).map_err(er("open"))?;
        s.put(hs.iter().cloned()).map_err(er("put"))?;
        old.extend(&hs);
    }
    for _ in 0..g.range(1, 3) {
        let len = fs::metadata(&p).unwrap().len();
        let (limit, seed) = (g.below(len + 60 * size), g.seed());
        let (back, hs) = child_headers::<H>(seed, old.len() as u64 - 1);
        let mut new = old.clone();
        if let Some(h) = back {
            new.truncate(h as usize + 1);
        }
        let keep = new.len();
        new.extend(&hs);
        note!(g, "store of {} headers: rollback {:?}, append {}, crash at byte {}", old.len(), back, hs.len(), limit);
        let done = run_child(kind, &p, limit, seed)?;
        let mut s = File::open(&p, genesis).map_err(er("open after crash"))?;
        s.heal().map_err(er("heal"))?;
        s.check().map_err(er("check after heal"))?;
        let n = s.len().map_err(er("len"))?;
        note!(g, "{}: {} headers", if done { "done" } else { "killed" }, n);
        if done {
            ensure!(n == new.len(), "{} headers instead of {} after a completed write", n, new.len());
            old = new;
        } else {
            g.label("killed");
            g.nontrivial();
            ensure!(n >= keep, "a crash while appending lost headers stored before: {} left of {}", n, keep);
            // Either the rollback didn't happen, or we have a prefix of the new chain.
            let same = |c: &Vec<H>| n <= c.len() && (0..n).all(|i| s.get(i as u64).map(|x| x.bytes()).ok() == Some(c[i].bytes()));
            if same(&new) {
                new.truncate(n);
                old = new;
            } else {
                ensure!(same(&old), "the store holds neither a part of the old nor of the new chain after a crash");
                old.truncate(n);
            }
        }
        check_store(g, &s, &old)?;
        check_iter(g, &s, &old, false)?;
        let k = g.range(0, 5);
        let more: Vec<H> = (0..k).map(|_| H::gen(g)).collect();
        s.put(more.iter().cloned()).map_err(er("put after heal"))?;
        old.extend(&more);
        check_store(g, &s, &old)?;
    }
    Ok(())
}
fn c07_kill_block(g: &mut G) -> Res {
    crash_headers::<BlockHeader>(g, "blocks")
}
fn c07_kill_filter(g: &mut G) -> Res {
    crash_headers::<StoredHeader>(g, "filters")
}

/// A flush of the peer store that is interrupted leaves the old or the new addresses.
fn c23_kill(g: &mut G) -> Res {
    let dir = Scratch::new();
    let p = dir.join("peers.json");
    let mut old = BTreeMap::new();
    {
        let mut c = peer::Cache::create(&p).map_err(er("create"))?;
        for _ in 0..g.range(0, 8) {
            let ip = gen_ip(g);
            let ka = gen_ka(g, ip);
            c.insert(ip, ka.clone());
            old.entry(ip).or_insert(ka);
        }
        c.flush().map_err(er("flush"))?;
    }
    for _ in 0..g.range(1, 3) {
        let top = if g.bool() { 400 } else { 4000 };
        let (limit, seed) = (g.below(top), g.seed());
        let new = child_peers(seed, &old);
        let done = run_child("peers", &p, limit, seed)?;
        note!(g, "{} addresses, {} written, crash at byte {}: {}", old.len(), new.len(), limit, if done { "done" } else { "killed" });
        let c = peer::Cache::open(&p).map_err(er("open after crash"))?;
        if done {
            same_peers(&c, &new)?;
            old = new;
        } else {
            g.label("killed");
            if !old.is_empty() {
                g.nontrivial();
            }
            if same_peers(&c, &new).is_ok() {
                old = new;
            } else if let Err(f) = same_peers(&c, &old) {
                fail!("after an interrupted flush the store holds neither the old nor the new addresses: {}", f.msg);
            }
        }
    }
    Ok(())
}

pub static PROPS: &[Property] = &[
    Property {
        id: "C06",
        level: "exploration",
        rule: "a case is a sequence of appends, rollbacks, reads, iterations, syncs and reopenings on a file or memory store, or an import history of a tree on a file store with reloads; non-trivial: it rolls back and is not empty at the end (stores), or reorganises and reloads (tree)",
        strategies: &[
            Strategy { name: "file-block", quick: 20000, thorough: 600000, case: c06_file_block },
            Strategy { name: "file-filter", quick: 20000, thorough: 600000, case: c06_file_filter },
            Strategy { name: "memory", quick: 20000, thorough: 600000, case: c06_memory },
            Strategy { name: "tree", quick: 12000, thorough: 400000, case: c06_tree },
            Strategy { name: "bulk", quick: 200, thorough: 10000, case: c06_bulk },
        ],
        assumptions: &["the file system of the scratch directory behaves"],
        known: &[],
    },
    Property {
        id: "C07",
        level: "fault_enumeration",
        rule: "a case crashes at a generated point (after any byte of an append, before or after a truncation) and restarts; non-trivial: the crash leaves a torn record, or interrupts an import",
        strategies: &[
            Strategy { name: "cut-block", quick: 20000, thorough: 600000, case: c07_cut_block },
            Strategy { name: "cut-filter", quick: 20000, thorough: 600000, case: c07_cut_filter },
            Strategy { name: "tree", quick: 20000, thorough: 800000, case: c07_tree },
            Strategy { name: "kill-block", quick: 1200, thorough: 40000, case: c07_kill_block },
            Strategy { name: "kill-filter", quick: 800, thorough: 40000, case: c07_kill_filter },
        ],
        assumptions: &["an interrupted write leaves a prefix of what was appended; truncation is atomic"],
        known: &[],
    },
    Property {
        id: "C08",
        level: "exploration",
        rule: "a case is a sequence of imports (some with a corrupted record), rollbacks, clears and reloads on a filter header chain; non-trivial: it rolls back or contains a corrupted record",
        strategies: &[
            Strategy { name: "file", quick: 12000, thorough: 400000, case: c08_file },
            Strategy { name: "memory", quick: 20000, thorough: 600000, case: c08_memory },
        ],
        assumptions: &["double SHA-256 of the bitcoin_hashes crate is trusted"],
        known: &[],
    },
    Property {
        id: "C23",
        level: "exploration",
        rule: "a case is a sequence of inserts, updates, removals, flushes and reopenings compared with a map, or a damaged file being opened; non-trivial: a non-empty store is reopened, or the file was damaged",
        strategies: &[
            Strategy { name: "model", quick: 20000, thorough: 600000, case: c23_model },
            Strategy { name: "damage", quick: 20000, thorough: 600000, case: c23_damage },
            Strategy { name: "kill", quick: 2000, thorough: 60000, case: c23_kill },
        ],
        assumptions: &["times have a resolution of one second up to year 2106 in the file"],
        known: &[],
    },
];
