//! C26: the wallet.
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::net;
use std::ops::{Bound, RangeInclusive};
use std::sync::{Arc, Mutex};

use crossbeam_channel as chan;
use termion::event::{Event as TermEvent, Key, MouseEvent};

use nakamoto_client::handle::{Error, Handle};
use nakamoto_client::{Event, Loading, Network};
use nakamoto_common::bitcoin::blockdata::opcodes;
use nakamoto_common::bitcoin::blockdata::script::Builder;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::bitcoin::network::Address as NetAddress;
use nakamoto_common::bitcoin::util::bip32::DerivationPath;
use nakamoto_common::bitcoin::util::uint::Uint256;
use nakamoto_common::bitcoin::{Address, OutPoint, PackedLockTime, Script, Sequence, TxIn, TxOut, Txid, Witness};
use nakamoto_common::bitcoin_hashes::Hash as _;
use nakamoto_common::block::filter::BlockFilter;
use nakamoto_common::block::tree::{self, BlockReader, ImportResult};
use nakamoto_common::block::{Block, BlockHash, BlockHeader, Height, Transaction};
use nakamoto_common::nonempty::NonEmpty;
use nakamoto_p2p::fsm::{self, Command, Link, Peer};
use nakamoto_wallet::input::Signal;
use nakamoto_wallet::wallet::db::{Read as _, Write as _};
use nakamoto_wallet::wallet::{Db, Hw, Wallet};

use crate::pbt::{Property, Res, Strategy, G};
use crate::scratch::Scratch;
use crate::{ensure, fail, note};

// ---------------------------------------------------------------------------------------------
// A terminal of any size.

thread_local! {
    static SIZE: Cell<(u16, u16)> = const { Cell::new((80, 24)) };
}

#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: libc::c_int, req: libc::c_ulong, arg: *mut libc::c_void) -> libc::c_int {
    if req == libc::TIOCGWINSZ {
        let (x, y) = SIZE.with(|s| s.get());
        *(arg as *mut libc::winsize) = libc::winsize { ws_row: y, ws_col: x, ws_xpixel: 0, ws_ypixel: 0 };
        return 0;
    }
    libc::syscall(libc::SYS_ioctl, fd, req, arg) as libc::c_int
}

// ---------------------------------------------------------------------------------------------
// A client that only remembers what it is told.

#[derive(Clone, Default)]
struct Mock {
    rescans: Arc<Mutex<Vec<(Bound<Height>, Bound<Height>, Vec<Script>)>>>,
}

#[allow(unused_variables)]
impl Handle for Mock {
    fn get_tip(&self) -> Result<(Height, BlockHeader, Uint256), Error> {
        Err(Error::Disconnected)
    }
    fn get_block(&self, hash: &BlockHash) -> Result<Option<(Height, BlockHeader)>, Error> {
        Err(Error::Disconnected)
    }
    fn get_block_by_height(&self, height: Height) -> Result<Option<BlockHeader>, Error> {
        Err(Error::Disconnected)
    }
    fn query_tree(&self, query: impl Fn(&dyn BlockReader) + Send + Sync + 'static) -> Result<(), Error> {
        Err(Error::Disconnected)
    }
    fn find_branch(&self, to: &BlockHash) -> Result<Option<(Height, NonEmpty<BlockHeader>)>, Error> {
        Err(Error::Disconnected)
    }
    fn request_block(&self, hash: &BlockHash) -> Result<(), Error> {
        Ok(())
    }
    fn request_filters(&self, range: RangeInclusive<Height>) -> Result<(), Error> {
        Ok(())
    }
    fn blocks(&self) -> chan::Receiver<(Block, Height)> {
        chan::never()
    }
    fn filters(&self) -> chan::Receiver<(BlockFilter, BlockHash, Height)> {
        chan::never()
    }
    fn events(&self) -> chan::Receiver<Event> {
        chan::never()
    }
    fn command(&self, cmd: Command) -> Result<(), Error> {
        if let Command::Rescan { from, to, watch } = cmd {
            self.rescans.lock().unwrap().push((from, to, watch));
        }
        Ok(())
    }
    fn broadcast(&self, msg: NetworkMessage, predicate: fn(Peer) -> bool) -> Result<Vec<net::SocketAddr>, Error> {
        Err(Error::Disconnected)
    }
    fn connect(&self, addr: net::SocketAddr) -> Result<Link, Error> {
        Err(Error::Disconnected)
    }
    fn disconnect(&self, addr: net::SocketAddr) -> Result<(), Error> {
        Err(Error::Disconnected)
    }
    fn submit_transaction(&self, tx: Transaction) -> Result<NonEmpty<net::SocketAddr>, Error> {
        Err(Error::Disconnected)
    }
    fn get_submitted_transaction(&self, txid: &Txid) -> Result<Option<Transaction>, Error> {
        Err(Error::Disconnected)
    }
    fn import_headers(&self, headers: Vec<BlockHeader>) -> Result<Result<ImportResult, tree::Error>, Error> {
        Err(Error::Disconnected)
    }
    fn import_addresses(&self, addrs: Vec<NetAddress>) -> Result<(), Error> {
        Err(Error::Disconnected)
    }
    fn wait<F: FnMut(fsm::Event) -> Option<T>, T>(&self, f: F) -> Result<T, Error> {
        Err(Error::Timeout)
    }
    fn wait_for_peers(&self, count: usize, required_services: impl Into<ServiceFlags>) -> Result<Vec<(net::SocketAddr, Height, ServiceFlags)>, Error> {
        Err(Error::Timeout)
    }
    fn wait_for_height(&self, h: Height) -> Result<BlockHash, Error> {
        Err(Error::Timeout)
    }
    fn shutdown(self) -> Result<(), Error> {
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// Addresses and blocks.

fn networks() -> [Network; 4] {
    [Network::Mainnet, Network::Testnet, Network::Regtest, Network::Signet]
}

/// Some script with an address.
fn payable(k: u64) -> Script {
    let mut h = [0u8; 32];
    h[..8].copy_from_slice(&(k.wrapping_mul(0x9e3779b97f4a7c15) | 1).to_le_bytes());
    h[8] = k as u8;
    match k % 5 {
        0 => Builder::new().push_opcode(opcodes::all::OP_DUP).push_opcode(opcodes::all::OP_HASH160).push_slice(&h[..20]).push_opcode(opcodes::all::OP_EQUALVERIFY).push_opcode(opcodes::all::OP_CHECKSIG).into_script(),
        1 => Builder::new().push_opcode(opcodes::all::OP_HASH160).push_slice(&h[..20]).push_opcode(opcodes::all::OP_EQUAL).into_script(),
        2 => Builder::new().push_int(0).push_slice(&h[..20]).into_script(),
        3 => Builder::new().push_int(0).push_slice(&h[..32]).into_script(),
        _ => Builder::new().push_int(1).push_slice(&h[..32]).into_script(),
    }
}

fn foreign(g: &mut G) -> Script {
    match g.below(4) {
        0 => Builder::new().push_opcode(opcodes::all::OP_RETURN).push_slice(&[1, 2, 3]).into_script(),
        1 => Script::new(),
        _ => payable(1000 + g.below(20)),
    }
}

fn tx(n: u64, inputs: Vec<OutPoint>, output: Vec<TxOut>) -> Transaction {
    Transaction {
        version: 2,
        lock_time: PackedLockTime(n as u32),
        input: inputs.into_iter().map(|previous_output| TxIn { previous_output, script_sig: Script::new(), sequence: Sequence::MAX, witness: Witness::new() }).collect(),
        output,
    }
}

struct Chain {
    blocks: Vec<Block>,
    /// Outputs to spend.
    unspent: Vec<OutPoint>,
    n: u64,
}

impl Chain {
    fn new(net: Network) -> Self {
        Self { blocks: vec![net.genesis_block()], unspent: vec![], n: 0 }
    }

    fn grow(&mut self, g: &mut G, mine: &[Script]) {
        let mut txdata = vec![];
        for i in 0..g.range(1, 5) {
            self.n += 1;
            let mut inputs = vec![];
            if i == 0 {
                inputs.push(OutPoint::null());
            } else {
                for _ in 0..g.range(1, 4) {
                    if !self.unspent.is_empty() {
                        let k = g.below(self.unspent.len() as u64) as usize;
                        inputs.push(self.unspent.swap_remove(k));
                    }
                }
                if inputs.is_empty() {
                    inputs.push(OutPoint { txid: Txid::hash(&self.n.to_le_bytes()), vout: g.below(3) as u32 });
                }
            }
            let mut outs = vec![];
            for _ in 0..g.range(1, 5) {
                let script_pubkey = if g.chance(1, 2) { g.pick(mine).clone() } else { foreign(g) };
                let value = *g.pick(&[0, 1, 546, 1000, 123_456_789, 2_100_000_000_000_000 / 64]);
                outs.push(TxOut { value, script_pubkey });
            }
            let t = tx(self.n, inputs, outs);
            for v in 0..t.output.len() {
                self.unspent.push(OutPoint { txid: t.txid(), vout: v as u32 });
            }
            txdata.push(t);
        }
        let prev = self.blocks.last().unwrap().header;
        let mut header = BlockHeader { prev_blockhash: prev.block_hash(), time: prev.time + 600, ..prev };
        header.nonce = self.n as u32;
        let mut b = Block { header, txdata };
        b.header.merkle_root = b.compute_merkle_root().unwrap();
        self.blocks.push(b);
    }

    /// What is received by the scripts and not spent, in blocks from `birth`.
    fn ledger(&self, birth: u64, mine: &BTreeSet<Script>) -> BTreeMap<OutPoint, TxOut> {
        let spent: BTreeSet<OutPoint> = self.blocks.iter().skip(birth as usize).flat_map(|b| b.txdata.iter()).flat_map(|t| t.input.iter()).map(|i| i.previous_output).collect();
        let mut l = BTreeMap::new();
        for b in self.blocks.iter().skip(birth as usize) {
            for t in &b.txdata {
                for (v, o) in t.output.iter().enumerate() {
                    let p = OutPoint { txid: t.txid(), vout: v as u32 };
                    if mine.contains(&o.script_pubkey) && !spent.contains(&p) {
                        l.insert(p, o.clone());
                    }
                }
            }
        }
        l
    }

    /// The blocks the client finds for the scripts.
    fn matching(&self, birth: u64, mine: &BTreeSet<Script>) -> BTreeSet<u64> {
        let mut outs: BTreeMap<OutPoint, &Script> = BTreeMap::new();
        let mut m = BTreeSet::new();
        for (h, b) in self.blocks.iter().enumerate() {
            for t in &b.txdata {
                for i in &t.input {
                    if outs.get(&i.previous_output).map(|s| mine.contains(*s)).unwrap_or(false) {
                        m.insert(h as u64);
                    }
                }
                for (v, o) in t.output.iter().enumerate() {
                    outs.insert(OutPoint { txid: t.txid(), vout: v as u32 }, &o.script_pubkey);
                    if mine.contains(&o.script_pubkey) {
                        m.insert(h as u64);
                    }
                }
            }
        }
        m.retain(|h| *h >= birth);
        m
    }
}

fn check_db(db: &Db, want: &BTreeMap<OutPoint, TxOut>, what: &str) -> Res {
    let got = match db.utxos() {
        Ok(u) => u,
        Err(e) => fail!("{}: unspent outputs can't be read: {}", what, e),
    };
    let n = got.len();
    let got: BTreeMap<OutPoint, TxOut> = got.into_iter().collect();
    ensure!(n == got.len(), "{}: an unspent output is listed twice", what);
    for (o, t) in want {
        ensure!(got.get(o) == Some(t), "{}: {} of {} sat is missing (or different: {:?})", what, o, t.value, got.get(o));
        match db.utxo(o) {
            Ok(Some((p, x))) => ensure!(p == *o && x == *t, "{}: {} is another output", what, o),
            Ok(None) => fail!("{}: {} isn't found", what, o),
            Err(e) => fail!("{}: {} can't be read: {}", what, o, e),
        }
    }
    for (o, t) in &got {
        ensure!(want.contains_key(o), "{}: {} of {} sat isn't unspent", what, o, t.value);
    }
    let b = match db.balance() {
        Ok(b) => b,
        Err(e) => fail!("{}: the balance can't be read: {}", what, e),
    };
    let sum: u64 = want.values().map(|t| t.value).sum();
    ensure!(b == sum, "{}: the balance is {} instead of {}", what, b, sum);
    Ok(())
}

fn open(db: &std::path::Path) -> Result<Db, crate::pbt::Fail> {
    match Db::open(db) {
        Ok(d) => Ok(d),
        Err(e) => fail!("the wallet can't be opened: {}", e),
    }
}

fn c26(g: &mut G) -> Res {
    let net = *g.pick(&networks());
    let dir = Scratch::new();
    let path = dir.join("wallet.db");
    let all: Vec<Script> = (0..g.range(1, 8)).map(payable).collect();
    let mut mine: BTreeSet<Script> = BTreeSet::new();
    let mut chain = Chain::new(net);
    let birth = g.below(4);
    let (mut spends, mut complete) = (0u64, 0u64);
    for session in 0..g.range(1, 3) {
        for _ in 0..g.range(0, 6) {
            chain.grow(g, &all);
        }
        // Some addresses.
        {
            let db = open(&path)?;
            for (i, s) in all.iter().enumerate() {
                if mine.contains(s) || !(g.bool() || (mine.is_empty() && i == all.len() - 1)) {
                    continue;
                }
                let a = Address::from_script(s, net.into()).unwrap();
                let label = if g.bool() { Some("label") } else { None };
                if let Err(e) = db.add_address(&a, i, label) {
                    fail!("an address can't be added: {}", e);
                }
                mine.insert(s.clone());
            }
            let list = match db.addresses() {
                Ok(l) => l,
                Err(e) => fail!("addresses can't be read: {}", e),
            };
            let got: BTreeSet<Script> = list.iter().map(|a| a.address.script_pubkey()).collect();
            ensure!(got == mine && list.len() == mine.len(), "of {} addresses, {} are stored", mine.len(), got.len());
            ensure!(list.iter().all(|a| all.get(a.index) == Some(&a.address.script_pubkey())), "the index of an address has changed");
        }
        let offline = g.chance(1, 8);
        let mock = Mock::default();
        let (itx, irx) = chan::unbounded();
        let (stx, srx) = chan::unbounded();
        let (ltx, lrx) = chan::unbounded();
        let (etx, erx) = chan::unbounded();
        SIZE.with(|s| s.set(if g.bool() { (80, 24) } else { (g.below(100) as u16, g.below(40) as u16) }));
        for _ in 0..g.below(4) {
            let k = g.below(300);
            ltx.send(match g.below(3) {
                0 => Loading::BlockHeaderLoaded { height: k },
                1 => Loading::FilterHeaderLoaded { height: k },
                _ => Loading::FilterHeaderVerified { height: k },
            })
            .ok();
        }
        drop(ltx);
        for _ in 0..g.below(4) {
            let e = g.pick(&[TermEvent::Key(Key::Right), TermEvent::Key(Key::Left), TermEvent::Key(Key::Char('\t')), TermEvent::Key(Key::Up), TermEvent::Mouse(MouseEvent::Hold(1, 1))]).clone();
            itx.send(e).ok();
        }
        for _ in 0..g.below(2) {
            stx.send(Signal::WindowResized).ok();
        }
        let tip = chain.blocks.len() as u64 - 1;
        let cut = if g.chance(1, 4) { Some(g.below(tip + 1)) } else { None };
        note!(g, "session {}: {} addresses, height {}, birth {}, until {:?}{}", session, mine.len(), tip, birth, cut, if offline { ", offline" } else { "" });
        if !offline {
            etx.send(Event::Ready { tip: 0, filter_tip: 0, time: Default::default() }).ok();
            etx.send(Event::PeerHeightUpdated { height: tip }).ok();
            let hit = chain.matching(birth, &mine);
            for h in birth..=tip {
                let b = &chain.blocks[h as usize];
                let matched = hit.contains(&h) || g.chance(1, 10);
                if g.bool() {
                    etx.send(Event::FilterProcessed { block: b.block_hash(), height: h, matched, valid: true, cached: false }).ok();
                }
                if matched {
                    note!(g, "  block {} matched", h);
                    etx.send(Event::BlockMatched { block: b.clone(), height: h }).ok();
                    spends += 1;
                }
                etx.send(Event::Scanned { height: h }).ok();
                if cut == Some(h) {
                    break;
                }
            }
        }
        drop(etx);
        let db = open(&path)?;
        let mut screen = vec![];
        let mut w = Wallet::new(mock.clone(), net, db, Hw::new(DerivationPath::default()));
        let r = w.run(birth, irx, srx, lrx, erx, offline, &mut screen);
        match r {
            Err(nakamoto_wallet::error::Error::Channel(_)) => {}
            Err(e) => fail!("the wallet fails: {}", e),
            Ok(()) => fail!("the wallet ends for no reason"),
        }
        drop((itx, stx));
        let asked = mock.rescans.lock().unwrap().clone();
        if offline {
            ensure!(asked.is_empty(), "an offline wallet starts a scan");
        } else {
            ensure!(asked.len() == 1, "the wallet starts {} scans", asked.len());
            let (from, to, watch) = &asked[0];
            ensure!(*from == Bound::Included(birth) && *to == Bound::Unbounded, "the scan is from {:?} to {:?} instead of from {}", from, to, birth);
            ensure!(watch.iter().cloned().collect::<BTreeSet<_>>() == mine, "the scan isn't for the scripts of all addresses");
        }
        if !offline && cut.map(|c| c < birth || c == tip).unwrap_or(true) && tip >= birth {
            complete += 1;
            let want = chain.ledger(birth, &mine);
            let db = open(&path)?;
            check_db(&db, &want, "after the scan")?;
            match w.balance() {
                Ok(b) => ensure!(b == want.values().map(|t| t.value).sum::<u64>(), "the balance of the wallet is {}", b),
                Err(e) => fail!("no balance: {}", e),
            }
            let shown = format!("{:.4} BTC", want.values().map(|t| t.value).sum::<u64>() as f64 / 1e8);
            ensure!(String::from_utf8_lossy(&screen).contains(&shown), "the balance of {} isn't shown", shown);
        }
    }
    g.count("blocks matched", spends);
    g.count("complete scans", complete);
    if complete > 0 && spends > 0 {
        g.nontrivial();
    }
    Ok(())
}

/// The database, against a map.
fn c26_db(g: &mut G) -> Res {
    let net = *g.pick(&networks());
    let dir = Scratch::new();
    let path = dir.join("wallet.db");
    let mut db = open(&path)?;
    let mut model: BTreeMap<OutPoint, TxOut> = BTreeMap::new();
    let mut addrs: BTreeMap<Script, (usize, Option<String>)> = BTreeMap::new();
    let txids: Vec<Txid> = (0..3u8).map(|i| Txid::hash(&[i])).collect();
    let mut removed = 0u64;
    for _ in 0..g.range(1, 40) {
        let o = OutPoint { txid: *g.pick(&txids), vout: *g.pick(&[0, 1, 2, 255, u32::MAX]) };
        match g.below(8) {
            0..=2 => {
                let s = payable(g.below(6));
                let value = if g.bool() { g.below(2_100_000_000_000_000 / 16) } else { g.below(1000) };
                let a = Address::from_script(&s, net.into()).unwrap();
                note!(g, "add {} ({})", o, value);
                match db.add_utxo(o.txid, o.vout, a, value) {
                    Ok(new) => ensure!(new != model.contains_key(&o), "adding {} says {}", o, new),
                    Err(e) => fail!("adding fails: {}", e),
                }
                model.entry(o).or_insert(TxOut { value, script_pubkey: s });
            }
            3 | 4 => {
                note!(g, "remove {}", o);
                match db.remove_utxo(&o) {
                    Ok(r) => ensure!(r.map(|(_, t)| t) == model.remove(&o), "removing {} returned another output", o),
                    Err(e) => fail!("removing fails: {}", e),
                }
                removed += 1;
            }
            5 => {
                let k = g.below(6);
                let s = payable(k);
                let label = if g.bool() { Some(format!("l{}", g.below(3))) } else { None };
                let a = Address::from_script(&s, net.into()).unwrap();
                note!(g, "address {} ({:?})", k, label);
                if let Err(e) = db.add_address(&a, k as usize, label.as_deref()) {
                    fail!("adding an address fails: {}", e);
                }
                addrs.insert(s, (k as usize, label));
            }
            6 => {
                note!(g, "open again");
                drop(db);
                db = open(&path)?;
            }
            _ => match db.utxo(&o) {
                Ok(r) => ensure!(r.map(|(_, t)| t) == model.get(&o).cloned(), "{} is another output", o),
                Err(e) => fail!("reading fails: {}", e),
            },
        }
        check_db(&db, &model, "database")?;
        match db.addresses() {
            Ok(l) => {
                let n = l.len();
                let got: BTreeMap<Script, (usize, Option<String>)> = l.into_iter().map(|a| (a.address.script_pubkey(), (a.index, a.label))).collect();
                ensure!(n == addrs.len() && got == addrs, "the addresses aren't those added");
            }
            Err(e) => fail!("reading addresses fails: {}", e),
        }
    }
    if removed > 0 {
        g.nontrivial();
    }
    Ok(())
}

/// A reorganization: the blocks of the old branch aren't undone.
fn reorg() -> bool {
    let mut g = G::random(5);
    let net = Network::Regtest;
    let dir = Scratch::new();
    let Ok(db) = open(&dir.join("wallet.db")) else { return true };
    let mine = payable(1);
    let _ = &mut g;
    let out = |v: u64| TxOut { value: v, script_pubkey: mine.clone() };
    let a = tx(1, vec![OutPoint::null()], vec![out(5)]);
    let b = tx(2, vec![OutPoint::null()], vec![out(7)]);
    let header = net.genesis();
    let (ba, bb) = (Block { header, txdata: vec![a] }, Block { header, txdata: vec![b] });
    let addr = Address::from_script(&mine, net.into()).unwrap();
    if db.add_address(&addr, 0, None).is_err() {
        return true;
    }
    let (etx, erx) = chan::unbounded();
    etx.send(Event::BlockConnected { header: ba.header, height: 1 }).ok();
    etx.send(Event::BlockMatched { block: ba.clone(), height: 1 }).ok();
    etx.send(Event::BlockDisconnected { header: ba.header, height: 1 }).ok();
    etx.send(Event::BlockConnected { header: bb.header, height: 1 }).ok();
    etx.send(Event::BlockMatched { block: bb, height: 1 }).ok();
    drop(etx);
    let (itx, irx) = chan::unbounded();
    let (stx, srx) = chan::unbounded();
    let (ltx, lrx) = chan::unbounded();
    drop(ltx);
    let mut w = Wallet::new(Mock::default(), net, db, Hw::new(DerivationPath::default()));
    w.run(0, irx, srx, lrx, erx, false, &mut vec![]).ok();
    drop((itx, stx));
    w.balance().ok() != Some(7)
}

pub static PROPS: &[Property] = &[Property {
    id: "C26",
    level: "exploration",
    rule: "a case is a chain of blocks with payments, processed in up to three sessions of the wallet, or a history of the database; non-trivial: a scan with matching blocks was completed, or an output removed",
    strategies: &[Strategy { name: "sessions", quick: 20000, thorough: 300000, case: c26 }, Strategy { name: "database", quick: 10000, thorough: 200000, case: c26_db }],
    assumptions: &["the blocks that matter are delivered, in order (C10)", "no hardware wallet is connected"],
    known: &[("a block that is disconnected by a reorganization stays in the balance and the unspent outputs", reorg)],
}];
