//! The whole client, driven through its handle, with its stores on disk, a simulated reactor and
//! simulated peers. C33 handle, C35 restarts.
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io;
use std::net::SocketAddr;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

use crossbeam_channel as chan;
use nakamoto_client::handle::Handle as _;
use nakamoto_client::{Client, Config, Domain, Event, Handle, Peer};
use nakamoto_common::bitcoin::consensus::{deserialize, serialize};
use nakamoto_common::bitcoin::hash_types::BlockHash;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::{NetworkMessage, RawNetworkMessage};
use nakamoto_common::block::tree::BlockReader;
use nakamoto_common::network::Network;
use nakamoto_net::{Disconnect, Io, Link, LocalDuration, LocalTime, Publisher, Service};

use crate::pbt::{Fail, Property, Res, Strategy, G};
use crate::scratch::Scratch;
use crate::sim::{millis, msg_str, peer_addr, short, Mode, Node, Universe};
use crate::{ensure, fail, note};

/// How long to wait for what has to happen.
pub const PATIENCE: Duration = Duration::from_secs(15);

// ---------------------------------------------------------------------------------------------
// A reactor that does what it is told.

#[derive(Debug)]
pub enum Ctl {
    Attempted(SocketAddr),
    Connected(SocketAddr, Link),
    Lost(SocketAddr),
    Bytes(SocketAddr, Vec<u8>),
    Time(LocalTime),
    Nop,
}

#[derive(Debug, Clone)]
pub enum Out {
    Write(SocketAddr, Vec<u8>),
    Connect(SocketAddr),
    Disconnect(SocketAddr, String),
    Event(String),
}

/// What the reactor says after each instruction.
pub struct Ack {
    pub outs: Vec<Out>,
    /// When the next timer expires.
    pub timer: Option<LocalTime>,
}

struct Port {
    ctl: chan::Receiver<Ctl>,
    ack: chan::Sender<Ack>,
    start: LocalTime,
    commands: Arc<AtomicU64>,
}

thread_local! {
    static PORT: RefCell<Option<Port>> = RefCell::new(None);
}

#[derive(Clone)]
pub struct Waker(chan::Sender<()>);

impl nakamoto_net::Waker for Waker {
    fn wake(&self) -> io::Result<()> {
        // The real one doesn't fail either after the end, as its other end is kept.
        self.0.send(()).ok();
        Ok(())
    }
}

pub struct TestReactor {
    port: Port,
    shutdown: chan::Receiver<()>,
    wake: (chan::Sender<()>, chan::Receiver<()>),
}

fn local() -> SocketAddr {
    ([99, 99, 99, 99], 9999).into()
}

impl nakamoto_net::Reactor<SocketAddr> for TestReactor {
    type Waker = Waker;

    fn new(shutdown: chan::Receiver<()>, listening: chan::Sender<SocketAddr>) -> Result<Self, io::Error> {
        let port = PORT.with(|p| p.borrow_mut().take()).expect("HARNESS: no port");
        listening.send(local()).ok();
        Ok(Self { port, shutdown, wake: chan::unbounded() })
    }

    fn run<S, E>(&mut self, _: &[SocketAddr], mut service: S, mut publisher: E, commands: chan::Receiver<S::Command>) -> Result<(), nakamoto_net::error::Error>
    where
        S: Service<SocketAddr>,
        S::DisconnectReason: Into<Disconnect<S::DisconnectReason>>,
        E: Publisher<S::Event>,
    {
        let mut now = self.port.start;
        let mut up: BTreeSet<SocketAddr> = BTreeSet::new();
        let mut timers: Vec<LocalTime> = vec![];
        let mut outs: Vec<Out> = vec![];
        service.initialize(now);
        loop {
            // As the real one does.
            while let Some(o) = service.next() {
                match o {
                    Io::Write(a, b) => {
                        if up.contains(&a) {
                            outs.push(Out::Write(a, b));
                        }
                    }
                    Io::Connect(a) => {
                        outs.push(Out::Connect(a));
                        up.insert(a);
                        service.attempted(&a);
                    }
                    Io::Disconnect(a, r) => {
                        if up.remove(&a) {
                            outs.push(Out::Disconnect(a, r.to_string()));
                            service.disconnected(&a, r.into());
                        }
                    }
                    Io::SetTimer(d) => timers.push(now + d),
                    Io::Event(e) => {
                        outs.push(Out::Event(format!("{:?}", e)));
                        publisher.publish(e);
                    }
                }
            }
            chan::select! {
                recv(self.wake.1) -> _ => {
                    if self.shutdown.try_recv().is_ok() {
                        return Ok(());
                    }
                    service.tick(now);
                    for c in commands.try_iter() {
                        self.port.commands.fetch_add(1, Ordering::SeqCst);
                        service.command_received(c);
                    }
                }
                recv(self.port.ctl) -> c => {
                    let Ok(c) = c else { return Ok(()) };
                    if let Ctl::Time(t) = &c {
                        now = *t;
                    }
                    service.tick(now);
                    match c {
                        Ctl::Attempted(a) => service.attempted(&a),
                        Ctl::Connected(a, l) => {
                            up.insert(a);
                            service.connected(a, &local(), l)
                        }
                        Ctl::Lost(a) => {
                            if up.remove(&a) {
                                service.disconnected(&a, Disconnect::ConnectionError(Arc::new(io::ErrorKind::ConnectionReset.into())))
                            }
                        }
                        Ctl::Bytes(a, b) => {
                            if up.contains(&a) {
                                service.message_received(&a, Cow::Borrowed(&b))
                            }
                        }
                        Ctl::Time(_) => {
                            let n = timers.len();
                            timers.retain(|t| *t > now);
                            if timers.len() < n {
                                service.timer_expired();
                            }
                        }
                        Ctl::Nop => {
                            let timer = timers.iter().min().copied();
                            self.port.ack.send(Ack { outs: std::mem::take(&mut outs), timer }).ok();
                        }
                    }
                }
            }
        }
    }

    fn waker(&self) -> Waker {
        Waker(self.wake.0.clone())
    }
}

// ---------------------------------------------------------------------------------------------
// A client and its peers.

pub type H = Handle<Waker>;

pub struct CWorld {
    pub u: Universe,
    pub nodes: BTreeMap<SocketAddr, Node>,
    /// Dialed, or connected.
    pub dialing: BTreeSet<SocketAddr>,
    pub up: BTreeMap<SocketAddr, Link>,
    pub now: LocalTime,
    pub timer: Option<LocalTime>,
    pub handle: H,
    pub events: Vec<String>,
    /// Every event, as received by a subscriber from the start.
    pub typed: Vec<Event>,
    all: chan::Receiver<Event>,
    pub disconnects: Vec<(SocketAddr, String)>,
    ctl: Option<chan::Sender<Ctl>>,
    ack: chan::Receiver<Ack>,
    pub commands: Arc<AtomicU64>,
    pub thread: Option<std::thread::JoinHandle<Result<(), String>>>,
    /// What is written, and the active chain after each input with the number of operations.
    pub log: Option<Log>,
    pub marks: Vec<(usize, Vec<BlockHash>)>,
    marked: usize,
}

/// Run something that may block.
pub fn call<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> chan::Receiver<T> {
    let (s, r) = chan::bounded(1);
    std::thread::spawn(move || {
        s.send(f()).ok();
    });
    r
}

/// Run something that has to return.
pub fn must<T: Send + 'static>(what: &str, f: impl FnOnce() -> T + Send + 'static) -> Result<T, Fail> {
    match call(f).recv_timeout(PATIENCE) {
        Ok(t) => Ok(t),
        Err(chan::RecvTimeoutError::Timeout) => fail!("{} doesn't return", what),
        Err(chan::RecvTimeoutError::Disconnected) => fail!("{} panicked", what),
    }
}

pub fn config(root: &Path, connect: Vec<SocketAddr>) -> Config {
    Config {
        network: Network::Regtest,
        domains: Domain::all(),
        connect,
        listen: vec![],
        root: root.to_path_buf(),
        verify: false,
        ..Config::default()
    }
}

impl CWorld {
    /// Start a client. Fails if it doesn't start.
    pub fn start(g: &mut G, u: Universe, nodes: BTreeMap<SocketAddr, Node>, cfg: Config, now: LocalTime) -> Result<CWorld, Fail> {
        let (ctl, ctl_rx) = chan::unbounded();
        let (ack_tx, ack) = chan::unbounded();
        let commands = Arc::new(AtomicU64::new(0));
        PORT.with(|p| *p.borrow_mut() = Some(Port { ctl: ctl_rx, ack: ack_tx, start: now, commands: commands.clone() }));
        let client: Client<TestReactor> = match Client::new() {
            Ok(c) => c,
            Err(e) => fail!("the client can't be created: {}", e),
        };
        let mut handle = client.handle();
        handle.set_timeout(PATIENCE);
        let all = handle.events();
        let seed = g.seed();
        let thread = std::thread::Builder::new()
            .name("client".into())
            .spawn(move || {
                fastrand::seed(seed);
                client.run(cfg).map_err(|e| format!("{}", e))
            })
            .unwrap();
        let mut w = CWorld {
            u,
            nodes,
            dialing: BTreeSet::new(),
            up: BTreeMap::new(),
            now,
            timer: None,
            handle,
            events: vec![],
            typed: vec![],
            all,
            disconnects: vec![],
            ctl: Some(ctl),
            ack,
            commands,
            thread: Some(thread),
            log: None,
            marks: vec![],
            marked: 0,
        };
        w.sync(g)?;
        Ok(w)
    }

    pub fn ctl(&mut self, g: &mut G, c: Ctl) -> Res {
        self.ctl.as_ref().unwrap().send(c).ok();
        self.sync(g)
    }

    /// Wait until the client has done everything, and let its outputs take effect.
    pub fn sync(&mut self, g: &mut G) -> Res {
        let dead = self.ctl.as_ref().unwrap().send(Ctl::Nop).is_err();
        let ack = if dead { None } else { self.ack.recv_timeout(PATIENCE).ok() };
        let Some(ack) = ack else {
            let t = self.thread.take().unwrap();
            for _ in 0..500 {
                if t.is_finished() {
                    break;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
            if !t.is_finished() {
                fail!("the client hangs");
            }
            match t.join() {
                Ok(Ok(())) => fail!("the client has ended"),
                Ok(Err(e)) => fail!("the client has ended: {}", e),
                Err(p) => {
                    let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    fail!("the client panicked: {}", m)
                }
            }
        };
        self.timer = ack.timer;
        for o in ack.outs {
            match o {
                Out::Write(a, b) => {
                    let m: RawNetworkMessage = match deserialize(&b) {
                        Ok(m) => m,
                        Err(e) => fail!("an undecodable message is sent: {}", e),
                    };
                    note!(g, "    -> {} {}", short(&a), msg_str(&self.u, &m.payload));
                    if self.up.contains_key(&a) {
                        if let Some(n) = self.nodes.get_mut(&a) {
                            n.handle(g, &self.u, self.now, &m.payload);
                        }
                    }
                }
                Out::Connect(a) => {
                    note!(g, "    connect {}", short(&a));
                    self.dialing.insert(a);
                }
                Out::Disconnect(a, why) => {
                    note!(g, "    disconnect {} ({})", short(&a), why);
                    self.dialing.remove(&a);
                    self.up.remove(&a);
                    self.disconnects.push((a, why));
                }
                Out::Event(e) => {
                    note!(g, "    event {}", e.chars().take(150).collect::<String>());
                    self.events.push(e)
                }
            }
        }
        self.typed.extend(self.all.try_iter());
        if let (Some(log), Some((n, c))) = (&self.log, self.marks.last()) {
            let mut c = c.clone();
            for e in &self.typed[self.marked..] {
                match e {
                    Event::BlockDisconnected { height, .. } => c.truncate(*height as usize),
                    Event::BlockConnected { height, header } => {
                        c.truncate(*height as usize);
                        c.push(header.block_hash());
                    }
                    _ => {}
                }
            }
            if log.len() != *n {
                self.marks.push((log.len(), c));
            }
        }
        self.marked = self.typed.len();
        Ok(())
    }

    pub fn accept(&mut self, g: &mut G, a: SocketAddr) -> Res {
        note!(g, "{} accepts", short(&a));
        self.dialing.remove(&a);
        self.up.insert(a, Link::Outbound);
        let now = self.now;
        if let Some(n) = self.nodes.get_mut(&a) {
            n.on_connected(Link::Outbound, now);
        }
        self.ctl(g, Ctl::Connected(a, Link::Outbound))
    }

    pub fn inbound(&mut self, g: &mut G, a: SocketAddr) -> Res {
        note!(g, "{} connects to us", short(&a));
        self.up.insert(a, Link::Inbound);
        let now = self.now;
        if let Some(n) = self.nodes.get_mut(&a) {
            n.on_connected(Link::Inbound, now);
        }
        self.ctl(g, Ctl::Connected(a, Link::Inbound))
    }

    pub fn lose(&mut self, g: &mut G, a: SocketAddr) -> Res {
        note!(g, "{} is gone", short(&a));
        self.dialing.remove(&a);
        self.up.remove(&a);
        if let Some(n) = self.nodes.get_mut(&a) {
            n.out.clear();
        }
        self.ctl(g, Ctl::Lost(a))
    }

    pub fn pending(&self) -> Vec<SocketAddr> {
        self.nodes.iter().filter(|(a, n)| !n.out.is_empty() && self.up.contains_key(a)).map(|(a, _)| *a).collect()
    }

    pub fn deliver(&mut self, g: &mut G, a: SocketAddr) -> Res {
        let Some(m) = self.nodes.get_mut(&a).and_then(|n| n.out.pop_front()) else { return Ok(()) };
        note!(g, "<- {} {}", short(&a), msg_str(&self.u, &m));
        self.send(g, a, m)
    }

    pub fn send(&mut self, g: &mut G, a: SocketAddr, m: NetworkMessage) -> Res {
        let b = serialize(&RawNetworkMessage { magic: Network::Regtest.magic(), payload: m });
        // In pieces, sometimes.
        if b.len() > 1 && g.chance(1, 10) {
            let k = g.usize(1, b.len() - 1);
            self.ctl(g, Ctl::Bytes(a, b[..k].to_vec()))?;
            if !self.up.contains_key(&a) {
                return Ok(());
            }
            return self.ctl(g, Ctl::Bytes(a, b[k..].to_vec()));
        }
        self.ctl(g, Ctl::Bytes(a, b))
    }

    pub fn advance(&mut self, g: &mut G, t: LocalTime) -> Res {
        note!(g, "time +{}ms", millis(t).saturating_sub(millis(self.now)));
        self.now = self.now.max(t);
        let t = self.now;
        self.ctl(g, Ctl::Time(t))
    }

    /// Peers accept connections and everything on the wire is delivered.
    pub fn flush(&mut self, g: &mut G) -> Res {
        for _ in 0..5000 {
            let d: Vec<SocketAddr> = self.dialing.iter().copied().collect();
            let p = self.pending();
            if d.is_empty() && p.is_empty() {
                return Ok(());
            }
            for a in d {
                if self.nodes.contains_key(&a) {
                    self.accept(g, a)?;
                } else {
                    self.lose(g, a)?;
                }
            }
            for a in p {
                if self.up.contains_key(&a) {
                    self.deliver(g, a)?;
                }
            }
        }
        crate::harness_bug!("messages keep flowing");
    }

    pub fn announce(&mut self, g: &mut G, a: SocketAddr, tip: usize) {
        let u = &self.u;
        let up = self.up.contains_key(&a);
        let Some(n) = self.nodes.get_mut(&a) else { return };
        let old = n.chain.clone();
        n.set_tip(u, tip);
        let fork = old.iter().zip(n.chain.iter()).take_while(|(x, y)| x == y).count();
        let new: Vec<usize> = n.chain[fork..].to_vec();
        note!(g, "{} now at height {} (fork at {})", short(&a), n.chain.len() - 1, fork.saturating_sub(1));
        if up && !new.is_empty() {
            let m = NetworkMessage::Headers(new.iter().map(|i| u.blocks[*i].block.header).collect());
            if n.negotiated() {
                n.out.push_back(m);
            } else {
                n.queued.push(m);
            }
        }
    }

    /// Block hashes of the client's active chain.
    pub fn chain(&self) -> Result<Vec<BlockHash>, Fail> {
        let h = self.handle.clone();
        let (s, r) = chan::bounded(1);
        let q = must("query_tree", move || {
            h.query_tree(move |t: &dyn BlockReader| {
                let c: Vec<BlockHash> = t.iter().map(|(_, b)| b.block_hash()).collect();
                s.send(c).ok();
            })
        })?;
        if let Err(e) = q {
            fail!("query_tree fails: {}", e);
        }
        match r.recv_timeout(PATIENCE) {
            Ok(c) => Ok(c),
            Err(e) => fail!("the query isn't run: {}", e),
        }
    }

    /// Run until `done`, or for the given time.
    pub fn calm(&mut self, g: &mut G, secs: u64, done: &mut dyn FnMut(&mut CWorld) -> Result<bool, Fail>) -> Result<bool, Fail> {
        let end = self.now + LocalDuration::from_secs(secs);
        for _ in 0..2000 {
            self.flush(g)?;
            if done(self)? {
                return Ok(true);
            }
            match self.timer {
                Some(t) if t <= end => self.advance(g, t)?,
                _ => return Ok(false),
            }
        }
        Ok(false)
    }

    /// Shut the client down.
    pub fn stop(&mut self) -> Res {
        let h = self.handle.clone();
        if let Err(e) = must("shutdown", move || h.shutdown())? {
            fail!("shutting down fails: {}", e);
        }
        self.join()
    }

    /// End of the client, as if it was killed.
    pub fn kill(&mut self) -> Res {
        self.ctl = None;
        self.join()
    }

    fn join(&mut self) -> Res {
        let Some(t) = self.thread.take() else { return Ok(()) };
        let end = std::time::Instant::now() + PATIENCE;
        let mut n = 0u32;
        while !t.is_finished() {
            n += 1;
            if n > 100 {
                std::thread::sleep(Duration::from_micros(100));
            } else {
                std::thread::yield_now();
            }
            if std::time::Instant::now() > end {
                fail!("the client doesn't end");
            }
        }
        match t.join() {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) => fail!("the client ended with an error: {}", e),
            Err(_) => fail!("the client panicked"),
        }
    }
}

impl Drop for CWorld {
    fn drop(&mut self) {
        self.ctl = None;
        if let Some(t) = self.thread.take() {
            for _ in 0..2000 {
                if t.is_finished() {
                    t.join().ok();
                    return;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
        }
    }
}

fn gen_world(g: &mut G, reorgs: bool) -> (Universe, BTreeMap<SocketAddr, Node>, Vec<usize>) {
    let mut u = Universe::new();
    let n = g.range(1, 14);
    let trunk = u.grow(g, 0, n);
    let mut tips = vec![trunk];
    if reorgs {
        let c = u.chain(trunk);
        for _ in 0..g.range(0, 2) {
            let at = c[g.below(c.len() as u64) as usize];
            let k = g.range(1, 5);
            tips.push(u.grow(g, at, k));
        }
    }
    let k = g.usize(1, 4);
    let mut nodes = BTreeMap::new();
    for i in 0..k {
        let tip = *g.pick(&tips);
        let mut nd = Node::new(peer_addr(i), &u, tip);
        if i > 0 && g.chance(1, 3) {
            nd.services.remove(ServiceFlags::COMPACT_FILTERS);
        }
        nodes.insert(nd.addr, nd);
    }
    (u, nodes, tips)
}

fn start_time(g: &mut G, u: &Universe) -> LocalTime {
    LocalTime::from_secs(u.blocks.iter().map(|b| b.block.header.time).max().unwrap() as u64 + g.range(30, 5000))
}

// ---------------------------------------------------------------------------------------------
// C33

enum Sub {
    Events(usize, chan::Receiver<Event>),
    Blocks(usize, chan::Receiver<(nakamoto_common::block::Block, u64)>),
    Filters(usize, chan::Receiver<(nakamoto_common::block::filter::BlockFilter, BlockHash, u64)>),
}

fn check_sub(w: &CWorld, s: &Sub) -> Res {
    match s {
        Sub::Events(from, r) => {
            let got: Vec<String> = r.try_iter().map(|e| format!("{:?}", e)).collect();
            let want = &w.events[*from..];
            if got != want {
                let k = got.iter().zip(want).take_while(|(a, b)| a == b).count();
                fail!("of {} events, a subscriber got {} (different from number {}: {:?} instead of {:?})", want.len(), got.len(), k, got.get(k), want.get(k));
            }
        }
        Sub::Blocks(from, r) => {
            let got: Vec<(BlockHash, u64)> = r.try_iter().map(|(b, h)| (b.block_hash(), h)).collect();
            let want: Vec<(BlockHash, u64)> = w.typed[*from..].iter().filter_map(|e| if let Event::BlockProcessed { block, height, .. } = e { Some((block.block_hash(), *height)) } else { None }).collect();
            ensure!(got == want, "of {} blocks processed, a subscriber got {}", want.len(), got.len());
        }
        Sub::Filters(from, r) => {
            let got: Vec<(Vec<u8>, BlockHash, u64)> = r.try_iter().map(|(f, b, h)| (f.content, b, h)).collect();
            let want: Vec<(Vec<u8>, BlockHash, u64)> =
                w.typed[*from..].iter().filter_map(|e| if let Event::FilterReceived { filter, block, height, .. } = e { Some((filter.content.clone(), *block, *height)) } else { None }).collect();
            ensure!(got == want, "of {} filters received, a subscriber got {}", want.len(), got.len());
            for (f, b, h) in got {
                let Some(i) = w.u.by_hash.get(&b) else { fail!("filter of an unknown block received") };
                ensure!(w.u.blocks[*i].filter.content == f && w.u.blocks[*i].height == h, "a wrong filter is received for height {}", h);
            }
        }
    }
    Ok(())
}

/// Waits in progress.
enum Wait {
    Height(u64, usize, chan::Receiver<Result<BlockHash, String>>),
    Peers(usize, ServiceFlags, usize, chan::Receiver<Result<Vec<(SocketAddr, u64, ServiceFlags)>, String>>),
}

struct Obs {
    /// The active chains seen.
    chains: Vec<Vec<BlockHash>>,
    /// The peers seen.
    peers: Vec<Vec<(SocketAddr, ServiceFlags)>>,
    /// Number of events considered.
    events: usize,
}

impl Obs {
    fn update(&mut self, w: &CWorld) -> Res {
        // In between.
        for e in &w.typed[self.events..] {
            match e {
                Event::BlockConnected { height, header } => {
                    let mut c = self.chains.last().cloned().unwrap_or_default();
                    c.truncate(*height as usize);
                    if c.len() == *height as usize {
                        c.push(header.block_hash());
                        self.chains.push(c);
                    }
                }
                Event::PeerNegotiated { addr, services, .. } => {
                    let mut p = self.peers.last().cloned().unwrap_or_default();
                    p.retain(|x| x.0 != *addr);
                    p.push((*addr, *services));
                    p.sort_by_key(|p| p.0);
                    self.peers.push(p);
                }
                Event::PeerDisconnected { addr, .. } => {
                    let mut p = self.peers.last().cloned().unwrap_or_default();
                    p.retain(|x| x.0 != *addr);
                    self.peers.push(p);
                }
                _ => {}
            }
        }
        self.events = w.typed.len();
        let c = w.chain()?;
        if self.chains.last() != Some(&c) {
            self.chains.push(c);
        }
        let h = w.handle.clone();
        let p = match must("get_peers", move || h.get_peers(ServiceFlags::NONE))? {
            Ok(p) => p,
            Err(e) => fail!("get_peers fails: {}", e),
        };
        let mut p: Vec<(SocketAddr, ServiceFlags)> = p.iter().map(|p| (p.addr, p.services)).collect();
        p.sort_by_key(|p| p.0);
        if self.peers.last() != Some(&p) {
            self.peers.push(p);
        }
        Ok(())
    }
}

fn check_wait(o: &Obs, w: &Wait, end: bool) -> Result<bool, Fail> {
    match w {
        Wait::Height(h, from, r) => {
            let seen: Vec<BlockHash> = o.chains[*from..].iter().filter_map(|c| c.get(*h as usize).copied()).collect();
            let res = if seen.is_empty() {
                match r.try_recv() {
                    Ok(x) => x,
                    Err(_) => return Ok(false),
                }
            } else {
                match r.recv_timeout(PATIENCE) {
                    Ok(x) => x,
                    Err(_) => fail!("waiting for height {} doesn't return, though it was reached", h),
                }
            };
            match res {
                Ok(hash) => ensure!(seen.contains(&hash), "waiting for height {} returned {} which wasn't the block at that height", h, hash),
                Err(_) if seen.is_empty() && end => {}
                Err(e) => fail!("waiting for height {} fails: {}", h, e),
            }
        }
        Wait::Peers(n, s, from, r) => {
            let counts: Vec<Vec<SocketAddr>> = o.peers[*from..].iter().map(|p| p.iter().filter(|(_, f)| f.has(*s)).map(|(a, _)| *a).collect::<Vec<_>>()).collect();
            let reached = counts.iter().any(|p| p.len() >= *n);
            let res = if reached {
                match r.recv_timeout(PATIENCE) {
                    Ok(x) => x,
                    Err(_) => fail!("waiting for {} peers doesn't return, though there were as many", n),
                }
            } else {
                match r.try_recv() {
                    Ok(x) => x,
                    Err(_) => return Ok(false),
                }
            };
            match res {
                Ok(v) => {
                    let a: BTreeSet<SocketAddr> = v.iter().map(|x| x.0).collect();
                    ensure!(a.len() == v.len() && v.len() >= *n, "waiting for {} peers returned {}", n, a.len());
                    ensure!(v.iter().all(|x| x.2.has(*s)), "waiting for peers returned one without the services");
                    ensure!(reached, "waiting for {} peers returned, though there were never as many", n);
                    ensure!(
                        counts.iter().any(|p| a.iter().all(|x| p.contains(x))),
                        "waiting for {} peers returned peers that weren't connected at the same time",
                        n
                    );
                }
                Err(_) if !reached && end => {}
                Err(e) => fail!("waiting for {} peers fails: {}", n, e),
            }
        }
    }
    Ok(true)
}

/// Wait until the client has processed more commands.
fn processed(w: &CWorld, n: u64) -> Res {
    let end = std::time::Instant::now() + PATIENCE;
    while w.commands.load(Ordering::SeqCst) < n {
        if std::time::Instant::now() > end {
            fail!("a command isn't processed");
        }
        std::thread::sleep(Duration::from_micros(50));
    }
    Ok(())
}

fn get_peers(w: &CWorld, s: ServiceFlags) -> Result<Vec<Peer>, Fail> {
    let h = w.handle.clone();
    match must("get_peers", move || h.get_peers(s))? {
        Ok(p) => Ok(p),
        Err(e) => fail!("get_peers fails: {}", e),
    }
}

fn even(p: Peer) -> bool {
    match p.addr.ip() {
        std::net::IpAddr::V4(i) => i.octets()[1] % 2 == 0,
        _ => false,
    }
}

fn c33(g: &mut G) -> Res {
    let (u, nodes, tips) = gen_world(g, true);
    let dir = Scratch::new();
    let persistent = g.bool();
    let addrs: Vec<SocketAddr> = nodes.keys().copied().collect();
    let cfg = config(dir.path(), if persistent { addrs.clone() } else { vec![] });
    let now = start_time(g, &u);
    let mut w = CWorld::start(g, u, nodes, cfg, now)?;
    let mut obs = Obs { chains: vec![], peers: vec![], events: 0 };
    obs.update(&w)?;
    let mut subs: Vec<Sub> = vec![];
    let mut waits: Vec<Wait> = vec![];
    let mut submitted = vec![];
    let (mut answers, mut returned) = (0u64, 0u64);
    let steps = g.range(8, 50);
    for _ in 0..steps {
        let dialing: Vec<SocketAddr> = w.dialing.iter().copied().collect();
        let up: Vec<SocketAddr> = w.up.keys().copied().collect();
        let pending = w.pending();
        let some = |v: &[SocketAddr]| if v.is_empty() { 0 } else { 1 };
        let down: Vec<SocketAddr> = addrs.iter().filter(|a| !w.up.contains_key(a) && !w.dialing.contains(a)).copied().collect();
        match g.weighted(&[12 * some(&dialing), 14 * some(&pending), some(&up), 3, 3 * some(&down), 1, 4, 3, 3, 3, 2 * some(&up), 3 * some(&down), 1 * some(&up), 2, 3, 3]) {
            0 => {
                let a = *g.pick(&dialing);
                if w.nodes.contains_key(&a) {
                    w.accept(g, a)?;
                } else {
                    w.lose(g, a)?;
                }
            }
            1 => {
                let a = *g.pick(&pending);
                w.deliver(g, a)?;
            }
            2 => {
                let a = *g.pick(&up);
                w.lose(g, a)?;
            }
            3 => {
                let a = *g.pick(&addrs);
                let tip = if g.bool() {
                    *g.pick(&tips)
                } else {
                    let at = w.nodes[&a].tip;
                    let k = g.range(1, 3);
                    w.u.grow(g, at, k)
                };
                w.announce(g, a, tip);
            }
            4 => {
                let a = *g.pick(&down);
                w.inbound(g, a)?;
            }
            5 => {
                if let Some(t) = w.timer {
                    w.advance(g, t)?;
                }
            }
            6 => w.flush(g)?,
            7 => {
                note!(g, "subscribe");
                let s = match g.below(3) {
                    0 => Sub::Events(w.events.len(), w.handle.clone().events()),
                    1 => Sub::Blocks(w.typed.len(), w.handle.blocks()),
                    _ => Sub::Filters(w.typed.len(), w.handle.filters()),
                };
                subs.push(s);
            }
            8 => {
                if !subs.is_empty() && g.chance(1, 4) {
                    note!(g, "unsubscribe");
                    let k = g.below(subs.len() as u64) as usize;
                    subs.remove(k);
                }
            }
            9 => {
                let h = g.range(0, w.u.blocks.iter().map(|b| b.height).max().unwrap() + 2);
                note!(g, "wait for height {}", h);
                let n = w.commands.load(Ordering::SeqCst);
                let hd = w.handle.clone();
                let from = obs.chains.len() - 1;
                waits.push(Wait::Height(h, from, call(move || hd.wait_for_height(h).map_err(|e| e.to_string()))));
                processed(&w, n + 1)?;
                w.sync(g)?;
            }
            10 | 15 => {
                let n = g.usize(0, addrs.len());
                let s = *g.pick(&[ServiceFlags::NONE, ServiceFlags::NETWORK, ServiceFlags::COMPACT_FILTERS]);
                note!(g, "wait for {} peers ({})", n, s);
                let c = w.commands.load(Ordering::SeqCst);
                let hd = w.handle.clone();
                let from = obs.peers.len() - 1;
                waits.push(Wait::Peers(n, s, from, call(move || hd.wait_for_peers(n, s).map_err(|e| e.to_string()))));
                processed(&w, c + 1)?;
                w.sync(g)?;
            }
            11 => {
                // Connect.
                let a = *g.pick(&down);
                note!(g, "connect to {}", short(&a));
                let n = w.commands.load(Ordering::SeqCst);
                let hd = w.handle.clone();
                let r = call(move || hd.connect(a).map_err(|e| e.to_string()));
                processed(&w, n + 1)?;
                w.sync(g)?;
                if w.dialing.contains(&a) {
                    w.accept(g, a)?;
                    match r.recv_timeout(PATIENCE) {
                        Ok(Ok(l)) => ensure!(l == Link::Outbound, "connecting returned an inbound link"),
                        Ok(Err(e)) => fail!("connecting fails: {}", e),
                        Err(_) => fail!("connecting doesn't return"),
                    }
                    returned += 1;
                } else {
                    // It may not want to, for example if it is already trying.
                    g.label("connect ignored");
                }
            }
            12 => {
                let a = *g.pick(&up);
                note!(g, "disconnect from {}", short(&a));
                let n = w.commands.load(Ordering::SeqCst);
                let hd = w.handle.clone();
                let r = call(move || hd.disconnect(a).map_err(|e| e.to_string()));
                processed(&w, n + 1)?;
                w.sync(g)?;
                match r.recv_timeout(PATIENCE) {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => fail!("disconnecting fails: {}", e),
                    Err(_) => fail!("disconnecting doesn't return"),
                }
                w.sync(g)?;
                ensure!(!w.up.contains_key(&a), "disconnecting returned, but the peer is still connected");
                returned += 1;
            }
            13 => {
                // Rescan, filters, blocks.
                let hd = w.handle.clone();
                let c = w.chain()?;
                let n = w.commands.load(Ordering::SeqCst);
                let top = c.len() as u64 - 1;
                match g.below(3) {
                    0 => {
                        let from = g.range(0, top);
                        note!(g, "rescan from {}", from);
                        let k = g.below(crate::sim::SCRIPTS as u64) as usize;
                        if let Err(e) = must("rescan", move || hd.rescan(from.., [crate::sim::script(k)].into_iter()))? {
                            fail!("rescan fails: {}", e);
                        }
                    }
                    1 => {
                        let b = c[g.below(c.len() as u64) as usize];
                        note!(g, "request block");
                        if let Err(e) = must("request_block", move || hd.request_block(&b))? {
                            fail!("request_block fails: {}", e);
                        }
                    }
                    _ => {
                        let a = g.range(0, top);
                        let b = g.range(a, top);
                        note!(g, "request filters {}..={}", a, b);
                        // There may be no peers, or no filter headers.
                        let _ = must("request_filters", move || hd.request_filters(a..=b).is_ok())?;
                    }
                }
                processed(&w, n + 1)?;
                w.sync(g)?;
            }
            14 => {
                // Questions.
                let hd = w.handle.clone();
                let c = w.chain()?;
                answers += 1;
                match g.below(6) {
                    0 => {
                        let (h, hdr, work) = match must("get_tip", move || hd.get_tip())? {
                            Ok(x) => x,
                            Err(e) => fail!("get_tip fails: {}", e),
                        };
                        ensure!(h as usize == c.len() - 1 && hdr.block_hash() == c[c.len() - 1], "get_tip returned another block than the tip");
                        // On this network, every block has the same work.
                        let one = w.u.blocks[0].block.header.work();
                        let mut sum = one;
                        for _ in 0..h {
                            sum = sum + one;
                        }
                        ensure!(work == sum, "get_tip returned the wrong work");
                    }
                    1 => {
                        let h = g.range(0, c.len() as u64 + 1);
                        let b = match must("get_block_by_height", move || hd.get_block_by_height(h))? {
                            Ok(x) => x,
                            Err(e) => fail!("get_block_by_height fails: {}", e),
                        };
                        ensure!(b.map(|b| b.block_hash()) == c.get(h as usize).copied(), "get_block_by_height returned the wrong block for height {}", h);
                    }
                    2 => {
                        let i = g.below(w.u.blocks.len() as u64) as usize;
                        let hash = w.u.blocks[i].hash;
                        let b = match must("get_block", move || hd.get_block(&hash))? {
                            Ok(x) => x,
                            Err(e) => fail!("get_block fails: {}", e),
                        };
                        match b {
                            Some((h, b)) => ensure!(b.block_hash() == hash && h == w.u.blocks[i].height, "get_block returned another block"),
                            None => ensure!(!c.contains(&hash), "get_block returned nothing for a block of the active chain"),
                        }
                    }
                    3 => {
                        let i = g.below(w.u.blocks.len() as u64) as usize;
                        let to = w.u.blocks[i].hash;
                        let r = match must("find_branch", move || hd.find_branch(&to))? {
                            Ok(x) => x,
                            Err(e) => fail!("find_branch fails: {}", e),
                        };
                        if let Some((h, v)) = r {
                            let up = w.u.chain(i);
                            let fork = up.iter().take_while(|k| c.get(w.u.blocks[**k].height as usize) == Some(&w.u.blocks[**k].hash)).count() as u64 - 1;
                            let want: Vec<BlockHash> = up[fork as usize..].iter().map(|k| w.u.blocks[*k].hash).collect();
                            let got: Vec<BlockHash> = v.iter().map(|b| b.block_hash()).collect();
                            ensure!(h == fork && got == want, "find_branch returned the wrong branch");
                        }
                    }
                    4 => {
                        let s = *g.pick(&[ServiceFlags::NONE, ServiceFlags::NETWORK, ServiceFlags::COMPACT_FILTERS]);
                        let p = get_peers(&w, s)?;
                        for x in &p {
                            let Some(l) = w.up.get(&x.addr) else { fail!("get_peers returned a peer that isn't connected") };
                            let n = &w.nodes[&x.addr];
                            ensure!(x.link == *l && x.services == n.services && x.user_agent == n.user_agent && x.services.has(s), "get_peers returned the wrong information about a peer");
                        }
                        for (a, n) in &w.nodes {
                            if w.up.contains_key(a) && n.negotiated() && n.out.is_empty() && n.services.has(s) {
                                ensure!(p.iter().filter(|x| x.addr == *a).count() == 1, "get_peers doesn't return {}", short(a));
                            }
                        }
                    }
                    _ => {
                        let p = get_peers(&w, ServiceFlags::NONE)?;
                        let mut want: Vec<SocketAddr> = p.iter().filter(|p| even((*p).clone())).map(|p| p.addr).collect();
                        let before: BTreeMap<SocketAddr, usize> = w.nodes.iter().map(|(a, n)| (*a, n.got.len())).collect();
                        let mut got = match must("broadcast", move || hd.broadcast(NetworkMessage::Alert(vec![1, 2, 3]), even))? {
                            Ok(x) => x,
                            Err(e) => fail!("broadcast fails: {}", e),
                        };
                        got.sort();
                        want.sort();
                        w.sync(g)?;
                        ensure!(want.iter().all(|a| got.contains(a)), "broadcasting skipped a peer");
                        for a in &addrs {
                            let n = w.nodes[a].got[before[a].min(w.nodes[a].got.len())..].iter().filter(|m| matches!(m, NetworkMessage::Alert(_))).count();
                            ensure!(n == got.contains(a) as usize, "broadcasting sent {} messages to {}, reported: {}", n, short(a), got.contains(a));
                        }
                    }
                }
            }
            _ => {
                // Transactions, headers.
                let hd = w.handle.clone();
                if g.bool() {
                    let out = nakamoto_common::bitcoin::TxOut { value: 1000, script_pubkey: crate::sim::script(1) };
                    let op = nakamoto_common::bitcoin::OutPoint { txid: w.u.blocks[0].block.txdata[0].txid(), vout: w.u.blocks.len() as u32 };
                    let tx = w.u.tx(vec![op], vec![out]);
                    let id = tx.txid();
                    note!(g, "submit a transaction");
                    let t = tx.clone();
                    let r = must("submit_transaction", move || hd.submit_transaction(t))?;
                    w.sync(g)?;
                    let hd = w.handle.clone();
                    let back = match must("get_submitted_transaction", move || hd.get_submitted_transaction(&id))? {
                        Ok(x) => x,
                        Err(e) => fail!("get_submitted_transaction fails: {}", e),
                    };
                    match r {
                        Ok(p) => {
                            ensure!(p.iter().all(|a| w.up.contains_key(a) || w.disconnects.iter().any(|(x, _)| x == a)), "a transaction is announced to a peer that isn't connected");
                            ensure!(back == Some(tx), "a submitted transaction isn't found");
                            submitted.push(id);
                        }
                        Err(_) => {
                            let any = w.nodes.iter().any(|(a, n)| w.up.contains_key(a) && n.negotiated() && n.out.is_empty() && n.relay);
                            ensure!(!any, "a transaction is refused though there is a peer to announce it to");
                        }
                    }
                } else {
                    let i = g.below(w.u.blocks.len() as u64) as usize;
                    let hs: Vec<_> = w.u.chain(i)[1..].iter().map(|k| w.u.blocks[*k].block.header).collect();
                    note!(g, "import {} headers", hs.len());
                    let r = match must("import_headers", move || hd.import_headers(hs))? {
                        Ok(r) => r,
                        Err(e) => fail!("import_headers fails: {}", e),
                    };
                    w.sync(g)?;
                    let c = w.chain()?;
                    match r {
                        Ok(nakamoto_common::block::tree::ImportResult::TipChanged { hash, height, .. }) => {
                            ensure!(c.len() as u64 == height + 1 && c[c.len() - 1] == hash, "importing returned another tip than it leads to")
                        }
                        Ok(nakamoto_common::block::tree::ImportResult::TipUnchanged) => {
                            ensure!(Some(&c) == obs.chains.last(), "importing returned that the tip is unchanged, but it isn't")
                        }
                        Err(e) => fail!("valid headers are refused: {}", e),
                    }
                    ensure!(c.len() as u64 > w.u.blocks[i].height, "after importing {} valid headers, the height is {}", w.u.blocks[i].height, c.len() - 1);
                }
            }
        }
        obs.update(&w)?;
        let mut keep = vec![];
        for x in waits {
            if check_wait(&obs, &x, false)? {
                returned += 1;
            } else {
                keep.push(x);
            }
        }
        waits = keep;
    }
    w.sync(g)?;
    ensure!(w.typed.iter().map(|e| format!("{:?}", e)).collect::<Vec<_>>() == w.events, "not every event was published");
    for s in &subs {
        check_sub(&w, s)?;
    }
    // Shut down, perhaps with calls going on.
    let mut busy = vec![];
    for _ in 0..g.below(3) {
        let hd = w.handle.clone();
        busy.push(call(move || {
            let mut n = 0u64;
            while hd.get_tip().is_ok() {
                n += 1;
            }
            n
        }));
    }
    let late = g.chance(1, 8);
    w.stop()?;
    for b in busy {
        if b.recv_timeout(PATIENCE).is_err() {
            fail!("a call doesn't return after the client was shut down");
        }
        g.label("calls during shutdown");
    }
    // Waits for what didn't happen end when they time out.
    for x in &waits {
        check_wait(&obs, x, true)?;
    }
    if late {
        let hd = w.handle.clone();
        ensure!(must("get_tip", move || hd.get_tip().is_err())?, "the client answers after it was shut down");
        let hd = w.handle.clone();
        ensure!(must("wait_for_height", move || hd.wait_for_height(0).is_err())?, "the client answers after it was shut down");
        let hd = w.handle.clone();
        must("shutdown", move || hd.shutdown().is_ok())?;
    }
    g.count("events", w.events.len() as u64);
    g.count("answers", answers);
    g.count("waits", returned);
    if returned > 0 || answers > 0 {
        g.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C35

use crate::fslog::{self, Files, Log, Op};
use nakamoto_chain::block::store::File as FileStore;
use nakamoto_chain::filter::cache::StoredHeader;
use nakamoto_common::block::store::{Genesis, Store};
use nakamoto_common::block::BlockHeader;

fn store_dir(root: &Path) -> PathBuf {
    root.join(".nakamoto").join(Network::Regtest.as_str())
}

/// The headers in a store, without what was written partially.
fn stored<H: 'static + Copy + nakamoto_common::bitcoin::consensus::Encodable + nakamoto_common::bitcoin::consensus::Decodable>(files: &Files, name: &str, genesis: H) -> Vec<H> {
    let dir = Scratch::new();
    let p = dir.join("db");
    let key = store_dir(Path::new("")).join(name);
    let Some(d) = files.get(&key) else { return vec![] };
    std::fs::write(&p, d).unwrap();
    let Ok(st) = FileStore::open(&p, genesis) else { return vec![] };
    if st.check().is_err() {
        st.heal().ok();
    }
    st.iter().filter_map(|r| r.ok()).map(|(_, h)| h).collect()
}

fn stored_chain(f: &Files) -> Vec<BlockHash> {
    stored::<BlockHeader>(f, "headers.db", Network::Regtest.genesis()).iter().map(|h| h.block_hash()).collect()
}

/// Lowest height at which the stored filter header isn't that of the stored block.
fn stale(u: &Universe, f: &Files) -> Option<u64> {
    let c = stored_chain(f);
    let fs = stored(f, "filters.db", StoredHeader::genesis(Network::Regtest));
    if fs.len() > c.len() {
        // This the client can tell.
        return None;
    }
    for (h, (b, x)) in c.iter().zip(fs.iter()).enumerate() {
        if let Some(i) = u.by_hash.get(b) {
            if u.blocks[*i].fheader != x.header {
                return Some(h as u64);
            }
        }
    }
    None
}

fn prefix(a: &[BlockHash], b: &[BlockHash]) -> usize {
    a.iter().zip(b).take_while(|(x, y)| x == y).count()
}

/// One life of a client.
struct Life {
    start: Files,
    root: PathBuf,
    ops: Vec<Op>,
    /// After each step: number of operations, and the active chain.
    marks: Vec<(usize, Vec<BlockHash>)>,
}

const EVER: u64 = 3 * 3600;

/// Let the client sync. All peers are honest.
fn settle(g: &mut G, w: &mut CWorld, what: &str) -> Res {
    // One best chain, from now on.
    let best = w.u.best(w.nodes.values().map(|n| n.tip).chain(w.u.by_hash.get(w.chain()?.last().unwrap()).copied()));
    let tip = w.u.grow(g, best, 1);
    let addrs: Vec<SocketAddr> = w.nodes.keys().copied().collect();
    for a in addrs {
        w.announce(g, a, tip);
    }
    let goal: Vec<BlockHash> = w.u.chain(tip).iter().map(|i| w.u.blocks[*i].hash).collect();
    let top = goal.len() as u64 - 1;
    let synced = w.calm(g, EVER, &mut |w| {
        let filters = w.typed.iter().rev().find_map(|e| match e {
            Event::FilterHeadersSynced { height } => Some(*height),
            Event::Ready { filter_tip, .. } => Some(*filter_tip),
            _ => None,
        });
        Ok(filters == Some(top) && w.chain()? == goal)
    })?;
    for (a, why) in &w.disconnects {
        ensure!(why.contains("timed out") || why.contains("connection limit") || why.contains("command"), "{}: {} is disconnected: {}", what, short(a), why);
    }
    if !synced {
        let c = w.chain()?;
        let f = w.typed.iter().rev().find_map(|e| match e {
            Event::FilterHeadersSynced { height } => Some(*height),
            Event::Ready { filter_tip, .. } => Some(*filter_tip),
            _ => None,
        });
        fail!("{}: with honest peers at height {}, the client gets to height {} ({} blocks in common) and filter header height {:?}", what, top, c.len() - 1, prefix(&c, &goal), f);
    }
    Ok(())
}

fn c35(g: &mut G) -> Res {
    let (mut u, mut nodes, mut tips) = gen_world(g, true);
    let mut now = start_time(g, &u);
    let mut dir = Scratch::new();
    let lives = g.range(1, 3);
    let mut torn = 0u64;
    let mut reorg_crash = false;
    for life in 0..=lives {
        let last = life == lives;
        let root = dir.path().to_path_buf();
        let addrs: Vec<SocketAddr> = nodes.keys().copied().collect();
        let start = fslog::read(&root);
        let log = Log::start(&root);
        note!(g, "start {}", life + 1);
        let mut w = CWorld::start(g, u, nodes, config(&root, addrs.clone()), now)?;
        w.marks.push((log.len(), w.chain()?));
        w.log = Some(log);
        if g.chance(1, 3) {
            let hd = w.handle.clone();
            let ks: Vec<_> = (0..2).map(crate::sim::script).collect();
            if let Err(e) = must("rescan", move || hd.rescan(0.., ks.into_iter()))? {
                fail!("rescan fails: {}", e);
            }
            w.sync(g)?;
        }
        let steps = if last { 0 } else { g.range(1, 25) };
        for _ in 0..steps {
            let dialing: Vec<SocketAddr> = w.dialing.iter().copied().collect();
            let up: Vec<SocketAddr> = w.up.keys().copied().collect();
            let pending = w.pending();
            let some = |v: &[SocketAddr]| if v.is_empty() { 0 } else { 1 };
            match g.weighted(&[6 * some(&dialing), 12 * some(&pending), some(&up), 6, 1, 6]) {
                0 => {
                    let a = *g.pick(&dialing);
                    if w.nodes.contains_key(&a) {
                        w.accept(g, a)?;
                    } else {
                        w.lose(g, a)?;
                    }
                }
                1 => {
                    let a = *g.pick(&pending);
                    w.deliver(g, a)?;
                }
                2 => {
                    let a = *g.pick(&up);
                    w.lose(g, a)?;
                }
                3 => {
                    let a = *g.pick(&addrs);
                    let tip = match g.below(3) {
                        0 => *g.pick(&tips),
                        1 => {
                            let at = w.nodes[&a].tip;
                            let k = g.range(1, 3);
                            w.u.grow(g, at, k)
                        }
                        _ => {
                            // A longer branch.
                            let c = w.u.chain(w.nodes[&a].tip);
                            let d = g.range(1, 4).min(c.len() as u64 - 1);
                            let k = d + g.range(1, 2);
                            w.u.grow(g, c[c.len() - 1 - d as usize], k)
                        }
                    };
                    tips.push(tip);
                    w.announce(g, a, tip);
                }
                4 => {
                    if let Some(t) = w.timer {
                        w.advance(g, t)?;
                    }
                }
                _ => w.flush(g)?,
            }
        }
        if last {
            settle(g, &mut w, &format!("after {} restart(s)", lives))?;
            w.stop()?;
            let f = fslog::read(&root);
            let c = stored_chain(&f);
            let tip = w.nodes.values().next().unwrap().tip;
            let goal: Vec<usize> = w.u.chain(tip);
            ensure!(c.iter().eq(goal.iter().map(|i| &w.u.blocks[*i].hash)), "the stored chain isn't the one the client had");
            let fs = stored(&f, "filters.db", StoredHeader::genesis(Network::Regtest));
            ensure!(
                fs.len() == goal.len() && fs.iter().zip(&goal).all(|(x, i)| x.header == w.u.blocks[*i].fheader && x.hash == w.u.blocks[*i].fhash),
                "the stored filter headers aren't those of the chain"
            );
            break;
        }
        let clean = g.chance(1, 4);
        let c = w.chain()?;
        if w.marks.last().map(|m| &m.1) != Some(&c) {
            crate::harness_bug!("the chain isn't tracked");
        }
        if clean {
            w.stop()?;
        } else {
            w.kill()?;
        }
        let l = Life { start, root: root.clone(), ops: w.log.take().unwrap().ops(), marks: std::mem::take(&mut w.marks) };
        // The files have to be what the log says.
        let n = l.ops.len();
        if fslog::state(&l.root, &l.start, &l.ops, n, None) != fslog::read(&root) {
            crate::harness_bug!("the log of the files is wrong");
        }
        // Where does it crash?
        let mut at = n;
        let mut part = None;
        if !clean && n > 0 && g.chance(7, 8) {
            let cuts: Vec<usize> = l.ops.iter().enumerate().filter(|(_, o)| matches!(o, Op::Truncate(p, _) if p.extension().map(|e| e == "db").unwrap_or(false))).map(|(i, _)| i).collect();
            at = if !cuts.is_empty() && g.bool() { (*g.pick(&cuts) + g.usize(0, 24)).min(n) } else { g.usize(0, n) };
            if let Some(Op::Write(_, _, d)) = l.ops.get(at) {
                if d.len() > 1 && g.chance(1, 3) {
                    part = Some(g.usize(1, d.len() - 1));
                }
            }
        }
        let f = fslog::state(&l.root, &l.start, &l.ops, at, part);
        let i = l.marks.iter().rposition(|(n, _)| *n <= at).map(|i| i as i64).unwrap_or(-1);
        let before = if i >= 0 { &l.marks[i as usize].1[..] } else { &[] };
        let after = l.marks.get((i + 1) as usize).map(|m| &m.1[..]).unwrap_or(before);
        let keep = prefix(before, after);
        let reorg = keep < before.len();
        let got = stored_chain(&f);
        note!(g, "crash after {} of {} operations (and {:?} bytes): stored height {}, was {} then {}", at, n, part, got.len() as i64 - 1, before.len() as i64 - 1, after.len() as i64 - 1);
        if part.is_some() {
            torn += 1;
        }
        if at < n {
            g.label("crash in between");
        }
        if reorg {
            g.label("crash in a reorg");
            reorg_crash = true;
        }
        if i >= 0 {
            ensure!(prefix(&got, before) >= keep.min(before.len()), "of {} blocks the client had (and kept), {} are stored", keep, prefix(&got, before));
            // It may have switched branches more than once.
            for k in 1..got.len() {
                let ok = match (w.u.by_hash.get(&got[k]), w.u.by_hash.get(&got[k - 1])) {
                    (Some(x), Some(y)) => w.u.blocks[*x].parent == *y && *x != 0,
                    _ => false,
                };
                ensure!(ok, "what is stored at height {} doesn't belong to the chain", k);
            }
        }
        if let Some(h) = stale(&w.u, &f) {
            // Known: see known-findings.txt. Only if block headers of a new branch were written,
            // and the filter headers weren't rolled back yet.
            ensure!(reorg && at < l.marks[(i + 1) as usize].0, "the filter header stored for height {} isn't that of the block", h);
            g.label("stale filter headers after a crash in a reorg (known)");
            return Ok(());
        }
        now = w.now + LocalDuration::from_secs(g.range(1, 100_000));
        u = std::mem::replace(&mut w.u, Universe::new());
        nodes = std::mem::take(&mut w.nodes);
        for n in nodes.values_mut() {
            n.out.clear();
            n.queued.clear();
        }
        drop(w);
        let next = Scratch::new();
        fslog::write_to(next.path(), &f);
        dir = next;
    }
    g.count("torn writes", torn);
    if torn > 0 || reorg_crash {
        g.nontrivial();
    }
    Ok(())
}

/// A crash after a branch was written to the store of headers, and before the filter headers
/// were rolled back.
fn c35_stale() -> bool {
    let mut g = G::random(7);
    let mut u = Universe::new();
    let a = u.grow(&mut g, 0, 5);
    let b = u.grow(&mut g, u.chain(a)[3], 3);
    let (mut h, mut f) = (vec![], vec![]);
    for i in &u.chain(b)[1..] {
        h.extend(serialize(&u.blocks[*i].block.header));
    }
    for i in &u.chain(a)[1..] {
        f.extend(serialize(&StoredHeader { hash: u.blocks[*i].fhash, header: u.blocks[*i].fheader }));
    }
    let dir = Scratch::new();
    let d = store_dir(Path::new(""));
    let files: Files = [(d.join("headers.db"), h), (d.join("filters.db"), f)].into_iter().collect();
    fslog::write_to(dir.path(), &files);
    let now = start_time(&mut g, &u);
    let nd = Node::new(peer_addr(0), &u, b);
    let addrs = vec![nd.addr];
    let nodes = [(nd.addr, nd)].into_iter().collect();
    match CWorld::start(&mut g, u, nodes, config(dir.path(), addrs), now) {
        Ok(mut w) => settle(&mut g, &mut w, "known").is_err(),
        Err(_) => true,
    }
}

/// The publishing of events on its own: many events, slow and leaving subscribers, waits.
fn c33_publish(g: &mut G) -> Res {
    use nakamoto_net::event;
    // Each event is published as itself, `k` times, or not at all.
    let k = g.range(0, 3) as u32;
    let forward = move |e: u32, p: &event::Emitter<u32>| {
        for _ in 0..e % (k + 1) + (k == 0) as u32 {
            p.emit(e);
        }
    };
    let times = move |e: u32| e % (k + 1) + (k == 0) as u32;
    let (publisher, subscriber) = event::broadcast(forward);
    let mut publisher = Some(publisher);
    let mut subs: Vec<(chan::Receiver<u32>, std::collections::VecDeque<u32>)> = vec![];
    let mut next = 0u32;
    let n = g.range(2, 30);
    let mut total = 0u64;
    for _ in 0..n {
        match g.weighted(&[3, 6, 1, 4, 3, 1]) {
            0 => {
                let s = if g.bool() { subscriber.subscribe() } else { subscriber.clone().subscribe() };
                subs.push((s, Default::default()));
                note!(g, "subscribe");
            }
            1 => {
                let m = if g.chance(1, 60) { g.range(1000, 40_000) } else { g.range(1, 6) };
                note!(g, "publish {}", m);
                for _ in 0..m {
                    if let Some(p) = &mut publisher {
                        p.publish(next);
                        for (_, q) in &mut subs {
                            q.extend((0..times(next)).map(|_| next));
                        }
                        next += 1;
                    }
                }
            }
            2 if !subs.is_empty() => {
                let i = g.below(subs.len() as u64) as usize;
                note!(g, "drop {}", i);
                subs.remove(i);
            }
            3 if !subs.is_empty() => {
                let i = g.below(subs.len() as u64) as usize;
                let m = g.range(1, 10);
                note!(g, "receive {} of {}", m, i);
                for _ in 0..m {
                    let (s, q) = &mut subs[i];
                    let (got, want) = (s.try_recv().ok(), q.pop_front());
                    ensure!(got == want, "subscriber {} received {:?} instead of {:?}", i, got, want);
                    total += 1;
                }
            }
            4 if !subs.is_empty() => {
                // Wait for an event divisible by some number.
                let i = g.below(subs.len() as u64) as usize;
                let d = g.range(1, 40) as u32;
                let (s, q) = &mut subs[i];
                let mut want = None;
                while let Some(e) = q.pop_front() {
                    if e % d == 0 {
                        want = Some(e);
                        break;
                    }
                }
                let wait = if want.is_some() { PATIENCE } else { Duration::from_millis(1) };
                let got = event::wait(s, |e: u32| if e % d == 0 { Some(e) } else { None }, wait);
                note!(g, "wait for multiple of {}: {:?}", d, got);
                match (&got, want) {
                    (Ok(a), Some(b)) if *a == b => {}
                    (Err(chan::RecvTimeoutError::Timeout), None) if publisher.is_some() => {}
                    // With nobody left to publish, waits end.
                    (Err(_), None) if publisher.is_none() => {}
                    _ => fail!("waiting for a multiple of {} gave {:?} instead of {:?}", d, got, want),
                }
                if want.is_none() {
                    // The wait may have ended before it went through all that was queued.
                    let left: Vec<u32> = s.try_iter().collect();
                    ensure!(left.iter().all(|e| e % d != 0), "waiting for a multiple of {} missed one", d);
                }
            }
            _ => {
                if g.chance(1, 4) {
                    publisher = None;
                    note!(g, "no publisher");
                }
            }
        }
    }
    for (i, (s, q)) in subs.iter().enumerate() {
        let got: Vec<u32> = s.try_iter().collect();
        ensure!(got.iter().eq(q.iter()), "subscriber {} has {} events left instead of {}", i, got.len(), q.len());
        total += got.len() as u64;
    }
    if total > 3 {
        g.nontrivial();
    }
    Ok(())
}

pub static PROPS: &[Property] = &[
    Property {
        id: "C33",
        level: "exploration",
        rule: "a case is a history of a client with files on disk and simulated peers, with calls of its handle; non-trivial: a question was answered or a wait returned",
        strategies: &[
            Strategy { name: "handle", quick: 8000, thorough: 150000, case: c33 },
            Strategy { name: "publish", quick: 20000, thorough: 600000, case: c33_publish },
        ],
        assumptions: &["what has to happen does so within 15 seconds"],
        known: &[],
    },
    Property {
        id: "C35",
        level: "exploration",
        rule: "a case is up to three lives of a client, each ended by a shutdown or by a crash at some point of what it writes; non-trivial: a crash was in the middle of a write, or of a reorganization",
        strategies: &[Strategy { name: "crash", quick: 15000, thorough: 400000, case: c35 }],
        assumptions: &["what was written before a crash is on disk, in the order it was written (a process that is killed; not necessarily a power loss)"],
        known: &[(
            "a crash in a reorganization, after the headers of the new branch were written up to the height of the filter headers, and before these were rolled back: the filter headers of the old branch are kept, and honest peers are disconnected because of them",
            c35_stale,
        )],
    },
];

#[allow(dead_code)]
fn unused(_: Mode) {
    let _ = Disconnect::<()>::is_dial_err;
}
