//! Properties of the peer connections: C14 handshake, C15 connection management.
use std::collections::{BTreeMap, BTreeSet};
use std::net;
use std::sync::{Arc, OnceLock};

use nakamoto_chain::block::cache::BlockCache;
use nakamoto_chain::block::store::Memory;
use nakamoto_chain::filter::cache::{FilterCache, StoredHeader};
use nakamoto_common::bitcoin::blockdata::block::BlockHeader;
use nakamoto_common::bitcoin::consensus::params::Params;
use nakamoto_common::bitcoin_hashes::Hash as _;
use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::bitcoin::network::message_network::VersionMessage;
use nakamoto_common::block::time::{LocalDuration, LocalTime};
use nakamoto_common::block::tree::BlockReader;
use nakamoto_common::network::Network;
use nakamoto_common::nonempty::NonEmpty;
use nakamoto_common::p2p::peer::{KnownAddress, Source};
use nakamoto_common::p2p::Domain;
use nakamoto_net::Link;
use nakamoto_p2p::fsm::{Command, Config, DisconnectReason, Event, PeerId};

use crate::pbt::{Property, Res, Strategy, G};
use crate::sim::*;
use crate::{ensure, fail, note};

const PREFERRED: ServiceFlags = ServiceFlags::NETWORK;
fn preferred() -> ServiceFlags {
    PREFERRED | ServiceFlags::COMPACT_FILTERS
}

/// Headers of a chain longer than the maximum height difference of peers.
fn long_headers() -> &'static Vec<BlockHeader> {
    static H: OnceLock<Vec<BlockHeader>> = OnceLock::new();
    H.get_or_init(|| long_trunk().blocks.iter().map(|b| b.block.header).collect())
}

fn small_stores(g: &mut G) -> (BlockCache<Memory<BlockHeader>>, FilterCache<Memory<StoredHeader>>) {
    let hs = long_headers();
    let n = if g.chance(1, 12) { g.usize(2010, 2060) } else { g.usize(0, 12) };
    let params = Params::new(nakamoto_common::bitcoin::Network::Regtest);
    let store = Memory::new(NonEmpty::from_vec(hs[..=n].to_vec()).unwrap());
    let tree = BlockCache::new(store, params, &[]).unwrap().load().unwrap();
    let store = Memory::<StoredHeader>::genesis(Network::Regtest);
    (tree, FilterCache::load(store).unwrap())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum St {
    Connected,
    Version,
    Negotiated,
    Closing,
}

#[derive(Clone, Debug)]
struct Conn {
    link: Link,
    since: LocalTime,
    /// Time of the last step of the handshake.
    step: LocalTime,
    st: St,
    ver: Option<VersionMessage>,
    wtxid: bool,
    nonce: Option<u64>,
    announced: bool,
}

/// Kind of a message of the handshake.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Hs {
    Version,
    Wtxid,
    Verack,
    SendHeaders,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Why {
    Version,
    Services,
    Height,
    SelfConnection,
    Limit,
    Hook,
    Misbehaving,
    Timeout,
    Command,
    Magic,
    Other,
}

fn why(r: &DisconnectReason) -> Why {
    match r {
        DisconnectReason::PeerProtocolVersion(_) => Why::Version,
        DisconnectReason::PeerServices(_) => Why::Services,
        DisconnectReason::PeerHeight(_) => Why::Height,
        DisconnectReason::SelfConnection => Why::SelfConnection,
        DisconnectReason::ConnectionLimit => Why::Limit,
        DisconnectReason::Other(s) if *s == HOOK => Why::Hook,
        DisconnectReason::PeerMisbehaving(_) => Why::Misbehaving,
        DisconnectReason::PeerTimeout(_) => Why::Timeout,
        DisconnectReason::Command => Why::Command,
        DisconnectReason::PeerMagic(_) => Why::Magic,
        _ => Why::Other,
    }
}

const HOOK: &str = "rejected by hook";
const UA: &str = "/client:1.2.3/";
const HANDSHAKE: u128 = 12_000;
const CONNECT: u128 = 6_000;

fn trusted_ip(ip: &net::IpAddr) -> bool {
    match ip {
        net::IpAddr::V4(i) => i.is_private() || i.is_loopback() || i.is_link_local(),
        _ => false,
    }
}

/// Reference model of the connections.
struct Mon {
    /// Check the handshake (C14) or the connections (C15).
    hs: bool,
    cfg: Config,
    conns: BTreeMap<PeerId, Conn>,
    dialing: BTreeMap<PeerId, LocalTime>,
    whitelist: BTreeSet<net::IpAddr>,
    /// Expected outputs of the current step.
    sent: BTreeMap<PeerId, Vec<Hs>>,
    close: BTreeMap<PeerId, Vec<Why>>,
    negotiate: BTreeSet<PeerId>,
    failed: BTreeSet<PeerId>,
    gone: BTreeSet<PeerId>,
    /// Addresses the user asked to connect to in this step.
    asked: BTreeSet<PeerId>,
    /// Addresses to be connected to again once disconnected.
    again: BTreeSet<PeerId>,
    /// Persistent peers: failed attempts and time of the next one.
    attempts: BTreeMap<PeerId, u32>,
    retry: BTreeMap<PeerId, LocalTime>,
    /// Peers the user asked for don't count for the limits.
    manual: BTreeSet<PeerId>,
    height: u64,
    /// Replies of the peers to be delivered.
    replies: Vec<(PeerId, NetworkMessage)>,
    pub negotiated: u64,
    pub rejected: u64,
    pub redials: u64,
}

fn ago(now: LocalTime, t: LocalTime) -> u128 {
    millis(now).saturating_sub(millis(t))
}

impl Mon {
    fn new(hs: bool, cfg: &Config, height: u64) -> Self {
        Self {
            hs,
            cfg: cfg.clone(),
            conns: Default::default(),
            dialing: Default::default(),
            whitelist: Default::default(),
            sent: Default::default(),
            close: Default::default(),
            negotiate: Default::default(),
            failed: Default::default(),
            gone: Default::default(),
            asked: Default::default(),
            again: Default::default(),
            attempts: Default::default(),
            retry: Default::default(),
            manual: Default::default(),
            height,
            replies: vec![],
            negotiated: 0,
            rejected: 0,
            redials: 0,
        }
    }

    fn outbound(&self) -> usize {
        self.conns.iter().filter(|(a, c)| c.link.is_outbound() && c.st != St::Closing && !self.manual.contains(a)).count()
            + self.dialing.keys().filter(|a| !self.manual.contains(a)).count()
    }

    fn count(&self, link: Link, st: St) -> usize {
        self.conns.values().filter(|c| c.link == link && c.st == st).count()
    }

    // Inputs.

    fn connected(&mut self, a: PeerId, link: Link, now: LocalTime) {
        self.dialing.remove(&a);
        self.attempts.remove(&a);
        self.retry.remove(&a);
        self.conns.insert(a, Conn { link, since: now, step: now, st: St::Connected, ver: None, wtxid: false, nonce: None, announced: false });
        if link.is_outbound() {
            self.sent.entry(a).or_default().push(Hs::Version);
        } else {
            let n = self.conns.values().filter(|c| c.link.is_inbound() && c.st != St::Closing).count();
            if n > self.cfg.limits.max_inbound_peers {
                self.close.insert(a, vec![Why::Limit]);
                self.conns.get_mut(&a).unwrap().st = St::Closing;
            }
        }
    }

    /// The connection is lost, or couldn't be made.
    fn lost(&mut self, a: PeerId, now: LocalTime) {
        if self.conns.contains_key(&a) {
            self.gone.insert(a);
        } else if self.dialing.remove(&a).is_some() {
            self.failed.insert(a);
        }
        self.persist(a, now);
    }

    fn persist(&mut self, a: PeerId, now: LocalTime) {
        if self.again.contains(&a) {
            return;
        }
        if self.cfg.connect.contains(&a) {
            let n = self.attempts.entry(a).or_default();
            let d = 2u64.saturating_pow(*n).clamp(1, 3600);
            *n += 1;
            self.retry.insert(a, now + LocalDuration::from_secs(d));
        }
    }

    fn message(&mut self, a: PeerId, m: &NetworkMessage, now: LocalTime) {
        let negotiated = self.count(Link::Outbound, St::Negotiated) + self.negotiate.iter().filter(|a| self.conns.get(a).map_or(false, |c| c.link.is_outbound() && c.st == St::Version)).count();
        let ours: Vec<u64> = self.conns.values().filter(|c| c.st != St::Closing).filter_map(|c| c.nonce).collect();
        let trusted = self.whitelist.contains(&a.ip()) || trusted_ip(&a.ip());
        let height = self.height;
        let cfg = self.cfg.clone();
        let Some(c) = self.conns.get_mut(&a) else { return };
        let st = if self.negotiate.contains(&a) { St::Negotiated } else { c.st };
        match (m, st) {
            (NetworkMessage::Version(v), St::Connected) => {
                let mut no = vec![];
                if v.version < 70012 {
                    no.push(Why::Version);
                }
                if c.link.is_outbound() && !trusted {
                    if !v.services.has(cfg.required_services) {
                        no.push(Why::Services);
                    }
                    if height.saturating_sub(v.start_height.max(0) as u64) > 2016 {
                        no.push(Why::Height);
                    }
                }
                if c.link.is_inbound() && ours.contains(&v.nonce) {
                    no.push(Why::SelfConnection);
                }
                if c.link.is_outbound() && !v.services.has(preferred()) && negotiated >= cfg.limits.max_outbound_peers {
                    no.push(Why::Limit);
                }
                if v.user_agent == "/bad/" {
                    no.push(Why::Hook);
                }
                if no.is_empty() {
                    c.st = St::Version;
                    c.step = now;
                    c.ver = Some(v.clone());
                    let s = self.sent.entry(a).or_default();
                    if c.link.is_inbound() {
                        s.push(Hs::Version);
                    }
                    s.extend([Hs::Wtxid, Hs::Verack, Hs::SendHeaders]);
                } else {
                    self.rejected += 1;
                    c.st = St::Closing;
                    self.close.insert(a, no);
                }
            }
            (NetworkMessage::WtxidRelay, St::Version) => c.wtxid = true,
            (NetworkMessage::Verack, St::Version) => {
                self.negotiate.insert(a);
            }
            (NetworkMessage::Verack | NetworkMessage::WtxidRelay, St::Negotiated) => {
                self.close.insert(a, vec![Why::Misbehaving]);
            }
            _ => {}
        }
    }

    /// A timer fired.
    fn timer(&mut self, now: LocalTime) {
        for (a, c) in &mut self.conns {
            if matches!(c.st, St::Connected | St::Version) && ago(now, c.step) >= HANDSHAKE {
                c.st = St::Closing;
                self.close.insert(*a, vec![Why::Timeout]);
            }
        }
        for (a, t) in &self.dialing {
            if ago(now, *t) >= CONNECT {
                self.close.insert(*a, vec![Why::Timeout]);
            }
        }
    }

    // Outputs.

    fn apply(&mut self, g: &mut G, outs: &[Rec], w: &World, timer: bool) -> Res {
        let now = w.sim.now;
        let mut sent: BTreeMap<PeerId, Vec<Hs>> = BTreeMap::new();
        for r in outs {
            match r {
                Rec::Connect(a) => {
                    ensure!(!self.dialing.contains_key(a), "dialed {} while already connecting to it", a);
                    if let Some(c) = self.conns.get(a) {
                        ensure!(c.st == St::Closing || self.gone.contains(a), "dialed {} while connected to it", a);
                    }
                    ensure!(self.cfg.domains.contains(&Domain::for_address(a)), "dialed {} of an unsupported domain", a);
                    let asked = self.asked.remove(a) || self.again.remove(a);
                    if self.cfg.connect.contains(a) {
                        if !asked {
                            if let Some(t) = self.retry.remove(a) {
                                self.redials += 1;
                                if !self.hs {
                                    ensure!(now >= t, "{} was dialed again after {} failures, {} ms too early", a, self.attempts[a], ago(t, now));
                                }
                            }
                        }
                    } else if !self.cfg.connect.is_empty() && !asked {
                        fail!("dialed {} though there are persistent peers", a);
                    }
                    if asked {
                        self.manual.insert(*a);
                    } else {
                        self.manual.remove(a);
                    }
                    if w.sim.dial_errors.contains(a) {
                        self.failed.insert(*a);
                        self.persist(*a, now);
                    } else {
                        self.dialing.insert(*a, now);
                    }
                    if self.cfg.connect.is_empty() && !asked && !self.hs {
                        let t = self.cfg.limits.max_outbound_peers;
                        ensure!(self.outbound() <= t + t / 2, "{} outbound connections with a target of {}", self.outbound(), t);
                    }
                }
                Rec::Disconnect(a, r) => {
                    let y = why(r);
                    if let Some(ok) = self.close.remove(a) {
                        ensure!(ok.contains(&y), "{} was disconnected with the reason \"{}\", expected one of {:?}", a, r, ok);
                    } else if let Some(c) = self.conns.get(a) {
                        if self.hs && c.st != St::Closing {
                            ensure!(
                                c.st == St::Negotiated && (y == Why::Timeout || y == Why::Misbehaving),
                                "{} ({:?}, in this state for {} ms) was disconnected without cause ({})",
                                a,
                                c.st,
                                ago(now, c.step),
                                r
                            );
                        }
                    } else if self.dialing.contains_key(a) {
                        fail!("connection attempt to {} was given up after {} ms ({})", a, ago(now, self.dialing[a]), r);
                    }
                    if let Some(c) = self.conns.get_mut(a) {
                        if c.st != St::Closing || !self.gone.contains(a) {
                            c.st = St::Closing;
                            if self.gone.insert(*a) {
                                self.persist(*a, now);
                            }
                        }
                    } else if self.dialing.remove(a).is_some() {
                        self.failed.insert(*a);
                        self.persist(*a, now);
                    }
                }
                Rec::Write(a, m) => {
                    let Some(c) = self.conns.get_mut(a) else { continue };
                    let k = match m {
                        NetworkMessage::Version(v) => {
                            if self.hs {
                                ensure!(
                                    v.version == self.cfg.protocol_version
                                        && v.services == self.cfg.services
                                        && v.timestamp == now.as_secs() as i64
                                        && v.receiver == Address::new(a, ServiceFlags::NONE)
                                        && v.user_agent == self.cfg.user_agent
                                        && v.start_height as u64 == self.height
                                        && !v.relay,
                                    "wrong version message {:?}",
                                    v
                                );
                            }
                            if c.link.is_outbound() {
                                c.nonce = Some(v.nonce);
                            }
                            Hs::Version
                        }
                        NetworkMessage::WtxidRelay => Hs::Wtxid,
                        NetworkMessage::Verack => Hs::Verack,
                        NetworkMessage::SendHeaders => Hs::SendHeaders,
                        m => {
                            // Nb. Requests are answered at any time.
                            let reply = matches!(m, NetworkMessage::Headers(_) | NetworkMessage::CFHeaders(_) | NetworkMessage::Addr(_) | NetworkMessage::Pong(_));
                            if self.hs && !reply {
                                ensure!(c.st == St::Negotiated || c.st == St::Closing, "{} was sent to {} before the handshake was complete", m.cmd(), a);
                            }
                            match m {
                                NetworkMessage::Ping(n) => self.replies.push((*a, NetworkMessage::Pong(*n))),
                                NetworkMessage::GetHeaders(_) => self.replies.push((*a, NetworkMessage::Headers(vec![]))),
                                _ => {}
                            }
                            continue;
                        }
                    };
                    sent.entry(*a).or_default().push(k);
                }
                Rec::Event(e) => self.event(g, e, w)?,
                _ => {}
            }
        }
        if self.hs {
            for (a, k) in &sent {
                ensure!(self.sent.get(a) == Some(k), "handshake messages {:?} were sent to {}, expected {:?}", k, a, self.sent.get(a));
            }
            for (a, k) in &self.sent {
                if self.conns.get(a).map_or(false, |c| c.st != St::Closing) {
                    ensure!(sent.get(a) == Some(k), "handshake messages {:?} were not sent to {}", k, a);
                }
            }
            if let Some(a) = self.negotiate.iter().next() {
                fail!("{} sent version and verack, but isn't negotiated", a);
            }
            for (a, y) in &self.close {
                fail!("{} should have been disconnected ({:?})", a, y);
            }
        } else {
            for (a, y) in &self.close {
                if self.dialing.contains_key(a) {
                    fail!("connecting to {} should have timed out", a);
                }
                if y[0] == Why::Limit && self.conns.get(a).map_or(false, |c| c.link.is_inbound()) {
                    fail!("{} exceeds the limit of inbound connections, and isn't disconnected", a);
                }
                if y[0] == Why::Command {
                    fail!("{} should have been disconnected on command", a);
                }
            }
            if let Some(a) = self.asked.iter().next() {
                fail!("{} should have been dialed on command", a);
            }
            if let Some(a) = self.again.iter().find(|a| !self.conns.contains_key(a)) {
                fail!("{} should have been dialed again after it was disconnected", a);
            }
            if let Some(a) = self.failed.iter().next() {
                fail!("connecting to {} failed, but there was no event", a);
            }
            if let Some(a) = self.gone.iter().next() {
                fail!("{} disconnected, but there was no event", a);
            }
            for (a, c) in &self.conns {
                if !c.announced {
                    fail!("{} connected, but there was no event", a);
                }
            }
            if timer {
                for (a, t) in &self.retry {
                    if now >= *t && !self.dialing.contains_key(a) && !self.conns.contains_key(a) {
                        fail!("persistent peer {} wasn't dialed again, {} ms after the delay ended", a, ago(now, *t));
                    }
                }
            }
        }
        self.sent.clear();
        self.close.clear();
        self.negotiate.clear();
        self.failed.clear();
        self.asked.clear();
        Ok(())
    }

    fn event(&mut self, _g: &mut G, e: &Event, w: &World) -> Res {
        match e {
            Event::PeerConnected { addr, link, .. } => {
                let ok = self.conns.get_mut(addr).map_or(false, |c| c.link == *link && !std::mem::replace(&mut c.announced, true));
                ensure!(ok, "event: {} connected, but it didn't", addr);
            }
            Event::PeerDisconnected { addr, .. } => {
                ensure!(self.gone.remove(addr) && self.conns.get(addr).map_or(false, |c| c.announced), "event: {} disconnected, but it wasn't connected", addr);
                self.conns.remove(addr);
                self.negotiate.remove(addr);
            }
            Event::PeerConnectionFailed { addr, .. } => {
                ensure!(self.failed.remove(addr), "event: connecting to {} failed, but it didn't", addr);
            }
            Event::PeerNegotiated { addr, link, services, persistent, height, receiver, user_agent, version, relay, wtxid_relay } => {
                let Some(c) = self.conns.get_mut(addr) else { fail!("event: {} negotiated, but it isn't connected", addr) };
                if !self.hs {
                    ensure!(c.st != St::Negotiated && c.announced, "event: {} negotiated twice or before it was connected", addr);
                    c.st = St::Negotiated;
                    self.negotiated += 1;
                    return Ok(());
                }
                ensure!(self.negotiate.remove(addr) && c.st == St::Version, "event: {} negotiated, in state {:?}", addr, c.st);
                c.st = St::Negotiated;
                c.step = w.sim.now;
                self.negotiated += 1;
                let v = c.ver.as_ref().unwrap();
                ensure!(
                    *link == c.link
                        && *services == v.services
                        && *persistent == self.cfg.connect.contains(addr)
                        && *height == v.start_height.max(0) as u64
                        && *receiver == v.receiver
                        && *user_agent == v.user_agent
                        && *version == self.cfg.protocol_version.min(v.version)
                        && *relay == v.relay
                        && *wtxid_relay == c.wtxid,
                    "negotiated with other properties than {:?}: {:?}",
                    v,
                    e
                );
            }
            _ => {}
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// C14

struct Hand {
    w: World,
    m: Mon,
    fresh: usize,
}

impl Hand {
    fn settle(&mut self, g: &mut G, timer: bool) -> Res {
        let out = self.w.settle_outputs(g);
        self.m.apply(g, &out, &self.w, timer)?;
        if !self.m.hs {
            // The peers answer by themselves.
            self.m.replies.clear();
        }
        for _ in 0..50 {
            let Some((a, m)) = self.m.replies.pop() else { return Ok(()) };
            if !self.w.sim.up.contains_key(&a) {
                continue;
            }
            self.m.message(a, &m, self.w.sim.now);
            let out = self.w.send(g, a, m);
            self.m.apply(g, &out, &self.w, false)?;
        }
        Ok(())
    }

    fn elapse(&mut self, g: &mut G, mut d: u128) -> Res {
        loop {
            let now = millis(self.w.sim.now);
            let next = self.w.sim.next_timer().map(|t| t.saturating_sub(now)).filter(|t| *t <= d);
            let s = next.unwrap_or(d);
            note!(g, "time +{}ms", s);
            self.w.sim.elapse(LocalDuration::from_millis(s));
            d -= s;
            let fired = self.w.sim.fire();
            if fired {
                self.m.timer(self.w.sim.now);
            }
            self.settle(g, fired)?;
            if next.is_none() {
                break;
            }
        }
        let now = self.w.sim.now;
        for (a, c) in &self.m.conns {
            if matches!(c.st, St::Connected | St::Version) {
                ensure!(ago(now, c.step) <= HANDSHAKE + 62_000, "the handshake with {} isn't given up after {} ms", a, ago(now, c.step));
            }
        }
        Ok(())
    }
}

fn version_of(g: &mut G, h: &Hand, a: PeerId) -> VersionMessage {
    let height = h.m.height as i32;
    let ours: Vec<u64> = h.m.conns.values().filter_map(|c| c.nonce).collect();
    let theirs: Vec<u64> = h.m.conns.values().filter_map(|c| c.ver.as_ref().map(|v| v.nonce)).collect();
    let now = h.w.sim.now.as_secs() as i64;
    VersionMessage {
        version: *g.pick(&[70016, 70016, 70016, 70015, 70013, 70012, 70012, 70011, 70001, 0, 80000, u32::MAX]),
        services: *g.pick(&[
            preferred() | ServiceFlags::WITNESS,
            preferred() | ServiceFlags::WITNESS,
            preferred(),
            ServiceFlags::NETWORK,
            ServiceFlags::NETWORK | ServiceFlags::WITNESS,
            ServiceFlags::COMPACT_FILTERS,
            ServiceFlags::NONE,
        ]),
        timestamp: match g.below(12) {
            0 => i64::MIN,
            1 => i64::MAX,
            2 => 0,
            3 => -1,
            4 => now - 10_000,
            _ => now + g.range(0, 600) as i64 - 300,
        },
        receiver: Address::new(&Sim::local_addr(), ServiceFlags::NONE),
        sender: Address::new(&a, ServiceFlags::NONE),
        nonce: match g.below(8) {
            0 if !ours.is_empty() => *g.pick(&ours),
            1 if !theirs.is_empty() => *g.pick(&theirs),
            _ => g.seed(),
        },
        user_agent: g.pick(&["/Satoshi:0.21.0/", "/Satoshi:0.21.0/", "", "/Satoshi:22.0.0/", "/bad/"]).to_string(),
        start_height: *g.pick(&[height, height, height + 1, height - 1, 0, height - 2016, height - 2017, height - 2018, -1, i32::MAX, i32::MIN, 700_000]),
        relay: g.bool(),
    }
}

fn book_addr(i: usize, services: ServiceFlags) -> KnownAddress {
    KnownAddress::new(Address::new(&peer_addr(i), services), Source::Imported, None)
}

fn config(g: &mut G) -> Config {
    let mut cfg = Config::from(Network::Regtest, vec![]);
    cfg.services = *g.pick(&[ServiceFlags::NONE, ServiceFlags::NETWORK]);
    cfg.required_services = *g.pick(&[ServiceFlags::NETWORK, ServiceFlags::NETWORK, ServiceFlags::NETWORK | ServiceFlags::WITNESS, ServiceFlags::NONE]);
    cfg.protocol_version = *g.pick(&[70016, 70016, 70015, 70013]);
    cfg.user_agent = UA;
    cfg.limits.max_outbound_peers = g.usize(1, 4);
    cfg.limits.max_inbound_peers = g.usize(0, 4);
    cfg
}

fn c14(g: &mut G) -> Res {
    let (tree, filters) = small_stores(g);
    let height = tree.height();
    let mut cfg = config(g);
    cfg.hooks.on_version = Arc::new(|_, v| if v.user_agent == "/bad/" { Err(HOOK) } else { Ok(()) });
    let mut book = PeerBook::default();
    let mut fresh = 0;
    if g.chance(1, 3) {
        for _ in 0..g.range(1, 3) {
            let a = if g.chance(1, 3) { ([10, 0, fresh as u8, 1], 8333).into() } else { peer_addr(fresh) };
            cfg.connect.push(a);
            fresh += 1;
        }
    } else {
        for _ in 0..g.range(0, 8) {
            let s = *g.pick(&[preferred(), ServiceFlags::NETWORK, ServiceFlags::NONE]);
            let ka = book_addr(fresh, s);
            book.0.insert(peer_addr(fresh).ip(), ka);
            fresh += 1;
        }
    }
    let m = Mon::new(true, &cfg, height);
    let seed = g.seed();
    let now = LocalTime::from_secs(1_700_000_000);
    let sim = Sim::new(tree, filters, book, now, seed, cfg);
    let mut h = Hand { w: World::new(Universe::new(), sim), m, fresh };
    note!(g, "height {}, {:?}", height, h.m.cfg);
    let out = h.w.initialize(g);
    h.m.apply(g, &out, &h.w, false)?;
    h.settle(g, false)?;

    for _ in 0..g.range(5, 50) {
        let dialing: Vec<PeerId> = h.m.dialing.keys().copied().collect();
        let up: Vec<PeerId> = h.m.conns.keys().copied().collect();
        match g.weighted(&[
            if dialing.is_empty() { 0 } else { 6 },
            if h.fresh < 40 { 2 } else { 0 },
            if up.is_empty() { 0 } else { 24 },
            5,
            if up.is_empty() { 0 } else { 1 },
            2,
            if h.fresh < 40 { 1 } else { 0 },
            if up.is_empty() { 0 } else { 1 },
        ]) {
            0 => {
                let a = *g.pick(&dialing);
                if g.chance(1, 8) {
                    h.m.lost(a, h.w.sim.now);
                    note!(g, "{} refuses", short(&a));
                    h.w.sim.disconnected(a, conn_err(std::io::ErrorKind::ConnectionRefused));
                } else {
                    h.m.connected(a, Link::Outbound, h.w.sim.now);
                    note!(g, "{} accepts", short(&a));
                    h.w.sim.connected(a, Link::Outbound);
                }
                h.settle(g, false)?;
            }
            1 => {
                let i = h.fresh;
                h.fresh += 1;
                let a: PeerId = match g.below(4) {
                    0 => ([10, 0, i as u8, 1], 50000 + i as u16).into(),
                    1 => (net::Ipv6Addr::new(0x2a01, i as u16, 0, 0, 0, 0, 0, 1), 50000).into(),
                    _ => peer_addr(i),
                };
                note!(g, "{} connects to us", short(&a));
                h.m.connected(a, Link::Inbound, h.w.sim.now);
                h.w.sim.connected(a, Link::Inbound);
                h.settle(g, false)?;
            }
            2 => {
                // One or several messages of a peer.
                let a = *g.pick(&up);
                let n = if g.chance(1, 4) { g.range(2, 3) } else { 1 };
                for _ in 0..n {
                    let Some(c) = h.m.conns.get(&a) else { break };
                    let m = match g.weighted(match c.st {
                        St::Connected => &[20, 2, 2, 2],
                        St::Version => &[2, 12, 6, 2],
                        _ => &[1, 1, 1, 3],
                    }) {
                        0 => NetworkMessage::Version(version_of(g, &h, a)),
                        1 => NetworkMessage::Verack,
                        2 => NetworkMessage::WtxidRelay,
                        _ => match g.below(10) {
                            6 => NetworkMessage::GetAddr,
                            7 => NetworkMessage::GetHeaders(nakamoto_common::bitcoin::network::message_blockdata::GetHeadersMessage::new(
                                vec![long_headers()[0].block_hash()],
                                nakamoto_common::bitcoin::BlockHash::from_inner([0; 32]),
                            )),
                            8 => NetworkMessage::Inv(vec![nakamoto_common::bitcoin::network::message_blockdata::Inventory::Block(long_headers()[2400].block_hash())]),
                            9 => NetworkMessage::GetCFHeaders(nakamoto_common::bitcoin::network::message_filter::GetCFHeaders {
                                filter_type: 0,
                                start_height: 0,
                                stop_hash: long_headers()[0].block_hash(),
                            }),
                            0 => NetworkMessage::Ping(7),
                            1 => NetworkMessage::SendHeaders,
                            2 => NetworkMessage::FeeFilter(1000),
                            3 => NetworkMessage::Unknown { command: nakamoto_common::bitcoin::network::message::CommandString::try_from_static("sendaddrv2x").unwrap(), payload: vec![1, 2] },
                            4 => NetworkMessage::Pong(9),
                            _ => NetworkMessage::SendAddrV2,
                        },
                    };
                    note!(g, "<- {} {}", short(&a), msg_str(&h.w.u, &m));
                    h.m.message(a, &m, h.w.sim.now);
                    h.w.sim.message(a, m);
                }
                h.settle(g, false)?;
            }
            3 => {
                let d = match g.below(5) {
                    0 => g.range(1, 2000),
                    1 => g.range(11_900, 12_100),
                    2 => g.range(2000, 30_000),
                    3 => g.range(60_000, 100_000),
                    _ => g.range(1000, 7000),
                };
                h.elapse(g, d as u128)?;
            }
            4 => {
                let a = *g.pick(&up);
                note!(g, "{} hangs up", short(&a));
                h.m.lost(a, h.w.sim.now);
                h.w.sim.disconnected(a, conn_err(std::io::ErrorKind::ConnectionReset));
                h.settle(g, false)?;
            }
            5 => {
                let services = *g.pick(&[ServiceFlags::NONE, ServiceFlags::NETWORK, preferred()]);
                let (tx, rx) = crossbeam_channel::bounded(1);
                h.w.sim.command(Command::GetPeers(services, tx));
                let mut got: Vec<_> = rx.try_recv().unwrap();
                got.sort_by_key(|p| p.addr);
                let want: Vec<_> = h.m.conns.iter().filter(|(_, c)| c.st == St::Negotiated && c.ver.as_ref().unwrap().services.has(services)).collect();
                ensure!(
                    got.len() == want.len() && got.iter().zip(&want).all(|(p, (a, _))| p.addr == **a),
                    "get_peers({}) = {:?}, negotiated are {:?}",
                    services,
                    got.iter().map(|p| p.addr).collect::<Vec<_>>(),
                    want.iter().map(|x| x.0).collect::<Vec<_>>()
                );
                for (p, (_, c)) in got.iter().zip(&want) {
                    let v = c.ver.as_ref().unwrap();
                    ensure!(
                        p.link == c.link && p.since == c.since && p.height == v.start_height.max(0) as u64 && p.services == v.services && p.user_agent == v.user_agent && p.relay == v.relay && p.local_addr == Sim::local_addr(),
                        "get_peers gives {:?}, the peer sent {:?}",
                        p,
                        v
                    );
                }
                h.settle(g, false)?;
            }
            6 => {
                let a = peer_addr(h.fresh);
                h.fresh += 1;
                h.m.whitelist.insert(a.ip());
                h.m.asked.insert(a);
                note!(g, "command connect {}", short(&a));
                h.w.sim.command(Command::Connect(a));
                h.settle(g, false)?;
            }
            _ => {
                // A message of another network.
                let a = *g.pick(&up);
                if h.m.conns[&a].st != St::Closing {
                    h.m.close.insert(a, vec![Why::Magic]);
                }
                note!(g, "<- {} with wrong magic", short(&a));
                h.w.sim.tick();
                use nakamoto_net::StateMachine as _;
                let magic = h.w.sim.magic ^ (1 << g.below(32));
                h.w.sim.sm.message_received(
                    &a,
                    std::borrow::Cow::Owned(nakamoto_common::bitcoin::network::message::RawNetworkMessage { magic, payload: NetworkMessage::Verack }),
                );
                h.settle(g, false)?;
            }
        }
    }
    if h.m.negotiated > 0 {
        g.nontrivial();
    }
    if h.m.rejected > 0 {
        g.label("rejected");
    }
    g.count("negotiated", h.m.negotiated);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C15

fn ensure_nodes(g: &mut G, h: &mut Hand, honest: bool) {
    let dialing: Vec<PeerId> = h.m.dialing.keys().copied().collect();
    for a in dialing {
        if !h.w.nodes.contains_key(&a) {
            let mut n = Node::new(a, &h.w.u, 0);
            if !honest {
                n.services = *g.pick(&[preferred(), preferred(), ServiceFlags::NETWORK, ServiceFlags::NONE]);
                n.handshake = *g.pick(&[Mode::Honest, Mode::Honest, Mode::Honest, Mode::Silent, Mode::Wrong]);
            }
            n.nonce = g.seed();
            h.w.add_node(n);
        }
    }
}

fn deliver_all(g: &mut G, h: &mut Hand) -> Res {
    for _ in 0..2000 {
        let p = h.w.pending();
        if p.is_empty() {
            return Ok(());
        }
        for a in p {
            let out = h.w.deliver(g, a);
            h.m.apply(g, &out, &h.w, false)?;
        }
    }
    crate::harness_bug!("messages keep flowing");
}

fn accept(g: &mut G, h: &mut Hand, a: PeerId) -> Res {
    h.m.connected(a, Link::Outbound, h.w.sim.now);
    let out = h.w.accept(g, a);
    h.m.apply(g, &out, &h.w, false)
}

fn inbound(g: &mut G, h: &mut Hand, a: PeerId) -> Res {
    h.m.connected(a, Link::Inbound, h.w.sim.now);
    let mut n = Node::new(a, &h.w.u, 0);
    n.nonce = g.seed();
    if g.chance(1, 4) {
        n.handshake = Mode::Silent;
    }
    if g.chance(1, 3) {
        n.services = *g.pick(&[ServiceFlags::NETWORK, ServiceFlags::NONE]);
    }
    h.w.add_node(n);
    let out = h.w.inbound(g, a);
    h.m.apply(g, &out, &h.w, false)
}

fn c15(g: &mut G) -> Res {
    let u = Universe::new();
    let (tree, filters) = stores(&u, &[0], 0);
    let mut cfg = config(g);
    cfg.required_services = ServiceFlags::NETWORK;
    cfg.limits.max_outbound_peers = g.usize(1, 8);
    if g.chance(1, 4) {
        cfg.domains = vec![Domain::IPV4];
    }
    let persistent = g.chance(1, 3);
    let mut book = PeerBook::default();
    let mut fresh = 0;
    if persistent {
        for _ in 0..g.range(1, 4) {
            cfg.connect.push(peer_addr(fresh));
            fresh += 1;
        }
    }
    if !persistent || g.chance(1, 3) {
        for _ in 0..g.range(0, 20) {
            let s = *g.pick(&[preferred(), preferred(), ServiceFlags::NETWORK, ServiceFlags::NONE]);
            book.0.insert(peer_addr(fresh).ip(), book_addr(fresh, s));
            fresh += 1;
        }
    }
    let m = Mon::new(false, &cfg, 0);
    let seed = g.seed();
    let now = LocalTime::from_secs(1_700_000_000);
    let mut sim = Sim::new(tree, filters, book, now, seed, cfg);
    for i in 0..fresh {
        if g.chance(1, 20) {
            sim.dial_errors.insert(peer_addr(i));
        }
    }
    let mut h = Hand { w: World::new(u, sim), m, fresh };
    note!(g, "target {}, max inbound {}, persistent {:?}, {} addresses", h.m.cfg.limits.max_outbound_peers, h.m.cfg.limits.max_inbound_peers, h.m.cfg.connect, fresh);
    let out = h.w.initialize(g);
    h.m.apply(g, &out, &h.w, false)?;
    let unreachable: BTreeSet<PeerId> = h.m.cfg.connect.iter().copied().filter(|_| g.chance(1, 3)).collect();

    if persistent && g.chance(1, 80) {
        // The peers are unreachable for days.
        g.label("unreachable");
        for _ in 0..g.range(1, 90) {
            let dialing: Vec<PeerId> = h.m.dialing.keys().copied().collect();
            for a in dialing {
                h.m.lost(a, h.w.sim.now);
                let out = h.w.refuse(g, a);
                h.m.apply(g, &out, &h.w, false)?;
            }
            let next = h.m.retry.values().max().map_or(1000, |t| ago(*t, h.w.sim.now));
            h.elapse(g, next + 1)?;
        }
    }

    let mut inbounds = 0u16;
    for _ in 0..g.range(5, 80) {
        ensure_nodes(g, &mut h, false);
        let dialing: Vec<PeerId> = h.m.dialing.keys().copied().collect();
        let up: Vec<PeerId> = h.m.conns.keys().copied().collect();
        let pending = h.w.pending();
        match g.weighted(&[
            if pending.is_empty() { 0 } else { 20 },
            if dialing.is_empty() { 0 } else { 12 },
            6,
            if up.is_empty() { 0 } else { 3 },
            3,
            2,
            if up.is_empty() { 0 } else { 2 },
        ]) {
            0 => {
                if g.bool() {
                    deliver_all(g, &mut h)?;
                } else {
                    let a = *g.pick(&pending);
                    let out = h.w.deliver(g, a);
                    h.m.apply(g, &out, &h.w, false)?;
                }
            }
            1 => {
                let a = *g.pick(&dialing);
                if unreachable.contains(&a) || g.chance(1, 5) {
                    h.m.lost(a, h.w.sim.now);
                    let out = h.w.refuse(g, a);
                    h.m.apply(g, &out, &h.w, false)?;
                } else {
                    accept(g, &mut h, a)?;
                }
            }
            2 => {
                let d = match g.below(4) {
                    0 => g.range(1, 3000),
                    1 => g.range(3000, 70_000),
                    2 => 1000,
                    _ => g.range(1000, 7000),
                };
                h.elapse(g, d as u128)?;
            }
            3 => {
                let a = *g.pick(&up);
                h.m.lost(a, h.w.sim.now);
                let out = h.w.hangup(g, a);
                h.m.apply(g, &out, &h.w, false)?;
            }
            4 => {
                inbounds += 1;
                let a: PeerId = if g.chance(1, 4) && !up.is_empty() {
                    // From the address of another peer.
                    let ip = g.pick(&up).ip();
                    (ip, 50_000 + inbounds).into()
                } else {
                    ([77, inbounds as u8, 1, 1], 50_000 + inbounds).into()
                };
                inbound(g, &mut h, a)?;
            }
            5 => {
                let a: PeerId = match g.below(4) {
                    0 if !up.is_empty() => *g.pick(&up),
                    1 if !dialing.is_empty() => *g.pick(&dialing),
                    2 => (net::Ipv6Addr::new(0x2a01, h.fresh as u16, 0, 0, 0, 0, 0, 1), 8333).into(),
                    _ => {
                        h.fresh += 1;
                        peer_addr(100 + h.fresh)
                    }
                };
                if !h.m.conns.contains_key(&a) && !h.m.dialing.contains_key(&a) && h.m.cfg.domains.contains(&Domain::for_address(&a)) {
                    h.m.asked.insert(a);
                }
                let out = h.w.command(g, Command::Connect(a));
                h.m.apply(g, &out, &h.w, false)?;
            }
            _ => {
                let a = *g.pick(&up);
                h.m.close.insert(a, vec![Why::Command]);
                note!(g, "command disconnect {}", short(&a));
                h.w.sim.command(Command::Disconnect(a));
                if g.chance(1, 4) {
                    // Connect again, before the connection is closed.
                    note!(g, "command connect {}", short(&a));
                    h.m.again.insert(a);
                    h.w.sim.command(Command::Connect(a));
                }
                let out = h.w.settle_outputs(g);
                h.m.apply(g, &out, &h.w, false)?;
            }
        }
    }

    // From now on, all peers are reachable and behave.
    let addrs: Vec<PeerId> = h.w.nodes.keys().copied().collect();
    for a in addrs {
        let n = h.w.nodes.get_mut(&a).unwrap();
        n.handshake = Mode::Honest;
        n.services = preferred();
    }
    h.w.sim.dial_errors.clear();
    let target = h.m.cfg.limits.max_outbound_peers;
    if !persistent {
        let mut v = vec![];
        for i in 0..2 * target {
            let a: PeerId = ([150, i as u8, 9, 9], 8333).into();
            v.push(Address::new(&a, preferred()));
        }
        let out = h.w.command(g, Command::ImportAddresses(v));
        h.m.apply(g, &out, &h.w, false)?;
    }
    let mut t = 0u128;
    let limit = if persistent { 63 * 60_000 } else { 12 * 60_000 };
    loop {
        for _ in 0..200 {
            ensure_nodes(g, &mut h, true);
            let dialing: Vec<PeerId> = h.m.dialing.keys().copied().collect();
            for a in &dialing {
                accept(g, &mut h, *a)?;
            }
            deliver_all(g, &mut h)?;
            if dialing.is_empty() {
                break;
            }
        }
        let done = if persistent {
            h.m.cfg.connect.iter().all(|a| h.m.conns.get(a).map_or(false, |c| c.st == St::Negotiated))
        } else {
            h.m.count(Link::Outbound, St::Negotiated) >= target
        };
        if done && t > 2 * 60_000 {
            break;
        }
        if t > limit {
            if persistent {
                fail!("a persistent peer that is reachable isn't connected after {} s", t / 1000);
            }
            fail!("only {} outbound peers with a target of {}, though there are unused addresses", h.m.count(Link::Outbound, St::Negotiated), target);
        }
        h.elapse(g, 5_000)?;
        t += 5_000;
    }
    // Inbound peers are accepted up to the limit (checked by the model).
    for i in 0..g.below(3) {
        let a: PeerId = ([78, i as u8, 1, 1], 50_000).into();
        inbound(g, &mut h, a)?;
    }
    if h.m.negotiated > 0 {
        g.nontrivial();
    }
    if h.m.redials > 0 {
        g.label("redialed");
    }
    g.count("negotiated", h.m.negotiated);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C18

#[derive(Clone, Debug)]
struct Entry {
    addr: PeerId,
    services: ServiceFlags,
    attempted: bool,
    success: bool,
    sampled: Option<LocalTime>,
}

/// Reference model of the address book.
struct Abook {
    book: BTreeMap<net::IpAddr, Entry>,
    bans: BTreeSet<net::IpAddr>,
    /// Our own addresses, as seen by peers.
    own: BTreeSet<PeerId>,
    conns: BTreeMap<PeerId, Link>,
    negotiated: BTreeSet<PeerId>,
    asked: BTreeSet<PeerId>,
    getaddr: BTreeMap<PeerId, LocalTime>,
    since: BTreeMap<PeerId, LocalTime>,
    seen: usize,
    now: LocalTime,
    required: ServiceFlags,
    domains: Vec<Domain>,
    dials: u64,
    overflow: bool,
    /// When the last connection of an address was closed.
    left: BTreeMap<net::IpAddr, LocalTime>,
}

/// Address range of an address, by which the book is divided.
fn range_key(ip: &net::IpAddr) -> u32 {
    match ip {
        net::IpAddr::V4(i) => u32::from_be_bytes([0, 0, i.octets()[0], i.octets()[1]]) % 255,
        net::IpAddr::V6(i) => ((i.segments()[0] as u32) << 16 | i.segments()[1] as u32) % 255,
    }
}

fn routable(ip: &net::IpAddr) -> bool {
    match ip {
        net::IpAddr::V4(i) => !(i.is_private() || i.is_loopback() || i.is_link_local() || i.is_broadcast() || i.is_documentation() || i.octets()[0] == 0),
        net::IpAddr::V6(_) => true,
    }
}

impl Abook {
    fn usable(&self, a: &Address, last_active: u32, imported: bool, now: LocalTime) -> Option<PeerId> {
        let s = a.services;
        if !s.has(self.required) || s.has(ServiceFlags::GETUTXO) || s.has(ServiceFlags::BLOOM) {
            return None;
        }
        if !imported && last_active == 0 {
            return None;
        }
        if last_active as u64 > now.as_secs() + 58 * 60 {
            return None;
        }
        let sa = a.socket_addr().ok()?;
        if !self.domains.contains(&Domain::for_address(&sa)) || self.own.contains(&sa) || self.bans.contains(&sa.ip()) || !routable(&sa.ip()) {
            return None;
        }
        Some(sa)
    }

    fn insert(&mut self, addrs: &[(u32, Address)], imported: bool, now: LocalTime) -> u64 {
        let mut n = 0;
        for (t, a) in addrs {
            if let Some(sa) = self.usable(a, *t, imported, now) {
                if !self.book.contains_key(&sa.ip()) {
                    n += 1;
                    self.book.insert(sa.ip(), Entry { addr: sa, services: a.services, attempted: false, success: false, sampled: None });
                }
            }
        }
        n
    }

    fn connected_ip(&self, ip: &net::IpAddr) -> bool {
        self.conns.keys().any(|a| a.ip() == *ip)
    }

    fn update(&mut self, g: &mut G, w: &World) -> Res {
        let log = &w.log[self.seen..];
        for (i, r) in log.iter().enumerate() {
            match r {
                Rec::Now(t) => self.now = *t,
                Rec::Connect(a) => {
                    if self.asked.remove(a) {
                        continue;
                    }
                    let Some(e) = self.book.get(&a.ip()).cloned() else { fail!("{} was dialed, but isn't in the address book", a) };
                    ensure!(e.addr == *a, "{} was dialed, the address book has {}", a, e.addr);
                    ensure!(!self.bans.contains(&a.ip()), "{} was dialed, though it was banned", a);
                    ensure!(routable(&a.ip()) && self.domains.contains(&Domain::for_address(a)), "{} was dialed, which isn't routable or of an unsupported domain", a);
                    ensure!(!self.connected_ip(&a.ip()), "{} was dialed while connected to it", a);
                    ensure!(!e.attempted || e.success, "{} was dialed again, after connecting to it failed", a);
                    if let Some(t) = e.sampled {
                        ensure!(ago(self.now, t) > 2 * 60_000, "{} was dialed again after {} ms", a, ago(self.now, t));
                    }
                    if !e.services.has(preferred()) {
                        let better = self.book.values().find(|x| {
                            x.services.has(preferred())
                                && x.sampled.is_none()
                                && !x.attempted
                                && !self.connected_ip(&x.addr.ip())
                                && self.left.get(&x.addr.ip()) != Some(&self.now)
                                && self.domains.contains(&Domain::for_address(&x.addr))
                        });
                        if let Some(b) = better {
                            fail!("{} ({}) was dialed though there was {} ({})", a, e.services, b.addr, b.services);
                        }
                    }
                    let x = self.book.get_mut(&a.ip()).unwrap();
                    x.sampled = Some(self.now);
                    self.dials += 1;
                }
                Rec::Event(Event::PeerConnecting { addr, .. }) => {
                    if let Some(e) = self.book.get_mut(&addr.ip()) {
                        e.attempted = true;
                    }
                }
                Rec::Event(Event::PeerConnected { addr, link, .. }) => {
                    self.conns.insert(*addr, *link);
                }
                Rec::Event(Event::PeerNegotiated { addr, services, receiver, .. }) => {
                    if let Ok(a) = receiver.socket_addr() {
                        self.own.insert(a);
                    }
                    self.negotiated.insert(*addr);
                    self.since.insert(*addr, self.now);
                    if let Some(e) = self.book.get_mut(&addr.ip()) {
                        if routable(&addr.ip()) {
                            if !e.success {
                                let asked = log[i..].iter().any(|r| matches!(r, Rec::Write(a, NetworkMessage::GetAddr) if a == addr));
                                ensure!(asked, "{} wasn't asked for addresses on the first connection", addr);
                            }
                            e.success = true;
                            e.services = *services;
                        }
                    }
                }
                Rec::Event(Event::PeerDisconnected { addr, reason }) => {
                    self.conns.remove(addr);
                    self.left.insert(addr.ip(), self.now);
                    self.negotiated.remove(addr);
                    let ban = match reason {
                        nakamoto_net::Disconnect::StateMachine(r) => !matches!(why(r), Why::Limit | Why::Timeout | Why::Height),
                        _ => false,
                    };
                    if ban && routable(&addr.ip()) {
                        g.label("banned");
                        self.bans.insert(addr.ip());
                        self.book.remove(&addr.ip());
                    }
                }
                Rec::Write(a, NetworkMessage::GetAddr) => {
                    self.getaddr.insert(*a, self.now);
                }
                _ => {}
            }
        }
        self.seen = w.log.len();
        let real = &w.sim.peers.get().0;
        if !self.overflow {
            for ip in real.keys() {
                ensure!(self.book.contains_key(ip), "the address book contains {}, which it should not", ip);
            }
            for ip in self.book.keys() {
                ensure!(real.contains_key(ip), "the address book doesn't contain {}", ip);
            }
        } else {
            let mut n: BTreeMap<u32, usize> = BTreeMap::new();
            for ip in real.keys() {
                ensure!(self.book.contains_key(ip), "the address book contains {}, which it should not", ip);
                *n.entry(range_key(ip)).or_default() += 1;
            }
            for (k, c) in &n {
                ensure!(*c <= 256, "{} addresses of range {}", c, k);
            }
            let mut m: BTreeMap<u32, usize> = BTreeMap::new();
            for ip in self.book.keys() {
                *m.entry(range_key(ip)).or_default() += 1;
            }
            for (k, c) in &m {
                let have = n.get(k).copied().unwrap_or(0);
                // Addresses are only given up if their range is full.
                ensure!(have == (*c).min(256), "{} of {} addresses of range {} are in the book", have, c, k);
            }
            // Those given up may come back, with other ports and services.
            self.book.retain(|ip, _| real.contains_key(ip));
            for (ip, e) in self.book.iter_mut() {
                let ka = &real[ip];
                if let Ok(a) = ka.addr.socket_addr() {
                    e.addr = a;
                    e.services = ka.addr.services;
                    e.success = ka.last_success.is_some();
                    e.attempted = ka.last_attempt.is_some();
                    if ka.last_sampled.is_none() {
                        e.sampled = None;
                    }
                }
            }
        }
        Ok(())
    }
}

fn gen_address(g: &mut G, a: &Abook, h: &Hand) -> Address {
    let services = match g.below(8) {
        0 => ServiceFlags::NONE,
        1 => ServiceFlags::NETWORK,
        2 => preferred() | ServiceFlags::BLOOM,
        3 => preferred() | ServiceFlags::GETUTXO,
        4 => preferred() | ServiceFlags::WITNESS,
        _ => preferred(),
    };
    let known: Vec<PeerId> = a.book.values().map(|e| e.addr).collect();
    let bans: Vec<net::IpAddr> = a.bans.iter().copied().collect();
    let conns: Vec<PeerId> = h.m.conns.keys().copied().collect();
    let ip4 = |a: u8, b: u8, c: u8, d: u8| -> PeerId { ([a, b, c, d], 8333).into() };
    let x = g.u8();
    let sa: PeerId = match g.below(20) {
        0 => ip4(10, x, 0, 1),
        1 => ip4(127, 0, 0, x),
        2 => ip4(192, 168, x, 1),
        3 => ip4(169, 254, x, 1),
        4 => ip4(0, x, 0, 1),
        5 => *g.pick(&[ip4(255, 255, 255, 255), ip4(192, 0, 2, 9), ip4(198, 51, 100, 9), ip4(203, 0, 113, 9)]),
        6 => Sim::local_addr(),
        7 if !known.is_empty() => {
            let mut k = *g.pick(&known);
            if g.bool() {
                k.set_port(9999);
            }
            k
        }
        8 if !bans.is_empty() => (*g.pick(&bans), 8333).into(),
        9 if !conns.is_empty() => *g.pick(&conns),
        10 => (net::Ipv6Addr::new(0x2a01, x as u16, 0, 0, 0, 0, 0, 9), 8333).into(),
        11 => {
            // Onion address.
            return Address { services, address: [0xfd87, 0xd87e, 0xeb43, 1, 2, 3, 4, x as u16], port: 8333 };
        }
        _ => {
            let y = g.u8();
            let z = g.below(4) as u8;
            ip4(*g.pick(&[50, 60, 88, 150, 192, 172]), 34 + (x % 100), z, y)
        }
    };
    Address::new(&sa, services)
}

fn c18(g: &mut G) -> Res {
    let u = Universe::new();
    let (tree, filters) = stores(&u, &[0], 0);
    let mut cfg = config(g);
    cfg.limits.max_outbound_peers = g.usize(0, 5);
    cfg.limits.max_inbound_peers = 20;
    if g.chance(1, 3) {
        cfg.domains = vec![Domain::IPV4];
    }
    let mut book = PeerBook::default();
    let mut a = Abook {
        book: Default::default(),
        bans: Default::default(),
        own: Default::default(),
        conns: Default::default(),
        negotiated: Default::default(),
        asked: Default::default(),
        getaddr: Default::default(),
        since: Default::default(),
        seen: 0,
        now: LocalTime::from_secs(1_700_000_000),
        required: cfg.required_services,
        domains: cfg.domains.clone(),
        dials: 0,
        overflow: false,
        left: Default::default(),
    };
    for i in 0..g.below(12) as usize {
        let s = *g.pick(&[preferred(), preferred(), ServiceFlags::NETWORK, ServiceFlags::NONE]);
        book.0.insert(peer_addr(i).ip(), book_addr(i, s));
        a.book.insert(peer_addr(i).ip(), Entry { addr: peer_addr(i), services: s, attempted: false, success: false, sampled: None });
    }
    let m = Mon::new(false, &cfg, 0);
    let seed = g.seed();
    let flood = g.chance(1, 20);
    a.overflow = flood;
    let sim = Sim::new(tree, filters, book, a.now, seed, cfg);
    let mut h = Hand { w: World::new(u, sim), m, fresh: 0 };
    note!(g, "target {}, required {}, domains {:?}, {} addresses", h.m.cfg.limits.max_outbound_peers, h.m.cfg.required_services, h.m.cfg.domains, a.book.len());
    let out = h.w.initialize(g);
    h.m.apply(g, &out, &h.w, false)?;
    a.update(g, &h.w)?;
    let mut inbounds = 0u16;
    let mut added = 0;
    for _ in 0..g.range(5, if flood { 12 } else { 60 }) {
        ensure_nodes(g, &mut h, true);
        let dialing: Vec<PeerId> = h.m.dialing.keys().copied().collect();
        let up: Vec<PeerId> = h.m.conns.keys().copied().collect();
        let nego: Vec<PeerId> = h.m.conns.iter().filter(|(_, c)| c.st == St::Negotiated).map(|(a, _)| *a).collect();
        let now = h.w.sim.now;
        match g.weighted(&[
            if dialing.is_empty() { 0 } else { 10 },
            4,
            5,
            if nego.is_empty() { 0 } else { 10 },
            3,
            if nego.is_empty() { 0 } else { 3 },
            if up.is_empty() { 0 } else { 4 },
            1,
        ]) {
            0 => {
                let d = *g.pick(&dialing);
                if g.chance(1, 3) {
                    h.m.lost(d, now);
                    let out = h.w.refuse(g, d);
                    h.m.apply(g, &out, &h.w, false)?;
                } else {
                    accept(g, &mut h, d)?;
                    if g.chance(4, 5) {
                        deliver_all(g, &mut h)?;
                    }
                }
            }
            1 => {
                inbounds += 1;
                let p: PeerId = match g.below(4) {
                    0 if !a.book.is_empty() => {
                        let ips: Vec<_> = a.book.keys().copied().collect();
                        (*g.pick(&ips), 40_000 + inbounds).into()
                    }
                    1 => ([10, 1, inbounds as u8, 1], 40_000).into(),
                    _ => ([77, inbounds as u8, 1, 1], 40_000).into(),
                };
                if !h.m.conns.contains_key(&p) {
                    inbound(g, &mut h, p)?;
                    deliver_all(g, &mut h)?;
                }
            }
            2 => {
                let d = match g.below(3) {
                    0 => g.range(1, 10_000),
                    1 => g.range(10_000, 70_000),
                    _ => g.range(60_000, 250_000),
                };
                let mut d = d;
                while d > 0 {
                    let s = d.min(5_000);
                    h.elapse(g, s as u128)?;
                    a.update(g, &h.w)?;
                    if g.chance(9, 10) {
                        deliver_all(g, &mut h)?;
                    }
                    d -= s;
                }
            }
            3 => {
                // Addresses of a peer.
                let p = *g.pick(&nego);
                let n = match g.below(12) {
                    0 => 0,
                    1 if g.chance(1, 10) => 1000,
                    2 if g.chance(1, 10) => 1001,
                    _ => g.range(1, 12),
                };
                let n = if flood { g.range(200, 1000) } else { n };
                let base = g.u8();
                let mut v = vec![];
                for i in 0..n {
                    let x = if flood && i % 50 != 0 {
                        Address::new(&([60, 60, base.wrapping_add((i / 256) as u8), i as u8], 8333).into(), preferred() | ServiceFlags::WITNESS)
                    } else if n >= 1000 {
                        Address::new(&([100, (i % 250) as u8, base, (i / 250) as u8], 8333).into(), preferred())
                    } else {
                        gen_address(g, &a, &h)
                    };
                    let t = match g.below(10) {
                        0 => 0,
                        1 => now.as_secs() as u32 + 50 * 60,
                        2 => now.as_secs() as u32 + 61 * 60,
                        3 => u32::MAX,
                        4 => 1,
                        _ => now.as_secs() as u32 - g.range(0, 100_000) as u32,
                    };
                    v.push((t, x));
                }
                let out = h.w.send(g, p, NetworkMessage::Addr(v.clone()));
                h.m.apply(g, &out, &h.w, false)?;
                if !v.is_empty() && v.len() <= 1000 {
                    added += a.insert(&v, false, now);
                }
            }
            4 => {
                let mut v = vec![];
                for _ in 0..g.range(1, 6) {
                    v.push(gen_address(g, &a, &h));
                }
                let out = h.w.command(g, Command::ImportAddresses(v.clone()));
                h.m.apply(g, &out, &h.w, false)?;
                let v: Vec<_> = v.into_iter().map(|a| (0, a)).collect();
                added += a.insert(&v, true, now);
            }
            5 => {
                let p = *g.pick(&nego);
                let out = h.w.send(g, p, NetworkMessage::GetAddr);
                h.m.apply(g, &out, &h.w, false)?;
                a.update(g, &h.w)?;
                let got: Vec<&Vec<(u32, Address)>> = out
                    .iter()
                    .filter_map(|r| match r {
                        Rec::Write(x, NetworkMessage::Addr(v)) if *x == p => Some(v),
                        _ => None,
                    })
                    .collect();
                ensure!(got.len() == 1, "{} answers to getaddr", got.len());
                let want: BTreeSet<u32> = a.book.keys().map(range_key).collect();
                let mut keys = BTreeSet::new();
                for (_, x) in got[0] {
                    let Ok(sa) = x.socket_addr() else { fail!("address without socket address") };
                    let Some(e) = a.book.get(&sa.ip()) else { fail!("{} was given to a peer, but isn't in the address book", sa) };
                    ensure!(e.addr == sa && e.services == x.services, "{} ({}) was given to a peer, the address book has {} ({})", sa, x.services, e.addr, e.services);
                    ensure!(keys.insert(range_key(&sa.ip())), "more than one address of a range was given");
                }
                ensure!(keys == want, "addresses of {} of {} ranges were given", keys.len(), want.len());
                g.label("getaddr");
            }
            6 => {
                let p = *g.pick(&up);
                match g.below(3) {
                    0 => {
                        h.m.lost(p, now);
                        let out = h.w.hangup(g, p);
                        h.m.apply(g, &out, &h.w, false)?;
                    }
                    1 => {
                        let out = h.w.send(g, p, NetworkMessage::Verack);
                        h.m.apply(g, &out, &h.w, false)?;
                    }
                    _ => {
                        h.m.close.insert(p, vec![Why::Command]);
                        let out = h.w.command(g, Command::Disconnect(p));
                        h.m.apply(g, &out, &h.w, false)?;
                    }
                }
            }
            _ => {
                h.fresh += 1;
                let p = peer_addr(100 + h.fresh);
                a.asked.insert(p);
                h.m.asked.insert(p);
                let out = h.w.command(g, Command::Connect(p));
                h.m.apply(g, &out, &h.w, false)?;
            }
        }
        a.update(g, &h.w)?;
    }
    // Once there are no addresses left, the outbound peers are asked for more.
    let start = h.w.sim.now;
    let before = a.book.values().any(|e| !(e.attempted && !e.success) && !a.connected_ip(&e.addr.ip()));
    for _ in 0..60 {
        h.elapse(g, 5_000)?;
        deliver_all(g, &mut h)?;
        a.update(g, &h.w)?;
    }
    let unused = before || a.book.values().any(|e| !(e.attempted && !e.success) && !a.connected_ip(&e.addr.ip()));
    if !unused && !flood {
        for p in &a.negotiated {
            if a.conns.get(p) == Some(&Link::Outbound) && routable(&p.ip()) && a.since[p] < start {
                let asked = a.getaddr.get(p).map_or(false, |t| *t >= start);
                ensure!(asked, "{} wasn't asked for addresses in 5 minutes, though there are none left", p);
                g.label("exhausted");
            }
        }
    }
    if added > 0 && a.dials > 0 {
        g.nontrivial();
    }
    g.count("added", added);
    g.count("dials", a.dials);
    Ok(())
}

pub static PROPS: &[Property] = &[
    Property {
        id: "C14",
        level: "exploration",
        rule: "a case is a history of connections and handshake messages in any order; non-trivial: at least one peer was negotiated",
        strategies: &[Strategy { name: "model", quick: 200000, thorough: 5000000, case: c14 }],
        assumptions: &["the clock doesn't go backwards"],
        known: &[],
    },
    Property {
        id: "C15",
        level: "exploration",
        rule: "a case is a history of connections, failures and commands followed by a phase in which peers are reachable; non-trivial: at least one peer was negotiated",
        strategies: &[Strategy { name: "net", quick: 80000, thorough: 4000000, case: c15 }],
        assumptions: &["the clock doesn't go backwards"],
        known: &[],
    },
    Property {
        id: "C18",
        level: "exploration",
        rule: "a case is a history of address messages, imports, connections and bans; non-trivial: an address was added and one was dialed",
        strategies: &[Strategy { name: "model", quick: 20000, thorough: 1000000, case: c18 }],
        assumptions: &["the clock doesn't go backwards"],
        known: &[],
    },
];
