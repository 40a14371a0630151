//! C19: pings and pongs.
use std::collections::BTreeMap;

use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::block::time::{LocalDuration, LocalTime};
use nakamoto_net::Link;
use nakamoto_p2p::fsm::{Command, DisconnectReason, Event, PeerId};

use super::net::{setup, Opts};
use crate::pbt::{Property, Res, Strategy, G};
use crate::sim::*;
use crate::{ensure, note};

/// Time between the answer to a ping and the next one.
const INTERVAL: u128 = 120_000;
/// Time after which timers expire at the latest, and timers are merged.
const SLACK: u128 = 61_000;

#[derive(Default)]
struct Conn {
    negotiated: Option<LocalTime>,
    /// Ping that wasn't answered yet.
    open: Option<(u64, LocalTime)>,
    answered: Option<LocalTime>,
    pings: u64,
    /// Nonces of pings to be answered.
    due: Vec<u64>,
    /// A verack was received since the outputs were last processed.
    verack: bool,
    /// Pings received after that.
    maybe: Vec<u64>,
}

#[derive(Default)]
struct Mon {
    at: usize,
    timeout: u128,
    conns: BTreeMap<PeerId, Conn>,
    pongs: u64,
    rounds: u64,
    timeouts: u64,
}

fn age(now: LocalTime, t: LocalTime) -> u128 {
    millis(now) - millis(t)
}

impl Mon {
    fn consume(&mut self, w: &World) -> Res {
        let now = w.sim.now;
        let new = &w.log[self.at..];
        self.at = w.log.len();
        let mut got: BTreeMap<PeerId, Vec<u64>> = BTreeMap::new();
        let mut gone: Vec<PeerId> = vec![];
        for r in new {
            match r {
                Rec::In(a, m) => {
                    let c = self.conns.entry(*a).or_default();
                    match m {
                        NetworkMessage::Ping(n) => {
                            if c.negotiated.is_some() {
                                c.due.push(*n);
                            } else if c.verack {
                                c.maybe.push(*n);
                            }
                        }
                        NetworkMessage::Verack => c.verack = true,
                        NetworkMessage::Pong(n) => {
                            if c.open.map_or(false, |(x, _)| x == *n) {
                                c.open = None;
                                c.answered = Some(now);
                                self.rounds += 1;
                            }
                        }
                        _ => {}
                    }
                }
                Rec::Event(Event::PeerNegotiated { addr, .. }) => {
                    let c = self.conns.entry(*addr).or_default();
                    c.negotiated = Some(now);
                    let m = std::mem::take(&mut c.maybe);
                    c.due.extend(m);
                }
                Rec::Event(Event::PeerDisconnected { addr, .. }) => gone.push(*addr),
                Rec::Disconnect(a, why) => {
                    gone.push(*a);
                    if matches!(why, DisconnectReason::PeerTimeout("ping")) {
                        let c = self.conns.entry(*a).or_default();
                        self.timeouts += 1;
                        ensure!(c.open.is_some(), "{} is disconnected for a ping it has answered", short(a));
                        let (_, since) = c.open.unwrap();
                        ensure!(
                            age(now, since) >= self.timeout,
                            "{} is disconnected {}ms after a ping was sent, the timeout is {}ms",
                            short(a),
                            age(now, since),
                            self.timeout
                        );
                    }
                }
                Rec::Write(a, NetworkMessage::Pong(n)) => got.entry(*a).or_default().push(*n),
                Rec::Write(a, NetworkMessage::Ping(n)) => {
                    let c = self.conns.entry(*a).or_default();
                    ensure!(c.open.is_none(), "{} is pinged again while a ping isn't answered", short(a));
                    if let Some(t) = c.answered {
                        ensure!(age(now, t) >= INTERVAL, "{} is pinged {}ms after its last answer", short(a), age(now, t));
                    }
                    c.open = Some((*n, now));
                    c.pings += 1;
                }
                _ => {}
            }
        }
        // Answers.
        let none = vec![];
        for (a, c) in &mut self.conns {
            let due = std::mem::take(&mut c.due);
            c.maybe.clear();
            let got = got.get(a).unwrap_or(&none);
            if gone.contains(a) {
                // It may have been disconnected before.
                ensure!(
                    got.len() <= due.len() && got.iter().zip(&due).all(|(x, y)| x == y),
                    "{} got the pongs {:?}, its pings were {:?}",
                    short(a),
                    got,
                    due
                );
                continue;
            }
            ensure!(*got == due, "{} got the pongs {:?}, its pings were {:?}", short(a), got, due);
            self.pongs += due.len() as u64;
            c.verack = false;
            if c.negotiated.is_some() {
                ensure!(c.pings > 0, "{} wasn't pinged when it was negotiated", short(a));
                if let Some((_, t)) = c.open {
                    ensure!(
                        age(now, t) <= self.timeout + SLACK,
                        "{} hasn't answered for {}ms, and is still connected (timeout {}ms)",
                        short(a),
                        age(now, t),
                        self.timeout
                    );
                } else if let Some(t) = c.answered {
                    ensure!(age(now, t) <= INTERVAL + SLACK, "{} wasn't pinged for {}ms", short(a), age(now, t));
                }
            } else {
                ensure!(c.pings == 0, "{} was pinged before the handshake was over", short(a));
            }
        }
        for a in gone {
            self.conns.remove(&a);
        }
        Ok(())
    }
}

fn c19(g: &mut G) -> Res {
    let mut o = Opts::gen(g);
    o.faulty = false;
    o.trunk = g.range(1, 5);
    let mut timeout = 0;
    let mut w = setup(g, &o, &mut |g, c| {
        timeout = *g.pick(&[30u64, 30, 30, 5, 60, 100, 150]);
        c.ping_timeout = LocalDuration::from_secs(timeout);
    });
    for n in w.nodes.values_mut() {
        n.pong = Mode::Silent;
    }
    let mut m = Mon { timeout: timeout as u128 * 1000, ..Mon::default() };
    // How peers treat pings.
    let mut style: BTreeMap<PeerId, u64> = BTreeMap::new();
    let mut old: Vec<u64> = vec![];
    w.initialize(g);
    m.consume(&w)?;
    let steps = g.range(10, 80);
    let mut inbounds = 0u8;
    for _ in 0..steps {
        let up: Vec<PeerId> = w.sim.up.keys().copied().collect();
        let open: Vec<(PeerId, u64)> = m.conns.iter().filter(|(a, _)| w.sim.up.contains_key(a)).filter_map(|(a, c)| c.open.map(|(n, _)| (*a, n))).collect();
        let pending = w.pending();
        let dialing = w.dialing();
        match g.weighted(&[
            if pending.is_empty() { 0 } else { 14 },
            if dialing.is_empty() { 0 } else { 8 },
            10,
            if open.is_empty() { 0 } else { 10 },
            if up.is_empty() { 0 } else { 5 },
            1,
            if up.is_empty() { 0 } else { 1 },
            if up.is_empty() { 0 } else { 2 },
        ]) {
            0 => {
                // One message or several at once.
                let a = *g.pick(&pending);
                let k = if g.chance(1, 3) { g.range(2, 5) } else { 1 };
                for _ in 0..k {
                    w.push_next(g, a);
                    if g.chance(1, 6) {
                        let n = g.below(1000);
                        push(g, &mut w, a, NetworkMessage::Ping(n));
                    }
                }
                w.settle_outputs(g);
            }
            1 => {
                let a = *g.pick(&dialing);
                if g.chance(1, 15) {
                    w.refuse(g, a);
                } else {
                    w.accept(g, a);
                }
            }
            2 => {
                // Time passes, all timers expiring on the way. Peers that are well get to answer.
                let d = *g.pick(&[1u64, 5, 29, 30, 31, 60, 90, 119, 121, 150, 200, 400]);
                let end = millis(w.sim.now) + d as u128 * 1000;
                let lazy = g.chance(1, 3);
                while w.sim.next_timer().map_or(false, |t| t <= end) {
                    w.next_timer(g);
                    m.consume(&w)?;
                    for (a, c) in &m.conns {
                        style.entry(*a).or_insert_with(|| g.below(4));
                        let _ = c;
                    }
                    if !lazy {
                        let l: Vec<(PeerId, u64)> = m.conns.iter().filter_map(|(a, c)| c.open.map(|(n, _)| (*a, n))).collect();
                        for (a, n) in l {
                            if style.get(&a).map_or(true, |s| *s < 3) && w.sim.up.contains_key(&a) {
                                push(g, &mut w, a, NetworkMessage::Pong(n));
                                w.settle_outputs(g);
                                m.consume(&w)?;
                            }
                        }
                        for a in w.pending() {
                            w.deliver(g, a);
                        }
                        m.consume(&w)?;
                    }
                }
                let now = millis(w.sim.now);
                if now < end {
                    w.sim.elapse(LocalDuration::from_millis(end - now));
                    w.sim.tick();
                }
            }
            3 => {
                let (a, n) = *g.pick(&open);
                old.push(n);
                let n = match g.below(10) {
                    0 => n.wrapping_add(1),
                    1 => *g.pick(&old),
                    2 => 0,
                    // Similar ones.
                    3 => n ^ (1 << g.below(64)),
                    4 => *g.pick(&[n as u32 as u64, n >> 32, n.swap_bytes(), n as u16 as u64, !n]),
                    // That of another peer.
                    5 => g.pick(&open).1,
                    _ => n,
                };
                push(g, &mut w, a, NetworkMessage::Pong(n));
                w.settle_outputs(g);
            }
            4 => {
                let k = if g.chance(1, 3) { g.range(2, 3) } else { 1 };
                for _ in 0..k {
                    let a = *g.pick(&up);
                    let n = *g.pick(&[0, 1, u64::MAX, 77]);
                    let n = if g.bool() { n } else { g.u64() };
                    push(g, &mut w, a, NetworkMessage::Ping(n));
                }
                w.settle_outputs(g);
            }
            5 => {
                inbounds += 1;
                let a: PeerId = ([77, 1, 1, inbounds], 9000).into();
                let tip = w.nodes.values().next().unwrap().tip;
                let mut n = Node::new(a, &w.u, tip);
                n.pong = Mode::Silent;
                n.link = Link::Inbound;
                w.add_node(n);
                w.inbound(g, a);
            }
            6 => {
                let a = *g.pick(&up);
                if g.bool() {
                    w.hangup(g, a);
                } else {
                    w.command(g, Command::Disconnect(a));
                }
            }
            _ => {
                // Unsolicited answers.
                let a = *g.pick(&up);
                let n = if old.is_empty() { g.u64() } else { *g.pick(&old) };
                push(g, &mut w, a, NetworkMessage::Pong(n));
                w.settle_outputs(g);
            }
        }
        m.consume(&w)?;
    }
    if m.rounds > 1 && m.pongs > 0 {
        g.nontrivial();
    }
    if m.timeouts > 0 {
        g.label("timeout");
    }
    g.count("pings answered by peers", m.rounds);
    g.count("pings answered by the client", m.pongs);
    g.count("timeouts", m.timeouts);
    Ok(())
}

fn push(g: &mut G, w: &mut World, a: PeerId, m: NetworkMessage) {
    if !w.sim.up.contains_key(&a) {
        return;
    }
    note!(g, "<- {} {:?}", short(&a), m);
    w.log.push(Rec::In(a, m.clone()));
    w.sim.message(a, m);
}

pub static PROPS: &[Property] = &[Property {
    id: "C19",
    level: "exploration",
    rule: "a case is a history of connections, pings, answers and expiring timers; non-trivial: the client pinged and was answered more than once, and answered a ping",
    strategies: &[Strategy { name: "pings", quick: 60000, thorough: 3000000, case: c19 }],
    assumptions: &["timers expire within a second of the time they were set to", "the clock doesn't go backwards"],
    known: &[],
}];
