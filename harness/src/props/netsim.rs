//! C30: the network simulator.
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::net::{IpAddr, SocketAddr};
use std::ops::{Deref, DerefMut};
use std::rc::Rc;

use nakamoto_net::simulator::{Options, Peer, Simulation, MAX_EVENTS};
use nakamoto_net::{Disconnect, Io, Link, LocalDuration, LocalTime, StateMachine};

use crate::pbt::{Property, Res, Strategy, G};
use crate::sim::millis;
use crate::{ensure, note};

/// Reason of a disconnection by a node.
#[derive(Debug, Clone, PartialEq, Eq)]
struct Reason(u64);

impl std::fmt::Display for Reason {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "reason {}", self.0)
    }
}

impl From<Reason> for Disconnect<Reason> {
    fn from(r: Reason) -> Self {
        Disconnect::StateMachine(r)
    }
}

/// Something a node does. Peers are indices.
#[derive(Debug, Clone)]
enum Act {
    Write(usize),
    /// Write, even if not connected.
    Shout(usize),
    Connect(usize),
    Disconnect(usize),
    Timer(u64),
    Event,
    Events(usize),
    /// Many messages, or timers.
    Burst(usize, usize),
}

/// What a node is told.
#[derive(Debug, Clone, PartialEq, Eq)]
enum In {
    Attempted(SocketAddr),
    Connected(SocketAddr, SocketAddr, bool),
    /// The reason, if it is that of a node.
    Disconnected(SocketAddr, Option<Reason>),
    Received(SocketAddr, u64),
    Wake,
}

/// What a node outputs.
#[derive(Debug, Clone, PartialEq, Eq)]
enum Out {
    /// Message, and whether the node is connected.
    Write(SocketAddr, u64, bool),
    Connect(SocketAddr),
    /// Reason, and whether the peer was connected, rather than being attempted.
    Disconnect(SocketAddr, Reason, bool),
    Timer(u64),
    Event(u64),
}

#[derive(Debug, Clone, PartialEq, Eq)]
enum Rec {
    In(u128, usize, In),
    Out(u128, usize, Out),
}

impl Rec {
    fn node(&self) -> usize {
        match self {
            Rec::In(_, i, _) | Rec::Out(_, i, _) => *i,
        }
    }
}

#[derive(Default)]
struct Shared {
    now: u128,
    ids: u64,
    log: Vec<Rec>,
    backwards: bool,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Conn {
    Pending,
    Attempted,
    Connected(SocketAddr),
    Closing,
}

struct Machine {
    ix: usize,
    /// Nodes connect to those with higher addresses, or to those with lower ones.
    up: bool,
    addrs: Vec<SocketAddr>,
    sh: Rc<RefCell<Shared>>,
    /// The clock, as of the last tick.
    clock: u128,
    script: VecDeque<Vec<Act>>,
    out: VecDeque<(Io<u64, u64, Reason>, Out)>,
    view: BTreeMap<IpAddr, Conn>,
}

impl Machine {
    fn act(&mut self, a: &Act) {
        let id = {
            let mut s = self.sh.borrow_mut();
            s.ids += 1;
            s.ids
        };
        match a {
            Act::Write(p) | Act::Shout(p) => {
                let a0 = self.addrs[*p];
                let conn = match self.view.get(&a0.ip()) {
                    Some(Conn::Connected(a)) => Some(*a),
                    _ => None,
                };
                if *p == self.ix || (conn.is_none() && matches!(a, Act::Write(_))) {
                    return;
                }
                let to = conn.unwrap_or(a0);
                if conn.is_none() && self.view.get(&a0.ip()) == Some(&Conn::Closing) {
                    return;
                }
                self.out.push_back((Io::Write(to, id), Out::Write(to, id, conn.is_some())));
            }
            Act::Connect(p) => {
                // Two nodes never connect to each other at once.
                let to = self.addrs[*p];
                if *p != self.ix && (*p > self.ix) == self.up && !self.view.contains_key(&to.ip()) {
                    self.view.insert(to.ip(), Conn::Pending);
                    self.out.push_back((Io::Connect(to), Out::Connect(to)));
                }
            }
            Act::Disconnect(p) => {
                let a0 = self.addrs[*p];
                let (to, c) = match self.view.get(&a0.ip()) {
                    Some(Conn::Connected(a)) => (*a, true),
                    Some(Conn::Attempted) => (a0, false),
                    _ => return,
                };
                self.view.insert(a0.ip(), Conn::Closing);
                self.out.push_back((Io::Disconnect(to, Reason(id)), Out::Disconnect(to, Reason(id), c)));
            }
            Act::Timer(ms) => {
                self.out.push_back((Io::SetTimer(LocalDuration::from_millis(*ms as u128)), Out::Timer(*ms)));
            }
            Act::Event => self.out.push_back((Io::Event(id), Out::Event(id))),
            Act::Burst(p, n) => {
                for i in 0..*n {
                    let a = if *p == self.ix { Act::Timer(1 + i as u64 / 20) } else { Act::Write(*p) };
                    self.act(&a);
                }
            }
            Act::Events(n) => {
                for _ in 0..*n {
                    self.act(&Act::Event);
                }
            }
        }
    }

    fn input(&mut self, i: In) {
        {
            let mut s = self.sh.borrow_mut();
            // The node's clock was updated for this input.
            if self.clock != s.now {
                s.backwards = true;
            }
            let now = s.now;
            s.log.push(Rec::In(now, self.ix, i));
        }
        if let Some(acts) = self.script.pop_front() {
            for a in acts.iter() {
                self.act(a);
            }
        }
    }
}

impl Iterator for Machine {
    type Item = Io<u64, u64, Reason>;

    fn next(&mut self) -> Option<Self::Item> {
        let (io, o) = self.out.pop_front()?;
        let mut s = self.sh.borrow_mut();
        let now = s.now;
        s.log.push(Rec::Out(now, self.ix, o));
        Some(io)
    }
}

impl StateMachine for Machine {
    type Message = u64;
    type Event = u64;
    type DisconnectReason = Reason;

    fn initialize(&mut self, time: LocalTime) {
        self.clock = millis(time);
        if let Some(acts) = self.script.pop_front() {
            for a in acts.iter() {
                self.act(a);
            }
        }
    }
    fn message_received(&mut self, addr: &SocketAddr, message: Cow<u64>) {
        self.input(In::Received(*addr, *message));
    }
    fn attempted(&mut self, addr: &SocketAddr) {
        if self.view.get(&addr.ip()) == Some(&Conn::Pending) {
            self.view.insert(addr.ip(), Conn::Attempted);
        }
        self.input(In::Attempted(*addr));
    }
    fn connected(&mut self, addr: SocketAddr, local: &SocketAddr, link: Link) {
        self.view.insert(addr.ip(), Conn::Connected(addr));
        self.input(In::Connected(addr, *local, link.is_outbound()));
    }
    fn disconnected(&mut self, addr: &SocketAddr, reason: Disconnect<Reason>) {
        self.view.remove(&addr.ip());
        let r = match reason {
            Disconnect::StateMachine(r) => Some(r),
            _ => None,
        };
        self.input(In::Disconnected(*addr, r));
    }
    fn tick(&mut self, time: LocalTime) {
        let t = millis(time);
        let mut s = self.sh.borrow_mut();
        if t < s.now {
            s.backwards = true;
        }
        s.now = t;
        self.clock = t;
    }
    fn timer_expired(&mut self) {
        self.input(In::Wake);
    }
}

struct Node(Machine, LocalTime);

impl Deref for Node {
    type Target = Machine;
    fn deref(&self) -> &Machine {
        &self.0
    }
}
impl DerefMut for Node {
    fn deref_mut(&mut self) -> &mut Machine {
        &mut self.0
    }
}
impl Peer<Machine> for Node {
    fn init(&mut self) {
        let t = self.1;
        self.0.initialize(t);
    }
    fn addr(&self) -> SocketAddr {
        self.0.addrs[self.0.ix]
    }
}

#[derive(Debug, Clone)]
struct Scenario {
    start: u64,
    seed: u64,
    up: bool,
    latency: (u64, u64),
    failure: f64,
    nodes: usize,
    scripts: Vec<Vec<Vec<Act>>>,
    /// What is done from outside: after a number of steps, by a node.
    outside: BTreeMap<usize, Vec<(usize, Act)>>,
    /// Steps after which events are taken.
    take: Vec<usize>,
}

fn act(g: &mut G, n: usize) -> Act {
    match g.weighted(&[8, 1, 4, 2, 6, 2]) {
        0 if g.chance(1, 40) => Act::Burst(g.usize(0, n - 1), g.usize(10, 120)),
        0 => Act::Write(g.usize(0, n - 1)),
        1 => Act::Shout(g.usize(0, n - 1)),
        2 => Act::Connect(g.usize(0, n - 1)),
        3 => Act::Disconnect(g.usize(0, n - 1)),
        4 => Act::Timer(match g.below(4) {
            0 => g.range(0, 3),
            1 => g.range(0, 20),
            2 => 1000 * g.range(1, 20),
            _ => g.range(0, 30_000),
        }),
        _ => {
            if g.chance(1, 200) {
                Act::Events(g.usize(2000, 2100))
            } else {
                Act::Event
            }
        }
    }
}

fn scenario(g: &mut G) -> Scenario {
    let nodes = if g.chance(1, 12) { g.usize(6, 16) } else { g.usize(2, 5) };
    let start = 1_600_000_000 + g.range(0, 30);
    let failure = match g.below(6) {
        0 => 1.0,
        1 => 0.3,
        _ => 0.0,
    };
    let latency = match g.below(4) {
        0 => (0, 0),
        1 => (0, 1),
        2 => (0, g.range(1, 4)),
        _ => {
            let a = g.range(1, 4);
            (a, a + g.range(1, 5))
        }
    };
    // Without disconnections, everything arrives.
    let clean = g.chance(1, 2);
    let mut gen = |g: &mut G| loop {
        let a = act(g, nodes);
        if clean && matches!(a, Act::Disconnect(_)) {
            continue;
        }
        return a;
    };
    let mut scripts = vec![];
    let early = g.chance(2, 3);
    let up = g.chance(2, 3);
    for i in 0..nodes {
        let n = g.usize(0, 12);
        let mut v = vec![];
        // Connect soon.
        if early && up && i + 1 < nodes {
            v.push(vec![Act::Connect(g.usize(i + 1, nodes - 1))]);
        } else if early && !up && i > 0 {
            v.push(vec![Act::Connect(g.usize(0, i - 1))]);
        }
        for _ in 0..n {
            let k = g.usize(0, 4);
            v.push((0..k).map(|_| gen(g)).collect::<Vec<_>>());
        }
        scripts.push(v);
    }
    let mut outside: BTreeMap<usize, Vec<(usize, Act)>> = BTreeMap::new();
    if g.bool() {
        for _ in 0..g.usize(1, 12) {
            let at = g.usize(0, 40);
            let who = g.usize(0, nodes - 1);
            let a = gen(g);
            outside.entry(at).or_default().push((who, a));
        }
    }
    let take = if g.chance(1, 3) { vec![g.usize(0, 60)] } else { vec![] };
    Scenario { start, seed: g.u64(), up, latency, failure, nodes, scripts, outside, take }
}

struct Run {
    log: Vec<Rec>,
    /// Per node: at which position of the log, the events taken.
    events: Vec<(usize, usize, Vec<u64>)>,
}

fn addr(i: usize) -> SocketAddr {
    ([77, 1, 1, 1 + i as u8], 8000 + i as u16).into()
}

fn run(s: &Scenario, whole: bool) -> Result<Run, crate::pbt::Fail> {
    let start = LocalTime::from_secs(s.start);
    let sh = Rc::new(RefCell::new(Shared { now: millis(start), ..Shared::default() }));
    let addrs: Vec<SocketAddr> = (0..s.nodes).map(addr).collect();
    let mut nodes: Vec<Node> = (0..s.nodes)
        .map(|ix| {
            Node(
                Machine {
                    ix,
                    up: s.up,
                    addrs: addrs.clone(),
                    sh: sh.clone(),
                    clock: 0,
                    script: s.scripts[ix].iter().cloned().collect(),
                    out: VecDeque::new(),
                    view: BTreeMap::new(),
                },
                start,
            )
        })
        .collect();
    let opts = Options { latency: s.latency.0..s.latency.1, failure_rate: s.failure };
    let mut sim = Simulation::<Machine>::new(start, fastrand::Rng::with_seed(s.seed), opts).initialize(&mut nodes);
    let mut events = vec![];
    let last_outside = s.outside.keys().next_back().cloned().unwrap_or(0);
    let mut n = 0;
    if whole {
        sim.run_while(&mut nodes, |_| true);
    } else {
        loop {
            if let Some(acts) = s.outside.get(&n) {
                for (who, a) in acts {
                    nodes[*who].act(a);
                }
            }
            let idle = nodes.iter().all(|n| n.out.is_empty());
            let settled = n > 0 && idle && sim.is_settled();
            let done = n > 0 && idle && sim.is_done();
            let at = sh.borrow().log.len();
            let more = sim.step(&mut nodes);
            {
                let s = sh.borrow();
                let first = s.log[at..].iter().find_map(|r| match r {
                    Rec::In(_, _, i) => Some(i),
                    _ => None,
                });
                ensure!(!done || first.is_none(), "the simulation was done, but then {:?} happened", first);
                ensure!(
                    !settled || matches!(first, None | Some(In::Wake)),
                    "only timeouts were left, but then {:?} happened",
                    first
                );
                ensure!(!s.backwards, "time went backwards, or a node has a different time");
                ensure!(
                    sim.elapsed().as_millis() == s.now - millis(start),
                    "{} ms elapsed instead of {}",
                    sim.elapsed().as_millis(),
                    s.now - millis(start)
                );
            }
            n += 1;
            if s.take.contains(&n) {
                let at = sh.borrow().log.len();
                for i in 0..s.nodes {
                    events.push((at, i, sim.events(&addrs[i].ip()).collect()));
                }
            }
            if !more && n > last_outside {
                // Nothing is left.
                let at = sh.borrow().log.len();
                for _ in 0..3 {
                    sim.step(&mut nodes);
                }
                let s = sh.borrow();
                ensure!(s.log.len() == at, "no more messages were left to process, but then {:?} happened", s.log[at]);
                break;
            }
            ensure!(n < 5000, "the simulation doesn't end");
        }
    }
    let at = sh.borrow().log.len();
    for i in 0..s.nodes {
        events.push((at, i, sim.events(&addrs[i].ip()).collect()));
    }
    let log = sh.borrow().log.clone();
    Ok(Run { log, events })
}

fn c30(g: &mut G) -> Res {
    let s = scenario(g);
    note!(g, "{:?}", s);
    let r = run(&s, false)?;
    for x in &r.log {
        note!(g, "{:?}", x);
    }
    // The same seed gives the same history, however it is driven.
    if g.chance(1, 4) {
        let again = run(&s, s.outside.is_empty() && s.take.is_empty() && g.bool())?;
        ensure!(again.log == r.log, "a second run with the same seed differs");
        ensure!(again.events == r.events, "a second run with the same seed has different events");
        g.label("same");
    }
    let log = &r.log;
    let ix = |a: &SocketAddr| (0..s.nodes).find(|i| addr(*i).ip() == a.ip()).unwrap();
    let outs = log.iter().filter(|r| matches!(r, Rec::Out(..))).count() as u128;
    // Inputs have distinct times.
    let slack = 3 * outs + 1;
    let (min, max) = if s.latency.0 >= s.latency.1 {
        (1u128, 1u128)
    } else {
        ((s.latency.0 as u128 * 500).max(1), s.latency.1 as u128 * 2000)
    };

    // What happened between each two nodes.
    #[derive(Default)]
    struct Pair {
        connects: Vec<(u128, usize, usize)>,
        disconnects: Vec<(u128, usize, usize, bool)>,
    }
    let mut pairs: BTreeMap<(usize, usize), Pair> = BTreeMap::new();
    for (n, x) in log.iter().enumerate() {
        match x {
            Rec::Out(t, i, Out::Connect(a)) => {
                let j = ix(a);
                pairs.entry((*i.min(&j), *i.max(&j))).or_default().connects.push((*t, *i, n));
            }
            Rec::Out(t, i, Out::Disconnect(a, _, c)) => {
                let j = ix(a);
                pairs.entry((*i.min(&j), *i.max(&j))).or_default().disconnects.push((*t, *i, n, *c));
            }
            _ => {}
        }
    }

    // Connections: attempted, connected, disconnected, in this order.
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum St {
        None,
        Attempted,
        Connected,
    }
    let mut st: BTreeMap<(usize, usize), St> = BTreeMap::new();
    for x in log {
        match x {
            Rec::In(_, i, In::Attempted(a)) => {
                let e = st.entry((*i, ix(a))).or_insert(St::None);
                ensure!(*e == St::None, "{} was told of an attempt to connect to {} while {:?}", i, a, e);
                ensure!((*i < ix(a)) == s.up, "{} was told of an attempt it didn't make", i);
                *e = St::Attempted;
            }
            Rec::In(_, i, In::Connected(a, l, out)) => {
                let e = st.entry((*i, ix(a))).or_insert(St::None);
                let want = if *out { St::Attempted } else { St::None };
                ensure!(*e == want, "{} was told of a connection with {} while {:?}", i, a, e);
                ensure!(*out == ((*i < ix(a)) == s.up), "the direction of a connection is wrong");
                ensure!(l.ip() == addr(*i).ip(), "the local address of a connection is wrong");
                *e = St::Connected;
                g.count("connected", 1);
            }
            Rec::In(_, i, In::Disconnected(a, _)) => {
                let e = st.entry((*i, ix(a))).or_insert(St::None);
                ensure!(*e != St::None, "{} was told of a disconnection from {}, but there is no connection", i, a);
                *e = St::None;
                g.count("disconnected", 1);
            }
            _ => {}
        }
    }

    // Messages.
    let mut sent: BTreeMap<u64, (u128, usize, usize, bool, usize)> = BTreeMap::new();
    let mut got: BTreeMap<u64, usize> = BTreeMap::new();
    let mut last: BTreeMap<(usize, usize), u64> = BTreeMap::new();
    for (n, x) in log.iter().enumerate() {
        match x {
            Rec::Out(t, i, Out::Write(a, m, c)) => {
                sent.insert(*m, (*t, *i, ix(a), *c, n));
            }
            Rec::In(t, i, In::Received(a, m)) => {
                ensure!(sent.contains_key(m), "{} received {} from {}, which nobody sent", i, m, a);
                let (at, from, to, conn, n0) = sent[m];
                ensure!(from == ix(a) && to == *i, "message {} of {} to {} was received by {} from {}", m, from, to, i, a);
                ensure!(conn, "message {} was received, but its sender wasn't connected", m);
                ensure!(got.insert(*m, n).is_none(), "message {} was received twice", m);
                ensure!(s.failure < 1.0 || s.start % 10 != 0, "message {} was received, but all i/o fails", m);
                ensure!(*t >= at + min, "message {} was received {} ms after it was sent", m, t - at);
                let key = (from.min(to), from.max(to));
                let p = pairs.entry(key).or_default();
                if p.connects.len() == 1 {
                    // In order.
                    let l = last.insert((from, to), *m);
                    ensure!(l.map_or(true, |l| sent[&l].4 < n0), "message {} was received after {:?}", m, l);
                    // Messages in flight between the two nodes.
                    let k = log[..n0]
                        .iter()
                        .filter(|r| match r {
                            Rec::Out(_, i, Out::Write(a, m2, true)) => *i == from && ix(a) == to && got.get(m2).map_or(true, |x| *x > n0),
                            _ => false,
                        })
                        .count() as u128;
                    let most = at + (k + 3) * max + slack;
                    ensure!(*t <= most, "message {} was received {} ms after it was sent, with {} others underway", m, t - at, k);
                }
                g.count("received", 1);
            }
            Rec::In(_, _, In::Connected(..)) => {
                ensure!(s.failure < 1.0 || s.start % 10 != 0, "nodes connected, but all i/o fails");
            }
            _ => {}
        }
    }
    if s.failure == 0.0 {
        for (m, (_, from, to, conn, _)) in &sent {
            let p = pairs.entry((*from.min(to), *from.max(to))).or_default();
            if *conn && p.disconnects.is_empty() {
                ensure!(got.contains_key(m), "message {} of {} to {} was never received", m, from, to);
                g.label("delivered");
            }
        }
    }

    // Connections that succeed, and end.
    for (key, p) in &pairs {
        if s.failure != 0.0 || p.connects.len() != 1 {
            continue;
        }
        let (t, i, n0) = p.connects[0];
        let j = if i == key.0 { key.1 } else { key.0 };
        let of = |who: usize, other: usize| -> Vec<(usize, u128, In)> {
            log.iter()
                .enumerate()
                .filter_map(|(n, r)| match r {
                    Rec::In(t, w, x) if *w == who => match x {
                        In::Attempted(a) | In::Connected(a, _, _) | In::Disconnected(a, _) | In::Received(a, _) if ix(a) == other => Some((n, *t, x.clone())),
                        _ => None,
                    },
                    _ => None,
                })
                .collect()
        };
        let (a, b) = (of(i, j), of(j, i));
        if p.disconnects.is_empty() || p.disconnects.len() == 1 && p.disconnects[0].3 {
            ensure!(a.len() >= 2 && b.len() >= 1, "{} connected to {}, but was told {:?}, and the other one {:?}", i, j, a, b);
            ensure!(a[0].2 == In::Attempted(addr(j)) && a[0].0 > n0, "the connector wasn't told of its attempt first: {:?}", a[0]);
            let (ca, cb) = (&a[1], &b[0]);
            let local = match ca.2 {
                In::Connected(r, l, true) if r == addr(j) => l,
                _ => return Err(crate::pbt::Fail { msg: format!("the connector was told {:?} instead of its connection", ca) }),
            };
            ensure!(cb.2 == In::Connected(local, addr(j), false), "the connection {:?} was told as {:?}", ca, cb);
            for c in [ca, cb] {
                ensure!(c.1 >= t + min && c.1 <= t + max + slack, "connecting took {} ms", c.1 - t);
            }
            ensure!(a[0].1 <= t + 1 + slack, "the attempt was told {} ms later", a[0].1 - t);
            // Messages come from the address that is connected.
            for x in a.iter().chain(b.iter()) {
                if let In::Received(r, _) | In::Disconnected(r, _) = x.2 {
                    let want = if log[x.0].node() == i { addr(j) } else { local };
                    ensure!(r == want, "{:?} came from {} instead of {}", x.2, r, want);
                }
            }
            g.label("connected");
        }
        if p.disconnects.len() == 1 && p.disconnects[0].3 {
            let (t, who, _, _) = p.disconnects[0];
            let other = if who == i { &b } else { &a };
            let d: Vec<_> = other.iter().filter(|x| matches!(x.2, In::Disconnected(..))).collect();
            ensure!(d.len() == 1, "{} disconnected, and the other one was told {:?}", who, d);
            ensure!(matches!(d[0].2, In::Disconnected(_, None)), "the other one was told {:?}", d[0]);
            ensure!(d[0].1 >= t + min && d[0].1 <= t + max + slack, "disconnecting took {} ms", d[0].1 - t);
            g.label("told");
        }
    }
    // Own disconnections are immediate.
    for (n, x) in log.iter().enumerate() {
        if let Rec::Out(t, i, Out::Disconnect(a, r, _)) = x {
            let d = log[n..].iter().find_map(|x| match x {
                Rec::In(t, j, In::Disconnected(b, Some(q))) if j == i && q == r => Some((*t, *b)),
                _ => None,
            });
            ensure!(d == Some((*t, *a)), "{} disconnected from {}, and was told {:?}", i, a, d);
            g.label("disconnected");
        }
    }

    // Timers.
    for i in 0..s.nodes {
        let due: Vec<(usize, u128)> = log
            .iter()
            .enumerate()
            .filter_map(|(n, r)| match r {
                Rec::Out(t, j, Out::Timer(d)) if *j == i => Some((n, t + *d as u128)),
                _ => None,
            })
            .collect();
        let wakes: Vec<(usize, u128)> = log
            .iter()
            .enumerate()
            .filter_map(|(n, r)| match r {
                Rec::In(t, j, In::Wake) if *j == i => Some((n, *t)),
                _ => None,
            })
            .collect();
        ensure!(wakes.len() <= due.len(), "{} timers were set by {}, and {} expired", due.len(), i, wakes.len());
        let fits = |d: &(usize, u128), w: &(usize, u128)| w.0 > d.0 && w.1 >= d.1 && w.1 <= d.1 + slack;
        for d in &due {
            ensure!(wakes.iter().any(|w| fits(d, w)), "the timer of {} for {} never expired in time", i, d.1);
        }
        for w in &wakes {
            ensure!(due.iter().any(|d| fits(d, w)), "a timer of {} expired at {}, but none was due", i, w.1);
        }
        g.count("timers", due.len() as u64);
    }

    // Events, up to the limit between two takings.
    for i in 0..s.nodes {
        let mut from = 0;
        for (at, j, evs) in &r.events {
            if *j != i {
                continue;
            }
            let want: Vec<u64> = log[from..*at]
                .iter()
                .filter_map(|r| match r {
                    Rec::Out(_, j, Out::Event(e)) if *j == i => Some(*e),
                    _ => None,
                })
                .take(MAX_EVENTS)
                .collect();
            ensure!(*evs == want, "the events of {} are {:?} instead of {:?}", i, evs, want);
            from = *at;
        }
    }
    if log.len() > 10 && got.len() > 1 {
        g.nontrivial();
    }
    Ok(())
}

pub static PROPS: &[Property] = &[Property {
    id: "C30",
    level: "exploration",
    rule: "simulated: a case is a simulation of scripted nodes; non-trivial: at least two messages were received",
    strategies: &[Strategy { name: "simulated", quick: 400000, thorough: 8000000, case: c30 }],
    assumptions: &[],
    known: &[],
}];
