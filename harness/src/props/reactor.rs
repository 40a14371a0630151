//! C31: the poll reactor, with real connections on the loopback interface.
use std::borrow::Cow;
use std::collections::{BTreeMap, VecDeque};
use std::fmt;
use std::io::{self, Read, Write};
use std::net::{Shutdown, SocketAddr, TcpListener, TcpStream};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crossbeam_channel as chan;
use nakamoto_net::{Disconnect, Io, Link, LocalDuration, LocalTime, Publisher, Reactor as _, Service, StateMachine, Waker as _};
use nakamoto_net_poll::Reactor;

use crate::pbt::{Property, Res, Strategy, G};
use crate::{fail, note};

/// What the service says first.
const GREETING: &[u8] = b"hello, peer";

/// An uncaught signal would end the process.
extern "C" fn ignore(_: i32) {}

extern "C" {
    fn signal(signum: i32, handler: extern "C" fn(i32)) -> usize;
    fn pthread_kill(thread: std::os::unix::thread::RawPthread, signum: i32) -> i32;
}

const SIGUSR1: i32 = 10;

/// How long to wait for something that has to happen.
const PATIENCE: Duration = Duration::from_secs(20);

#[derive(Debug, Clone, PartialEq, Eq)]
enum Cb {
    Attempted(SocketAddr),
    Connected(SocketAddr, bool),
    Disconnected(SocketAddr, Why),
    Message(SocketAddr, Vec<u8>),
    Timer,
    Command(u64),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Why {
    Dial,
    Connection,
    Service,
}

#[derive(Debug, Clone)]
struct Reason;

impl fmt::Display for Reason {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "reason")
    }
}

impl From<Reason> for Disconnect<Reason> {
    fn from(r: Reason) -> Self {
        Disconnect::StateMachine(r)
    }
}

type Out = Io<Vec<u8>, u64, Reason>;

enum Cmd {
    /// Nothing but a number.
    Number(u64),
    /// Outputs.
    Out(Vec<Out>),
    /// The service is slow.
    Sleep(u64),
}

#[derive(Default)]
struct Log {
    cbs: Vec<(Instant, Cb)>,
    initialized: u64,
    ticks: u64,
    /// While this is set, a byte arrives whenever the reactor has woken up.
    busy: Option<TcpStream>,
    sent: usize,
    /// Peers whose messages are sent back.
    echo: Vec<SocketAddr>,
    /// Disconnect this peer when it sends something.
    kick: Option<SocketAddr>,
}

type Shared = Arc<Mutex<Log>>;

/// A service that does what it is told, and records what happens.
struct Svc {
    log: Shared,
    out: VecDeque<Out>,
}

impl Svc {
    fn rec(&mut self, c: Cb) {
        self.log.lock().unwrap().cbs.push((Instant::now(), c));
    }
}

impl Iterator for Svc {
    type Item = Out;
    fn next(&mut self) -> Option<Out> {
        self.out.pop_front()
    }
}

impl StateMachine for Svc {
    type Message = [u8];
    type Event = u64;
    type DisconnectReason = Reason;

    fn initialize(&mut self, _: LocalTime) {
        self.log.lock().unwrap().initialized += 1;
    }
    fn message_received(&mut self, addr: &SocketAddr, m: Cow<[u8]>) {
        let m = m.into_owned();
        let (echo, kick) = {
            let l = self.log.lock().unwrap();
            (l.echo.contains(addr), l.kick == Some(*addr))
        };
        if echo {
            self.out.push_back(Io::Write(*addr, m.clone()));
        }
        if kick {
            self.out.push_back(Io::Disconnect(*addr, Reason));
        }
        self.rec(Cb::Message(*addr, m));
    }
    fn attempted(&mut self, addr: &SocketAddr) {
        self.rec(Cb::Attempted(*addr));
    }
    fn connected(&mut self, addr: SocketAddr, _: &SocketAddr, link: Link) {
        self.out.push_back(Io::Write(addr, GREETING.to_vec()));
        self.rec(Cb::Connected(addr, link.is_outbound()));
    }
    fn disconnected(&mut self, addr: &SocketAddr, reason: Disconnect<Reason>) {
        let why = match reason {
            Disconnect::DialError(_) => Why::Dial,
            Disconnect::ConnectionError(_) => Why::Connection,
            Disconnect::StateMachine(_) => Why::Service,
        };
        self.rec(Cb::Disconnected(*addr, why));
    }
    fn tick(&mut self, _: LocalTime) {
        let mut l = self.log.lock().unwrap();
        l.ticks += 1;
        let sent = match &mut l.busy {
            Some(s) => s.write(&[7]).unwrap_or(0),
            None => 0,
        };
        l.sent += sent;
    }
    fn timer_expired(&mut self) {
        self.rec(Cb::Timer);
    }
}

impl Service for Svc {
    type Command = Cmd;
    fn command_received(&mut self, c: Cmd) {
        match c {
            Cmd::Number(n) => self.rec(Cb::Command(n)),
            Cmd::Out(o) => self.out.extend(o),
            Cmd::Sleep(ms) => std::thread::sleep(Duration::from_millis(ms)),
        }
    }
}

struct Events(Arc<Mutex<Vec<u64>>>);

impl Publisher<u64> for Events {
    fn publish(&mut self, e: u64) {
        self.0.lock().unwrap().push(e);
    }
}

#[derive(Debug, Clone)]
enum Op {
    Inbound,
    Dial,
    /// Nobody listens there.
    DialDead,
    /// The service writes these many bytes each.
    Write(usize, Vec<usize>),
    /// The remote writes.
    Send(usize, Vec<usize>),
    /// The remote reads about as many bytes.
    Read(usize, usize),
    /// The remote sends no more.
    HalfClose(usize),
    /// The remote closes.
    Close(usize),
    Disconnect(usize),
    Timer(u64),
    /// A timer expires while data arrives all the time.
    Busy(usize, u64),
    Commands(u64),
    Events(u64),
    Pause(u64),
    /// The reactor's system call is interrupted by a signal.
    Interrupt,
    /// Connect again to where there was a connection.
    Redial(usize),
    /// Outputs for a peer that isn't there.
    Stray(usize),
    /// From now on, the service sends back what it gets.
    Echo(usize),
    /// The service disconnects the peer on its next message.
    Kick(usize),
    /// Several timers expire while the service is busy.
    Stall(u64),
}

fn script(g: &mut G) -> Vec<Op> {
    let mut ops = vec![];
    let mut conns = 0usize;
    let n = g.range(3, 25);
    for _ in 0..n {
        let c = if conns == 0 { 0 } else { g.below(conns as u64) as usize };
        let has = if conns > 0 { 1 } else { 0 };
        let sizes = |g: &mut G| -> Vec<usize> {
            let k = g.usize(1, 4);
            (0..k)
                .map(|_| match g.below(6) {
                    0 if g.chance(1, 12) => g.usize(2_000_000, 6_000_000),
                    0 => g.usize(100_000, 1_500_000),
                    1 => g.usize(1000, 200_000),
                    _ => g.usize(1, 500),
                })
                .collect()
        };
        let op = match g.weighted(&[6, 6, 2, 12 * has, 10 * has, 5 * has, 2 * has, 1 * has, 2 * has, 2, 1 * has, 3, 2, 1, 1, 2 * has, 1, 1 * has, 1 * has]) {
            0 => {
                conns += 1;
                Op::Inbound
            }
            1 => {
                conns += 1;
                Op::Dial
            }
            2 => Op::DialDead,
            3 => Op::Write(c, sizes(g)),
            4 => Op::Send(c, sizes(g)),
            5 => Op::Read(c, g.usize(1, 300_000)),
            6 => Op::HalfClose(c),
            7 => Op::Close(c),
            8 => Op::Disconnect(c),
            9 => Op::Timer(g.range(0, 60)),
            10 => Op::Busy(c, g.range(5, 40)),
            11 => Op::Commands(g.range(1, 20)),
            12 => Op::Events(g.range(1, 20)),
            13 if g.chance(1, 50) => Op::Stall(g.range(1, 2)),
            13 => Op::Pause(g.range(1, 5)),
            14 => Op::Interrupt,
            15 => {
                conns += 1;
                Op::Redial(c)
            }
            16 => Op::Stray(c),
            17 => Op::Echo(c),
            _ => Op::Kick(c),
        };
        ops.push(op);
    }
    ops
}

struct Conn {
    addr: SocketAddr,
    stream: Option<TcpStream>,
    outbound: bool,
    /// Bytes the service wrote, and how many of them the remote has read.
    written: Vec<u8>,
    read: usize,
    /// Bytes the remote sent.
    sent: Vec<u8>,
    half: bool,
    /// The remote closed it, perhaps without reading everything.
    closed: bool,
    /// The service closed it.
    dropped: bool,
    /// Something was on its way when it was closed.
    lossy: bool,
    /// How many connections with this address there were before.
    session: usize,
    listener: Option<Arc<TcpListener>>,
    /// What it sends comes back.
    echo: bool,
}

struct Rig {
    log: Shared,
    events: Arc<Mutex<Vec<u64>>>,
    cmds: chan::Sender<Cmd>,
    waker: <Reactor<TcpStream> as nakamoto_net::Reactor>::Waker,
    shutdown: chan::Sender<()>,
    listening: SocketAddr,
    conns: Vec<Conn>,
    dead: Vec<SocketAddr>,
    /// Keeps ports reserved.
    listeners: Vec<TcpListener>,
    reserved: Vec<TcpStream>,
    next: u64,
    stream: u32,
    thread: Option<std::thread::JoinHandle<Result<(), String>>>,
    published: u64,
}

type R<T> = Result<T, String>;

impl Rig {
    fn start() -> R<Rig> {
        let log: Shared = Default::default();
        let events: Arc<Mutex<Vec<u64>>> = Default::default();
        let (shutdown, shutdown_rx) = chan::bounded(1);
        let (listening_tx, listening_rx) = chan::bounded(1);
        let (cmds, cmds_rx) = chan::unbounded();
        let mut reactor: Reactor<TcpStream> = Reactor::new(shutdown_rx, listening_tx).map_err(|e| format!("setup: {}", e))?;
        let waker = reactor.waker();
        let svc = Svc { log: log.clone(), out: VecDeque::new() };
        let ev = Events(events.clone());
        let thread = std::thread::Builder::new()
            .name("reactor".into())
            .spawn(move || reactor.run(&[([127, 0, 0, 1], 0).into()], svc, ev, cmds_rx).map_err(|e| e.to_string()))
            .map_err(|e| format!("setup: {}", e))?;
        let listening = listening_rx.recv_timeout(PATIENCE).map_err(|e| format!("the reactor doesn't listen: {}", e))?;
        Ok(Rig { log, events, cmds, waker, shutdown, listening, conns: vec![], dead: vec![], listeners: vec![], reserved: vec![], next: 0, stream: 1, thread: Some(thread), published: 0 })
    }

    fn wait(&self, what: &str, mut f: impl FnMut(&Log) -> bool) -> R<()> {
        let end = Instant::now() + PATIENCE;
        let mut pause = 20;
        loop {
            if f(&self.log.lock().unwrap()) {
                return Ok(());
            }
            if Instant::now() > end {
                return Err(format!("{} (waited for {:?})", what, PATIENCE));
            }
            if self.thread.as_ref().map_or(true, |t| t.is_finished()) {
                return Err(format!("{}: the reactor has ended", what));
            }
            std::thread::sleep(Duration::from_micros(pause));
            pause = (pause * 2).min(2000);
        }
    }

    fn out(&self, o: Vec<Out>) -> R<()> {
        self.cmds.send(Cmd::Out(o)).map_err(|_| "the reactor doesn't take commands")?;
        self.waker.wake().map_err(|e| format!("waking the reactor failed: {}", e))
    }

    /// Wait until the commands so far were processed.
    fn sync(&mut self) -> R<()> {
        self.next += 1;
        let n = self.next;
        self.cmds.send(Cmd::Number(n)).map_err(|_| "the reactor doesn't take commands")?;
        self.waker.wake().map_err(|e| format!("waking the reactor failed: {}", e))?;
        self.wait("a command wasn't received", |l| l.cbs.iter().rev().any(|(_, c)| *c == Cb::Command(n)))
    }

    fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n)
            .map(|_| {
                self.stream = self.stream.wrapping_mul(1664525).wrapping_add(1013904223);
                (self.stream >> 24) as u8
            })
            .collect()
    }

    fn received(&self, i: usize) -> usize {
        let l = self.log.lock().unwrap();
        let v = sessions(&l, self.conns[i].addr).into_iter().nth(self.conns[i].session).unwrap_or_default();
        v.into_iter().map(|c| if let Cb::Message(_, m) = c { m.len() } else { 0 }).sum()
    }

    fn gone(&self, i: usize) -> bool {
        gone(&self.log.lock().unwrap(), self.conns[i].addr, self.conns[i].session)
    }

    /// The remote reads up to `max` bytes of what there should be.
    fn read(&mut self, i: usize, max: usize) -> R<()> {
        let c = &mut self.conns[i];
        let Some(s) = &mut c.stream else { return Ok(()) };
        let want = (c.written.len() - c.read).min(max);
        let mut buf = vec![0u8; 65536];
        let mut got = 0;
        let end = Instant::now() + PATIENCE;
        while got < want {
            let k = buf.len().min(want - got);
            match s.read(&mut buf[..k]) {
                Ok(0) => {
                    if c.dropped || c.half {
                        c.lossy = true;
                        return Ok(());
                    }
                    return Err(format!("connection closed after {} of {} bytes", c.read, c.written.len()));
                }
                Ok(n) => {
                    if c.written[c.read..c.read + n] != buf[..n] {
                        return Err(format!("the remote got wrong bytes after {} right ones", c.read));
                    }
                    c.read += n;
                    got += n;
                }
                Err(e) if [io::ErrorKind::WouldBlock, io::ErrorKind::TimedOut, io::ErrorKind::Interrupted].contains(&e.kind()) => {
                    if Instant::now() > end {
                        return Err(format!("the remote got {} of {} bytes only", c.read, c.written.len()));
                    }
                }
                Err(e) => {
                    if c.dropped || c.half {
                        c.lossy = true;
                        return Ok(());
                    }
                    return Err(format!("the remote got an error after {} of {} bytes: {}", c.read, c.written.len(), e));
                }
            }
        }
        Ok(())
    }

    /// The remote writes everything, reading nothing.
    fn send(&mut self, i: usize, b: &[u8]) -> R<()> {
        let c = &mut self.conns[i];
        let Some(s) = &mut c.stream else { return Ok(()) };
        let mut at = 0;
        let end = Instant::now() + PATIENCE;
        while at < b.len() {
            match s.write(&b[at..]) {
                Ok(n) => {
                    c.sent.extend(&b[at..at + n]);
                    at += n;
                }
                Err(e) if [io::ErrorKind::WouldBlock, io::ErrorKind::TimedOut, io::ErrorKind::Interrupted].contains(&e.kind()) => {
                    if Instant::now() > end {
                        return Err(format!("the reactor reads {} of {} bytes only", at, b.len()));
                    }
                }
                Err(e) => {
                    if c.dropped {
                        c.lossy = true;
                        return Ok(());
                    }
                    return Err(format!("the remote can't send: {}", e));
                }
            }
        }
        Ok(())
    }

    fn ends(&self, what: &str, i: usize) -> R<()> {
        let (a, s) = (self.conns[i].addr, self.conns[i].session);
        self.wait(what, |l| gone(l, a, s))
    }

    fn accept(&self, l: &TcpListener) -> R<TcpStream> {
        let end = Instant::now() + PATIENCE;
        let s = loop {
            match l.accept() {
                Ok((s, _)) => break s,
                Err(e) if e.kind() == io::ErrorKind::WouldBlock => {
                    if Instant::now() > end {
                        return Err("the reactor doesn't connect".into());
                    }
                    std::thread::sleep(Duration::from_micros(100));
                }
                Err(e) => return Err(format!("setup: {}", e)),
            }
        };
        s.set_nonblocking(false).map_err(|e| format!("setup: {}", e))?;
        Ok(s)
    }

    fn known(&self, a: SocketAddr) -> bool {
        self.dead.contains(&a) || self.conns.iter().any(|c| c.addr == a)
    }

    fn open(&self, i: usize) -> bool {
        let c = &self.conns[i];
        c.stream.is_some() && !c.closed && !c.dropped && !c.half
    }

    fn add(&mut self, addr: SocketAddr, s: TcpStream, listener: Option<Arc<TcpListener>>, session: usize) -> R<()> {
        if session == 0 && self.known(addr) {
            return Err("setup: port used again".into());
        }
        let outbound = listener.is_some();
        let echo = self.log.lock().unwrap().echo.contains(&addr);
        s.set_read_timeout(Some(Duration::from_millis(200))).map_err(|e| format!("setup: {}", e))?;
        s.set_write_timeout(Some(Duration::from_millis(200))).map_err(|e| format!("setup: {}", e))?;
        self.conns.push(Conn {
            addr,
            stream: Some(s),
            outbound,
            written: GREETING.to_vec(),
            read: 0,
            sent: vec![],
            half: false,
            closed: false,
            dropped: false,
            lossy: false,
            session,
            listener,
            echo,
        });
        self.wait("a connection isn't reported", |l| l.cbs.iter().filter(|(_, c)| *c == Cb::Connected(addr, outbound)).count() > session)?;
        self.read(self.conns.len() - 1, GREETING.len())
    }

    fn exec(&mut self, op: &Op) -> R<()> {
        let mut op = op.clone();
        if let Op::Write(i, _) | Op::Send(i, _) | Op::Read(i, _) | Op::HalfClose(i) | Op::Close(i) | Op::Disconnect(i) | Op::Busy(i, _) | Op::Redial(i) | Op::Stray(i) | Op::Echo(i) | Op::Kick(i) = &mut op {
            match self.conns.len() {
                0 => return Ok(()),
                n => *i %= n,
            }
        }
        match &op {
            Op::Inbound => {
                let s = TcpStream::connect(self.listening).map_err(|e| format!("can't connect to the reactor: {}", e))?;
                let a = s.local_addr().map_err(|e| format!("setup: {}", e))?;
                self.add(a, s, None, 0)?;
            }
            Op::Dial => {
                let l = TcpListener::bind("127.0.0.1:0").map_err(|e| format!("setup: {}", e))?;
                let a = l.local_addr().map_err(|e| format!("setup: {}", e))?;
                self.out(vec![Io::Connect(a)])?;
                l.set_nonblocking(true).map_err(|e| format!("setup: {}", e))?;
                let s = self.accept(&l)?;
                self.add(a, s, Some(Arc::new(l)), 0)?;
            }
            Op::DialDead => {
                // A port that is in use, but where nobody listens.
                let l = TcpListener::bind("127.0.0.1:0").map_err(|e| format!("setup: {}", e))?;
                let x = TcpStream::connect(l.local_addr().map_err(|e| format!("setup: {}", e))?).map_err(|e| format!("setup: {}", e))?;
                let a = x.local_addr().map_err(|e| format!("setup: {}", e))?;
                self.listeners.push(l);
                self.reserved.push(x);
                if self.known(a) {
                    return Err("setup: port used again".into());
                }
                self.out(vec![Io::Connect(a)])?;
                self.dead.push(a);
                self.wait("a refused connection isn't reported", |l| l.cbs.iter().any(|(_, c)| matches!(c, Cb::Disconnected(x, _) if *x == a)))?;
            }
            Op::Write(i, sizes) => {
                if !self.open(*i) || self.conns[*i].echo {
                    return Ok(());
                }
                let a = self.conns[*i].addr;
                let mut out = vec![];
                for n in sizes {
                    let b = self.bytes(*n);
                    self.conns[*i].written.extend(&b);
                    out.push(Io::Write(a, b));
                }
                self.out(out)?;
            }
            Op::Send(i, sizes) => {
                if !self.open(*i) {
                    return Ok(());
                }
                for n in sizes {
                    // What comes back has to be read some time.
                    let b = self.bytes(if self.conns[*i].echo { 1 + n % 3000 } else { *n });
                    self.send(*i, &b)?;
                    if self.conns[*i].echo {
                        self.conns[*i].written.extend(&b);
                    }
                }
            }
            Op::Read(i, n) => self.read(*i, *n)?,
            Op::HalfClose(i) => {
                if !self.open(*i) {
                    return Ok(());
                }
                self.conns[*i].half = true;
                if let Some(s) = &self.conns[*i].stream {
                    s.shutdown(Shutdown::Write).map_err(|e| format!("setup: {}", e))?;
                }
            }
            Op::Close(i) => {
                let c = &mut self.conns[*i];
                if c.stream.take().is_some() {
                    c.closed = true;
                    // Unread data resets the connection.
                    c.lossy |= c.read < c.written.len();
                }
            }
            Op::Disconnect(i) => {
                let (a, session) = (self.conns[*i].addr, self.conns[*i].session);
                if self.conns.iter().any(|c| c.addr == a && c.session > session) {
                    return Ok(());
                }
                let c = &mut self.conns[*i];
                if !c.dropped {
                    c.dropped = true;
                    c.lossy = true;
                    let a = c.addr;
                    self.out(vec![Io::Disconnect(a, Reason)])?;
                    self.sync()?;
                    self.ends("a disconnection isn't reported", *i)?;
                    self.notices(*i)?;
                }
            }
            Op::Kick(i) => {
                if !self.open(*i) {
                    return Ok(());
                }
                let a = self.conns[*i].addr;
                // What was sent before is not what it is disconnected for.
                let end = Instant::now() + PATIENCE;
                while self.received(*i) < self.conns[*i].sent.len() {
                    if Instant::now() > end {
                        return Err(format!("{} of {} bytes were received", self.received(*i), self.conns[*i].sent.len()));
                    }
                    std::thread::sleep(Duration::from_micros(100));
                }
                self.log.lock().unwrap().kick = Some(a);
                self.send(*i, &[9])?;
                self.conns[*i].dropped = true;
                self.conns[*i].lossy = true;
                self.ends("a disconnection isn't reported", *i)?;
                self.log.lock().unwrap().kick = None;
                self.notices(*i)?;
            }
            Op::Interrupt => {
                use std::os::unix::thread::JoinHandleExt;
                if let Some(t) = self.thread.as_ref().filter(|t| !t.is_finished()) {
                    unsafe { signal(SIGUSR1, ignore) };
                    for _ in 0..3 {
                        std::thread::sleep(Duration::from_micros(500));
                        unsafe { pthread_kill(t.as_pthread_t(), SIGUSR1) };
                    }
                }
                self.sync()?;
            }
            Op::Redial(i) => {
                let c = &mut self.conns[*i];
                let (a, session, Some(l)) = (c.addr, c.session, c.listener.clone()) else { return Ok(()) };
                if self.conns.iter().any(|c| c.addr == a && c.session > session) {
                    return Ok(());
                }
                let i = self.conns.iter().position(|c| c.addr == a && c.session == session).unwrap();
                let c = &mut self.conns[i];
                if !(c.dropped || c.half || c.closed) {
                    return Ok(());
                }
                self.ends("a closed connection isn't reported", i)?;
                self.conns[i].stream = None;
                self.out(vec![Io::Connect(a)])?;
                let s = self.accept(&l)?;
                self.add(a, s, Some(l), session + 1)?;
            }
            Op::Stray(i) => {
                let other = self.conns.get(*i).filter(|c| c.closed || c.dropped || c.half).filter(|c| !self.conns.iter().any(|d| d.addr == c.addr && d.session > c.session));
                let a = match other {
                    Some(c) => {
                        let a = c.addr;
                        self.ends("a closed connection isn't reported", *i)?;
                        a
                    }
                    None => ([127, 0, 0, 1], 1).into(),
                };
                self.out(vec![Io::Write(a, vec![1, 2, 3]), Io::Disconnect(a, Reason)])?;
                self.sync()?;
            }
            Op::Echo(i) => {
                // Not together with data that nobody reads.
                if self.open(*i) {
                    self.read(*i, usize::MAX)?;
                    let end = Instant::now() + PATIENCE;
                    while self.received(*i) < self.conns[*i].sent.len() {
                        if Instant::now() > end {
                            return Err(format!("{} of {} bytes were received", self.received(*i), self.conns[*i].sent.len()));
                        }
                        std::thread::sleep(Duration::from_micros(100));
                    }
                    let a = self.conns[*i].addr;
                    self.conns[*i].echo = true;
                    self.log.lock().unwrap().echo.push(a);
                }
            }
            Op::Timer(ms) => {
                let n = self.timers();
                let t = Instant::now();
                self.out(vec![Io::SetTimer(LocalDuration::from_millis(*ms as u128))])?;
                self.wait("a timer doesn't expire", |l| l.cbs.iter().filter(|(_, c)| *c == Cb::Timer).count() > n)?;
                let d = t.elapsed();
                if d + Duration::from_millis(3) < Duration::from_millis(*ms) {
                    return Err(format!("a timer of {}ms expired after {:?}", ms, d));
                }
            }
            Op::Busy(i, ms) => {
                if !self.open(*i) || self.conns[*i].echo {
                    return Ok(());
                }
                let n = self.timers();
                self.out(vec![Io::SetTimer(LocalDuration::from_millis(*ms as u128))])?;
                // Without a break, the other end is never idle.
                let s = self.conns[*i].stream.as_ref().unwrap().try_clone().map_err(|e| format!("setup: {}", e))?;
                self.log.lock().unwrap().busy = Some(s);
                self.waker.wake().map_err(|e| format!("waking the reactor failed: {}", e))?;
                let end = Instant::now() + Duration::from_secs(4);
                let mut ok = false;
                while Instant::now() < end {
                    if self.timers() > n {
                        ok = true;
                        break;
                    }
                    std::thread::sleep(Duration::from_micros(500));
                }
                let all = {
                    let mut l = self.log.lock().unwrap();
                    l.busy = None;
                    std::mem::take(&mut l.sent)
                };
                self.conns[*i].sent.extend(std::iter::repeat(7u8).take(all));
                if !ok {
                    return Err(format!("a timer of {}ms doesn't expire while a peer is sending", ms));
                }
            }
            Op::Commands(k) => {
                let mut last = 0;
                for _ in 0..*k {
                    self.next += 1;
                    last = self.next;
                    self.cmds.send(Cmd::Number(last)).map_err(|_| "the reactor doesn't take commands")?;
                }
                self.waker.wake().map_err(|e| format!("waking the reactor failed: {}", e))?;
                self.wait("a command wasn't received", |l| l.cbs.iter().rev().any(|(_, c)| *c == Cb::Command(last)))?;
            }
            Op::Events(k) => {
                let out = (0..*k)
                    .map(|_| {
                        self.published += 1;
                        Io::Event(self.published)
                    })
                    .collect();
                self.out(out)?;
            }
            Op::Stall(k) => {
                let n = self.timers();
                self.out((0..=*k).map(|i| Io::SetTimer(LocalDuration::from_millis(20 + 1010 * i as u128))).collect())?;
                self.cmds.send(Cmd::Sleep(1050 * k + 100)).map_err(|_| "the reactor doesn't take commands")?;
                self.waker.wake().map_err(|e| format!("waking the reactor failed: {}", e))?;
                self.wait("timers that are overdue don't expire", |l| l.cbs.iter().filter(|(_, c)| *c == Cb::Timer).count() > n)?;
                self.sync()?;
                // Nothing is left of them.
                let n = self.timers();
                self.out(vec![Io::SetTimer(LocalDuration::from_millis(10))])?;
                self.wait("a timer doesn't expire", |l| l.cbs.iter().filter(|(_, c)| *c == Cb::Timer).count() > n)?;
            }
            Op::Pause(ms) => std::thread::sleep(Duration::from_millis(*ms)),
        }
        Ok(())
    }

    /// The remote notices that the service closed the connection.
    fn notices(&mut self, i: usize) -> R<()> {
        if let Some(s) = &mut self.conns[i].stream {
            let end = Instant::now() + PATIENCE;
            let mut buf = vec![0u8; 65536];
            loop {
                match s.read(&mut buf) {
                    Ok(0) => break,
                    Ok(_) => {}
                    Err(e) if [io::ErrorKind::WouldBlock, io::ErrorKind::TimedOut, io::ErrorKind::Interrupted].contains(&e.kind()) => {}
                    Err(_) => break,
                }
                if Instant::now() > end {
                    return Err("a connection stays open that the service closed".into());
                }
            }
            self.conns[i].stream = None;
        }
        Ok(())
    }

    fn timers(&self) -> usize {
        self.log.lock().unwrap().cbs.iter().filter(|(_, c)| *c == Cb::Timer).count()
    }

    /// Everything has arrived in the end.
    fn finish(&mut self) -> R<()> {
        for i in 0..self.conns.len() {
            let whole = !self.conns[i].closed && !self.conns[i].dropped;
            let half = self.conns[i].half;
            if whole && !half {
                self.read(i, usize::MAX)?;
            }
            let c = &self.conns[i];
            let n = c.sent.len();
            if whole || (c.closed && !c.lossy) {
                let end = Instant::now() + PATIENCE;
                while self.received(i) < n {
                    if Instant::now() > end {
                        return Err(format!("{} of {} bytes were received", self.received(i), n));
                    }
                    if self.gone(i) && self.received(i) < n {
                        return Err(format!("disconnected after {} of {} bytes", self.received(i), n));
                    }
                    std::thread::sleep(Duration::from_micros(200));
                }
            }
            let c = &self.conns[i];
            if c.half || c.closed {
                self.ends("a closed connection isn't reported", i)?;
            }
        }
        self.sync()?;
        let want: Vec<u64> = (1..=self.published).collect();
        let end = Instant::now() + PATIENCE;
        while self.events.lock().unwrap().len() < want.len() && Instant::now() < end {
            std::thread::sleep(Duration::from_micros(200));
        }
        if *self.events.lock().unwrap() != want {
            return Err(format!("{} events were published instead of {}", self.events.lock().unwrap().len(), want.len()));
        }
        // Shut down.
        self.shutdown.send(()).map_err(|_| "the reactor can't be shut down")?;
        self.waker.wake().map_err(|e| format!("waking the reactor failed: {}", e))?;
        let t = self.thread.take().unwrap();
        let end = Instant::now() + PATIENCE;
        while !t.is_finished() {
            if Instant::now() > end {
                return Err("the reactor doesn't shut down".into());
            }
            std::thread::sleep(Duration::from_micros(100));
        }
        match t.join() {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return Err(format!("the reactor ended with an error: {}", e)),
            Err(_) => return Err("the reactor panicked".into()),
        }
        self.judge()
    }

    /// What was reported, in order.
    fn judge(&self) -> R<()> {
        let l = self.log.lock().unwrap();
        if l.initialized != 1 {
            return Err(format!("the service was initialized {} times", l.initialized));
        }
        let nums: Vec<u64> = l.cbs.iter().filter_map(|(_, c)| if let Cb::Command(n) = c { Some(*n) } else { None }).collect();
        if nums != (1..=self.next).collect::<Vec<_>>() {
            return Err(format!("commands received: {:?} instead of 1 to {}", nums, self.next));
        }
        let mut by: BTreeMap<SocketAddr, Vec<&Cb>> = BTreeMap::new();
        for (_, c) in &l.cbs {
            match c {
                Cb::Attempted(a) | Cb::Connected(a, _) | Cb::Disconnected(a, _) | Cb::Message(a, _) => by.entry(*a).or_default().push(c),
                _ => {}
            }
        }
        for a in &self.dead {
            let v = by.remove(a).unwrap_or_default();
            let ok = matches!(v[..], [Cb::Attempted(_), Cb::Disconnected(_, Why::Connection)] | [Cb::Attempted(_), Cb::Disconnected(_, Why::Dial)] | [Cb::Disconnected(_, Why::Dial)]);
            if !ok {
                return Err(format!("a refused connection is reported as {:?}", v.iter().map(|c| brief(c)).collect::<Vec<_>>()));
            }
        }
        for c in &self.conns {
            by.remove(&c.addr);
            let all = sessions(&l, c.addr);
            if all.len() > self.conns.iter().filter(|d| d.addr == c.addr).count() {
                return Err(format!("too many connections are reported, for example {:?}", all.last().unwrap().iter().map(|c| brief(c)).collect::<Vec<_>>()));
            }
            let mut v = all.into_iter().nth(c.session).unwrap_or_default().into_iter();
            if c.outbound && !matches!(v.next(), Some(Cb::Attempted(_))) {
                return Err("a connection attempt isn't reported first".into());
            }
            if v.next() != Some(&Cb::Connected(c.addr, c.outbound)) {
                return Err("a connection isn't reported before its messages".into());
            }
            let mut got: Vec<u8> = vec![];
            let mut end = None;
            for x in v {
                if end.is_some() {
                    return Err(format!("after a disconnection, the service got {}", brief(x)));
                }
                match x {
                    Cb::Message(_, m) => {
                        if m.is_empty() {
                            return Err("an empty message is delivered".into());
                        }
                        got.extend(m)
                    }
                    Cb::Disconnected(_, w) => end = Some(*w),
                    x => return Err(format!("a connection is reported twice: {}", brief(x))),
                }
            }
            if got.len() > c.sent.len() || got[..] != c.sent[..got.len()] {
                return Err(format!("wrong bytes were received ({} bytes, {} sent)", got.len(), c.sent.len()));
            }
            match end {
                None if c.closed || c.dropped || c.half => return Err("a disconnection isn't reported".into()),
                Some(_) if !(c.closed || c.dropped || c.half) => return Err(format!("an open connection is reported disconnected ({:?})", end)),
                Some(Why::Service) if !c.dropped => return Err("a connection error is reported as the service's decision".into()),
                Some(Why::Dial) => return Err("the end of a connection is reported as a dial error".into()),
                _ => {}
            }
        }
        if let Some((a, v)) = by.iter().next() {
            return Err(format!("unknown connection {}: {:?}", a, v.iter().map(|c| brief(c)).collect::<Vec<_>>()));
        }
        Ok(())
    }
}

/// What was reported about an address, connection by connection.
fn sessions(l: &Log, addr: SocketAddr) -> Vec<Vec<&Cb>> {
    let mut all = vec![];
    let mut cur = vec![];
    for (_, c) in &l.cbs {
        match c {
            Cb::Attempted(a) | Cb::Connected(a, _) | Cb::Message(a, _) if *a == addr => cur.push(c),
            Cb::Disconnected(a, _) if *a == addr => {
                cur.push(c);
                all.push(std::mem::take(&mut cur));
            }
            _ => {}
        }
    }
    if !cur.is_empty() {
        all.push(cur);
    }
    all
}

fn gone(l: &Log, addr: SocketAddr, session: usize) -> bool {
    l.cbs.iter().filter(|(_, c)| matches!(c, Cb::Disconnected(x, _) if *x == addr)).count() > session
}

fn brief(c: &Cb) -> String {
    match c {
        Cb::Message(_, m) => format!("a message of {} bytes", m.len()),
        c => format!("{:?}", c),
    }
}

impl Drop for Rig {
    fn drop(&mut self) {
        if let Some(t) = self.thread.take() {
            self.shutdown.try_send(()).ok();
            self.waker.wake().ok();
            for _ in 0..1000 {
                if t.is_finished() {
                    t.join().ok();
                    return;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
        }
    }
}

fn attempt(ops: &[Op]) -> R<()> {
    let mut r = Rig::start()?;
    for (i, op) in ops.iter().enumerate() {
        r.exec(op).map_err(|e| format!("step {} ({:?}): {}", i, op, e))?;
    }
    r.finish()
}

fn c31(g: &mut G) -> Res {
    let ops = script(g);
    for o in &ops {
        note!(g, "{:?}", o);
    }
    let mut bytes = 0;
    for o in &ops {
        match o {
            Op::Write(_, s) | Op::Send(_, s) => bytes += s.iter().sum::<usize>(),
            Op::Busy(..) => g.label("busy"),
            Op::DialDead => g.label("refused"),
            Op::Close(_) => g.label("closed"),
            Op::Interrupt => g.label("interrupted"),
            Op::Redial(_) => g.label("dialled again"),
            Op::Kick(_) => g.label("kicked"),
            Op::Echo(_) => g.label("echo"),
            _ => {}
        }
    }
    if bytes > 0 {
        g.nontrivial();
    }
    g.count("bytes", bytes as u64);
    // What depends on how busy the machine is isn't reported.
    let mut last = String::new();
    for _ in 0..3 {
        match attempt(&ops) {
            Ok(()) => return Ok(()),
            Err(e) if e.contains("setup:") => {
                g.label("no resources");
                return Ok(());
            }
            Err(e) => {
                g.label("run again");
                if std::env::var("VERIF_DEBUG").is_ok() {
                    eprintln!("run again: {}", e.chars().take(300).collect::<String>());
                }
                last = e
            }
        }
    }
    fail!("{}", last)
}

/// Shutting down at any moment, for example while the reactor is being woken up.
fn c31_shutdown(g: &mut G) -> Res {
    let rounds = 40;
    let mut spins: Vec<(u64, u64, u64)> = vec![];
    for _ in 0..rounds {
        spins.push((g.below(4), g.below(400), g.below(400)));
    }
    g.nontrivial();
    g.count("shutdowns", rounds);
    for (wakes, a, b) in spins {
        let mut r = match Rig::start() {
            Ok(r) => r,
            Err(e) if e.contains("setup:") => return Ok(()),
            Err(e) => fail!("{}", e),
        };
        let spin = |n: u64| {
            for _ in 0..n * 20 {
                std::hint::spin_loop();
            }
        };
        for _ in 0..wakes {
            r.next += 1;
            r.cmds.send(Cmd::Number(r.next)).ok();
            r.waker.wake().ok();
            spin(a);
        }
        spin(b);
        r.shutdown.send(()).ok();
        r.waker.wake().ok();
        let t = r.thread.take().unwrap();
        let end = Instant::now() + PATIENCE;
        let mut n = 0;
        while !t.is_finished() {
            n += 1;
            if n > 200 {
                std::thread::sleep(Duration::from_micros(200));
            } else {
                std::thread::yield_now();
            }
            if Instant::now() > end {
                // Clean up, if that is possible at all.
                r.waker.wake().ok();
                fail!("the reactor doesn't shut down, {} wake-ups before", wakes);
            }
        }
        match t.join() {
            Ok(Ok(())) => {}
            Ok(Err(e)) => fail!("the reactor ended with an error: {}", e),
            Err(_) => fail!("the reactor panicked"),
        }
    }
    Ok(())
}

pub static PROPS: &[Property] = &[Property {
    id: "C31",
    level: "exploration",
    rule: "a case is a history of connections, data sent both ways, timers, commands and events of a reactor running with real connections; non-trivial: data was sent",
    strategies: &[Strategy { name: "loopback", quick: 1500, thorough: 60000, case: c31 }, Strategy { name: "shutdown", quick: 400, thorough: 20000, case: c31_shutdown }],
    assumptions: &["the loopback interface doesn't lose data", "what has to happen does so within 20 seconds, in one of three runs"],
    known: &[],
}];
