//! C22 network-adjusted time, C25 timeouts, C36 random selection.
use std::collections::{BTreeMap, BTreeSet};

use nakamoto_common::block::time::{AdjustedClock, AdjustedTime, Clock, LocalDuration, LocalTime, RefClock};
use nakamoto_common::collections::AddressBook;
use nakamoto_net_poll::time::TimeoutManager;

use crate::pbt::{Property, Res, Strategy, G};
use crate::sim::millis;
use crate::{ensure, note};

/// The clock's specification: the offsets of up to 200 sources, and a zero.
#[derive(Default)]
struct Model {
    known: BTreeSet<u64>,
    offsets: Vec<i64>,
    offset: i64,
}

impl Model {
    fn record(&mut self, source: u64, offset: i64) {
        if self.known.len() >= 200 || !self.known.insert(source) {
            return;
        }
        self.offsets.push(offset);
        let mut all = self.offsets.clone();
        all.push(0);
        if all.len() >= 5 && all.len() % 2 == 1 {
            all.sort();
            let m = all[all.len() / 2];
            self.offset = if (-4200..=4200).contains(&m) { m } else { 0 };
        }
    }
}

fn c22(g: &mut G) -> Res {
    let now = match g.below(6) {
        0 => g.range(0, 5000),
        1 => u32::MAX as u64 - 30_000 - g.range(0, 5000),
        _ => 1_600_000_000 + g.range(0, 100_000_000),
    };
    let mut now = LocalTime::from_secs(now);
    let mut clock: RefClock<AdjustedTime<u64>> = RefClock::from(AdjustedTime::new(now));
    // Clones of the clock show the same time.
    let other = clock.clone();
    let mut m = Model::default();
    let n = if g.chance(1, 4) { g.range(150, 260) } else { g.range(1, 40) };
    let spread = *g.pick(&[5i64, 4200, 4300, 100_000, i64::MAX / 4]);
    let base = *g.pick(&[0i64, 0, 4150, -4150, 4250, -4250, 60]);
    let fresh = g.chance(2, 3);
    let mut adjusted = 0u64;
    for i in 0..n {
        if g.chance(1, 6) {
            let d = g.range(0, 110);
            now = now + LocalDuration::from_secs(d);
            clock.set(now);
        }
        let s = if fresh && !g.chance(1, 8) { i } else { g.below(30) };
        let o = match g.below(8) {
            0 => *g.pick(&[4200i64, 4201, -4200, -4201, 0, i64::MAX, i64::MIN, 1, -1]),
            _ => base.saturating_add((g.below(2 * spread as u64 + 1) as i64).saturating_sub(spread)),
        };
        note!(g, "offset {} of source {}", o, s);
        clock.record_offset(s, o);
        m.record(s, o);
        let got = clock.borrow().offset();
        ensure!(got == m.offset, "offset {} instead of {} after {} samples", got, m.offset, m.offsets.len());
        ensure!(other.local_time() == now && clock.local_time() == now, "the local time is wrong");
        let want = (now.as_secs() as i64 + m.offset).clamp(0, u32::MAX as i64) as u32;
        ensure!(other.block_time() == want, "the network time is {} instead of {}", other.block_time(), want);
        adjusted += (m.offset != 0) as u64;
    }
    if adjusted > 0 {
        g.nontrivial();
    }
    if m.known.len() >= 200 {
        g.label("full");
    }
    Ok(())
}

/// Times and durations add up.
fn c22_sums(g: &mut G) -> Res {
    let mut pick = |g: &mut G| match g.below(4) {
        0 => g.range(0, 3) as u128,
        1 => g.range(0, 2_000_000) as u128,
        2 => g.range(0, 4_000_000) as u128 * 1000 + *g.pick(&[0u128, 1, 999]),
        _ => g.range(0, u32::MAX as u64 * 1000) as u128,
    };
    let (x, y, z) = (pick(g), pick(g), pick(g));
    let at = |m: u128| LocalTime::default() + LocalDuration::from_millis(m);
    let (t, d, e) = (at(x), LocalDuration::from_millis(y), LocalDuration::from_millis(z));
    note!(g, "{}ms, {}ms, {}ms", x, y, z);
    ensure!(millis(t) == x && millis(t + d) == x + y, "adding a duration to a time is wrong");
    ensure!((t + d) - d == t, "taking back a duration from a time is wrong");
    ensure!((t + d) - t == d, "the difference of a time and an earlier one is wrong");
    ensure!(t - (t + d) == LocalDuration::from_millis(0), "the time since a later time is not zero");
    ensure!((t + d).duration_since(t) == d && t.diff(t + d) == d && (t + d).diff(t) == d, "the time between two times is wrong");
    let mut u = t;
    u.elapse(d);
    u.elapse(e);
    ensure!(u == t + (d + e) && (d + e).as_millis() == y + z, "passing time is wrong");
    ensure!((t < u) == (x < x + y + z) && (d < e) == (y < z), "times are ordered wrongly");
    ensure!(t.as_secs() as u128 == x / 1000 && d.as_secs() as u128 == y / 1000 && d.as_mins() as u128 == y / 60_000, "conversion to seconds or minutes is wrong");
    let n = g.range(1, 1000);
    ensure!((d * n).as_millis() == y * n as u128 && (d / n as u32).as_millis() == y / n as u128, "multiples of a duration are wrong");
    ensure!([d, e, d].iter().sum::<LocalDuration>().as_millis() == y + z + y, "the sum of durations is wrong");
    ensure!(std::time::Duration::from(d).as_millis() == y, "conversion to a system duration is wrong");
    let s = g.range(0, u32::MAX as u64);
    let l = LocalTime::from_secs(s);
    ensure!(millis(l) == s as u128 * 1000 && l.block_time() as u64 == s && LocalTime::from_block_time(s as u32) == l, "conversion to and from block times is wrong");
    ensure!(LocalDuration::from_secs(s).as_millis() == s as u128 * 1000 && LocalDuration::from_mins(s).as_millis() == s as u128 * 60_000, "seconds or minutes are wrong");
    g.nontrivial();
    Ok(())
}

fn c25(g: &mut G) -> Res {
    let threshold = *g.pick(&[0u128, 1, 1000, 1000, 1000, 5000]);
    let mut tm = TimeoutManager::new(LocalDuration::from_millis(threshold));
    let mut now = LocalTime::from_secs(1_600_000_000);
    // Times of the timers that are set, ascending.
    let mut set: Vec<(u128, u64)> = vec![];
    let mut key = 0u64;
    let (mut fired, mut merged) = (0u64, 0u64);
    for _ in 0..g.range(3, 60) {
        match g.below(3) {
            0 | 1 => {
                let d = match g.below(5) {
                    0 => g.range(0, 3),
                    1 => 1000 * g.range(0, 20),
                    2 => 1000 * g.range(0, 20) + 999,
                    _ => g.range(0, 20_000),
                };
                let t = now + LocalDuration::from_millis(d as u128);
                let near = set.iter().any(|(x, _)| x.abs_diff(millis(t)) < threshold);
                key += 1;
                note!(g, "set {} to +{}ms", key, d);
                let ok = tm.register(key, t);
                ensure!(ok != near, "a timer {}ms from now is {}set", d, if ok { "" } else { "not " });
                if ok {
                    set.push((millis(t), key));
                } else {
                    merged += 1;
                }
            }
            _ => {
                let d = match g.below(3) {
                    0 => g.range(0, 3),
                    1 => tm.next(now).map_or(0, |d| d.as_millis() as u64),
                    _ => g.range(0, 10_000),
                };
                now.elapse(LocalDuration::from_millis(d as u128));
                note!(g, "{}ms pass", d);
                let next = set.iter().map(|(t, _)| *t).min().map(|t| t.saturating_sub(millis(now)));
                let got = tm.next(now).map(|d| d.as_millis());
                ensure!(got == next, "next timer in {:?}ms instead of {:?}", got, next);
                if g.bool() {
                    let mut woken = vec![77_777u64];
                    let k = tm.wake(now, &mut woken);
                    let mut due: Vec<(u128, u64)> = set.iter().filter(|(t, _)| *t <= millis(now)).copied().collect();
                    due.sort();
                    set.retain(|(t, _)| *t > millis(now));
                    ensure!(k == due.len() && woken.len() == k + 1 && woken[0] == 77_777, "{} timers expired instead of {}", k, due.len());
                    let mut got: Vec<u64> = woken[1..].to_vec();
                    if threshold == 0 {
                        // Timers set to the same time come in any order.
                        let time = |k: &u64| due.iter().find(|(_, x)| x == k).map(|(t, _)| *t);
                        ensure!(got.iter().all(|k| time(k).is_some()) && got.windows(2).all(|w| time(&w[0]) <= time(&w[1])), "the wrong timers expired, or not in order");
                        got.sort();
                        got.dedup();
                        ensure!(got.len() == due.len(), "timers expired twice");
                    } else {
                        ensure!(got == due.iter().map(|(_, k)| *k).collect::<Vec<_>>(), "the wrong timers expired, or not in order");
                    }
                    fired += k as u64;
                }
            }
        }
        ensure!(tm.len() == set.len() && tm.is_empty() == set.is_empty(), "{} timers instead of {}", tm.len(), set.len());
    }
    if fired > 1 && merged > 0 {
        g.nontrivial();
    }
    Ok(())
}

/// C36: maps with random selection.
fn c36(g: &mut G) -> Res {
    let seed = g.u64();
    let new = || AddressBook::<u16, u32>::new(fastrand::Rng::with_seed(seed));
    // The second one must do the same.
    let (mut a, mut b) = (new(), new());
    let mut model: BTreeMap<u16, u32> = BTreeMap::new();
    let keys = *g.pick(&[3u64, 12, 12, 60, 600]);
    let mut picks = 0u64;
    let n = g.range(1, 40);
    for _ in 0..n {
        match g.below(8) {
            0..=2 => {
                for _ in 0..g.range(1, if keys > 50 { 60 } else { 4 }) {
                    let (k, v) = (g.below(keys) as u16, g.u32());
                    note!(g, "insert {} {}", k, v);
                    let want = model.insert(k, v);
                    ensure!(a.insert(k, v) == want && b.insert(k, v) == want, "inserting {} returned something else than {:?}", k, want);
                }
            }
            3 => {
                let k = g.below(keys) as u16;
                note!(g, "remove {}", k);
                let want = model.remove(&k);
                ensure!(a.remove(&k) == want && b.remove(&k) == want, "removing {} returned something else than {:?}", k, want);
            }
            4 => {
                let got = a.sample().map(|(k, v)| (*k, *v));
                note!(g, "sample {:?}", got);
                ensure!(got == b.sample().map(|(k, v)| (*k, *v)), "the same seed gives different samples");
                match got {
                    None => ensure!(model.is_empty(), "there are members, but none is chosen"),
                    Some((k, v)) => ensure!(model.get(&k) == Some(&v), "{} {} is not a member", k, v),
                }
            }
            5 => {
                let (m, r) = (g.range(1, 5) as u32, g.below(5) as u32);
                let pred = |k: &u16, v: &u32| (*k as u32 ^ *v) % m == r;
                let fit: BTreeSet<u16> = model.iter().filter(|(k, v)| pred(k, v)).map(|(k, _)| *k).collect();
                note!(g, "sample with {} {}, {} fit", m, r, fit.len());
                let all = fit.len() <= 6 || g.chance(1, if fit.len() > 40 { 60 } else { 10 });
                let rounds = if all { 250 + 45 * fit.len() } else { 3 };
                let mut seen = BTreeSet::new();
                for _ in 0..rounds {
                    let got = a.sample_with(pred).map(|(k, v)| (*k, *v));
                    ensure!(got == b.sample_with(pred).map(|(k, v)| (*k, *v)), "the same seed gives different samples");
                    match got {
                        None => ensure!(fit.is_empty(), "{} members match, but none is chosen", fit.len()),
                        Some((k, v)) => {
                            ensure!(fit.contains(&k) && model[&k] == v, "{} {} is not a member that matches", k, v);
                            seen.insert(k);
                            picks += 1;
                        }
                    }
                }
                // Missing one of n by chance has a probability of about n * exp(-45 - 250 / n).
                ensure!(!all || seen == fit, "of {:?}, only {:?} are ever chosen", fit, seen);
            }
            6 => {
                let got: Vec<(u16, u32)> = a.shuffled().map(|(k, v)| (*k, *v)).collect();
                note!(g, "shuffled {:?}", got);
                ensure!(got == b.shuffled().map(|(k, v)| (*k, *v)).collect::<Vec<_>>(), "the same seed gives different shuffles");
                let mut sorted = got.clone();
                sorted.sort();
                ensure!(sorted == model.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>(), "shuffled are {:?}", got);
                if got.len() > 9 && got.len() < 20 {
                    // The order changes (by chance it doesn't with a probability below 10^-18).
                    let more: Vec<Vec<(u16, u32)>> = (0..3).map(|_| a.shuffled().map(|(k, v)| (*k, *v)).collect()).collect();
                    for _ in 0..3 {
                        b.shuffled();
                    }
                    ensure!(more.iter().any(|m| *m != got), "shuffling always gives the same order");
                }
            }
            _ => {
                let k = model.len();
                let got: Vec<u16> = a.cycle().take(3 * k + 2).cloned().collect();
                note!(g, "cycle {:?}", got);
                ensure!(got == b.cycle().take(3 * k + 2).cloned().collect::<Vec<_>>(), "the same seed gives different cycles");
                ensure!(got.len() == if k == 0 { 0 } else { 3 * k + 2 }, "a cycle of {} members ends after {}", k, got.len());
                for c in got.chunks(k.max(1)).filter(|c| c.len() == k) {
                    let s: BTreeSet<u16> = c.iter().cloned().collect();
                    ensure!(s == model.keys().cloned().collect(), "a round of the cycle is {:?}", c);
                }
            }
        }
        ensure!(a.len() == model.len(), "{} members instead of {}", a.len(), model.len());
        let k = g.below(keys) as u16;
        ensure!(a.get(&k) == model.get(&k) && a.contains_key(&k) == model.contains_key(&k), "looking up {} is wrong", k);
    }
    let mut all: Vec<(u16, u32)> = a.iter().map(|(k, v)| (*k, *v)).collect();
    all.sort();
    ensure!(all == model.into_iter().collect::<Vec<_>>(), "the members are {:?}", all);
    if picks > 0 {
        g.nontrivial();
    }
    Ok(())
}

/// C36: large maps, every member is chosen at times.
fn c36_large(g: &mut G) -> Res {
    let mut a = AddressBook::<u32, u32>::new(fastrand::Rng::with_seed(g.u64()));
    let n = g.range(100, 700);
    for i in 0..n {
        a.insert(i as u32 * 7, g.u32());
    }
    let m = *g.pick(&[1u32, 1, 1, 2, 3]);
    let fit: BTreeSet<u32> = a.keys().cloned().filter(|k| k % m == 0).collect();
    note!(g, "{} members, {} fit", n, fit.len());
    let mut seen = BTreeSet::new();
    for i in 0..45 * fit.len() + 250 {
        let k = match a.sample_with(|k, _| k % m == 0) {
            Some((k, _)) => *k,
            None => fail!("{} members match, but none is chosen", fit.len()),
        };
        ensure!(fit.contains(&k), "{} is not a member that matches", k);
        seen.insert(k);
        if seen.len() == fit.len() && i % 8 == 0 {
            break;
        }
    }
    ensure!(seen == fit, "of {} members that match, only {} are ever chosen", fit.len(), seen.len());
    let mut first = BTreeSet::new();
    for _ in 0..45 * n + 250 {
        first.insert(a.shuffled().next().map(|(k, _)| *k));
        if first.len() as u64 == n {
            break;
        }
    }
    ensure!(first.len() as u64 == n, "of {} members, only {} ever come first in the shuffled order", n, first.len());
    g.nontrivial();
    Ok(())
}

pub static PROPS: &[Property] = &[
    Property {
        id: "C22",
        level: "exploration",
        rule: "a case is a sequence of time offsets of peers; non-trivial: the time was adjusted",
        strategies: &[Strategy { name: "offsets", quick: 60000, thorough: 3000000, case: c22 }, Strategy { name: "sums", quick: 20000, thorough: 1000000, case: c22_sums }],
        assumptions: &[],
        known: &[],
    },
    Property {
        id: "C25",
        level: "exploration",
        rule: "timeouts: a case is a sequence of timers set and expiring; non-trivial: timers expired and were merged",
        strategies: &[Strategy { name: "timeouts", quick: 100000, thorough: 5000000, case: c25 }],
        assumptions: &[],
        known: &[],
    },
    Property {
        id: "C36",
        level: "exploration",
        rule: "book: a case is a sequence of insertions, removals and random selections; non-trivial: members were chosen with a predicate. large: a map with 100 to 700 members",
        strategies: &[Strategy { name: "book", quick: 60000, thorough: 2000000, case: c36 }, Strategy { name: "large", quick: 60, thorough: 3000, case: c36_large }],
        assumptions: &[],
        known: &[],
    },
];
