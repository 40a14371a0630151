//! C27: what the client serves to its peers.
use std::collections::BTreeSet;

use nakamoto_common::bitcoin::hash_types::{BlockHash, FilterHash, FilterHeader};
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::bitcoin::network::message_blockdata::GetHeadersMessage;
use nakamoto_common::bitcoin::network::message_filter::{CFHeaders, GetCFHeaders};
use nakamoto_common::bitcoin_hashes::Hash as _;
use nakamoto_common::block::filter::Filters;
use nakamoto_p2p::fsm::{Event, PeerId};

use super::net::{setup, step, Opts};
use crate::pbt::{Property, Res, Strategy, G};
use crate::sim::*;
use crate::{ensure, fail, note};

/// Peers that were asked for headers and haven't answered.
#[derive(Default)]
struct Track {
    at: usize,
    asked: BTreeSet<PeerId>,
    negotiated: BTreeSet<PeerId>,
}

impl Track {
    fn consume(&mut self, w: &World) {
        for r in &w.log[self.at..] {
            match r {
                Rec::Write(a, NetworkMessage::GetHeaders(_)) => {
                    self.asked.insert(*a);
                }
                Rec::In(a, NetworkMessage::Headers(_)) => {
                    self.asked.remove(a);
                }
                Rec::Event(Event::PeerNegotiated { addr, .. }) => {
                    self.negotiated.insert(*addr);
                }
                Rec::Disconnect(a, _) | Rec::Event(Event::PeerDisconnected { addr: a, .. }) => {
                    self.asked.remove(a);
                    self.negotiated.remove(a);
                }
                _ => {}
            }
        }
        self.at = w.log.len();
    }
}

fn c27_with(g: &mut G, long: bool) -> Res {
    let mut o = Opts::gen(g);
    o.long = long;
    o.faulty = false;
    o.steps = if long { g.range(5, 20) } else { g.range(10, 70) };
    if long {
        o.reorgs = false;
        o.import = false;
    }
    let mut w = setup(g, &o, &mut |g, c| {
        c.services = *g.pick(&[ServiceFlags::NONE, ServiceFlags::NETWORK]);
    });
    // Some clients have block headers only, for a while or for good.
    if g.chance(1, 3) {
        let mute = g.bool();
        for n in w.nodes.values_mut() {
            if mute {
                n.cfheaders = Mode::Silent;
            } else {
                n.services.remove(ServiceFlags::COMPACT_FILTERS);
            }
        }
    }
    let mut t = Track::default();
    let mut served = 0u64;
    let mut silent = 0u64;
    w.initialize(g);
    if long {
        // Get somewhere first.
        for _ in 0..g.range(1, 6) {
            for a in w.dialing() {
                w.accept(g, a);
            }
            w.flush(g);
            w.next_timer(g);
        }
    }
    t.consume(&w);
    for _ in 0..o.steps {
        let up: Vec<PeerId> = w.sim.up.keys().copied().collect();
        if up.is_empty() || g.chance(1, 2) {
            step(g, &mut w, &o);
            w.settle_outputs(g);
            t.consume(&w);
            continue;
        }
        w.settle_outputs(g);
        t.consume(&w);
        let up: Vec<PeerId> = w.sim.up.keys().copied().collect();
        if up.is_empty() {
            continue;
        }
        let a = *g.pick(&up);
        let chain = w.client_chain();
        if chain.contains(&usize::MAX) {
            crate::harness_bug!("the client's chain is unknown");
        }
        let top = chain.len() - 1;
        let hashes: Vec<BlockHash> = chain.iter().map(|i| w.u.blocks[*i].hash).collect();
        let any = |g: &mut G, w: &World| -> BlockHash {
            match g.below(8) {
                0 => BlockHash::from_inner([g.u8().max(1); 32]),
                1 | 2 => w.u.blocks[g.below(w.u.blocks.len() as u64) as usize].hash,
                3 => *hashes.last().unwrap(),
                _ => *g.pick(&hashes),
            }
        };
        let ready = t.negotiated.contains(&a);
        if g.bool() {
            let k = g.below(4);
            let mut locs: Vec<BlockHash> = (0..k).map(|_| any(g, &w)).collect();
            // Peers far ahead, or on another branch, send many that are unknown.
            if g.chance(1, 6) {
                let n = g.usize(1, 100);
                let fill = g.u8().max(1);
                locs.splice(0..0, (0..n).map(|i| BlockHash::from_inner([fill ^ i as u8 | 0x80; 32])));
            }
            let stop = if g.chance(1, 3) { BlockHash::all_zeros() } else { any(g, &w) };
            let busy = !t.asked.is_empty();
            let at = |h: &BlockHash| hashes.iter().position(|x| x == h);
            let want: Vec<BlockHash> = if locs.is_empty() {
                at(&stop).map(|h| vec![hashes[h]]).unwrap_or_default()
            } else {
                let first = locs.iter().find_map(at).unwrap_or(0) + 1;
                let last = at(&stop).unwrap_or(top);
                (first..=last).take(2000).map(|h| hashes[h]).collect()
            };
            let out = w.send(g, a, NetworkMessage::GetHeaders(GetHeadersMessage { version: 70016, locator_hashes: locs, stop_hash: stop }));
            let mut got = vec![];
            for r in &out {
                if let Rec::Write(x, NetworkMessage::Headers(hs)) = r {
                    ensure!(*x == a, "headers are sent to {} instead of {}", short(x), short(&a));
                    got.push(hs.iter().map(|h| h.block_hash()).collect::<Vec<_>>());
                }
            }
            match got.len() {
                0 => {
                    silent += 1;
                    if !busy && ready && !want.is_empty() {
                        fail!("a request for {} headers isn't answered", want.len());
                    }
                }
                1 => {
                    ensure!(got[0] == want, "a request for {} headers is answered with {} ones, not all of them the right ones", want.len(), got[0].len());
                    served += 1;
                    g.label("headers served");
                    if want.len() == 2000 {
                        g.label("2000 headers");
                    }
                }
                n => fail!("a request for headers is answered {} times", n),
            }
        } else {
            let stop = any(g, &w);
            let known = w.sim.filters.get().height() as usize;
            let start = match g.below(8) {
                0 => u32::MAX,
                1 => g.below(top as u64 + 3) as u32,
                2 => 0,
                _ => {
                    let h = hashes.iter().position(|x| *x == stop).unwrap_or(top) as u64;
                    if long {
                        h.saturating_sub(*g.pick(&[0u64, 1, 1998, 1999, 2000, 2001, 2400])) as u32
                    } else {
                        g.range(0, h) as u32
                    }
                }
            };
            let kind = if g.chance(1, 20) { 1 } else { 0 };
            let end = hashes.iter().position(|x| *x == stop);
            // Exactly what was asked for, or nothing.
            let want = match end {
                Some(e) if kind == 0 && start as usize <= e && e <= known && e - (start as usize) < 2000 => {
                    let s = start as usize;
                    Some(CFHeaders {
                        filter_type: 0,
                        stop_hash: stop,
                        previous_filter_header: if s == 0 { FilterHeader::all_zeros() } else { w.u.blocks[chain[s - 1]].fheader },
                        filter_hashes: (s..=e).map(|h| w.u.blocks[chain[h]].fhash).collect::<Vec<FilterHash>>(),
                    })
                }
                _ => None,
            };
            note!(g, "filter headers known up to {}", known);
            let out = w.send(g, a, NetworkMessage::GetCFHeaders(GetCFHeaders { filter_type: kind, start_height: start, stop_hash: stop }));
            let mut got = vec![];
            for r in &out {
                if let Rec::Write(x, NetworkMessage::CFHeaders(m)) = r {
                    ensure!(*x == a, "filter headers are sent to {} instead of {}", short(x), short(&a));
                    got.push(m.clone());
                }
            }
            match (got.len(), want) {
                (0, None) => silent += 1,
                (0, Some(m)) => ensure!(!ready, "a request for {} filter headers isn't answered", m.filter_hashes.len()),
                (1, Some(m)) => {
                    ensure!(got[0] == m, "wrong answer to a request for {} filter headers ({} hashes)", m.filter_hashes.len(), got[0].filter_hashes.len());
                    served += 1;
                    g.label("filter headers served");
                    if m.filter_hashes.len() == 2000 {
                        g.label("2000 filter headers");
                    }
                }
                (1, None) => fail!(
                    "a request for filter headers from {} to {:?} is answered with {} of them (known up to {})",
                    start,
                    end,
                    got[0].filter_hashes.len(),
                    known
                ),
                (n, _) => fail!("a request for filter headers is answered {} times", n),
            }
        }
        t.consume(&w);
    }
    if served > 0 {
        g.nontrivial();
    }
    g.count("requests answered", served);
    g.count("requests not answered", silent);
    Ok(())
}

fn c27(g: &mut G) -> Res {
    c27_with(g, false)
}

fn c27_long(g: &mut G) -> Res {
    c27_with(g, true)
}

pub static PROPS: &[Property] = &[Property {
    id: "C27",
    level: "exploration",
    rule: "a case is a history of a client syncing, with requests for headers and filter headers in between; non-trivial: a request was answered",
    strategies: &[
        Strategy { name: "short", quick: 40000, thorough: 2000000, case: c27 },
        Strategy { name: "long", quick: 150, thorough: 6000, case: c27_long },
    ],
    assumptions: &[],
    known: &[],
}];
