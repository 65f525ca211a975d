//! C17 (candidates are handed out once), C18 (looking does not change who is a candidate).
use super::gen::*;
use crate::core::*;
use crate::ensure;
use nargun::verif::peers::active_peers::{Peers, Status};
use nargun::verif::peers::peer::Peer;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::net::SocketAddrV4;
use std::sync::atomic::{AtomicBool, Ordering};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
enum S {
    Active,
    Unknown,
    Unreachable,
    Choked,
    Useless,
}

impl S {
    fn real(self) -> Status {
        match self {
            S::Active => Status::Active,
            S::Unknown => Status::Unknown,
            S::Unreachable => Status::UnableToConnect,
            S::Choked => Status::ChokedForTooLong,
            S::Useless => Status::NoUsefulPieces,
        }
    }
    /// The order in which candidates are tried.
    fn next(self) -> Option<u8> {
        match self {
            S::Active => None,
            S::Unknown => Some(0),
            S::Useless => Some(1),
            S::Choked => Some(2),
            S::Unreachable => Some(3),
        }
    }
    /// The order in which peers are recommended to others.
    fn good(self) -> Option<u8> {
        match self {
            S::Active => Some(0),
            S::Useless => Some(1),
            S::Unknown => Some(2),
            S::Choked => Some(3),
            S::Unreachable => None,
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Insert(u8, u16),
    Extend(u8, Vec<u16>),
    /// a run of them
    Many(u8, u16, u8),
    /// peers in use that come back (picked by number), and how many are wanted; None: as many as there are
    Swap(u8, Vec<(u8, S)>, Option<u8>),
    Good(u8, Option<u8>),
    Enough(u8),
    Addresses(u8),
    Serves(u8, bool),
}

fn peer(i: u16) -> SocketAddrV4 {
    // neighbours differ in the port only, others in the address only
    SocketAddrV4::new([10, 0, (i >> 8) as u8, (i >> 2) as u8].into(), 6881 + (i & 3))
}

fn status() -> impl Strategy<Value = S> {
    proptest::sample::select(vec![S::Unknown, S::Unreachable, S::Choked, S::Useless])
}

fn ops(looks: u32) -> impl Strategy<Value = Vec<Op>> {
    let one = || prop_oneof![3 => 0u16..24, 1 => 0u16..600];
    let who = || 0u8..3;
    let limit = || prop_oneof![4 => (0u8..12).prop_map(Some), 1 => any::<u8>().prop_map(Some), 1 => Just(None)];
    let op = prop_oneof![
        6 => (who(), one()).prop_map(|(w, i)| Op::Insert(w, i)),
        3 => (who(), vec(one(), 0..12)).prop_map(|(w, v)| Op::Extend(w, v)),
        1 => (who(), 0u16..500, any::<u8>()).prop_map(|(w, a, n)| Op::Many(w, a, n)),
        8 => (who(), vec((any::<u8>(), status()), 0..6), limit()).prop_map(|(w, b, l)| Op::Swap(w, b, l)),
        looks => (who(), limit()).prop_map(|(w, l)| Op::Good(w, l)),
        looks => who().prop_map(Op::Enough),
        looks => who().prop_map(Op::Addresses),
        1 => (who(), any::<bool>()).prop_map(|(w, o)| Op::Serves(w, o)),
    ];
    vec(op, 1..50)
}

#[derive(Default)]
struct Seen {
    swaps: usize,
    relearned: bool,
    ranks: bool,
    looks_between: usize,
    enough: bool,
}

fn ranked(got: &[SocketAddrV4], have: &BTreeMap<SocketAddrV4, S>, rank: fn(S) -> Option<u8>, limit: usize, what: &str) -> Result<bool, String> {
    let set: BTreeSet<_> = got.iter().collect();
    ensure!(set.len() == got.len(), "{what}: {got:?} has a peer twice");
    let mut ranks = vec![];
    for p in got {
        let s = have.get(p).ok_or(format!("{what}: {p} was never learned"))?;
        ranks.push(rank(*s).ok_or(format!("{what}: {p} is {s:?}"))?);
    }
    let mut all: Vec<u8> = have.values().filter_map(|s| rank(*s)).collect();
    all.sort();
    all.truncate(limit);
    ensure!(ranks == all, "{what}: peers ranked {ranks:?}, the best are {all:?}");
    Ok(all.first() != all.last())
}

fn run(ops: &[Op], hash: &Bytes20) -> Result<Seen, String> {
    let first = Peers::new(&id(hash));
    let mut all = [first.clone(), first.clone(), first];
    let mut have: BTreeMap<SocketAddrV4, S> = BTreeMap::new();
    let mut seen = Seen::default();
    let mut looked = false;
    fn learn(have: &mut BTreeMap<SocketAddrV4, S>, seen: &mut Seen, i: u16) {
        let s = have.entry(peer(i)).or_insert(S::Unknown);
        if *s == S::Active {
            seen.relearned = true;
        } else {
            *s = S::Unknown;
        }
    }
    for (n, op) in ops.iter().enumerate() {
        let at = format!("step {n} ({op:?})");
        match op {
            Op::Insert(w, i) => {
                all[*w as usize].insert(Peer::new(peer(*i)));
                learn(&mut have, &mut seen, *i);
            }
            Op::Extend(w, v) => {
                all[*w as usize].extend(v.iter().map(|i| peer(*i)));
                v.iter().for_each(|i| learn(&mut have, &mut seen, *i));
            }
            Op::Many(w, a, k) => {
                all[*w as usize].extend((*a..*a + *k as u16).map(|i| Peer::new(peer(i))));
                (*a..*a + *k as u16).for_each(|i| learn(&mut have, &mut seen, i));
            }
            Op::Swap(w, back, limit) => {
                let active: Vec<SocketAddrV4> = have.iter().filter(|x| *x.1 == S::Active).map(|x| *x.0).collect();
                let mut bad: BTreeMap<SocketAddrV4, S> = BTreeMap::new();
                for (i, s) in back {
                    if !active.is_empty() {
                        bad.entry(active[*i as usize % active.len()]).or_insert(*s);
                    }
                }
                let list: Vec<(Peer, Status)> = bad.iter().map(|(p, s)| (Peer::new(*p), s.real())).collect();
                have.extend(bad);
                let limit = limit.map(|l| l as usize).unwrap_or(usize::MAX);
                let got = all[*w as usize].return_batch_of_bad_peers_and_get_new_batch(&list, limit);
                let got: Vec<SocketAddrV4> = got.iter().map(|p| *p.addr()).collect();
                seen.ranks |= ranked(&got, &have, S::next, limit, &at)?;
                if looked && !got.is_empty() {
                    seen.looks_between += 1;
                }
                looked = false;
                seen.swaps += !got.is_empty() as usize;
                have.extend(got.into_iter().map(|p| (p, S::Active)));
            }
            Op::Good(w, limit) => {
                let limit = limit.map(|l| l as usize).unwrap_or(usize::MAX);
                let got = all[*w as usize].get_good_peers(limit);
                ensure!(got.as_ref().map(|g| !g.is_empty()).unwrap_or(true), "{at}: an empty list of good peers");
                let got: Vec<SocketAddrV4> = got.unwrap_or_default().iter().map(|p| *p.addr()).collect();
                ranked(&got, &have, S::good, limit, &at)?;
                looked = true;
            }
            Op::Enough(w) => {
                let good = have.values().filter(|s| s.good().is_some()).count();
                seen.enough |= good >= 128;
                ensure!(all[*w as usize].enough_peers() == (good >= 128), "{at}: of {good} good peers");
                looked = true;
            }
            Op::Addresses(w) => {
                let got: Vec<SocketAddrV4> = all[*w as usize].peer_addresses().iter().map(|p| *p.addr()).collect();
                let set: BTreeSet<SocketAddrV4> = got.iter().copied().collect();
                ensure!(set.len() == got.len() && set == have.keys().copied().collect(), "{at}: {got:?}");
                looked = true;
            }
            Op::Serves(w, own) => {
                let mut h = *hash;
                if !own {
                    h[n % 20] ^= 1 << (n % 8);
                }
                ensure!(all[*w as usize].serve(&id(&h)) == *own, "{at}");
            }
        }
    }
    Ok(seen)
}

pub fn candidates(ctx: &mut Ctx) {
    ctx.check(
        "history",
        "up to 50 operations (peers learned again and again, batches taken and returned with any status) through three handles, against a reference map; non-trivial: at least two batches, and a peer learned again while in use or a batch of several standings",
        Plan::new(8_000, 400_000),
        (ops(1), any::<Bytes20>()),
        |(o, h)| {
            let s = run(o, h)?;
            Ok(Obs::new(s.swaps >= 2 && (s.relearned || s.ranks)).label_if(s.relearned, "learned again").label_if(s.ranks, "several standings"))
        },
    );
    let s = (vec((vec((any::<u16>(), 0u8..6, any::<u8>()), 1..40), any::<u64>()), 2..5), 4u16..40);
    ctx.check(
        "threads",
        "two to four threads that learn peers, take and return batches at once; no peer may be in two hands; non-trivial: at least three threads",
        Plan::new(600, 12_000).shrink(60),
        s,
        |(threads, universe)| {
            let peers = Peers::new(&id(&[7; 20]));
            let held: Vec<AtomicBool> = (0..*universe).map(|_| AtomicBool::new(false)).collect();
            let index = |p: &Peer| (0..*universe).find(|i| peer(*i) == *p.addr()).unwrap() as usize;
            let twice = std::sync::Mutex::new(None);
            let gate = std::sync::Barrier::new(threads.len());
            std::thread::scope(|sc| {
                for (steps, seed) in threads {
                    let (mut peers, held, twice, gate) = (peers.clone(), &held, &twice, &gate);
                    sc.spawn(move || {
                        gate.wait();
                        let mut rng = Lcg(*seed);
                        let mut mine: Vec<Peer> = vec![];
                        for (from, take, give) in steps {
                            peers.extend((0..4).map(|k| peer((from.wrapping_add(k)) % universe)));
                            let mut back = vec![];
                            for _ in 0..(*give as usize % (mine.len() + 1)) {
                                let p = mine.swap_remove(rng.below(mine.len()));
                                held[index(&p)].store(false, Ordering::SeqCst);
                                back.push((p, [S::Unknown, S::Unreachable, S::Choked, S::Useless][rng.below(4)].real()));
                            }
                            for p in peers.return_batch_of_bad_peers_and_get_new_batch(&back, *take as usize) {
                                if held[index(&p)].swap(true, Ordering::SeqCst) {
                                    *twice.lock().unwrap() = Some(*p.addr());
                                }
                                mine.push(p);
                            }
                        }
                    });
                }
            });
            let t = *twice.lock().unwrap();
            ensure!(t.is_none(), "{} was handed out while in use", t.unwrap());
            Ok(Obs::new(threads.len() > 2))
        },
    );
}

pub fn lookups(ctx: &mut Ctx) {
    ctx.check(
        "history",
        "the operations of C17 with frequent looks (good peers, enough of them, addresses) in between, against a reference map that looks do not change; non-trivial: at least two batches after looks",
        Plan::new(8_000, 400_000),
        (ops(8), any::<Bytes20>()),
        |(o, h)| {
            let s = run(o, h)?;
            Ok(Obs::new(s.looks_between >= 2).label_if(s.enough, "enough peers"))
        },
    );
    ctx.check(
        "twin",
        "two tables with the same history, one of which is looked at after every step, then hand out the same peers; non-trivial: more than two peers are handed out",
        Plan::new(4_000, 200_000),
        (ops(0), vec(any::<u8>(), 50)),
        |(o, looks)| {
            let (mut a, mut b) = (Peers::new(&id(&[1; 20])), Peers::new(&id(&[1; 20])));
            let mut n = 0;
            for (op, l) in o.iter().zip(looks) {
                match op {
                    Op::Insert(_, i) => {
                        a.insert(Peer::new(peer(*i)));
                        b.insert(Peer::new(peer(*i)));
                    }
                    Op::Extend(_, v) => {
                        a.extend(v.iter().map(|i| peer(*i)));
                        b.extend(v.iter().map(|i| peer(*i)));
                    }
                    Op::Swap(_, _, None) => {
                        // everything, so that the order in the tables does not matter
                        let take = |p: &mut Peers| -> HashSet<Peer> { p.return_batch_of_bad_peers_and_get_new_batch(&[], usize::MAX).into_iter().collect() };
                        let (x, y) = (take(&mut a), take(&mut b));
                        ensure!(x == y, "handed out {x:?} and {y:?}");
                        n += x.len();
                    }
                    _ => {}
                }
                if l & 1 == 1 {
                    let _ = b.get_good_peers(*l as usize / 8);
                }
                if l & 2 == 2 {
                    let _ = b.enough_peers();
                }
                if l & 4 == 4 {
                    let _ = b.peer_addresses();
                }
            }
            let take = |p: &mut Peers| -> HashSet<Peer> { p.return_batch_of_bad_peers_and_get_new_batch(&[], usize::MAX).into_iter().collect() };
            let (x, y) = (take(&mut a), take(&mut b));
            ensure!(x == y, "at last handed out {x:?} and {y:?}");
            Ok(Obs::new(n + x.len() > 2))
        },
    );
}
