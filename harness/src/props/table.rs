use super::gen::*;
use crate::core::*;
use crate::ensure;
use nargun::verif::data_structures::ID;
use nargun::verif::dht::krpc_message::Nodes;
use nargun::verif::dht::routing_table::{Node, RoutingTable};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddrV4;
use std::time::Duration;
use tokio::time::{advance, Instant};

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    /// a node answered
    Touch(Delta),
    /// the k-th node seen so far answered again
    Again(u16),
    /// seconds go by
    Wait(u16),
    Lookup(Delta, bool),
    LookupKnown(u16),
    Targets,
    /// stored and loaded again (persistence only)
    Reload,
}

fn ops(reload: bool, max: usize) -> impl Strategy<Value = Vec<Op>> {
    prop_oneof![Just(0u8), Just(5), Just(12), Just(60), Just(152)].prop_flat_map(move |deep| {
        vec(
            prop_oneof![
                30 => delta(deep).prop_map(Op::Touch),
                6 => any::<u16>().prop_map(Op::Again),
                2 => prop_oneof![Just(1u16), Just(300), Just(899), Just(901), Just(2000)].prop_map(Op::Wait),
                3 => (delta(deep), any::<bool>()).prop_map(|(d, b)| Op::Lookup(d, b)),
                2 => any::<u16>().prop_map(Op::LookupKnown),
                1 => Just(Op::Targets),
                if reload { 2 } else { 0 } => Just(Op::Reload),
            ],
            1..max,
        )
    })
}

struct Model {
    own: Bytes20,
    /// id -> address and when it was seen last
    nodes: BTreeMap<Bytes20, (SocketAddrV4, Option<Instant>)>,
    /// how often the bucket of the own id was split
    splits: usize,
}

fn first_diff(a: &Bytes20, b: &Bytes20) -> usize {
    (0..160).find(|i| (a[i / 8] ^ b[i / 8]) >> (7 - i % 8) & 1 == 1).unwrap_or(160)
}

fn dist(a: &Bytes20, b: &Bytes20) -> Bytes20 {
    let mut d = *a;
    for (x, y) in d.iter_mut().zip(b) {
        *x ^= y;
    }
    d
}

fn arr(i: &ID) -> Bytes20 {
    i.as_byte_ref().try_into().unwrap()
}

impl Model {
    fn good(t: &Option<Instant>) -> bool {
        t.map(|t| t.elapsed() < Duration::from_secs(900)).unwrap_or(false)
    }
    fn bucket(&self, id: &Bytes20) -> usize {
        first_diff(&self.own, id).min(self.splits)
    }
    fn members(&self, b: usize) -> Vec<Bytes20> {
        self.nodes.keys().filter(|k| self.bucket(k) == b).copied().collect()
    }
    /// Ids of which exactly one has to make room; empty when nobody does.
    fn touch(&mut self, id: Bytes20, addr: SocketAddrV4) -> Touched {
        if let Some(n) = self.nodes.get_mut(&id) {
            n.1 = Some(Instant::now());
            return Touched::Kept;
        }
        loop {
            let b = self.bucket(&id);
            let m = self.members(b);
            if m.len() < 8 {
                self.nodes.insert(id, (addr, Some(Instant::now())));
                return Touched::Inserted(vec![]);
            }
            let bad: Vec<_> = m.into_iter().filter(|k| !Self::good(&self.nodes[k].1)).collect();
            if !bad.is_empty() {
                self.nodes.insert(id, (addr, Some(Instant::now())));
                return Touched::Inserted(bad);
            }
            if b == self.splits && self.splits < 160 {
                self.splits += 1;
            } else {
                return Touched::Refused;
            }
        }
    }
    fn closest(&self, t: &Bytes20) -> Vec<Bytes20> {
        let mut v: Vec<_> =
            self.nodes.iter().filter(|(_, n)| Self::good(&n.1)).map(|(k, _)| *k).collect();
        v.sort_by_key(|k| dist(k, t));
        v.truncate(8);
        v
    }
}

#[derive(PartialEq, Debug)]
enum Touched {
    Kept,
    Inserted(Vec<Bytes20>),
    Refused,
}

fn listing(t: &RoutingTable) -> Vec<(Bytes20, SocketAddrV4)> {
    t.iter_nodes().map(|n| (arr(&n.id), n.addr)).collect()
}

fn compare(t: &RoutingTable, m: &mut Model, what: &str) -> Result<(), String> {
    let l = listing(t);
    let ids: BTreeSet<_> = l.iter().map(|x| x.0).collect();
    ensure!(ids.len() == l.len(), "{what}: a node is in the table twice");
    let want: BTreeSet<_> = m.nodes.keys().copied().collect();
    ensure!(
        ids == want,
        "{what}: table has {} nodes, expected {} (missing at depth {:?}, surplus at depth {:?})",
        ids.len(),
        want.len(),
        want.difference(&ids).map(|i| first_diff(&m.own, i)).collect::<Vec<_>>(),
        ids.difference(&want).map(|i| first_diff(&m.own, i)).collect::<Vec<_>>()
    );
    for (i, a) in &l {
        ensure!(m.nodes[i].0 == *a, "{what}: address of a node changed to {a}");
    }
    ensure!(t.count_nodes() == want.len(), "{what}: count {}", t.count_nodes());
    ensure!(t.is_empty() == want.is_empty(), "{what}: is_empty");
    let good = m.nodes.values().filter(|n| Model::good(&n.1)).count();
    ensure!(t.count_good_nodes() == good, "{what}: {} good nodes, expected {good}", t.count_good_nodes());
    ensure!(arr(t.own_id()) == m.own, "{what}: own id changed");
    Ok(())
}

fn lookup(t: &RoutingTable, m: &Model, target: &Bytes20) -> Result<usize, String> {
    let want = m.closest(target);
    let tid = id(target);
    let got = t.get_closest_nodes(&tid).unwrap_or_default();
    let gids: Vec<_> = got.iter().map(|n| arr(&n.id)).collect();
    ensure!(
        gids == want,
        "closest nodes: {:?}, expected {:?} (as distances' leading bits)",
        gids.iter().map(|g| first_diff(g, target)).collect::<Vec<_>>(),
        want.iter().map(|g| first_diff(g, target)).collect::<Vec<_>>()
    );
    for n in &got {
        ensure!(n.addr == m.nodes[&arr(&n.id)].0, "closest node has a wrong address");
    }
    let one = t.get_closest_node(&tid).map(|n| arr(&n.id));
    ensure!(one == want.first().copied(), "closest node is not the first of the closest nodes");
    let known = m.nodes.contains_key(target);
    ensure!(t.contains_node(&tid) == known, "contains_node is {}", !known);
    match t.find_node(&tid) {
        Some(Nodes::Exact(n)) => {
            ensure!(known && arr(&n.id) == *target, "exact answer for a node that isn't known");
            ensure!(n.addr == m.nodes[target].0, "exact answer has a wrong address");
        }
        Some(Nodes::Closest(v)) => {
            ensure!(!known, "known node is not answered exactly");
            ensure!(v.iter().map(|n| arr(&n.id)).eq(want.iter().copied()), "answer differs from closest nodes");
        }
        None => ensure!(!known && want.is_empty(), "no answer though nodes are known"),
    }
    Ok(want.len())
}

#[derive(Clone, Copy, PartialEq)]
enum Focus {
    Structure,
    Lookups,
    Persistence,
}

async fn run(ops: &[Op], focus: Focus) -> TestResult {
    let home = std::path::PathBuf::from(std::env::var_os("HOME").unwrap()).join(".nargun");
    let _ = std::fs::remove_dir_all(&home);
    let mut t = RoutingTable::new().await;
    let mut m = Model { own: arr(t.own_id()), nodes: BTreeMap::new(), splits: 0 };
    ensure!(t.is_empty(), "table without a stored one is not empty");
    let own = *t.own_id();
    let mut seen: Vec<Bytes20> = vec![];
    let (mut refused, mut replaced, mut reloaded, mut nearest8, mut reloaded_with) = (0, 0, 0, 0, 0);
    for (step, op) in ops.iter().enumerate() {
        let mut touched = None;
        match op {
            Op::Touch(d) => touched = Some(d.of(&own)),
            Op::Again(k) if !seen.is_empty() => touched = Some(seen[*k as usize % seen.len()]),
            Op::Again(_) => {}
            // the odd millisecond keeps every age off the limit itself
            Op::Wait(s) => advance(Duration::from_millis(*s as u64 * 1000 + 7)).await,
            Op::Lookup(d, near) => {
                if focus != Focus::Structure {
                    let mut target = d.of(&own);
                    if *near && !seen.is_empty() {
                        // next to a known node
                        target = dist(&seen[d.tail as usize % seen.len()], &d.bytes());
                    }
                    if lookup(&t, &m, &target)? == 8 {
                        nearest8 += 1;
                    }
                }
            }
            Op::LookupKnown(k) if !seen.is_empty() => {
                lookup(&t, &m, &seen[*k as usize % seen.len()])?;
            }
            Op::LookupKnown(_) => {}
            Op::Targets => {
                // buckets with room are refreshed by ids of their own range
                let got: Vec<usize> =
                    t.iter_over_ids_within_fillable_buckets().map(|i| first_diff(&m.own, &arr(&i))).collect();
                let mut want = vec![];
                for b in 0..m.splits {
                    let good = m.members(b).iter().filter(|k| Model::good(&m.nodes[*k].1)).count();
                    if good < 8 {
                        want.push(b);
                    }
                }
                want.push(160);
                let mut g = got.clone();
                g.sort();
                ensure!(g == want, "step {step}: refresh targets fall into buckets {g:?}, those with room are {want:?}");
            }
            Op::Reload => {
                t.store().await;
                t = RoutingTable::new().await;
                for n in m.nodes.values_mut() {
                    n.1 = None;
                }
                reloaded += 1;
                reloaded_with = reloaded_with.max(m.nodes.len());
            }
        }
        if let Some(i) = touched {
            let addr = sock(&fill(step as u64, 6).try_into().unwrap());
            t.touch_node(id(&i), addr);
            let before: BTreeSet<_> = m.nodes.keys().copied().collect();
            match m.touch(i, addr) {
                Touched::Inserted(candidates) if !candidates.is_empty() => {
                    replaced += 1;
                    let now: BTreeSet<_> = listing(&t).into_iter().map(|x| x.0).collect();
                    let gone: Vec<_> = before.difference(&now).copied().collect();
                    ensure!(
                        gone.len() == 1 && candidates.contains(&gone[0]),
                        "step {step}: one node that is not good had to make room, {} did",
                        gone.len()
                    );
                    m.nodes.remove(&gone[0]);
                }
                Touched::Refused => refused += 1,
                _ => {}
            }
            seen.push(i);
        }
        compare(&t, &mut m, &format!("step {step} {op:?}"))?;
    }
    // at the end, every node seen is looked up
    if focus != Focus::Structure {
        for s in seen.iter().take(60) {
            lookup(&t, &m, s)?;
        }
    }
    if focus == Focus::Structure {
        // the ids that buckets are refreshed by come from the whole of their range
        let mut seen: BTreeMap<usize, ([u8; 20], [u8; 20])> = BTreeMap::new();
        for _ in 0..64 {
            for i in t.iter_over_ids_within_fillable_buckets() {
                let i = arr(&i);
                let (or, and) = seen.entry(first_diff(&m.own, &i)).or_insert(([0; 20], [255; 20]));
                (0..20).for_each(|k| (or[k], and[k]) = (or[k] | i[k], and[k] & i[k]));
            }
        }
        for (b, (or, and)) in seen.iter().filter(|x| *x.0 < 160) {
            for k in b + 1..160 {
                let bit = 0x80 >> (k % 8);
                ensure!(or[k / 8] & bit > 0 && and[k / 8] & bit == 0, "bit {k} of the ids that bucket {b} is refreshed by is always the same");
            }
        }
    }
    let nt = match focus {
        Focus::Structure => m.splits > 0 && refused > 0,
        Focus::Lookups => nearest8 > 0 && m.splits > 0,
        Focus::Persistence => reloaded > 0 && reloaded_with > 8,
    };
    Ok(Obs::new(nt)
        .label_if(refused > 0, "full bucket refused a node")
        .label_if(replaced > 0, "expired node replaced")
        .label_if(m.splits > 3, "more than 3 splits")
        .label_if(m.splits > 100, "more than 100 splits")
        .label_if(nearest8 > 0, "8 closest of more")
        .label_if(reloaded > 0, "reloaded"))
}

pub fn structure(ctx: &mut Ctx) {
    ctx.check(
        "model",
        "up to 160 touches (ids by distance from the own id), waits and refreshes against a reference k-bucket table, compared after every step; non-trivial: the own bucket was split and a full bucket refused a node",
        Plan::new(1_000, 30_000),
        ops(false, 160),
        |ops| paused(run(ops, Focus::Structure)),
    );
}

pub fn lookups(ctx: &mut Ctx) {
    ctx.check(
        "closest",
        "touches and waits, then lookups of near and far targets against sorting all good nodes by distance; non-trivial: a lookup had 8 answers and the table was split",
        Plan::new(1_200, 30_000),
        ops(false, 120),
        |ops| paused(run(ops, Focus::Lookups)),
    );
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Damage {
    Cut(u16),
    Flip(Vec<(u16, u8)>),
    Raw(Vec<u8>),
    Append(Vec<u8>),
    /// a 64-bit number somewhere
    Number(u16, u64),
    Zero(u16, u8),
    /// one node's id in the place of another's
    Twice(u8, u8),
}

pub fn persistence(ctx: &mut Ctx) {
    ctx.check(
        "reload",
        "touch histories with stores and reloads at any point, compared with the reference table (reloaded nodes are not good until seen again); non-trivial: reloaded with more than 8 nodes",
        Plan::new(500, 8_000),
        ops(true, 90),
        |ops| paused(run(ops, Focus::Persistence)),
    );
    let damage = prop_oneof![
        3 => any::<u16>().prop_map(Damage::Cut),
        3 => vec((any::<u16>(), 1u8..), 1..4).prop_map(Damage::Flip),
        1 => vec(any::<u8>(), 0..60).prop_map(Damage::Raw),
        1 => vec(any::<u8>(), 1..60).prop_map(Damage::Append),
        3 => (0u16..400, prop_oneof![any::<u64>(), 0u64..300, Just(u64::MAX), Just(1 << 40)]).prop_map(|(a, b)| Damage::Number(a, b)),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Damage::Zero(a, b)),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Damage::Twice(a, b)),
    ];
    ctx.check(
        "damaged",
        "stored tables that are cut (any crash point of a write), flipped, overwritten or replaced before they're loaded, and then used; non-trivial: the file changed and is not empty",
        Plan::new(600, 12_000),
        (vec(delta(5), 0..30), damage, any::<u64>()),
        |(nodes, damage, seed)| {
            paused(async move {
                let home = std::path::PathBuf::from(std::env::var_os("HOME").unwrap()).join(".nargun");
                let _ = std::fs::remove_dir_all(&home);
                let mut t = RoutingTable::new().await;
                let own = *t.own_id();
                for (i, d) in nodes.iter().enumerate() {
                    t.touch_node(id(&d.of(&own)), sock(&fill(i as u64, 6).try_into().unwrap()));
                }
                t.store().await;
                let files: Vec<_> = std::fs::read_dir(&home).map_err(|e| format!("nothing stored: {e}"))?.flatten().map(|e| e.path()).collect();
                ensure!(!files.is_empty(), "nothing stored");
                let mut nt = false;
                for f in &files {
                    let mut b = std::fs::read(f).unwrap();
                    let old = b.clone();
                    let n = b.len().max(1);
                    match damage {
                        Damage::Cut(k) => b.truncate(*k as usize % n),
                        Damage::Flip(v) => v.iter().for_each(|(k, x)| {
                            let k = *k as usize % n;
                            if k < b.len() { b[k] ^= x }
                        }),
                        Damage::Raw(v) => b = v.clone(),
                        Damage::Append(v) => b.extend(v),
                        Damage::Number(k, v) => {
                            let k = *k as usize % n;
                            for (i, x) in v.to_le_bytes().iter().enumerate() {
                                if k + i < b.len() { b[k + i] = *x }
                            }
                        }
                        Damage::Zero(k, c) => {
                            let k = *k as usize % n;
                            let e = (k + *c as usize).min(b.len());
                            b[k..e].fill(0);
                        }
                        Damage::Twice(x, y) => {
                            let ids: Vec<_> = t.iter_nodes().map(|n| arr(&n.id)).collect();
                            if !ids.is_empty() {
                                // often from the same bucket
                                let x = *x as usize % ids.len();
                                let y = if y % 2 == 0 { (x + 1) % ids.len() } else { *y as usize % ids.len() };
                                if let Some(at) = b.windows(20).position(|w| w == ids[x]) {
                                    b[at..at + 20].copy_from_slice(&ids[y]);
                                }
                            }
                        }
                    }
                    nt |= b != old && !b.is_empty();
                    std::fs::write(f, b).unwrap();
                }
                let mut t = RoutingTable::new().await;
                let own = *t.own_id();
                ensure!(t.count_good_nodes() == 0, "a loaded node counts as good");
                let known: Vec<Node> = t.iter_nodes().cloned().collect();
                let distinct: std::collections::BTreeSet<_> = known.iter().map(|n| arr(&n.id)).collect();
                ensure!(distinct.len() == known.len(), "a node is in the loaded table twice");
                for n in &known {
                    ensure!(t.contains_node(&n.id), "a loaded node can't be found");
                    ensure!(t.find_node(&n.id).is_some(), "a loaded node can't be looked up");
                }
                let _ = t.iter_over_ids_within_fillable_buckets().count();
                // whatever was loaded, the table works: nodes that answer now are taken and found
                let mut fresh = vec![];
                for k in 0..8u64 {
                    let i = Delta { first: (k % 4) as u8, tail: seed.wrapping_add(k) }.of(&own);
                    t.touch_node(id(&i), sock(&[1, 2, 3, 4, 5, k as u8]));
                    fresh.push(i);
                }
                fresh.sort();
                fresh.dedup();
                for f in &fresh {
                    ensure!(t.contains_node(&id(f)), "a node that answered is not taken into the loaded table");
                }
                let target = fill(*seed, 20).try_into().unwrap();
                fresh.sort_by_key(|k| dist(k, &target));
                let got: Vec<_> = t.get_closest_nodes(&id(&target)).unwrap_or_default().iter().map(|n| arr(&n.id)).collect();
                ensure!(got == fresh, "lookups in the loaded table are wrong");
                t.store().await;
                let t2 = RoutingTable::new().await;
                ensure!(t2.own_id() == t.own_id() && t2.count_nodes() == t.count_nodes(), "the table can't be stored again");
                Ok(Obs::new(nt).label(format!("{damage:?}").split('(').next().unwrap()).label_if(!known.is_empty(), "nodes survived"))
            })
        },
    );
}
