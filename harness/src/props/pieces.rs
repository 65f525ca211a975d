use super::gen::*;
use super::swarm::*;
use crate::core::*;
use crate::ensure;
use nargun::verif::peers::connection::connection_handle::Connection;
use nargun::verif::peers::connection::connection_manager::ConMessageType;
use nargun::verif::peers::connection::downloader::BlockAddress;
use nargun::verif::peers::connection::pending_pieces::{AddBlockRes, PendingPieces};
use nargun::verif::peers::peer::Peer;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::mpsc;
use tokio::time::{advance, sleep_until, Instant};

// ---------------------------------------------------------------- C05

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Add(u8),
    /// peer, which pieces it works on
    Take(u8, u16),
    /// the peer's k-th asked block arrives; what is wrong with it
    Arrive(u8, u8, Flaw),
    /// any block of any piece arrives
    Stray(u8, u8, Flaw),
    Cancel(u8),
    Retain(u8),
    Wait(u8),
}

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Flaw {
    No,
    OtherBytes,
    Short,
    Long,
    Empty,
}

#[derive(Debug, Clone, PartialEq)]
enum MBlock {
    Unbegun,
    Pending(u8, Instant),
    Have(Vec<u8>),
}

fn ops() -> impl Strategy<Value = Vec<Op>> {
    let flaw = || {
        prop_oneof![12 => Just(Flaw::No), 2 => Just(Flaw::OtherBytes), 1 => Just(Flaw::Short), 1 => Just(Flaw::Long), 1 => Just(Flaw::Empty)]
    };
    vec(
        prop_oneof![
            3 => (0u8..14).prop_map(Op::Add),
            5 => (0u8..3, prop_oneof![1 => any::<u16>(), 2 => Just(u16::MAX)]).prop_map(|(p, m)| Op::Take(p, m)),
            9 => (0u8..3, any::<u8>(), flaw()).prop_map(|(p, k, f)| Op::Arrive(p, k, f)),
            2 => (0u8..14, 0u8..5, flaw()).prop_map(|(p, k, f)| Op::Stray(p, k, f)),
            1 => (0u8..3).prop_map(Op::Cancel),
            2 => (0u8..3).prop_map(Op::Retain),
            3 => prop_oneof![2 => 0u8..4, 1 => 10u8..30].prop_map(Op::Wait),
        ],
        1..90,
    )
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Assembly {
    g: Geometry,
    /// as many more pieces, before these
    #[serde(default)]
    skip: u32,
    slots: usize,
    ops: Vec<Op>,
}

pub fn assembly(ctx: &mut Ctx) {
    ctx.assume("time is the virtual clock of the runtime; the request timeout is taken to be 7 s, longer, up to 67 s, for peers whose requests expired since a block came from them, waits keep off the exact boundary");
    let skip = prop_oneof![3 => Just(0u32), 1 => 0u32..300_000, 1 => any::<u32>().prop_map(|x| x >> 1)];
    let s = (geometry(13), skip, 1usize..20, ops()).prop_map(|(g, skip, slots, ops)| Assembly { g, skip, slots, ops });
    ctx.check(
        "model",
        "up to 90 operations of three peers (piece starts, block hand-outs, arriving right, wrong and stray blocks, peers leaving, time) against a reference block table; non-trivial: a piece was finished from blocks of at least two hand-outs",
        Plan::new(10_000, 250_000),
        s,
        |a| paused(assemble(a)),
    );
    strays(ctx);
}

async fn assemble(a: &Assembly) -> TestResult {
    let c = Content::new(&a.g);
    let skip = a.skip as usize;
    let base = PendingPieces::new(c.piece_length, skip * c.piece_length + c.data.len());
    // two at one address, two at one port
    let peers: Vec<Peer> = [[10, 0, 0, 1, 0, 1], [10, 0, 0, 1, 0, 2], [10, 0, 0, 2, 0, 2]].iter().map(|a| Peer::new(sock(a))).collect();
    let mut hands: Vec<(PendingPieces, Vec<BlockAddress>)> = peers
        .iter()
        .map(|p| {
            let mut h = base.clone();
            h.set_owner_peer(*p);
            (h, Vec::with_capacity(a.slots))
        })
        .collect();
    let mut model: BTreeMap<usize, Vec<MBlock>> = BTreeMap::new();
    let mut handouts: HashMap<usize, u32> = HashMap::new();
    let (mut finished, mut multi, mut reasked, mut dup) = (0, false, false, false);
    let (timeout, patience) = (Duration::from_secs(7), Duration::from_secs(67));
    // whose requests have expired since a block came from them
    let mut late = [false; 3];
    let blen = |i: usize, b: usize| BLOCK.min(c.piece(i).len() - b * BLOCK);

    for op in &a.ops {
        match op {
            Op::Add(i) => {
                let i = *i as usize;
                let r = hands[i % 3].0.add_piece(skip + i);
                let fits = i < c.count() && (model.contains_key(&i) || model.len() < 10);
                ensure!(r.is_ok() == fits, "starting piece {i} of {} with {} under way: {r:?}", c.count(), model.len());
                if fits {
                    model.entry(i).or_insert_with(|| vec![MBlock::Unbegun; c.blocks(i)]);
                }
            }
            Op::Take(p, mask) => {
                let p = *p as usize;
                let pieces: Vec<usize> = (0..14).filter(|i| mask >> i & 1 == 1).collect();
                let (h, buf) = &mut hands[p];
                let before = buf.len();
                let cap = buf.capacity();
                h.take_not_good_blocks(pieces.iter().map(|i| skip + i).collect(), buf);
                ensure!(buf.capacity() == cap, "more blocks than slots");
                let now = Instant::now();
                let new: Vec<(usize, usize)> = buf[before..].iter().map(|b| (b.piece_idx.wrapping_sub(skip), b.block_idx)).collect();
                let mut seen = BTreeSet::new();
                let (mut fresh, mut old) = (0, 0);
                for (k, (i, b)) in new.iter().enumerate() {
                    ensure!(seen.insert((*i, *b)), "block {b} of piece {i} handed out twice");
                    ensure!(pieces.contains(i), "block of piece {i}, which the peer does not work on");
                    let l = buf[before + k].length;
                    let Some(m) = model.get(i).and_then(|p| p.get(*b)) else {
                        return Err(format!("block {b} of piece {i} does not exist"));
                    };
                    ensure!(l == blen(*i, *b), "block {b} of piece {i} asked with length {l}");
                    match m {
                        MBlock::Unbegun => fresh += 1,
                        MBlock::Pending(_, t) if now - *t > timeout => old += 1,
                        m => return Err(format!("block {b} of piece {i} handed out although {m:?}")),
                    }
                }
                let count = |f: &dyn Fn(&MBlock) -> bool| {
                    model.iter().filter(|(i, _)| pieces.contains(i)).flat_map(|(_, p)| p).filter(|m| f(m)).count()
                };
                let free = cap - before;
                let unbegun = count(&|m| *m == MBlock::Unbegun);
                let expired = count(&|m| matches!(m, MBlock::Pending(_, t) if now - *t > timeout));
                // one that let requests expire may have to leave them to the others for a while
                let must = if late[p] { count(&|m| matches!(m, MBlock::Pending(_, t) if now - *t > patience)) } else { expired };
                ensure!(fresh == unbegun.min(free), "{fresh} of {unbegun} untouched blocks handed out, {free} slots");
                ensure!((must.min(free - fresh)..=expired).contains(&old), "{old} of {must} to {expired} overdue blocks handed out, {free} slots, {fresh} fresh");
                reasked |= old > 0;
                for (i, b) in new {
                    model.get_mut(&i).unwrap()[b] = MBlock::Pending(p as u8, now);
                    *handouts.entry(i).or_default() |= 1 << (p + if old > 0 { 3 } else { 0 });
                }
            }
            Op::Arrive(..) | Op::Stray(..) => {
                let (p, i, b, flaw) = match op {
                    Op::Arrive(p, k, flaw) => {
                        let p = *p as usize;
                        let buf = &mut hands[p].1;
                        if buf.is_empty() {
                            continue;
                        }
                        let at = *k as usize % buf.len();
                        let x = buf.remove(at);
                        (p, x.piece_idx - skip, x.block_idx, *flaw)
                    }
                    Op::Stray(i, b, flaw) => (*i as usize % 3, *i as usize, *b as usize, *flaw),
                    _ => unreachable!(),
                };
                let exists = i < c.count() && b < c.blocks(i);
                let mut data = if exists { c.piece(i)[b * BLOCK..b * BLOCK + blen(i, b)].to_vec() } else { vec![1; BLOCK] };
                match flaw {
                    Flaw::No => {}
                    Flaw::OtherBytes => data.iter_mut().for_each(|x| *x ^= 0x5a),
                    Flaw::Short => {
                        data.pop();
                    }
                    Flaw::Long => data.push(7),
                    Flaw::Empty => data.clear(),
                }
                let fits = exists && model.contains_key(&i) && data.len() == blen(i, b);
                let r = hands[p].0.add_block_data(skip + i, b, data.clone());
                if !fits {
                    ensure!(matches!(r, AddBlockRes::Failed), "block {b} of piece {i} with {} bytes was taken", data.len());
                    continue;
                }
                let m = model.get_mut(&i).unwrap();
                if matches!(m[b], MBlock::Have(_)) {
                    // the first copy stays
                    ensure!(matches!(r, AddBlockRes::Added), "a block that is there already was not just taken note of");
                    dup = true;
                } else {
                    m[b] = MBlock::Have(data);
                    late[p] = false;
                    let all = m.iter().all(|x| matches!(x, MBlock::Have(_)));
                    match r {
                        AddBlockRes::Failed => return Err(format!("block {b} of piece {i} refused")),
                        AddBlockRes::Added => ensure!(!all, "piece {i} is complete but was not finished"),
                        AddBlockRes::AddedLast(f) => {
                            ensure!(all, "piece {i} finished with blocks missing");
                            ensure!(f.idx == skip + i, "piece {i} finished as {}", f.idx);
                            let want: Vec<u8> = m.iter().flat_map(|x| match x { MBlock::Have(d) => d.clone(), _ => vec![] }).collect();
                            ensure!(f.data.concat() == want, "piece {i} finished with other bytes than arrived");
                            finished += 1;
                            multi |= handouts.remove(&i).map(|m| m.count_ones() > 1).unwrap_or(false);
                            model.remove(&i);
                        }
                    }
                }
            }
            Op::Cancel(p) => {
                hands[(*p as usize + 1) % 3].0.cancel_pending(&peers[*p as usize]);
                for m in model.values_mut().flatten() {
                    if matches!(m, MBlock::Pending(q, _) if q == p) {
                        *m = MBlock::Unbegun;
                    }
                }
            }
            Op::Retain(p) => {
                let (h, buf) = &mut hands[*p as usize];
                let key = |b: &BlockAddress| (b.piece_idx - skip, b.block_idx, b.length);
                let now = Instant::now();
                let want: Vec<_> = buf
                    .iter()
                    .map(key)
                    .filter(|(i, b, _)| {
                        matches!(model.get(i).and_then(|m| m.get(*b)), Some(MBlock::Pending(q, t)) if q == p && now - *t <= timeout)
                    })
                    .collect();
                h.retain_blocks_pending_from_owner(buf);
                late[*p as usize] |= model.values().flatten().any(|m| matches!(m, MBlock::Pending(q, t) if q == p && now - *t > timeout));
                let got: Vec<_> = buf.iter().map(key).collect();
                ensure!(got == want, "peer {p} keeps {got:?}, expected {want:?}");
            }
            // 7 s is no multiple
            Op::Wait(n) => advance(Duration::from_millis(*n as u64 * 400)).await,
        }
    }
    Ok(Obs::new(multi).label_if(skip > 0, "pieces before").label_if(finished > 0, "finished a piece").label_if(reasked, "overdue block handed out again").label_if(dup, "block delivered twice"))
}

// ---------------------------------------------------------------- C06, C07, C08

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Scene {
    g: Geometry,
    peers: Vec<Script>,
    /// (ms, peer, piece): handed to a peer; every piece also goes to peer 0 at the given time
    assign: Vec<(u16, u8, u8)>,
    to_first: Vec<u16>,
    /// hashes that no content has, by piece
    wrong_hash: Vec<bool>,
    /// the client drops one of the other peers
    drop: Option<(u16, u8)>,
    /// nobody is to deliver the last piece
    #[serde(default)]
    spare: bool,
}

impl Scene {
    fn assigned(&self, c: &Content) -> usize {
        c.count() - (self.spare && c.count() > 1) as usize
    }
}

fn scene(max_pieces: usize, max_replies: usize) -> impl Strategy<Value = Scene> {
    (
        geometry(max_pieces),
        vec(script(max_replies), 1..4),
        vec((0u16..8000, 0u8..3, 0u8..6), 0..8),
        vec(prop_oneof![3 => 0u16..100, 1 => 0u16..9000], 6),
        prop_oneof![5 => Just(vec![]), 1 => vec(any::<bool>(), 1..6)],
        prop_oneof![3 => Just(None), 1 => (0u16..9000, 1u8..3).prop_map(Some)],
        vec((any::<u8>(), any::<u8>()), 0..2),
    )
        .prop_map(|(g, mut peers, assign, to_first, wrong_hash, drop, closes)| {
            // only the others ever close
            for (p, at) in closes {
                let n = peers.len();
                if n > 1 {
                    let r = &mut peers[1 + p as usize % (n - 1)].replies;
                    let at = at as usize % (r.len() + 1);
                    r.insert(at, Reply::Close);
                }
            }
            Scene { g, peers, assign, to_first, wrong_hash, drop, spare: false }
        })
}

struct Seen {
    log: Vec<Ev>,
    /// (ms, piece, right bytes)
    finished: Vec<(u64, usize, bool)>,
    /// (ms, peer, piece)
    assigned: Vec<(u64, usize, usize)>,
    gone: Vec<(u64, usize)>,
    dropped: Option<(u64, usize)>,
    end: u64,
}

const GIVE_UP: u64 = 1_200_000;

async fn play(s: &Scene, c: &Arc<Content>) -> Result<Seen, String> {
    fine_clock();
    let log = Log::new();
    let (dht_tx, _dht_rx) = mpsc::channel(64);
    let mut con = Connection::new(id(&[7; 20]), id(&c.info_hash), c.piece_length, c.data.len(), dht_tx);
    let mut who = vec![];
    for (k, script) in s.peers.iter().enumerate() {
        let (l, a) = bind().await;
        tokio::spawn(serve(k, l, c.clone(), script.clone(), log.clone()));
        who.push(Peer::new(a));
        con.connect(Peer::new(a));
    }
    let n = s.assigned(c);
    let wrong = |i: usize| s.wrong_hash.get(i).copied().unwrap_or(false);
    let mut todo: Vec<(u64, usize, usize)> = vec![];
    for (ms, p, i) in &s.assign {
        todo.push((*ms as u64, *p as usize % who.len(), *i as usize % n));
    }
    for i in 0..n {
        todo.push((s.to_first[i % s.to_first.len()] as u64, 0, i));
    }
    todo.sort();
    todo.dedup_by_key(|t| (t.1, t.2));
    let drop_at = s.drop.and_then(|(ms, p)| ((p as usize) < who.len()).then_some((ms as u64, p as usize)));
    let mut seen = Seen { log: vec![], finished: vec![], assigned: vec![], gone: vec![], dropped: None, end: 0 };
    let mut next = 0;
    let stop = |seen: &Seen, next: usize, todo: &Vec<_>| {
        next == todo.len() && (0..n).all(|i| wrong(i) || seen.finished.iter().any(|f| f.1 == i))
    };
    let mut grace: Option<u64> = None;
    loop {
        let now = log.now();
        if grace.is_none() && stop(&seen, next, &todo) {
            // and some time to do what should not be done
            grace = Some(now + 9_000);
        }
        let mut until = grace.unwrap_or(GIVE_UP);
        if now >= until {
            break;
        }
        if next < todo.len() {
            until = until.min(todo[next].0);
        }
        if let (Some((ms, _)), None) = (drop_at, seen.dropped) {
            until = until.min(ms);
        }
        tokio::select! {
            m = con.recv() => {
                let t = log.now();
                let k = who.iter().position(|w| *w == m.peer).unwrap();
                match m.message {
                    ConMessageType::FinishedPiece(f) => {
                        let good = f.idx < c.count() && f.data.concat() == c.piece(f.idx);
                        seen.finished.push((t, f.idx, good));
                    }
                    ConMessageType::Disconnected | ConMessageType::Unreachable => seen.gone.push((t, k)),
                    _ => {}
                }
            }
            _ = sleep_until(log.start + Duration::from_millis(until)) => {
                let t = log.now();
                while next < todo.len() && todo[next].0 <= t {
                    let (_, p, i) = todo[next];
                    next += 1;
                    let done = seen.finished.iter().any(|f| f.1 == i);
                    if done { continue; }
                    let h = if wrong(i) { [9; 20] } else { c.hash(i) };
                    if con.download_piece(who[p], i, id(&h)).await.is_ok() {
                        seen.assigned.push((t, p, i));
                    }
                }
                if let (Some((ms, p)), None) = (drop_at, seen.dropped) {
                    if t >= ms {
                        con.disconnect(&who[p]);
                        seen.dropped = Some((t, p));
                    }
                }
            }
        }
    }
    seen.end = log.now();
    seen.log = log.all();
    Ok(seen)
}

fn trouble(s: &Scene) -> usize {
    s.peers.iter().flat_map(|p| &p.replies).filter(|r| **r != Reply::Good).count()
}

fn verified(s: &Scene, c: &Content, seen: &Seen) -> TestResult {
    let mut done = BTreeSet::new();
    for (t, i, good) in &seen.finished {
        ensure!(*good, "piece {i} was handed on at {t} ms with bytes that don't match");
        ensure!(!s.wrong_hash.get(*i).copied().unwrap_or(false), "piece {i} was handed on although its hash does not match");
        ensure!(done.insert(*i), "piece {i} was handed on twice");
        ensure!(seen.assigned.iter().any(|(at, _, p)| p == i && at <= t), "piece {i} was not asked for");
    }
    for i in 0..s.assigned(c) {
        let wrong = s.wrong_hash.get(i).copied().unwrap_or(false);
        ensure!(wrong || done.contains(&i), "piece {i} was not finished in {} s although a peer kept giving it", seen.end / 1000);
    }
    let bad = seen.log.iter().any(|e| matches!(e.what, What::Answered { good: false, .. }));
    Ok(Obs::new(bad && !done.is_empty())
        .label_if(!seen.gone.is_empty(), "a peer left")
        .label_if(seen.dropped.is_some(), "a peer was dropped")
        .label_if(!s.wrong_hash.is_empty(), "unsatisfiable hash"))
}

fn disciplined(s: &Scene, c: &Content, seen: &Seen) -> TestResult {
    // per block: when and of whom it was asked
    let mut asked: HashMap<(u32, u32), Vec<(u64, usize)>> = HashMap::new();
    let mut open: Vec<Vec<(u64, u32, u32)>> = vec![vec![]; s.peers.len()];
    let mut answered: Vec<(u64, usize, u32, u32)> = vec![];
    let mut closed: Vec<(u64, usize)> = vec![];
    let (mut requests, mut most) = (0, 0);
    for e in &seen.log {
        match &e.what {
            What::Requested { index, begin, length } => {
                requests += 1;
                let (i, b) = (*index as usize, *begin as usize);
                ensure!(i < c.count(), "asked for piece {i} of {}", c.count());
                ensure!(
                    b % BLOCK == 0 && b < c.piece(i).len(),
                    "asked for offset {b} of piece {i}, which has {} bytes", c.piece(i).len()
                );
                ensure!(
                    *length as usize == BLOCK.min(c.piece(i).len() - b),
                    "asked for {length} bytes at {b} of piece {i}, which has {} bytes", c.piece(i).len()
                );
                ensure!(
                    seen.assigned.iter().any(|(t, p, x)| *p == e.peer && *x == i && *t <= e.t),
                    "peer {} was asked for piece {i}, which it was not to deliver", e.peer
                );
                ensure!(
                    !seen.finished.iter().any(|(t, x, _)| *x == i && *t + 100 < e.t),
                    "piece {i} was asked for at {} ms although finished", e.t
                );
                let mut answers = answered.iter().filter(|(_, _, x, y)| x == index && y == begin).count();
                for (t, p) in asked.get(&(*index, *begin)).into_iter().flatten() {
                    let over = e.t - t >= 6_900
                        || closed.iter().any(|(at, q)| q == p && at >= t)
                        || seen.dropped.map(|(_, q)| q == *p).unwrap_or(false);
                    ensure!(
                        over || answers > 0,
                        "offset {b} of piece {i} was asked of peer {p} at {t} ms and of peer {} at {} ms", e.peer, e.t
                    );
                    if !over {
                        answers -= 1;
                    }
                }
                asked.entry((*index, *begin)).or_default().push((e.t, e.peer));
                let o = &mut open[e.peer];
                o.retain(|(t, _, _)| e.t - t < 6_900);
                o.push((e.t, *index, *begin));
                most = most.max(o.len());
                ensure!(o.len() <= 16, "{} requests at once to peer {}", o.len(), e.peer);
            }
            What::Answered { index, begin, .. } => {
                answered.push((e.t, e.peer, *index, *begin));
                let o = &mut open[e.peer];
                if let Some(k) = o.iter().position(|(_, i, b)| i == index && b == begin) {
                    o.remove(k);
                }
            }
            What::Eof | What::Closed => {
                closed.push((e.t, e.peer));
                open[e.peer].clear();
            }
            What::BadFrame(f) => return Err(format!("peer {} received a frame that is no message: {:?}", e.peer, &f[..f.len().min(20)])),
            What::BadHandshake(_) => return Err("bad handshake".into()),
            _ => {}
        }
    }
    Ok(Obs::new(requests > 3 && trouble(s) > 0)
        .label_if(most >= 10, "10 requests at once")
        .label_if(asked.values().any(|v| v.len() > 1), "a block was asked for again")
        .label_if(asked.values().any(|v| v.iter().any(|x| x.1 != v[0].1)), "of another peer"))
}

fn chokes_respected(s: &Scene, _c: &Content, seen: &Seen) -> TestResult {
    let n = s.peers.len();
    let mut choking = vec![Some(0u64); n]; // since when
    let (mut during, mut after) = (false, false);
    for e in &seen.log {
        match &e.what {
            What::Connected => choking[e.peer] = Some(e.t),
            What::Choked => {
                during = true;
                choking[e.peer].get_or_insert(e.t);
            }
            What::Unchoked => choking[e.peer] = None,
            What::Requested { index, begin, .. } => {
                after |= during && choking[e.peer].is_none();
                if let Some(t) = choking[e.peer] {
                    let started = !seen.log.iter().any(|x| x.peer == e.peer && x.what == What::Unchoked && x.t <= t);
                    // what crossed the choke on the way is no fault
                    ensure!(
                        e.t <= t + 100 && !started,
                        "peer {} chokes since {t} ms and was asked for offset {begin} of piece {index} at {} ms", e.peer, e.t
                    );
                }
            }
            _ => {}
        }
    }
    // being unchoked again is noticed
    let done: BTreeSet<usize> = seen.finished.iter().map(|f| f.1).collect();
    let wrong = |i: usize| s.wrong_hash.get(i).copied().unwrap_or(false);
    for i in (0.._c.count()).filter(|i| !wrong(*i)) {
        ensure!(done.contains(&i), "piece {i} was not finished in {} s although its peer unchoked", seen.end / 1000);
    }
    Ok(Obs::new(during && after).label_if(!seen.gone.is_empty(), "a peer left"))
}

/// Blocks at places nobody was asked for leave no trace.
fn undisturbed(s: &Scene, c: &Content, seen: &Seen) -> TestResult {
    verified(s, c, seen)?;
    disciplined(s, c, seen)?;
    ensure!(seen.gone.is_empty(), "a peer was given up: {:?}", seen.gone);
    let mut asked: BTreeMap<(u32, u32), usize> = BTreeMap::new();
    let mut strays = 0;
    for e in &seen.log {
        match e.what {
            What::Requested { index, begin, .. } => *asked.entry((index, begin)).or_default() += 1,
            What::Other(7) => strays += 1,
            _ => {}
        }
    }
    let all: BTreeMap<(u32, u32), usize> =
        (0..s.assigned(c)).flat_map(|i| (0..c.blocks(i)).map(move |b| ((i as u32, (b * BLOCK) as u32), 1))).collect();
    ensure!(asked == all, "blocks were asked for {asked:?} times");
    Ok(Obs::new(strays > 0).label_if(strays > 10, "more than ten strays").label_if(s.peers.len() > 1, "several peers"))
}

pub fn strays(ctx: &mut Ctx) {
    ctx.assume("strays: sockets are loopback, timers are virtual");
    let peer = (300u16..600, vec(prop_oneof![1 => Just(Reply::Good), 1 => (1u16..300).prop_map(Reply::Late), 5 => any::<u16>().prop_map(Reply::Strays)], 0..20)).prop_map(|(unchoke_after, replies)| Script {
        unchoke_after,
        wants_interest: false,
        chokes: vec![],
        replies,
        says: vec![],
        rest: None,
        sessions: None,
        stern: false,
    });
    let s = (geometry(6), vec(peer, 1..4), vec((0u16..100, 0u8..3, 0u8..6), 0..12), vec(0u16..100, 6))
        .prop_map(|(g, peers, assign, to_first)| Scene { g, peers, assign, to_first, wrong_hash: vec![], drop: None, spare: true });
    ctx.check(
        "strays",
        "one to three connected peers that answer every request, but also send blocks of other bytes: off the block boundaries, beyond the piece or the torrent, of a piece nobody is to deliver, of blocks asked of others or answered already; each block is asked for once and each piece finished once, right; non-trivial: there were such blocks",
        Plan::new(400, 8_000).timing(),
        s,
        |s| run(s, undisturbed),
    );
}

type Judge = fn(&Scene, &Content, &Seen) -> TestResult;

fn run(s: &Scene, judge: Judge) -> TestResult {
    let c = Arc::new(Content::new(&s.g));
    paused(async {
        let seen = play(s, &c).await?;
        if std::env::var("VERIF_DUMP").is_ok() {
            for e in &seen.log {
                eprintln!("{:6} {} {:?}", e.t, e.peer, e.what);
            }
            eprintln!("assigned {:?}\nfinished {:?}", seen.assigned, seen.finished);
        }
        judge(s, &c, &seen)
    })
}

const RULE: &str = "one to three scripted peers on loopback (late, lost, corrupt, doubled, resized, misplaced and unasked blocks, chokes, closes), pieces handed to them at generated times, under a virtual clock";

pub fn integrity(ctx: &mut Ctx) {
    ctx.assume("sockets are loopback, timers are virtual; the first peer answers everything properly after a finite script");
    ctx.check(
        "pieces",
        &format!("{RULE}; non-trivial: wrong blocks arrived and a piece was finished"),
        Plan::new(700, 12_000).timing(),
        scene(4, 12),
        |s| run(s, verified),
    );
}

pub fn requests(ctx: &mut Ctx) {
    ctx.assume("sockets are loopback, timers are virtual");
    ctx.check(
        "requests",
        &format!("{RULE}; non-trivial: more than three requests and a peer that misbehaves"),
        Plan::new(600, 10_000).timing(),
        (scene(6, 8), prop_oneof![2 => Just(None), 1 => (5usize..20, 0usize..BLOCK, 1usize..4).prop_map(Some)]).prop_map(|(mut s, long)| {
            s.wrong_hash.clear();
            // pieces with more blocks than a peer is asked for at once
            if let Some((blocks, cut, n)) = long {
                s.g.piece_length = blocks * BLOCK;
                s.g.total = n * s.g.piece_length - cut;
            }
            s
        }),
        |s| run(s, disciplined),
    );
}

pub fn choking(ctx: &mut Ctx) {
    ctx.assume("sockets are loopback, timers are virtual");
    let s = (scene(4, 5), vec((0u16..3000, 1u16..12000), 1..4), vec(1u16..9000, 0..3)).prop_map(|(mut s, more, mid)| {
        s.peers[0].chokes.extend(more.into_iter().map(|(a, d)| (a, a.saturating_add(d))));
        s.peers[0].replies.extend(mid.into_iter().map(Reply::ChokeFor));
        s
    });
    ctx.check(
        "chokes",
        &format!("{RULE}, with chokes between and in place of answers; non-trivial: requests followed an unchoke after a choke"),
        Plan::new(600, 10_000).timing(),
        s,
        |s| run(s, chokes_respected),
    );
}
