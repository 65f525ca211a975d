//! C19 (what peers have decides what they're asked for), C20 (the download completes).
//! The whole client against scripted peers: candidates, connections, assignment, assembly, storage.
use super::gen::*;
use super::swarm::*;
use crate::core::*;
use crate::ensure;
use nargun::verif::peers::active_peers::Peers;
use nargun::verif::peers::peer::Peer;
use nargun::verif::torrent_manager::TorrentManager;
use nargun::verif::transcoding::metainfo::{File, Info, Mode, Torrent};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::net::SocketAddrV4;
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::AsyncReadExt;
use tokio::sync::mpsc;
use tokio::time::sleep;

/// Some of the pieces.
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub(super) enum Some_ {
    All,
    Nothing,
    Every(u8, u8),
    Below(u8),
    From(u8),
    Mask(u32),
}

impl Some_ {
    fn has(&self, i: usize) -> bool {
        match self {
            Some_::All => true,
            Some_::Nothing => false,
            Some_::Every(m, r) => i % (*m as usize).max(1) == *r as usize % (*m as usize).max(1),
            Some_::Below(n) => i < *n as usize,
            Some_::From(n) => i >= *n as usize,
            Some_::Mask(m) => m >> (i % 32) & 1 == 1,
        }
    }
}

fn some() -> impl Strategy<Value = Some_> {
    prop_oneof![
        3 => Just(Some_::All),
        1 => Just(Some_::Nothing),
        2 => (2u8..4, any::<u8>()).prop_map(|(m, r)| Some_::Every(m, r)),
        2 => (0u8..24).prop_map(Some_::Below),
        2 => (0u8..24).prop_map(Some_::From),
        1 => any::<u32>().prop_map(Some_::Mask),
    ]
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub(super) enum Tell {
    Field(Some_),
    /// one Have per piece
    Haves(Some_),
    /// of a piece beyond the last by so many
    BadHave(u32),
    /// a bitfield that is too long or too short by so many bytes
    BadField(Some_, i8),
    /// a bitfield with bits set after the last piece
    Spare(Some_),
    Request(u32, u32, u32),
    Cancel(u32, u32, u32),
    Port(u16),
    /// so many, one after another
    Ports(u16, u16),
    Interest(bool),
    Choke(bool),
    Odd(u8, Vec<u8>),
    KeepAlive,
    /// over and over
    Often(u32, Box<Tell>),
}

impl Tell {
    fn once(&self) -> &Tell {
        match self {
            Tell::Often(_, t) => t.once(),
            t => t,
        }
    }
    pub(super) fn ports(&self) -> Vec<u16> {
        match self.once() {
            Tell::Port(p) => vec![*p],
            Tell::Ports(p, n) => (0..*n).map(|k| p.wrapping_add(k)).collect(),
            _ => vec![],
        }
    }
}

fn any_u32() -> impl Strategy<Value = u32> {
    prop_oneof![2 => 0u32..30, 1 => any::<u32>(), 1 => proptest::sample::select(vec![u32::MAX, 1 << 31, 1 << 14])]
}

fn noise() -> impl Strategy<Value = Tell> {
    prop_oneof![
        2 => any_u32().prop_map(Tell::BadHave),
        2 => (some(), prop_oneof![-3i8..0, 1i8..4]).prop_map(|(s, d)| Tell::BadField(s, d)),
        2 => some().prop_map(Tell::Spare),
        1 => some().prop_map(Tell::Field),
        1 => some().prop_map(Tell::Haves),
        2 => (any_u32(), any_u32(), any_u32()).prop_map(|(a, b, c)| Tell::Request(a, b, c)),
        1 => (any_u32(), any_u32(), any_u32()).prop_map(|(a, b, c)| Tell::Cancel(a, b, c)),
        1 => prop_oneof![3 => any::<u16>().prop_map(Tell::Port), 1 => (any::<u16>(), 20u16..300).prop_map(|(p, n)| Tell::Ports(p, n))],
        1 => any::<bool>().prop_map(Tell::Interest),
        2 => (any::<u8>(), vec(any::<u8>(), 0..20)).prop_map(|(i, b)| if i == 7 { Tell::KeepAlive } else { Tell::Odd(i, b) }),
    ]
}

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub(super) enum Kind {
    Good,
    /// takes requests and meets this many of them like this
    Bad(Reply, u8),
    /// meets all requests like this
    Hog(Reply),
    /// serves so many connections, and is gone
    Leaves(u8),
    /// says what it has and chokes for ever; it may unchoke for a moment first, when it has said nothing yet
    Chokes(bool),
    /// takes connections and never says anything
    Mute,
    /// nobody listens
    Refuses,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub(super) struct Mate {
    pub(super) kind: Kind,
    /// ms at which the client learns of it
    pub(super) joins: u16,
    pub(super) tells: Vec<(u16, Tell)>,
    pub(super) script: Script,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    g: Geometry,
    /// lengths of files, as parts; none: a single file
    files: Vec<u16>,
    mates: Vec<Mate>,
    /// a file that cannot be written until then (ms)
    #[serde(default)]
    blocked: Option<(u8, u16)>,
}

impl Mate {
    pub(super) fn frames(&self, n: usize) -> Vec<(u16, Vec<u8>)> {
        let mut out: Vec<(u16, Vec<u8>)> = vec![];
        for (t, tell) in &self.tells {
            match tell.once() {
                Tell::Field(s) => out.push((*t, bitfield(n, |i| s.has(i)))),
                Tell::Haves(s) => {
                    // in one write
                    let f: Vec<u8> = (0..n as u32).filter(|i| s.has(*i as usize)).flat_map(|i| frame(4, &i.to_be_bytes())).collect();
                    out.push((*t, f));
                }
                Tell::BadHave(i) => out.push((*t, frame(4, &(n as u32).saturating_add(*i).to_be_bytes()))),
                Tell::BadField(s, d) => {
                    let len = (n + 7) / 8;
                    let to = (len as i64 + *d as i64).max(0) as usize;
                    let mut b = bitfield(n, |i| s.has(i))[5..].to_vec();
                    b.resize(to, 0);
                    out.push((*t, frame(5, &b)));
                }
                Tell::Spare(s) => out.push((*t, bitfield((n + 7) / 8 * 8, |i| i >= n || s.has(i)))),
                Tell::Request(a, b, c) => out.push((*t, frame(6, &[a.to_be_bytes(), b.to_be_bytes(), c.to_be_bytes()].concat()))),
                Tell::Cancel(a, b, c) => out.push((*t, frame(8, &[a.to_be_bytes(), b.to_be_bytes(), c.to_be_bytes()].concat()))),
                Tell::Port(_) | Tell::Ports(..) => out.push((*t, tell.ports().iter().flat_map(|p| frame(9, &p.to_be_bytes())).collect())),
                Tell::Interest(y) => out.push((*t, frame(if *y { 2 } else { 3 }, &[]))),
                Tell::Choke(y) => out.push((*t, frame(if *y { 0 } else { 1 }, &[]))),
                // messages that are none: an unknown id, or a known one with a body that cannot be its
                Tell::Odd(i, b) => out.push((
                    *t,
                    match i % 10 {
                        4 | 9 | 6 | 8 => frame(i % 10, &b[..b.len() % 2]),
                        _ => frame(10 + i % 240, b),
                    },
                )),
                Tell::KeepAlive => out.push((*t, vec![0; 4])),
                Tell::Often(..) => unreachable!(),
            }
            if let Tell::Often(times, _) = tell {
                let f = &mut out.last_mut().unwrap().1;
                // a megabyte is enough
                *f = f.repeat((*times as usize).min((1 << 20) / f.len().max(1)));
            }
        }
        out
    }
    /// Begins to serve, or not.
    pub(super) fn put_up(&self, k: usize, l: tokio::net::TcpListener, says: Vec<(u16, Vec<u8>)>, c: &Arc<Content>, log: &Log) {
        match self.kind {
            Kind::Refuses => drop(l),
            Kind::Mute => {
                tokio::spawn(async move {
                    let mut held = vec![];
                    while let Ok((mut s, _)) = l.accept().await {
                        held.push(tokio::spawn(async move {
                            let mut b = [0; 512];
                            while s.read(&mut b).await.map(|n| n > 0).unwrap_or(false) {}
                        }));
                    }
                });
            }
            _ => {
                let mut script = self.script.clone();
                script.says = says;
                match self.kind {
                    Kind::Leaves(k) => script.sessions = Some(k),
                    _ => {}
                }
                tokio::spawn(serve(k, l, c.clone(), script, log.clone()));
            }
        }
    }
    /// (which pieces it may be asked for after its n-th word, which ones it surely has)
    fn words(&self, n: usize) -> Vec<(Vec<bool>, Vec<bool>)> {
        let mut order: Vec<usize> = (0..self.tells.len()).collect();
        order.sort_by_key(|k| self.tells[*k].0);
        let (mut may, mut sure) = (vec![false; n], vec![false; n]);
        let mut field_counts = true;
        let mut out = vec![(vec![], vec![]); self.tells.len()];
        for k in order {
            match self.tells[k].1.once() {
                Tell::Field(s) => {
                    for i in (0..n).filter(|i| s.has(*i)) {
                        may[i] = true;
                        if field_counts {
                            sure[i] = true;
                        }
                    }
                    field_counts &= !may.contains(&true);
                }
                Tell::Haves(s) => {
                    for i in (0..n).filter(|i| s.has(*i)) {
                        (may[i], sure[i]) = (true, true);
                        field_counts = false;
                    }
                }
                Tell::Spare(s) if n % 8 != 0 || (0..n).any(|i| s.has(i)) => {
                    (0..n).filter(|i| s.has(*i)).for_each(|i| may[i] = true);
                    field_counts = false;
                }
                _ => {}
            }
            out[k] = (may.clone(), sure.clone());
        }
        out
    }
    fn closes(&self) -> u64 {
        self.script.replies.iter().filter(|r| matches!(r, Reply::Close)).count() as u64
    }
    /// how long its faults may delay the others, in ms
    pub(super) fn delay(&self) -> u64 {
        let s = &self.script;
        let again: u64 = s.chokes.iter().map(|(a, b)| (b - a) as u64).sum::<u64>()
            + s.unchoke_after as u64
            + self.tells.iter().map(|t| t.0 as u64).max().unwrap_or(0)
            + 3_000;
        // each time in a row that it lets requests expire, it waits longer before it asks for them again
        let mut wait = 9_000;
        let replies: u64 = s
            .replies
            .iter()
            .map(|r| {
                wait += if self.kind == Kind::Good { 3_000 } else { 0 };
                match r {
                    Reply::Good | Reply::Twice => 0,
                    Reply::Late(m) if *m < 6_000 => *m as u64,
                    Reply::Late(m) | Reply::ChokeFor(m) => *m as u64 + wait,
                    _ => wait,
                }
            })
            .sum();
        replies + again * (self.closes() + 1) + self.joins as u64
    }
}

pub(super) struct Disk {
    pub(super) base: PathBuf,
    pub(super) files: Vec<(PathBuf, usize, usize)>,
}

impl Disk {
    fn torrent(&self, c: &Content) -> Torrent {
        let mode = match &self.files[..] {
            [(p, _, l)] if p.parent() == Some(&self.base) => Mode::Single { length: *l as u64 },
            fs => Mode::Multi {
                files: fs
                    .iter()
                    .map(|(p, _, l)| File { path: vec![p.file_name().unwrap().to_str().unwrap().into()], length: *l as u64 })
                    .collect(),
            },
        };
        Torrent {
            info: Info {
                name: "a torrent".into(),
                piece_length: c.piece_length as u64,
                pieces: (0..c.count()).map(|i| id(&c.hash(i))).collect(),
                mode,
            },
            info_hash: id(&c.info_hash),
            announce: Default::default(),
        }
    }
    pub(super) fn single(&self) -> bool {
        self.files.len() == 1 && self.files[0].0.parent() == Some(&self.base)
    }
    pub(super) fn new(base: PathBuf, parts: &[u16], c: &Content) -> Self {
        let root = base.join("a torrent");
        if parts.is_empty() {
            return Disk { base, files: vec![(root, 0, c.data.len())] };
        }
        let total: u64 = parts.iter().map(|w| *w as u64 + 1).sum();
        let mut files = vec![];
        let (mut at, mut sum) = (0, 0u64);
        for (k, w) in parts.iter().enumerate() {
            sum += *w as u64 + 1;
            let end = (c.data.len() as u64 * sum / total) as usize;
            files.push((root.join(format!("file {k}")), at, end - at));
            at = end;
        }
        Disk { base, files }
    }
    /// Which pieces are there; nothing that is not the torrent's may be.
    pub(super) fn stored(&self, c: &Content) -> Result<Vec<bool>, String> {
        let mut there = vec![0u8; c.data.len()];
        let mut length = 0;
        for (p, start, len) in &self.files {
            let got = std::fs::read(p).unwrap_or_default();
            ensure!(got.len() <= *len, "{p:?} has {} bytes of {len}", got.len());
            length += got.len();
            there[*start..*start + got.len()].copy_from_slice(&got);
        }
        for (i, (x, want)) in there.iter().zip(&c.data).enumerate() {
            ensure!(*x == 0 || x == want, "byte {i} on the disk is {x}, not {want}: piece {}", i / c.piece_length);
        }
        Ok((0..c.count())
            .map(|i| {
                let a = i * c.piece_length;
                length > 0 && there[a..a + c.piece(i).len()] == *c.piece(i)
            })
            .collect())
    }
}

struct Seen {
    log: Vec<Ev>,
    stored: Vec<u64>,
    dht: Vec<SocketAddrV4>,
    addrs: Vec<SocketAddrV4>,
    end: u64,
}

/// (when a good peer told of each piece, how long all faults together may delay it)
fn expected(case: &Case, n: usize) -> (Vec<Option<u64>>, u64) {
    let mut avail = vec![None; n];
    for m in case.mates.iter().filter(|m| m.kind == Kind::Good) {
        let words = m.words(n);
        for (k, (_, sure)) in words.iter().enumerate() {
            let t = m.joins as u64 + m.tells[k].0 as u64;
            for i in (0..n).filter(|i| sure[*i]) {
                avail[i] = Some(avail[i].map(|x: u64| x.min(t)).unwrap_or(t));
            }
        }
    }
    let delay = case.mates.iter().map(|m| m.delay()).sum::<u64>()
        + 2_000 * n as u64
        + 60_000
        // pieces are taken from one that holds them up to the next
        + case.mates.iter().filter(|m| matches!(m.kind, Kind::Hog(_))).count() as u64 * 12_000 * n as u64
        + case.blocked.map(|b| b.1 as u64 + 20_000).unwrap_or(0);
    (avail, delay)
}

async fn play(case: &Case, c: &Arc<Content>, disk: &Disk) -> Result<Seen, String> {
    fine_clock();
    let n = c.count();
    let (avail, delay) = expected(case, n);
    std::env::set_var("NARGUN_VERIF_BASE_DIR", &disk.base);
    let log = Log::new();
    let (dht_tx, mut dht_rx) = mpsc::channel(32);
    let mut peers = Peers::new(&id(&c.info_hash));
    let mut todo: Vec<(u64, SocketAddrV4)> = vec![];
    let mut addrs = vec![];
    for (k, m) in case.mates.iter().enumerate() {
        let (l, a) = bind().await;
        addrs.push(a);
        todo.push((m.joins as u64, a));
        m.put_up(k, l, m.frames(n), c, &log);
    }
    // opening a directory for writing fails
    let mut block = None;
    if let Some((k, until)) = case.blocked {
        let some: Vec<_> = disk.files.iter().filter(|f| f.2 > 0).collect();
        let p = some[k as usize % some.len()].0.clone();
        std::fs::create_dir_all(&p).map_err(|e| format!("harness: {p:?}: {e}"))?;
        block = Some((p, until as u64));
    }
    TorrentManager::spawn(disk.torrent(c), id(&[7; 20]), peers.clone(), dht_tx);
    let mut stored: Vec<Option<u64>> = vec![None; n];
    let dht = Arc::new(Mutex::new(vec![]));
    let told = dht.clone();
    let drain = tokio::spawn(async move {
        while let Some(a) = dht_rx.recv().await {
            told.lock().unwrap().push(a);
        }
    });
    let mut until = None;
    loop {
        let now = log.now();
        if let Some((p, t)) = &block {
            if now >= *t {
                std::fs::remove_dir(p).map_err(|e| format!("harness: {p:?}: {e}"))?;
                block = None;
            }
        }
        todo.retain(|(t, a)| {
            if *t <= now {
                peers.extend([Peer::new(*a)].iter());
            }
            *t > now
        });
        let there = disk.stored(c)?;
        for i in 0..n {
            if there[i] {
                stored[i].get_or_insert(now);
            } else {
                ensure!(stored[i].is_none(), "piece {i} was on the disk and is not any more");
                if let Some(t) = avail[i] {
                    if now > t + delay && std::env::var("VERIF_DUMP").is_ok() {
                        log.all().iter().for_each(|e| eprintln!("{e:?}"));
                    }
                    ensure!(now <= t + delay, "piece {i} is still missing at {now} ms; a good peer has it since {t} ms");
                }
            }
        }
        if stored.iter().enumerate().all(|(i, s)| s.is_some() || avail[i].is_none()) {
            let u = *until.get_or_insert(now + 14_000);
            if now >= u {
                break;
            }
        }
        sleep(Duration::from_millis(500)).await;
    }
    // what nobody good has may have come from others
    let stored = stored.into_iter().map(|s| s.unwrap_or(u64::MAX)).collect();
    drain.abort();
    let dht = std::mem::take(&mut *dht.lock().unwrap());
    Ok(Seen { log: log.all(), stored, dht, addrs, end: log.now() })
}

/// The record against what was said.
fn judge(case: &Case, c: &Content, seen: &Seen) -> Result<(), String> {
    let n = c.count();
    for (k, m) in case.mates.iter().enumerate() {
        let words = m.words(n);
        let mut may = vec![false; n];
        // when the peer first had something that was missing
        let mut wanted: Option<u64> = None;
        let mut told: Option<u64> = None;
        let mut ports: Vec<u16> = vec![];
        let mut open = false;
        let overdue = |wanted: Option<u64>, told: Option<u64>, t: u64| -> Result<(), String> {
            if let Some(w) = wanted {
                ensure!(told.is_some() || t < w + 1_500, "peer {k} has had what is missing since {w} ms and was not told at {t} ms that the client is interested");
            }
            Ok(())
        };
        for e in seen.log.iter().filter(|e| e.peer == k) {
            match &e.what {
                What::Connected => {
                    may = vec![false; n];
                    (wanted, told, open) = (None, None, true);
                }
                What::Eof | What::Closed => {
                    if open {
                        overdue(wanted, told, e.t)?;
                    }
                    open = false;
                }
                What::Said(w) => {
                    if e.t + 1_500 < seen.end {
                        ports.extend(m.tells[*w].1.ports());
                    }
                    let w = &words[*w];
                    may = w.0.clone();
                    // what is being stored just now may be missing or not
                    if wanted.is_none() && (0..n).any(|i| w.1[i] && seen.stored[i] > e.t + 1_000) {
                        wanted = Some(e.t);
                    }
                }
                What::Interested => {
                    ensure!(may.contains(&true), "interested in peer {k} at {} ms, which has nothing", e.t);
                    ensure!(
                        (0..n).any(|i| may[i] && seen.stored[i].saturating_add(1_500) >= e.t),
                        "interested in peer {k} at {} ms, which has nothing that is missing", e.t
                    );
                    ensure!(told.is_none(), "told peer {k} twice of the interest");
                    told = Some(e.t);
                }
                What::Requested { index, begin, length } => {
                    ensure!(!matches!(m.kind, Kind::Chokes(_)), "asked peer {k} for piece {index} at {} ms, which it never allowed", e.t);
                    let i = *index as usize;
                    ensure!(i < n, "asked peer {k} for piece {i} of {n}");
                    ensure!(may[i], "asked peer {k} at {} ms for piece {i}, which it did not say it has", e.t);
                    let (b, l) = (*begin as usize, *length as usize);
                    let len = c.piece(i).len();
                    ensure!(b % BLOCK == 0 && b < len && l == BLOCK.min(len - b), "asked for {l} bytes at {b} of piece {i}");
                    ensure!(
                        seen.stored[i] == u64::MAX || e.t <= seen.stored[i] + 10_000,
                        "asked peer {k} at {} ms for piece {i}, stored since {} ms", e.t, seen.stored[i]
                    );
                }
                What::BadFrame(f) => return Err(format!("peer {k} received a frame that is no message: {:?}", &f[..f.len().min(20)])),
                What::BadHandshake(_) => return Err("bad handshake".into()),
                _ => {}
            }
        }
        if open {
            overdue(wanted, told, seen.end)?;
        }
        let got: BTreeSet<u16> = seen.dht.iter().filter(|a| a.ip() == seen.addrs[k].ip()).map(|a| a.port()).collect();
        for p in ports {
            ensure!(got.contains(&p), "port {p}, which peer {k} named, did not reach the DHT");
        }
    }
    let named: BTreeSet<u16> = case
        .mates
        .iter()
        .flat_map(|m| &m.tells)
        .flat_map(|t| t.1.ports())
        .collect();
    for a in &seen.dht {
        ensure!(named.contains(&a.port()), "the DHT was told of {a}, which nobody named");
    }
    Ok(())
}

fn tells(noisy: usize) -> impl Strategy<Value = Vec<(u16, Tell)>> {
    let first = prop_oneof![
        6 => (Just(0u16), some().prop_map(Tell::Field)),
        2 => (0u16..1500, some().prop_map(Tell::Field)),
        2 => (0u16..5000, some().prop_map(Tell::Haves)),
    ];
    (first, vec((0u16..6000, noise()), 0..noisy + 1), vec((0u16..8000, some().prop_map(Tell::Haves)), 0..3)).prop_map(
        |(f, n, h)| {
            let mut v = vec![f];
            v.extend(n);
            v.extend(h);
            v
        },
    )
}

pub(super) fn kind() -> impl Strategy<Value = Kind> {
    prop_oneof![
        4 => Just(Kind::Good),
        3 => proptest::sample::select(vec![
            Kind::Bad(Reply::Drop, 24), Kind::Bad(Reply::ChokeFor(60_000), 2), Kind::Bad(Reply::Twice, 24), Kind::Bad(Reply::Late(8_000), 24), Kind::Bad(Reply::Short, 9),
        ]),
        2 => (1u8..3).prop_map(Kind::Leaves),
        2 => any::<bool>().prop_map(Kind::Chokes),
        1 => Just(Kind::Mute),
        1 => Just(Kind::Refuses),
    ]
}

pub(super) fn mate(noisy: usize, faults: usize, kind: impl Strategy<Value = Kind>) -> impl Strategy<Value = Mate> {
    (
        kind,
        prop_oneof![3 => Just(0u16), 1 => 0u16..9000],
        tells(noisy),
        script(faults + 1),
        any::<bool>(),
        vec(any::<u8>(), 0..3),
    )
        .prop_map(move |(kind, joins, mut tells, mut script, wants, closes)| {
            script.wants_interest = wants;
            if wants {
                // a choke at a fixed time might come before the unchoke
                script.chokes.clear();
            }
            if faults > 0 {
                for at in closes {
                    let n = script.replies.len() + 1;
                    script.replies.insert(at as usize % n, Reply::Close);
                }
            }
            if let Kind::Bad(r, n) = kind {
                script.replies.extend(vec![r; n as usize]);
            }
            if let Kind::Hog(r) = kind {
                script.replies.clear();
                script.chokes.clear();
                script.rest = Some(r);
            }
            if let Kind::Chokes(moment) = kind {
                script.stern = true;
                script.chokes.clear();
                if moment {
                    tells.iter_mut().for_each(|t| t.0 += 500);
                    tells.splice(0..0, [(0, Tell::Choke(false)), (100, Tell::Choke(true))]);
                }
            }
            if let Kind::Leaves(_) = kind {
                // it leaves in the midst of its work
                script.replies.push(Reply::Close);
                script.rest = Some(Reply::Close);
            }
            Mate { kind, joins, tells, script }
        })
}

pub(super) fn small(pieces: usize) -> impl Strategy<Value = Geometry> {
    (geometry(pieces), any::<bool>(), 1usize..400).prop_map(|(mut g, tiny, l)| {
        // most have one block per piece and more pieces than are downloaded at once
        if tiny {
            let n = (g.total + g.piece_length - 1) / g.piece_length;
            let short = g.piece_length * n - g.total;
            g.piece_length = l;
            g.total = n * l - short % l;
        }
        g
    })
}

pub(super) fn files() -> impl Strategy<Value = Vec<u16>> {
    prop_oneof![2 => Just(vec![]), 1 => vec(any::<u16>(), 1..5)]
}

fn run(case: &Case) -> Result<(Seen, Content), String> {
    let c = Arc::new(Content::new(&case.g));
    let scratch = Scratch::new("manager");
    let base = scratch.path().join("base");
    std::fs::create_dir(&base).unwrap();
    let disk = Disk::new(base, &case.files, &c);
    let seen = paused(play(case, &c, &disk))?;
    judge(case, &c, &seen)?;
    Ok((seen, (*c).clone()))
}

pub fn availability(ctx: &mut Ctx) {
    ctx.assume("TCP over loopback, virtual timers; at most ten peers");
    ctx.check(
        "words",
        "one to six peers that say what they have at generated times, as bitfields and Haves, in part, again, of the wrong length, out of range, between messages of all other kinds, in several sessions; non-trivial: more than one peer, one of which lacks pieces, and a refused word",
        Plan::new(300, 10_000).timing(),
        (small(30), files(), vec(mate(5, 2, prop_oneof![5 => Just(Kind::Good), 1 => (1u8..3).prop_map(Kind::Leaves)]), 1..7))
            .prop_map(|(g, files, mates)| Case { g, files, mates, blocked: None }),
        |z| {
            let (seen, c) = run(z)?;
            let n = c.count();
            let lacks = z.mates.iter().any(|m| m.words(n).iter().any(|w| w.0.contains(&false)));
            let refused = z.mates.iter().flat_map(|m| &m.tells).any(|t| matches!(t.1, Tell::BadField(..) | Tell::BadHave(_) | Tell::Spare(_)));
            let sessions = seen.log.iter().filter(|e| e.what == What::Connected).count();
            Ok(Obs::new(z.mates.len() > 1 && lacks && refused && n > 1)
                .label_if(sessions > z.mates.len(), "several sessions")
                .label_if(seen.stored.contains(&u64::MAX), "a piece nobody has"))
        },
    );    ctx.check(
        "floods",
        "one to three peers one of which says one thing up to 116,000 times over (a Have, most often, else any other message; a megabyte at most); non-trivial: all",
        Plan::new(40, 1_000).timing(),
        (small(24), vec(mate(3, 2, Just(Kind::Good)), 1..4), 0u16..3000, flood()).prop_map(|(g, mut mates, at, f)| {
            mates[0].tells.push((at, f));
            Case { g, files: vec![], mates, blocked: None }
        }),
        |z| {
            let (_, _) = run(z)?;
            let many = z.mates[0].tells.iter().any(|t| matches!(t.1, Tell::Often(n, _) if n > 65_535));
            Ok(Obs::new(true).label_if(many, "65,536 times"))
        },
    );
}

fn flood() -> impl Strategy<Value = Tell> {
    let times = prop_oneof![2 => Just(65_537u32), 2 => 65_536u32..116_000, 1 => 200u32..1_000, 1 => 30_000u32..65_536];
    let one = prop_oneof![1 => Just(Tell::Haves(Some_::Below(1))), 1 => (0u32..24).prop_map(|k| Tell::Haves(Some_::Mask(1 << k)))];
    (times, prop_oneof![4 => one, 3 => noise()]).prop_map(|(n, t)| Tell::Often(n, Box::new(t)))
}

pub fn download(ctx: &mut Ctx) {
    ctx.assume("TCP over loopback, virtual timers; at most ten peers");
    let blocked = proptest::option::weighted(0.2, (any::<u8>(), 500u16..15_000));
    let s = (small(40), files(), vec(mate(1, 8, kind()), 0..7), mate(1, 8, Just(Kind::Good)), 0u16..4000, blocked).prop_map(
        |(g, files, mut mates, mut good, at, blocked)| {
            // some good peer has everything, at last
            good.tells.push((at, Tell::Haves(Some_::All)));
            mates.push(good);
            Case { g, files, mates, blocked }
        },
    );
    ctx.check(
        "swarm",
        "up to seven peers, one of which has everything: some answer late, wrongly or not at all, choke for a while or for ever, close, leave for good, stay mute or cannot be reached; every byte on the disk is watched; non-trivial: more than nine pieces and at least two kinds of peers",
        Plan::new(250, 8_000).timing(),
        s,
        |z| {
            let (seen, c) = run(z)?;
            let kinds: BTreeSet<String> = z.mates.iter().map(|m| format!("{:?}", m.kind)).collect();
            let faults = seen.log.iter().any(|e| matches!(e.what, What::Answered { good: false, .. }));
            let mut o = Obs::new(c.count() > 9 && kinds.len() > 1).label_if(faults, "wrong blocks").label_if(z.blocked.is_some(), "a file that could not be written");
            for (l, k) in [("bad peers", "Bad"), ("leaving peers", "Leaves"), ("mute peers", "Mute"), ("choking peers", "Chokes"), ("unreachable peers", "Refuses")] {
                o = o.label_if(kinds.iter().any(|x| x.starts_with(k)), l);
            }
            Ok(o)
        },
    );
    // peers that begin many pieces no one else has, and leave
    let quitter = (0u16..20_000, any::<u32>(), 0u16..600, 0usize..3).prop_map(|(joins, m, at, n)| {
        let mut replies = vec![Reply::Good; n];
        replies.extend([Reply::Late(at), Reply::Close]);
        (joins, m, Script { unchoke_after: 0, wants_interest: true, chokes: vec![], replies, says: vec![], rest: Some(Reply::Close), sessions: None, stern: false })
    });
    let s = (small(40), 8u8..30, vec(quitter, 3..9), mate(0, 3, Just(Kind::Good))).prop_map(|(g, k, quitters, mut good)| {
        good.tells = vec![(0, Tell::Field(Some_::From(k)))];
        let mut mates: Vec<Mate> = quitters
            .into_iter()
            .enumerate()
            .map(|(q, (joins, m, script))| {
                // often each has pieces of its own
                let m = if m % 3 > 0 { 0xf << (4 * q) % 28 } else { m };
                Mate { kind: Kind::Leaves(1), joins, tells: vec![(0, Tell::Field(Some_::Mask(m & ((1 << k) - 1))))], script }
            })
            .collect();
        mates.push(good);
        Case { g, files: vec![], mates, blocked: None }
    });
    ctx.check(
        "stranded",
        "a good peer has the later pieces; three to eight others begin earlier pieces and leave for good; non-trivial: at least four pieces were begun and abandoned",
        Plan::new(150, 5_000).timing(),
        s,
        |z| {
            let (seen, _) = run(z)?;
            let begun: BTreeSet<u32> = seen
                .log
                .iter()
                .filter_map(|e| if let What::Requested { index, .. } = e.what { Some(index) } else { None })
                .filter(|i| seen.stored[*i as usize] == u64::MAX)
                .collect();
            Ok(Obs::new(begun.len() >= 4).label_if(begun.len() >= 10, "more than can be under way at once"))
        },
    );
    // peers that have much and give nothing, beside one that gives
    let s = (small(40), vec(mate(1, 0, any::<bool>().prop_map(Kind::Chokes)), 2..8), mate(0, 0, Just(Kind::Good))).prop_map(|(g, mut mates, mut good)| {
        good.tells.push((4_000, Tell::Haves(Some_::All)));
        mates.push(good);
        Case { g, files: vec![], mates, blocked: None }
    });
    ctx.check(
        "choking",
        "two to seven peers that say what they have and choke for ever, some after a moment in which they did not, beside one that has everything; non-trivial: at least three of them have something and there are more than nine pieces",
        Plan::new(60, 3_000).timing(),
        s,
        |z| {
            let (seen, c) = run(z)?;
            let n = c.count();
            let has = z.mates[..z.mates.len() - 1].iter().filter(|m| m.words(n).iter().any(|w| w.1.contains(&true))).count();
            let moment = z.mates.iter().any(|m| m.kind == Kind::Chokes(true));
            let told = seen.log.iter().any(|e| e.what == What::Interested && e.peer + 1 < z.mates.len());
            Ok(Obs::new(has >= 3 && n > 9).label_if(moment, "unchoked for a moment").label_if(told, "told a choking peer of the interest"))
        },
    );
    // two that take requests and never meet them, and a good one
    let hog = proptest::sample::select(vec![Reply::Drop, Reply::ChokeFor(60_000), Reply::Late(50_000), Reply::Short, Reply::Unasked]).prop_map(Kind::Hog);
    let s = (small(24), files(), prop_oneof![1 => vec(mate(1, 0, hog.clone()), 1), 2 => vec(mate(1, 0, hog), 2)], vec(mate(1, 2, prop_oneof![Just(Kind::Good), Just(Kind::Refuses)]), 0..3), mate(0, 2, Just(Kind::Good)), 0u16..4000)
        .prop_map(|(g, files, mut mates, more, mut good, at)| {
            good.tells.push((at, Tell::Haves(Some_::All)));
            mates.extend(more);
            mates.push(good);
            Case { g, files, mates, blocked: None }
        });
    ctx.check(
        "hogs",
        "one or two peers that allow requests and never meet them - no answer, one that is no answer, one too late, or a choke each time, without end - beside one that has everything; non-trivial: at least two of them were asked, for at least eight blocks",
        Plan::new(60, 3_000).timing(),
        s,
        |z| {
            let (seen, c) = run(z)?;
            let asked: Vec<usize> = (0..z.mates.len())
                .filter(|k| matches!(z.mates[*k].kind, Kind::Hog(_)))
                .map(|k| seen.log.iter().filter(|e| e.peer == k && matches!(e.what, What::Requested { .. })).count())
                .filter(|n| *n > 0)
                .collect();
            let both = asked.len() >= 2 && asked.iter().sum::<usize>() >= 8;
            Ok(Obs::new(both).label_if(c.count() > 9, "more pieces than are under way at once"))
        },
    );
    // more peers than are connected at once; most cannot be reached or are soon gone
    let s = (
        small(24),
        vec(mate(1, 0, prop_oneof![2 => any::<bool>().prop_map(Kind::Chokes), 1 => Just(Kind::Mute), 1 => Just(Kind::Good)]), 0..9),
        vec(mate(0, 0, prop_oneof![3 => Just(Kind::Refuses), 1 => (1u8..3).prop_map(Kind::Leaves)]), 2..30),
        mate(1, 4, Just(Kind::Good)),
        0u16..4000,
    )
        .prop_map(|(g, mut mates, more, mut good, at)| {
            good.tells.push((at, Tell::Haves(Some_::All)));
            mates.extend(more);
            mates.push(good);
            Case { g, files: vec![], mates, blocked: None }
        });
    ctx.check(
        "crowded",
        "up to nine peers that stay, most of them of no use, among up to 29 that cannot be reached or leave after a connection or two; non-trivial: at least seven stay and there are more peers than can be connected at once",
        Plan::new(40, 2_000).timing(),
        s,
        |z| {
            let (seen, _) = run(z)?;
            let stay = z.mates.iter().filter(|m| matches!(m.kind, Kind::Chokes(_) | Kind::Mute | Kind::Good)).count();
            let left = seen.log.iter().filter(|e| e.what == What::Closed).count();
            Ok(Obs::new(stay >= 7 && z.mates.len() > 10).label_if(stay == 9, "one place left for all others").label_if(left > 0, "some left"))
        },
    );
}
