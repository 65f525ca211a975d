//! C35: the parts together. The client as `main` puts it together, from the bytes of a .torrent file to the files
//! on the disk: peers come from trackers, from the DHT and from announcements to the client itself.
use super::bencode::B;
use super::dht::{alone, forget_table, settle, spec, Asker, Node, Spec, World};
use super::gen::*;
use super::kmsg::*;
use super::manager::{files, kind, mate, small, Disk, Kind, Mate, Some_, Tell};
use super::swarm::*;
use super::tracker::{Rep, Req};
use crate::core::*;
use crate::ensure;
use nargun::verif::dht::routing_table::RoutingTable;
use nargun::verif::peers::active_peers::Peers;
use nargun::verif::shutdown;
use nargun::verif::torrent_manager::start_client;
use nargun::verif::transcoding::metainfo::Torrent;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddrV4;
use std::path::Path;
use std::sync::atomic::AtomicU64;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::net::UdpSocket;
use tokio::sync::broadcast;
use tokio::time::{sleep, timeout};

/// Where the client hears of a peer.
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Source {
    /// which tracker, in which of its good answers
    Tracker(u8, u8),
    /// a node of the DHT
    Node(u8),
    /// it announces itself to the client, after so many seconds
    Itself(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Try {
    Bad(Rep),
    Good { interval: u16, delay: u16, id: Option<String> },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Whole {
    g: Geometry,
    files: Vec<u16>,
    trackers: Vec<Vec<Try>>,
    /// in announce-list only
    list: bool,
    nodes: Vec<Spec>,
    /// the first tells of the first node, the last has everything at last
    mates: Vec<(Mate, Source)>,
    own: Bytes20,
    port: u16,
    /// ms after the connection at which the first peer tells of the DHT
    tells: u16,
    /// s until the shutdown, once all is there
    more: u8,
    /// afterwards the client is started again, with no tracker left: a node knows this peer
    again: Option<(u8, Mate)>,
}

const GOODS: usize = 3;

impl Whole {
    /// What tracker k does, and when (ms) its n-th good answer is complete, at the latest.
    fn tries(&self, k: usize) -> (Vec<Try>, Vec<u64>) {
        let mut all = self.trackers[k].clone();
        for _ in 0..GOODS + 30 {
            all.push(Try::Good { interval: 60, delay: 0, id: None });
        }
        let (mut t, mut times) = (0, vec![]);
        for x in &all {
            match x {
                Try::Bad(_) => t += 260_000,
                Try::Good { interval, delay, .. } => {
                    t += *delay as u64 + 2_000;
                    times.push(t);
                    t += *interval as u64 * 1000;
                }
            }
        }
        (all, times)
    }
    fn source(&self, m: usize) -> Source {
        match self.mates[m].1 {
            Source::Tracker(k, n) => Source::Tracker(k % self.trackers.len() as u8, n % GOODS as u8),
            Source::Node(_) if self.nodes.is_empty() => Source::Tracker(0, 0),
            // the first one names the others
            Source::Node(k) if self.nodes.len() > 1 => Source::Node(1 + k % (self.nodes.len() as u8 - 1)),
            Source::Node(_) => Source::Node(0),
            s => s,
        }
    }
    /// ms until the client must have heard of a peer
    fn heard(&self, m: usize) -> u64 {
        match self.source(m) {
            Source::Tracker(k, n) => self.tries(k as usize).1[n as usize],
            Source::Node(_) => self.dht_known() + 200_000,
            Source::Itself(s) => self.heard(0).max(s as u64 * 1000) + 10_000,
        }
    }
    /// ms until the client must know the nodes
    fn dht_known(&self) -> u64 {
        self.heard(0) + self.tells as u64 + self.faults() + 30_000
    }
    fn faults(&self) -> u64 {
        self.mates.iter().map(|m| m.0.delay()).sum()
    }
    fn deadline(&self, pieces: usize) -> u64 {
        let last = (0..self.mates.len()).map(|m| self.heard(m)).max().unwrap();
        last + self.faults() + 2_000 * pieces as u64 + 60_000
    }
    fn metainfo(&self, c: &Content, disk: &Disk, urls: &[String]) -> Vec<u8> {
        write_metainfo(c, disk, urls, self.list)
    }
}

/// A .torrent file; its trackers may be in announce-list only.
pub(super) fn write_metainfo(c: &Content, disk: &Disk, urls: &[String], list: bool) -> Vec<u8> {
    let mut info = B::Dict(vec![]);
    info.put(b"name", B::s("a torrent"));
    info.put(b"piece length", B::Int(c.piece_length as i64));
    info.put(b"pieces", B::Str((0..c.count()).flat_map(|i| c.hash(i)).collect()));
    if disk.single() {
        info.put(b"length", B::Int(c.data.len() as i64));
    } else {
        let l = disk.files.iter().map(|(p, _, len)| {
            B::dict(vec![(b"length", B::Int(*len as i64)), (b"path", B::List(vec![B::s(p.file_name().unwrap().to_str().unwrap())]))])
        });
        info.put(b"files", B::List(l.collect()));
    }
    let mut d = B::Dict(vec![]);
    if !list {
        d.put(b"announce", B::s(&urls[0]));
    }
    if list || urls.len() > 1 {
        d.put(b"announce-list", B::List(urls.iter().map(|u| B::List(vec![B::s(u)])).collect()));
    }
    d.put(b"info", info);
    d.encode()
}

pub(super) fn info_hash(meta: &[u8]) -> Bytes20 {
    let (v, _) = B::parse(meta).unwrap();
    sha1(&[&v.get(b"info").unwrap().encode()])
}

/// The client, started as `main` does.
struct Client {
    world: World,
    peers: Peers,
    // as long as the program runs
    _events: broadcast::Sender<()>,
}

async fn start(z: &Whole, file: &Path, hash: &Bytes20, base: &Path) -> Result<Client, String> {
    std::env::set_var("NARGUN_VERIF_BASE_DIR", base);
    let torrent = Torrent::from_file(file).map_err(|e| format!("the torrent was refused: {e}"))?;
    ensure!(torrent.info_hash == id(hash), "info hash {:?}, expected {hash:?}", torrent.info_hash);
    let peers = Peers::new(&torrent.info_hash);
    let (shut, shut_rx) = shutdown::channel();
    let world = World::start(peers.clone(), hash, z.port, shut, shut_rx.clone()).await?;
    let (events, _rx) = broadcast::channel(32);
    let done = Arc::new(AtomicU64::new(0));
    start_client(id(&z.own), peers.clone(), world.feed.clone(), torrent, done, &events, z.port, shut_rx);
    Ok(Client { world, peers, _events: events })
}

/// Ends it; what is then stored of the table.
async fn end(w: &mut World) -> Result<(u64, BTreeMap<Bytes20, SocketAddrV4>), String> {
    let before = w.now();
    let shut = w.shut.take().unwrap();
    let waiter = tokio::spawn(async move { shut.send().wait().await });
    // a file is written by a thread, virtual time means nothing to it
    let real = std::time::Instant::now();
    while !waiter.is_finished() && (w.now() < before + 300_000 || real.elapsed() < Duration::from_secs(10)) {
        sleep(Duration::from_millis(20)).await;
        std::thread::sleep(Duration::from_micros(100));
    }
    ensure!(waiter.is_finished(), "the client did not end within 300 s of the shutdown");
    let loaded = RoutingTable::new().await;
    ensure!(loaded.own_id().as_byte_ref() == w.own, "another own id was stored");
    Ok((before, loaded.iter_nodes().map(|n| (n.id.as_byte_ref().try_into().unwrap(), n.addr)).collect()))
}

fn nodes_of(z: &Whole, own: &Bytes20, addrs: &[SocketAddrV4], gives: &BTreeMap<usize, Vec<[u8; 6]>>) -> Arc<Vec<Node>> {
    let all = z.nodes.iter().zip(addrs).enumerate().map(|(k, (s, a))| {
        let mut s = s.clone();
        s.gives = gives.get(&k).cloned().unwrap_or_default();
        if k == 0 {
            s.refs = (0..z.nodes.len() as u16).collect();
        }
        Node { id: s.at.of(&id(own)), addr: *a, spec: s }
    });
    Arc::new(all.collect())
}

fn serve_nodes(w: &mut World, nodes: Arc<Vec<Node>>, socks: Vec<UdpSocket>) {
    w.nodes = nodes;
    for (k, s) in socks.into_iter().enumerate() {
        tokio::spawn(super::dht::serve(k, Arc::new(s), w.nodes.clone(), w.evs.clone(), w.bad.clone(), w.start));
    }
}

/// What nodes are told of the client.
fn announced(w: &World, hash: &Bytes20, port: u16) -> Result<usize, String> {
    w.queries_are_proper()?;
    let mut n = 0;
    for e in w.evs() {
        match &e.query {
            K::Announce(_, h, p, _) => {
                ensure!(h == hash && *p == port, "announced {h:?} on port {p} to node {}, not {hash:?} on {port}", e.node);
                n += 1;
            }
            K::Get(_, h) => ensure!(h == hash, "asked node {} for peers of {h:?}, not of {hash:?}", e.node),
            _ => {}
        }
    }
    Ok(n)
}

fn greeted(log: &Log, own: &Bytes20) -> Result<(), String> {
    for e in log.all() {
        match &e.what {
            What::Hello(h) => ensure!(h[..] == own[..], "told peer {} that it is {h:?}, not {own:?}", e.peer),
            What::BadHandshake(h) => return Err(format!("a bad handshake to peer {}: {h:?}", e.peer)),
            What::BadFrame(f) => return Err(format!("peer {} received a frame that is no message: {:?}", e.peer, &f[..f.len().min(20)])),
            _ => {}
        }
    }
    Ok(())
}

struct Left {
    addrs: Vec<SocketAddrV4>,
    stored: BTreeMap<Bytes20, SocketAddrV4>,
    own: Bytes20,
    labels: Vec<&'static str>,
    needed: bool,
}

async fn first(z: &Whole, dir: &Path) -> Result<Left, String> {
    alone();
    forget_table();
    let mut c = Content::new(&z.g);
    let base = dir.join("base");
    let disk = Disk::new(base.clone(), &z.files, &c);
    let n = c.count();
    // trackers
    let mut ls = vec![];
    let mut urls = vec![];
    for _ in &z.trackers {
        let (l, a) = bind().await;
        ls.push(l);
        urls.push(format!("http://{a}/announce"));
    }
    let meta = z.metainfo(&c, &disk, &urls);
    let hash = info_hash(&meta);
    c.info_hash = hash;
    let c = Arc::new(c);
    let file = dir.join("a.torrent");
    std::fs::write(&file, &meta).map_err(|e| format!("harness: {e}"))?;
    // nodes
    let mut socks = vec![];
    let mut addrs = vec![];
    for k in 0..z.nodes.len() {
        // the first is where the peer is that tells of it
        let ip = if k == 0 { [127, 0, 0, 1] } else { [127, 1, 0, (k as u8 + 1) / 2] };
        let s = UdpSocket::bind(SocketAddrV4::new(ip.into(), 0)).await.unwrap();
        let std::net::SocketAddr::V4(a) = s.local_addr().unwrap() else { unreachable!() };
        addrs.push(a);
        socks.push(s);
    }
    // peers
    let log = Log::new();
    let mut gives: BTreeMap<usize, Vec<[u8; 6]>> = BTreeMap::new();
    let mut told: BTreeMap<(u8, u8), Vec<[u8; 6]>> = BTreeMap::new();
    let mut selves = vec![];
    let mut mates = vec![];
    for (k, (m, _)) in z.mates.iter().enumerate() {
        let (l, a) = bind().await;
        mates.push(a);
        match z.source(k) {
            Source::Tracker(t, g) => told.entry((t, g)).or_default().push(compact(&a)),
            Source::Node(i) => gives.entry(i as usize).or_default().push(compact(&a)),
            Source::Itself(s) => selves.push((s as u64 * 1000, a)),
        }
        let mut says = m.frames(n);
        if let (0, Some(e)) = (k, addrs.first()) {
            says.push((z.tells, frame(9, &e.port().to_be_bytes())));
        }
        m.put_up(k, l, says, &c, &log);
    }
    let mut asked: Vec<Arc<Mutex<Vec<Req>>>> = vec![];
    let bad = Arc::new(Mutex::new(vec![]));
    for (k, l) in ls.into_iter().enumerate() {
        let mut goods = 0;
        let script = z.tries(k).0.into_iter().map(|t| match t {
            Try::Bad(r) => r,
            Try::Good { interval, delay, id } => {
                goods += 1;
                let peers = told.get(&(k as u8, goods - 1)).cloned().unwrap_or_default();
                Rep::Good { interval, peers, tracker_id: id, delay }
            }
        });
        let reqs: Arc<Mutex<Vec<Req>>> = Default::default();
        tokio::spawn(super::tracker::serve(l, script.collect(), log.clone(), reqs.clone(), bad.clone()));
        asked.push(reqs);
    }
    let mut client = start(z, &file, &hash, &base).await?;
    let w = &mut client.world;
    let own_node = w.own;
    let nodes = nodes_of(z, &own_node, &addrs, &gives);
    serve_nodes(w, nodes, socks);

    // until everything is there and the nodes were told
    let asker = Asker::new([127, 0, 0, 1]).await;
    let (deadline, told_by) = (z.deadline(n), z.dht_known() + 200_000);
    let mut quit = None;
    let mut have = vec![false; n];
    loop {
        let now = log.now();
        let mut left = vec![];
        for (t, a) in selves.drain(..) {
            if t > now {
                left.push((t, a));
                continue;
            }
            let got = asker.ask(&K::Get([5; 20], hash), b"gp", &vec![]).await;
            let token = match got.first().and_then(|b| parse(b)) {
                Some((_, K::Values(_, t, _) | K::Nodes(_, t, _))) => t,
                // it may know neither peers nor nodes as yet
                None if now <= z.heard(0) + 3_000 => {
                    left.push((t, a));
                    continue;
                }
                x => return Err(format!("a query for peers was answered with {x:?}")),
            };
            let got = asker.ask(&K::Announce([5; 20], hash, a.port(), token), b"an", &vec![]).await;
            ensure!(matches!(got.first().and_then(|b| parse(b)), Some((_, K::Pong(_)))), "an announcement was answered with {got:?}");
        }
        selves = left;
        let there = disk.stored(&c)?;
        for i in 0..n {
            ensure!(there[i] || !have[i], "piece {i} was on the disk and is not any more");
            if !there[i] && now > deadline && std::env::var("VERIF_DUMP").is_ok() {
                log.all().iter().for_each(|e| eprintln!("{e:?}"));
                w.evs().iter().for_each(|e| eprintln!("{e:?}"));
                asked.iter().for_each(|r| eprintln!("{:?}", r.lock().unwrap()));
            }
            ensure!(there[i] || now <= deadline, "piece {i} is still missing at {now} ms; the last good peer could be known by {} ms", deadline);
        }
        have = there;
        let announced = z.nodes.is_empty() || w.evs().iter().any(|e| matches!(e.query, K::Announce(..)));
        ensure!(announced || now <= told_by, "nobody was told of the client at {now} ms; a node was named by {} ms", z.dht_known());
        if announced && selves.is_empty() && !have.contains(&false) {
            if now >= *quit.get_or_insert(now + z.more as u64 * 1000) {
                break;
            }
        }
        sleep(Duration::from_millis(if now < 30_000 { 500 } else { 2_500 })).await;
    }
    let all: BTreeSet<SocketAddrV4> = client.peers.peer_addresses().iter().map(|p| *p.addr()).collect();
    ensure!(all.iter().all(|a| mates.contains(a)), "peers {all:?} are none of {mates:?}");
    let w = &mut client.world;
    let evs = w.evs();
    let known = w.known();
    let shut_at = log.now();
    let (at, stored) = end(w).await?;
    sleep(Duration::from_secs(3)).await;
    // what the others saw of it
    greeted(&log, &z.own)?;
    let told = announced(w, &hash, z.port)?;
    ensure!(told > 0 || z.nodes.is_empty(), "no node was told of the client");
    if let Some(b) = bad.lock().unwrap().first() {
        return Err(b.clone());
    }
    for (k, reqs) in asked.iter().enumerate() {
        let reqs = reqs.lock().unwrap().clone();
        ensure!(!reqs.is_empty() || shut_at < 1_500, "tracker {k} was not asked");
        for (j, r) in reqs.iter().enumerate() {
            let at = format!("request {j} to tracker {k} at {} ms", r.t);
            for (key, want) in [("info_hash", &hash[..]), ("peer_id", &z.own[..]), ("port", z.port.to_string().as_bytes())] {
                let v: Vec<_> = r.query.iter().filter(|(x, _)| x == key).map(|x| &x.1[..]).collect();
                ensure!(v == vec![want], "{at}: {key} is {v:?}, expected {want:?}");
            }
            let stopped = r.get("event").as_deref() == Some("stopped");
            ensure!(j > 0 || r.get("event").as_deref() == Some("started") || stopped, "{at}: event {:?}", r.get("event"));
            ensure!(stopped || r.t <= shut_at + 100, "{at}: after the shutdown at {shut_at}");
            ensure!(!stopped || r.t + 50 >= shut_at, "{at}: stopped before the shutdown at {shut_at}");
        }
        let stops = reqs.iter().filter(|r| r.get("event").as_deref() == Some("stopped")).count();
        let good = reqs.iter().any(|r| r.answered.map(|a| a + 200 < shut_at).unwrap_or(false));
        ensure!(!good || stops == 1, "tracker {k} was told {stops} times of the shutdown at {shut_at}");
        ensure!(stops <= 1, "tracker {k} was told {stops} times of the shutdown");
    }
    // the table
    for (k, t) in &known {
        let n = &w.nodes[*k];
        ensure!(*t + 100 > at || stored.get(&n.id) == Some(&n.addr), "node {k}, known since {t} ms, was not stored at {at}");
    }
    for (i, a) in &stored {
        ensure!(w.nodes.iter().any(|n| n.id == *i && n.addr == *a), "a node nobody is was stored");
    }
    ensure!(disk.stored(&c)?.iter().all(|x| *x), "what was stored is gone after the shutdown");
    let mut labels = vec![];
    let used: BTreeSet<usize> = log.all().iter().filter(|e| e.what == What::Connected).map(|e| e.peer).collect();
    let gave: BTreeSet<usize> = log.all().iter().filter(|e| matches!(e.what, What::Answered { good: true, .. })).map(|e| e.peer).collect();
    let from = |f: fn(&Source) -> bool| used.iter().any(|m| f(&z.source(*m)));
    if from(|s| matches!(s, Source::Node(_))) {
        labels.push("a peer from the DHT");
    }
    if from(|s| matches!(s, Source::Itself(_))) {
        labels.push("a peer that announced itself");
    }
    if from(|s| matches!(s, Source::Tracker(_, n) if *n > 0)) {
        labels.push("a peer from a later answer");
    }
    if evs.iter().filter(|e| matches!(e.query, K::Announce(..))).count() > z.nodes.len() {
        labels.push("announced again");
    }
    let needed = gave.iter().any(|m| !matches!(z.source(*m), Source::Tracker(..)));
    Ok(Left { addrs, stored, own: own_node, labels, needed })
}

/// No tracker is left, a node that was stored knows a peer.
async fn second(z: &Whole, dir: &Path, left: &Left, node: u8, m: &Mate) -> Result<(), String> {
    alone();
    let mut c = Content::new(&z.g);
    let base = dir.join("base again");
    let disk = Disk::new(base.clone(), &z.files, &c);
    let n = c.count();
    let (gone, a) = bind().await;
    drop(gone);
    let meta = z.metainfo(&c, &disk, &[format!("http://{a}/announce")]);
    let hash = info_hash(&meta);
    c.info_hash = hash;
    let c = Arc::new(c);
    let file = dir.join("again.torrent");
    std::fs::write(&file, &meta).map_err(|e| format!("harness: {e}"))?;
    let log = Log::new();
    let (l, a) = bind().await;
    m.put_up(0, l, m.frames(n), &c, &log);
    let mut socks = vec![];
    for a in &left.addrs {
        socks.push(UdpSocket::bind(a).await.map_err(|e| format!("harness: {e}"))?);
    }
    let k = node as usize % left.addrs.len();
    let gives: BTreeMap<usize, Vec<[u8; 6]>> = [(k, vec![compact(&a)])].into();
    let mut client = {
        // the sockets are there before the client is
        start(z, &file, &hash, &base).await?
    };
    let w = &mut client.world;
    ensure!(w.own == left.own, "another own id after the restart");
    let nodes = nodes_of(z, &left.own, &left.addrs, &gives);
    serve_nodes(w, nodes, socks);
    let deadline = 200_000 + m.delay() + 2_000 * n as u64 + 60_000;
    loop {
        let now = log.now();
        let there = disk.stored(&c)?;
        if there.iter().all(|x| *x) && w.evs().iter().any(|e| matches!(e.query, K::Announce(..))) {
            break;
        }
        ensure!(now <= deadline, "after the restart: incomplete at {now} ms, announced: {}", announced(w, &hash, z.port)?);
        sleep(Duration::from_millis(if now < 30_000 { 500 } else { 2_500 })).await;
    }
    greeted(&log, &z.own)?;
    announced(w, &hash, z.port)?;
    end(w).await?;
    // the trackers are not there to be told
    timeout(Duration::from_secs(1), std::future::pending::<()>()).await.ok();
    Ok(())
}

fn all_case() -> impl Strategy<Value = Whole> {
    let bad = prop_oneof![Just(Rep::Failure), Just(Rep::Cut), Just(Rep::Close), Just(Rep::Hang), vec(any::<u8>(), 0..30).prop_map(Rep::Garbage)];
    let good = || (1u16..90, prop_oneof![3 => Just(0u16), 1 => 0u16..9_000], proptest::option::of("[a-z]{1,6}".prop_map(String::from)));
    let try_ = prop_oneof![
        4 => good().prop_map(|(interval, delay, id)| Try::Good { interval, delay, id }),
        1 => bad.prop_map(Try::Bad),
    ];
    let source = || {
        prop_oneof![
            2 => (any::<u8>(), 0u8..3).prop_map(|(k, n)| Source::Tracker(k, n)),
            3 => any::<u8>().prop_map(Source::Node),
            2 => (0u8..60).prop_map(Source::Itself),
        ]
    };
    let whole = |faults| mate(1, faults, Just(Kind::Good));
    (
        (small(24), files()),
        (vec(vec(try_, 0..3), 1..4), any::<bool>()),
        vec(spec(0, 6, 0, 0.0), 0..8).prop_map(settle),
        (whole(2), vec((mate(1, 3, kind()), source()), 0..4), whole(3), source(), 0u16..4_000),
        (bytes20(), any::<u16>(), 0u16..5_000, 0u8..100),
        proptest::option::weighted(0.4, (any::<u8>(), whole(2))),
    )
        .prop_map(|((g, files), (trackers, list), nodes, (mut one, mates, mut last, from, at), (own, port, tells, more), again)| {
            let tame = |m: &mut Mate| {
                // that would be the client itself; at others nobody is
                m.tells.retain(|t| !t.1.ports().contains(&46493));
                m.joins = 0;
            };
            let mut all = vec![];
            tame(&mut one);
            // others are needed
            for t in &mut one.tells {
                if let Tell::Field(s @ Some_::All) | Tell::Haves(s @ Some_::All) = &mut t.1 {
                    *s = Some_::Every(3, more);
                }
            }
            all.push((one, Source::Tracker(0, 0)));
            for (mut m, s) in mates {
                tame(&mut m);
                all.push((m, s));
            }
            tame(&mut last);
            last.tells.push((at, Tell::Haves(Some_::All)));
            all.push((last, from));
            let again = again.filter(|_| !nodes.is_empty()).map(|(k, mut m)| {
                tame(&mut m);
                m.tells.push((at, Tell::Haves(Some_::All)));
                (k, m)
            });
            Whole { g, files, trackers, list, nodes, mates: all, own, port, tells, more, again }
        })
}

pub fn whole_client(ctx: &mut Ctx) {
    ctx.assume("TCP, UDP and HTTP over loopback, virtual timers; the client is put together as main does, without the search for a gateway");
    ctx.check(
        "client",
        "a .torrent file, one to three trackers of which some fail at first, up to seven DHT nodes, two to six peers that the client hears of from a tracker, a node, or themselves; then the shutdown, and often a second run on the stored table alone; non-trivial: a peer that no tracker named gave a block",
        Plan::new(160, 6_000).timing().shrink(60),
        all_case(),
        |z| {
            let scratch = Scratch::new("whole");
            std::fs::create_dir(scratch.path().join("base")).unwrap();
            std::fs::create_dir(scratch.path().join("base again")).unwrap();
            let left = paused(first(z, scratch.path()))?;
            let mut o = Obs::new(left.needed);
            for l in &left.labels {
                o = o.label(*l);
            }
            if let Some((k, m)) = &z.again {
                // as long as the node was stored
                let stored: Vec<usize> = (0..left.addrs.len()).filter(|i| left.stored.values().any(|a| *a == left.addrs[*i])).collect();
                if !stored.is_empty() {
                    let k = stored[*k as usize % stored.len()] as u8;
                    paused(second(z, scratch.path(), &left, k, m))?;
                    o = o.label("a second run");
                }
            }
            Ok(o)
        },
    );
}
