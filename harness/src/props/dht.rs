//! C14 (queries are answered), C15 (announcements need a token), C16 (only matching responses count),
//! C34 (the table survives a restart), C36 (peers are looked for and announced to).
use super::gen::*;
use super::kmsg::*;
use super::swarm::{fine_clock, long_while};
use crate::core::*;
use crate::ensure;
use nargun::verif::dht::routing_table::RoutingTable;
use nargun::verif::dht::start_dht;
use nargun::verif::peers::active_peers::Peers;
use nargun::verif::peers::peer::Peer;
use nargun::verif::shutdown;
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::net::{Ipv4Addr, SocketAddrV4};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::net::UdpSocket;
use tokio::sync::mpsc;
use tokio::time::{sleep, sleep_until, timeout, Instant};

const CLIENT: SocketAddrV4 = SocketAddrV4::new(Ipv4Addr::LOCALHOST, 46493);

/// The port is fixed, so only one at a time.
pub(super) fn alone() {
    use std::os::fd::AsRawFd;
    static LOCK: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();
    LOCK.get_or_init(|| {
        let f = std::fs::OpenOptions::new().create(true).append(true).open("/tmp/nargun-verif-dht.lock").unwrap();
        unsafe { libc::flock(f.as_raw_fd(), libc::LOCK_EX) };
        f
    });
}

/// Where the table is stored: below the scratch directory of this process.
pub(super) fn forget_table() {
    let home = std::env::var("HOME").unwrap();
    assert!(home.contains("/nargun-verif-"), "HOME is {home}");
    let _ = std::fs::remove_dir_all(format!("{home}/.nargun"));
}

// ---------------------------------------------------------------- nodes

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub(super) enum A {
    Good,
    Silent,
    WrongTid,
    WrongKind,
    Garbage,
    Twice,
    Late(u16),
    /// all the wrong ones, then the right one
    Mended,
}

fn answer() -> impl Strategy<Value = A> {
    prop_oneof![
        5 => Just(A::Good),
        4 => proptest::sample::select(vec![A::Silent, A::WrongTid, A::WrongKind, A::Garbage, A::Twice, A::Mended]),
        1 => (1u16..6000).prop_map(A::Late),
    ]
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub(super) struct Spec {
    pub(super) at: Delta,
    pub(super) script: Vec<A>,
    /// after the script: answers, or not at all
    pub(super) dead: bool,
    pub(super) refs: Vec<u16>,
    pub(super) gives: Vec<[u8; 6]>,
    pub(super) token: Vec<u8>,
    /// the client hears of it from a peer
    pub(super) fed: bool,
    /// milliseconds until any answer
    #[serde(default)]
    pub(super) lag: u16,
    /// does not answer from then until then (s)
    #[serde(default)]
    pub(super) away: Vec<(u16, u16)>,
}

pub(super) fn spec(scripts: usize, refs: usize, gives: usize, fed: f64) -> impl Strategy<Value = Spec> {
    (
        delta(5),
        vec(answer(), 0..scripts + 1),
        proptest::bool::weighted(if scripts > 0 { 0.15 } else { 0.0 }),
        vec(any::<u8>().prop_map(u16::from), 0..refs + 1),
        prop_oneof![9 => Just(vec![]), 8 => vec(addr6(), 0..gives + 1), 1 => vec(addr6(), 0..gives * 20 + 1)],
        vec(any::<u8>(), 1..9),
        proptest::bool::weighted(fed),
    )
        .prop_map(|(at, script, dead, refs, gives, token, fed)| Spec { at, script, dead, refs, gives, token, fed, lag: 0, away: vec![] })
}

/// Few enough per distance, so that the table can keep them all.
pub(super) fn settle(mut specs: Vec<Spec>) -> Vec<Spec> {
    let mut seen = BTreeSet::new();
    let mut per: BTreeMap<u8, usize> = BTreeMap::new();
    specs.retain(|s| {
        let n = per.entry(s.at.first).or_default();
        let keep = *n < 8 && seen.insert(s.at.bytes());
        *n += keep as usize;
        keep
    });
    if let Some(s) = specs.first_mut() {
        s.fed = true;
    }
    specs
}

#[derive(Debug, Clone)]
pub(super) struct Node {
    pub(super) id: Bytes20,
    pub(super) addr: SocketAddrV4,
    pub(super) spec: Spec,
}

/// One query a node got, and what it answered.
#[derive(Debug, Clone)]
pub(super) struct Ev {
    pub(super) t: u64,
    pub(super) node: usize,
    pub(super) query: K,
    pub(super) tid: Vec<u8>,
    /// when a proper answer went out
    pub(super) answered: Option<u64>,
    pub(super) answer: Option<K>,
}

pub(super) struct World {
    pub(super) start: Instant,
    pub(super) own: Bytes20,
    pub(super) feed: mpsc::Sender<SocketAddrV4>,
    pub(super) shut: Option<shutdown::Sender>,
    pub(super) peers: Peers,
    pub(super) nodes: Arc<Vec<Node>>,
    pub(super) evs: Arc<Mutex<Vec<Ev>>>,
    pub(super) bad: Arc<Mutex<Vec<String>>>,
}

pub(super) struct Asker {
    sock: UdpSocket,
}

impl Asker {
    pub(super) async fn new(ip: [u8; 4]) -> Self {
        Asker { sock: UdpSocket::bind(SocketAddrV4::new(ip.into(), 0)).await.unwrap() }
    }
    fn ip(&self) -> [u8; 4] {
        match self.sock.local_addr().unwrap() {
            std::net::SocketAddr::V4(a) => a.ip().octets(),
            _ => unreachable!(),
        }
    }
    async fn say(&self, b: &[u8]) {
        let _ = self.sock.send_to(b, CLIENT).await;
    }
    fn heard(&self) -> Vec<Vec<u8>> {
        let mut all = vec![];
        let mut b = vec![0; 65536];
        while let Ok((n, from)) = self.sock.try_recv_from(&mut b) {
            if from == CLIENT.into() {
                all.push(b[..n].to_vec());
            }
        }
        all
    }
    pub(super) async fn ask(&self, k: &K, tid: &[u8], more: &Extra) -> Vec<Vec<u8>> {
        self.say(&k.value(tid, more, &vec![]).encode()).await;
        sleep(Duration::from_millis(60)).await;
        self.heard()
    }
}

impl World {
    pub(super) fn now(&self) -> u64 {
        self.start.elapsed().as_millis() as u64
    }

    pub(super) async fn boot(info_hash: &Bytes20, tcp_port: u16, initial: &[[u8; 6]]) -> Result<World, String> {
        let peers = Peers::new(&id(info_hash));
        initial.iter().for_each(|a| peers.insert(Peer::new(sock(a))));
        let (shut, shut_rx) = shutdown::channel();
        Self::start(peers, info_hash, tcp_port, shut, shut_rx).await
    }

    pub(super) async fn start(peers: Peers, info_hash: &Bytes20, tcp_port: u16, shut: shutdown::Sender, shut_rx: shutdown::Receiver) -> Result<World, String> {
        alone();
        fine_clock();
        let (feed, feed_rx) = mpsc::channel(32);
        start_dht(tcp_port, peers.clone(), id(info_hash), feed_rx, shut_rx).await;
        // who is it?
        let asker = Asker::new([127, 2, 9, 9]).await;
        for _ in 0..50 {
            for b in asker.ask(&K::Ping([9; 20]), b"own", &vec![]).await {
                if let Some((_, K::Pong(own))) = parse(&b) {
                    return Ok(World {
                        start: Instant::now(),
                        own,
                        feed,
                        shut: Some(shut),
                        peers,
                        nodes: Default::default(),
                        evs: Default::default(),
                        bad: Default::default(),
                    });
                }
            }
        }
        Err("no answer to a ping".into())
    }

    async fn populate(&mut self, specs: &[Spec]) {
        let own = id(&self.own);
        let mut nodes = vec![];
        let mut socks = vec![];
        for (k, s) in specs.iter().enumerate() {
            // two at an address, of which one shares its port with one of the next two
            let at = |port| SocketAddrV4::new([127, 1, (k >> 8) as u8, 1 + (k >> 1 & 127) as u8].into(), port);
            let same = nodes.last().map(|n: &Node| at(n.addr.port())).filter(|_| k % 4 == 2);
            let sock = match same {
                Some(a) => UdpSocket::bind(a).await,
                None => UdpSocket::bind(at(0)).await,
            };
            let sock = match sock {
                Ok(s) => s,
                Err(_) => UdpSocket::bind(at(0)).await.unwrap(),
            };
            let std::net::SocketAddr::V4(addr) = sock.local_addr().unwrap() else { unreachable!() };
            nodes.push(Node { id: s.at.of(&own), addr, spec: s.clone() });
            socks.push(Arc::new(sock));
        }
        self.nodes = Arc::new(nodes);
        for (k, sock) in socks.into_iter().enumerate() {
            tokio::spawn(serve(k, sock, self.nodes.clone(), self.evs.clone(), self.bad.clone(), self.start));
        }
    }

    async fn feed(&self) {
        for n in self.nodes.iter().filter(|n| n.spec.fed) {
            let _ = self.feed.send(n.addr).await;
        }
    }

    pub(super) fn evs(&self) -> Vec<Ev> {
        self.evs.lock().unwrap().clone()
    }

    /// Well-formed queries under the own id, each with a transaction id of its own.
    pub(super) fn queries_are_proper(&self) -> Result<(), String> {
        if let Some(b) = self.bad.lock().unwrap().first() {
            return Err(b.clone());
        }
        let mut tids = BTreeSet::new();
        for e in self.evs() {
            let id = match &e.query {
                K::Ping(i) | K::Find(i, _) | K::Get(i, _) | K::Announce(i, ..) => i,
                k => return Err(format!("{k:?} was sent to node {}", e.node)),
            };
            ensure!(*id == self.own, "a query under the id {id:?}");
            ensure!(tids.insert(e.tid.clone()), "transaction id {:?} was used twice", e.tid);
        }
        Ok(())
    }

    /// Node -> when the client first got a proper answer to a ping or find_node.
    pub(super) fn known(&self) -> BTreeMap<usize, u64> {
        let mut m = BTreeMap::new();
        for e in self.evs() {
            if let (Some(t), K::Ping(_) | K::Find(..)) = (e.answered, &e.query) {
                let x = m.entry(e.node).or_insert(t);
                *x = t.min(*x);
            }
        }
        m
    }

    fn closest(&self, known: &BTreeMap<usize, u64>, target: &Bytes20) -> BTreeSet<(Bytes20, [u8; 6])> {
        let mut v: Vec<(Bytes20, (Bytes20, [u8; 6]))> = known
            .keys()
            .map(|k| {
                let n = &self.nodes[*k];
                let mut d = n.id;
                d.iter_mut().zip(target).for_each(|(x, y)| *x ^= y);
                (d, (n.id, compact(&n.addr)))
            })
            .collect();
        v.sort();
        if v.first().map(|x| x.0 == [0; 20]).unwrap_or(false) {
            v.truncate(1);
        }
        v.truncate(8);
        v.into_iter().map(|x| x.1).collect()
    }
}

pub(super) async fn serve(k: usize, sock: Arc<UdpSocket>, nodes: Arc<Vec<Node>>, evs: Arc<Mutex<Vec<Ev>>>, bad: Arc<Mutex<Vec<String>>>, start: Instant) {
    let mut buf = vec![0; 4096];
    let mut count = 0usize;
    let me = nodes[k].clone();
    let refs: Vec<(Bytes20, [u8; 6])> = {
        let mut seen = BTreeSet::new();
        me.spec.refs.iter().map(|r| *r as usize % nodes.len()).filter(|r| seen.insert(*r)).map(|r| (nodes[r].id, compact(&nodes[r].addr))).collect()
    };
    loop {
        let Ok((n, from)) = sock.recv_from(&mut buf).await else { return };
        if from != CLIENT.into() {
            continue;
        }
        let Some((tid, query)) = parse(&buf[..n]) else {
            bad.lock().unwrap().push(format!("node {k} got {:?}", String::from_utf8_lossy(&buf[..n])));
            continue;
        };
        let mut a = me.spec.script.get(count).copied().unwrap_or(if me.spec.dead { A::Silent } else { A::Good });
        count += 1;
        let s = start.elapsed().as_secs();
        if me.spec.away.iter().any(|(x, y)| (*x as u64..*y as u64).contains(&s)) {
            a = A::Silent;
        }
        let mut token = me.spec.token.clone();
        token.push(count as u8);
        let right = match &query {
            K::Ping(_) | K::Announce(..) => K::Pong(me.id),
            K::Find(..) => K::Found(me.id, refs.clone()),
            _ if me.spec.gives.is_empty() => K::Nodes(me.id, token, refs.clone()),
            _ => K::Values(me.id, token, me.spec.gives.clone()),
        };
        let wrong = match &query {
            K::Ping(_) | K::Announce(..) => K::Found(me.id, refs.clone()),
            K::Find(..) => K::Pong(me.id),
            _ => K::Found(me.id, refs.clone()),
        };
        let i = {
            let mut e = evs.lock().unwrap();
            let answer = matches!(a, A::Good | A::Twice | A::Late(_) | A::Mended).then(|| right.clone());
            e.push(Ev { t: start.elapsed().as_millis() as u64, node: k, query, tid: tid.clone(), answered: None, answer });
            e.len() - 1
        };
        let none = vec![];
        let good = right.value(&tid, &none, &none).encode();
        let bent = {
            let mut t = tid.clone();
            t[count % tid.len()] ^= 1 << (count % 8);
            right.value(&t, &none, &none).encode()
        };
        let (mistyped, damaged) = (wrong.value(&tid, &none, &none).encode(), good[..good.len() - 1 - count % 20].to_vec());
        let (out, late) = match a {
            A::Silent => continue,
            A::Good => (vec![good], me.spec.lag),
            A::Twice => (vec![good.clone(), good], 0),
            A::Late(ms) => (vec![good], ms),
            A::WrongTid => (vec![bent], 0),
            A::WrongKind => (vec![mistyped], 0),
            A::Garbage => (vec![damaged, fill(count as u64, 40)], 0),
            A::Mended => (vec![mistyped, damaged, bent, good], 0),
        };
        let (sock, evs) = (sock.clone(), evs.clone());
        let proper = matches!(a, A::Good | A::Twice | A::Late(_) | A::Mended);
        tokio::spawn(async move {
            if late > 0 {
                sleep(Duration::from_millis(late as u64)).await;
            }
            for b in out {
                let _ = sock.send_to(&b, CLIENT).await;
            }
            if proper {
                evs.lock().unwrap()[i].answered = Some(start.elapsed().as_millis() as u64);
            }
        });
    }
}

// ---------------------------------------------------------------- C14, C15

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Target {
    Node(u8),
    Near(Delta),
    Any(Bytes20),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Hash {
    Own,
    Other(u8),
    Any(Bytes20),
    Node(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Tok {
    /// the last one given to this address
    Own,
    /// one given to another address
    Others(u8),
    Garbage(Vec<u8>),
    /// the own one with a bit flipped
    Bent(u8),
    /// the own one cut short
    Short(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Q {
    Ping,
    Find(Target),
    Get(Hash),
    Announce(Hash, u16, Tok),
    Crowd(Hash, u16, u8),
    Noise(Vec<u8>),
    Unasked(K),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Quiz {
    nodes: Vec<Spec>,
    initial: Vec<[u8; 6]>,
    hashes: Vec<Bytes20>,
    steps: Vec<(u8, Vec<u8>, Bytes20, Q, Extra)>,
}

fn hash() -> impl Strategy<Value = Hash> {
    prop_oneof![
        3 => Just(Hash::Own),
        4 => (0u8..2).prop_map(Hash::Other),
        1 => bytes20().prop_map(Hash::Any),
        1 => any::<u8>().prop_map(Hash::Node),
    ]
}

fn quiz(asks: u32, announces: u32) -> impl Strategy<Value = Quiz> {
    let target = prop_oneof![
        2 => any::<u8>().prop_map(Target::Node),
        2 => delta(5).prop_map(Target::Near),
        1 => bytes20().prop_map(Target::Any),
    ];
    let tok = prop_oneof![
        4 => Just(Tok::Own),
        2 => any::<u8>().prop_map(Tok::Others),
        1 => vec(any::<u8>(), 0..24).prop_map(Tok::Garbage),
        1 => any::<u8>().prop_map(Tok::Bent),
        1 => (0u8..19).prop_map(Tok::Short),
    ];
    let noise = (message(), tid(), extras(), vec(super::bencode::cut(), 0..4)).prop_map(|(k, t, e, c)| {
        let k = match k {
            // nothing that is a valid announcement by accident
            K::Announce(i, h, p, _) => K::Announce(i, h, p, b"none".to_vec()),
            k => k,
        };
        super::bencode::damage(k.value(&t, &e, &vec![]).encode(), &c)
    });
    let q = prop_oneof![
        asks / 2 => Just(Q::Ping),
        asks => target.prop_map(Q::Find),
        asks + announces => hash().prop_map(Q::Get),
        announces * 2 => (hash(), any::<u16>(), tok).prop_map(|(h, p, t)| Q::Announce(h, p, t)),
        1 => (hash(), any::<u16>(), 1u8..).prop_map(|(h, p, n)| Q::Crowd(h, p, n)),
        2 => noise.prop_map(Q::Noise),
        1 => vec(any::<u8>(), 0..2000).prop_map(Q::Noise),
        1 => message().prop_map(Q::Unasked),
    ];
    (
        vec(spec(0, 0, 0, 1.0), 0..20),
        prop_oneof![2 => Just(vec![]), 1 => vec(addr6(), 1..10)],
        vec(bytes20(), 3),
        vec((0u8..4, vec(any::<u8>(), 1..21), bytes20(), q, extras()), 1..25),
    )
        .prop_map(|(nodes, initial, hashes, steps)| Quiz { nodes: settle(nodes), initial, hashes, steps })
}

async fn answers(z: &Quiz) -> TestResult {
    forget_table();
    let own_hash = z.hashes[0];
    let mut w = World::boot(&own_hash, 7777, &z.initial).await?;
    w.populate(&z.nodes).await;
    w.feed().await;
    sleep(Duration::from_millis(300)).await;
    let known = w.known();
    ensure!(known.len() == w.nodes.len(), "{} of {} nodes were asked", known.len(), w.nodes.len());
    let askers = [
        Asker::new([127, 2, 0, 1]).await,
        Asker::new([127, 2, 0, 1]).await,
        Asker::new([127, 2, 0, 2]).await,
        Asker::new([127, 3, 0, 1]).await,
    ];
    let stranger = Asker::new([127, 4, 0, 1]).await;
    let mut peers: BTreeMap<Bytes20, BTreeSet<SocketAddrV4>> = BTreeMap::new();
    peers.insert(own_hash, z.initial.iter().map(sock).collect());
    let mut tokens: BTreeMap<[u8; 4], Vec<u8>> = BTreeMap::new();
    let (mut finds, mut gets, mut stored, mut refused, mut crowded) = (0, 0, 0, 0, false);
    for (n, (who, tid, from, q, more)) in z.steps.iter().enumerate() {
        let asker = &askers[*who as usize % 4];
        let hash = |h: &Hash| match h {
            Hash::Own => own_hash,
            Hash::Other(i) => z.hashes[1 + *i as usize % 2],
            Hash::Any(b) => *b,
            Hash::Node(k) => w.nodes.get(*k as usize % w.nodes.len().max(1)).map(|n| n.id).unwrap_or([1; 20]),
        };
        let brief: String = format!("{q:?}").chars().take(200).collect();
        let at = format!("step {n} ({brief})");
        let one = |got: Vec<Vec<u8>>| -> Result<K, String> {
            ensure!(got.len() == 1, "{at}: {} answers", got.len());
            ensure!(got[0].len() <= 1300, "{at}: the answer has {} bytes", got[0].len());
            let (t, k) = parse(&got[0]).ok_or(format!("{at}: answered {:?}", String::from_utf8_lossy(&got[0])))?;
            ensure!(t == *tid, "{at}: transaction id {t:?} instead of {tid:?}");
            let (K::Pong(i) | K::Found(i, _) | K::Nodes(i, ..) | K::Values(i, ..)) = &k else {
                return Err(format!("{at}: answered {k:?}"));
            };
            ensure!(*i == w.own, "{at}: answered under the id {i:?}");
            Ok(k)
        };
        match q {
            Q::Ping => {
                let k = one(asker.ask(&K::Ping(*from), tid, more).await)?;
                ensure!(matches!(k, K::Pong(_)), "{at}: answered {k:?}");
            }
            Q::Find(t) => {
                let t = match t {
                    Target::Node(k) if !w.nodes.is_empty() => w.nodes[*k as usize % w.nodes.len()].id,
                    Target::Near(d) => d.of(&id(&w.own)),
                    Target::Any(b) => *b,
                    _ => *from,
                };
                let got = asker.ask(&K::Find(*from, t), tid, more).await;
                if known.is_empty() {
                    ensure!(got.len() <= 1, "{at}: {} answers", got.len());
                    continue;
                }
                let K::Found(_, nodes) = one(got)? else { return Err(format!("{at}: no nodes")) };
                let set: BTreeSet<_> = nodes.iter().copied().collect();
                ensure!(set.len() == nodes.len(), "{at}: a node twice in {nodes:?}");
                let want = w.closest(&known, &t);
                ensure!(set == want, "{at}: nodes {set:?} instead of {want:?}");
                finds += 1;
            }
            Q::Get(h) => {
                let h = hash(h);
                let got = asker.ask(&K::Get(*from, h), tid, more).await;
                let have = peers.get(&h).cloned().unwrap_or_default();
                if known.is_empty() && have.is_empty() {
                    ensure!(got.len() <= 1, "{at}: {} answers", got.len());
                    continue;
                }
                let token = match one(got)? {
                    K::Values(_, token, v) => {
                        let set: BTreeSet<SocketAddrV4> = v.iter().map(sock).collect();
                        ensure!(set.len() == v.len(), "{at}: a peer twice");
                        ensure!(set.is_subset(&have), "{at}: peers {:?} were never announced", set.difference(&have).collect::<Vec<_>>());
                        ensure!(!set.is_empty() && (set.len() == have.len() || set.len() >= 50), "{at}: {} of {} peers", set.len(), have.len());
                        crowded |= have.len() > 100;
                        token
                    }
                    K::Nodes(_, token, v) => {
                        ensure!(have.is_empty(), "{at}: nodes, though there are peers");
                        let want = w.closest(&known, &h);
                        let set: BTreeSet<_> = v.iter().copied().collect();
                        ensure!(set == want && set.len() == v.len(), "{at}: nodes {v:?} instead of {want:?}");
                        token
                    }
                    k => return Err(format!("{at}: answered {k:?}")),
                };
                ensure!(!token.is_empty(), "{at}: an empty token");
                for (ip, t) in &tokens {
                    ensure!(*ip == asker.ip() || *t != token, "{at}: the token of {ip:?} was given to {:?}", asker.ip());
                }
                tokens.insert(asker.ip(), token);
                gets += 1;
            }
            Q::Announce(h, port, tok) => {
                let h = hash(h);
                let own = tokens.get(&asker.ip()).cloned();
                let token = match (tok, own) {
                    (Tok::Own, Some(t)) => t,
                    (Tok::Others(k), _) => {
                        let o: Vec<_> = tokens.iter().filter(|(ip, _)| **ip != asker.ip()).map(|x| x.1.clone()).collect();
                        if o.is_empty() { b"x".to_vec() } else { o[*k as usize % o.len()].clone() }
                    }
                    (Tok::Bent(k), Some(mut t)) => {
                        let l = t.len();
                        t[*k as usize / 8 % l] ^= 1 << (k % 8);
                        t
                    }
                    (Tok::Short(k), Some(mut t)) => {
                        t.truncate(*k as usize % t.len());
                        t
                    }
                    (Tok::Garbage(g), _) => g.clone(),
                    _ => b"guess".to_vec(),
                };
                let valid = tokens.get(&asker.ip()) == Some(&token);
                let got = asker.ask(&K::Announce(*from, h, *port, token), tid, more).await;
                if valid {
                    let k = one(got)?;
                    ensure!(matches!(k, K::Pong(_)), "{at}: answered {k:?}");
                    peers.entry(h).or_default().insert(SocketAddrV4::new(asker.ip().into(), *port));
                    stored += 1;
                } else {
                    ensure!(!got.iter().any(|b| matches!(parse(b), Some((_, K::Pong(_))))), "{at}: a token that is not valid was accepted");
                    refused += 1;
                }
            }
            Q::Crowd(h, port, n) => {
                let h = hash(h);
                let Some(token) = tokens.get(&asker.ip()).cloned() else { continue };
                for i in 0..*n as u16 {
                    let p = port.wrapping_add(i);
                    asker.say(&K::Announce(*from, h, p, token.clone()).value(tid, &vec![], &vec![]).encode()).await;
                    peers.entry(h).or_default().insert(SocketAddrV4::new(asker.ip().into(), p));
                    if i % 16 == 15 {
                        sleep(Duration::from_millis(30)).await;
                    }
                }
                sleep(Duration::from_millis(60)).await;
                let got = asker.heard().len();
                ensure!(got == *n as usize, "{at}: {got} answers to {n} announcements");
            }
            Q::Noise(b) => {
                stranger.say(b).await;
                sleep(Duration::from_millis(15)).await;
                stranger.heard();
            }
            Q::Unasked(k) => {
                let k = match k.clone() {
                    K::Announce(i, h, p, _) => K::Announce(i, h, p, b"none".to_vec()),
                    k => k,
                };
                stranger.say(&k.value(tid, more, &vec![]).encode()).await;
                sleep(Duration::from_millis(15)).await;
                stranger.heard();
            }
        }
    }
    // the client's own candidates are those announced for its torrent
    let got: BTreeSet<SocketAddrV4> = w.peers.peer_addresses().iter().map(|p| *p.addr()).collect();
    ensure!(got == peers[&own_hash], "the client knows the peers {got:?}, announced were {:?}", peers[&own_hash]);
    // still there
    let k = askers[0].ask(&K::Ping([3; 20]), b"end", &vec![]).await;
    ensure!(k.len() == 1, "no answer to a ping at the end");
    w.queries_are_proper()?;
    Ok(Obs::new((finds >= 1 && gets >= 1) || (stored >= 1 && refused >= 1))
        .label_if(stored > 0, "stored")
        .label_if(refused > 0, "refused")
        .label_if(crowded, "more peers than fit"))
}

pub fn queries(ctx: &mut Ctx) {
    ctx.assume("UDP over loopback, virtual timers; transaction ids have at most 20 bytes");
    ctx.check(
        "quiz",
        "up to 19 nodes in the table, and queries of four askers with damaged, unasked and hostile datagrams between them; non-trivial: a find_node and a get_peers were answered, or announcements were both stored and refused",
        Plan::new(2_500, 60_000).timing(),
        quiz(6, 1),
        |z| paused(answers(z)),
    );
}

pub fn announcements(ctx: &mut Ctx) {
    ctx.assume("UDP over loopback, virtual timers; the client's secret is not guessed");
    ctx.check(
        "quiz",
        "as C14, with mostly announcements: right, bent, shortened, stolen and invented tokens; non-trivial: as C14",
        Plan::new(2_500, 60_000).timing(),
        quiz(2, 8),
        |z| paused(answers(z)),
    );
}

// ---------------------------------------------------------------- C16

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Talk {
    nodes: Vec<Spec>,
    /// well-formed answers nobody asked for: when, what, transaction id
    forged: Vec<(u16, K, Vec<u8>)>,
    secs: u8,
    /// nodes only in what is forged
    baits: Vec<Delta>,
}

/// At times a crowd, near and far, nodes of which tell of up to 20 others.
fn talk(scripts: usize, crowded: u32) -> impl Strategy<Value = Talk> {
    let forged = (0u16..20_000, message(), prop_oneof![4 => vec(any::<u8>(), 5), 1 => tid()]);
    let crowd = (vec((spec(scripts, 20, 0, 0.9), 0u8..30), 14..130), any::<bool>()).prop_map(|(v, shy)| {
        v.into_iter().enumerate().map(|(k, (s, first))| Spec { at: Delta { first, ..s.at }, fed: s.fed && (!shy || k < 4), ..s }).collect()
    });
    let nodes = prop_oneof![32 - crowded => vec(spec(scripts, 6, 0, 0.4), 1..14), crowded => crowd];
    (nodes, vec(forged, 0..6), 4u8..40, vec((160u8..=160, any::<u64>()).prop_map(|(_, tail)| Delta { first: 6, tail }), 0..3)).prop_map(
        |(nodes, forged, secs, baits)| {
            let mut n = settle(nodes);
            n.retain(|s| s.at.first != 6);
            if let Some(s) = n.first_mut() {
                s.fed = true;
            }
            Talk { nodes: n, forged, secs, baits }
        },
    )
}

async fn matching(z: &Talk) -> TestResult {
    forget_table();
    if z.nodes.is_empty() {
        return Ok(Obs::new(false));
    }
    let mut w = World::boot(&[0x55; 20], 7777, &[]).await?;
    // the baits come last and nobody refers to them
    let real = z.nodes.len();
    let mut specs = z.nodes.clone();
    for s in &mut specs {
        s.refs.iter_mut().for_each(|r| *r %= real as u16);
    }
    specs.extend(z.baits.iter().map(|b| Spec { at: *b, script: vec![], dead: false, refs: vec![], gives: vec![], token: vec![1], fed: false, lag: 0, away: vec![] }));
    w.populate(&specs).await;
    let stranger = Asker::new([127, 4, 0, 1]).await;
    let mut forged = z.forged.clone();
    forged.sort_by_key(|f| f.0);
    let bait = |k: &K| -> K {
        let baits: Vec<(Bytes20, [u8; 6])> = w.nodes[real..].iter().map(|n| (n.id, compact(&n.addr))).collect();
        let from = baits.first().map(|b| b.0).unwrap_or([6; 20]);
        match k {
            K::Found(..) => K::Found(from, baits),
            K::Nodes(_, t, _) => K::Nodes(from, t.clone(), baits),
            K::Values(_, t, v) => K::Values(from, t.clone(), v.clone()),
            K::Pong(_) => K::Pong(from),
            k => k.clone(),
        }
    };
    w.feed().await;
    let mut claimed = BTreeSet::new();
    for (t, k, tid) in &forged {
        sleep_until(w.start + Duration::from_millis(*t as u64)).await;
        let k = match k {
            K::Announce(i, h, p, _) => K::Announce(*i, *h, *p, b"none".to_vec()),
            k => bait(k),
        };
        if let K::Found(i, _) | K::Nodes(i, ..) | K::Values(i, ..) | K::Pong(i) = &k {
            claimed.insert(*i);
        }
        stranger.say(&k.value(tid, &vec![], &vec![]).encode()).await;
    }
    let end = z.secs as u64 * 1000 + forged.last().map(|f| f.0 as u64).unwrap_or(0);
    sleep_until(w.start + Duration::from_millis(end)).await;
    w.queries_are_proper()?;
    let evs = w.evs();
    for e in &evs {
        ensure!(e.node < real, "node {} was asked ({:?}), which only unasked answers named", e.node, e.query);
    }
    let first_heard = w.known();
    // nodes learned of are asked too
    let mut many = 0;
    for e in &evs {
        let (Some(t), Some(K::Found(_, refs)), K::Find(..)) = (e.answered, &e.answer, &e.query) else { continue };
        if t + 200 > end {
            continue;
        }
        let mut unknown = 0;
        for (i, _) in refs {
            let k = w.nodes.iter().position(|n| n.id == *i).unwrap();
            let is_known = first_heard.get(&k).map(|h| *h <= t).unwrap_or(false);
            let asked = evs.iter().any(|x| x.node == k && matches!(x.query, K::Ping(_)) && x.t + 20 >= t && x.t <= t + 200);
            unknown += !is_known as usize;
            many = many.max(unknown);
            ensure!(is_known || asked, "node {k}, named by node {} at {t} ms, was not asked (not known either)", e.node);
        }
    }
    let fed_asked = |k: usize| evs.iter().any(|x| x.node == k && matches!(x.query, K::Ping(_)));
    for k in 0..real {
        ensure!(!w.nodes[k].spec.fed || fed_asked(k), "node {k}, heard of from a peer, was not asked");
    }
    // who is in the table?
    let asker = Asker::new([127, 2, 0, 1]).await;
    let (mut yes, mut no) = (0, 0);
    for k in 0..w.nodes.len() {
        let n = w.nodes[k].clone();
        let before = w.now();
        let got = asker.ask(&K::Find([2; 20], n.id), b"who", &vec![]).await;
        let heard = w.known();
        let exact = match got.first().and_then(|b| parse(b)) {
            Some((_, K::Found(_, v))) => {
                for (i, _) in &v {
                    ensure!(!claimed.contains(i) || heard.keys().any(|k| w.nodes[*k].id == *i), "a node that never answered is handed out");
                }
                v == vec![(n.id, compact(&n.addr))]
            }
            None if heard.is_empty() => false,
            x => return Err(format!("asked for node {k}: {x:?}")),
        };
        match heard.get(&k) {
            // just now
            Some(t) if *t + 100 > before => {}
            Some(t) => {
                ensure!(exact, "node {k} answered at {t} ms and is not in the table");
                yes += 1;
            }
            // the only good one is all there is to hand out
            None => {
                ensure!(!exact, "node {k} is in the table, it never answered properly");
                no += 1;
            }
        }
    }
    Ok(Obs::new(yes > 0 && no > 0)
        .label_if(!forged.is_empty(), "unasked")
        .label_if(no > 0, "silent or wrong")
        .label_if(yes > 16, "more than 16 in the table")
        .label_if(many > 8, "more than 8 unknown ones named at once"))
}

pub fn responses(ctx: &mut Ctx) {
    ctx.assume("UDP over loopback, virtual timers; a transaction id is not guessed");
    ctx.check(
        "talk",
        "up to 13, at times 129, nodes that answer the client's questions properly, late, twice, with a wrong transaction id, of the wrong kind, with garbage or not at all, and unasked answers; afterwards the table is probed; non-trivial: some nodes belong in the table and some do not",
        Plan::new(500, 15_000).timing(),
        talk(4, 2),
        |z| paused(matching(z)),
    );
    ctx.check(
        "hours",
        "up to 19 nodes over up to two hours, some of which are away for a while; those a peer tells of are pinged; a node is handed out exactly when its last answer to a ping or find_node is at most 15 minutes old; non-trivial: it is so for one and not for another",
        Plan::new(40, 1_500).timing(),
        hours(),
        |z| paused(ageing(z)),
    );
}

/// Nodes over hours, some of which are away for a while; peers tell of them again.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Hours {
    nodes: Vec<Spec>,
    /// s, node
    told: Vec<(u16, u8)>,
    /// s at which the table is looked at
    looks: Vec<u16>,
}

fn hours() -> impl Strategy<Value = Hours> {
    let time = || prop_oneof![2 => 0u16..8_000, 1 => 700u16..2_500];
    let away = move || prop_oneof![2 => Just(vec![]), 3 => vec((time(), 1u16..5_000).prop_map(|(a, d)| (a, a + d)), 1..3), 1 => Just(vec![(60, 60_000)])];
    (prop_oneof![2 => vec((spec(1, 4, 0, 0.5), away()), 1..8), 1 => vec((spec(1, 4, 0, 0.9), away()), 9..20)], vec((time(), any::<u8>()), 0..8), vec(time(), 1..7)).prop_map(|(nodes, told, mut looks)| {
        looks.sort();
        let nodes = nodes.into_iter().map(|(s, away)| Spec { away, ..s }).collect();
        Hours { nodes: settle(nodes), told, looks }
    })
}

async fn ageing(z: &Hours) -> TestResult {
    forget_table();
    let mut w = World::boot(&[0x55; 20], 7777, &[]).await?;
    w.populate(&z.nodes).await;
    w.feed().await;
    let asker = Asker::new([127, 2, 0, 1]).await;
    let mut todo: Vec<(u16, Option<usize>)> = z.told.iter().map(|(t, k)| (*t, Some(*k as usize % w.nodes.len()))).collect();
    todo.extend(z.looks.iter().map(|t| (*t, None)));
    todo.sort();
    let (mut fresh, mut stale, mut back) = (0, 0, false);
    let mut lapsed = BTreeSet::new();
    for (t, what) in todo {
        long_while(w.start + Duration::from_secs(t as u64)).await;
        if let Some(k) = what {
            let before = w.now();
            let _ = w.feed.send(w.nodes[k].addr).await;
            sleep(Duration::from_millis(200)).await;
            let asked = w.evs().iter().any(|e| e.node == k && e.t >= before && matches!(e.query, K::Ping(_)));
            ensure!(asked, "a peer told of node {k} at {before} ms, and it was not asked");
            continue;
        }
        let far = fill(t as u64, 20).try_into().unwrap();
        let (mut got, mut now) = (vec![], 0);
        for k in 0..w.nodes.len() {
            // no node has the id `far`, so up to eight good ones are all handed out at once
            if k == 0 || w.nodes.len() > 8 {
                now = w.now();
                let target = if w.nodes.len() > 8 { (1..).map(|x| { let mut i = w.nodes[k].id; i[19] ^= x; i }).find(|i| w.nodes.iter().all(|n| n.id != *i)).unwrap() } else { far };
                got = match asker.ask(&K::Find([2; 20], target), b"who", &vec![]).await.first().and_then(|b| parse(b)) {
                    Some((_, K::Found(_, v))) => v,
                    None => vec![],
                    x => return Err(format!("asked for nodes at {now} ms: {x:?}")),
                };
            }
            let evs = w.evs();
            let there = got.contains(&(w.nodes[k].id, compact(&w.nodes[k].addr)));
            let last = evs.iter().filter(|e| e.node == k && matches!(e.query, K::Ping(_) | K::Find(..))).filter_map(|e| e.answered).max();
            match last {
                Some(t) if t + 500 > now || now.abs_diff(t + 15 * 60_000) < 5_000 => {}
                Some(t) if now < t + 15 * 60_000 => {
                    ensure!(there, "node {k} last answered at {t} ms and is not handed out at {now} ms");
                    fresh += 1;
                    back |= lapsed.contains(&k);
                }
                Some(t) => {
                    ensure!(!there, "node {k} last answered at {t} ms and is handed out at {now} ms");
                    stale += 1;
                    lapsed.insert(k);
                }
                None => ensure!(!there, "node {k} never answered and is handed out at {now} ms"),
            }
        }
    }
    w.queries_are_proper()?;
    // good nodes are asked again before they lapse
    let (evs, end) = (w.evs(), w.now());
    for t in evs.iter().filter(|e| !matches!(e.query, K::Get(..) | K::Announce(..))).filter_map(|e| e.answered) {
        let asked = evs.iter().any(|e| e.t > t && e.t < t + 895_000 && !matches!(e.query, K::Get(..) | K::Announce(..)));
        ensure!(asked || end < t + 900_000, "a node answered at {t} ms and nobody was asked anything until that was too long ago");
    }
    Ok(Obs::new(fresh > 0 && stale > 0).label_if(stale > 0, "a node lapsed").label_if(back, "a node came back"))
}

// ---------------------------------------------------------------- C34

async fn first_run(z: &Talk) -> Result<(Bytes20, Vec<Node>, BTreeSet<(Bytes20, SocketAddrV4)>), String> {
    forget_table();
    let mut w = World::boot(&[0x55; 20], 7777, &[]).await?;
    w.populate(&z.nodes).await;
    w.feed().await;
    sleep_until(w.start + Duration::from_millis(z.secs as u64 * 500)).await;
    let before = w.now();
    let shut = w.shut.take().unwrap();
    // the file is written by a thread, virtual time means nothing to it
    let file = std::path::Path::new(&std::env::var("HOME").unwrap()).join(".nargun");
    let kept = move || std::fs::read_dir(&file).into_iter().flatten().flatten().map(|f| (f.path(), std::fs::read(f.path()).ok())).collect::<BTreeMap<_, _>>();
    let then = kept.clone();
    // what is there when the program may end is what the next run finds
    let waiter = tokio::spawn(async move {
        shut.send().wait().await;
        then()
    });
    let real = std::time::Instant::now();
    while !waiter.is_finished() && real.elapsed() < Duration::from_secs(10) {
        sleep(Duration::from_millis(5)).await;
        std::thread::sleep(Duration::from_micros(100));
    }
    ensure!(waiter.is_finished(), "the DHT did not end after the shutdown");
    let at_the_end = waiter.await.map_err(|e| e.to_string())?;
    std::thread::sleep(Duration::from_millis(2));
    let loaded = RoutingTable::new().await;
    ensure!(loaded.own_id().as_byte_ref() == w.own, "another own id was stored");
    let stored: BTreeSet<(Bytes20, SocketAddrV4)> =
        loaded.iter_nodes().map(|n| (n.id.as_byte_ref().try_into().unwrap(), n.addr)).collect();
    let later = kept();
    let sizes = |m: &BTreeMap<std::path::PathBuf, Option<Vec<u8>>>| m.values().map(|v| v.as_ref().map(|v| v.len())).collect::<Vec<_>>();
    ensure!(at_the_end == later, "the stored table was not complete when the shutdown was: files of {:?} bytes, later {:?}", sizes(&at_the_end), sizes(&later));
    let known = w.known();
    for (k, t) in &known {
        let n = &w.nodes[*k];
        ensure!(*t + 100 > before || stored.contains(&(n.id, n.addr)), "node {k}, known since {t} ms, was not stored at {before}");
    }
    for (i, a) in &stored {
        let k = w.nodes.iter().position(|n| n.id == *i && n.addr == *a).ok_or("a node nobody is was stored")?;
        ensure!(known.contains_key(&k), "node {k}, which never answered, was stored");
    }
    Ok((w.own, w.nodes.to_vec(), stored))
}

/// The next run: no node tells of another, no peer of a node.
async fn second_run(z: &Talk, own: Bytes20, old: Vec<Node>, stored: BTreeSet<(Bytes20, SocketAddrV4)>) -> TestResult {
    alone();
    let evs: Arc<Mutex<Vec<Ev>>> = Default::default();
    let bad: Arc<Mutex<Vec<String>>> = Default::default();
    let start = Instant::now();
    let nodes: Vec<Node> = old.iter().map(|n| Node { spec: Spec { refs: vec![], script: vec![], ..n.spec.clone() }, ..n.clone() }).collect();
    let nodes = Arc::new(nodes);
    for (k, n) in nodes.iter().enumerate() {
        let s = UdpSocket::bind(n.addr).await.map_err(|e| format!("harness: {e}"))?;
        tokio::spawn(serve(k, Arc::new(s), nodes.clone(), evs.clone(), bad.clone(), start));
    }
    let mut w = World::boot(&[0x55; 20], 7777, &[]).await?;
    (w.nodes, w.evs) = (nodes.clone(), evs.clone());
    ensure!(w.own == own, "another own id after the restart");
    sleep(Duration::from_secs(1)).await;
    for (k, n) in nodes.iter().enumerate() {
        let asked = evs.lock().unwrap().iter().any(|e| e.node == k && matches!(e.query, K::Ping(_)));
        ensure!(asked == stored.contains(&(n.id, n.addr)), "node {k} was asked at the start: {asked}, stored: {}", !asked);
    }
    let asker = Asker::new([127, 2, 0, 1]).await;
    for (k, n) in nodes.iter().enumerate() {
        let in_it = stored.contains(&(n.id, n.addr));
        let got = asker.ask(&K::Find([2; 20], n.id), b"who", &vec![]).await;
        let exact = matches!(got.first().and_then(|b| parse(b)), Some((_, K::Found(_, v))) if v == vec![(n.id, compact(&n.addr))]);
        ensure!(exact == in_it, "node {k} is known after the restart: {exact}, stored: {in_it}");
    }
    // those that answered are good, the others are not handed out
    let known = w.known();
    let half: Bytes20 = z.nodes[0].at.of(&id(&[0xaa; 20]));
    for target in [[0; 20], [0xff; 20], half, own] {
        let got = asker.ask(&K::Find([2; 20], target), b"all", &vec![]).await;
        let got: BTreeSet<_> = match got.first().and_then(|b| parse(b)) {
            Some((_, K::Found(_, v))) => v.into_iter().collect(),
            _ => BTreeSet::new(),
        };
        let want = w.closest(&known, &target);
        ensure!(got == want, "asked for nodes near {target:?}, got {got:?}, good and nearest are {want:?}");
    }
    Ok(Obs::new(stored.len() >= 2).label_if(stored.len() > 8, "more than a bucket").label_if(stored.len() > 64, "more than 64"))
}

pub fn restart(ctx: &mut Ctx) {
    ctx.assume("UDP over loopback, virtual timers; the table's file is below a scratch home directory");
    ctx.check(
        "restart",
        "nodes that answer or not, a shutdown at a generated time, and a second start with the stored table; non-trivial: at least two nodes were stored",
        Plan::new(250, 8_000).timing(),
        talk(2, 4),
        |z| {
            if z.nodes.is_empty() {
                return Ok(Obs::new(false));
            }
            let (own, nodes, stored) = paused(first_run(z))?;
            paused(second_run(z, own, nodes, stored))
        },
    );
}

// ---------------------------------------------------------------- C36

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Hunt {
    nodes: Vec<Spec>,
    hash: Delta,
    port: u16,
    secs: u16,
    /// so many peers were known before
    #[serde(default)]
    peers: u16,
}

async fn hunt(z: &Hunt) -> TestResult {
    forget_table();
    if z.nodes.is_empty() {
        return Ok(Obs::new(false));
    }
    // the torrent's place in the id space is free, but its distance to the nodes matters: derived from the case
    let hash: Bytes20 = z.hash.bytes();
    let before: Vec<[u8; 6]> = (0..z.peers).map(|k| [11, 0, (k >> 8) as u8, k as u8, 9, 9]).collect();
    let mut w = World::boot(&hash, z.port, &before).await?;
    w.populate(&z.nodes).await;
    w.feed().await;
    let end = z.secs as u64 * 1000;
    sleep_until(w.start + Duration::from_millis(end)).await;
    w.queries_are_proper()?;
    let evs = w.evs();
    let known = w.known();
    let first_good = known.values().min().copied();
    let gets: Vec<&Ev> = evs.iter().filter(|e| matches!(e.query, K::Get(..))).collect();
    let tells: Vec<&Ev> = evs.iter().filter(|e| matches!(e.query, K::Announce(..))).collect();
    for e in gets.iter().chain(&tells) {
        match &e.query {
            K::Get(_, h) | K::Announce(_, h, ..) => ensure!(*h == hash, "asked for another torrent"),
            _ => {}
        }
        if let K::Announce(_, _, p, _) = &e.query {
            ensure!(*p == z.port, "announced port {p} instead of {}", z.port);
        }
    }
    let Some(first_good) = first_good else {
        ensure!(gets.is_empty(), "peers were asked for though no node ever answered");
        return Ok(Obs::new(false));
    };
    if end < first_good + 8_500 {
        return Ok(Obs::new(false));
    }
    ensure!(!gets.is_empty() && gets[0].t <= first_good + 8_500, "no one was asked for peers within 8 s of {first_good} ms");
    // rounds: bursts of get_peers end with announcements, or three seconds after the last answer
    let started: BTreeSet<usize> = gets.iter().filter(|e| e.t <= gets[0].t + 60).map(|e| e.node).collect();
    // the lookup begins as soon as one node is known to be good, with that one
    ensure!(
        known.iter().any(|(k, t)| *t == first_good && started.contains(k)),
        "no node that answered first, at {first_good} ms, was asked for peers at first; {started:?} were"
    );
    let mut per: BTreeMap<usize, Vec<&Ev>> = BTreeMap::new();
    gets.iter().for_each(|e| per.entry(e.node).or_default().push(e));
    let slowest: u64 = z.nodes.iter().flat_map(|n| &n.script).map(|a| if let A::Late(m) = a { *m as u64 } else { 0 }).max().unwrap_or(0);
    let lag = 3_000 * 8 + slowest;
    for (k, g) in &per {
        for x in g.windows(2) {
            ensure!(x[1].t >= x[0].t + 5_000, "node {k} was asked for peers twice within {} ms", x[1].t - x[0].t);
            ensure!(x[1].t <= x[0].t + 121_000 + lag, "node {k} was not asked again for {} ms", x[1].t - x[0].t);
        }
        ensure!(end <= g.last().unwrap().t + 121_000 + lag, "node {k} was not asked again after {} ms", g.last().unwrap().t);
    }
    // the last time a round began for the node asked first
    let anchor = per[&gets[0].node].last().unwrap().t;
    // all they gave is taken over, whoever they named is asked
    let mut given = BTreeSet::new();
    let mut offered: BTreeSet<SocketAddrV4> = before.iter().map(sock).collect();
    for e in &gets {
        let Some(a) = &e.answer else { continue };
        if let K::Values(_, _, v) = a {
            offered.extend(v.iter().map(sock));
        }
        let Some(t) = e.answered.filter(|t| *t + 100 < anchor.max(end.saturating_sub(200).min(e.t + 2_800))) else { continue };
        match a {
            K::Values(_, _, v) => given.extend(v.iter().map(sock)),
            K::Nodes(_, _, v) => {
                for (i, _) in v {
                    let k = w.nodes.iter().position(|n| n.id == *i).unwrap();
                    let late = t > e.t + 2_800;
                    let by = if late { anchor.max(t) + 200 } else { t + 200 };
                    ensure!(
                        by > end || per.get(&k).map(|g| g[0].t <= by).unwrap_or(false),
                        "node {k}, named by node {} at {t} ms, was not asked for peers by {by}", e.node
                    );
                }
            }
            _ => {}
        }
    }
    let got: BTreeSet<SocketAddrV4> = w.peers.peer_addresses().iter().map(|p| *p.addr()).collect();
    ensure!(given.is_subset(&got), "peers {:?} were not taken over", given.difference(&got).collect::<Vec<_>>());
    ensure!(got.is_subset(&offered), "peers {:?} come from nowhere", got.difference(&offered).collect::<Vec<_>>());

    // announcements: to those that gave tokens, with the last one, nearest first, those with peers before the others
    let tidy = z.nodes.iter().all(|n| n.script.iter().all(|a| !matches!(a, A::Late(_))));
    for e in &tells {
        let K::Announce(_, _, _, token) = &e.query else { unreachable!() };
        let tokens: Vec<Vec<u8>> = per
            .get(&e.node)
            .into_iter()
            .flatten()
            .filter(|g| g.answered.map(|t| t <= e.t).unwrap_or(false))
            .filter_map(|g| match g.answer.as_ref()? {
                K::Values(_, t, _) | K::Nodes(_, t, _) => Some(t.clone()),
                _ => None,
            })
            .collect();
        ensure!(tokens.contains(token), "announced to node {} with a token it did not give", e.node);
        ensure!(!tidy || tokens.last() == Some(token), "announced to node {} with an old token", e.node);
    }
    let mut rounds = 0;
    if tidy {
        // bursts of announcements, at most 100 ms long
        let mut bursts: Vec<Vec<&Ev>> = vec![];
        for e in &tells {
            match bursts.last_mut() {
                Some(b) if e.t <= b[0].t + 100 => b.push(e),
                _ => bursts.push(vec![e]),
            }
        }
        for b in &bursts {
            // what each node said last
            let mut said: BTreeMap<usize, bool> = BTreeMap::new();
            for g in &gets {
                if g.answered.map(|t| t <= b[0].t).unwrap_or(false) {
                    said.insert(g.node, matches!(g.answer, Some(K::Values(..))));
                }
            }
            let mut want: Vec<(bool, Bytes20, usize)> = said
                .iter()
                .map(|(k, v)| {
                    let mut d = w.nodes[*k].id;
                    d.iter_mut().zip(&hash).for_each(|(x, y)| *x ^= y);
                    (!v, d, *k)
                })
                .collect();
            want.sort();
            want.truncate(16);
            let want: BTreeSet<usize> = want.into_iter().map(|x| x.2).collect();
            let got: Vec<usize> = b.iter().map(|e| e.node).collect();
            let set: BTreeSet<usize> = got.iter().copied().collect();
            ensure!(set.len() == got.len(), "announced to a node twice at {} ms: {got:?}", b[0].t);
            ensure!(set == want, "announced to the nodes {set:?} at {} ms, expected {want:?}", b[0].t);
        }
        rounds = bursts.len();
        // each round ends with announcements
        if let Some(first) = gets.iter().filter(|g| g.answered.is_some()).map(|g| g.t).min() {
            ensure!(!tells.is_empty() || end < first + lag, "the client never announced itself");
            if let Some(l) = tells.last() {
                let again = gets.iter().filter(|g| g.t > l.t && g.answered.is_some()).map(|g| g.t).min();
                ensure!(again.map(|a| end < a + lag).unwrap_or(true), "no announcement after the round at {} ms", again.unwrap());
            }
        }
    }
    Ok(Obs::new(per.len() > 2 && !tells.is_empty())
        .label_if(rounds > 2, "more than two rounds")
        .label_if(per.len() > 16, "more nodes than are announced to")
        .label_if(per.len() > 64, "more than 64 nodes")
        .label_if(!given.is_empty(), "peers found")
        .label_if(z.peers > 128, "enough peers from the beginning")
        .label_if(!tidy, "late answers"))
}

/// More nodes than the client keeps.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Crowd {
    n: u16,
    seed: u64,
    fanout: u8,
    silent: u8,
    givers: u8,
    /// at any distance of the client's id, instead of anywhere
    deep: bool,
    /// answers come one by one, instead of at once
    staggered: bool,
    /// later than the client waits
    slow: bool,
    fed: u8,
    hash: Bytes20,
    secs: u16,
}

impl Crowd {
    fn specs(&self) -> Vec<Spec> {
        let n = self.n as usize;
        let f = self.fanout as usize;
        let mut seen = BTreeSet::new();
        (0..n)
            .map(|k| {
                let r = fill(self.seed.wrapping_mul(31).wrapping_add(k as u64 + 1), 64 + 2 * f);
                let u = |i: usize| u16::from_le_bytes([r[i], r[i + 1]]) as usize;
                let mut tail = u64::from_le_bytes(r[8..16].try_into().unwrap());
                let first = if self.deep { u(0) % 160 } else { u(0).leading_zeros() as usize - 48 };
                // the deepest are few
                let first = first.min(150) as u8;
                while !seen.insert(Delta { first, tail }.bytes()) {
                    tail = tail.wrapping_add(1);
                }
                let dead = u(2) % 100 < self.silent as usize && k >= self.fed as usize;
                let gives = if u(4) % 100 < self.givers as usize { vec![[10, 0, r[16], r[17], r[18], r[19] | 1]] } else { vec![] };
                Spec {
                    at: Delta { first, tail },
                    script: vec![],
                    dead,
                    refs: (0..f).map(|i| (u(64 + 2 * i) % n) as u16).collect(),
                    gives,
                    token: r[20..24].to_vec(),
                    fed: k < self.fed as usize,
                    lag: if self.staggered { (k * 7 % 400) as u16 + self.slow as u16 * 3100 } else { 0 },
                    away: vec![],
                }
            })
            .collect()
    }
}

fn crowd_case() -> impl Strategy<Value = Crowd> {
    (
        (520u16..900, any::<u64>(), prop_oneof![3 => 4u8..9, 1 => 9u8..91], 0u8..30, prop_oneof![Just(0u8), 0u8..40]),
        (any::<bool>(), prop_oneof![2 => Just((false, false)), 2 => Just((true, false)), 1 => Just((true, true))], 2u8..24, bytes20(), 60u16..400),
    )
        .prop_map(|((n, seed, fanout, silent, givers), (deep, (staggered, slow), fed, hash, secs))| Crowd {
            n,
            seed,
            fanout: if staggered { fanout.min(8) } else { fanout },
            silent,
            givers,
            deep,
            staggered,
            slow,
            fed,
            hash,
            secs,
        })
}

/// Datagrams the kernel had no room for.
fn drops() -> usize {
    let all = std::fs::read_to_string("/proc/net/udp").unwrap_or_default();
    all.lines()
        .filter(|l| l.split_whitespace().nth(1).map(|a| a.ends_with(&format!(":{:04X}", CLIENT.port()))).unwrap_or(false))
        .filter_map(|l| l.split_whitespace().last()?.parse::<usize>().ok())
        .sum()
}

async fn crowd(z: &Crowd) -> TestResult {
    forget_table();
    let mut w = World::boot(&z.hash, 7777, &[]).await?;
    w.populate(&z.specs()).await;
    w.feed().await;
    let end = z.secs as u64 * 1000;
    let real = std::time::Instant::now();
    let asker = Asker::new([127, 2, 0, 1]).await;
    let mut unanswered = 0;
    while w.now() < end && real.elapsed() < Duration::from_secs(60) {
        sleep(Duration::from_millis(5_000)).await;
        let k = asker.ask(&K::Ping([3; 20]), b"alive", &vec![]).await;
        unanswered = if k.is_empty() { unanswered + 1 } else { 0 };
        ensure!(unanswered < 3, "three pings were not answered, the last one at {} ms", w.now());
    }
    let strict = z.staggered && !z.slow && drops() == 0;
    ensure!(w.now() >= end, "the client asks without end: {} questions in {} ms", w.evs().len(), w.now());
    w.queries_are_proper()?;
    let evs = w.evs();
    let known = w.known();
    let gets: Vec<&Ev> = evs.iter().filter(|e| matches!(e.query, K::Get(..))).collect();
    let tells: Vec<&Ev> = evs.iter().filter(|e| matches!(e.query, K::Announce(..))).collect();
    let Some(first_good) = known.values().min().copied() else { return Err("no node answered".into()) };
    ensure!(!gets.is_empty() && gets[0].t <= first_good + 8_500, "no one was asked for peers within 8 s of {first_good} ms");
    let mut bursts: Vec<Vec<&Ev>> = vec![];
    for e in &tells {
        match bursts.last_mut() {
            Some(b) if e.t <= b[0].t + 100 => b.push(e),
            _ => bursts.push(vec![e]),
        }
    }
    // rounds go on
    let mut last = first_good;
    for t in bursts.iter().map(|b| b[0].t).chain([end]) {
        ensure!(t <= last + 181_000, "no announcement for {} ms after {last} ms", t - last);
        last = t;
    }
    ensure!(end < first_good + 60_000 || !bursts.is_empty(), "never announced");
    // once per round
    let mut per: BTreeMap<usize, Vec<&Ev>> = BTreeMap::new();
    gets.iter().for_each(|e| per.entry(e.node).or_default().push(e));
    for (k, g) in &per {
        for x in g.windows(2) {
            ensure!(
                bursts.iter().any(|b| x[0].t <= b[0].t && b[0].t <= x[1].t) || (z.slow && x[1].t >= x[0].t + 3_000),
                "node {k} was asked at {} ms and at {} ms in the same round", x[0].t, x[1].t
            );
        }
    }
    let answered = |e: &Ev| e.answered.map(|t| t + 20);
    // those that answered before there were too many
    let mut distinct = BTreeSet::new();
    let full = gets.iter().find(|g| distinct.insert(g.node) && distinct.len() >= 505).map(|g| g.t).unwrap_or(u64::MAX);
    let distance = |k: usize| {
        let mut d = w.nodes[k].id;
        d.iter_mut().zip(&z.hash).for_each(|(x, y)| *x ^= y);
        d
    };
    let key = |k: usize| (w.nodes[k].spec.gives.is_empty(), distance(k));
    for b in &bursts {
        let got: BTreeSet<usize> = b.iter().map(|e| e.node).collect();
        ensure!(got.len() == b.len() && got.len() <= 16, "announced to {:?} at {} ms", b.iter().map(|e| e.node).collect::<Vec<_>>(), b[0].t);
        for e in b {
            let K::Announce(_, h, p, token) = &e.query else { unreachable!() };
            ensure!(*h == z.hash && *p == 7777, "announced {h:?} on port {p}");
            let tokens: Vec<&Vec<u8>> = per
                .get(&e.node)
                .into_iter()
                .flatten()
                .filter(|g| g.answered.map(|t| t <= e.t).unwrap_or(false))
                .filter_map(|g| match g.answer.as_ref()? {
                    K::Values(_, t, _) | K::Nodes(_, t, _) => Some(t),
                    _ => None,
                })
                .collect();
            ensure!(tokens.contains(&token), "announced to node {} with a token it did not give", e.node);
            ensure!(!strict || tokens.last() == Some(&token), "announced to node {} with an old token", e.node);
        }
        if strict {
            let mut best: Vec<_> =
                gets.iter().filter(|g| answered(g).map(|t| t < full.min(b[0].t)).unwrap_or(false)).map(|g| key(g.node)).collect();
            best.sort();
            best.dedup();
            best.truncate(16);
            let mut keys: Vec<_> = got.iter().map(|k| key(*k)).collect();
            keys.sort();
            ensure!(keys.len() >= best.len(), "announced to {} nodes at {} ms, {} had answered", keys.len(), b[0].t, best.len());
            for (i, (x, y)) in keys.iter().zip(&best).enumerate() {
                ensure!(x <= y, "at {} ms the {i}. node announced to is {x:?}, {y:?} had answered before", b[0].t);
            }
        }
    }
    let got: BTreeSet<SocketAddrV4> = w.peers.peer_addresses().iter().map(|p| *p.addr()).collect();
    let mut offered = BTreeSet::new();
    for e in &gets {
        if let Some(K::Values(_, _, v)) = &e.answer {
            offered.extend(v.iter().map(sock));
            if strict && answered(e).map(|t| t < full.min(end)).unwrap_or(false) {
                ensure!(v.iter().all(|a| got.contains(&sock(a))), "peers of node {} were not taken over", e.node);
            }
        }
    }
    ensure!(got.is_subset(&offered), "peers {:?} come from nowhere", got.difference(&offered).collect::<Vec<_>>());
    Ok(Obs::new(full != u64::MAX && bursts.len() > 1).label_if(z.staggered, "one by one").label_if(z.slow, "late").label_if(strict, "none lost").label_if(z.deep, "at all distances"))
}

pub fn hunting(ctx: &mut Ctx) {
    ctx.assume("UDP over loopback, virtual timers");
    let s = |scripts: usize, nodes: usize| {
        let wide = vec((spec(scripts, 20, 5, 0.25), 0u8..40), 60..200).prop_map(|v| v.into_iter().map(|(s, first)| Spec { at: Delta { first, ..s.at }, ..s }).collect());
        (prop_oneof![11 => vec(spec(scripts, 8, 5, 0.25), 1..nodes), 1 => wide], delta(5), any::<u16>(), prop_oneof![10u16..60, 60u16..400], prop_oneof![4 => Just(0u16), 1 => 1u16..400])
            .prop_map(|(nodes, hash, port, secs, peers)| Hunt { nodes: settle(nodes), hash, port, secs, peers })
    };
    ctx.check(
        "hunt",
        "up to 40 (at times 200) nodes that refer to each other, hold peers, and answer properly; non-trivial: more than two nodes were asked for peers and announced to",
        Plan::new(250, 8_000).timing(),
        s(0, 40),
        |z| paused(hunt(z)),
    );
    ctx.check(
        "faults",
        "the same with late, wrong, repeated and missing answers; non-trivial: as before",
        Plan::new(250, 8_000).timing(),
        s(5, 20),
        |z| paused(hunt(z)),
    );
    ctx.check(
        "crowd",
        "520 to 900 nodes that refer to each other, answering at once or one by one; non-trivial: more than 500 were asked for peers, and there were two rounds",
        Plan::new(24, 1_200).timing().shrink(8),
        crowd_case(),
        |z| paused(crowd(z)),
    );
}
