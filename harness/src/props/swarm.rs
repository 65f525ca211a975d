//! Scripted peers on loopback sockets, and the record of what passed between them and the client.
#![allow(dead_code)]
use super::gen::*;
use crate::core::fill;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::net::SocketAddrV4;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::time::{sleep_until, Instant};

pub const BLOCK: usize = 1 << 14;

/// What the swarm shares.
#[derive(Debug, Clone)]
pub struct Content {
    pub piece_length: usize,
    pub data: Vec<u8>,
    pub info_hash: Bytes20,
}

impl Content {
    pub fn new(g: &Geometry) -> Self {
        Content {
            piece_length: g.piece_length,
            data: fill(g.seed, g.total),
            info_hash: fill(g.seed ^ 0xabcd, 20).try_into().unwrap(),
        }
    }
    pub fn count(&self) -> usize {
        (self.data.len() + self.piece_length - 1) / self.piece_length
    }
    pub fn piece(&self, i: usize) -> &[u8] {
        let a = i * self.piece_length;
        &self.data[a..(a + self.piece_length).min(self.data.len())]
    }
    pub fn hash(&self, i: usize) -> Bytes20 {
        sha1(&[self.piece(i)])
    }
    pub fn blocks(&self, i: usize) -> usize {
        (self.piece(i).len() + BLOCK - 1) / BLOCK
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Geometry {
    pub piece_length: usize,
    pub total: usize,
    pub seed: u64,
}

/// Piece lengths around block boundaries; totals that end anywhere in the last piece.
pub fn geometry(max_pieces: usize) -> impl Strategy<Value = Geometry> {
    let pl = prop_oneof![
        3 => (1usize..4).prop_map(|b| b * BLOCK),
        2 => (1usize..3, 1usize..BLOCK).prop_map(|(b, r)| b * BLOCK + r),
        1 => 1usize..BLOCK,
        1 => (1usize..3).prop_map(|b| b * BLOCK + 1),
        1 => (1usize..3).prop_map(|b| b * BLOCK - 1),
    ];
    (pl, 1..max_pieces + 1, prop_oneof![2 => Just(0usize), 3 => any::<usize>(), 1 => Just(1usize)], any::<u16>())
        .prop_map(|(piece_length, n, cut, seed)| Geometry {
            piece_length,
            total: n * piece_length - cut % piece_length,
            seed: seed as u64,
        })
}

/// How a scripted peer meets one request.
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Reply {
    Good,
    Late(u16),
    Drop,
    Corrupt,
    Twice,
    Short,
    Long,
    Empty,
    Misaligned,
    OtherPiece,
    /// a right block, of a piece or block nobody asked for
    Unasked,
    /// chokes, forgets the request, unchokes after so many ms
    ChokeFor(u16),
    Close,
    /// before the answer and after it, blocks that were not asked of this peer
    Strays(u16),
}

pub fn reply() -> impl Strategy<Value = Reply> {
    prop_oneof![
        6 => Just(Reply::Good),
        3 => prop_oneof![1u16..900, 5000u16..9500].prop_map(Reply::Late),
        5 => prop_oneof![Just(Reply::Drop), Just(Reply::Corrupt), Just(Reply::Twice), Just(Reply::OtherPiece), Just(Reply::Unasked)],
        3 => prop_oneof![Just(Reply::Short), Just(Reply::Long), Just(Reply::Empty), Just(Reply::Misaligned)],
        2 => (1u16..9000).prop_map(Reply::ChokeFor),
    ]
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Script {
    /// ms after connecting at which the peer unchokes; with `wants_interest` counted from Interested
    pub unchoke_after: u16,
    pub wants_interest: bool,
    /// choke at, unchoke at (ms after connecting)
    pub chokes: Vec<(u16, u16)>,
    pub replies: Vec<Reply>,
    /// messages sent after the handshake: (ms, frame)
    #[serde(default)]
    pub says: Vec<(u16, Vec<u8>)>,
    /// how requests are met after `replies`; none: properly
    #[serde(default)]
    pub rest: Option<Reply>,
    /// how many connections are accepted, then the peer is gone
    #[serde(default)]
    pub sessions: Option<u8>,
    /// it never unchokes of its own accord
    #[serde(default)]
    pub stern: bool,
}

pub fn script(max_replies: usize) -> impl Strategy<Value = Script> {
    (
        prop_oneof![2 => Just(0u16), 1 => 0u16..3000],
        vec((0u16..6000, 1u16..9000), 0..3),
        vec(reply(), 0..max_replies),
    )
        .prop_map(|(unchoke_after, chokes, replies)| Script {
            unchoke_after,
            wants_interest: false,
            chokes: chokes.into_iter().map(|(a, d)| (a, a.saturating_add(d))).collect(),
            replies,
            says: vec![],
            rest: None,
            sessions: None,
            stern: false,
        })
}

#[derive(Debug, Clone, PartialEq)]
pub enum What {
    Connected,
    /// who the client says it is
    Hello(Vec<u8>),
    Choked,
    Unchoked,
    Interested,
    NotInterested,
    Requested { index: u32, begin: u32, length: u32 },
    Cancelled { index: u32, begin: u32, length: u32 },
    Answered { index: u32, begin: u32, good: bool },
    Other(u8),
    /// one of `says`
    Said(usize),
    /// the other side closed
    Eof,
    /// this side closed
    Closed,
    BadFrame(Vec<u8>),
    BadHandshake(Vec<u8>),
}

#[derive(Debug, Clone)]
pub struct Ev {
    pub t: u64, // ms of virtual time since the start
    pub peer: usize,
    pub what: What,
}

#[derive(Clone)]
pub struct Log {
    pub start: Instant,
    pub evs: Arc<Mutex<Vec<Ev>>>,
}

impl Log {
    pub fn new() -> Self {
        Log { start: Instant::now(), evs: Default::default() }
    }
    pub fn now(&self) -> u64 {
        self.start.elapsed().as_millis() as u64
    }
    pub fn put(&self, peer: usize, what: What) {
        let t = self.now();
        self.evs.lock().unwrap().push(Ev { t, peer, what });
    }
    pub fn all(&self) -> Vec<Ev> {
        self.evs.lock().unwrap().clone()
    }
}

pub fn frame(id: u8, body: &[u8]) -> Vec<u8> {
    let mut f = (body.len() as u32 + 1).to_be_bytes().to_vec();
    f.push(id);
    f.extend(body);
    f
}

pub fn block_frame(index: u32, begin: u32, data: &[u8]) -> Vec<u8> {
    let mut b = index.to_be_bytes().to_vec();
    b.extend(begin.to_be_bytes());
    b.extend(data);
    frame(7, &b)
}

pub fn bitfield(n: usize, has: impl Fn(usize) -> bool) -> Vec<u8> {
    let mut b = vec![0u8; (n + 7) / 8];
    for i in 0..n {
        if has(i) {
            b[i / 8] |= 0x80 >> (i % 8);
        }
    }
    frame(5, &b)
}

/// The virtual clock moves to the next timer whenever it polls the sockets, even if they were ready.
/// With a timer every few ms that step is small.
pub fn fine_clock() {
    STEP.store(5, Ordering::Relaxed);
    tokio::spawn(async {
        loop {
            tokio::time::sleep(Duration::from_millis(STEP.load(Ordering::Relaxed))).await;
        }
    });
}

static STEP: AtomicU64 = AtomicU64::new(5);

/// A long while, in coarser steps.
pub async fn long_while(t: Instant) {
    STEP.store(40, Ordering::Relaxed);
    sleep_until(t).await;
    STEP.store(5, Ordering::Relaxed);
    tokio::time::sleep(Duration::from_millis(100)).await;
}

pub async fn bind() -> (TcpListener, SocketAddrV4) {
    let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
    let std::net::SocketAddr::V4(a) = l.local_addr().unwrap() else { unreachable!() };
    (l, a)
}

/// The client's small writes wait for acknowledgements (Nagle), in real time: acknowledge at once.
pub fn quick_ack(fd: i32) {
    let on: libc::c_int = 1;
    unsafe {
        libc::setsockopt(
            fd,
            libc::IPPROTO_TCP,
            libc::TCP_QUICKACK,
            &on as *const _ as *const libc::c_void,
            std::mem::size_of::<libc::c_int>() as libc::socklen_t,
        );
    }
}

struct Out {
    at: Instant,
    bytes: Vec<u8>,
    what: Option<What>,
    close: bool,
}

/// Serves connections one after another, the script applies to all of them together.
pub async fn serve(k: usize, listener: TcpListener, content: Arc<Content>, script: Script, log: Log) {
    let mut asked = 0;
    let mut sessions = 0;
    while script.sessions.map(|n| sessions < n).unwrap_or(true) {
        sessions += 1;
        let Ok((stream, _)) = listener.accept().await else { return };
        session(k, stream, &content, &script, &log, &mut asked).await;
    }
}

pub async fn session(
    k: usize,
    mut stream: TcpStream,
    content: &Content,
    script: &Script,
    log: &Log,
    asked: &mut usize,
) {
    let _ = stream.set_nodelay(true);
    let fd = std::os::fd::AsRawFd::as_raw_fd(&stream);
    quick_ack(fd);
    let mut hs = [0u8; 68];
    if stream.read_exact(&mut hs).await.is_err() {
        return;
    }
    if hs[..20] != *b"\x13BitTorrent protocol" || hs[28..48] != content.info_hash {
        log.put(k, What::BadHandshake(hs.to_vec()));
        return;
    }
    let mut answer = b"\x13BitTorrent protocol\0\0\0\0\0\0\0\0".to_vec();
    answer.extend(content.info_hash);
    answer.extend(fill(k as u64, 20));
    if stream.write_all(&answer).await.is_err() {
        return;
    }
    quick_ack(fd);
    log.put(k, What::Connected);
    log.put(k, What::Hello(hs[48..].to_vec()));

    let t0 = Instant::now();
    let ms = |m: u16| t0 + Duration::from_millis(m as u64);
    let mut out: Vec<Out> = vec![];
    let choke = |at| Out { at, bytes: frame(0, &[]), what: Some(What::Choked), close: false };
    let unchoke = |at| Out { at, bytes: frame(1, &[]), what: Some(What::Unchoked), close: false };
    for (n, (m, f)) in script.says.iter().enumerate() {
        // no more at a time than sockets hold, or the clock would run while it's on its way
        let (mut start, mut end, mut part) = (0, 0, 0);
        while end < f.len() {
            end += 4 + u32::from_be_bytes(f[end..end + 4].try_into().unwrap()) as usize;
            if end - start >= 1 << 13 || end == f.len() {
                let what = (part == 0).then_some(What::Said(n));
                out.push(Out { at: ms(*m) + Duration::from_millis(part), bytes: f[start..end].to_vec(), what, close: false });
                (start, part) = (end, part + 1);
            }
        }
        if f.is_empty() {
            out.push(Out { at: ms(*m), bytes: vec![], what: Some(What::Said(n)), close: false });
        }
    }
    if !script.wants_interest && !script.stern {
        out.push(unchoke(ms(script.unchoke_after)));
    }
    for (a, b) in &script.chokes {
        out.push(choke(ms(*a)));
        out.push(unchoke(ms(*b)));
    }
    let mut choking = true;
    let mut told = false;
    let mut buf: Vec<u8> = vec![];
    let (mut rd, mut wr) = stream.split();
    loop {
        let due = out.iter().map(|o| o.at).min();
        let wait = async {
            match due {
                Some(d) => sleep_until(d).await,
                None => std::future::pending().await,
            }
        };
        tokio::select! {
            r = rd.read_buf(&mut buf) => {
                match r {
                    Ok(0) | Err(_) => { log.put(k, What::Eof); return; }
                    Ok(_) => quick_ack(fd),
                }
                while buf.len() >= 4 {
                    let n = u32::from_be_bytes(buf[..4].try_into().unwrap()) as usize;
                    if n > 1 << 17 { log.put(k, What::BadFrame(buf.clone())); return; }
                    if buf.len() < 4 + n { break; }
                    let f: Vec<u8> = buf.drain(..4 + n).skip(4).collect();
                    if f.is_empty() { log.put(k, What::Other(255)); continue; }
                    let nums: Vec<u32> = f[1..].chunks_exact(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
                    match (f[0], f.len()) {
                        (2, 1) => {
                            log.put(k, What::Interested);
                            if script.wants_interest && !script.stern && !told {
                                told = true;
                                out.push(unchoke(Instant::now() + Duration::from_millis(script.unchoke_after as u64)));
                            }
                        }
                        (3, 1) => log.put(k, What::NotInterested),
                        (6, 13) => {
                            log.put(k, What::Requested { index: nums[0], begin: nums[1], length: nums[2] });
                            if choking { continue; }
                            let r = script.replies.get(*asked).copied().or(script.rest).unwrap_or(Reply::Good);
                            *asked += 1;
                            if let Reply::Strays(seed) = r {
                                stray(k, seed, &nums, content, log, &mut out);
                                meet(Reply::Good, &nums, content, &mut out);
                                stray(k, seed ^ 0x5555, &nums, content, log, &mut out);
                            } else {
                                meet(r, &nums, content, &mut out);
                            }
                        }
                        (8, 13) => log.put(k, What::Cancelled { index: nums[0], begin: nums[1], length: nums[2] }),
                        (0 | 1, 1) | (4, 5) | (5, _) => log.put(k, What::Other(f[0])),
                        _ => log.put(k, What::BadFrame(f)),
                    }
                }
            }
            _ = wait => {
                let now = Instant::now();
                // in the order of their times, and of creation where these agree
                out.sort_by_key(|o| o.at);
                let n = out.iter().take_while(|o| o.at <= now).count();
                for o in out.drain(..n).collect::<Vec<_>>() {
                    match &o.what {
                        Some(What::Choked) => choking = true,
                        Some(What::Unchoked) => choking = false,
                        _ => {}
                    }
                    if let Some(w) = o.what { log.put(k, w); }
                    if o.close { return; }
                    if wr.write_all(&o.bytes).await.is_err() { log.put(k, What::Eof); return; }
                    quick_ack(fd);
                }
            }
        }
    }
}

fn meet(r: Reply, nums: &[u32], content: &Content, out: &mut Vec<Out>) {
    let (index, begin, length) = (nums[0], nums[1], nums[2]);
    let now = Instant::now();
    let good = (index as usize) < content.count()
        && begin as usize + length as usize <= content.piece(index as usize).len();
    let data: Vec<u8> = if good {
        content.piece(index as usize)[begin as usize..(begin + length) as usize].to_vec()
    } else {
        vec![0; (length as usize).min(1 << 15)]
    };
    let mut put = |at: Instant, index: u32, begin: u32, data: &[u8], good: bool| {
        out.push(Out {
            at,
            bytes: block_frame(index, begin, data),
            what: Some(What::Answered { index, begin, good }),
            close: false,
        })
    };
    match r {
        Reply::Good => put(now, index, begin, &data, true),
        Reply::Late(m) => put(now + Duration::from_millis(m as u64), index, begin, &data, true),
        Reply::Drop => {}
        Reply::Corrupt => {
            let mut d = data.clone();
            let i = d.len() / 2;
            if let Some(x) = d.get_mut(i) {
                *x ^= 1;
            }
            put(now, index, begin, &d, false)
        }
        Reply::Twice => {
            put(now, index, begin, &data, true);
            put(now, index, begin, &data, true);
        }
        Reply::Short => put(now, index, begin, &data[..data.len().saturating_sub(1)], false),
        Reply::Long => {
            let mut d = data.clone();
            d.push(0);
            put(now, index, begin, &d, false)
        }
        Reply::Empty => put(now, index, begin, &[], false),
        Reply::Misaligned => put(now, index, begin + 1, &data, false),
        Reply::OtherPiece => put(now, index ^ 1, begin, &data, false),
        Reply::Unasked => {
            let i = (index as usize + 1) % content.count();
            let p = content.piece(i);
            let b = (p.len() - 1) / BLOCK * BLOCK;
            put(now, i as u32, b as u32, &p[b..], true);
        }
        Reply::ChokeFor(m) => {
            out.push(Out { at: now, bytes: frame(0, &[]), what: Some(What::Choked), close: false });
            out.push(Out {
                at: now + Duration::from_millis(m as u64),
                bytes: frame(1, &[]),
                what: Some(What::Unchoked),
                close: false,
            });
        }
        Reply::Close => {
            out.push(Out { at: now, bytes: vec![], what: Some(What::Closed), close: true });
        }
        Reply::Strays(_) => unreachable!(),
    }
}

/// Up to two blocks of other bytes, at places where this peer was asked for none.
fn stray(k: usize, seed: u16, nums: &[u32], content: &Content, log: &Log, out: &mut Vec<Out>) {
    let (index, begin, length) = (nums[0], nums[1], nums[2]);
    let r = fill(seed as u64, 24);
    let count = content.count() as u32;
    for x in r.chunks(8).take(seed as usize % 3) {
        let wide = u32::from_be_bytes(x[4..8].try_into().unwrap());
        let of_log = |own: bool| {
            let evs = log.evs.lock().unwrap();
            let places: Vec<(u32, u32, u32)> = evs
                .iter()
                .filter(|e| (e.peer == k) == own)
                .filter_map(|e| match e.what {
                    What::Requested { index, begin, length } => Some((index, begin, length)),
                    _ => None,
                })
                .filter(|(i, b, _)| {
                    !own || evs.iter().any(|e| e.peer == k && matches!(&e.what, What::Answered { index, begin, .. } if (index, begin) == (i, b)))
                })
                .collect();
            places.get(wide as usize % places.len().max(1)).copied()
        };
        let (i, b, l) = match x[0] % 9 {
            // within the block asked for
            0 | 1 => (index, begin + 1 + wide % (BLOCK as u32 - 1), length),
            2 => (index, begin + 1, length),
            // pieces that don't exist
            3 => (count + wide % 3, begin, length),
            4 => (index.wrapping_add(1 << (wide % 32)).max(count), begin, length),
            // blocks that don't exist
            5 => {
                let n = content.blocks(index as usize) as u32;
                let b = match wide & 3 {
                    0 => n * BLOCK as u32,
                    1 => (n + wide % 40_000) * BLOCK as u32,
                    _ => begin | 1 << (18 + wide % 14),
                };
                (index, b, length)
            }
            // the last of several pieces, which nobody is to deliver
            6 if count > 1 => (count - 1, 0, BLOCK.min(content.piece(count as usize - 1).len()) as u32),
            // what was asked of the others, what was answered already
            7 => of_log(false).unwrap_or((count, begin, length)),
            _ => of_log(true).unwrap_or((count, begin, length)),
        };
        let junk = fill(seed as u64 ^ 0x77, l as usize);
        out.push(Out { at: Instant::now(), bytes: block_frame(i, b, &junk), what: Some(What::Other(7)), close: false });
    }
}
