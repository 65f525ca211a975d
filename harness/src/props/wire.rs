use super::gen::*;
use crate::core::*;
use crate::ensure;
use nargun::verif::data_structures::SerializableBuf;
use nargun::verif::peers::connection::connection_manager::{
    spawn_connection_manager, ConMessageType, ConnectionMessage,
};
use nargun::verif::peers::connection::handshake::initiate_handshake;
use nargun::verif::peers::connection::message::{Message, Piece, Request};
use nargun::verif::peers::peer::Peer;
use nargun::verif::shutdown;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::net::{SocketAddr, SocketAddrV4};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::sync::mpsc;
use tokio::time::timeout;

/// A peer-wire message, in the harness' own words.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum M {
    KeepAlive,
    Choke,
    Unchoke,
    Interested,
    NotInterested,
    Have(u32),
    Bitfield(Vec<u8>),
    Request(u32, u32, u32),
    Piece(u32, u32, Blob),
    Cancel(u32, u32, u32),
    Port(u16),
}

/// Bytes, possibly many, that shrink well.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Blob {
    pub len: usize,
    pub seed: u64,
}

impl Blob {
    pub fn bytes(&self) -> Vec<u8> {
        fill(self.seed, self.len)
    }
}

impl M {
    pub fn encode(&self) -> Vec<u8> {
        let mut b = vec![];
        match self {
            M::KeepAlive => {}
            M::Choke => b.push(0),
            M::Unchoke => b.push(1),
            M::Interested => b.push(2),
            M::NotInterested => b.push(3),
            M::Have(i) => {
                b.push(4);
                b.extend(i.to_be_bytes());
            }
            M::Bitfield(d) => {
                b.push(5);
                b.extend(d);
            }
            M::Request(i, o, l) | M::Cancel(i, o, l) => {
                b.push(if matches!(self, M::Request(..)) { 6 } else { 8 });
                for v in [i, o, l] {
                    b.extend(v.to_be_bytes());
                }
            }
            M::Piece(i, o, d) => {
                b.push(7);
                b.extend(i.to_be_bytes());
                b.extend(o.to_be_bytes());
                b.extend(d.bytes());
            }
            M::Port(p) => {
                b.push(9);
                b.extend(p.to_be_bytes());
            }
        }
        let mut f = (b.len() as u32).to_be_bytes().to_vec();
        f.extend(b);
        f
    }

    pub fn real(&self) -> Message {
        let req = |i: &u32, o: &u32, l: &u32| Request { index: *i, begin: *o, length: *l };
        match self {
            M::KeepAlive => Message::KeepAlive,
            M::Choke => Message::Choke,
            M::Unchoke => Message::Unchoke,
            M::Interested => Message::Interested,
            M::NotInterested => Message::NotInterested,
            M::Have(i) => Message::Have(*i),
            M::Bitfield(d) => Message::Bitfield(SerializableBuf::from(d.clone())),
            M::Request(i, o, l) => Message::Request(req(i, o, l)),
            M::Cancel(i, o, l) => Message::Cancel(req(i, o, l)),
            M::Piece(i, o, d) => Message::Piece(Piece {
                index: *i,
                begin: *o,
                block: SerializableBuf::from(d.bytes()),
            }),
            M::Port(p) => Message::Port(*p),
        }
    }
}

fn num() -> impl Strategy<Value = u32> {
    prop_oneof![any::<u32>(), 0u32..300, Just(u32::MAX), Just(1 << 14)]
}

pub fn msg(max: usize) -> impl Strategy<Value = M> {
    let blob = prop_oneof![
        4 => 0usize..40,
        2 => 0usize..max,
        1 => Just(max),
        1 => max.saturating_sub(20)..max + 1,
    ];
    prop_oneof![
        5 => prop_oneof![
            Just(M::KeepAlive),
            Just(M::Choke),
            Just(M::Unchoke),
            Just(M::Interested),
            Just(M::NotInterested)
        ],
        1 => num().prop_map(M::Have),
        1 => vec(any::<u8>(), 0..60).prop_map(M::Bitfield),
        1 => (num(), num(), num()).prop_map(|(a, b, c)| M::Request(a, b, c)),
        1 => (num(), num(), num()).prop_map(|(a, b, c)| M::Cancel(a, b, c)),
        3 => (num(), num(), blob, any::<u64>()).prop_map(|(a, b, len, seed)| M::Piece(a, b, Blob { len, seed })),
        1 => any::<u16>().prop_map(M::Port),
    ]
}

/// What a frame at the start of `buf` means; None when it is no well-formed message.
fn reference_decode(buf: &[u8]) -> Option<Message> {
    if buf.len() < 4 {
        return None;
    }
    let n = u32::from_be_bytes(buf[..4].try_into().unwrap()) as usize;
    if buf.len() - 4 < n {
        return None;
    }
    let p = &buf[4..4 + n];
    if n == 0 {
        return Some(Message::KeepAlive);
    }
    let u = |i: usize| u32::from_be_bytes(p[i..i + 4].try_into().unwrap());
    Some(match (p[0], n) {
        (0, 1) => Message::Choke,
        (1, 1) => Message::Unchoke,
        (2, 1) => Message::Interested,
        (3, 1) => Message::NotInterested,
        (4, 5) => Message::Have(u(1)),
        (5, _) => Message::Bitfield(SerializableBuf::from(&p[1..])),
        (6, 13) => Message::Request(Request { index: u(1), begin: u(5), length: u(9) }),
        (7, k) if k >= 9 => {
            Message::Piece(Piece { index: u(1), begin: u(5), block: SerializableBuf::from(&p[9..]) })
        }
        (8, 13) => Message::Cancel(Request { index: u(1), begin: u(5), length: u(9) }),
        (9, 3) => Message::Port(u16::from_be_bytes([p[1], p[2]])),
        _ => return None,
    })
}

pub fn codec(ctx: &mut Ctx) {
    ctx.check(
        "round_trip",
        "messages of all kinds with full-range fields and blocks up to 16 KiB, with and without bytes of a next frame; non-trivial: the message has a payload",
        Plan::new(8_000, 150_000),
        (msg(1 << 14), vec(any::<u8>(), 0..20)),
        |(m, tail)| {
            let want = m.encode();
            let got = m.real().into_bytes();
            ensure!(got == want, "encoding of {m:?} has {} bytes {:?}.., expected {} bytes", got.len(), &got[..got.len().min(20)], want.len());
            let back = Message::from_buf(&got);
            ensure!(back.as_ref() == Some(&m.real()), "{m:?} came back as {:?}", short(&back));
            let mut more = got.clone();
            more.extend(tail);
            let back = Message::from_buf(&more);
            ensure!(back.as_ref() == Some(&m.real()), "{m:?} followed by {tail:?} came back as {:?}", short(&back));
            ensure!(Message::len(&more) + 4 == want.len(), "length prefix");
            Ok(Obs::new(want.len() > 5).label(label(m)))
        },
    );
}

fn label(m: &M) -> String {
    format!("{m:?}").split('(').next().unwrap().to_string()
}

fn short(m: &Option<Message>) -> String {
    let s = format!("{m:?}");
    s.chars().take(200).collect()
}

/// lengths around the powers of two, where sums of them overflow
fn around_power() -> impl Strategy<Value = u32> {
    (3u32..33, -9i64..9).prop_map(|(k, d)| ((1i64 << k) + d).clamp(0, u32::MAX as i64) as u32)
}

pub fn decode_any(ctx: &mut Ctx) {
    // a frame with its id, its length prefix and its size chosen apart from one another
    let mangled = (
        prop_oneof![3 => 0u8..10, 1 => any::<u8>()],
        vec(any::<u8>(), 0..30),
        prop_oneof![4 => Just(None), 1 => (0u32..40).prop_map(Some), 1 => any::<u32>().prop_map(Some), 1 => around_power().prop_map(Some)],
        vec(any::<u8>(), 0..12),
    )
        .prop_map(|(id, body, len, tail)| {
            let mut p = vec![id];
            p.extend(body);
            let n = len.unwrap_or(p.len() as u32);
            let mut f = n.to_be_bytes().to_vec();
            f.extend(p);
            f.extend(tail);
            f
        });
    let cut = (msg(64), any::<prop::sample::Index>(), any::<prop::sample::Index>(), any::<u8>(), 0u8..3)
        .prop_map(|(m, i, j, x, what)| {
            let mut f = m.encode();
            match what {
                0 => f.truncate(i.index(f.len() + 1)),
                1 => {
                    let k = i.index(f.len());
                    f[k] ^= x;
                }
                _ => {
                    let k = j.index(f.len().min(8));
                    f[k] ^= x;
                }
            }
            f
        });
    ctx.check(
        "total",
        "byte strings: raw, frames with inconsistent id, length and size, truncated and bit-flipped messages; non-trivial: at least a length prefix and an id",
        Plan::new(60_000, 2_000_000),
        prop_oneof![1 => vec(any::<u8>(), 0..40), 4 => mangled, 3 => cut],
        |b| {
            let got = Message::from_buf(b);
            let want = reference_decode(b);
            ensure!(got == want, "{} bytes decode to {}, expected {}", b.len(), short(&got), short(&want));
            if let Some(m) = got {
                let n = u32::from_be_bytes(b[..4].try_into().unwrap()) as usize + 4;
                ensure!(m.into_bytes() == b[..n], "accepted frame encodes to other bytes");
                return Ok(Obs::new(b.len() > 4).label("accepted"));
            }
            Ok(Obs::new(b.len() > 4).label("refused"))
        },
    );
    // an announced length is not allocated, and the rest of a big buffer is not looked at
    ctx.check(
        "big",
        "frames up to 16 KiB inside a larger buffer of other bytes; non-trivial: all",
        Plan::new(800, 10_000),
        (msg(1 << 14), 0usize..4000, any::<u64>()),
        |(m, tail, seed)| {
            let mut f = m.encode();
            let n = f.len();
            f.extend(fill(*seed, *tail));
            ensure!(Message::from_buf(&f) == Some(m.real()), "{m:?} differs with {tail} bytes behind it");
            if n > 4 {
                ensure!(Message::from_buf(&f[..n - 1]).is_none(), "truncated frame accepted");
            }
            Ok(Obs::new(true))
        },
    );
}

// ---------------------------------------------------------------- TCP

fn handshake(info_hash: &[u8; 20], peer_id: &[u8; 20]) -> Vec<u8> {
    let mut v = vec![19];
    v.extend(b"BitTorrent protocol");
    v.extend([0, 0, 0, 0, 0, 0, 0, 1]);
    v.extend(info_hash);
    v.extend(peer_id);
    v
}

pub async fn listen() -> (TcpListener, SocketAddrV4) {
    let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
    let SocketAddr::V4(a) = l.local_addr().unwrap() else { unreachable!() };
    (l, a)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Frame {
    Good(M),
    /// well-framed bytes that are no message
    Bad(u8, Vec<u8>),
}

impl Frame {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Frame::Good(m) => m.encode(),
            Frame::Bad(id, body) => {
                let mut f = (body.len() as u32 + 1).to_be_bytes().to_vec();
                f.push(*id);
                f.extend(body);
                f
            }
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum End {
    Close,
    /// part of a frame, then close
    Cut(u8),
    /// a frame nobody can accept
    Oversized(u32),
    /// this side shuts down
    Local,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Session {
    frames: Vec<Frame>,
    out: Vec<M>,
    /// sizes of the pieces the stream is written in, cyclic
    chunks: Vec<usize>,
    /// frames start in the same segment as the handshake reply
    coalesce: bool,
    cap: usize,
    end: End,
}

fn session() -> impl Strategy<Value = Session> {
    let frame = prop_oneof![
        6 => msg(1 << 14).prop_map(Frame::Good),
        1 => (10u8..255, vec(any::<u8>(), 0..40)).prop_map(|(i, b)| Frame::Bad(i, b)),
        1 => (0u8..4, vec(any::<u8>(), 1..10)).prop_map(|(i, b)| Frame::Bad(i, b)),
        1 => (prop_oneof![Just(4u8), Just(6), Just(8), Just(9), Just(7)], vec(any::<u8>(), 0..2)).prop_map(|(i, b)| Frame::Bad(i, b)),
        1 => (10u8..255, 16_000usize..16_507, any::<u64>()).prop_map(|(i, n, s)| Frame::Bad(i, fill(s, n))),
    ];
    let chunks = prop_oneof![
        2 => vec(1usize..8, 1..6),
        2 => vec(1usize..20_000, 1..6),
        2 => vec(prop_oneof![Just(1usize), Just(3), Just(4), Just(5), Just(13), Just(16384), Just(16397)], 1..6),
        1 => Just(vec![1 << 20]),
    ];
    let end = prop_oneof![
        4 => Just(End::Close),
        3 => (1u8..20).prop_map(End::Cut),
        2 => prop_oneof![Just(16_509u32), 16_509u32..40_000, u32::MAX - 8..=u32::MAX, any::<u32>().prop_map(|x| x | 1 << 20)].prop_map(End::Oversized),
        2 => Just(End::Local),
    ];
    (vec(frame, 0..14), vec(msg(1 << 14), 0..6), chunks, any::<bool>(), prop_oneof![Just(1usize), Just(32)], end).prop_map(
        |(frames, out, chunks, coalesce, cap, end)| Session { frames, out, chunks, coalesce, cap, end },
    )
}

fn show(m: &ConMessageType) -> String {
    let s = format!("{m:?}");
    s.chars().take(80).collect()
}

async fn write_chunks(s: &mut TcpStream, data: &[u8], chunks: &[usize]) -> std::io::Result<()> {
    let mut at = 0;
    // small pieces of a long stream would only cost time
    let small = data.len() / chunks.iter().sum::<usize>().max(1) * chunks.len() > 600;
    for c in chunks.iter().cycle() {
        if at == data.len() {
            break;
        }
        let c = if small && at > 2000 { 4096 } else { *c };
        let e = (at + c).min(data.len());
        s.write_all(&data[at..e]).await?;
        at = e;
        for _ in 0..3 {
            tokio::task::yield_now().await;
        }
    }
    Ok(())
}

fn run_session(c: &Session) -> TestResult {
    live(async move {
        let info = [7u8; 20];
        let me = [9u8; 20];
        let (l, addr) = listen().await;
        let peer = Peer::new(addr);
        let (piece_tx, mut piece_rx) = mpsc::channel(c.cap);
        let (dht_tx, mut dht_rx) = mpsc::channel(c.cap);
        let (con_tx, mut con_rx) = mpsc::channel::<ConnectionMessage>(c.cap);
        let (send_tx, send_rx) = mpsc::channel(32);
        let (sd_tx, sd_rx) = shutdown::channel();
        spawn_connection_manager(id(&me), peer, id(&info), piece_tx, dht_tx, con_tx, send_rx, sd_rx);

        let out: Vec<u8> = c.out.iter().flat_map(|m| m.encode()).collect();
        let sent = c.out.clone();
        let outbound = tokio::spawn(async move {
            for m in sent {
                if send_tx.send(m.real()).await.is_err() {
                    break;
                }
                tokio::task::yield_now().await;
            }
            send_tx
        });

        let mut stream: Vec<u8> = c.frames.iter().flat_map(|f| f.bytes()).collect();
        match c.end {
            End::Cut(n) => {
                let f = M::Request(1, 2, 3).encode();
                stream.extend(&f[..(n as usize).min(f.len() - 1)]);
            }
            End::Oversized(n) => {
                stream.extend(n.to_be_bytes());
                stream.extend([20; 64]);
            }
            _ => {}
        }
        let (chunks, coalesce, end) = (c.chunks.clone(), c.coalesce, c.end);
        let n_out = out.len();
        let (all_read_tx, all_read_rx) = tokio::sync::oneshot::channel::<()>();
        let (got_tx, got_rx) = tokio::sync::oneshot::channel::<()>();
        let remote = tokio::spawn(async move {
            let (mut s, _) = l.accept().await.unwrap();
            s.set_nodelay(true).unwrap();
            let mut hs = vec![0; 68];
            s.read_exact(&mut hs).await.map_err(|e| format!("no handshake: {e}"))?;
            let mut reply = handshake(&info, &[3; 20]);
            if coalesce {
                reply.extend(&stream);
                let _ = write_chunks(&mut s, &reply, &[1 << 20]).await;
            } else {
                let _ = write_chunks(&mut s, &reply, &chunks).await;
                let _ = write_chunks(&mut s, &stream, &chunks).await;
            }
            let mut got = vec![0; n_out];
            if matches!(end, End::Oversized(_)) {
                // the other side may be gone before it has sent everything
                got.clear();
            } else {
                timeout(Duration::from_secs(20), s.read_exact(&mut got))
                    .await
                    .map_err(|_| "messages were not sent".to_string())?
                    .map_err(|e| format!("messages were not sent: {e}"))?;
            }
            let _ = got_tx.send(());
            if end == End::Local {
                let _ = all_read_rx.await;
                let mut rest = [0; 16];
                let n = timeout(Duration::from_secs(20), s.read(&mut rest))
                    .await
                    .map_err(|_| "stream stays open after shutdown".to_string())?
                    .unwrap_or(0);
                if n > 0 {
                    return Err("unexpected bytes after the last message".to_string());
                }
            } else if matches!(end, End::Oversized(_)) {
                let mut rest = vec![0; 65536];
                loop {
                    match timeout(Duration::from_secs(20), s.read(&mut rest)).await {
                        Err(_) => return Err("stream stays open after an oversized message".to_string()),
                        Ok(Ok(0)) | Ok(Err(_)) => break,
                        Ok(Ok(_)) => {}
                    }
                }
            }
            Ok((hs, got))
        });

        // what has to arrive
        let mut want_con = vec![];
        let mut want_piece = vec![];
        let mut want_dht = vec![];
        for f in &c.frames {
            if let Frame::Good(m) = f {
                match m {
                    M::Piece(i, b, d) => want_piece.push((*i, *b, d.bytes())),
                    M::Port(p) => {
                        let mut a = addr;
                        a.set_port(*p);
                        want_dht.push(a);
                    }
                    m => want_con.push(m.clone()),
                }
            }
        }
        let n_con = want_con.len();
        let n_piece = want_piece.len();
        let n_dht = want_dht.len();
        let lim = Duration::from_secs(30);
        let local = c.end == End::Local;
        // with a local shutdown, everything is consumed first; otherwise until the channels close
        let pieces = tokio::spawn(async move {
            let mut v = vec![];
            while !(local && v.len() == n_piece) {
                match timeout(lim, piece_rx.recv()).await {
                    Ok(Some(p)) => v.push(p),
                    Ok(None) => break,
                    Err(_) => return Err("blocks stopped arriving".to_string()),
                }
                tokio::task::yield_now().await;
            }
            Ok((v, piece_rx))
        });
        let ports = tokio::spawn(async move {
            let mut v = vec![];
            while !(local && v.len() == n_dht) {
                match timeout(lim, dht_rx.recv()).await {
                    Ok(Some(p)) => v.push(p),
                    Ok(None) => break,
                    Err(_) => return Err("ports stopped arriving".to_string()),
                }
            }
            Ok((v, dht_rx))
        });
        let mut cons = vec![];
        while !(local && cons.len() == n_con) {
            match timeout(lim, con_rx.recv()).await {
                Ok(Some(m)) => cons.push(m),
                Ok(None) => break,
                Err(_) => return Err(format!("messages stopped arriving after {} of {n_con}; end of connection not reported", cons.len())),
            }
        }
        let (pieces, _p) = pieces.await.unwrap()?;
        let (ports, _d) = ports.await.unwrap()?;
        let _keep = outbound.await.unwrap();
        if local {
            let _ = timeout(lim, got_rx).await;
            let w = sd_tx.send();
            let _ = all_read_tx.send(());
            timeout(lim, w.wait()).await.map_err(|_| "connection survives shutdown".to_string())?;
            match timeout(lim, con_rx.recv()).await {
                Ok(None) => {}
                Ok(Some(m)) => return Err(format!("{} after shutdown", show(&m.message))),
                Err(_) => return Err("channel stays open after shutdown".into()),
            }
        } else {
            let last = cons.pop();
            ensure!(
                matches!(last, Some(ConnectionMessage { message: ConMessageType::Disconnected, .. })),
                "the last message is {:?}, not the end of the connection",
                last.map(|m| show(&m.message))
            );
        }
        let (hs, got) = remote.await.unwrap()?;
        ensure!(hs == handshake(&info, &me), "handshake bytes {hs:?}");
        if !matches!(c.end, End::Oversized(_)) {
            ensure!(got == out, "outbound bytes differ from the messages sent");
        }
        ensure!(cons.len() == n_con, "{} of {n_con} messages arrived", cons.len());
        for (i, (g, w)) in cons.iter().zip(&want_con).enumerate() {
            ensure!(g.peer == peer, "message attributed to another peer");
            let same = match (&g.message, w) {
                (ConMessageType::KeepAlive, M::KeepAlive)
                | (ConMessageType::Choke, M::Choke)
                | (ConMessageType::Unchoke, M::Unchoke)
                | (ConMessageType::Interested, M::Interested)
                | (ConMessageType::NotInterested, M::NotInterested) => true,
                (ConMessageType::Have(a), M::Have(b)) => a == b,
                (ConMessageType::Bitfield(a), M::Bitfield(b)) => a.as_ref() == b.as_slice(),
                (ConMessageType::Request(r), M::Request(a, b, c)) => (r.index, r.begin, r.length) == (*a, *b, *c),
                (ConMessageType::Cancel(r), M::Cancel(a, b, c)) => (r.index, r.begin, r.length) == (*a, *b, *c),
                _ => false,
            };
            ensure!(same, "message {i} is {}, the peer sent {w:?}", show(&g.message));
        }
        ensure!(ports == want_dht, "ports {ports:?}, the peer announced {want_dht:?}");
        ensure!(pieces.len() == n_piece, "{} of {n_piece} blocks arrived", pieces.len());
        for (g, (i, b, d)) in pieces.iter().zip(&want_piece) {
            ensure!(g.index == *i && g.begin == *b && g.block.as_ref() == d.as_slice(), "block {i}/{b} differs");
        }
        let bad = c.frames.iter().filter(|f| matches!(f, Frame::Bad(..))).count();
        Ok(Obs::new(c.frames.len() >= 3)
            .label(format!("{:?}", c.end).split('(').next().unwrap())
            .label_if(bad > 0, "undecodable frames")
            .label_if(n_piece > 0, "blocks")
            .label_if(c.coalesce, "coalesced with handshake"))
    })
}

pub fn stream(ctx: &mut Ctx) {
    ctx.check(
        "session",
        "up to 13 frames (blocks up to 16 KiB, undecodable frames) over loopback TCP in generated segment sizes, with outbound messages, ended by close, cut, oversized frame or shutdown; non-trivial: at least 3 frames",
        Plan::new(1_500, 20_000).timing(),
        session(),
        run_session,
    );
    let block = (0u32..9, 0u32..9, prop_oneof![4 => Just(1usize << 14), 1 => 0usize..1 << 14], any::<u64>()).prop_map(|(i, b, len, seed)| M::Piece(i, b << 14, Blob { len, seed }));
    let s = (
        vec(prop_oneof![3 => block, 2 => msg(1 << 14)], 40..160),
        vec(msg(1 << 14), 0..8),
        prop_oneof![2 => Just(2_304u32), 1 => 2_304u32..60_000],
        536u32..9_000,
        vec(prop_oneof![1usize..2_000, 1usize..60_000], 1..6),
        proptest::bool::weighted(0.2),
    )
        .prop_map(|(out, frames, room, segment, reads, leaves)| Backlog { out, frames, room, segment, reads, leaves });
    ctx.check(
        "backlog",
        "40 to 160 messages, most of them of 16 KiB, queued for a peer that does not read until its own messages were handed on, then reads bit by bit, or leaves; non-trivial: the peer reads on and at least 500,000 bytes were queued",
        Plan::new(300, 6_000).timing().shrink(12),
        s,
        run_backlog,
    );
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Backlog {
    out: Vec<M>,
    /// what the peer sends while it does not read
    frames: Vec<M>,
    /// of the peer's socket
    room: u32,
    segment: u32,
    reads: Vec<usize>,
    /// without reading
    leaves: bool,
}

fn socket_option(s: &impl std::os::fd::AsRawFd, level: i32, name: i32, v: u32) {
    let v = v as libc::c_int;
    let p = &v as *const libc::c_int as *const libc::c_void;
    assert_eq!(unsafe { libc::setsockopt(s.as_raw_fd(), level, name, p, std::mem::size_of::<libc::c_int>() as libc::socklen_t) }, 0);
}

fn run_backlog(c: &Backlog) -> TestResult {
    live(async move {
        let info = [7u8; 20];
        let me = [9u8; 20];
        let (l, addr) = listen().await;
        socket_option(&l, libc::SOL_SOCKET, libc::SO_RCVBUF, c.room);
        socket_option(&l, libc::IPPROTO_TCP, libc::TCP_MAXSEG, c.segment);
        let peer = Peer::new(addr);
        let (piece_tx, mut piece_rx) = mpsc::channel(1);
        let (dht_tx, mut dht_rx) = mpsc::channel(1);
        let (con_tx, mut con_rx) = mpsc::channel::<ConnectionMessage>(1);
        let (send_tx, send_rx) = mpsc::channel(32);
        let (_sd_tx, sd_rx) = shutdown::channel();
        spawn_connection_manager(id(&me), peer, id(&info), piece_tx, dht_tx, con_tx, send_rx, sd_rx);

        let want: Vec<u8> = c.out.iter().flat_map(|m| m.encode()).collect();
        let n_out = want.len();
        let sent = c.out.clone();
        let outbound = tokio::spawn(async move {
            for m in sent {
                if send_tx.send(m.real()).await.is_err() {
                    break;
                }
            }
            send_tx
        });
        let (heard_tx, heard_rx) = tokio::sync::oneshot::channel::<()>();
        let (stream, reads, leaves): (Vec<u8>, _, _) = (c.frames.iter().flat_map(|f| f.encode()).collect(), c.reads.clone(), c.leaves);
        let remote = tokio::spawn(async move {
            let (mut s, _) = l.accept().await.unwrap();
            let mut hs = vec![0; 68];
            s.read_exact(&mut hs).await.map_err(|e| format!("no handshake: {e}"))?;
            s.write_all(&handshake(&info, &[3; 20])).await.map_err(|e| e.to_string())?;
            s.write_all(&stream).await.map_err(|e| e.to_string())?;
            let _ = heard_rx.await;
            let mut got = vec![];
            if leaves {
                return Ok::<_, String>(got);
            }
            for n in reads.iter().cycle() {
                let n = (*n).min(n_out - got.len());
                let at = got.len();
                got.resize(at + n, 0);
                timeout(Duration::from_secs(20), s.read_exact(&mut got[at..]))
                    .await
                    .map_err(|_| format!("no more bytes come after {at} of {n_out}"))?
                    .map_err(|e| format!("the connection ends after {at} of {n_out} bytes: {e}"))?;
                if got.len() == n_out {
                    break;
                }
            }
            Ok(got)
        });
        let lim = Duration::from_secs(20);
        for (k, m) in c.frames.iter().enumerate() {
            let late = || format!("message {k} of the peer ({}) is not handed on while messages wait for it", show_m(m));
            match m {
                M::Piece(i, b, d) => {
                    let g = timeout(lim, piece_rx.recv()).await.map_err(|_| late())?.ok_or_else(late)?;
                    ensure!((g.index, g.begin) == (*i, *b) && g.block.as_ref() == d.bytes(), "block {k} differs");
                }
                M::Port(p) => {
                    let a = timeout(lim, dht_rx.recv()).await.map_err(|_| late())?.ok_or_else(late)?;
                    ensure!(a.port() == *p && a.ip() == addr.ip(), "port {k} is {a}");
                }
                _ => {
                    let g = timeout(lim, con_rx.recv()).await.map_err(|_| late())?.ok_or_else(late)?;
                    ensure!(!matches!(g.message, ConMessageType::Disconnected | ConMessageType::Unreachable), "message {k} is {}, the peer sent {}", show(&g.message), show_m(m));
                }
            }
        }
        let _ = heard_tx.send(());
        let got = remote.await.unwrap()?;
        if !c.leaves {
            let same = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            ensure!(same == n_out, "the bytes written differ from the messages queued after {same} of {n_out}");
        }
        // it is gone now
        let last = timeout(lim, con_rx.recv()).await.map_err(|_| "the end of the connection is not reported".to_string())?;
        ensure!(matches!(last, Some(ConnectionMessage { message: ConMessageType::Disconnected, .. })), "{} in place of the end of the connection", last.map(|m| show(&m.message)).unwrap_or("nothing".into()));
        let more = timeout(lim, con_rx.recv()).await.map_err(|_| "the connection stays after its end".to_string())?;
        ensure!(more.is_none(), "{} after the end", show(&more.unwrap().message));
        let _ = outbound.await;
        Ok(Obs::new(!c.leaves && n_out >= 500_000).label(if c.leaves { "leaves" } else { "reads" }).label_if(!c.frames.is_empty(), "talks meanwhile"))
    })
}

fn show_m(m: &M) -> String {
    format!("{m:?}").chars().take(60).collect()
}

// ---------------------------------------------------------------- handshake

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Hs {
    info: Bytes20,
    me: Bytes20,
    them: Bytes20,
    reserved: [u8; 8],
    /// byte of the reply to flip, and with what
    flip: Option<(u8, u8)>,
    /// reply is cut after this many bytes
    cut: Option<u8>,
    tail: Vec<u8>,
    chunks: Vec<usize>,
}

fn run_hs(c: &Hs) -> TestResult {
    live(async move {
        let (l, addr) = listen().await;
        let mut reply = handshake(&c.info, &c.them);
        reply[20..28].copy_from_slice(&c.reserved);
        if let Some((i, x)) = c.flip {
            reply[i as usize % 68] ^= x;
        }
        let good_proto = reply[..20] == handshake(&c.info, &c.me)[..20];
        let good_hash = reply[28..48] == c.info;
        let complete = c.cut.is_none();
        if let Some(n) = c.cut {
            reply.truncate(n as usize % 68);
        } else {
            reply.extend(&c.tail);
        }
        let (chunks, n_tail) = (c.chunks.clone(), c.tail.len());
        let remote = tokio::spawn(async move {
            let (mut s, _) = l.accept().await.unwrap();
            let mut hs = vec![0; 68];
            s.read_exact(&mut hs).await.map_err(|e| format!("no handshake: {e}"))?;
            let _ = write_chunks(&mut s, &reply, &chunks).await;
            Ok::<_, String>((hs, s))
        });
        let (ih, me) = (id(&c.info), id(&c.me));
        let r = timeout(Duration::from_secs(20), async {
            let (a, b) = tokio::join!(
                initiate_handshake(&addr, &ih, &me),
                async {
                    // a cut reply is followed by the end of the stream
                    let r = remote.await.unwrap();
                    if complete { r.map(|(h, s)| (h, Some(s))) } else { r.map(|(h, _)| (h, None)) }
                }
            );
            (a, b)
        })
        .await
        .map_err(|_| "handshake does not end".to_string())?;
        let (mine, theirs) = r;
        let (hs, _keep) = theirs?;
        ensure!(hs == handshake(&c.info, &c.me), "sent handshake is {hs:?}");
        let want = good_proto && good_hash && complete;
        ensure!(mine.is_ok() == want, "handshake is_ok={} for a reply with protocol ok={good_proto}, hash ok={good_hash}, complete={complete}", mine.is_ok());
        if let Ok(mut s) = mine {
            let mut rest = vec![0; n_tail];
            timeout(Duration::from_secs(20), s.read_exact(&mut rest))
                .await
                .map_err(|_| "bytes behind the handshake are lost".to_string())?
                .map_err(|e| e.to_string())?;
            ensure!(rest == c.tail, "bytes behind the handshake differ");
        }
        Ok(Obs::new(c.chunks.iter().any(|n| *n < 68) || !want)
            .label(if want { "accepted" } else { "refused" })
            .label_if(!complete, "cut")
            .label_if(complete && !good_hash, "other torrent"))
    })
}

pub fn handshakes(ctx: &mut Ctx) {
    let s = (
        (any::<Bytes20>(), any::<Bytes20>(), any::<Bytes20>()),
        any::<[u8; 8]>(),
        prop_oneof![3 => Just(None), 1 => (0u8..20, 1u8..).prop_map(Some), 1 => (28u8..48, 1u8..).prop_map(Some), 1 => (20u8..28, 1u8..).prop_map(Some), 1 => (48u8..68, 1u8..).prop_map(Some)],
        prop_oneof![4 => Just(None), 1 => any::<u8>().prop_map(Some)],
        vec(any::<u8>(), 0..40),
        prop_oneof![vec(1usize..30, 1..5), Just(vec![200]), Just(vec![68, 200])],
    )
        .prop_map(|((info, me, them), reserved, flip, cut, tail, chunks)| Hs { info, me, them, reserved, flip, cut, tail, chunks });
    ctx.check(
        "reply",
        "handshake replies: any reserved bits and peer id, one flipped byte, cut short, in pieces, with further bytes behind; non-trivial: split or refused",
        Plan::new(1_500, 20_000).timing(),
        s,
        run_hs,
    );
}
