//! C12 (KRPC messages round trip), C13 (any datagram is a message or an error).
use super::bencode::{any_value, cut, damage, Cut, B};
use super::gen::*;
use super::kmsg::*;
use crate::core::*;
use crate::ensure;
use nargun::verif::data_structures::{SerializableBuf, ID};
use nargun::verif::dht::krpc_message::{Arguments, Error, Message, Nodes, Response, ValuesOrNodes};
use nargun::verif::dht::routing_table::Node;
use nargun::verif::peers::peer::Peer;
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;

trait Real {
    fn real(&self, tid: &[u8]) -> Message;
}

impl Real for K {
    fn real(&self, tid: &[u8]) -> Message {
        let t = SerializableBuf::from(tid);
        let b = |v: &Vec<u8>| SerializableBuf::from(v.as_slice());
        match self {
            K::Ping(i) => Message::ping_query(&id(i), t),
            K::Find(i, x) => Message::find_nodes_query(&id(i), &id(x), t),
            K::Get(i, h) => Message::get_peers_query(&id(i), &id(h), t),
            K::Announce(i, h, p, k) => Message::announce_peer_query(&id(i), &id(h), *p, b(k), t),
            K::Pong(i) if tid.len() % 2 == 0 => Message::ping_resp(&id(i), t),
            K::Pong(i) => Message::announce_peer_resp(&id(i), t),
            K::Found(i, n) => Message::find_nodes_resp(&id(i), real_nodes(n), t),
            K::Nodes(i, k, n) => Message::get_peers_resp(&id(i), b(k), ValuesOrNodes::Nodes { nodes: real_nodes(n) }, t),
            K::Values(i, k, v) => {
                let values = v.iter().map(|a| Peer::new(sock(a))).collect();
                Message::get_peers_resp(&id(i), b(k), ValuesOrNodes::Values { values }, t)
            }
            K::Failed(c, s) => Message::_error_resp(vec![Error::Code(*c), Error::Desc(s.clone())], t),
        }
    }
}

fn real_nodes(n: &[(Bytes20, [u8; 6])]) -> Nodes {
    let node = |(i, a): &(Bytes20, [u8; 6])| {
        let mut b = i.to_vec();
        b.extend(a);
        Node::from_compact_bytes(&b).unwrap()
    };
    match n {
        [one] => Nodes::Exact(node(one)),
        n => Nodes::Closest(n.iter().map(node).collect()),
    }
}

fn raw(i: &ID) -> Bytes20 {
    i.as_byte_ref().try_into().unwrap()
}

fn raw_nodes(n: &Nodes) -> Vec<(Bytes20, [u8; 6])> {
    n.iter().map(|n| (raw(&n.id), compact(&n.addr))).collect()
}

/// What the code made of it: transaction id, message.
fn read(m: &Message) -> Option<(Vec<u8>, K)> {
    let tid = m.tid().as_ref().to_vec();
    let k = match m {
        Message::Query { arguments, .. } => match arguments {
            Arguments::Ping { id } => K::Ping(raw(id)),
            Arguments::FindNode { id, target } => K::Find(raw(id), raw(target)),
            Arguments::GetPeers { id, info_hash } => K::Get(raw(id), raw(info_hash)),
            Arguments::AnnouncePeer { id, info_hash, port, token } => K::Announce(raw(id), raw(info_hash), *port, token.as_ref().to_vec()),
        },
        Message::Response { response, .. } => match response {
            Response::Ping { id } | Response::AnnouncePeer { id } => K::Pong(raw(id)),
            Response::FindNode { id, nodes } => K::Found(raw(id), raw_nodes(nodes)),
            Response::GetPeers { id, token, values_or_nodes: ValuesOrNodes::Nodes { nodes } } => K::Nodes(raw(id), token.as_ref().to_vec(), raw_nodes(nodes)),
            Response::GetPeers { id, token, values_or_nodes: ValuesOrNodes::Values { values } } => {
                K::Values(raw(id), token.as_ref().to_vec(), values.iter().map(|p| compact(p.addr())).collect())
            }
        },
        Message::Error { error, .. } => match error.as_slice() {
            [Error::Code(c), Error::Desc(s)] => K::Failed(*c, s.clone()),
            _ => return None,
        },
    };
    Some((tid, k))
}

pub fn round_trip(ctx: &mut Ctx) {
    ctx.check(
        "encode",
        "messages of all kinds; the bytes equal those of an independent encoder and decode to the same message; non-trivial: more than an id is carried",
        Plan::new(15_000, 600_000),
        (message(), tid()),
        |(k, t)| {
            let got = k.real(t).into_bytes().map_err(|e| format!("not encoded: {e}"))?;
            let want = k.value(t, &vec![], &vec![]).encode();
            ensure!(got == want, "encoded as {:?} instead of {:?}", String::from_utf8_lossy(&got), String::from_utf8_lossy(&want));
            let back = Message::from_bytes(&got).map_err(|e| format!("its own encoding is refused: {e}"))?;
            ensure!(read(&back).as_ref() == Some(&(t.clone(), k.clone())), "decoded as {back:?}");
            Ok(Obs::new(!matches!(k, K::Ping(_) | K::Pong(_))))
        },
    );
    ctx.check(
        "decode",
        "messages with keys nobody knows at both levels, built by an independent encoder; non-trivial: such a key is there",
        Plan::new(15_000, 600_000),
        (message(), tid(), extras(), extras()),
        |(k, t, o, i)| {
            let b = k.value(t, o, i).encode();
            let got = Message::from_bytes(&b).map_err(|e| format!("{:?} is refused: {e}", String::from_utf8_lossy(&b)))?;
            ensure!(read(&got).as_ref() == Some(&(t.clone(), k.clone())), "decoded as {got:?}");
            Ok(Obs::new(!o.is_empty() || !i.is_empty()))
        },
    );
    ctx.check(
        "both",
        "responses to get_peers that carry peers as well as nodes, as most nodes send them; non-trivial: both lists have something",
        Plan::new(3_000, 100_000),
        (bytes20(), token(), vec(addr6(), 0..60), nodes(9), tid()),
        |(i, k, v, n, t)| {
            let mut b = K::Values(*i, k.clone(), v.clone()).value(t, &vec![], &vec![]);
            let mut r = b.get(b"r").unwrap().clone();
            r.put(b"nodes", B::Str(nodes_bytes(n)));
            b.put(b"r", r);
            let got = Message::from_bytes(&b.encode()).map_err(|e| format!("refused: {e}"))?;
            ensure!(read(&got) == Some((t.clone(), K::Values(*i, k.clone(), v.clone()))), "decoded as {got:?}");
            Ok(Obs::new(!v.is_empty() && !n.is_empty()))
        },
    );
}

/// What an accepted message says must be in the bytes.
fn believed(b: &[u8]) -> Result<bool, String> {
    let Ok(m) = Message::from_bytes(b) else { return Ok(false) };
    let again = read(&m);
    // the code's own encoding of it means the same
    let dbg = format!("{m:?}");
    let enc = m.into_bytes().map_err(|e| format!("accepted, but cannot be encoded: {e}"))?;
    let m2 = Message::from_bytes(&enc).map_err(|e| format!("accepted, but its encoding is refused: {e}"))?;
    ensure!(dbg == format!("{m2:?}"), "accepted as {dbg}, encoded and decoded as {m2:?}");
    let Some((v, _)) = B::parse(b) else { return Ok(true) };
    let Some((tid, k)) = again else { return Ok(true) };
    ensure!(v.get(b"t") == Some(&B::Str(tid.clone())), "transaction id {tid:?} is not in {v:?}");
    let body = if matches!(k, K::Failed(..)) { None } else { v.get(b"a").into_iter().chain(v.get(b"r")).find(|x| matches!(x, B::Dict(_))) };
    if matches!(k, K::Failed(..)) {
        return Ok(true);
    }
    let body = body.ok_or("neither arguments nor a response")?;
    let wanted = k.value(&tid, &vec![], &vec![]);
    let wanted = wanted.get(b"a").or(wanted.get(b"r")).unwrap();
    let B::Dict(w) = wanted else { unreachable!() };
    let bodies: Vec<&B> = v.get(b"a").into_iter().chain(v.get(b"r")).collect();
    ensure!(
        bodies.iter().any(|body| w.iter().all(|(key, x)| body.get(key) == Some(x))),
        "{k:?} was read from {body:?}"
    );
    Ok(true)
}

pub fn robust(ctx: &mut Ctx) {
    ctx.check(
        "damaged",
        "messages with bytes flipped, cut, inserted, repeated, swapped and numbers replaced; what is accepted is in the bytes and encodes to the same again; non-trivial: the bytes differ from the original",
        Plan::new(25_000, 1_000_000),
        (message(), tid(), extras(), extras(), vec(cut(), 1..6)),
        |(k, t, o, i, c): &(K, Vec<u8>, Extra, Extra, Vec<Cut>)| {
            let orig = k.value(t, o, i).encode();
            let b = damage(orig.clone(), c);
            let a = believed(&b)?;
            Ok(Obs::new(b != orig).label_if(a, "accepted"))
        },
    );
    let key = || proptest::sample::select(vec!["t", "y", "q", "a", "r", "e", "v"]).prop_map(String::from);
    let sub = || proptest::sample::select(vec!["id", "target", "info_hash", "port", "token", "nodes", "values", "x"]);
    let leaf = || {
        prop_oneof![
            any_value(),
            bytes20().prop_map(B::s),
            (-2i64..70_000).prop_map(B::Int),
            proptest::sample::select(vec!["q", "r", "e", "ping", "find_node", "get_peers", "announce_peer", ""]).prop_map(B::s),
            vec(any::<u8>(), 24..80).prop_map(B::Str),
            vec(vec(any::<u8>(), 5..8).prop_map(B::Str), 0..4).prop_map(B::List),
            vec((0u32..500).prop_map(|c| B::Int(c as i64)), 0..3).prop_map(B::List),
        ]
    };
    // mostly of the right type for its key
    let fit = move || {
        sub().prop_flat_map(move |k| {
            let right = match k {
                "port" => (0i64..70_000).prop_map(B::Int).boxed(),
                "token" | "x" => vec(any::<u8>(), 0..8).prop_map(B::Str).boxed(),
                "nodes" => nodes(4).prop_map(|n| B::Str(nodes_bytes(&n))).boxed(),
                "values" => vec(addr6().prop_map(B::s), 0..4).prop_map(B::List).boxed(),
                _ => bytes20().prop_map(B::s).boxed(),
            };
            prop_oneof![12 => right, 1 => leaf().boxed()].prop_map(move |v| (k, v))
        })
    };
    let dict = move || {
        (option::weighted(0.9, bytes20()), vec(fit(), 0..5)).prop_map(|(id, kv)| {
            let mut d = B::Dict(vec![]);
            kv.into_iter().for_each(|(k, v)| d.put(k.as_bytes(), v));
            if let Some(i) = id {
                d.put(b"id", B::s(i));
            }
            d
        })
    };
    let word = |v: Vec<&'static str>| proptest::sample::select(v).prop_map(B::s);
    let top = (
        option::weighted(0.95, prop_oneof![9 => vec(any::<u8>(), 0..6).prop_map(B::Str), 1 => leaf()]),
        option::weighted(0.95, prop_oneof![9 => word(vec!["q", "r", "e"]), 1 => leaf()]),
        option::weighted(0.6, prop_oneof![9 => word(vec!["ping", "find_node", "get_peers", "announce_peer", "vote"]), 1 => leaf()]),
        option::weighted(0.6, prop_oneof![9 => dict(), 1 => leaf()]),
        option::weighted(0.6, prop_oneof![9 => dict(), 1 => leaf()]),
        option::weighted(0.2, leaf()),
        vec((key(), leaf()), 0..2),
    );
    ctx.check(
        "mixed",
        "dictionaries put together from the keys of messages with values mostly of the right type; non-trivial: there is a body",
        Plan::new(25_000, 1_000_000),
        top.prop_map(|(t, y, q, a, r, e, more)| {
            let mut d = B::Dict(vec![]);
            for (k, v) in more {
                d.put(k.as_bytes(), v);
            }
            for (k, v) in [("t", t), ("y", y), ("q", q), ("a", a), ("r", r), ("e", e)] {
                if let Some(v) = v {
                    d.put(k.as_bytes(), v);
                }
            }
            d
        }),
        |d: &B| {
            let a = believed(&d.encode())?;
            let body = matches!(d.get(b"a"), Some(B::Dict(_))) || matches!(d.get(b"r"), Some(B::Dict(_)));
            Ok(Obs::new(body).label_if(a, "accepted"))
        },
    );
    ctx.check(
        "bytes",
        "arbitrary bytes and deep nesting, on a stack as small as that of the program's threads; non-trivial: at least eight bytes",
        Plan::new(4_000, 100_000),
        prop_oneof![
            vec(any::<u8>(), 0..100),
            (proptest::sample::select(vec!["l", "d1:a", "ld1:a", "d1:rd1:x", "d1:t"]), 1usize..2600, any::<bool>()).prop_map(|(s, n, close)| {
                let mut b = s.repeat(n / s.len() + 1).into_bytes();
                if close {
                    b.truncate(1300);
                    b.extend(vec![b'e'; 1300]);
                }
                b
            }),
            (proptest::sample::select(vec![&b"d1:ad2:id20:abcdefghij01234567891:x"[..], b"d1:v"]), 1usize..1200).prop_map(|(p, n)| {
                let mut b = p.to_vec();
                b.extend(vec![b'l'; n]);
                b.extend(vec![b'e'; n]);
                b.extend(if p.len() > 10 { &b"e1:q4:ping1:t2:aa1:y1:qe"[..] } else { &b"1:y1:qe"[..] });
                b
            }),
        ],
        |b| {
            let a = std::thread::scope(|s| {
                std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || believed(b)).unwrap().join().unwrap_or(Err("panicked".into()))
            })?;
            Ok(Obs::new(b.len() >= 8).label_if(a, "accepted"))
        },
    );
}
