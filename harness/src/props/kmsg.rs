//! KRPC messages, written independently of the code under test.
#![allow(dead_code)]
use super::bencode::{any_value, B};
use super::gen::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A message, written independently of the code under test.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum K {
    Ping(Bytes20),
    Find(Bytes20, Bytes20),
    Get(Bytes20, Bytes20),
    Announce(Bytes20, Bytes20, u16, Vec<u8>),
    /// the answer to a ping, and to an announcement
    Pong(Bytes20),
    Found(Bytes20, Vec<(Bytes20, [u8; 6])>),
    Nodes(Bytes20, Vec<u8>, Vec<(Bytes20, [u8; 6])>),
    Values(Bytes20, Vec<u8>, Vec<[u8; 6]>),
    Failed(u32, String),
}

pub type Extra = Vec<(Vec<u8>, B)>;

pub fn nodes_bytes(n: &[(Bytes20, [u8; 6])]) -> Vec<u8> {
    n.iter().flat_map(|(i, a)| i.iter().chain(a).copied().collect::<Vec<u8>>()).collect()
}

impl K {
    /// The dictionary, with keys of others mixed in at both levels.
    pub fn value(&self, tid: &[u8], outer: &Extra, inner: &Extra) -> B {
        let mut body = B::Dict(vec![]);
        for (k, v) in inner {
            body.put(k, v.clone());
        }
        // what these mean is up to the message
        for k in ["id", "target", "info_hash", "port", "token", "nodes", "values"] {
            body.remove(k.as_bytes());
        }
        let mut top = B::Dict(vec![]);
        for (k, v) in outer {
            top.put(k, v.clone());
        }
        for k in ["t", "y", "q", "a", "r", "e"] {
            top.remove(k.as_bytes());
        }
        top.put(b"t", B::s(tid));
        let mut method = None;
        match self {
            K::Ping(id) => {
                body.put(b"id", B::s(id));
                method = Some("ping");
            }
            K::Find(id, t) => {
                body.put(b"id", B::s(id));
                body.put(b"target", B::s(t));
                method = Some("find_node");
            }
            K::Get(id, h) => {
                body.put(b"id", B::s(id));
                body.put(b"info_hash", B::s(h));
                method = Some("get_peers");
            }
            K::Announce(id, h, p, t) => {
                body.put(b"id", B::s(id));
                body.put(b"info_hash", B::s(h));
                body.put(b"port", B::Int(*p as i64));
                body.put(b"token", B::s(t));
                method = Some("announce_peer");
            }
            K::Pong(id) => body.put(b"id", B::s(id)),
            K::Found(id, n) => {
                body.put(b"id", B::s(id));
                body.put(b"nodes", B::Str(nodes_bytes(n)));
            }
            K::Nodes(id, t, n) => {
                body.put(b"id", B::s(id));
                body.put(b"token", B::s(t));
                body.put(b"nodes", B::Str(nodes_bytes(n)));
            }
            K::Values(id, t, v) => {
                body.put(b"id", B::s(id));
                body.put(b"token", B::s(t));
                body.put(b"values", B::List(v.iter().map(B::s).collect()));
            }
            K::Failed(c, s) => {
                top.put(b"y", B::s("e"));
                top.put(b"e", B::List(vec![B::Int(*c as i64), B::s(s)]));
                return top;
            }
        }
        if let Some(m) = method {
            top.put(b"y", B::s("q"));
            top.put(b"q", B::s(m));
            top.put(b"a", body);
        } else {
            top.put(b"y", B::s("r"));
            top.put(b"r", body);
        }
        top
    }
}

/// A well-formed message: transaction id, content.
pub fn parse(b: &[u8]) -> Option<(Vec<u8>, K)> {
    let (v, n) = B::parse(b)?;
    (n == b.len()).then_some(())?;
    let bytes = |v: &B| match v {
        B::Str(s) => Some(s.clone()),
        _ => None,
    };
    let b20 = |v: Option<&B>| -> Option<Bytes20> { bytes(v?)?.try_into().ok() };
    let tid = bytes(v.get(b"t")?)?;
    let k = match bytes(v.get(b"y")?)?.as_slice() {
        b"q" => {
            let a = v.get(b"a")?;
            let id = b20(a.get(b"id"))?;
            match bytes(v.get(b"q")?)?.as_slice() {
                b"ping" => K::Ping(id),
                b"find_node" => K::Find(id, b20(a.get(b"target"))?),
                b"get_peers" => K::Get(id, b20(a.get(b"info_hash"))?),
                b"announce_peer" => {
                    let Some(B::Int(p)) = a.get(b"port") else { return None };
                    K::Announce(id, b20(a.get(b"info_hash"))?, u16::try_from(*p).ok()?, bytes(a.get(b"token")?)?)
                }
                _ => return None,
            }
        }
        b"r" => {
            let r = v.get(b"r")?;
            let id = b20(r.get(b"id"))?;
            let nodes = match r.get(b"nodes") {
                None => None,
                Some(n) => {
                    let n = bytes(n)?;
                    (n.len() % 26 == 0).then_some(())?;
                    Some(n.chunks(26).map(|c| (c[..20].try_into().unwrap(), c[20..].try_into().unwrap())).collect::<Vec<(Bytes20, [u8; 6])>>())
                }
            };
            match (r.get(b"token"), r.get(b"values"), nodes) {
                (Some(t), Some(B::List(l)), _) => {
                    let l: Option<Vec<[u8; 6]>> = l.iter().map(|x| bytes(x)?.try_into().ok()).collect();
                    K::Values(id, bytes(t)?, l?)
                }
                (Some(t), None, Some(n)) => K::Nodes(id, bytes(t)?, n),
                (None, None, Some(n)) => K::Found(id, n),
                (None, None, None) => K::Pong(id),
                _ => return None,
            }
        }
        _ => return None,
    };
    Some((tid, k))
}

pub fn nodes(max: usize) -> impl Strategy<Value = Vec<(Bytes20, [u8; 6])>> {
    vec((bytes20(), addr6()), 0..max)
}

pub fn token() -> impl Strategy<Value = Vec<u8>> {
    prop_oneof![vec(any::<u8>(), 1..25), Just(b"i5e".to_vec()), any::<[u8; 20]>().prop_map(|t| t.to_vec())]
}

pub fn message() -> impl Strategy<Value = K> {
    prop_oneof![
        bytes20().prop_map(K::Ping),
        (bytes20(), bytes20()).prop_map(|(a, b)| K::Find(a, b)),
        (bytes20(), bytes20()).prop_map(|(a, b)| K::Get(a, b)),
        (bytes20(), bytes20(), any::<u16>(), token()).prop_map(|(a, b, p, t)| K::Announce(a, b, p, t)),
        bytes20().prop_map(K::Pong),
        (bytes20(), nodes(20)).prop_map(|(a, n)| K::Found(a, n)),
        (bytes20(), token(), nodes(20)).prop_map(|(a, t, n)| K::Nodes(a, t, n)),
        (bytes20(), token(), vec(addr6(), 0..150)).prop_map(|(a, t, v)| K::Values(a, t, v)),
        (0u32..1000, "[ -~]{0,30}").prop_map(|(c, s)| K::Failed(c, s)),
    ]
}

pub fn extras() -> impl Strategy<Value = Extra> {
    let key = proptest::sample::select(vec![
        "v", "ip", "ro", "want", "implied_port", "scrape", "noseed", "nodes6", "p", "samples", "seed", "BFsd", "", "zz",
    ]);
    prop_oneof![
        1 => Just(vec![]),
        2 => vec((key.prop_map(|k| k.as_bytes().to_vec()), any_value()), 0..4),
        1 => vec((vec(97u8..123, 0..6), any_value()), 0..4),
    ]
}

pub fn tid() -> impl Strategy<Value = Vec<u8>> {
    prop_oneof![3 => vec(any::<u8>(), 1..6), 1 => vec(any::<u8>(), 0..40)]
}

