//! Bencode values, written independently of the code under test.
#![allow(dead_code)]
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum B {
    Int(i64),
    Str(Vec<u8>),
    List(Vec<B>),
    Dict(Vec<(Vec<u8>, B)>),
}

impl B {
    pub fn s(v: impl AsRef<[u8]>) -> B {
        B::Str(v.as_ref().to_vec())
    }
    pub fn dict(kv: Vec<(&[u8], B)>) -> B {
        let m: BTreeMap<Vec<u8>, B> = kv.into_iter().map(|(k, v)| (k.to_vec(), v)).collect();
        B::Dict(m.into_iter().collect())
    }
    pub fn put(&mut self, k: &[u8], v: B) {
        if let B::Dict(d) = self {
            d.retain(|(x, _)| x != k);
            let at = d.iter().position(|(x, _)| x.as_slice() > k).unwrap_or(d.len());
            d.insert(at, (k.to_vec(), v));
        }
    }
    pub fn get(&self, k: &[u8]) -> Option<&B> {
        match self {
            B::Dict(d) => d.iter().find(|(x, _)| x == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn remove(&mut self, k: &[u8]) {
        if let B::Dict(d) = self {
            d.retain(|(x, _)| x != k);
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut o = vec![];
        self.write(&mut o);
        o
    }
    fn write(&self, o: &mut Vec<u8>) {
        match self {
            B::Int(i) => o.extend(format!("i{i}e").bytes()),
            B::Str(s) => {
                o.extend(format!("{}:", s.len()).bytes());
                o.extend(s);
            }
            B::List(l) => {
                o.push(b'l');
                l.iter().for_each(|x| x.write(o));
                o.push(b'e');
            }
            B::Dict(d) => {
                o.push(b'd');
                for (k, v) in d {
                    B::Str(k.clone()).write(o);
                    v.write(o);
                }
                o.push(b'e');
            }
        }
    }

    /// Canonical bencode only (sorted unique keys, no leading zeros); the value and its length.
    pub fn parse(b: &[u8]) -> Option<(B, usize)> {
        fn num(b: &[u8], end: u8) -> Option<(i64, usize)> {
            let n = b.iter().take(25).position(|c| *c == end)?;
            let s = std::str::from_utf8(&b[..n]).ok()?;
            let d = s.strip_prefix('-').unwrap_or(s);
            if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) || (d.len() > 1 && d.starts_with('0')) || s == "-0" {
                return None;
            }
            Some((s.parse().ok()?, n + 1))
        }
        fn go(b: &[u8], depth: usize) -> Option<(B, usize)> {
            if depth > 60 {
                return None;
            }
            match b.first()? {
                b'i' => num(&b[1..], b'e').map(|(i, n)| (B::Int(i), n + 1)),
                b'l' | b'd' => {
                    let mut at = 1;
                    let mut items = vec![];
                    while *b.get(at)? != b'e' {
                        let (v, n) = go(&b[at..], depth + 1)?;
                        at += n;
                        items.push(v);
                    }
                    at += 1;
                    if b[0] == b'l' {
                        return Some((B::List(items), at));
                    }
                    if items.len() % 2 == 1 {
                        return None;
                    }
                    let mut d: Vec<(Vec<u8>, B)> = vec![];
                    let mut it = items.into_iter();
                    while let (Some(B::Str(k)), Some(v)) = (it.next(), it.next()) {
                        if d.last().map(|(l, _)| *l >= k).unwrap_or(false) {
                            return None;
                        }
                        d.push((k, v));
                    }
                    // keys that are no strings end the loop early
                    (it.next().is_none()).then_some(())?;
                    Some((B::Dict(d), at))
                }
                b'0'..=b'9' => {
                    let (n, l) = num(b, b':')?;
                    let n = usize::try_from(n).ok()?;
                    Some((B::Str(b.get(l..l.checked_add(n)?)?.to_vec()), l + n))
                }
                _ => None,
            }
        }
        go(b, 0)
    }
}

/// Any small value, for keys nobody knows.
pub fn any_value() -> impl Strategy<Value = B> {
    let leaf = prop_oneof![any::<i64>().prop_map(B::Int), vec(any::<u8>(), 0..20).prop_map(B::Str)];
    leaf.prop_recursive(3, 12, 4, |inner| {
        prop_oneof![
            vec(inner.clone(), 0..4).prop_map(B::List),
            vec((vec(any::<u8>(), 0..5), inner), 0..4).prop_map(|kv| {
                B::Dict(kv.into_iter().collect::<BTreeMap<_, _>>().into_iter().collect())
            }),
        ]
    })
}

/// Damage to a byte string.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Cut {
    Flip(u32, u8),
    Truncate(u32),
    Insert(u32, Vec<u8>),
    Delete(u32, u8),
    Repeat(u32, u8),
    /// a number in the text becomes another
    Number(u32, String),
    Swap(u32, u32, u8),
}

pub fn cut() -> impl Strategy<Value = Cut> {
    let tokens = prop_oneof![
        Just(b"e".to_vec()), Just(b"d".to_vec()), Just(b"l".to_vec()), Just(b"de".to_vec()), Just(b"i0e".to_vec()),
        Just(b"i-1e".to_vec()), Just(b"0:".to_vec()), Just(b"99999999999:".to_vec()), vec(any::<u8>(), 1..4)
    ];
    let number = prop_oneof![
        Just("0".to_string()), Just("-1".to_string()), Just("18446744073709551615".to_string()),
        Just("9223372036854775807".to_string()), Just("99999999999999999999".to_string()), Just("4294967296".to_string()),
        Just("00".to_string()), (0u32..100).prop_map(|n| n.to_string()), Just("".to_string())
    ];
    prop_oneof![
        3 => (any::<u32>(), 1u8..).prop_map(|(a, x)| Cut::Flip(a, x)),
        1 => any::<u32>().prop_map(Cut::Truncate),
        2 => (any::<u32>(), tokens).prop_map(|(a, t)| Cut::Insert(a, t)),
        2 => (any::<u32>(), 1u8..30).prop_map(|(a, n)| Cut::Delete(a, n)),
        1 => (any::<u32>(), 1u8..60).prop_map(|(a, n)| Cut::Repeat(a, n)),
        4 => (any::<u32>(), number).prop_map(|(a, n)| Cut::Number(a, n)),
        1 => (any::<u32>(), any::<u32>(), 1u8..20).prop_map(|(a, b, n)| Cut::Swap(a, b, n)),
    ]
}

pub fn damage(mut b: Vec<u8>, cuts: &[Cut]) -> Vec<u8> {
    for c in cuts {
        if b.is_empty() {
            return b;
        }
        let at = |a: u32, l: usize| a as usize % l;
        let l = b.len();
        match c {
            Cut::Flip(a, x) => b[at(*a, l)] ^= x,
            Cut::Truncate(a) => b.truncate(at(*a, l)),
            Cut::Insert(a, t) => {
                let i = at(*a, l);
                b.splice(i..i, t.iter().cloned());
            }
            Cut::Delete(a, n) => {
                let i = at(*a, l);
                b.drain(i..(i + *n as usize).min(l));
            }
            Cut::Repeat(a, n) => {
                let i = at(*a, l);
                let s = b[i..(i + *n as usize).min(l)].to_vec();
                b.splice(i..i, s);
            }
            Cut::Number(a, n) => {
                // the k-th run of digits
                let mut runs = vec![];
                let mut i = 0;
                while i < b.len() {
                    if b[i].is_ascii_digit() {
                        let s = i;
                        while i < b.len() && b[i].is_ascii_digit() {
                            i += 1;
                        }
                        runs.push((s, i));
                    } else {
                        i += 1;
                    }
                }
                if !runs.is_empty() {
                    let (s, e) = runs[at(*a, runs.len())];
                    b.splice(s..e, n.bytes());
                }
            }
            Cut::Swap(a, c, n) => {
                let (i, j) = (at(*a, l), at(*c, l));
                for k in 0..*n as usize {
                    if i + k < l && j + k < l {
                        b.swap(i + k, j + k);
                    }
                }
            }
        }
    }
    b
}
