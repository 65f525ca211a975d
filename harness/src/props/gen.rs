//! Generators shared by the properties.
#![allow(dead_code)]
use nargun::verif::data_structures::ID;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::net::{Ipv4Addr, SocketAddrV4};

use crate::core::fill;

pub type Bytes20 = [u8; 20];

/// 20 bytes: uniform, or sparse in bits, so that common prefixes and single-bit differences occur.
pub fn bytes20() -> impl Strategy<Value = Bytes20> {
    prop_oneof![
        2 => any::<Bytes20>(),
        2 => vec(0usize..160, 0..4).prop_map(|bits| {
            let mut b = [0u8; 20];
            for i in bits { b[i / 8] ^= 0x80 >> (i % 8); }
            b
        }),
        1 => vec(0usize..160, 0..4).prop_map(|bits| {
            let mut b = [0xffu8; 20];
            for i in bits { b[i / 8] ^= 0x80 >> (i % 8); }
            b
        }),
    ]
}

/// A pair of ids, often close to one another.
pub fn pair20() -> impl Strategy<Value = (Bytes20, Bytes20)> {
    (bytes20(), bytes20(), any::<bool>()).prop_map(|(a, b, rel)| {
        if rel {
            let mut c = a;
            for i in 0..20 { c[i] ^= b[i]; }
            (a, c)
        } else {
            (a, b)
        }
    })
}

pub fn id(b: &[u8]) -> ID {
    ID::new(b.try_into().unwrap())
}

pub fn addr6() -> impl Strategy<Value = [u8; 6]> {
    prop_oneof![any::<[u8; 6]>(), (any::<u8>(), any::<u8>()).prop_map(|(a, p)| [10, 0, 0, a, 0, p])]
}

pub fn sock(a: &[u8; 6]) -> SocketAddrV4 {
    SocketAddrV4::new(Ipv4Addr::new(a[0], a[1], a[2], a[3]), u16::from_be_bytes([a[4], a[5]]))
}

pub fn compact(a: &SocketAddrV4) -> [u8; 6] {
    let o = a.ip().octets();
    let p = a.port().to_be_bytes();
    [o[0], o[1], o[2], o[3], p[0], p[1]]
}

pub fn sha1(parts: &[&[u8]]) -> [u8; 20] {
    let mut h = openssl::sha::Sha1::new();
    for p in parts { h.update(p); }
    h.finish()
}

/// Small deterministic generator for decisions inside a case.
#[derive(Clone)]
pub struct Lcg(pub u64);
impl Lcg {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

/// A node's distance from the table's own id: the first differing bit, and what follows it.
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub struct Delta {
    pub first: u8,
    pub tail: u64,
}

impl Delta {
    pub fn bytes(&self) -> Bytes20 {
        let mut b = [0u8; 20];
        let f = self.first as usize % 160;
        let t = fill(self.tail, 20);
        for i in f + 1..160 {
            // the bits behind come from a few values, so ids repeat
            b[i / 8] |= t[i / 8] & (0x80 >> (i % 8));
        }
        b[f / 8] |= 0x80 >> (f % 8);
        b
    }
    pub fn of(&self, own: &ID) -> Bytes20 {
        let mut b = self.bytes();
        for (x, o) in b.iter_mut().zip(own.as_byte_ref()) {
            *x ^= o;
        }
        b
    }
}

pub fn delta(deep: u8) -> impl Strategy<Value = Delta> {
    let tail = prop_oneof![1 => 0u64..6, 2 => any::<u64>()];
    (prop_oneof![3 => 0u8..4, 3 => 0u8..deep.max(5), 1 => 0u8..160, 2 => deep..deep + 3], tail)
        .prop_map(|(first, tail)| Delta { first: first.min(159), tail })
}

