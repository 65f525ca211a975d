use super::gen::*;
use crate::core::*;
use crate::ensure;
use nargun::verif::data_structures::{Bitmap, ID};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;

fn bits(b: &[u8]) -> Vec<bool> {
    b.iter().flat_map(|x| (0..8).map(move |i| x >> (7 - i) & 1 == 1)).collect()
}

fn unbits(v: &[bool]) -> Vec<u8> {
    v.chunks(8)
        .map(|c| c.iter().enumerate().fold(0u8, |a, (i, b)| a | ((*b as u8) << (7 - i))))
        .collect()
}

pub fn id_metric(ctx: &mut Ctx) {
    ctx.check(
        "order",
        "pairs and a target; non-trivial: the two ids differ and share at least one leading bit",
        Plan::new(40_000, 1_500_000),
        (pair20(), bytes20()),
        |((a, b), t)| {
            let (x, y, z) = (id(a), id(b), id(t));
            ensure!(x.cmp(&y) == a.cmp(b), "order of ids is not numeric");
            ensure!(x.partial_cmp(&y) == Some(a.cmp(b)), "partial order differs from order");
            ensure!((x == y) == (a == b), "equality");
            ensure!((x < y) == (a < b) && (x >= y) == (a >= b), "comparison operators");
            let d: Vec<u8> = a.iter().zip(b).map(|(p, q)| p ^ q).collect();
            for (n, got) in [("-", &x - &y), ("^", &x ^ &y), ("- by value", x - y), ("^ by value", x ^ y), ("swapped", &y - &x)] {
                ensure!(got.as_byte_ref() == d.as_slice(), "distance ({n}) is not the exclusive or");
            }
            // nearer means numerically smaller exclusive or
            let da: Vec<u8> = a.iter().zip(t).map(|(p, q)| p ^ q).collect();
            let db: Vec<u8> = b.iter().zip(t).map(|(p, q)| p ^ q).collect();
            ensure!((&x - &z).cmp(&(&y - &z)) == da.cmp(&db), "nearer-than is wrong");
            let (ba, bb) = (bits(a), bits(b));
            let first = (0..160).find(|i| ba[*i] != bb[*i]);
            ensure!(x.first_diff_bit_idx(&y) == first, "first differing bit: {:?}, is {first:?}", x.first_diff_bit_idx(&y));
            ensure!(y.first_diff_bit_idx(&x) == first, "first differing bit is not symmetric");
            let nt = first.map(|f| f > 0).unwrap_or(false);
            Ok(Obs::new(nt).label_if(a == b, "equal"))
        },
    );
    ctx.check(
        "bits",
        "an id, a bit index and a value; every such case counts as non-trivial",
        Plan::new(40_000, 1_500_000),
        (pair20(), 0usize..160, any::<bool>()),
        |((a, b), i, v)| {
            let ba = bits(a);
            let bb = bits(b);
            let (x, y) = (id(a), id(b));
            ensure!(x.get_bit(*i) == ba[*i], "get_bit({i})");
            let mut f = x;
            f.flip_bit(*i);
            let mut e = ba.clone();
            e[*i] = !e[*i];
            ensure!(f.as_byte_ref() == unbits(&e), "flip_bit({i})");
            let mut c = x;
            c.change_bit(*i, *v);
            let mut e = ba.clone();
            e[*i] = *v;
            ensure!(c.as_byte_ref() == unbits(&e), "change_bit({i}, {v})");
            for n in [*i, 160] {
                ensure!(x.cmp_first_n_bits(&y, n) == ba[..n].cmp(&bb[..n]), "cmp_first_n_bits({n})");
            }
            ensure!(x.weight() == ba.iter().filter(|b| **b).count(), "weight");
            let mut r = x;
            r.randomize_after_bit(*i);
            ensure!(bits(r.as_byte_ref())[..=*i] == ba[..=*i], "randomize_after_bit({i}) changed the prefix");
            let (p, q) = x.bit_based_order(*i, 1, 0);
            ensure!((p, q) == if ba[*i] { (1, 0) } else { (0, 1) }, "bit_based_order({i})");
            ensure!(x.as_byte_ref() == a, "id changed");
            let _ = Ordering::Equal;
            Ok(Obs::new(true))
        },
    );
    ctx.check(
        "randomized_tail",
        "a prefix length; non-trivial: at least 8 bits are free; bits after the prefix must take both values",
        Plan::new(300, 5_000),
        (bytes20(), 0usize..160),
        |(a, i)| {
            // 64 draws: a free bit that never changes has chance 2^-63
            let mut seen0 = [false; 160];
            let mut seen1 = [false; 160];
            for _ in 0..64 {
                let mut r = id(a);
                r.randomize_after_bit(*i);
                for (k, b) in bits(r.as_byte_ref()).into_iter().enumerate() {
                    if b { seen1[k] = true } else { seen0[k] = true }
                }
            }
            for k in i + 1..160 {
                ensure!(seen0[k] && seen1[k], "bit {k} after {i} is never randomized");
            }
            for k in 0..=*i {
                ensure!(seen0[k] != seen1[k], "bit {k} of the prefix changed");
            }
            Ok(Obs::new(160 - i > 8))
        },
    );
    ctx.check(
        "codec",
        "20-byte strings and byte strings of other lengths, through bencode and bincode; non-trivial: wrong length",
        Plan::new(20_000, 400_000),
        prop_oneof![vec(any::<u8>(), 20), vec(any::<u8>(), 0..64)],
        |b| {
            let enc = bendy::serde::to_bytes(&serde_bytes_like(b)).unwrap();
            let got = bendy::serde::from_bytes::<ID>(&enc);
            if b.len() == 20 {
                let got = got.map_err(|e| format!("20 bytes refused: {e}"))?;
                ensure!(got.as_byte_ref() == b.as_slice(), "decoded id differs");
                ensure!(bendy::serde::to_bytes(&got).unwrap() == enc, "encoded id differs");
                let tok = got.hash_with_secret(b"abcd");
                ensure!(tok.as_ref() == sha1(&[b, b"abcd"]), "hash with secret");
            } else {
                ensure!(got.is_err(), "{} bytes accepted as an id", b.len());
            }
            Ok(Obs::new(b.len() != 20))
        },
    );
}

fn serde_bytes_like(b: &[u8]) -> nargun::verif::data_structures::SerializableBuf {
    nargun::verif::data_structures::SerializableBuf::from(b)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum BOp {
    Change(usize, bool),
    Get(usize),
    Replace(Vec<u8>),
    Clone,
}

pub fn bitmap(ctx: &mut Ctx) {
    let ops = |len: usize| {
        let bytes = (len + 7) / 8;
        vec(
            prop_oneof![
                6 => (0..len, any::<bool>()).prop_map(|(i, v)| BOp::Change(i, v)),
                3 => (0..len).prop_map(BOp::Get),
                2 => vec(prop_oneof![any::<u8>(), Just(0xff), Just(0)], bytes).prop_map(BOp::Replace),
                1 => vec(any::<u8>(), 0..bytes + 3).prop_map(BOp::Replace),
                1 => Just(BOp::Clone),
            ],
            1..40,
        )
    };
    ctx.check(
        "model",
        "operation sequences on a bitmap of 1 to 200 bits against a vector of booleans; non-trivial: a whole-map replacement succeeded and a bit was changed after it",
        Plan::new(12_000, 400_000),
        prop_oneof![3 => 1usize..40, 1 => 1usize..200].prop_flat_map(move |n| (Just(n), ops(n))),
        |(n, ops)| {
            let mut b = Bitmap::new(*n);
            let mut m = vec![false; *n];
            let mut replaced = false;
            let mut nt = false;
            for op in ops {
                match op {
                    BOp::Change(i, v) => {
                        let old = b.change(*i, *v);
                        ensure!(old == m[*i], "change({i}) returned {old}, bit was {}", m[*i]);
                        m[*i] = *v;
                        nt |= replaced;
                    }
                    BOp::Get(i) => ensure!(b.get(*i) == m[*i], "get({i})"),
                    BOp::Replace(d) => {
                        let r = b.replace_data(d);
                        ensure!(r.is_ok() == (d.len() == (n + 7) / 8), "replace with {} bytes of {n} bits: {r:?}", d.len());
                        if r.is_ok() {
                            m = bits(d)[..*n].to_vec();
                            replaced = true;
                        }
                    }
                    BOp::Clone => {
                        let c = b.clone();
                        let mut old = std::mem::replace(&mut b, c);
                        // the copy is independent
                        old.change(0, !m[0]);
                    }
                }
                ensure!(b.len() == *n, "len");
                ensure!(b.weight() == m.iter().filter(|x| **x).count(), "weight {} of {:?}", b.weight(), m);
                ensure!(b.iter().collect::<Vec<_>>() == m, "iteration differs after {op:?}");
            }
            for i in 0..*n {
                ensure!(b.get(i) == m[i], "get({i})");
            }
            Ok(Obs::new(nt).label_if(n % 8 != 0, "partial last byte"))
        },
    );
}
