use super::bencode::*;
use super::gen::*;
use crate::core::*;
use crate::ensure;
use nargun::verif::transcoding::metainfo::{Mode, Torrent, TrackerAddr};
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct T {
    name: String,
    piece_length: u32,
    /// one: a single file; otherwise paths and lengths
    single: bool,
    files: Vec<(Vec<String>, u32)>,
    pieces_seed: u64,
    announce: Option<String>,
    list: Option<Vec<Vec<String>>>,
    /// keys nobody knows: in the torrent, in info, in every file
    extra: Vec<(Vec<u8>, B)>,
    info_extra: Vec<(Vec<u8>, B)>,
    file_extra: Vec<(Vec<u8>, B)>,
}

impl T {
    fn total(&self) -> u64 {
        self.files.iter().map(|f| f.1 as u64).sum()
    }
    fn pieces(&self) -> Vec<u8> {
        let n = (self.total() + self.piece_length as u64 - 1) / self.piece_length as u64;
        fill(self.pieces_seed, n as usize * 20)
    }
    fn info(&self) -> B {
        let mut d = B::Dict(vec![]);
        for (k, v) in &self.info_extra {
            d.put(k, v.clone());
        }
        d.put(b"name", B::s(&self.name));
        d.put(b"piece length", B::Int(self.piece_length as i64));
        d.put(b"pieces", B::Str(self.pieces()));
        if self.single {
            d.put(b"length", B::Int(self.total() as i64));
            d.remove(b"files");
        } else {
            let l = self
                .files
                .iter()
                .map(|(p, n)| {
                    let mut f = B::Dict(vec![]);
                    for (k, v) in &self.file_extra {
                        f.put(k, v.clone());
                    }
                    f.put(b"length", B::Int(*n as i64));
                    f.put(b"path", B::List(p.iter().map(B::s).collect()));
                    f
                })
                .collect();
            d.put(b"files", B::List(l));
            d.remove(b"length");
        }
        d
    }
    fn whole(&self) -> B {
        let mut d = B::Dict(vec![]);
        for (k, v) in &self.extra {
            d.put(k, v.clone());
        }
        d.remove(b"announce");
        d.remove(b"announce-list");
        if let Some(a) = &self.announce {
            d.put(b"announce", B::s(a));
        }
        if let Some(l) = &self.list {
            d.put(
                b"announce-list",
                B::List(l.iter().map(|t| B::List(t.iter().map(B::s).collect())).collect()),
            );
        }
        d.put(b"info", self.info());
        d
    }
    fn urls(&self) -> HashSet<&String> {
        self.announce
            .iter()
            .chain(self.list.iter().flatten().flatten())
            .filter(|u| u.starts_with("http") || u.starts_with("udp"))
            .collect()
    }
}

fn name() -> impl Strategy<Value = String> {
    prop_oneof![
        3 => "[a-zA-Z0-9 ._\\-]{1,20}",
        1 => "\\PC{1,12}",
        1 => prop_oneof![Just("..."), Just(".x"), Just("x."), Just(" "), Just("..a"), Just("\\")].prop_map(|s: &str| s.to_string()),
    ]
    .prop_map(|s: String| {
        let s = s.replace('/', "_");
        if s == "." || s == ".." { "dots".into() } else { s }
    })
}

fn url() -> impl Strategy<Value = String> {
    let host = prop_oneof![Just("a.example"), Just("127.0.0.1:6969"), Just("[::1]:80"), Just("tracker.example:443")];
    let path = prop_oneof![Just("/announce"), Just(""), Just("/announce?passkey=12"), Just("/ann%20x")];
    let scheme = prop_oneof![4 => Just("http"), 3 => Just("https"), 3 => Just("udp"), 1 => Just("ws"), 1 => Just("HTTP"), 1 => Just("")];
    (scheme, host, path).prop_map(|(s, h, p)| format!("{s}://{h}{p}"))
}

fn key() -> impl Strategy<Value = Vec<u8>> {
    prop_oneof![
        3 => prop_oneof![
            Just("comment"), Just("created by"), Just("creation date"), Just("encoding"), Just("private"),
            Just("source"), Just("md5sum"), Just("url-list"), Just("nodes"), Just("zz"), Just("a"), Just("lengths"), Just("piece"), Just("infos")
        ].prop_map(|s: &str| s.as_bytes().to_vec()),
        1 => vec(any::<u8>(), 0..6),
    ]
}

fn extras() -> impl Strategy<Value = Vec<(Vec<u8>, B)>> {
    prop_oneof![1 => Just(vec![]), 2 => vec((key(), any_value()), 0..5)]
}

fn torrent() -> impl Strategy<Value = T> {
    (
        (name(), prop_oneof![3 => (4u32..20).prop_map(|k| 1 << k), 2 => 1u32..100_000, 1 => Just(1 << 24)], any::<bool>()),
        vec((vec(name(), 1..4), prop_oneof![1 => Just(0u32), 3 => 1u32..200_000, 1 => any::<u32>()]), 1..6),
        any::<u16>(),
        option::weighted(0.8, url()),
        option::weighted(0.6, vec(vec(url(), 0..3), 0..4)),
        (extras(), extras(), extras()),
        0u64..30,
    )
        .prop_map(|((name, mut piece_length, single), mut files, seed, announce, list, (extra, info_extra, file_extra), exact)| {
            if single {
                files.truncate(1);
                files[0].1 = files[0].1.max(1);
            }
            if files.iter().all(|f| f.1 == 0) {
                files[0].1 = 1;
            }
            let total: u64 = files.iter().map(|f| f.1 as u64).sum();
            // at most 2000 pieces; sometimes a whole number of them
            while total / piece_length as u64 > 2000 {
                piece_length = piece_length.saturating_mul(2);
            }
            if exact == 0 && total % 2 == 0 && total / 2 < u32::MAX as u64 {
                piece_length = (total / 2) as u32;
            } else if exact == 1 && total < u32::MAX as u64 {
                piece_length = total as u32;
            }
            T { name, piece_length, single, files, pieces_seed: seed as u64, announce, list, extra, info_extra, file_extra }
        })
}

fn check_parsed(t: &T) -> TestResult {
    let bytes = t.whole().encode();
    let urls = t.urls();
    let r = Torrent::from_buf(&bytes);
    if urls.is_empty() {
        // nobody to ask is refused today; that it is not is no fault
        return Ok(Obs::new(false).label(if r.is_ok() { "no tracker, accepted" } else { "no tracker, refused" }));
    }
    let got = r.map_err(|e| format!("a well-formed torrent was refused: {e}"))?;
    ensure!(got.info.name == t.name, "name {:?}, expected {:?}", got.info.name, t.name);
    ensure!(got.info.piece_length == t.piece_length as u64, "piece length {}", got.info.piece_length);
    ensure!(got.info.length() == t.total(), "length {} of {}", got.info.length(), t.total());
    let pieces = t.pieces();
    ensure!(got.count_pieces() * 20 == pieces.len(), "{} pieces of {}", got.count_pieces(), pieces.len() / 20);
    for (i, (g, w)) in got.info.pieces.iter().zip(pieces.chunks(20)).enumerate() {
        ensure!(g.as_byte_ref() == w, "hash of piece {i} is {:?}, expected {w:?}", g.as_byte_ref());
    }
    match &got.info.mode {
        Mode::Single { length } => ensure!(t.single && *length == t.total(), "single file of {length}"),
        Mode::Multi { files } => {
            ensure!(!t.single, "several files, expected one");
            let f: Vec<_> = files.iter().map(|f| (f.path.clone(), f.length as u32)).collect();
            ensure!(f == t.files, "files {f:?}, expected {:?}", t.files);
        }
    }
    let hash = sha1(&[&t.info().encode()]);
    ensure!(got.info_hash.as_byte_ref()[..] == hash[..], "info hash is not that of the info dictionary");
    let announce: HashSet<_> = got
        .announce
        .iter()
        .map(|a| match a {
            TrackerAddr::Http(u) | TrackerAddr::Udp(u) => u,
        })
        .collect();
    ensure!(announce == urls, "trackers {announce:?}, expected {urls:?}");
    let http: HashSet<_> = got.http_trackers().collect();
    let want: HashSet<_> = urls.iter().cloned().filter(|u| u.starts_with("http")).collect();
    ensure!(http == want, "http trackers {http:?}, expected {want:?}");
    Ok(Obs::new(!t.info_extra.is_empty() && pieces.len() > 20)
        .label(if t.single { "one file" } else { "several files" })
        .label_if(t.list.is_some() && t.announce.is_none(), "only a tracker list")
        .label_if(t.total() % t.piece_length as u64 == 0, "whole number of pieces"))
}

pub fn parsing(ctx: &mut Ctx) {
    ctx.check(
        "parse",
        "torrents of one or several files with any piece geometry, tracker lists and unknown keys at every level, built by an independent encoder; non-trivial: unknown keys in the info dictionary and more than one piece",
        Plan::new(4_000, 100_000),
        torrent(),
        check_parsed,
    );
    ctx.check(
        "file",
        "the same torrents read from a file; non-trivial: the file is longer than 4 KiB",
        Plan::new(150, 2_000),
        torrent(),
        |t| {
            let dir = Scratch::new("torrent");
            let p = dir.path().join("x.torrent");
            let b = t.whole().encode();
            std::fs::write(&p, &b).unwrap();
            let (a, b2) = (Torrent::from_file(&p), Torrent::from_buf(&b));
            match (a, b2) {
                (Ok(a), Ok(b2)) => ensure!(
                    a.info_hash == b2.info_hash && a.info.pieces == b2.info.pieces && a.announce == b2.announce,
                    "the file reads differently"
                ),
                (Err(_), Err(_)) => {}
                (a, b2) => return Err(format!("file {:?}, buffer {:?}", a.is_ok(), b2.is_ok())),
            }
            Ok(Obs::new(b.len() > 4096))
        },
    );
    ctx.check(
        "piece_hash",
        "piece data in blocks of any sizes; non-trivial: more than one block",
        Plan::new(2_000, 50_000),
        (vec(prop_oneof![3 => 0usize..100, 1 => Just(1 << 14)], 0..6), any::<u64>()),
        |(lens, seed)| {
            let blocks: Vec<Vec<u8>> = lens.iter().enumerate().map(|(i, l)| fill(seed ^ i as u64, *l)).collect();
            let want = sha1(&[&blocks.concat()]);
            ensure!(Torrent::piece_hash(&blocks).as_byte_ref()[..] == want[..], "not the SHA-1 of the blocks");
            Ok(Obs::new(lens.len() > 1))
        },
    );
}

// ---------------------------------------------------------------- C26

/// A well-formed torrent with one thing wrong.
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Wrong {
    PieceLength(i64),
    /// pieces string: bytes more or less
    Pieces(i16),
    TotalLength(i64),
    FileLength(u8, i64),
    Name(String),
    PathPart(u8, String),
    NoPath(u8),
    NoFiles,
    Missing(u8),
    Type(u8, B),
    Huge,
}

fn bad_name() -> impl Strategy<Value = String> {
    prop_oneof![
        Just("".to_string()), Just(".".to_string()), Just("..".to_string()), Just("a/b".to_string()), Just("/".to_string()),
        Just("../x".to_string()), Just("a\0".to_string()), ("[a-z]{0,4}", "[a-z]{0,4}").prop_map(|(a, b)| format!("{a}/{b}"))
    ]
}

fn wrong() -> impl Strategy<Value = Wrong> {
    let odd = || prop_oneof![Just(0i64), Just(-1), Just(i64::MIN), Just(i64::MAX), any::<i64>(), 0i64..1000];
    prop_oneof![
        odd().prop_map(Wrong::PieceLength),
        prop_oneof![-60i16..61, Just(20), Just(-20)].prop_map(Wrong::Pieces),
        odd().prop_map(Wrong::TotalLength),
        (any::<u8>(), odd()).prop_map(|(a, b)| Wrong::FileLength(a, b)),
        bad_name().prop_map(Wrong::Name),
        (any::<u8>(), bad_name()).prop_map(|(a, b)| Wrong::PathPart(a, b)),
        any::<u8>().prop_map(Wrong::NoPath),
        prop_oneof![Just(Wrong::NoFiles), Just(Wrong::Huge)],
        (0u8..4).prop_map(Wrong::Missing),
        (0u8..4, any_value()).prop_map(|(k, v)| Wrong::Type(k, v)),
    ]
}

const KEYS: [&[u8]; 4] = [b"name", b"piece length", b"pieces", b"length"];

fn spoil(t: &T, w: &Wrong) -> B {
    let mut info = t.info();
    let file = |info: &mut B, k: u8, f: &dyn Fn(&mut B)| {
        if let B::Dict(d) = info {
            for (key, v) in d.iter_mut() {
                if key == b"files" {
                    if let B::List(l) = v {
                        let n = l.len();
                        if n > 0 {
                            f(&mut l[k as usize % n]);
                        }
                    }
                }
            }
        }
    };
    match w {
        Wrong::PieceLength(n) => info.put(b"piece length", B::Int(*n)),
        Wrong::Pieces(n) => {
            let mut p = t.pieces();
            p.resize((p.len() as i64 + *n as i64).max(0) as usize, 3);
            info.put(b"pieces", B::Str(p));
        }
        Wrong::TotalLength(n) => {
            if t.single {
                info.put(b"length", B::Int(*n))
            } else {
                file(&mut info, 0, &|f| f.put(b"length", B::Int(*n)))
            }
        }
        Wrong::FileLength(k, n) => file(&mut info, *k, &|f| f.put(b"length", B::Int(*n))),
        Wrong::Name(n) => info.put(b"name", B::s(n)),
        Wrong::PathPart(k, n) => file(&mut info, *k, &|f| {
            let mut p = match f.get(b"path") {
                Some(B::List(p)) => p.clone(),
                _ => vec![],
            };
            let i = n.len() % (p.len() + 1);
            p.insert(i, B::s(n));
            f.put(b"path", B::List(p));
        }),
        Wrong::NoPath(k) => file(&mut info, *k, &|f| f.put(b"path", B::List(vec![]))),
        Wrong::NoFiles => {
            info.remove(b"length");
            info.put(b"files", B::List(vec![]));
        }
        Wrong::Missing(k) => info.remove(KEYS[*k as usize]),
        Wrong::Type(k, v) => info.put(KEYS[*k as usize], v.clone()),
        Wrong::Huge => {
            info.remove(b"length");
            let f = |n: &str| {
                let mut d = B::Dict(vec![]);
                d.put(b"length", B::Int(i64::MAX));
                d.put(b"path", B::List(vec![B::s(n)]));
                d
            };
            info.put(b"files", B::List(vec![f("a"), f("b"), f("c")]));
        }
    }
    info
}

/// Is the info dictionary one that can be downloaded and stored? None: not for this check to say.
fn sound(info: &B) -> Option<bool> {
    let int = |b: Option<&B>| match b {
        Some(B::Int(i)) => Some(*i),
        _ => None,
    };
    let ok_name = |b: &B| match b {
        B::Str(s) => {
            std::str::from_utf8(s).is_ok()
                && !matches!(s.as_slice(), b"" | b"." | b"..")
                && !s.contains(&b'/')
                && !s.contains(&0)
        }
        _ => false,
    };
    let Some(pl) = int(info.get(b"piece length")) else { return Some(false) };
    let Some(B::Str(pieces)) = info.get(b"pieces") else { return Some(false) };
    let Some(name) = info.get(b"name") else { return Some(false) };
    let mut total: i128 = 0;
    match (info.get(b"length"), info.get(b"files")) {
        (Some(_), Some(_)) => return None,
        (None, None) => return Some(false),
        (Some(l), None) => match l {
            B::Int(l) if *l >= 0 => total = *l as i128,
            _ => return Some(false),
        },
        (None, Some(B::List(fs))) => {
            for f in fs {
                match (int(f.get(b"length")), f.get(b"path")) {
                    (Some(l), Some(B::List(p))) if l >= 0 && !p.is_empty() && p.iter().all(ok_name) => total += l as i128,
                    _ => return Some(false),
                }
            }
        }
        _ => return Some(false),
    }
    if !ok_name(name) || pl <= 0 || total <= 0 || total > u64::MAX as i128 {
        return Some(false);
    }
    let count = (total + pl as i128 - 1) / pl as i128;
    Some(pieces.len() as i128 == count * 20)
}

/// What must be true of every torrent that is accepted, whatever the bytes were.
fn consistent(bytes: &[u8], t: &Torrent) -> Result<(), String> {
    let len = t.info.length();
    let pl = t.info.piece_length;
    ensure!(len > 0 && pl > 0, "length {len}, piece length {pl}");
    ensure!(t.count_pieces() as u128 == (len as u128 + pl as u128 - 1) / pl as u128, "{} pieces of {pl} for {len} bytes", t.count_pieces());
    let mut names = vec![&t.info.name];
    if let Mode::Multi { files } = &t.info.mode {
        for f in files {
            ensure!(!f.path.is_empty(), "file without a path");
            names.extend(&f.path);
        }
        ensure!(files.iter().map(|f| f.length as u128).sum::<u128>() == len as u128, "lengths do not add up");
    }
    for n in names {
        ensure!(!matches!(n.as_str(), "" | "." | "..") && !n.contains(['/', '\0']), "name {n:?}");
    }
    ensure!(!t.announce.is_empty() || true, "unreachable");
    // the hash is that of some dictionary in the file
    let hash = t.info_hash.as_byte_ref();
    let mut found = false;
    for (i, _) in bytes.windows(6).enumerate().filter(|(_, w)| *w == b"4:info") {
        if let Some((_, n)) = B::parse(&bytes[i + 6..]) {
            found |= sha1(&[&bytes[i + 6..i + 6 + n]])[..] == hash[..];
        } else {
            // not canonical, so where it ends is for the code to say
            found = true;
        }
    }
    ensure!(found, "the info hash is that of no info dictionary in the file");
    Ok(())
}

pub fn hostile(ctx: &mut Ctx) {
    ctx.check(
        "wrong",
        "well-formed torrents with one contradiction (lengths, piece counts, names, missing or mistyped fields), with and without a tracker; non-trivial: the torrent cannot be downloaded or stored",
        Plan::new(5_000, 120_000),
        (torrent(), wrong()),
        |(t, w)| {
            let info = spoil(t, w);
            let mut whole = t.whole();
            whole.put(b"announce", B::s("http://a.example/announce"));
            whole.put(b"info", info.clone());
            let bytes = whole.encode();
            let r = Torrent::from_buf(&bytes);
            if let Ok(t) = &r {
                consistent(&bytes, t)?;
            }
            let want = sound(&info);
            if let Some(want) = want {
                ensure!(r.is_ok() == want, "accepted: {}, expected {want} ({w:?})", r.is_ok());
            }
            Ok(Obs::new(want == Some(false)).label_if(r.is_ok(), "accepted"))
        },
    );
    ctx.check(
        "damaged",
        "encoded torrents with bytes flipped, cut, inserted, repeated, swapped and numbers replaced; non-trivial: the bytes differ from the original",
        Plan::new(12_000, 400_000),
        (torrent(), vec(cut(), 1..6)),
        |(t, cuts)| {
            let mut whole = t.whole();
            whole.put(b"announce", B::s("http://a.example/announce"));
            let good = whole.encode();
            let bytes = damage(good.clone(), cuts);
            let r = Torrent::from_buf(&bytes);
            if let Ok(t) = &r {
                consistent(&bytes, t)?;
            }
            Ok(Obs::new(bytes != good).label_if(r.is_ok() && bytes != good, "changed and accepted"))
        },
    );
    let seeds: Vec<Vec<u8>> = std::fs::read_dir(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/resources"))
        .into_iter()
        .flatten()
        .flatten()
        .filter(|e| e.path().extension().map(|x| x == "torrent").unwrap_or(false))
        .filter_map(|e| std::fs::read(e.path()).ok())
        .collect();
    let mut seeds = seeds;
    seeds.sort();
    if !seeds.is_empty() {
        ctx.check(
            "real",
            "the repository's sample torrents, damaged near their beginning; non-trivial: always",
            Plan::new(600, 12_000),
            (any::<u8>(), vec(cut(), 1..4), 50u32..3000),
            |(k, cuts, head)| {
                let b = &seeds[*k as usize % seeds.len()];
                let h = (*head as usize).min(b.len());
                let mut bytes = damage(b[..h].to_vec(), cuts);
                bytes.extend(&b[h..]);
                let r = Torrent::from_buf(&bytes);
                if let Ok(t) = &r {
                    consistent(&bytes, t)?;
                }
                Ok(Obs::new(true).label_if(r.is_ok(), "accepted"))
            },
        );
    }
    ctx.check(
        "bytes",
        "arbitrary bytes, bencode fragments and deep nesting; non-trivial: at least eight bytes",
        Plan::new(8_000, 300_000),
        prop_oneof![
            2 => vec(any::<u8>(), 0..80),
            3 => vec(proptest::sample::select(vec!["d", "l", "e", "i1e", "4:info", "8:announce", "6:pieces", "0:", "4:name", "5:files", "12:piece length", "1:a"]), 0..30).prop_map(|v| v.concat().into_bytes()),
            1 => (prop_oneof![Just(b'l'), Just(b'd')], 0usize..50_000, any::<bool>()).prop_map(|(c, n, info)| {
                let mut b = if info { b"d8:announce10:http://a/b4:info".to_vec() } else { vec![] };
                for _ in 0..n { b.push(c); if c == b'd' { b.extend(b"1:a"); } }
                b
            }),
        ],
        |b| {
            let r = Torrent::from_buf(b);
            if let Ok(t) = &r {
                consistent(b, t)?;
            }
            Ok(Obs::new(b.len() > 7).label_if(b.len() > 2000, "deep"))
        },
    );
}
