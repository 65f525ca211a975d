use super::gen::*;
use super::swarm::{geometry, Content, Geometry, BLOCK};
use crate::core::*;
use crate::ensure;
use nargun::verif::fs::file_cache::FileCache;
use nargun::verif::fs::{Fs, FS};
use nargun::verif::peers::connection::pending_pieces::FinishedPiece;
use nargun::verif::transcoding::metainfo::{File, Info, Mode, Torrent};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use tokio::io::{AsyncReadExt, AsyncSeekExt, AsyncWriteExt};

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    /// a piece, by position in the torrent
    Write(u16),
    /// as above; the last block is followed by bytes that are not the torrent's
    WritePadded(u16),
    /// a piece the torrent does not have
    WriteBeyond(u8),
    /// piece, offset and length by fractions; how much longer the caller's buffer is
    Read(u16, u16, u16, u8),
    ReadBeyond(u8, u16),
    /// the program starts again
    Reopen,
    /// another program makes a file longer than it is in the torrent (bytes that are nobody's concern), and the program starts again
    Longer(u16, u8),
    /// from now on files cannot grow beyond that fraction of the torrent; as if the disk was full there
    Limit(u16),
    Unlimit,
}

/// The kernel refuses to write behind this offset of any file.
struct Limit;

impl Limit {
    fn set(at: u64) {
        limit_files(at);
    }
}

impl Drop for Limit {
    fn drop(&mut self) {
        Limit::set(u64::MAX);
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    g: Geometry,
    /// relative lengths and directory choices of the files; none: a single file
    files: Vec<(u16, u8)>,
    ops: Vec<Op>,
    finish: bool,
}

fn ops(n: usize) -> impl Strategy<Value = Vec<Op>> {
    vec(
        prop_oneof![
            6 => any::<u16>().prop_map(Op::Write),
            1 => any::<u16>().prop_map(Op::WritePadded),
            1 => any::<u8>().prop_map(Op::WriteBeyond),
            4 => (any::<u16>(), any::<u16>(), any::<u16>(), 0u8..3).prop_map(|(a, b, c, d)| Op::Read(a, b, c, d)),
            1 => (any::<u8>(), any::<u16>()).prop_map(|(a, b)| Op::ReadBeyond(a, b)),
            1 => prop_oneof![3 => Just(Op::Reopen), 1 => (any::<u16>(), 1u8..).prop_map(|(a, b)| Op::Longer(a, b))],
        ],
        1..n,
    )
}

fn ops_full(n: usize) -> impl Strategy<Value = Vec<Op>> {
    let limit = prop_oneof![3 => any::<u16>().prop_map(Op::Limit), 1 => Just(Op::Unlimit)];
    vec(prop_oneof![4 => ops(2), 1 => limit.prop_map(|l| vec![l])], 1..n).prop_map(|v| v.concat())
}

/// file paths: unique, no file is another's directory
fn paths(choices: &[(u16, u8)]) -> Vec<Vec<String>> {
    choices
        .iter()
        .enumerate()
        .map(|(k, (_, c))| {
            let mut p: Vec<String> = (0..(c >> 5) % 4).map(|d| format!("d{}", (c >> d) & 1)).collect();
            // names repeat across directories, and may have spaces, dots and other letters
            p.push(match c % 5 {
                0 => format!("f{k}"),
                1 => format!("a file.{k}.bin"),
                2 => format!("..{k}"),
                3 => format!("файл {k}"),
                _ => format!(".hidden{k}~"),
            });
            p
        })
        .collect()
}

/// splits the total over the files: many are empty or tiny, one takes the rest
fn lengths(total: usize, choices: &[(u16, u8)]) -> Vec<u64> {
    let n = choices.len();
    let mut left = total;
    let mut l: Vec<u64> = vec![0; n];
    let big = choices[0].0 as usize % n;
    for (k, (w, _)) in choices.iter().enumerate() {
        if k == big {
            continue;
        }
        let want = match w % 8 {
            0 | 1 => 0,
            2 => 1,
            3 => (*w as usize / 8) % 300,
            4 => BLOCK,
            5 => total / n,
            _ => (*w as usize * 7) % (total / 2 + 1),
        };
        let take = want.min(left);
        l[k] = take as u64;
        left -= take;
    }
    l[big] = left as u64;
    l
}

struct Disk<'a> {
    c: &'a Content,
    base: PathBuf,
    info: Info,
    /// (path, start, length)
    files: Vec<(PathBuf, usize, usize)>,
    /// bytes that were written
    known: Vec<bool>,
    /// or which the disk refused
    tried: Vec<bool>,
    /// by file: how many bytes were put behind its end
    longer: BTreeMap<usize, usize>,
}

impl<'a> Disk<'a> {
    fn new(case: &Case, c: &'a Content, base: &Path) -> Self {
        let name = "the torrent";
        let pieces = (0..c.count()).map(|_| id(&[0; 20])).collect();
        let root = base.join(name);
        let (mode, files) = if case.files.is_empty() {
            (Mode::Single { length: c.data.len() as u64 }, vec![(root, 0, c.data.len())])
        } else {
            let paths = paths(&case.files);
            let lens = lengths(c.data.len(), &case.files);
            let mut at = 0;
            let mut list = vec![];
            for (p, l) in paths.iter().zip(&lens) {
                list.push((p.iter().fold(root.clone(), |r, x| r.join(x)), at, *l as usize));
                at += *l as usize;
            }
            let files = paths.into_iter().zip(lens).map(|(path, length)| File { path, length }).collect();
            (Mode::Multi { files }, list)
        };
        Disk {
            c,
            base: base.to_path_buf(),
            info: Info { name: name.into(), piece_length: c.piece_length as u64, pieces, mode },
            files,
            known: vec![false; c.data.len()],
            tried: vec![false; c.data.len()],
            longer: BTreeMap::new(),
        }
    }

    async fn open(&self) -> FS {
        FS::new(self.base.to_str().unwrap(), self.info.clone()).await
    }

    /// What is on the disk, through the file system and not through the code under test.
    fn inspect(&self, complete: bool) -> Result<(), String> {
        let mut there = BTreeSet::new();
        walk(&self.base, &mut there);
        for p in &there {
            ensure!(self.files.iter().any(|f| f.0 == *p), "{p:?} is no file of the torrent");
        }
        for (k, (p, start, len)) in self.files.iter().enumerate() {
            let mut got = match std::fs::read(p) {
                Ok(g) => g,
                Err(e) => {
                    ensure!(!complete && !self.known[*start..*start + *len].contains(&true), "{p:?}: {e}");
                    continue;
                }
            };
            if let Some(more) = self.longer.get(&k) {
                ensure!(got.len() == len + more && got[*len..].iter().all(|b| *b == 0xdd), "{p:?}: what was behind the torrent's bytes changed");
                got.truncate(*len);
            }
            ensure!(got.len() <= *len, "{p:?} has {} bytes of {len}", got.len());
            ensure!(!complete || got.len() == *len, "{p:?} has {} bytes of {len}", got.len());
            for i in 0..*len {
                let want = self.c.data[start + i];
                if self.known[start + i] {
                    ensure!(got.get(i) == Some(&want), "{p:?}: byte {i} is {:?}, {want} was written", got.get(i));
                } else if !(self.tried[start + i] && got.get(i) == Some(&want)) {
                    ensure!(matches!(got.get(i), None | Some(0)), "{p:?}: byte {i} changed, nothing was written there");
                }
            }
        }
        Ok(())
    }
}

fn walk(dir: &Path, out: &mut BTreeSet<PathBuf>) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
            walk(&e.path(), out);
        } else {
            out.insert(e.path());
        }
    }
}

fn finished(c: &Content, idx: usize, padded: bool) -> FinishedPiece {
    let mut data: Vec<Vec<u8>> = c.piece(idx).chunks(BLOCK).map(|b| b.to_vec()).collect();
    if padded {
        let full = (c.piece_length + BLOCK - 1) / BLOCK;
        data.last_mut().unwrap().resize(BLOCK, 0xee);
        data.resize(full.max(data.len()), vec![0xee; BLOCK]);
    }
    FinishedPiece { idx, data }
}

async fn store(case: &Case) -> TestResult {
    let c = Content::new(&case.g);
    let scratch = Scratch::new("fs");
    let base = scratch.path().join("base");
    std::fs::create_dir(&base).unwrap();
    let mut d = Disk::new(case, &c, &base);
    let mut fs = d.open().await;
    let n = c.count();
    let (mut across, mut read, mut reopened) = (false, false, false);
    let mut written = BTreeSet::new();
    let mut ops = case.ops.clone();
    let _lift = Limit;
    let mut limit = usize::MAX;
    let mut refused = false;
    if case.finish {
        ops.push(Op::Unlimit);
        let mut rest: Vec<u16> = (0..n as u16).collect();
        Lcg(case.g.seed).shuffle(&mut rest);
        ops.extend(rest.into_iter().map(Op::Write));
    }
    let last = ops.len();
    for (k, op) in ops.iter().enumerate() {
        match op {
            Op::Write(i) | Op::WritePadded(i) => {
                let i = *i as usize % n;
                // only the last piece may be followed by other bytes
                let padded = matches!(op, Op::WritePadded(_)) && i == n - 1;
                let r = fs.write_piece(finished(&c, i, padded)).await;
                let (a, b) = (i * c.piece_length, i * c.piece_length + c.piece(i).len());
                if d.files.iter().any(|(_, s, l)| *s < b && s + l > a && (s + l).min(b) - s > limit) {
                    ensure!(r.is_err(), "piece {i} of {n} counts as written, the disk refused a part of it");
                    d.tried[a..b].fill(true);
                    refused = true;
                    continue;
                }
                ensure!(r.is_ok(), "writing piece {i} of {n}: {r:?}");
                written.insert(i);
                d.known[a..b].fill(true);
                across |= d.files.iter().filter(|(_, s, l)| s < &b && s + l > a).count() > 1;
            }
            Op::WriteBeyond(i) => {
                let mut f = finished(&c, 0, false);
                f.idx = n + *i as usize;
                ensure!(fs.write_piece(f).await.is_err(), "piece {} of {n} was written", n + *i as usize);
            }
            Op::Read(i, o, l, more) => {
                let i = *i as usize % n;
                let p = c.piece(i).len();
                let begin = *o as usize % p;
                let len = 1 + *l as usize % (p - begin).min(BLOCK);
                let at = i * c.piece_length + begin;
                // a block may be read once its bytes are there
                let mut buf = vec![0x77u8; len + *more as usize];
                let r = fs.read_block(i, begin, len, &mut buf).await;
                let all = d.known[at..at + len].iter().all(|k| *k);
                ensure!(!all || r.is_ok(), "reading {len} written bytes at {begin} of piece {i}: {r:?}");
                if r.is_ok() {
                    for x in 0..len {
                        let want = if d.known[at + x] { c.data[at + x] } else { 0 };
                        ensure!(buf[x] == want || d.tried[at + x] && buf[x] == c.data[at + x], "read {} at {} of piece {i}, expected {want}", buf[x], begin + x);
                    }
                }
                ensure!(buf[len..].iter().all(|b| *b == 0x77), "the buffer was written beyond the block");
                read |= all;
            }
            Op::ReadBeyond(i, o) => {
                let mut buf = vec![0u8; BLOCK];
                let o = *o as usize;
                let (p, b, inside) = match i % 2 {
                    0 => {
                        let at = c.data.len() + o % if i % 4 == 0 { 64 } else { 65536 };
                        (at / c.piece_length, at % c.piece_length, 0)
                    }
                    // begins inside
                    _ => {
                        let k = (1 + o % 9).min(c.piece(n - 1).len());
                        (n - 1, c.piece(n - 1).len() - k, k)
                    }
                };
                let len = if i % 8 < 2 { BLOCK } else { inside + 1 + (o >> 6) % 128 };
                ensure!(fs.read_block(p, b, len, &mut buf).await.is_err(), "read {len} bytes at {b} of piece {p} of {n}");
            }
            Op::Reopen => {
                drop(fs);
                fs = d.open().await;
                reopened |= !written.is_empty();
            }
            Op::Longer(k, more) => {
                drop(fs);
                Limit::set(u64::MAX);
                let k = *k as usize % d.files.len();
                let (p, _, len) = &d.files[k];
                let mut b = std::fs::read(p).unwrap_or_default();
                b.resize(*len, 0);
                b.resize(len + *more as usize, 0xdd);
                std::fs::write(p, b).unwrap();
                d.longer.insert(k, *more as usize);
                Limit::set(if limit == usize::MAX { u64::MAX } else { limit as u64 });
                fs = d.open().await;
                reopened |= !written.is_empty();
            }
            Op::Limit(at) => {
                limit = *at as usize * c.data.len() / 65536;
                Limit::set(limit as u64);
            }
            Op::Unlimit => {
                limit = usize::MAX;
                Limit::set(u64::MAX);
            }
        }
        // looking is slow, so not after every step of long histories
        if k % 3 == 0 || k + 1 == last {
            d.inspect(written.len() == n)?;
        }
    }
    let nontrivial = if case.files.is_empty() { written.len() > 1 && read } else { across && read };
    Ok(Obs::new(nontrivial)
        .label_if(refused, "the disk refused a piece")
        .label_if(written.len() == n, "complete")
        .label_if(!d.longer.is_empty(), "a file longer than it should be")
        .label_if(reopened, "opened again with data there")
        .label_if(case.files.len() > 16, "more than 16 files"))
}

// ---------------------------------------------------------------- a torrent that does not fit what is there

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Clash {
    /// a file's name is wanted for a directory; how deep
    FileAsDir(u16, u8),
    /// a directory's name is wanted for a file, which is empty
    DirAsFile(u16),
    /// no file system takes the name of the directory; how deep it is
    LongDir(u8),
    LongFile,
    /// the file is said to be empty
    Emptied(u16),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Unfit {
    g: Geometry,
    files: Vec<(u16, u8)>,
    /// pieces that are there before; none: not even the directory is there
    writes: Vec<u16>,
    clashes: Vec<(Clash, u16)>,
    /// files that are not the torrent's lie about
    strangers: u8,
}

async fn unfit(z: Unfit) -> TestResult {
    let c = Content::new(&z.g);
    let scratch = Scratch::new("unfit");
    let base = scratch.path().join("base");
    std::fs::create_dir(&base).unwrap();
    std::fs::write(base.join("a file of the user"), b"precious").unwrap();
    let case = Case { g: z.g.clone(), files: z.files.clone(), ops: vec![], finish: false };
    let mut d = Disk::new(&case, &c, &base);
    let n = c.count();
    if !z.writes.is_empty() {
        let mut fs = d.open().await;
        for w in &z.writes {
            let i = *w as usize % n;
            let r = fs.write_piece(finished(&c, i, false)).await;
            ensure!(r.is_ok(), "writing piece {i} of {n}: {r:?}");
            d.known[i * c.piece_length..i * c.piece_length + c.piece(i).len()].fill(true);
        }
        for k in 0..z.strangers {
            std::fs::write(base.join("the torrent").join(format!("stranger {k}")), b"not the torrent's").unwrap();
        }
    }
    let mut before = BTreeMap::new();
    snapshot(&base, Path::new(""), &mut before);

    let mut info = d.info.clone();
    let Mode::Multi { files } = &mut info.mode else { unreachable!() };
    let own = files.clone();
    let mut stuck = false;
    for (clash, at) in &z.clashes {
        let f = match clash {
            Clash::FileAsDir(k, deep) => {
                let mut path = own[*k as usize % own.len()].path.clone();
                path.extend((0..deep % 3).map(|d| format!("deeper {d}")));
                path.push("a file".into());
                // has to be there
                stuck |= before.contains_key(&path[..path.len() - 1 - (deep % 3) as usize].iter().fold(base.join("the torrent"), |r, x| r.join(x)));
                File { path, length: 1 }
            }
            Clash::DirAsFile(k) => {
                let path = &own[*k as usize % own.len()].path;
                let path = if path.len() > 1 { path[..path.len() - 1].to_vec() } else { vec!["d0".into()] };
                File { path, length: 0 }
            }
            Clash::LongDir(deep) => {
                stuck = true;
                let mut path: Vec<String> = (0..deep % 3).map(|d| format!("deep {d}")).collect();
                path.extend(["x".repeat(300), "a file".into()]);
                File { path, length: 1 }
            }
            Clash::LongFile => File { path: vec!["y".repeat(300)], length: 0 },
            Clash::Emptied(k) => {
                let k = *k as usize % own.len();
                files.iter_mut().filter(|f| f.path == own[k].path).for_each(|f| f.length = 0);
                continue;
            }
        };
        let i = *at as usize % (files.len() + 1);
        files.insert(i, f);
    }
    let dir = base.to_str().unwrap().to_string();
    // it cannot be had, so this may end in any way
    let opened = tokio::spawn(async move { FS::new(&dir, info).await }).await.is_ok();
    take_panics();
    let mut after = BTreeMap::new();
    snapshot(&base, Path::new(""), &mut after);
    for (p, what) in &before {
        ensure!(after.contains_key(p), "{p:?} is gone; a torrent was opened that does not fit");
        ensure!(after[p] == *what, "{p:?} was changed; a torrent was opened that does not fit");
    }
    for (p, what) in &after {
        ensure!(before.contains_key(p) || what.iter().all(|b| b.is_empty()), "{p:?} holds something, nothing was written");
    }
    if stuck {
        ensure!(!opened, "a torrent was opened whose directories cannot be there");
        ensure!(!z.writes.is_empty() || after.len() == before.len(), "opening the torrent failed and left {:?}", after.keys().filter(|p| !before.contains_key(*p)).collect::<Vec<_>>());
    }
    // and the torrent that does fit goes on
    if !z.writes.is_empty() && !z.clashes.iter().any(|c| matches!(c.0, Clash::DirAsFile(_))) {
        let mut fs = d.open().await;
        for i in 0..n {
            if d.known[i * c.piece_length] {
                let mut buf = vec![0; c.piece(i).len().min(BLOCK)];
                let len = buf.len();
                let r = fs.read_block(i, 0, len, &mut buf).await;
                ensure!(r.is_ok() && buf == c.piece(i)[..len], "piece {i} cannot be read any more: {r:?}");
            }
        }
    }
    Ok(Obs::new(stuck && !z.writes.is_empty()).label_if(opened, "opened").label_if(stuck && z.writes.is_empty(), "nothing there before"))
}

fn unfits() -> impl Strategy<Value = Unfit> {
    let clash = prop_oneof![
        3 => (any::<u16>(), any::<u8>()).prop_map(|(k, d)| Clash::FileAsDir(k, d)),
        1 => any::<u16>().prop_map(Clash::DirAsFile),
        2 => any::<u8>().prop_map(Clash::LongDir),
        1 => Just(Clash::LongFile),
        1 => any::<u16>().prop_map(Clash::Emptied),
    ];
    (
        geometry(4),
        vec((any::<u16>(), any::<u8>()), 1..8),
        prop_oneof![1 => Just(vec![]), 4 => vec(any::<u16>(), 1..5)],
        vec((clash, any::<u16>()), 1..4),
        0u8..3,
    )
        .prop_map(|(g, files, writes, clashes, strangers)| Unfit { g, files, writes, clashes, strangers })
}

// ---------------------------------------------------------------- many GiB, most of them never written

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Huge {
    piece_length: u64,
    total: u64,
    /// where the files end; none: a single file
    ends: Vec<u64>,
    seed: u64,
    /// where pieces are written: byte positions
    at: Vec<u64>,
    /// which of the written ones, where, how much
    reads: Vec<(u8, u32, u16)>,
}

/// Positions around those where 31, 32 or 33 bits end, or anywhere.
fn position() -> impl Strategy<Value = u64> {
    prop_oneof![
        4 => (30u32..36, 0u64..3, -3_000_000i64..3_000_000).prop_map(|(b, k, d)| ((k + 1) << b).wrapping_add_signed(d)),
        2 => (30u32..36, -20_000i64..20_000).prop_map(|(b, d)| (1u64 << b).wrapping_add_signed(d)),
        1 => (30u32..36).prop_map(|b| 1u64 << b),
        2 => 0u64..(1 << 36),
        1 => Just(0),
        1 => Just((1 << 36) - 1),
    ]
}

fn huge(files: usize) -> impl Strategy<Value = Huge> {
    let pl = prop_oneof![
        3 => (18u32..21).prop_map(|b| 1u64 << b),
        1 => (300_000u64..600_000),
        1 => (20u64..50).prop_map(|b| b << 14),
    ];
    let total = prop_oneof![(1u64 << 31)..(1 << 36), position().prop_map(|p| p.max(1 << 30))];
    (pl, total, vec(position(), 0..files + 1), any::<u64>(), vec(position(), 2..9), vec((any::<u8>(), any::<u32>(), any::<u16>()), 1..6)).prop_map(
        move |(piece_length, total, mut ends, seed, mut at, reads)| {
            if files > 0 {
                ends.retain(|e| *e < total);
                ends.sort();
                // the pieces where files meet
                at.extend(ends.iter().take(3));
                ends.push(total);
            } else {
                ends.clear();
            }
            Huge { piece_length, total, ends, seed, at: at.into_iter().map(|a| a % total).collect(), reads }
        },
    )
}

/// The file's bytes that are not holes.
fn extents(f: &std::fs::File) -> Vec<(u64, u64)> {
    use std::os::fd::AsRawFd;
    let (fd, mut at, mut v) = (f.as_raw_fd(), 0, vec![]);
    loop {
        let a = unsafe { libc::lseek(fd, at, libc::SEEK_DATA) };
        if a < 0 {
            return v;
        }
        let b = unsafe { libc::lseek(fd, a, libc::SEEK_HOLE) };
        v.push((a as u64, b as u64));
        at = b;
    }
}

async fn store_huge(z: &Huge) -> TestResult {
    use std::os::unix::fs::FileExt;
    let scratch = Scratch::new("huge");
    let n = z.total.div_ceil(z.piece_length) as usize;
    let root = scratch.path().join("t");
    let mut files = vec![];
    let mode = if z.ends.is_empty() {
        files.push((root, 0, z.total));
        Mode::Single { length: z.total }
    } else {
        let mut from = 0;
        let mut l = vec![];
        for (k, e) in z.ends.iter().enumerate() {
            files.push((root.join(format!("f{k}")), from, *e));
            l.push(File { path: vec![format!("f{k}")], length: e - from });
            from = *e;
        }
        Mode::Multi { files: l }
    };
    let info = Info { name: "t".into(), piece_length: z.piece_length, pieces: vec![id(&[0; 20]); n], mode };
    let mut fs = FS::new(scratch.path().to_str().unwrap(), info).await;
    let bounds = |i: usize| (i as u64 * z.piece_length, ((i as u64 + 1) * z.piece_length).min(z.total));
    let data = |i: usize| {
        let (a, b) = bounds(i);
        fill(z.seed ^ (i as u64 + 1), (b - a) as usize)
    };
    let mut written: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
    for a in &z.at {
        let i = (*a / z.piece_length) as usize;
        let d = data(i);
        let r = fs.write_piece(FinishedPiece { idx: i, data: d.chunks(BLOCK).map(|c| c.to_vec()).collect() }).await;
        ensure!(r.is_ok(), "writing piece {i} of {n}: {r:?}");
        written.insert(i, d);
    }
    let order: Vec<usize> = z.at.iter().map(|a| (*a / z.piece_length) as usize).collect();
    for (k, o, l) in &z.reads {
        let i = order[*k as usize % order.len()];
        let d = &written[&i];
        let begin = *o as usize % d.len();
        let len = 1 + *l as usize % (d.len() - begin).min(BLOCK);
        let mut buf = vec![0; BLOCK];
        let r = fs.read_block(i, begin, len, &mut buf).await;
        ensure!(r.is_ok(), "reading {len} bytes at {begin} of piece {i}: {r:?}");
        ensure!(buf[..len] == d[begin..begin + len], "reading {len} bytes at {begin} of piece {i} gave others than were written");
    }
    drop(fs);
    let mut there = BTreeSet::new();
    walk(scratch.path(), &mut there);
    ensure!(there.iter().all(|p| files.iter().any(|f| f.0 == *p)), "there is a file of no torrent: {there:?}");
    let mut across = false;
    for (i, d) in &written {
        let (a, b) = bounds(*i);
        let mut parts = 0;
        for (p, s, e) in &files {
            let (x, y) = (a.max(*s), b.min(*e));
            if x >= y {
                continue;
            }
            parts += 1;
            let f = std::fs::File::open(p).map_err(|e| format!("{p:?}: {e}"))?;
            let mut got = vec![0; (y - x) as usize];
            f.read_exact_at(&mut got, x - s).map_err(|e| format!("{p:?} at {}: {e}", x - s))?;
            ensure!(got == d[(x - a) as usize..(y - a) as usize], "piece {i} is not in {p:?} at {}", x - s);
        }
        across |= parts > 1;
    }
    for (p, s, e) in &files {
        let Ok(f) = std::fs::File::open(p) else { continue };
        ensure!(f.metadata().unwrap().len() <= e - s, "{p:?} has {} bytes of {}", f.metadata().unwrap().len(), e - s);
        for (x, y) in extents(&f) {
            let mut got = vec![0; (y - x) as usize];
            f.read_exact_at(&mut got, x).map_err(|e| format!("{p:?} at {x}: {e}"))?;
            // what belongs to written pieces was looked at
            for i in written.keys() {
                let (a, b) = bounds(*i);
                let (a, b) = (a.max(s + x).min(s + y), b.max(s + x).min(s + y));
                got[(a - s - x) as usize..(b - s - x) as usize].fill(0);
            }
            ensure!(got.iter().all(|b| *b == 0), "{p:?}: bytes between {x} and {y} changed, nothing was written there");
        }
    }
    let far = z.at.iter().filter(|a| **a >= 1 << 31).count();
    Ok(Obs::new(far > 0 && written.len() > 1 && (across || z.ends.is_empty())).label_if(z.total > 1 << 32, "more than 4 GiB").label_if(across, "across files"))
}

pub fn single(ctx: &mut Ctx) {
    ctx.assume("the file system is a tmpfs; its own durability is not at issue");
    ctx.check(
        "single",
        "writes of pieces in any order and again, reads of any block, operations out of bounds, restarts; the directory is inspected apart from the code; non-trivial: two pieces written and a written block read",
        Plan::new(600, 12_000),
        (geometry(5), ops(20), any::<bool>()).prop_map(|(g, ops, finish)| Case { g, files: vec![], ops, finish }),
        |case| live(store(case)),
    );
    ctx.check(
        "full",
        "the same on a disk that refuses to grow files beyond a limit, which changes; non-trivial: as before",
        Plan::new(300, 6_000),
        (geometry(5), ops_full(20), any::<bool>()).prop_map(|(g, ops, finish)| Case { g, files: vec![], ops, finish }),
        |case| live(store(case)),
    );
    ctx.check(
        "huge",
        "torrents of 1 to 64 GiB of which a few pieces are written, around the ends of 30 to 35 bits; non-trivial: two pieces written, one behind 2 GiB",
        Plan::new(160, 3_000).shrink(200),
        huge(0),
        |z| live(store_huge(z)),
    );
}

pub fn multi(ctx: &mut Ctx) {
    ctx.assume("file paths of a torrent are distinct and none is another's directory");
    let files = || prop_oneof![4 => vec((any::<u16>(), any::<u8>()), 1..8), 2 => vec((any::<u16>(), any::<u8>()), 16..40)];
    let (files, files2) = (files(), files());
    // small pieces make many pieces per file as well as many files per piece
    let g = || prop_oneof![
        3 => geometry(5),
        2 => (1usize..4000, 1usize..30, any::<usize>(), any::<u8>()).prop_map(|(piece_length, n, cut, seed)| Geometry {
            piece_length,
            total: n * piece_length - cut % piece_length,
            seed: seed as u64
        }),
    ];
    let (g, g2) = (g(), g());
    ctx.check(
        "multi",
        "1 to 39 files of zero to all bytes in up to three directories; operations as for one file; non-trivial: a written piece spans files and a written block was read",
        Plan::new(500, 10_000),
        (g, files, ops(25), any::<bool>()).prop_map(|(g, files, ops, finish)| Case { g, files, ops, finish }),
        |case| live(store(case)),
    );
    ctx.check(
        "full",
        "the same on a disk that refuses to grow files beyond a limit, which changes; non-trivial: as before",
        Plan::new(300, 6_000),
        (g2, files2, ops_full(25), any::<bool>()).prop_map(|(g, files, ops, finish)| Case { g, files, ops, finish }),
        |case| live(store(case)),
    );
    ctx.check(
        "huge",
        "the same with one to seven files that end there; non-trivial: two pieces written, one behind 2 GiB, one across files",
        Plan::new(160, 3_000).shrink(200),
        huge(6),
        |z| live(store_huge(z)),
    );
    ctx.check(
        "unfit",
        "a torrent is opened that names a file where a directory is or the other way round, a directory whose name no file system takes, or an existing file as empty; what was there before has to stay as it is; non-trivial: pieces of another torrent of that name are there and the directories cannot be made",
        Plan::new(300, 6_000),
        unfits(),
        |z| live(unfit(z.clone())),
    );
}

// ---------------------------------------------------------------- C23

#[derive(Debug, Clone, Serialize, Deserialize)]
enum COp {
    /// file, offset, value
    Put(u8, u16, u8),
    /// file, offset
    Get(u8, u16),
}

fn open_files(under: &Path) -> usize {
    std::fs::read_dir("/proc/self/fd")
        .unwrap()
        .flatten()
        .filter(|e| std::fs::read_link(e.path()).map(|l| l.starts_with(under)).unwrap_or(false))
        .count()
}

pub fn file_cache(ctx: &mut Ctx) {
    let s = (
        (1u8..40, 0u8..6),
        vec(
            prop_oneof![
                (any::<u8>(), 0u16..600, 1u8..255).prop_map(|(f, o, v)| COp::Put(f, o, v)),
                (any::<u8>(), 0u16..600).prop_map(|(f, o)| COp::Get(f, o)),
            ],
            1..120,
        ),
    );
    ctx.check(
        "handles",
        "reads and writes through the cache at generated offsets of up to 39 files, some of the same name in directories of the same name, some written before by others, against byte maps; open descriptors are counted; non-trivial: more than 16 files were used",
        Plan::new(400, 6_000),
        s,
        |((files, alike), ops)| live(cache_run(*files, *alike, ops)),
    );
}

async fn cache_run(files: u8, alike: u8, ops: &[COp]) -> TestResult {
    let scratch = Scratch::new("cache");
    let dir = scratch.path().canonicalize().unwrap();
    // paths that differ in one component only: the first, the second, ...
    let path = |f: u8| {
        let mut parts = ["a".to_string(), "a".into(), "a".into(), "a".into()];
        match alike {
            4 => {
                parts[0] = format!("f{}", f & 1);
                parts[3] = format!("f{}", f >> 1);
            }
            5 => parts = [format!("f{}", f >> 4), format!("f{}", (f >> 2) & 3), format!("f{}", (f >> 1) & 1), format!("f{}", f & 1)],
            k => parts[k as usize] = format!("f{f}"),
        }
        parts.iter().fold(dir.clone(), |d, p| d.join(p))
    };
    for f in 0..files {
        std::fs::create_dir_all(path(f).parent().unwrap()).unwrap();
    }
    let mut model: BTreeMap<u8, Vec<u8>> = BTreeMap::new();
    // every third file is there before
    for f in (0..files).step_by(3) {
        let d = fill(f as u64, 50 + f as usize);
        std::fs::write(path(f), &d).unwrap();
        model.insert(f, d);
    }
    let mut cache = FileCache::new();
    let mut used = BTreeSet::new();
    let mut most = 0;
    for (k, op) in ops.iter().enumerate() {
        let (f, o) = match op {
            COp::Put(f, o, _) | COp::Get(f, o) => (*f % files, *o as usize),
        };
        used.insert(f);
        let m = model.entry(f).or_default();
        let p = path(f);
        let p = p.to_str().unwrap();
        match op {
            COp::Put(_, _, v) => {
                let h = cache.get_write(p).await.map_err(|e| e.to_string())?;
                h.seek(std::io::SeekFrom::Start(o as u64)).await.map_err(|e| e.to_string())?;
                h.write_all(&[*v]).await.map_err(|e| e.to_string())?;
                h.flush().await.map_err(|e| e.to_string())?;
                if m.len() <= o {
                    m.resize(o + 1, 0);
                }
                m[o] = *v;
                let on_disk = std::fs::read(p).map_err(|e| e.to_string())?;
                ensure!(on_disk == *m, "after a write at {o} file {f} holds other bytes than were written");
            }
            COp::Get(..) => {
                let h = cache.get_read(p).await.map_err(|e| e.to_string())?;
                h.seek(std::io::SeekFrom::Start(o as u64)).await.map_err(|e| e.to_string())?;
                let mut got = vec![];
                h.read_to_end(&mut got).await.map_err(|e| e.to_string())?;
                ensure!(got == m.get(o..).unwrap_or(&[]), "file {f} from {o} on reads {} bytes, other than the {} there", got.len(), m.len().saturating_sub(o));
            }
        }
        if k % 8 == 0 || k + 1 == ops.len() {
            let mut open = open_files(&dir);
            for _ in 0..50 {
                if open <= 16 {
                    break;
                }
                // a handle given up may be closed by another thread
                tokio::time::sleep(std::time::Duration::from_millis(20)).await;
                open = open_files(&dir);
            }
            most = most.max(open);
            ensure!(open <= 16, "{open} files are open");
        }
    }
    Ok(Obs::new(used.len() > 16).label_if(most == 16, "16 open"))
}

// ---------------------------------------------------------------- C24

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Hostile {
    name: String,
    /// none: single file
    files: Vec<(Vec<String>, u8)>,
    reopen: bool,
}

pub fn containment(ctx: &mut Ctx) {
    ctx.assume("the download directory lies twenty levels deep in a scratch directory, and no generated path climbs further");
    // "ABS" stands for an absolute path in the scratch directory
    let part = prop_oneof![
        5 => prop_oneof![Just("a"), Just("b"), Just("c.txt"), Just("...")],
        3 => prop_oneof![Just(".."), Just("."), Just("")],
        3 => prop_oneof![Just("../x"), Just("a/../../x"), Just("a/b"), Just("/"), Just("../"), Just("ABS"), Just("ABS/y")],
        2 => prop_oneof![Just(".. "), Just("a\0b"), Just("..\\x"), Just("~"), Just("$HOME")],
    ]
    .prop_map(|s: &str| s.to_string());
    // anything put together of what means a directory or a separator to somebody
    let token = proptest::sample::select(vec!["..", "..", ".", "/", "/", "\\", "\\", "x", "a", " ", "%2f", "%2e%2e", "\0", "\u{2215}", "\u{202e}", "\n"]);
    let mix = vec(token, 1..6).prop_map(|t| t.concat());
    // ways up, as somebody may write them
    let climb = (proptest::sample::select(vec!["/", "\\", "\\", "%2f", "\u{2215}", "//", "\\\\", "\0", "/./", " \\ "]), proptest::sample::select(vec!["..", "..", "..", ".. ", "%2e%2e", "..."]), 1usize..5, any::<bool>())
        .prop_map(|(sep, up, n, under)| format!("{}{}x", if under { format!("a{sep}") } else { String::new() }, format!("{up}{sep}").repeat(n)));
    // an absolute path leads to the scratch directory only
    let bad = prop_oneof![2 => part, 1 => mix, 2 => climb].prop_map(|s| if s.trim_start().starts_with(['/', '\\', '%']) { format!("ABS{s}") } else { s }).boxed();
    let good = prop_oneof![Just("a"), Just("b"), Just("c.txt"), Just("..."), Just("ü")].prop_map(|s: &str| s.to_string()).boxed();
    let torrent = |part: BoxedStrategy<String>| {
        (part.clone(), vec((vec(part, 0..3), any::<u8>()), 0..4), any::<bool>()).prop_map(|(name, files, reopen)| Hostile { name, files, reopen })
    };
    let s = prop_oneof![
        1 => torrent(prop_oneof![1 => bad.clone(), 3 => good.clone()].boxed()),
        // one bad name, and nothing else to object to
        2 => (torrent(good), bad, any::<prop::sample::Index>()).prop_map(|(mut h, bad, at)| {
            for (k, f) in h.files.iter_mut().enumerate() {
                f.0.insert(0, format!("f{k}"));
            }
            let mut all: Vec<&mut String> = std::iter::once(&mut h.name).chain(h.files.iter_mut().flat_map(|f| f.0.last_mut())).collect();
            let k = at.index(all.len());
            *all[k] = bad;
            h
        }),
    ];
    ctx.check(
        "names",
        "torrents whose name and file paths contain parent, empty, absolute, separator and NUL components, parsed, opened and written; everything outside the download directory is compared; non-trivial: a component is hostile or the torrent was written",
        Plan::new(4_000, 60_000),
        s,
        |h| live(contained(h.clone())),
    );
}

fn bstr(s: &[u8]) -> Vec<u8> {
    let mut v = format!("{}:", s.len()).into_bytes();
    v.extend(s);
    v
}

fn snapshot(dir: &Path, skip: &Path, out: &mut BTreeMap<PathBuf, Option<Vec<u8>>>) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        if p == *skip {
            continue;
        }
        if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
            out.insert(p.clone(), None);
            snapshot(&p, skip, out);
        } else {
            out.insert(p.clone(), Some(std::fs::read(&p).unwrap_or_default()));
        }
    }
}

async fn contained(h: Hostile) -> TestResult {
    let scratch = Scratch::new("contain");
    let root = scratch.path().to_path_buf();
    let mut dir = root.clone();
    // things that could be hit
    for d in (1..20).map(|d| d.to_string()).chain(["base".into()]) {
        dir = dir.join(&d);
        std::fs::create_dir(&dir).unwrap();
        if d != "base" {
            for f in ["x", "c.txt"] {
                std::fs::write(dir.join(f), b"precious").unwrap();
            }
            std::fs::create_dir(dir.join("b")).unwrap();
        }
    }
    let abs = dir.with_file_name("abs");
    let sub = |s: &String| s.replace("ABS", abs.to_str().unwrap());
    let mut info = b"d".to_vec();
    let total: usize;
    if h.files.is_empty() {
        total = 40;
        info.extend(b"6:lengthi40e");
    } else {
        info.extend(b"5:filesl");
        let mut t = 0;
        for (k, (path, len)) in h.files.iter().enumerate() {
            let len = if k == 0 { 1 + *len as usize } else { *len as usize };
            t += len;
            info.extend(format!("d6:lengthi{len}e4:pathl").bytes());
            for p in path {
                info.extend(bstr(sub(p).as_bytes()));
            }
            info.extend(b"ee");
        }
        total = t;
        info.push(b'e');
    }
    info.extend(b"4:name");
    info.extend(bstr(sub(&h.name).as_bytes()));
    let count = (total + 63) / 64;
    info.extend(b"12:piece lengthi64e6:pieces");
    info.extend(bstr(&vec![7u8; count * 20]));
    info.push(b'e');
    let mut t = b"d8:announce10:http://a/b4:info".to_vec();
    t.extend(&info);
    t.push(b'e');

    let mut before = BTreeMap::new();
    snapshot(&root, &dir, &mut before);
    let parsed = Torrent::from_buf(&t);
    let hostile = std::iter::once(&h.name)
        .chain(h.files.iter().flat_map(|f| &f.0))
        .any(|p| matches!(p.as_str(), ".." | "." | "") || p.contains(['/', '\\', '\0', '%']) || p.contains("ABS"));
    let mut wrote = false;
    if let Ok(t) = parsed {
        let info = t.info;
        let base = dir.to_str().unwrap().to_string();
        let reopen = h.reopen;
        // paths that collide (a file where a directory is needed) may end it; they may not lead out
        let task = tokio::spawn(async move {
            let mut ok = false;
            for _ in 0..1 + reopen as usize {
                let mut fs = FS::new(&base, info.clone()).await;
                for i in 0..count {
                    let len = 64.min(total - i * 64);
                    ok |= fs.write_piece(FinishedPiece { idx: i, data: vec![vec![0x11; len]] }).await.is_ok();
                    let mut buf = vec![0; len];
                    let _ = fs.read_block(i, 0, len, &mut buf).await;
                }
            }
            ok
        });
        wrote = task.await.unwrap_or(false);
        take_panics();
    }
    let mut after = BTreeMap::new();
    snapshot(&root, &dir, &mut after);
    for (p, c) in &after {
        ensure!(before.contains_key(p), "{p:?} was created, outside the download directory");
        ensure!(before[p] == *c, "{p:?} was changed, outside the download directory");
    }
    for p in before.keys() {
        ensure!(after.contains_key(p), "{p:?} is gone");
    }
    Ok(Obs::new(hostile || wrote).label_if(wrote, "written").label_if(hostile, "hostile").label_if(hostile && wrote, "hostile and written"))
}
