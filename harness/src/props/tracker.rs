use super::bencode::*;
use super::gen::*;
use super::swarm::Log;
use crate::core::*;
use crate::ensure;
use bendy::decoding::{Decoder, FromBencode};
use nargun::verif::peers::active_peers::Peers;
use nargun::verif::shutdown;
use nargun::verif::tracker::announce::{Announce, AnnounceEvent};
use nargun::verif::tracker::response::Response;
use nargun::verif::tracker::spawn_tracker_managers;
use nargun::verif::transcoding::metainfo::{Info, Mode, Torrent, TrackerAddr};
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::net::SocketAddrV4;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::sync::broadcast;
use tokio::time::{sleep, sleep_until, timeout};

/// key and decoded value of every part of a query
fn query(q: &str) -> Result<Vec<(String, Vec<u8>)>, String> {
    q.split('&')
        .map(|kv| {
            let (k, v) = kv.split_once('=').unwrap_or((kv, ""));
            let v = v.as_bytes();
            let mut out = vec![];
            let mut i = 0;
            while i < v.len() {
                match v[i] {
                    b'%' => {
                        let h = v.get(i + 1..i + 3).ok_or(format!("escape cut short in {kv}"))?;
                        let h = std::str::from_utf8(h).map_err(|e| e.to_string())?;
                        out.push(u8::from_str_radix(h, 16).map_err(|_| format!("bad escape in {kv}"))?);
                        i += 3;
                    }
                    c if c.is_ascii_alphanumeric() || b"-_.~".contains(&c) => {
                        out.push(c);
                        i += 1;
                    }
                    c => return Err(format!("{:?} is not escaped in {kv}", c as char)),
                }
            }
            Ok((k.to_string(), out))
        })
        .collect()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct A {
    path: String,
    own_query: Vec<(String, String)>,
    ids: (Bytes20, Bytes20),
    port: u16,
    counts: (u64, u64, u64),
    compact: bool,
    no_peer_id: bool,
    event: u8,
    tracker_id: Option<String>,
}

fn tracker_id() -> impl Strategy<Value = String> {
    prop_oneof![2 => "[a-zA-Z0-9]{0,12}", 2 => "\\PC{0,12}", 2 => "[a-z&=?#%+ /]{1,10}"]
}

pub fn announce_url(ctx: &mut Ctx) {
    let s = (
        "(/[a-z0-9.]{0,6}){0,3}",
        vec(("[a-z]{1,6}", "[a-zA-Z0-9]{0,10}"), 0..3),
        (prop_oneof![bytes20(), "[ -~]{20}".prop_map(|s| s.as_bytes().try_into().unwrap())], bytes20()),
        any::<u16>(),
        (prop_oneof![any::<u64>(), 0u64..3], prop_oneof![any::<u64>(), 0u64..3], prop_oneof![any::<u64>(), 0u64..3]),
        any::<(bool, bool)>(),
        0u8..4,
        option::of(tracker_id()),
    )
        .prop_map(|(path, own_query, ids, port, counts, (compact, no_peer_id), event, tracker_id)| A {
            path,
            own_query,
            ids,
            port,
            counts,
            compact,
            no_peer_id,
            event,
            tracker_id,
        });
    ctx.check(
        "url",
        "announcements with any ids, numbers, events and tracker ids, to URLs with and without a query; the URL is taken apart by an independent parser; non-trivial: the URL has a query of its own or a tracker id is sent",
        Plan::new(8_000, 300_000),
        s,
        |a| {
            let mut url = format!("http://tracker.example:6969{}", a.path);
            let own: Vec<String> = a.own_query.iter().map(|(k, v)| format!("{k}={v}")).collect();
            if !own.is_empty() {
                url.push('?');
                url.push_str(&own.join("&"));
            }
            let events = ["", "started", "stopped", "completed"];
            let got = Announce {
                tracker_url: url.clone(),
                info_hash: id(&a.ids.0),
                peer_id: id(&a.ids.1),
                port: a.port,
                uploaded: a.counts.0,
                downloaded: a.counts.1,
                left: a.counts.2,
                compact: a.compact,
                no_peer_id: a.no_peer_id,
                event: match a.event {
                    1 => Some(AnnounceEvent::Started),
                    2 => Some(AnnounceEvent::Stopped),
                    3 => Some(AnnounceEvent::Completed),
                    _ => None,
                },
                tracker_id: a.tracker_id.clone(),
            }
            .as_url();
            let (base, q) = got.split_once('?').ok_or("no query")?;
            ensure!(base == url.split('?').next().unwrap(), "asked {base}");
            let mut q = query(q)?;
            let mut want: Vec<(String, Vec<u8>)> =
                a.own_query.iter().map(|(k, v)| (k.clone(), v.clone().into_bytes())).collect();
            let mut w = |k: &str, v: &[u8]| want.push((k.to_string(), v.to_vec()));
            w("info_hash", &a.ids.0);
            w("peer_id", &a.ids.1);
            w("port", a.port.to_string().as_bytes());
            w("uploaded", a.counts.0.to_string().as_bytes());
            w("downloaded", a.counts.1.to_string().as_bytes());
            w("left", a.counts.2.to_string().as_bytes());
            w("compact", if a.compact { b"1" } else { b"0" });
            if !a.compact {
                w("no_peer_id", if a.no_peer_id { b"1" } else { b"0" });
            } else {
                // means nothing then
                q.retain(|(k, _)| k != "no_peer_id");
            }
            if a.event > 0 {
                w("event", events[a.event as usize].as_bytes());
            }
            if let Some(t) = &a.tracker_id {
                w("trackerid", t.as_bytes());
            }
            q.sort();
            want.sort();
            ensure!(q == want, "{got} says {q:?}, expected {want:?}");
            Ok(Obs::new(!own.is_empty() || a.tracker_id.is_some()).label_if(!own.is_empty(), "own query"))
        },
    );
}

// ---------------------------------------------------------------- C28

#[derive(Debug, Clone, Serialize, Deserialize)]
struct R {
    interval: Option<u64>,
    min_interval: Option<u64>,
    tracker_id: Option<String>,
    warning: Option<String>,
    complete: Option<u64>,
    incomplete: Option<u64>,
    peers: Option<Vec<[u8; 6]>>,
    extra: Vec<(Vec<u8>, B)>,
}

impl R {
    fn value(&self) -> B {
        let mut d = B::Dict(vec![]);
        for (k, v) in &self.extra {
            d.put(k, v.clone());
        }
        for k in ["interval", "min interval", "tracker id", "warning message", "complete", "incomplete", "peers"] {
            d.remove(k.as_bytes());
        }
        let int = |v: &u64| B::Int(*v as i64);
        if let Some(v) = &self.interval { d.put(b"interval", int(v)) }
        if let Some(v) = &self.min_interval { d.put(b"min interval", int(v)) }
        if let Some(v) = &self.complete { d.put(b"complete", int(v)) }
        if let Some(v) = &self.incomplete { d.put(b"incomplete", int(v)) }
        if let Some(v) = &self.tracker_id { d.put(b"tracker id", B::s(v)) }
        if let Some(v) = &self.warning { d.put(b"warning message", B::s(v)) }
        if let Some(v) = &self.peers { d.put(b"peers", B::Str(v.concat())) }
        d
    }
}

fn response() -> impl Strategy<Value = R> {
    let n = || prop_oneof![0u64..5000, 0u64..(i64::MAX as u64)];
    (
        option::weighted(0.9, n()),
        option::of(n()),
        option::of(tracker_id()),
        option::weighted(0.3, "\\PC{0,20}"),
        option::of(n()),
        option::of(n()),
        option::weighted(0.9, prop_oneof![9 => vec(addr6(), 0..60), 1 => vec(addr6(), 0..700)]),
        vec(
            (prop_oneof![Just(b"downloaded".to_vec()), Just(b"failure reason".to_vec()), Just(b"peers6".to_vec()), Just(b"external ip".to_vec()), vec(any::<u8>(), 0..5)], any_value()),
            0..4,
        ),
    )
        .prop_map(|(interval, min_interval, tracker_id, warning, complete, incomplete, peers, extra)| R {
            interval, min_interval, tracker_id, warning, complete, incomplete, peers, extra,
        })
}

fn decode(b: &[u8]) -> Option<Response> {
    let mut d = Decoder::new(b);
    let o = d.next_object().ok()??;
    Response::decode_bencode_object(o).ok()
}

pub fn responses(ctx: &mut Ctx) {
    ctx.check(
        "decode",
        "tracker responses with every optional field present or absent, up to 60, at times 700, peers and unknown keys, built by an independent encoder; non-trivial: at least two peers",
        Plan::new(8_000, 250_000),
        response(),
        |r| {
            let got = decode(&r.value().encode());
            let (Some(interval), Some(peers)) = (r.interval, &r.peers) else {
                ensure!(got.is_none(), "a response without interval or peers was taken");
                return Ok(Obs::new(false).label("unusable"));
            };
            let got = got.ok_or("a well-formed response was refused")?;
            ensure!(got.interval == interval, "interval {}", got.interval);
            ensure!(got.min_interval == r.min_interval, "min interval {:?}", got.min_interval);
            ensure!(got.tracker_id == r.tracker_id, "tracker id {:?}", got.tracker_id);
            ensure!(got.warning_message == r.warning, "warning {:?}", got.warning_message);
            ensure!(got.complete == r.complete.unwrap_or(0), "complete {}", got.complete);
            ensure!(got.incomplete == r.incomplete.unwrap_or(0), "incomplete {}", got.incomplete);
            let g: Vec<SocketAddrV4> = got.peers.iter().map(|p| *p.addr()).collect();
            let w: Vec<SocketAddrV4> = peers.iter().map(sock).collect();
            ensure!(g == w, "peers {g:?}, expected {w:?}");
            Ok(Obs::new(peers.len() > 1).label_if(r.complete.is_none(), "no counts"))
        },
    );
    ctx.check(
        "hostile",
        "damaged responses and arbitrary bytes; what is accepted has an interval and as many peers as fit the bytes; non-trivial: the bytes differ from a well-formed response",
        Plan::new(15_000, 500_000),
        prop_oneof![
            4 => (response(), vec(cut(), 0..6)).prop_map(|(r, c)| damage(r.value().encode(), &c)),
            1 => vec(any::<u8>(), 0..60),
            1 => (0usize..40_000).prop_map(|n| vec![b'l'; n]),
        ],
        |b| {
            let r = decode(b);
            if let Some(r) = &r {
                ensure!(r.peers.len() * 6 <= b.len(), "{} peers in {} bytes", r.peers.len(), b.len());
                // canonical ones say the same to another parser
                if let Some((v, _)) = B::parse(b) {
                    ensure!(v.get(b"interval") == Some(&B::Int(r.interval as i64)), "interval {} of {v:?}", r.interval);
                    let Some(B::Str(p)) = v.get(b"peers") else { return Err("peers out of nothing".into()) };
                    ensure!(
                        r.peers.iter().zip(p.chunks_exact(6)).all(|(a, c)| compact(a.addr()) == *c) && r.peers.len() == p.len() / 6,
                        "peers {:?} of {p:?}", r.peers
                    );
                }
            }
            Ok(Obs::new(true).label_if(r.is_some(), "accepted"))
        },
    );
}

// ---------------------------------------------------------------- C29

#[derive(Debug, Clone, Serialize, Deserialize)]
pub(super) enum Rep {
    Good { interval: u16, peers: Vec<[u8; 6]>, tracker_id: Option<String>, delay: u16 },
    Garbage(Vec<u8>),
    Failure,
    Cut,
    /// closes at once
    Close,
    /// never answers
    Hang,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Session {
    trackers: Vec<Vec<Rep>>,
    udp: bool,
    own_query: bool,
    pieces: u8,
    piece_length: u64,
    /// pieces there at the start
    #[serde(default)]
    begun: u8,
    /// when pieces are there: (s, how many)
    progress: Vec<(u16, u8)>,
    complete: Option<u16>,
    shutdown: u16,
    port: u16,
    ids: (Bytes20, Bytes20),
}

fn rep() -> impl Strategy<Value = Rep> {
    prop_oneof![
        6 => (1u16..200, vec(addr6(), 0..5), option::weighted(0.4, tracker_id()), prop_oneof![3 => Just(0u16), 1 => 0u16..20_000])
            .prop_map(|(interval, peers, tracker_id, delay)| Rep::Good { interval, peers, tracker_id, delay }),
        3 => prop_oneof![
            Just(Rep::Failure), Just(Rep::Cut), Just(Rep::Close), Just(Rep::Hang),
            vec(any::<u8>(), 0..30).prop_map(Rep::Garbage)
        ],
    ]
}

#[derive(Debug, Clone)]
pub(super) struct Req {
    pub(super) t: u64,
    /// when the answer was complete, if it is a good one
    pub(super) answered: Option<u64>,
    pub(super) query: Vec<(String, Vec<u8>)>,
    pub(super) rep: Rep,
}

impl Req {
    pub(super) fn get(&self, k: &str) -> Option<String> {
        let v: Vec<_> = self.query.iter().filter(|(x, _)| x == k).collect();
        (v.len() == 1).then(|| String::from_utf8_lossy(&v[0].1).into_owned())
    }
}

fn default_rep() -> Rep {
    Rep::Good { interval: 90, peers: vec![], tracker_id: None, delay: 0 }
}

pub(super) async fn serve(l: tokio::net::TcpListener, script: Vec<Rep>, log: Log, reqs: Arc<Mutex<Vec<Req>>>, bad: Arc<Mutex<Vec<String>>>) {
    loop {
        let Ok((mut s, _)) = l.accept().await else { return };
        let (script, log, reqs, bad) = (script.clone(), log.clone(), reqs.clone(), bad.clone());
        tokio::spawn(async move {
            let mut buf = vec![];
            while !buf.windows(4).any(|w| w == b"\r\n\r\n") {
                match s.read_buf(&mut buf).await {
                    Ok(n) if n > 0 => {}
                    _ => return,
                }
            }
            let text = String::from_utf8_lossy(&buf).into_owned();
            let line = text.lines().next().unwrap_or("").to_string();
            let target = line.strip_prefix("GET ").and_then(|l| l.strip_suffix(" HTTP/1.1"));
            let parsed = target
                .and_then(|t| t.strip_prefix("/announce?"))
                .ok_or(format!("asked {line}"))
                .and_then(query);
            let q = match parsed {
                Ok(q) => q,
                Err(e) => {
                    bad.lock().unwrap().push(e);
                    return;
                }
            };
            let me = {
                let mut r = reqs.lock().unwrap();
                let rep = script.get(r.len()).cloned().unwrap_or_else(default_rep);
                r.push(Req { t: log.now(), answered: None, query: q, rep });
                r.len() - 1
            };
            let rep = reqs.lock().unwrap()[me].rep.clone();
            let body = match &rep {
                Rep::Good { interval, peers, tracker_id, delay } => {
                    sleep(Duration::from_millis(*delay as u64)).await;
                    R {
                        interval: Some(*interval as u64),
                        // nothing that changes what is asked when
                        min_interval: (*interval % 3 == 0).then_some(*interval as u64 / 2),
                        tracker_id: tracker_id.clone(),
                        warning: (*interval % 5 == 0).then_some("careful".into()),
                        complete: (*interval % 2 == 0).then_some(*interval as u64),
                        incomplete: None,
                        peers: Some(peers.clone()),
                        extra: vec![],
                    }
                    .value()
                    .encode()
                }
                Rep::Garbage(b) => b.clone(),
                Rep::Failure => b"d14:failure reason4:nopee".to_vec(),
                Rep::Cut => b"d8:intervali5e5:peers12:abc".to_vec(),
                Rep::Close => return,
                Rep::Hang => {
                    let _ = s.read(&mut [0; 16]).await;
                    return;
                }
            };
            let mut out = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", body.len()).into_bytes();
            out.extend(body);
            if s.write_all(&out).await.is_ok() && matches!(rep, Rep::Good { .. }) {
                reqs.lock().unwrap()[me].answered = Some(log.now());
            }
        });
    }
}

async fn track(s: &Session) -> TestResult {
    tokio::spawn(async {
        loop {
            sleep(Duration::from_millis(20)).await;
        }
    });
    let log = Log::new();
    let bad = Arc::new(Mutex::new(vec![]));
    let mut all = vec![];
    let mut urls = vec![];
    for script in &s.trackers {
        let (l, a) = super::swarm::bind().await;
        let reqs: Arc<Mutex<Vec<Req>>> = Default::default();
        tokio::spawn(serve(l, script.clone(), log.clone(), reqs.clone(), bad.clone()));
        all.push(reqs);
        urls.push(format!("http://{a}/announce{}", if s.own_query { "?key=x1" } else { "" }));
    }
    let mut announce: std::collections::HashSet<TrackerAddr> = urls.into_iter().map(TrackerAddr::Http).collect();
    if s.udp {
        announce.insert(TrackerAddr::Udp("udp://127.0.0.1:9/announce".into()));
    }
    let n = s.pieces as usize;
    let torrent = Torrent {
        info: Info {
            name: "x".into(),
            piece_length: s.piece_length,
            pieces: vec![id(&[0; 20]); n],
            mode: Mode::Single { length: n as u64 * s.piece_length },
        },
        info_hash: id(&s.ids.0),
        announce,
    };
    let peers = Peers::new(&torrent.info_hash);
    let begun = (s.begun as u64).min(n as u64);
    let done = Arc::new(AtomicU64::new(begun));
    let (completed_tx, _keep) = broadcast::channel(8);
    let (shut_tx, shut_rx) = shutdown::channel();
    spawn_tracker_managers(&torrent, &id(&s.ids.1), &peers, done.clone(), &completed_tx, s.port, shut_rx);

    // what happens in the client meanwhile: (ms, pieces there)
    let mut steps: Vec<(u64, Option<u64>)> =
        s.progress.iter().map(|(t, k)| (*t as u64 * 1000, Some((*k as u64).min(n as u64)))).collect();
    if let Some(c) = s.complete {
        steps.push((c as u64 * 1000, None));
    }
    steps.sort();
    let mut have: Vec<(u64, u64)> = vec![(0, begun)];
    let end = s.shutdown as u64 * 1000;
    let mut completed_at = None;
    for (t, k) in steps {
        if t >= end {
            break;
        }
        sleep_until(log.start + Duration::from_millis(t)).await;
        match k {
            Some(k) if completed_at.is_none() => {
                let k = k.max(have.last().unwrap().1);
                done.store(k, Ordering::Relaxed);
                have.push((t, k));
            }
            None => {
                done.store(n as u64, Ordering::Relaxed);
                have.push((t, n as u64));
                let _ = completed_tx.send(());
                completed_at = Some(t);
            }
            _ => {}
        }
    }
    sleep_until(log.start + Duration::from_millis(end)).await;
    let before: Vec<Vec<Req>> = all.iter().map(|r| r.lock().unwrap().clone()).collect();
    let shut_at = log.now();
    let ended = timeout(Duration::from_secs(300), shut_tx.send().wait()).await;
    let ended_at = log.now();
    sleep(Duration::from_secs(400)).await;
    if let Some(b) = bad.lock().unwrap().first() {
        return Err(b.clone());
    }
    ensure!(ended.is_ok(), "the tracker sessions did not end within 300 s of the shutdown");

    let near = |a: u64, b: u64, tol: u64| a.abs_diff(b) <= tol;
    let mut want_peers = BTreeSet::new();
    let (mut many, mut failed, mut stopped_n, mut completed_n) = (false, false, 0, 0);
    for (k, reqs) in all.iter().enumerate() {
        let reqs = reqs.lock().unwrap().clone();
        // a shutdown at the very start may come first
        ensure!(!reqs.is_empty() || shut_at < 1500, "tracker {k} was not asked");
        let mut tid: Option<String> = None;
        let mut tid_before: Option<String> = None;
        let mut event = Some("started".to_string());
        let mut told_completed = false;
        let mut last_good: Option<(u64, u64)> = None; // answered, interval
        let mut stops = 0;
        for (j, r) in reqs.iter().enumerate() {
            let at = format!("request {j} to tracker {k} at {} ms", r.t);
            let eq = |key: &str, want: &[u8]| -> Result<(), String> {
                let v: Vec<_> = r.query.iter().filter(|(x, _)| x == key).map(|x| &x.1[..]).collect();
                ensure!(v == vec![want], "{at}: {key} is {v:?}, expected {want:?}");
                Ok(())
            };
            eq("info_hash", &s.ids.0)?;
            eq("peer_id", &s.ids.1)?;
            eq("port", s.port.to_string().as_bytes())?;
            eq("compact", b"1")?;
            // it never gives anything
            eq("uploaded", b"0")?;
            if s.own_query {
                eq("key", b"x1")?;
            }
            // what comes together with the shutdown may be lost
            let lost = j > 0 && reqs[j - 1].answered.is_some_and(|a| a + 200 >= shut_at) && r.get("trackerid") == tid_before;
            ensure!(r.get("trackerid") == tid || lost, "{at}: tracker id {:?}, {tid:?} was given", r.get("trackerid"));
            // what is left, as it was when the announcement was made up
            let left: u64 = r.get("left").and_then(|l| l.parse().ok()).ok_or(format!("{at}: no left"))?;
            let since = if j > 0 && reqs[j - 1].answered.is_none() && r.get("event").as_deref() != Some("stopped") {
                // tried again: from any time since the first try
                last_good.map(|g| g.0).unwrap_or(0).saturating_sub(100)
            } else {
                r.t.saturating_sub(200)
            };
            let fits = |h: u64| {
                let missing = (n as u64 - h) * s.piece_length;
                left <= missing && (left > 0) == (missing > 0) && left + s.piece_length > missing
            };
            let at_start = have.iter().rev().find(|x| x.0 <= since).unwrap_or(&have[0]).1;
            let during = have.iter().filter(|x| x.0 >= since && x.0 <= r.t + 200).map(|x| x.1);
            ensure!(std::iter::once(at_start).chain(during).any(fits), "{at}: left {left}, pieces {have:?} of {n}");

            let ev = r.get("event");
            if ev.as_deref() == Some("stopped") {
                stops += 1;
                ensure!(r.t + 50 >= shut_at, "{at}: stopped before the shutdown");
                ensure!(near(r.t, shut_at, 1500), "{at}: stopped {} ms after the shutdown", r.t - shut_at);
                continue;
            }
            ensure!(r.t <= shut_at + 100, "{at}: after the shutdown at {shut_at}");
            if j == 0 {
                ensure!(r.t <= 1000, "{at}: the first announcement is late");
                ensure!(ev == event, "{at}: event {ev:?}");
            } else if reqs[j - 1].answered.is_none() {
                // the last one failed
                failed = true;
                ensure!(ev == event, "{at}: event {ev:?}, but {event:?} has not got through");
                ensure!(r.t - reqs[j - 1].t <= 250_000, "{at}: tried again after {} ms", r.t - reqs[j - 1].t);
                ensure!(r.t - reqs[j - 1].t >= 1_000, "{at}: tried again at once");
            } else {
                let (g, i) = last_good.unwrap();
                match ev.as_deref() {
                    None => ensure!(near(r.t, g + i * 1000, 1500), "{at}: answered at {g}, asked to wait {i} s"),
                    Some("completed") => {
                        let c = completed_at.ok_or(format!("{at}: completed, but it is not"))?;
                        ensure!(!told_completed, "{at}: completed twice");
                        ensure!(near(r.t, c.max(g), 1500), "{at}: completed at {c}");
                        told_completed = true;
                        completed_n += 1;
                    }
                    e => return Err(format!("{at}: event {e:?}")),
                }
                event = ev;
            }
            if let (Some(t), Rep::Good { interval, peers, tracker_id, .. }) = (r.answered, &r.rep) {
                last_good = Some((t, *interval as u64));
                tid_before = tid.clone();
                if tracker_id.is_some() {
                    tid = tracker_id.clone();
                }
                // one that comes with the shutdown may be lost
                if t + 200 < shut_at {
                    want_peers.extend(peers.iter().map(sock));
                }
            }
        }
        many |= reqs.len() > 3;
        let first_good = reqs.iter().filter_map(|r| r.answered).min();
        match first_good {
            Some(g) if g + 200 < shut_at => {
                ensure!(stops == 1, "tracker {k} was told {stops} times of the shutdown at {shut_at}");
                stopped_n += 1;
            }
            Some(g) if g <= shut_at + 200 => ensure!(stops <= 1, "stopped {stops} times"),
            _ => ensure!(stops == 0, "tracker {k}, which never answered, was told of the shutdown"),
        }
        // nothing overdue
        let reqs_before = &before[k];
        let Some(last) = reqs_before.last() else { continue };
        match (last.answered, &last.rep) {
            (Some(t), Rep::Good { interval, .. }) => {
                ensure!(shut_at <= t + *interval as u64 * 1000 + 2000, "tracker {k} was not asked again after {t} ms (interval {interval} s)");
                if let Some(c) = completed_at {
                    ensure!(told_completed || shut_at <= c.max(t) + 2000, "tracker {k} was not told that the download completed at {c}");
                }
            }
            _ => ensure!(shut_at <= last.t + 260_000, "tracker {k} was not asked again after the failure at {}", last.t),
        }
    }
    let got: BTreeSet<SocketAddrV4> = peers.peer_addresses().iter().map(|p| *p.addr()).collect();
    ensure!(want_peers.is_subset(&got), "peers {:?} were not taken over", want_peers.difference(&got).collect::<Vec<_>>());
    let offered: BTreeSet<SocketAddrV4> = s.trackers.iter().flatten().filter_map(|r| match r { Rep::Good { peers, .. } => Some(peers), _ => None }).flatten().map(sock).collect();
    ensure!(got.is_subset(&offered), "peers {:?} come from nowhere", got.difference(&offered).collect::<Vec<_>>());
    let _ = ended_at;
    Ok(Obs::new(many && (failed || completed_n > 0))
        .label_if(failed, "failures")
        .label_if(completed_n > 0, "completed")
        .label_if(stopped_n > 0, "stopped"))
}

pub fn sessions(ctx: &mut Ctx) {
    ctx.assume("HTTP over loopback, timers are virtual; how long the client waits before it tries again is left open between 1 and 250 s");
    let s = (
        vec(vec(rep(), 0..6), 1..4),
        (any::<bool>(), any::<bool>(), prop_oneof![2 => Just(0u8), 1 => 1u8..6]),
        (prop_oneof![3 => 1u8..6, 1 => 1u8..=255], prop_oneof![1 => Just(1000u64), 1 => 1u64..(1 << 33), 1 => (14u32..33).prop_map(|b| 1u64 << b)]),
        vec((0u16..500, prop_oneof![3 => 0u8..6, 1 => 0u8..=255]), 0..3),
        option::of(0u16..500),
        prop_oneof![1 => 0u16..3, 5 => 0u16..700],
        any::<u16>(),
        (any::<Bytes20>(), any::<Bytes20>()),
    )
        .prop_map(|(trackers, (udp, own_query, begun), (pieces, piece_length), progress, complete, shutdown, port, ids)| Session {
            trackers, udp, own_query, pieces, piece_length, begun, progress, complete, shutdown, port, ids,
        });
    ctx.check(
        "session",
        "one to three scripted HTTP trackers (good, late, failing, cut, closing and silent answers, tracker ids), download progress, completion and shutdown at generated times; non-trivial: more than three requests to a tracker, and a failure or the completion among them",
        Plan::new(120, 2_500).timing(),
        s,
        |s| paused(track(s)),
    );
}
