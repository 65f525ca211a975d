//! C37: the program itself. The real executable in a network of its own, with a gateway, trackers, peers and a DHT
//! node that are all the harness'; the real clock; at the end it is interrupted.
use super::gen::*;
use super::kmsg::*;
use super::manager::{files, mate, small, Disk, Kind, Mate, Some_, Tell};
use super::swarm::*;
use super::tracker::{Rep, Req};
use super::whole::{info_hash, write_metainfo};
use crate::core::*;
use crate::ensure;
use nargun::verif::dht::routing_table::RoutingTable;
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use proptest::strategy::{NewTree, ValueTree};
use proptest::test_runner::TestRunner;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4};
use std::path::{Path, PathBuf};
use std::process::Stdio;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, UdpSocket};
use tokio::process::{Child, Command};
use tokio::time::{sleep, timeout};

const OWN: Ipv4Addr = Ipv4Addr::new(10, 77, 0, 1);
const LOCAL_TCP: u16 = 46492;

/// What is wrong with the arguments.
#[derive(Debug, Clone, Serialize, Deserialize)]
enum File {
    Good,
    Missing,
    /// cut short there
    Cut(u16),
    Other(Vec<u8>),
    NoArgument,
}

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Gate {
    /// takes any port, and says which one it took: this one, or the one that was wished for
    Any(Option<u16>, Option<u16>),
    /// takes only ports that are wished for; the first few are taken
    Wished(u8, u8),
    /// the same outside as inside
    Same,
    /// does not forward one of them (UDP?), with that error; knows AddAnyPortMapping or not
    Refuses(bool, u16, bool),
    /// there is none
    Silent,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Start {
    gate: Gate,
    /// something else answers first
    decoy: bool,
    g: Geometry,
    files: Vec<u16>,
    /// the first is a good one; how long it takes to answer (ms)
    delay: u16,
    tracker_id: Option<String>,
    other: Option<Rep>,
    mates: Vec<Mate>,
    /// there is a DHT node, of which the first peer tells after so many ms
    node: Option<(Bytes20, u16)>,
    file: File,
    long: bool,
    /// it is interrupted so many ms after a tracker was asked, and not when all is there
    early: Option<u16>,
    /// a second run, in which only the node knows a peer
    again: bool,
    /// before all that, a run in the same folder that is killed so many ms after a tracker was asked
    #[serde(default)]
    killed: Option<u16>,
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Run {
    Killed(u16),
    First,
    Second,
}

// ---------------------------------------------------------------- the gateway

#[derive(Debug, Clone, PartialEq)]
struct Mapping {
    protocol: String,
    client: String,
    inside: u16,
    outside: u16,
    enabled: String,
    lease: String,
}

#[derive(Clone, Default)]
struct Gateway {
    asked: Arc<Mutex<Vec<Mapping>>>,
    granted: Arc<Mutex<Vec<Mapping>>>,
    bad: Arc<Mutex<Vec<String>>>,
}

fn tag(body: &str, name: &str) -> Option<String> {
    let a = body.find(&format!("<{name}>"))? + name.len() + 2;
    let b = body[a..].find(&format!("</{name}>"))?;
    Some(body[a..a + b].to_string())
}

const ARGUMENTS: [&str; 8] = [
    "NewRemoteHost", "NewExternalPort", "NewProtocol", "NewInternalPort", "NewInternalClient", "NewEnabled", "NewPortMappingDescription",
    "NewLeaseDuration",
];

impl Gateway {
    async fn serve(self, l: TcpListener, gate: Gate) {
        let conflicts = Arc::new(Mutex::new(BTreeMap::new()));
        while let Ok((mut s, _)) = l.accept().await {
            let (me, conflicts) = (self.clone(), conflicts.clone());
            tokio::spawn(async move {
                let mut buf = vec![];
                let (head, body) = loop {
                    match s.read_buf(&mut buf).await {
                        Ok(n) if n > 0 => {}
                        _ => return,
                    }
                    let text = String::from_utf8_lossy(&buf).into_owned();
                    let Some((h, b)) = text.split_once("\r\n\r\n") else { continue };
                    let len = h.lines().find_map(|l| l.to_ascii_lowercase().strip_prefix("content-length:").map(|n| n.trim().parse().unwrap_or(0)));
                    if b.len() >= len.unwrap_or(0) {
                        break (h.to_string(), b.to_string());
                    }
                };
                let (status, answer) = me.answer(&gate, &head, &body, &mut conflicts.lock().unwrap());
                let out = format!("HTTP/1.1 {status}\r\nContent-Type: text/xml\r\nContent-Length: {}\r\nConnection: close\r\n\r\n{answer}", answer.len());
                let _ = s.write_all(out.as_bytes()).await;
            });
        }
    }

    fn answer(&self, gate: &Gate, head: &str, body: &str, conflicts: &mut BTreeMap<String, u8>) -> (&'static str, String) {
        let device = |service: &str| {
            format!(
                "<?xml version=\"1.0\"?><root xmlns=\"urn:schemas-upnp-org:device-1-0\"><device><deviceType>urn:schemas-upnp-org:device:InternetGatewayDevice:1</deviceType><deviceList><device><serviceList><service><serviceType>urn:schemas-upnp-org:service:{service}:1</serviceType><serviceId>a</serviceId><SCPDURL>/scpd.xml</SCPDURL><controlURL>/control</controlURL></service></serviceList></device></deviceList></device></root>"
            )
        };
        let path = head.split(' ').nth(1).unwrap_or("");
        match path {
            "/desc.xml" => return ("200 OK", device("WANIPConnection")),
            "/tv.xml" => return ("200 OK", device("AVTransport")),
            "/scpd.xml" => {
                let list: String = ARGUMENTS.iter().map(|a| format!("<argument><name>{a}</name><direction>in</direction></argument>")).collect();
                let action = |n: &str| format!("<action><name>{n}</name><argumentList>{list}</argumentList></action>");
                let mut all = action("AddPortMapping");
                if matches!(gate, Gate::Any(..) | Gate::Refuses(_, _, true)) {
                    all += &action("AddAnyPortMapping");
                }
                return ("200 OK", format!("<?xml version=\"1.0\"?><scpd xmlns=\"urn:schemas-upnp-org:service-1-0\"><actionList>{all}</actionList></scpd>"));
            }
            "/control" => {}
            _ => return ("404 Not Found", String::new()),
        }
        let wrap = |x: String| format!("<?xml version=\"1.0\"?><s:Envelope xmlns:s=\"http://schemas.xmlsoap.org/soap/envelope/\"><s:Body>{x}</s:Body></s:Envelope>");
        let fail = |c: u16| {
            let x = format!("<s:Fault><faultcode>s:Client</faultcode><faultstring>UPnPError</faultstring><detail><UPnPError xmlns=\"urn:schemas-upnp-org:control-1-0\"><errorCode>{c}</errorCode><errorDescription>no</errorDescription></UPnPError></detail></s:Fault>");
            ("500 Internal Server Error", wrap(x))
        };
        let get = |k: &str| tag(body, k).unwrap_or_default();
        let any = head.contains("#AddAnyPortMapping\"");
        if !any && !head.contains("#AddPortMapping\"") {
            self.bad.lock().unwrap().push(format!("asked {head}"));
            return fail(401);
        }
        let m = Mapping {
            protocol: get("NewProtocol"),
            client: get("NewInternalClient"),
            inside: get("NewInternalPort").parse().unwrap_or(0),
            outside: get("NewExternalPort").parse().unwrap_or(0),
            enabled: get("NewEnabled"),
            lease: get("NewLeaseDuration"),
        };
        self.asked.lock().unwrap().push(m.clone());
        let udp = m.protocol == "UDP";
        let so_far = conflicts.entry(m.protocol.clone()).or_default();
        *so_far += 1;
        let outside = match gate {
            Gate::Any(t, u) => (if udp { u } else { t }).unwrap_or(m.outside),
            Gate::Wished(t, u) if *so_far <= (if udp { *u } else { *t }) => return fail(718),
            Gate::Wished(..) => m.outside,
            Gate::Same if m.inside != m.outside => return fail(724),
            Gate::Same => m.outside,
            Gate::Refuses(u, code, _) if *u == udp => return fail(*code),
            Gate::Refuses(..) => m.outside,
            Gate::Silent => return fail(501),
        };
        self.granted.lock().unwrap().push(Mapping { outside, ..m });
        let x = if any {
            format!("<u:AddAnyPortMappingResponse xmlns:u=\"urn:schemas-upnp-org:service:WANIPConnection:1\"><NewReservedPort>{outside}</NewReservedPort></u:AddAnyPortMappingResponse>")
        } else {
            "<u:AddPortMappingResponse xmlns:u=\"urn:schemas-upnp-org:service:WANIPConnection:1\"></u:AddPortMappingResponse>".to_string()
        };
        ("200 OK", wrap(x))
    }

    /// Says where it is to whoever searches for gateways.
    async fn announce(s: UdpSocket, port: u16, decoy: bool, gate: Gate) {
        let mut b = [0; 2048];
        while let Ok((n, from)) = s.recv_from(&mut b).await {
            if gate == Gate::Silent || !b[..n].starts_with(b"M-SEARCH") {
                continue;
            }
            let say = |p: &str| {
                format!("HTTP/1.1 200 OK\r\nCACHE-CONTROL: max-age=120\r\nEXT:\r\nLOCATION: http://{OWN}:{port}/{p}\r\nST: urn:schemas-upnp-org:device:InternetGatewayDevice:1\r\nUSN: uuid:1\r\n\r\n")
            };
            if decoy {
                let _ = s.send_to(say("tv.xml").as_bytes(), from).await;
            }
            let _ = s.send_to(say("desc.xml").as_bytes(), from).await;
        }
    }
}

// ---------------------------------------------------------------- a node

#[derive(Clone, Default)]
struct Heard {
    all: Arc<Mutex<Vec<K>>>,
    bad: Arc<Mutex<Vec<String>>>,
}

async fn node(s: Arc<UdpSocket>, id: Bytes20, knows: Vec<[u8; 6]>, heard: Heard) {
    let mut b = [0; 2048];
    let token = fill(9, 8);
    while let Ok((n, from)) = s.recv_from(&mut b).await {
        let Some((tid, k)) = parse(&b[..n]) else {
            heard.bad.lock().unwrap().push(format!("the node received what is no message: {:?}", &b[..n]));
            continue;
        };
        heard.all.lock().unwrap().push(k.clone());
        let answer = match &k {
            K::Ping(_) => K::Pong(id),
            K::Find(..) => K::Found(id, vec![]),
            K::Get(..) if knows.is_empty() => K::Nodes(id, token.clone(), vec![]),
            K::Get(..) => K::Values(id, token.clone(), knows.clone()),
            K::Announce(_, _, _, t) => {
                if *t != token {
                    heard.bad.lock().unwrap().push(format!("announced with the token {t:?}, not {token:?}"));
                }
                K::Pong(id)
            }
            _ => continue,
        };
        let _ = s.send_to(&answer.value(&tid, &vec![], &vec![]).encode(), from).await;
    }
}

/// Whether a DHT node answers there, and who it is.
async fn answers(port: u16) -> Option<Bytes20> {
    let s = UdpSocket::bind((OWN, 0)).await.ok()?;
    let mut b = [0; 2048];
    for _ in 0..20 {
        s.send_to(&K::Ping([7; 20]).value(b"pi", &vec![], &vec![]).encode(), (OWN, port)).await.ok()?;
        if let Ok(Ok((n, _))) = timeout(Duration::from_millis(300), s.recv_from(&mut b)).await {
            if let Some((_, K::Pong(id))) = parse(&b[..n]) {
                return Some(id);
            }
        }
        sleep(Duration::from_millis(100)).await;
    }
    None
}

// ---------------------------------------------------------------- a run

/// What a run left behind.
struct Ran {
    peer_id: Vec<u8>,
    own: Bytes20,
    stored: BTreeMap<Bytes20, SocketAddrV4>,
    all_there: bool,
}

fn signal(c: &Child) {
    unsafe { libc::kill(c.id().map(|p| p as i32).unwrap_or(0).max(1), libc::SIGINT) };
}

async fn waits<T>(what: &str, seconds: u64, c: &mut Child, mut f: impl FnMut() -> Result<Option<T>, String>) -> Result<T, String> {
    let start = std::time::Instant::now();
    loop {
        if let Some(x) = f()? {
            if std::env::var("VERIF_DUMP").is_ok() {
                eprintln!("{what}: {} ms", start.elapsed().as_millis());
            }
            return Ok(x);
        }
        if let Ok(Some(s)) = c.try_wait() {
            return Err(format!("the program ended by itself ({s}) before {what}"));
        }
        ensure!(start.elapsed() < Duration::from_secs(seconds), "{what}: not within {seconds} s");
        sleep(Duration::from_millis(40)).await;
    }
}

async fn stop(tasks: Vec<tokio::task::JoinHandle<()>>) {
    for t in tasks {
        t.abort();
        let _ = t.await;
    }
}

async fn one_run(z: &Start, dir: &Path, program: &Path, run: Run) -> Result<Option<Ran>, String> {
    let second = run == Run::Second;
    let mut c = Content::new(&z.g);
    let base = dir.join(if second { "base again" } else { "base" });
    std::fs::create_dir_all(&base).map_err(|e| format!("harness: {e}"))?;
    let disk = Disk::new(base.clone(), &z.files, &c);
    let n = c.count();
    let (l, a) = bind().await;
    let mut ls = vec![l];
    let mut urls = vec![format!("http://{a}/announce")];
    if z.other.is_some() {
        let (l, a) = bind().await;
        ls.push(l);
        urls.push(format!("http://{a}/announce"));
    }
    let meta = write_metainfo(&c, &disk, &urls, false);
    let hash = info_hash(&meta);
    c.info_hash = hash;
    let c = Arc::new(c);
    let file = dir.join("a.torrent");
    let _ = std::fs::remove_file(&file);
    match &z.file {
        File::Good | File::NoArgument => std::fs::write(&file, &meta),
        File::Missing => Ok(()),
        File::Cut(at) => std::fs::write(&file, &meta[..*at as usize % meta.len()]),
        File::Other(b) => std::fs::write(&file, b),
    }
    .map_err(|e| format!("harness: {e}"))?;
    // the node
    let heard = Heard::default();
    // it keeps its place
    let sock = Arc::new(UdpSocket::bind((Ipv4Addr::LOCALHOST, if second { 40_001 } else { 0 })).await.map_err(|e| format!("harness: {e}"))?);
    let sock = if z.node.is_some() && !second {
        Arc::new(UdpSocket::bind((Ipv4Addr::LOCALHOST, 40_001)).await.map_err(|e| format!("harness: {e}"))?)
    } else {
        sock
    };
    let at = sock.local_addr().unwrap();
    // peers
    let log = Log::new();
    let mut peers = vec![];
    for (k, m) in z.mates.iter().enumerate() {
        let (l, a) = bind().await;
        peers.push(compact(&a));
        let mut says = m.frames(n);
        if let (0, Some((_, t)), false) = (k, &z.node, second) {
            says.push((*t, frame(9, &at.port().to_be_bytes())));
        }
        m.put_up(k, l, says, &c, &log);
    }
    let (told, known) = if second { (vec![], peers) } else { (peers, vec![]) };
    let mut tasks = vec![];
    if let Some((id, _)) = &z.node {
        tasks.push(tokio::spawn(node(sock.clone(), *id, known, heard.clone())));
    }
    // trackers
    let bad = Arc::new(Mutex::new(vec![]));
    let mut asked: Vec<Arc<Mutex<Vec<Req>>>> = vec![];
    for (k, l) in ls.into_iter().enumerate() {
        let script = match (k, &z.other) {
            (1, Some(r)) => vec![r.clone(); 30],
            _ => vec![Rep::Good { interval: 1800, peers: told.clone(), tracker_id: z.tracker_id.clone(), delay: z.delay }; 3],
        };
        let reqs: Arc<Mutex<Vec<Req>>> = Default::default();
        tasks.push(tokio::spawn(super::tracker::serve(l, script, log.clone(), reqs.clone(), bad.clone())));
        asked.push(reqs);
    }
    // the gateway
    let gw = Gateway::default();
    let l = TcpListener::bind((OWN, 0)).await.map_err(|e| format!("harness: {e}"))?;
    let port = l.local_addr().unwrap().port();
    tasks.push(tokio::spawn(gw.clone().serve(l, z.gate)));
    let ssdp = UdpSocket::bind("0.0.0.0:1900").await.map_err(|e| format!("harness: {e}"))?;
    ssdp.join_multicast_v4([239, 255, 255, 250].into(), OWN).map_err(|e| format!("harness: {e}"))?;
    tasks.push(tokio::spawn(Gateway::announce(ssdp, port, z.decoy, z.gate)));

    let mut cmd = Command::new(program);
    if !matches!(z.file, File::NoArgument) {
        cmd.arg(if z.long { "--file" } else { "-f" }).arg(&file);
    }
    let out = std::fs::OpenOptions::new().create(true).append(true).open(dir.join("output")).map_err(|e| format!("harness: {e}"))?;
    cmd.env("NARGUN_VERIF_BASE_DIR", &base)
        .env("HOME", dir.join("home"))
        .env("SSL_CERT_FILE", "/dev/null")
        .current_dir(dir)
        .stdin(Stdio::null())
        .stdout(out.try_clone().unwrap())
        .stderr(out)
        .kill_on_drop(true);
    unsafe {
        cmd.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut p = cmd.spawn().map_err(|e| format!("harness: {e}"))?;

    let refused = !matches!(z.file, File::Good) || matches!(z.gate, Gate::Refuses(..) | Gate::Silent);
    if refused {
        let s = timeout(Duration::from_secs(25), p.wait()).await.map_err(|_| "the program could not start and did not end within 25 s".to_string())?;
        let s = s.map_err(|e| format!("harness: {e}"))?;
        sleep(Duration::from_millis(100)).await;
        stop(tasks).await;
        ensure!(!s.success(), "the program could not start ({:?}, {:?}) and reports success", z.file, z.gate);
        for (k, r) in asked.iter().enumerate() {
            ensure!(r.lock().unwrap().is_empty(), "tracker {k} was asked though the program could not start");
        }
        ensure!(log.all().is_empty(), "a peer was visited though the program could not start");
        ensure!(heard.all.lock().unwrap().is_empty(), "a node was asked though the program could not start");
        ensure!(std::fs::read_dir(&base).map(|d| d.count()).unwrap_or(9) == 0, "files were made though the program could not start");
        return Ok(None);
    }

    if let Run::Killed(ms) = run {
        waits("a tracker was asked", 30, &mut p, || Ok((!asked[0].lock().unwrap().is_empty()).then_some(()))).await?;
        sleep(Duration::from_millis(ms as u64)).await;
        ensure!(matches!(p.try_wait(), Ok(None)), "the program ended by itself");
        let _ = p.kill().await;
        stop(tasks).await;
        disk.stored(&c)?;
        return Ok(None);
    }

    // both ports
    waits("the gateway was asked for two ports", 30, &mut p, || Ok((gw.granted.lock().unwrap().len() >= 2).then_some(()))).await?;
    let udp = gw.granted.lock().unwrap().iter().find(|m| m.protocol == "UDP").map(|m| m.inside).ok_or("no UDP port is forwarded")?;
    let own = answers(udp).await.ok_or(format!("no DHT node answers on port {udp}, to which the gateway forwards UDP"))?;
    waits("a tracker was asked", 30, &mut p, || Ok((!asked[0].lock().unwrap().is_empty()).then_some(()))).await?;
    if let (Some(ms), false) = (z.early, second) {
        sleep(Duration::from_millis(300 + ms as u64)).await;
    } else {
        waits("the torrent was complete", 40, &mut p, || Ok((!disk.stored(&c)?.contains(&false)).then_some(()))).await?;
        if z.node.is_some() {
            let told = || Ok(heard.all.lock().unwrap().iter().any(|k| matches!(k, K::Announce(..))).then_some(()));
            waits("a node was told of it", 40, &mut p, told).await?;
        }
        waits("the tracker's answer was there", 30, &mut p, || Ok(asked[0].lock().unwrap()[0].answered.map(|_| ()))).await?;
        sleep(Duration::from_millis(300)).await;
    }
    ensure!(matches!(p.try_wait(), Ok(None)), "the program ended by itself");
    let shut_at = log.now();
    signal(&p);
    let s = timeout(Duration::from_secs(30), p.wait()).await.map_err(|_| "the program did not end within 30 s of the interrupt".to_string())?;
    let s = s.map_err(|e| format!("harness: {e}"))?;
    if std::env::var("VERIF_DUMP").is_ok() {
        eprintln!("end: {} ms", log.now() - shut_at);
    }
    sleep(Duration::from_millis(300)).await;
    stop(tasks).await;
    ensure!(s.success(), "the program was interrupted and ended with {s}");
    let there = disk.stored(&c)?;

    // the ports
    if let Some(b) = gw.bad.lock().unwrap().iter().chain(bad.lock().unwrap().iter()).chain(heard.bad.lock().unwrap().iter()).next() {
        return Err(b.clone());
    }
    let granted = gw.granted.lock().unwrap().clone();
    ensure!(granted.len() == 2, "{} ports are forwarded: {granted:?}", granted.len());
    for m in &granted {
        ensure!(m.client == OWN.to_string(), "forwarded to {}, not here: {m:?}", m.client);
        ensure!(m.enabled == "1" && m.lease == "0", "not forwarded for good: {m:?}");
    }
    let tcp = granted.iter().find(|m| m.protocol == "TCP").ok_or("no TCP port is forwarded")?;
    ensure!(tcp.inside == LOCAL_TCP, "TCP is forwarded to port {}", tcp.inside);
    // what everybody was told
    let mut id: Option<Vec<u8>> = None;
    let mut same = |x: &[u8], whom: &str| {
        let y = id.get_or_insert(x.to_vec());
        (y == x).then_some(()).ok_or(format!("told {whom} that it is {x:?}, and before that it is {y:?}"))
    };
    for (k, reqs) in asked.iter().enumerate() {
        let reqs = reqs.lock().unwrap().clone();
        for (j, r) in reqs.iter().enumerate() {
            let at = format!("request {j} to tracker {k} at {} ms", r.t);
            let get = |key: &str| r.query.iter().find(|(x, _)| x == key).map(|x| x.1.clone()).unwrap_or_default();
            ensure!(get("info_hash") == hash, "{at}: info_hash is {:?}", get("info_hash"));
            ensure!(get("port") == tcp.outside.to_string().as_bytes(), "{at}: port is {:?}, forwarded is {}", String::from_utf8_lossy(&get("port")), tcp.outside);
            same(&get("peer_id"), "a tracker")?;
            let stopped = r.get("event").as_deref() == Some("stopped");
            ensure!(!stopped || r.t + 50 >= shut_at, "{at}: stopped before the interrupt at {shut_at} ms");
            ensure!(stopped || r.t <= shut_at + 2_000, "{at}: after the interrupt at {shut_at} ms");
        }
        let stops = reqs.iter().filter(|r| r.get("event").as_deref() == Some("stopped")).count();
        let good = reqs.iter().any(|r| r.answered.map(|a| a + 200 < shut_at).unwrap_or(false));
        ensure!(stops == 1 || (stops == 0 && !good), "tracker {k} was told {stops} times that the program ends");
    }
    for e in log.all() {
        match &e.what {
            What::Hello(h) => same(h, "a peer")?,
            What::BadHandshake(h) => return Err(format!("a bad handshake to peer {}: {h:?}", e.peer)),
            What::BadFrame(f) => return Err(format!("peer {} received a frame that is no message: {:?}", e.peer, &f[..f.len().min(20)])),
            _ => {}
        }
    }
    for k in heard.all.lock().unwrap().iter() {
        match k {
            K::Ping(i) | K::Find(i, _) | K::Get(i, _) | K::Announce(i, ..) => ensure!(*i == own, "asked as node {i:?}; it is {own:?}"),
            _ => {}
        }
        match k {
            K::Get(_, h) => ensure!(*h == hash, "asked for peers of {h:?}"),
            K::Announce(_, h, p, _) => ensure!(*h == hash && *p == tcp.outside, "announced {h:?} on {p}; {} is forwarded", tcp.outside),
            _ => {}
        }
    }
    // what is kept
    ensure!(dir.join("home/.nargun/dht").is_file(), "no routing table was stored");
    let table = RoutingTable::new().await;
    ensure!(table.own_id().as_byte_ref() == own, "it was node {own:?}, and stored that it is {:?}", table.own_id());
    let stored: BTreeMap<Bytes20, SocketAddrV4> = table.iter_nodes().map(|n| (n.id.as_byte_ref().try_into().unwrap(), n.addr)).collect();
    let asked_node = heard.all.lock().unwrap().iter().any(|k| matches!(k, K::Get(..) | K::Announce(..)));
    if let (Some((id, _)), true) = (&z.node, asked_node) {
        ensure!(stored.get(id).map(|a| SocketAddr::V4(*a)) == Some(at), "the node {id:?} at {at} is not stored: {stored:?}");
    }
    Ok(Some(Ran { peer_id: id.unwrap_or_default(), own, stored, all_there: !there.contains(&false) }))
}

async fn scenario(z: &Start, dir: &Path, program: &Path) -> Result<Vec<String>, String> {
    let mut labels = vec![];
    let starts = matches!(z.file, File::Good) && !matches!(z.gate, Gate::Refuses(..) | Gate::Silent);
    if let Some(ms) = z.killed.filter(|_| starts) {
        one_run(z, dir, program, Run::Killed(ms)).await?;
        labels.push("killed at first".to_string());
    }
    match one_run(z, dir, program, Run::First).await? {
        None => labels.push("could not start".into()),
        Some(r) => {
            labels.push(if r.all_there { "complete".into() } else { "interrupted on the way".to_string() });
            if let (true, Some((id, _)), None) = (z.again, &z.node, z.early) {
                ensure!(r.stored.contains_key(id), "the node that it had told of itself was not stored");
                let s = one_run(z, dir, program, Run::Second).await?.unwrap();
                ensure!(s.own == r.own, "it was node {:?} and now is {:?}", r.own, s.own);
                ensure!(s.peer_id != r.peer_id, "two runs under the same peer id");
                labels.push("a second run".into());
            }
        }
    }
    labels.push(
        match z.gate {
            Gate::Any(Some(_), _) => "another port than wished for",
            Gate::Wished(t, u) if t + u > 0 => "ports were taken",
            Gate::Same => "the same port",
            _ => "any port",
        }
        .into(),
    );
    Ok(labels)
}

/// In a network of its own: one scenario, its outcome on stdout.
pub fn alone(file: &str) -> i32 {
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    let (z, dir, program): (Start, PathBuf, PathBuf) = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    for c in ["link set lo up multicast on", "addr add 10.77.0.1/24 dev lo scope global", "route add 224.0.0.0/4 dev lo"] {
        let s = std::process::Command::new("ip").args(c.split(' ')).status();
        if !s.map(|s| s.success()).unwrap_or(false) {
            println!("{}", serde_json::to_string(&Err::<Vec<String>, _>(format!("harness: ip {c}"))).unwrap());
            return 0;
        }
    }
    std::fs::create_dir_all(dir.join("home")).unwrap();
    std::env::set_var("HOME", dir.join("home"));
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let r = rt.block_on(scenario(&z, &dir, &program));
    println!("{}", serde_json::to_string(&r).unwrap());
    0
}

type Outcome = Result<Vec<String>, String>;

/// All at once, each in a network of its own.
fn run_all(all: &[&Start]) -> Result<Vec<Outcome>, String> {
    let program = PathBuf::from(std::env::var("VERIF_PROGRAM").map_err(|_| "VERIF_PROGRAM is not set")?);
    let scratch = Scratch::new("program");
    let mut running = vec![];
    for (k, z) in all.iter().enumerate() {
        let dir = scratch.path().join(k.to_string());
        std::fs::create_dir(&dir).map_err(|e| e.to_string())?;
        let f = dir.join("case.json");
        std::fs::write(&f, serde_json::to_string(&(z, &dir, &program)).unwrap()).map_err(|e| e.to_string())?;
        let c = std::process::Command::new("unshare")
            .args(["-Urn", "--kill-child", "-f"])
            .arg(std::env::current_exe().unwrap())
            .arg("--program")
            .arg(&f)
            .stdin(Stdio::null())
            .stdout(std::fs::File::create(dir.join("result")).unwrap())
            .stderr(std::fs::File::create(dir.join("errors")).unwrap())
            .spawn()
            .map_err(|e| format!("unshare: {e}"))?;
        running.push((dir, c));
    }
    let start = std::time::Instant::now();
    let mut out = vec![];
    for (k, (dir, mut c)) in running.into_iter().enumerate() {
        let s = loop {
            match c.try_wait() {
                Ok(Some(s)) => break Some(s),
                _ if start.elapsed() > Duration::from_secs(400) => break None,
                _ => std::thread::sleep(Duration::from_millis(20)),
            }
        };
        if s.is_none() {
            let _ = c.kill();
            let _ = c.wait();
        }
        let text = std::fs::read_to_string(dir.join("result")).unwrap_or_default();
        let errors = std::fs::read_to_string(dir.join("errors")).unwrap_or_default();
        let r: Outcome = serde_json::from_str(&text).map_err(|_| format!("no outcome ({s:?}): {errors}"))?;
        if std::env::var("VERIF_DUMP").is_ok() {
            eprintln!("{k}: {r:?}\n{errors}");
            if r.is_err() {
                eprintln!("{}", std::fs::read_to_string(dir.join("output")).unwrap_or_default());
            }
        }
        match r {
            Err(e) if e.starts_with("harness: ") => return Err(e),
            r => out.push(r),
        }
    }
    Ok(out)
}

/// What came of each start so far, and the batches there were.
static KNOWN: Mutex<(BTreeMap<String, Outcome>, BTreeSet<String>)> = Mutex::new((BTreeMap::new(), BTreeSet::new()));

/// A batch that was run before is run again as far as it failed; in another one, only what's new is run.
fn batch(all: &[Start]) -> TestResult {
    let (known, seen) = &mut *KNOWN.lock().unwrap();
    let keys: Vec<String> = all.iter().map(|z| serde_json::to_string(z).unwrap()).collect();
    let again = !seen.insert(keys.join("\n"));
    let due: Vec<usize> = (0..all.len()).filter(|k| known.get(&keys[*k]).map(|o| again && o.is_err()).unwrap_or(true)).collect();
    match run_all(&due.iter().map(|k| &all[*k]).collect::<Vec<_>>()) {
        Ok(out) => {
            for (k, o) in due.iter().zip(out) {
                known.insert(keys[*k].clone(), o);
            }
        }
        // the sandbox' fault, not the program's
        Err(e) => {
            eprintln!("harness: {e}");
            std::process::exit(3);
        }
    }
    let mut nontrivial = vec![];
    let mut labels = vec![];
    for k in &keys {
        let l = known[k].clone()?;
        if l.iter().any(|l| l == "complete") {
            nontrivial.push(k.clone());
        }
        labels.extend(l);
    }
    let mut o = Obs::many(all.len(), nontrivial);
    o.labels = labels;
    Ok(o)
}

/// Starts that are independent of each other: what failed is the one that is needed.
#[derive(Debug)]
struct Many<S>(S, usize);

struct ManyTree<T> {
    items: Vec<T>,
    one: Option<usize>,
    /// the one that is needed has been simplified
    within: bool,
}

impl<S: Strategy<Value = Start>> Strategy for Many<S> {
    type Tree = ManyTree<S::Tree>;
    type Value = Vec<Start>;
    fn new_tree(&self, runner: &mut TestRunner) -> NewTree<Self> {
        let items = (0..self.1).map(|_| self.0.new_tree(runner)).collect::<Result<_, _>>()?;
        Ok(ManyTree { items, one: None, within: false })
    }
}

impl<T: ValueTree<Value = Start>> ValueTree for ManyTree<T> {
    type Value = Vec<Start>;
    fn current(&self) -> Vec<Start> {
        match self.one {
            Some(k) => vec![self.items[k].current()],
            None => self.items.iter().map(|i| i.current()).collect(),
        }
    }
    fn simplify(&mut self) -> bool {
        if let Some(k) = self.one {
            self.within = true;
            return self.items[k].simplify();
        }
        let known = KNOWN.lock().unwrap();
        let failed = |i: &T| known.0.get(&serde_json::to_string(&i.current()).unwrap()).map(|o| o.is_err()).unwrap_or(false);
        self.one = self.items.iter().position(failed);
        self.one.is_some()
    }
    fn complicate(&mut self) -> bool {
        match self.one {
            Some(k) if self.within => self.items[k].complicate(),
            _ => {
                self.one = None;
                false
            }
        }
    }
}

fn start() -> impl Strategy<Value = Start> {
    let gate = prop_oneof![
        6 => (option::weighted(0.8, 1024u16..), option::weighted(0.8, 1024u16..)).prop_map(|(t, u)| Gate::Any(t, u)),
        5 => (0u8..15, 0u8..15).prop_map(|(t, u)| Gate::Wished(t, u)),
        1 => Just(Gate::Same),
        1 => (any::<bool>(), proptest::sample::select(vec![402u16, 501, 606, 715, 718, 728]), any::<bool>()).prop_map(|(u, c, a)| Gate::Refuses(u, c, a)),
    ];
    let file = prop_oneof![
        30 => Just(File::Good),
        1 => Just(File::Missing),
        1 => any::<u16>().prop_map(File::Cut),
        1 => vec(any::<u8>(), 0..40).prop_map(File::Other),
        1 => Just(File::NoArgument),
    ];
    let other = prop_oneof![
        Just(Rep::Failure),
        Just(Rep::Close),
        Just(Rep::Garbage(b"<html>".to_vec())),
        Just(Rep::Good { interval: 1800, peers: vec![], tracker_id: None, delay: 100 }),
    ];
    (
        (gate, any::<bool>(), prop_oneof![40 => Just(false), 1 => Just(true)]),
        small(12),
        files(),
        (0u16..500, option::of("[a-z]{1,6}"), option::weighted(0.4, other)),
        vec(mate(0, 0, Just(Kind::Good)), 1..4),
        option::weighted(0.6, (bytes20(), 0u16..600)),
        (file, any::<bool>()),
        (option::weighted(0.2, 0u16..900), any::<bool>(), option::weighted(0.3, 0u16..4_000)),
    )
        .prop_map(|((gate, decoy, silent), g, files, (delay, tracker_id, other), mut mates, node, (file, long), (early, again, killed))| {
            for m in &mut mates {
                m.joins = 0;
                m.script.chokes.clear();
                m.script.unchoke_after /= 8;
                m.tells.iter_mut().for_each(|t| t.0 /= 8);
            }
            mates.last_mut().unwrap().tells.push((700, Tell::Haves(Some_::All)));
            let gate = if silent { Gate::Silent } else { gate };
            Start { gate, decoy, g, files, delay, tracker_id, other, mates, node, file, long, early, again, killed }
        })
}

pub fn program(ctx: &mut Ctx) {
    ctx.assume("the real executable and the real clock, in a network namespace in which the gateway, trackers, peers and the DHT node are the harness'");
    ctx.case_limit = Duration::from_secs(500);
    ctx.check(
        "program",
        "starts of the program, sixty-four at once, each with a gateway of any kind, a .torrent file that may be bad, one or two trackers, one to three peers, often a DHT node; interrupted when all is there or on the way; often started again on the stored table, and at times killed before all that; non-trivial: a start after which all was complete",
        Plan::new(1, 40).timing().shrink(30),
        Many(start(), 64),
        |all| batch(all),
    );
}
