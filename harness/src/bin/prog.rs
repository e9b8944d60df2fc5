//! Monitor of the whole program: started as a user starts it, among a gateway, trackers, DHT nodes and peers of the harness.
use nv::bencode::{dict, i, s, B};
use nv::content::{files_under, gen, Content};
use nv::fakepeer::{Cfg, Ev, FakePeer, W};
use nv::*;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{Ipv4Addr, SocketAddrV4, TcpListener, UdpSocket};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::io::{AsyncReadExt, AsyncWriteExt};

const OWN_IP: &str = "10.7.3.1";

fn main() {
    let a = Args::parse();
    let program = PathBuf::from(std::env::var("NV_TARGET").unwrap_or_else(|_| "/verif/target".into())).join("prog/debug/nargun");
    if !program.exists() {
        inconclusive("the program isn't built");
    }
    if !net::own_network() {
        inconclusive("no network of its own");
    }
    // an address that isn't only for the machine itself, and somewhere for multicast to go
    for args in [["addr", "add", "10.7.3.1/24", "dev", "lo"], ["route", "add", "239.0.0.0/8", "dev", "lo"]] {
        match Command::new("ip").args(args).output() {
            Ok(o) if o.status.success() => (),
            Ok(o) => inconclusive(&format!("ip {args:?}: {}", String::from_utf8_lossy(&o.stderr))),
            Err(e) => inconclusive(&format!("ip: {e}")),
        }
    }
    install_panic_monitor();
    install_hang_monitor(180);
    let mut r = a.rng();
    let scratch = net::Scratch::new("prog");
    for round in 0..a.num("rounds", 3) {
        beat();
        let mut r = r.fork();
        let dir = scratch.path().join(format!("r{round}"));
        std::fs::create_dir_all(&dir).unwrap();
        session(&mut r, &program, &dir);
        let _ = std::fs::remove_dir_all(&dir);
        if violation_count() > 8 {
            break;
        }
    }
    scratch.cleanup();
    finish()
}

// ---------------------------------------------------------------- gateway

#[derive(Clone, Debug, PartialEq)]
enum Kind {
    /// gives a port of its own choice
    Any,
    /// takes the port it's asked for, refuses that many before
    Asked(usize),
    /// external port has to be the same as the internal one
    Same,
    /// doesn't do any of it
    Refuses,
    /// refuses the mapping of UDP
    RefusesUdp,
    /// nobody is there
    Absent,
}

#[derive(Clone, Debug)]
struct Mapping {
    udp: bool,
    client: String,
    internal: u16,
    external: u16,
    lease: String,
    enabled: String,
}

struct Gateway {
    mappings: Arc<Mutex<Vec<Mapping>>>,
    stop: Arc<std::sync::atomic::AtomicBool>,
    threads: Vec<std::thread::JoinHandle<()>>,
}

impl Drop for Gateway {
    fn drop(&mut self) {
        self.stop.store(true, std::sync::atomic::Ordering::SeqCst);
        for t in self.threads.drain(..) {
            let _ = t.join();
        }
    }
}

fn tag<'a>(x: &'a str, name: &str) -> Option<&'a str> {
    let a = x.find(&format!("<{name}>"))? + name.len() + 2;
    let b = x[a..].find(&format!("</{name}>"))?;
    Some(&x[a..a + b])
}

fn gateway(r: &mut Rng, kind: Kind) -> Gateway {
    let mappings: Arc<Mutex<Vec<Mapping>>> = Arc::default();
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let mut g = Gateway { mappings: mappings.clone(), stop: stop.clone(), threads: Vec::new() };
    if kind == Kind::Absent {
        return g;
    }
    let http = TcpListener::bind((Ipv4Addr::LOCALHOST, 0)).unwrap_or_else(|e| inconclusive(&format!("bind: {e}")));
    let port = http.local_addr().unwrap().port();
    let ssdp = UdpSocket::bind("0.0.0.0:1900").unwrap_or_else(|e| inconclusive(&format!("bind 1900: {e}")));
    ssdp.join_multicast_v4(&Ipv4Addr::new(239, 255, 255, 250), &Ipv4Addr::LOCALHOST).unwrap_or_else(|e| inconclusive(&format!("multicast: {e}")));
    ssdp.set_read_timeout(Some(Duration::from_millis(100))).unwrap();
    let st = stop.clone();
    let t = std::thread::spawn(move || {
        let mut b = [0u8; 2000];
        while !st.load(std::sync::atomic::Ordering::SeqCst) {
            if let Ok((n, from)) = ssdp.recv_from(&mut b) {
                if b[..n].starts_with(b"M-SEARCH") {
                    let a = format!("HTTP/1.1 200 OK\r\nCACHE-CONTROL: max-age=120\r\nST: urn:schemas-upnp-org:device:InternetGatewayDevice:1\r\nLocation: http://127.0.0.1:{port}/root.xml\r\nEXT:\r\n\r\n");
                    let _ = ssdp.send_to(a.as_bytes(), from);
                }
            }
        }
    });
    g.threads.push(t);
    let service = *r.pick(&["WANIPConnection:1", "WANIPConnection:2", "WANPPPConnection:1"]);
    let deep = r.bool();
    let mut rr = r.fork();
    http.set_nonblocking(true).unwrap();
    let t = std::thread::spawn(move || {
        let mut refused = 0;
        while !stop.load(std::sync::atomic::Ordering::SeqCst) {
            let Ok((mut s0, _)) = http.accept() else {
                std::thread::sleep(Duration::from_millis(5));
                continue;
            };
            let _ = s0.set_nonblocking(false);
            let _ = s0.set_read_timeout(Some(Duration::from_secs(5)));
            let mut buf = Vec::new();
            let mut t = [0u8; 4096];
            let mut need = None;
            loop {
                if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                    let head = String::from_utf8_lossy(&buf[..p]).to_lowercase();
                    let l: usize = head.lines().find_map(|l| l.strip_prefix("content-length:")).and_then(|x| x.trim().parse().ok()).unwrap_or(0);
                    need = Some(p + 4 + l);
                }
                if need.map(|n| buf.len() >= n).unwrap_or(false) {
                    break;
                }
                match s0.read(&mut t) {
                    Ok(0) | Err(_) => break,
                    Ok(n) => buf.extend_from_slice(&t[..n]),
                }
            }
            let text = String::from_utf8_lossy(&buf).to_string();
            let path = text.split(' ').nth(1).unwrap_or("").to_string();
            let fault = |code: u16| {
                (500, format!("<?xml version=\"1.0\"?><s:Envelope xmlns:s=\"http://schemas.xmlsoap.org/soap/envelope/\"><s:Body><s:Fault><faultcode>s:Client</faultcode><faultstring>UPnPError</faultstring><detail><UPnPError xmlns=\"urn:schemas-upnp-org:control-1-0\"><errorCode>{code}</errorCode><errorDescription>no</errorDescription></UPnPError></detail></s:Fault></s:Body></s:Envelope>"))
            };
            let (status, body) = match path.as_str() {
                "/root.xml" => {
                    let sv = format!("<serviceList><service><serviceType>urn:schemas-upnp-org:service:{service}</serviceType><SCPDURL>/scpd.xml</SCPDURL><controlURL>/control</controlURL></service></serviceList>");
                    let d = if deep { format!("<deviceList><device><deviceType>x</deviceType><deviceList><device>{sv}</device></deviceList></device></deviceList>") } else { sv };
                    (200, format!("<?xml version=\"1.0\"?><root xmlns=\"urn:schemas-upnp-org:device-1-0\"><device>{d}</device></root>"))
                }
                "/scpd.xml" => {
                    let args = ["NewRemoteHost", "NewExternalPort", "NewProtocol", "NewInternalPort", "NewInternalClient", "NewEnabled", "NewPortMappingDescription", "NewLeaseDuration"]
                        .iter()
                        .map(|a| format!("<argument><name>{a}</name><direction>in</direction></argument>"))
                        .collect::<String>();
                    let any = if matches!(kind, Kind::Asked(_) | Kind::Same) { String::new() } else { format!("<action><name>AddAnyPortMapping</name><argumentList>{args}</argumentList></action>") };
                    (200, format!("<?xml version=\"1.0\"?><scpd xmlns=\"urn:schemas-upnp-org:service-1-0\"><actionList><action><name>AddPortMapping</name><argumentList>{args}</argumentList></action>{any}</actionList></scpd>"))
                }
                "/control" => {
                    let any = text.contains("AddAnyPortMapping>");
                    let num = |n: &str| tag(&text, n).and_then(|x| x.parse::<u16>().ok()).unwrap_or(0);
                    let mut m = Mapping {
                        udp: tag(&text, "NewProtocol") == Some("UDP"),
                        client: tag(&text, "NewInternalClient").unwrap_or("").to_string(),
                        internal: num("NewInternalPort"),
                        external: num("NewExternalPort"),
                        lease: tag(&text, "NewLeaseDuration").unwrap_or("").to_string(),
                        enabled: tag(&text, "NewEnabled").unwrap_or("").to_string(),
                    };
                    let used = mappings.lock().unwrap().iter().any(|o| o.udp == m.udp && o.external == m.external);
                    match &kind {
                        Kind::Refuses => fault(606),
                        Kind::RefusesUdp if m.udp => fault(606),
                        Kind::Asked(k) if refused < *k => {
                            refused += 1;
                            fault(718)
                        }
                        Kind::Same if m.external != m.internal => fault(724),
                        _ if used && !any => fault(718),
                        _ => {
                            if any {
                                // tells TCP and UDP apart
                                m.external = rr.range(2_000, 30_000) as u16 * 2 + m.udp as u16;
                            }
                            let b = if any { format!("<NewReservedPort>{}</NewReservedPort>", m.external) } else { String::new() };
                            let act = if any { "AddAnyPortMapping" } else { "AddPortMapping" };
                            mappings.lock().unwrap().push(m);
                            (200, format!("<?xml version=\"1.0\"?><s:Envelope xmlns:s=\"http://schemas.xmlsoap.org/soap/envelope/\"><s:Body><u:{act}Response xmlns:u=\"urn:schemas-upnp-org:service:{service}\">{b}</u:{act}Response></s:Body></s:Envelope>"))
                        }
                    }
                }
                _ => (404, String::new()),
            };
            let _ = s0.write_all(format!("HTTP/1.1 {status} X\r\nContent-Type: text/xml\r\nContent-Length: {}\r\nConnection: close\r\n\r\n{body}", body.len()).as_bytes());
        }
    });
    g.threads.push(t);
    g
}

// ---------------------------------------------------------------- the program

struct Program {
    child: Child,
    out: PathBuf,
    started: Instant,
}

impl Program {
    fn start(program: &Path, home: &Path, base: &Path, torrent: &Path, out: PathBuf, long: bool) -> Self {
        let f = std::fs::File::create(&out).unwrap();
        let mut c = Command::new(program);
        c.arg(if long { "--file" } else { "-f" }).arg(torrent);
        c.env_clear().env("HOME", home).env("NARGUN_VERIF_DIR", base).env("PATH", "/usr/bin:/bin");
        c.current_dir(home).stdin(Stdio::null()).stdout(f.try_clone().unwrap()).stderr(f);
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let child = c.spawn().unwrap_or_else(|e| inconclusive(&format!("can't start the program: {e}")));
        Self { child, out, started: Instant::now() }
    }
    fn ended(&mut self) -> Option<std::process::ExitStatus> {
        self.child.try_wait().ok().flatten()
    }
    /// waits for a signal instead of being ended by it
    fn handles_interrupt(&self) -> bool {
        let t = std::fs::read_to_string(format!("/proc/{}/status", self.child.id())).unwrap_or_default();
        t.lines().find_map(|l| l.strip_prefix("SigCgt:")).and_then(|x| u64::from_str_radix(x.trim(), 16).ok()).map(|x| x & (1 << (libc::SIGINT - 1)) != 0).unwrap_or(false)
    }
    fn interrupt(&self) {
        unsafe {
            libc::kill(self.child.id() as i32, libc::SIGINT);
        }
    }
    fn said(&self) -> String {
        std::fs::read_to_string(&self.out).unwrap_or_default()
    }
    fn panics(&self) -> Option<String> {
        let t = self.said();
        let p = t.find("panicked at")?;
        Some(t[p..].chars().take(300).collect())
    }
}

impl Drop for Program {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Clone, Debug)]
struct Heard {
    at: Instant,
    params: HashMap<String, Vec<u8>>,
    peers_given: usize,
}

impl Heard {
    fn event(&self) -> String {
        self.params.get("event").map(|x| String::from_utf8_lossy(x).to_string()).unwrap_or_default()
    }
    fn text(&self, k: &str) -> String {
        self.params.get(k).map(|x| String::from_utf8_lossy(x).to_string()).unwrap_or_else(|| "nothing".into())
    }
}

fn unescape(x: &str) -> Vec<u8> {
    let b = x.as_bytes();
    let mut v = Vec::new();
    let mut k = 0;
    while k < b.len() {
        match (b[k], x.get(k + 1..k + 3).and_then(|h| u8::from_str_radix(h, 16).ok())) {
            (b'%', Some(c)) => {
                v.push(c);
                k += 3;
            }
            (c, _) => {
                v.push(c);
                k += 1;
            }
        }
    }
    v
}

async fn tracker(l: tokio::net::TcpListener, interval: u64, give: Arc<Mutex<Vec<SocketAddrV4>>>, log: Arc<Mutex<Vec<Heard>>>) {
    loop {
        let Ok((mut s0, _)) = l.accept().await else { continue };
        let (give, log) = (give.clone(), log.clone());
        tokio::spawn(async move {
            let mut buf = Vec::new();
            let mut t = [0u8; 4096];
            while !buf.windows(4).any(|w| w == b"\r\n\r\n") {
                match s0.read(&mut t).await {
                    Ok(0) | Err(_) => return,
                    Ok(n) => buf.extend_from_slice(&t[..n]),
                }
            }
            let text = String::from_utf8_lossy(&buf).to_string();
            let path = text.split(' ').nth(1).unwrap_or("").to_string();
            let q = path.split_once('?').map(|x| x.1).unwrap_or("");
            let params = q.split('&').filter_map(|p| p.split_once('=')).map(|(a, b)| (a.to_string(), unescape(b))).collect();
            let g = give.lock().unwrap().clone();
            log.lock().unwrap().push(Heard { at: Instant::now(), params, peers_given: g.len() });
            let peers: Vec<u8> = g.iter().flat_map(|a| a.ip().octets().into_iter().chain(a.port().to_be_bytes()).collect::<Vec<_>>()).collect();
            let b = dict(vec![("interval", i(interval as i128)), ("complete", i(1)), ("incomplete", i(1)), ("peers", s(peers))]).encode();
            let mut a = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", b.len()).into_bytes();
            a.extend(b);
            let _ = s0.write_all(&a).await;
            let _ = s0.shutdown().await;
        });
    }
}

/// nodes of the DHT: the first one knows the second, who knows the peers
struct Nodes {
    socks: [UdpSocket; 2],
    ids: [[u8; 20]; 2],
    knows_peers: bool,
    hash: [u8; 20],
    seeds: Vec<SocketAddrV4>,
    /// of queries of the program: kind, its id, port that is announced
    heard: Vec<(usize, Instant, String, Vec<u8>, Option<i128>)>,
    pongs: usize,
    program: Option<std::net::SocketAddr>,
}

fn compact(a: SocketAddrV4) -> Vec<u8> {
    [&a.ip().octets()[..], &a.port().to_be_bytes()[..]].concat()
}

impl Nodes {
    fn addr(&self, k: usize) -> SocketAddrV4 {
        match self.socks[k].local_addr().unwrap() {
            std::net::SocketAddr::V4(a) => a,
            _ => unreachable!(),
        }
    }
    fn ping(&self, udp_port: u16) {
        let b = dict(vec![("t", s("pi")), ("y", s("q")), ("q", s("ping")), ("a", dict(vec![("id", s(self.ids[0]))]))]).encode();
        let _ = self.socks[0].send_to(&b, ("127.0.0.1", udp_port));
    }
    fn pump(&mut self) {
        for k in 0..2 {
            let mut buf = [0u8; 4096];
            while let Ok((m, from)) = self.socks[k].recv_from(&mut buf) {
                let Some(q) = B::decode(&buf[..m]) else { continue };
                let Some(tid) = q.get("t").and_then(|t| t.str()).map(|t| t.to_vec()) else { continue };
                let Some(kind) = q.get("q").and_then(|x| x.str()).map(|x| String::from_utf8_lossy(x).to_string()) else {
                    if tid == b"pi" && q.get("r").is_some() {
                        self.pongs += 1;
                    }
                    continue;
                };
                self.program = Some(from);
                let a = q.get("a");
                let id = a.and_then(|a| a.get("id")).and_then(|x| x.str()).unwrap_or(b"").to_vec();
                let port = a.and_then(|a| a.get("port")).and_then(|x| x.int());
                let ours = a.and_then(|a| a.get("info_hash")).and_then(|x| x.str()).map(|h| h == &self.hash[..]);
                let mut resp = dict(vec![("id", s(self.ids[k]))]);
                match kind.as_str() {
                    "find_node" => resp.set("nodes", s("")),
                    "get_peers" => {
                        resp.set("token", s(format!("tok{k}")));
                        if k == 0 {
                            resp.set("nodes", s([self.ids[1].to_vec(), compact(self.addr(1))].concat()));
                        } else if self.knows_peers {
                            resp.set("values", B::List(self.seeds.iter().map(|p| s(compact(*p))).collect()));
                        } else {
                            resp.set("nodes", s(""));
                        }
                    }
                    "announce_peer" => {
                        let tok = a.and_then(|a| a.get("token")).and_then(|x| x.str()).unwrap_or(b"");
                        if tok != format!("tok{k}").as_bytes() {
                            violation("token", &format!("announced with a token of somebody else: {}", show(&buf[..m])));
                        }
                    }
                    _ => (),
                }
                if ours == Some(false) {
                    violation("other-torrent", &format!("the program asks for a torrent it wasn't given: {}", show(&buf[..m])));
                }
                self.heard.push((k, Instant::now(), kind, id, port));
                let b = dict(vec![("t", s(tid)), ("y", s("r")), ("r", resp)]).encode();
                let _ = self.socks[k].send_to(&b, from);
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Until {
    /// the download is complete and some seconds passed
    Complete,
    /// that many milliseconds after it's ready to be interrupted
    Ready(u64),
    /// something is stored
    Some,
}

struct Setup<'a> {
    c: Arc<Content>,
    program: &'a Path,
    dir: &'a Path,
    torrent: PathBuf,
    logs: Vec<Arc<Mutex<Vec<Heard>>>>,
    intervals: Vec<u64>,
    desc: String,
}

fn session(r: &mut Rng, program: &Path, dir: &Path) {
    let kind = match r.below(10) {
        0 => Kind::Refuses,
        1 => Kind::RefusesUdp,
        2 => Kind::Same,
        3..=5 => Kind::Asked(r.urange(0, 12)),
        _ => Kind::Any,
    };
    let kind = if r.one_in(25) { Kind::Absent } else { kind };
    let c = Arc::new(loop {
        let max = *r.pick(&[1_000usize, 40_000, 300_000, 900_000]);
        let multi = r.bool();
        let c = gen(r, max, multi);
        if c.pieces() <= 60 && c.data.iter().take(50).any(|x| *x != 0) {
            break c;
        }
    });
    std::fs::create_dir_all(dir.join("home")).unwrap();
    std::fs::create_dir_all(dir.join("data")).unwrap();
    let way = *r.pick(&["tracker", "tracker", "dht"]);
    let nt = r.urange(1, 3);
    let intervals: Vec<u64> = (0..nt).map(|_| *r.pick(&[3u64, 60, 600])).collect();
    let broken = r.one_in(16);
    let slow = r.one_in(3);
    let desc = format!("gateway {kind:?}, {} found by {way}, trackers every {intervals:?} s{}{}", c.describe(), if broken { ", torrent is broken" } else { "" }, if slow { ", slow peers" } else { "" });
    set_context(desc.clone());
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut rr = r.fork();
    let seed_count = r.urange(1, 3);
    let until = match r.below(4) {
        0 => Until::Ready(r.range(0, 9_000)),
        1 => Until::Some,
        _ => Until::Complete,
    };
    let again = r.bool();
    let long = r.bool();
    rt.block_on(async {
        let vstart = tokio::time::Instant::now();
        let np = c.pieces();
        let mut peers = Vec::new();
        for _ in 0..seed_count {
            let mut cfg = Cfg::honest(vec![true; np]);
            if slow {
                cfg.delay = rr.range(1, 12) as f64 / 10.0;
            }
            peers.push(FakePeer::spawn(vstart, c.clone(), cfg, rr.fork()).await);
        }
        let sock = |a: &str| net::udp(a.parse().unwrap());
        let mut nodes = Nodes {
            socks: [sock("127.0.0.1"), sock("127.9.9.9")],
            ids: [rr.id(), rr.id()],
            knows_peers: way == "dht",
            hash: c.info_hash(),
            seeds: peers.iter().map(|p| p.addr).collect(),
            heard: Vec::new(),
            pongs: 0,
            program: None,
        };
        // has nothing but knows a node of the DHT
        let gl = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        let std::net::SocketAddr::V4(guide) = gl.local_addr().unwrap() else { unreachable!() };
        let (hash, gport, gid) = (c.info_hash(), nodes.addr(0).port(), rr.id());
        tokio::spawn(async move {
            loop {
                let Ok((mut s0, _)) = gl.accept().await else { continue };
                tokio::spawn(async move {
                    let mut hs = [0u8; 68];
                    if s0.read_exact(&mut hs).await.is_err() {
                        return;
                    }
                    let mut a = nv::fakepeer::handshake(&hash, &gid, [0, 0, 0, 0, 0, 0, 0, 1]);
                    a.extend(W::Port(gport).enc());
                    let _ = s0.write_all(&a).await;
                    let mut b = [0u8; 1000];
                    while !matches!(s0.read(&mut b).await, Ok(0) | Err(_)) {}
                });
            }
        });
        let mut given = vec![guide];
        if way == "tracker" {
            given.extend(peers.iter().map(|p| p.addr));
        }
        let give = Arc::new(Mutex::new(given));
        let (mut logs, mut urls) = (Vec::new(), Vec::new());
        for k in 0..nt {
            let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
            urls.push(format!("http://{}/announce{}", l.local_addr().unwrap(), if k == 1 { "?key=a" } else { "" }));
            let log: Arc<Mutex<Vec<Heard>>> = Arc::default();
            logs.push(log.clone());
            tokio::spawn(tracker(l, intervals[k], give.clone(), log));
        }
        let torrent = dir.join("it.torrent");
        let mut bytes = c.torrent(&urls);
        if broken {
            let k = rr.urange(1, bytes.len() - 1);
            bytes.truncate(k);
        }
        std::fs::write(&torrent, &bytes).unwrap();
        let su = Setup { c: c.clone(), program, dir, torrent, logs, intervals: intervals.clone(), desc: desc.clone() };
        if broken || matches!(kind, Kind::Absent | Kind::Refuses | Kind::RefusesUdp) {
            let g = gateway(&mut rr, kind.clone());
            refused(&su, &mut nodes, broken, long).await;
            drop(g);
        } else {
            let g = gateway(&mut rr, kind.clone());
            let own = run(&su, &mut nodes, &peers, &g, until, &mut rr, None, long).await;
            drop(g);
            tokio::time::sleep(Duration::from_millis(250)).await;
            if let (Some(own), true) = (own, again) {
                // nobody tells about any peer or node: what it knows is what it kept
                give.lock().unwrap().clear();
                nodes.knows_peers = true;
                for l in &su.logs {
                    l.lock().unwrap().clear();
                }
                nodes.heard.clear();
                let until = if rr.bool() { Until::Complete } else { Until::Ready(rr.range(0, 15_000)) };
                let g = gateway(&mut rr, kind.clone());
                run(&su, &mut nodes, &peers, &g, until, &mut rr, Some(own), !long).await;
                tokio::time::sleep(Duration::from_millis(250)).await;
            }
        }
        for p in &peers {
            p.stop();
        }
    });
    rt.shutdown_background();
    eval(Some(hash_of(desc.as_bytes())));
    sample("session", || desc.clone());
}

/// there's nothing it could do, so it says so and leaves
async fn refused(su: &Setup<'_>, nodes: &mut Nodes, broken: bool, long: bool) {
    let mut p = Program::start(su.program, &su.dir.join("home"), &su.dir.join("data"), &su.torrent, su.dir.join("out"), long);
    let mut status = None;
    while p.started.elapsed().as_secs() < 60 {
        tokio::time::sleep(Duration::from_millis(30)).await;
        beat();
        nodes.pump();
        status = p.ended();
        if status.is_some() {
            break;
        }
    }
    match status {
        None => violation("goes-on", &format!("still runs a minute after the start: {}", su.desc)),
        Some(x) if x.success() => violation("no-error", &format!("ended as if all was well: {}", su.desc)),
        Some(_) => count(if broken { "broken_torrents" } else { "no_gateway" }, 1),
    }
    if su.logs.iter().any(|l| !l.lock().unwrap().is_empty()) {
        violation("announced", &format!("a tracker was told about a download that can't be: {}", su.desc));
    }
    for f in files_under(&su.dir.join("data")) {
        violation("left-behind", &format!("{} was created: {}", f.display(), su.desc));
    }
}

fn stored(c: &Content, base: &Path) -> usize {
    (0..c.pieces()).filter(|p| c.compare_on_disk(base, p * c.piece_length, (p * c.piece_length + c.piece(*p).len()).min(c.data.len())).is_ok()).count()
}

/// what the first run identified itself with in the DHT
struct Own {
    id: Vec<u8>,
    knew_node: bool,
    was_complete: bool,
}

async fn run(su: &Setup<'_>, nodes: &mut Nodes, peers: &[FakePeer], g: &Gateway, until: Until, r: &mut Rng, before: Option<Own>, long: bool) -> Option<Own> {
    let (c, data, home) = (&su.c, su.dir.join("data"), su.dir.join("home"));
    let which = if before.is_some() { "second run" } else { "first run" };
    let desc = format!("{which}, {until:?}: {}", su.desc);
    set_context(desc.clone());
    let mut p = Program::start(su.program, &home, &data, &su.torrent, su.dir.join(format!("out{}", before.is_some() as u8)), long);
    let accepted = |peers: &[FakePeer]| peers.iter().map(|p| p.log().iter().filter(|e| matches!(e.1, Ev::Handshake(..))).count()).sum::<usize>();
    let already = accepted(peers);
    let (mut ready, mut complete, mut interrupted): (Option<Instant>, Option<Instant>, Option<Instant>) = (None, None, None);
    let mut status;
    let mut last_ping = Instant::now();
    nodes.pongs = 0;
    let (mut ready_pinged, mut at_interrupt) = (false, 0);
    // a piece that is stored is rewritten with the same bytes at most
    let kept = before.as_ref().map(|b| b.was_complete).unwrap_or(false);
    let extra = r.range(8_000, 12_000);
    loop {
        tokio::time::sleep(Duration::from_millis(25)).await;
        beat();
        nodes.pump();
        status = p.ended();
        if status.is_some() {
            break;
        }
        let now = Instant::now();
        if ready.is_none() && p.handles_interrupt() {
            ready = Some(now);
        }
        // DHT listens on the port that is forwarded
        let udp = g.mappings.lock().unwrap().iter().find(|m| m.udp).map(|m| m.internal);
        if let (Some(udp), Some(_)) = (udp, ready) {
            if interrupted.is_none() && last_ping.elapsed().as_millis() > 300 && nodes.pongs < 3 {
                last_ping = now;
                nodes.ping(udp);
                ready_pinged = true;
            }
        }
        if complete.is_none() {
            if c.compare_complete(&data).is_ok() {
                complete = Some(now);
            }
        } else if !su.desc.is_empty() && r.one_in(10) && c.compare_complete(&data).is_err() {
            violation("damaged", &format!("what was complete isn't any more: {desc}"));
        }
        if interrupted.is_none() {
            let go = match until {
                Until::Ready(ms) => ready.map(|t| t.elapsed().as_millis() as u64 >= ms).unwrap_or(false),
                Until::Some => ready.is_some() && (stored(c, &data) > 0 || p.started.elapsed().as_secs() > 60),
                // after that another run has nothing that it would have to get, except that it does
                Until::Complete if kept => ready.map(|t| t.elapsed().as_millis() as u64 >= 16_000 + extra).unwrap_or(false),
                Until::Complete => complete.map(|t| t.elapsed().as_millis() as u64 >= extra).unwrap_or(false),
            };
            if go {
                at_interrupt = stored(c, &data);
                p.interrupt();
                interrupted = Some(Instant::now());
            }
            if p.started.elapsed().as_secs() > 100 {
                break;
            }
        } else if interrupted.unwrap().elapsed().as_secs() > 30 {
            break;
        }
    }
    nodes.pump();
    let said = p.said();
    if let Some(x) = p.panics() {
        violation("panic", &format!("{x}: {desc}"));
    }
    let tail: String = said.chars().rev().take(600).collect::<Vec<_>>().into_iter().rev().collect();
    // 1. how it ended
    match (status, interrupted) {
        (Some(x), None) => {
            violation("ended", &format!("the program ended on its own ({x:?}): {desc}: {tail}"));
            return None;
        }
        (None, None) => violation("incomplete", &format!("100 s and {} of {} pieces are stored: {desc}", stored(c, &data), c.pieces())),
        (None, Some(_)) => violation("no-end", &format!("still runs 30 s after it was interrupted: {desc}")),
        (Some(x), Some(t)) if !x.success() => violation("bad-end", &format!("interrupted, it ended with {x:?} after {:.1} s: {desc}: {tail}", t.elapsed().as_secs_f64())),
        (Some(_), Some(_)) => count("interrupted", 1),
    }
    // 2. forwarded ports
    let ms = g.mappings.lock().unwrap().clone();
    let tcp: Vec<&Mapping> = ms.iter().filter(|m| !m.udp).collect();
    let udp: Vec<&Mapping> = ms.iter().filter(|m| m.udp).collect();
    if tcp.len() != 1 || udp.len() != 1 || ms.iter().any(|m| m.client != OWN_IP || m.internal == 0 || m.enabled != "1" || m.lease != "0") {
        violation("mappings", &format!("the gateway was asked for {ms:?}: {desc}"));
    }
    count("mappings", ms.len() as u64);
    let port = tcp.first().map(|m| m.external).unwrap_or(0);
    if ready_pinged && nodes.pongs == 0 && ready.map(|t| t.elapsed().as_secs() > 12).unwrap_or(false) {
        violation("no-pong", &format!("nobody answers on UDP port {:?}: {desc}", udp.first().map(|m| m.internal)));
    }
    count("pongs", nodes.pongs as u64);
    // 3. what trackers heard
    let ran = interrupted.map(|t| (t - p.started).as_secs_f64()).unwrap_or(0.0);
    let mut ids: Vec<Vec<u8>> = Vec::new();
    for (k, l) in su.logs.iter().enumerate() {
        let l = l.lock().unwrap().clone();
        let story = l.iter().map(|h| format!("{:.1}:{}:left={}:port={}", (h.at - p.started).as_secs_f64(), h.event(), h.text("left"), h.text("port"))).collect::<Vec<_>>().join(" ");
        let Some(first) = l.first() else {
            if ready.map(|t| interrupted.map(|i| (i - t).as_secs() > 10).unwrap_or(false)).unwrap_or(false) {
                violation("not-announced", &format!("tracker {k} heard nothing in {ran:.0} s: {desc}"));
            }
            continue;
        };
        count("announces", l.len() as u64);
        if first.event() != "started" {
            violation("events", &format!("tracker {k} heard of something that wasn't started: {story}: {desc}"));
        }
        for h in &l {
            if h.text("port") != port.to_string() {
                violation("port", &format!("tracker {k} was told port {}, the gateway forwards {port}: {story}: {desc}", h.text("port")));
                break;
            }
            if h.params.get("info_hash").map(|x| x != &c.info_hash()[..]).unwrap_or(true) {
                violation("info-hash", &format!("tracker {k} was told another torrent: {story}: {desc}"));
                break;
            }
            let id = h.params.get("peer_id").cloned().unwrap_or_default();
            if !ids.contains(&id) {
                ids.push(id);
            }
        }
        let at = |e: &str| l.iter().filter(|h| h.event() == e).map(|h| h.at).collect::<Vec<_>>();
        if let (Some(done), Until::Complete, false) = (complete, until, kept) {
            let told = at("completed");
            if told.len() != 1 || told[0] > done + Duration::from_secs(6) {
                violation("completed", &format!("complete after {:.1} s, tracker {k} heard: {story}: {desc}", (done - p.started).as_secs_f64()));
            } else {
                count("told_completed", 1);
            }
        }
        let stopped = at("stopped");
        // its first announce was surely answered
        let knows = |t: Instant| first.at + Duration::from_secs(2) < t;
        if let (true, Some(t)) = (status.is_some(), interrupted.filter(|t| knows(*t))) {
            // an announce that was given up because of the interrupt may be read later
            let after = l.iter().any(|h| h.event() != "stopped" && stopped.first().map(|s| h.at > *s + Duration::from_secs(1)).unwrap_or(false));
            if stopped.len() != 1 || stopped[0] < t || after {
                violation("stopped", &format!("interrupted after {ran:.1} s, tracker {k} heard: {story}: {desc}"));
            } else {
                count("told_stopped", 1);
            }
        }
        count("given", l.iter().map(|h| h.peers_given as u64).sum());
    }
    // 4. one and the same everywhere
    for e in peers.iter().flat_map(|p| p.log().into_iter().skip(0)).filter_map(|e| if let Ev::Handshake(_, h) = e.1 { Some(h) } else { None }).skip(already) {
        if h_id(&e).map(|id| !ids.contains(&id)).unwrap_or(true) && before.is_none() && !ids.is_empty() {
            violation("peer-id", &format!("a peer and trackers saw different ids: {desc}"));
            break;
        }
    }
    if ids.len() > 1 {
        violation("peer-id", &format!("{} ids in one run: {desc}", ids.len()));
    }
    // 5. the DHT
    let dht_ids: std::collections::HashSet<Vec<u8>> = nodes.heard.iter().map(|h| h.3.clone()).collect();
    if dht_ids.len() > 1 {
        violation("dht-id", &format!("{} ids in one run: {desc}", dht_ids.len()));
    }
    for h in nodes.heard.iter().filter(|h| h.2 == "announce_peer") {
        count("dht_announces", 1);
        if h.4 != Some(port as i128) {
            violation("port", &format!("node {} was told port {:?}, the gateway forwards {port}: {desc}", h.0, h.4));
            break;
        }
    }
    count("dht_queries", nodes.heard.len() as u64);
    let id = dht_ids.iter().next().cloned();
    let table = home.join(".nargun").join("dht");
    if status.is_some() && !table.exists() {
        violation("not-kept", &format!("what it knows about the DHT isn't there after the end: {desc}"));
    }
    for f in files_under(&home) {
        if f != table {
            violation("left-behind", &format!("{} was created: {desc}", f.display()));
        }
    }
    let met = nodes.heard.iter().any(|h| h.0 == 0 && interrupted.map(|t| h.1 + Duration::from_secs(2) < t).unwrap_or(false));
    if let Some(b) = &before {
        if b.knew_node {
            let heard = nodes.heard.iter().find(|h| h.0 == 0);
            match heard {
                None if ready.map(|t| interrupted.map(|i| (i - t).as_secs() >= 8).unwrap_or(false)).unwrap_or(false) => {
                    violation("forgotten", &format!("a node that it knew wasn't asked for {ran:.0} s: {desc}"));
                }
                Some(h) => {
                    if h.3 != b.id {
                        violation("dht-id", &format!("another id than in the run before: {desc}"));
                    }
                    count("remembered", 1);
                }
                _ => (),
            }
            if matches!(until, Until::Complete) && accepted(peers) == already {
                violation("not-found", &format!("{ran:.0} s, the node that it knew knows all peers, none was connected to: {desc}"));
            }
        }
    }
    // 6. the data
    let now = stored(c, &data);
    if now < at_interrupt {
        violation("lost", &format!("{at_interrupt} pieces were stored when it was interrupted, {now} after the end: {desc}"));
    }
    if complete.is_some() {
        count("completed", 1);
        if let Err(e) = c.compare_complete(&data) {
            violation("damaged", &format!("{e} after the end: {desc}"));
        }
    }
    count("runs", 1);
    eval(Some(hash_of(desc.as_bytes())));
    status.filter(|x| x.success())?;
    Some(Own { knew_node: met && id.is_some(), id: id.unwrap_or_default(), was_complete: complete.is_some() })
}

fn h_id(h: &[u8]) -> Option<Vec<u8>> {
    (h.len() >= 68).then(|| h[48..68].to_vec())
}
