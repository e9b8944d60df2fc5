//! Monitors of the DHT node: a network of fake nodes on 127/8 in a network namespace of its own, virtual time.
use n::data_structures::ID;
use n::dht::start_dht;
use n::peers::active_peers::{Peers, Status};
use n::peers::peer::Peer;
use n::shutdown;
use nargun::verif as n;
use nv::bencode::{arbitrary, dict, i, mutate, s, B};
use nv::kad::{class, distance, id_in_class, Id, Known, Table, K, VALID_SECS};
use nv::vt::Virtual;
use nv::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4, UdpSocket};
use std::path::Path;
use tokio::sync::mpsc;

const CLIENT: &str = "127.0.0.1:46493";
const STEP: f64 = 0.25;

fn main() {
    let a = Args::parse();
    if !net::own_network() {
        inconclusive("no network of its own");
    }
    install_panic_monitor();
    install_hang_monitor(120);
    let mut r = a.rng();
    let scratch = net::Scratch::new("dht");
    std::env::set_var("HOME", scratch.path());
    for _ in 0..a.num("rounds", 10) {
        beat();
        let mut r = r.fork();
        forget(scratch.path());
        match a.property.as_str() {
            "D02" => d02(&mut r),
            "D03" => d03(&mut r),
            "D04" => d04(&mut r),
            "D07" => d07(&mut r),
            "D08" => d08(&mut r),
            "D09" => d09(&mut r),
            "D10" => d10(&mut r),
            x => inconclusive(&format!("unknown property {x}")),
        }
        if violation_count() > 20 {
            break;
        }
    }
    scratch.cleanup();
    finish()
}

fn forget(home: &Path) {
    let _ = std::fs::remove_dir_all(home.join(".nargun"));
}

type Addr = SocketAddrV4;

fn decode(b: &[u8]) -> Option<B> {
    B::decode(b)
}

fn compact(a: &Addr) -> Vec<u8> {
    let mut v = a.ip().octets().to_vec();
    v.extend_from_slice(&a.port().to_be_bytes());
    v
}

fn compact_nodes(v: &[(Id, Addr)]) -> Vec<u8> {
    v.iter().flat_map(|(i, a)| [i.to_vec(), compact(a)].concat()).collect()
}

fn parse_nodes(b: &[u8]) -> Option<Vec<(Id, Addr)>> {
    if b.len() % 26 != 0 {
        return None;
    }
    Some(b.chunks(26).map(|c| (c[..20].try_into().unwrap(), parse_addr(&c[20..]))).collect())
}

fn parse_addr(c: &[u8]) -> Addr {
    SocketAddrV4::new(Ipv4Addr::new(c[0], c[1], c[2], c[3]), u16::from_be_bytes([c[4], c[5]]))
}

#[derive(Clone, Debug, PartialEq)]
enum Q {
    Ping,
    FindNode(Id),
    GetPeers(Id),
    Announce { hash: Id, port: i128, token: Vec<u8> },
}

#[derive(Clone, Debug)]
enum Msg {
    Query { tid: Vec<u8>, id: Id, q: Q },
    Resp { tid: Vec<u8>, r: B },
    Error { tid: Vec<u8> },
    Bad(String),
}

fn parse(b: &[u8]) -> Msg {
    let Some(m) = decode(b) else { return Msg::Bad(format!("no bencode: {}", show(b))) };
    if m.encode() != b {
        return Msg::Bad(format!("not canonical: {}", show(b)));
    }
    let tid = m.get("t").and_then(|t| t.str()).map(|t| t.to_vec());
    let Some(tid) = tid else { return Msg::Bad(format!("no transaction id: {}", show(b))) };
    match m.get("y").and_then(|y| y.str()) {
        Some(b"e") => Msg::Error { tid },
        Some(b"r") => match m.get("r") {
            Some(r @ B::Dict(_)) => Msg::Resp { tid, r: r.clone() },
            _ => Msg::Bad(format!("response without r: {}", show(b))),
        },
        Some(b"q") => {
            let id20 = |k: &str| m.get("a").and_then(|a| a.get(k)).and_then(|x| x.str()).and_then(|x| Id::try_from(x).ok());
            let q = match m.get("q").and_then(|x| x.str()) {
                Some(b"ping") => Some(Q::Ping),
                Some(b"find_node") => id20("target").map(Q::FindNode),
                Some(b"get_peers") => id20("info_hash").map(Q::GetPeers),
                Some(b"announce_peer") => (|| {
                    let a = m.get("a")?;
                    Some(Q::Announce { hash: id20("info_hash")?, port: a.get("port")?.int()?, token: a.get("token")?.str()?.to_vec() })
                })(),
                _ => None,
            };
            match (q, id20("id")) {
                (Some(q), Some(id)) => Msg::Query { tid, id, q },
                _ => Msg::Bad(format!("query that isn't one: {}", show(b))),
            }
        }
        _ => Msg::Bad(format!("no type: {}", show(b))),
    }
}

fn query(tid: &[u8], id: &Id, q: &Q, extra: Option<&mut Rng>) -> Vec<u8> {
    let (name, mut args) = match q {
        Q::Ping => ("ping", dict(vec![])),
        Q::FindNode(t) => ("find_node", dict(vec![("target", s(t))])),
        Q::GetPeers(t) => ("get_peers", dict(vec![("info_hash", s(t))])),
        Q::Announce { hash, port, token } => ("announce_peer", dict(vec![("info_hash", s(hash)), ("port", i(*port)), ("token", s(token))])),
    };
    args.set("id", s(id));
    let mut m = dict(vec![("t", s(tid)), ("y", s("q")), ("q", s(name))]);
    if let Some(r) = extra {
        // what other clients send, too
        if r.one_in(2) {
            m.set("v", s(r.bytes(4)));
        }
        if r.one_in(4) {
            m.set("ro", i(r.below(2) as i128));
        }
        if r.one_in(4) {
            args.set("want", B::List(vec![s("n4")]));
        }
        if matches!(q, Q::GetPeers(_)) && r.one_in(3) {
            args.set("noseed", i(1));
            args.set("scrape", i(0));
        }
        if matches!(q, Q::Announce { .. }) && r.one_in(3) {
            args.set("implied_port", i(0));
            args.set("name", s("x"));
        }
    }
    m.set("a", args);
    m.encode()
}

fn resp(tid: &[u8], id: &[u8], kv: Vec<(&str, B)>) -> Vec<u8> {
    let mut r = dict(kv);
    r.set("id", s(id));
    dict(vec![("t", s(tid)), ("y", s("r")), ("r", r)]).encode()
}

/// a socket of somebody else
struct Node {
    id: Id,
    sock: UdpSocket,
    addr: Addr,
}

impl Node {
    fn new(id: Id, ip: Ipv4Addr) -> Self {
        let sock = net::udp(ip);
        let SocketAddr::V4(addr) = sock.local_addr().unwrap() else { unreachable!() };
        Self { id, sock, addr }
    }
    fn send(&self, b: &[u8]) {
        if let Err(e) = self.sock.send_to(b, CLIENT) {
            // too long datagrams aren't sent
            if e.raw_os_error() != Some(libc::EMSGSIZE) {
                inconclusive(&format!("send: {e}"));
            }
        }
        count("datagrams_sent", 1);
    }
    fn recv(&self) -> Vec<Vec<u8>> {
        let mut v = Vec::new();
        let mut buf = [0u8; 8192];
        while let Ok((n, from)) = self.sock.recv_from(&mut buf) {
            if from.port() == 46493 {
                v.push(buf[..n].to_vec());
            }
        }
        v
    }
}

fn ip(k: usize) -> Ipv4Addr {
    Ipv4Addr::new(127, 1 + (k / 60000) as u8, (k / 250 % 240) as u8, (1 + k % 250) as u8)
}

/// everything about the client under observation
struct World {
    v: Virtual,
    nodes: Vec<Node>,
    own: Option<Id>,
    peers: Peers,
    hash: Id,
    tcp_port: u16,
    to_dht: mpsc::Sender<Addr>,
    stop: Option<shutdown::Sender>,
    // messages of the client that wait to be looked at: (time, node, message)
    inbox: Vec<(f64, usize, Msg)>,
    tids: HashSet<Vec<u8>>,
    // a node that never answers, and the transactions of the client that nobody answered
    mute: Option<usize>,
    unanswered: Vec<Vec<u8>>,
}

impl World {
    async fn start(r: &mut Rng) -> Self {
        let hash = r.id();
        Self::start_with(r, hash).await
    }
    async fn start_with(r: &mut Rng, hash: Id) -> Self {
        let v = Virtual::new(2);
        let peers = Peers::new(&ID::new(hash));
        let tcp_port = r.range(1, 65535) as u16;
        let (tx, rx) = mpsc::channel(64);
        let (stop, srx) = shutdown::channel();
        start_dht(tcp_port, peers.clone(), ID::new(hash), rx, srx).await;
        let mut w = Self { v, nodes: vec![], own: None, peers, hash, tcp_port, to_dht: tx, stop: Some(stop), inbox: vec![], tids: HashSet::new(), mute: None, unanswered: vec![] };
        w.v.settle(5).await;
        w.learn_own_id(r).await;
        w
    }

    async fn learn_own_id(&mut self, r: &mut Rng) {
        let probe = Node::new(r.id(), Ipv4Addr::new(127, 200, 0, 1));
        for _ in 0..20 {
            probe.send(&query(b"own", &probe.id, &Q::Ping, None));
            for _ in 0..20 {
                self.v.settle(2).await;
                for b in probe.recv() {
                    if let Msg::Resp { r, .. } = parse(&b) {
                        if let Some(id) = r.get("id").and_then(|x| x.str()).and_then(|x| Id::try_from(x).ok()) {
                            self.own = Some(id);
                            return;
                        }
                    }
                }
            }
        }
        violation("mute", "the node doesn't answer the first ping");
        self.own = Some([0; 20]);
    }

    fn own(&self) -> Id {
        self.own.unwrap()
    }

    fn add(&mut self, id: Id, ip: Ipv4Addr) -> usize {
        self.nodes.push(Node::new(id, ip));
        self.nodes.len() - 1
    }

    fn poll(&mut self) -> usize {
        let now = self.v.now();
        let mut n = 0;
        for k in 0..self.nodes.len() {
            for b in self.nodes[k].recv() {
                let m = parse(&b);
                if let Msg::Bad(e) = &m {
                    violation("malformed", &format!("the node sent something that isn't KRPC: {e}"));
                }
                if let Msg::Query { tid, id, .. } = &m {
                    if *id != self.own() {
                        violation("own-id", &format!("a query has the id {} instead of {}", hex(id), hex(&self.own())));
                    }
                    self.tids.insert(tid.clone());
                }
                self.inbox.push((now, k, m));
                n += 1;
            }
        }
        count("datagrams_received", n as u64);
        n
    }

    /// until nobody says anything, without any time passing; `answer` gets everything the client sends
    async fn quiet(&mut self, answer: &mut dyn FnMut(&mut World, f64, usize, Msg)) {
        let mut silent = 0;
        let mut total = 0;
        while silent < 3 {
            self.v.settle(2).await;
            if self.poll() == 0 {
                silent += 1;
            } else {
                silent = 0;
            }
            let inbox = std::mem::take(&mut self.inbox);
            total += inbox.len();
            for (t, k, m) in inbox {
                answer(self, t, k, m);
            }
            if total > 60_000 {
                violation("storm", "the node sends endlessly without any time passing");
                return;
            }
        }
    }

    async fn pass(&mut self, secs: f64, answer: &mut dyn FnMut(&mut World, f64, usize, Msg)) {
        let end = self.v.now() + secs;
        beat();
        while self.v.now() + 1e-6 < end {
            let d = STEP.min(end - self.v.now());
            self.v.pass(d, d).await;
            if self.poll() > 0 || !self.inbox.is_empty() {
                let inbox = std::mem::take(&mut self.inbox);
                for (t, k, m) in inbox {
                    answer(self, t, k, m);
                }
                self.quiet(answer).await;
            }
        }
    }

    async fn stop(mut self) {
        if let Some(s) = self.stop.take() {
            let w = s.send();
            let done = tokio::spawn(async move { w.wait().await });
            if !self.v.wait_for(&done, 20).await {
                violation("no-end", "the DHT node doesn't end after a shutdown");
            }
        }
        self.v.end();
    }
}

/// how a friendly node answers: with what `know` says
fn friendly(w: &mut World, k: usize, m: &Msg, table: Option<&mut Table>, nodes: &[(Id, Addr)], now: f64) {
    let Msg::Query { tid, q, .. } = m else { return };
    if w.mute == Some(k) {
        w.unanswered.push(tid.clone());
        return;
    }
    let n = &w.nodes[k];
    let b = match q {
        Q::Ping | Q::Announce { .. } => resp(tid, &n.id, vec![]),
        Q::FindNode(_) => resp(tid, &n.id, vec![("nodes", s(compact_nodes(nodes)))]),
        Q::GetPeers(_) => resp(tid, &n.id, vec![("token", s(b"tok")), ("nodes", s(compact_nodes(nodes)))]),
    };
    n.send(&b);
    if let (Some(t), Q::Ping | Q::FindNode(_)) = (table, q) {
        heard(t, n.id, n.addr, now);
    }
}

/// a node answered a question of ours
fn heard(t: &mut Table, id: Id, addr: Addr, now: f64) {
    if let Some(k) = t.nodes.get_mut(&id) {
        k.seen = Some(now);
    } else if t.has_place(&id, now) {
        t.nodes.insert(id, Known { addr, seen: Some(now) });
    }
}

fn node_ids(r: &mut Rng, own: &Id, n: usize) -> Vec<Id> {
    let spread = *r.pick(&[1usize, 2, 4, 8, 20]);
    let mut v: Vec<Id> = (0..n)
        .map(|_| {
            let c = r.idx(spread);
            id_in_class(r, own, c)
        })
        .collect();
    v.sort();
    v.dedup();
    r.shuffle(&mut v);
    v
}

async fn tell(w: &mut World, a: Addr) {
    if w.to_dht.send(a).await.is_err() {
        violation("ended", "the DHT node ended on its own");
    }
}

/// makes known `n` nodes that answer
async fn populate(w: &mut World, r: &mut Rng, t: &mut Table, n: usize) {
    let own = w.own();
    for id in node_ids(r, &own, n) {
        let k = w.nodes.len();
        let k = w.add(id, ip(k));
        let a = w.nodes[k].addr;
        tell(w, a).await;
        w.quiet(&mut |w, now, k, m| friendly(w, k, &m, Some(t), &[], now)).await;
    }
}

struct Asked {
    from: usize,
    tid: Vec<u8>,
    q: Q,
    answers: Vec<B>,
}

/// sends queries, collects what comes back; the client's own questions are answered meanwhile
async fn ask(w: &mut World, r: &mut Rng, t: &mut Table, qs: Vec<(usize, Q)>, extra: bool) -> Vec<Asked> {
    let mut asked: Vec<Asked> = Vec::new();
    let mut used: HashSet<(usize, Vec<u8>)> = HashSet::new();
    for (from, q) in qs {
        let tid = loop {
            let len = *r.pick(&[1usize, 2, 2, 2, 4, 5, 8, 16, 20]);
            // transactions of different nodes have nothing to do with each other
            let x = if !w.unanswered.is_empty() && r.one_in(5) {
                count("own_tids", 1);
                r.pick(&w.unanswered).clone()
            } else if r.one_in(5) {
                vec![b'a' + r.below(3) as u8; len]
            } else {
                r.bytes(len)
            };
            if used.insert((from, x.clone())) {
                break x;
            }
        };
        let b = query(&tid, &w.nodes[from].id, &q, if extra { Some(r) } else { None });
        w.nodes[from].send(&b);
        asked.push(Asked { from, tid, q, answers: vec![] });
    }
    let index: HashMap<(usize, Vec<u8>), usize> = asked.iter().enumerate().map(|(k, a)| ((a.from, a.tid.clone()), k)).collect();
    w.quiet(&mut |w, now, k, m| match m {
        Msg::Query { .. } => friendly(w, k, &m, Some(t), &[], now),
        Msg::Resp { tid, r } => match index.get(&(k, tid.clone())) {
            Some(x) => asked[*x].answers.push(r),
            None => violation("stray", &format!("a response to nothing: transaction {} at {}", hex(&tid), w.nodes[k].addr)),
        },
        Msg::Error { tid } => {
            // the token of an announce may be refused that way
            match index.get(&(k, tid)) {
                Some(x) if matches!(asked[*x].q, Q::Announce { .. }) => count("errors", 1),
                _ => violation("error-reply", "a valid query was answered with an error"),
            }
        }
        Msg::Bad(_) => (),
    })
    .await;
    asked
}

/// exactly one answer with our id
fn the_answer<'a>(w: &World, a: &'a Asked) -> Option<&'a B> {
    if a.answers.len() != 1 {
        violation("answers", &format!("{:?} from {} was answered {} times", a.q, w.nodes[a.from].addr, a.answers.len()));
    }
    let r = a.answers.first()?;
    if r.get("id").and_then(|x| x.str()) != Some(&w.own()[..]) {
        violation("own-id", &format!("{:?} was answered with the id {:?} instead of {}", a.q, r.get("id"), hex(&w.own())));
    }
    Some(r)
}

fn check_nodes(w: &World, t: &Table, a: &Asked, r: &B, target: &Id, exact: bool, now: f64) {
    let Some(v) = r.get("nodes").and_then(|x| x.str()).and_then(parse_nodes) else {
        violation("nodes", &format!("{:?} was answered without nodes: {:?}", a.q, r));
        return;
    };
    let got: BTreeSet<Id> = v.iter().map(|x| x.0).collect();
    let closest: BTreeSet<Id> = t.closest(target, now).into_iter().collect();
    let want: BTreeSet<Id> = if exact && t.nodes.contains_key(target) { [*target].into() } else { closest };
    let d = |x: &BTreeSet<Id>| x.iter().map(|x| hex(&distance(x, target)[..4])).collect::<Vec<_>>().join(",");
    if got != want || v.len() != got.len() {
        violation("nodes", &format!("{:?} was answered with distances {} instead of {} ({} nodes known, {} good)", a.q, d(&got), d(&want), t.nodes.len(), t.good(now).len()));
    }
    for (i, ad) in &v {
        if t.nodes.get(i).map(|k| k.addr) != Some(*ad) {
            violation("node-address", &format!("{} is told to be at {ad} instead of {:?}", hex(i), t.nodes.get(i)));
        }
    }
    let _ = w;
    count("node_answers", 1);
}

// ---------------------------------------------------------------- D02

fn d02(r: &mut Rng) {
    set_context("D02".into());
    vt::runtime().block_on(async {
        let mut w = World::start(r).await;
        let mut t = Table::new(w.own());
        let strangers: Vec<usize> = (0..r.urange(1, 5)).map(|k| {
            let id = r.id();
            w.add(id, ip(30_000 + k))
        }).collect();
        let n = if r.one_in(5) { 0 } else { r.urange(1, 40) };
        populate(&mut w, r, &mut t, n).await;
        let own_peers: BTreeSet<Vec<u8>> = (0..r.urange(0, 30)).map(|_| r.bytes(6)).collect();
        w.peers.clone().extend(own_peers.iter().map(|b| Peer::new(parse_addr(b))));
        let id = r.id();
        w.mute = Some(w.add(id, ip(29_999)));
        let mut sig = String::new();
        // long enough for nodes that aren't heard of to become questionable
        let long = r.one_in(3);
        for _ in 0..if long { r.urange(2, 4) } else { r.urange(2, 8) } {
            // questionable or not, that would be a matter of the last bit
            while t.nodes.values().any(|k| k.seen.map_or(false, |s| (w.v.now() - s - VALID_SECS).abs() < 1.0)) {
                w.pass(2.0, &mut |w, now, k, m| friendly(w, k, &m, Some(&mut t), &[], now)).await;
            }
            if r.bool() {
                let a = w.nodes[w.mute.unwrap()].addr;
                tell(&mut w, a).await;
                w.quiet(&mut |w, now, k, m| friendly(w, k, &m, Some(&mut t), &[], now)).await;
            }
            let many = *r.pick(&[1usize, 3, 10, 40, 100]);
            let everyone = w.nodes.len() - 1;
            let qs: Vec<(usize, Q)> = (0..many)
                .map(|_| {
                    let from = if r.bool() { *r.pick(&strangers) } else { r.idx(everyone) };
                    let target = match r.below(4) {
                        0 => r.id(),
                        1 if !t.nodes.is_empty() => {
                            let ids: Vec<Id> = t.nodes.keys().cloned().collect();
                            *r.pick(&ids)
                        }
                        2 => w.own(),
                        _ => {
                            let c = r.idx(12);
                            id_in_class(r, &t.own, c)
                        }
                    };
                    let q = match r.below(4) {
                        0 => Q::Ping,
                        1 => Q::GetPeers(if r.bool() { w.hash } else { target }),
                        _ => Q::FindNode(target),
                    };
                    (from, q)
                })
                .collect();
            let asked = ask(&mut w, r, &mut t, qs, true).await;
            let now = w.v.now();
            for a in &asked {
                let Some(x) = the_answer(&w, a) else { continue };
                match &a.q {
                    Q::Ping => count("pings", 1),
                    Q::FindNode(target) => {
                        check_nodes(&w, &t, a, x, target, true, now);
                        count("find_nodes", 1);
                    }
                    Q::GetPeers(h) => {
                        if x.get("token").and_then(|x| x.str()).is_none() {
                            violation("no-token", &format!("get_peers was answered without a token: {x:?}"));
                        }
                        if *h == w.hash && !own_peers.is_empty() {
                            let got: Option<Vec<Vec<u8>>> = x.get("values").and_then(|x| x.list()).map(|l| l.iter().filter_map(|x| x.str().map(|x| x.to_vec())).collect());
                            let set: BTreeSet<Vec<u8>> = got.clone().unwrap_or_default().into_iter().collect();
                            if set != own_peers || got.map(|g| g.len()) != Some(own_peers.len()) {
                                violation("values", &format!("get_peers for our torrent gives {} peers, {} are known", set.len(), own_peers.len()));
                            }
                            count("value_answers", 1);
                        } else {
                            check_nodes(&w, &t, a, x, h, true, now);
                        }
                        count("get_peers", 1);
                    }
                    Q::Announce { .. } => (),
                }
                eval(Some(hash_of(format!("{:?} {}", a.q, hex(&t.own)).as_bytes())));
            }
            sig.push_str(&format!("{many} queries, "));
            let d = if long { r.range(100, 900) } else { r.range(0, 40) } as f64;
            let silent: HashSet<usize> = if long && r.bool() { (0..w.nodes.len()).filter(|_| r.one_in(3)).collect() } else { HashSet::new() };
            w.pass(d, &mut |w, now, k, m| {
                if !silent.contains(&k) {
                    friendly(w, k, &m, Some(&mut t), &[], now)
                } else if let Msg::Query { tid, .. } = m {
                    w.unanswered.push(tid);
                }
            })
            .await;
            count("questionable", (t.nodes.len() - t.good(w.v.now()).len()) as u64);
        }
        sample("scenario", || format!("{} nodes known, {} peers, {sig}", t.nodes.len(), own_peers.len()));
        count("scenarios", 1);
        w.stop().await;
    });
}

// ---------------------------------------------------------------- D03

fn mutated(r: &mut Rng, mut b: Vec<u8>) -> Vec<u8> {
    mutate(r, &mut b);
    b
}

fn hostile(r: &mut Rng, w: &World, t: &Table) -> Vec<u8> {
    let tid = if !w.tids.is_empty() && r.one_in(3) {
        let v: Vec<&Vec<u8>> = w.tids.iter().collect();
        (*r.pick(&v)).clone()
    } else {
        let m = r.idx(12);
        r.bytes(m)
    };
    let id = r.id();
    let nodes: Vec<(Id, Addr)> = (0..r.idx(20)).map(|_| (r.id(), SocketAddrV4::new(Ipv4Addr::new(127, 99, r.u8(), r.u8()), 1 + r.below(65000) as u16))).collect();
    let good = match r.below(9) {
        0 => query(&tid, &id, &Q::Ping, Some(r)),
        1 => query(&tid, &id, &Q::FindNode(r.id()), Some(r)),
        2 => query(&tid, &id, &Q::GetPeers(if r.bool() { w.hash } else { r.id() }), Some(r)),
        3 => query(&tid, &id, &Q::Announce { hash: w.hash, port: r.edgy_u64() as i128, token: r.bytes(20) }, Some(r)),
        4 => resp(&tid, &id, vec![]),
        5 => resp(&tid, &id, vec![("nodes", s(compact_nodes(&nodes)))]),
        6 => resp(&tid, &id, vec![("token", s(r.bytes(8))), ("nodes", s(compact_nodes(&nodes)))]),
        7 => {
            let values: Vec<B> = (0..r.idx(30)).map(|_| s(r.bytes(6))).collect();
            resp(&tid, &id, vec![("token", s(r.bytes(8))), ("values", B::List(values))])
        }
        _ => dict(vec![("t", s(&tid)), ("y", s("e")), ("e", B::List(vec![i(201), s("no")]))]).encode(),
    };
    let _ = t;
    match r.below(8) {
        0 => {
            let m = r.idx(1500);
            r.bytes(m)
        }
        1 => {
            let mut x = arbitrary(r, 4).encode();
            x.truncate(2000);
            x
        }
        2 => {
            let mut x = good;
            let m = r.idx(x.len() + 1);
            x.truncate(m);
            x
        }
        3 => [good, { let m = r.idx(3000); vec![b'e'; m] }].concat(),
        4 => {
            // deep nesting
            let m = r.idx(2500);
            vec![*r.pick(&[b'l', b'd']); m]
        }
        5 => {
            // strange lengths
            format!("d1:ad2:id{}:{}e1:q4:ping1:t2:aa1:y1:qe", r.pick(&["20", "19", "99999999999999999999", "-1", "020", "0", "4294967296"]), "x".repeat(r.idx(40))).into_bytes()
        }
        _ => mutated(r, good),
    }
}

fn d03(r: &mut Rng) {
    set_context("D03".into());
    vt::runtime().block_on(async {
        let mut w = World::start(r).await;
        let mut t = Table::new(w.own());
        let evil: Vec<usize> = (0..r.urange(1, 4)).map(|k| {
            let id = r.id();
            w.add(id, ip(30_000 + k))
        }).collect();
        let n = r.urange(1, 20);
        populate(&mut w, r, &mut t, n).await;
        // a peer of a foreign torrent
        let foreign = r.id();
        let friend = *evil.last().unwrap();
        let a = ask(&mut w, r, &mut t, vec![(friend, Q::GetPeers(foreign))], false).await;
        let token = a[0].answers.first().and_then(|x| x.get("token")).and_then(|x| x.str()).map(|x| x.to_vec()).unwrap_or_default();
        let port = r.range(1, 65535) as i128;
        ask(&mut w, r, &mut t, vec![(friend, Q::Announce { hash: foreign, port, token })], false).await;
        let mut sig = String::new();
        for _ in 0..r.urange(1, 4) {
            let kind = r.below(5);
            let burst = match kind {
                0 => r.urange(300, 1500),
                _ => r.urange(20, 200),
            };
            for k in 0..burst {
                let from = *r.pick(&evil);
                let b = match kind {
                    // a flood of valid queries
                    0 => {
                        let id = r.id();
                        let q = match r.below(3) {
                            0 => Q::Ping,
                            1 => Q::FindNode(r.id()),
                            _ => Q::GetPeers(if r.bool() { w.hash } else { r.id() }),
                        };
                        query(&r.bytes(2), &id, &q, None)
                    }
                    _ => hostile(r, &w, &t),
                };
                if kind == 2 {
                    set_context(format!("hostile datagram {}", hex(&b[..b.len().min(300)])));
                }
                w.nodes[from].send(&b);
                count("hostile", 1);
                if k % 50 == 49 {
                    w.quiet(&mut |w, now, k, m| friendly(w, k, &m, Some(&mut t), &[], now)).await;
                }
            }
            // answers that are nonsense to questions that were really asked
            let until = r.range(2, 30) as f64;
            let mut rr = r.fork();
            w.pass(until, &mut |w, now, k, m| {
                if let (Msg::Query { tid, q, .. }, true) = (&m, rr.one_in(4)) {
                    let id = w.nodes[k].id;
                    let nodes: Vec<(Id, Addr)> = (0..rr.idx(12)).map(|_| (rr.id(), SocketAddrV4::new(Ipv4Addr::new(127, 99, rr.u8(), rr.u8()), 1 + rr.below(65000) as u16))).collect();
                    // a node that answers that way isn't counted upon
                    let b = match rr.below(5) {
                        0 => dict(vec![("t", s(tid)), ("y", s("e")), ("e", B::List(vec![i(203), s("Protocol Error")]))]).encode(),
                        1 => resp(tid, &id[..19], vec![]),
                        2 if !matches!(q, Q::FindNode(_)) => resp(tid, &id, vec![("nodes", s([compact_nodes(&nodes), vec![1, 2, 3]].concat()))]),
                        _ => mutated(&mut rr, resp(tid, &id, vec![("nodes", s(compact_nodes(&nodes)))])),
                    };
                    if parse_id(&b).map(|i| i == id).unwrap_or(true) || !b.starts_with(b"d") {
                        w.nodes[k].send(&b);
                    }
                    count("nonsense", 1);
                } else {
                    friendly(w, k, &m, Some(&mut t), &[], now)
                }
            })
            .await;
            sig.push_str(&format!("{kind}:{burst} +{until}s, "));
        }
        set_context("after the attack".into());
        // whatever was queued is dealt with
        for _ in 0..3 {
            w.quiet(&mut |w, now, k, m| friendly(w, k, &m, Some(&mut t), &[], now)).await;
        }
        // still answers
        let qs = vec![(friend, Q::Ping), (friend, Q::FindNode(r.id())), (friend, Q::GetPeers(r.id())), (friend, Q::GetPeers(foreign)), (friend, Q::GetPeers(w.hash))];
        let asked = ask(&mut w, r, &mut t, qs, true).await;
        for (k, a) in asked.iter().enumerate() {
            let Some(x) = the_answer(&w, a) else { continue };
            if k == 3 {
                let me = compact(&SocketAddrV4::new(*w.nodes[friend].addr.ip(), port as u16));
                let has = x.get("values").and_then(|x| x.list()).map(|l| l.iter().any(|x| x.str() == Some(&me[..]))).unwrap_or(false);
                if !has {
                    violation("forgot", "a peer that was announced before the attack isn't known any more");
                }
            }
            count("answers_afterwards", 1);
        }
        // still asks: a new node is pinged, and lookups and refreshes go on
        let c = r.idx(3);
        let id = id_in_class(r, &t.own, 40 + c);
        let k = w.nodes.len();
        let new = w.add(id, ip(k));
        let a = w.nodes[new].addr;
        tell(&mut w, a).await;
        let mut pinged = false;
        let mut refreshed = 0;
        let mut looked_up = 0;
        let h = w.hash;
        w.pass(260.0, &mut |w, now, k, m| {
            if let Msg::Query { q, .. } = &m {
                match q {
                    Q::Ping if k == new => pinged = true,
                    Q::FindNode(_) => refreshed += 1,
                    Q::GetPeers(x) if *x == h => looked_up += 1,
                    _ => (),
                }
            }
            friendly(w, k, &m, Some(&mut t), &[], now)
        })
        .await;
        if !pinged || refreshed == 0 || looked_up == 0 {
            violation("stuck", &format!("260 s after an attack ({sig}): new node pinged: {pinged}, refreshes: {refreshed}, lookups: {looked_up}"));
        }
        let asked = ask(&mut w, r, &mut t, vec![(friend, Q::FindNode(id))], true).await;
        if let Some(x) = the_answer(&w, &asked[0]) {
            let v = x.get("nodes").and_then(|x| x.str()).and_then(parse_nodes).unwrap_or_default();
            if !v.contains(&(id, a)) {
                violation("not-learned", "a node that answered after an attack isn't known");
            }
        }
        eval(Some(hash_of(sig.as_bytes()) ^ hash_of(&t.own)));
        sample("attack", || sig.clone());
        count("attacks", 1);
        w.stop().await;
    });
}

fn parse_id(b: &[u8]) -> Option<Id> {
    decode(b)?.get("r")?.get("id")?.str().and_then(|x| Id::try_from(x).ok())
}

// ---------------------------------------------------------------- D04

thread_local! {
    // tokens of other instances: (ip, token)
    static OLD: std::cell::RefCell<HashMap<Ipv4Addr, HashSet<Vec<u8>>>> = Default::default();
}

fn d04(r: &mut Rng) {
    set_context("D04".into());
    vt::runtime().block_on(async {
        let mut w = World::start(r).await;
        let mut t = Table::new(w.own());
        let n = r.urange(1, 12);
        // some share an address, with other ports
        for k in 0..n {
            let x = if k > 0 && r.one_in(3) { r.idx(k) } else { k };
            let id = r.id();
            w.add(id, ip(x));
        }
        let hashes: Vec<Id> = (0..r.urange(1, 4)).map(|_| r.id()).chain([w.hash]).collect();
        let mut known: BTreeMap<Id, BTreeSet<Vec<u8>>> = BTreeMap::new();
        let mut tokens: HashMap<Ipv4Addr, Vec<Vec<u8>>> = HashMap::new();
        let mut token_age: HashMap<Vec<u8>, f64> = HashMap::new();
        let crowd = r.one_in(8);
        let mut log = String::new();
        for _ in 0..r.urange(4, 20) {
            // tokens
            let from = r.idx(n);
            let h = *r.pick(&hashes);
            let a = ask(&mut w, r, &mut t, vec![(from, Q::GetPeers(h))], true).await;
            let Some(x) = the_answer(&w, &a[0]) else { continue };
            let Some(token) = x.get("token").and_then(|x| x.str()).map(|x| x.to_vec()) else {
                violation("no-token", "get_peers was answered without a token");
                continue;
            };
            let my_ip = *w.nodes[from].addr.ip();
            let stale = OLD.with(|o| o.borrow().get(&my_ip).map(|s| s.contains(&token)).unwrap_or(false));
            if stale {
                violation("guessable", &format!("the token for {my_ip} is the same in every instance: {}", hex(&token)));
            }
            for (other, ts) in &tokens {
                if *other != my_ip && ts.contains(&token) {
                    violation("shared-token", &format!("{my_ip} and {other} have the same token"));
                }
            }
            token_age.entry(token.clone()).or_insert(w.v.now());
            let e = tokens.entry(my_ip).or_default();
            if !e.contains(&token) {
                e.push(token.clone());
            }
            count("tokens", 1);

            // announces
            let many = if crowd { 60 } else { r.urange(1, 8) };
            let mut expect: Vec<(bool, Id, Vec<u8>)> = Vec::new();
            let mut qs = Vec::new();
            for _ in 0..many {
                let who = r.idx(n);
                let who_ip = *w.nodes[who].addr.ip();
                let h = if crowd { hashes[0] } else { *r.pick(&hashes) };
                let port = match r.below(6) {
                    0 => 0,
                    1 => 65535,
                    _ => r.below(65536),
                };
                let mine = tokens.get(&who_ip).cloned().unwrap_or_default();
                let others: Vec<Vec<u8>> = tokens.iter().filter(|(i, _)| **i != who_ip).flat_map(|(_, v)| v.clone()).collect();
                let token = match r.below(9) {
                    8 => {
                        // from what everybody knows
                        let a = &w.nodes[who].addr;
                        let parts: Vec<Vec<u8>> = vec![
                            who_ip.octets().to_vec(),
                            who_ip.octets().iter().rev().copied().collect(),
                            who_ip.to_string().into_bytes(),
                            a.to_string().into_bytes(),
                            a.port().to_be_bytes().to_vec(),
                            w.own().to_vec(),
                            w.nodes[who].id.to_vec(),
                            h.to_vec(),
                        ];
                        let v = (0..r.urange(1, 3)).map(|_| r.pick(&parts).clone()).collect::<Vec<_>>().concat();
                        count("guessed_tokens", 1);
                        if r.one_in(4) { v } else { nv::sha1::sha1(&v).to_vec() }
                    }
                    0 if !others.is_empty() => r.pick(&others).clone(),
                    1 => vec![],
                    2 => {
                        let m = r.idx(30);
                        r.bytes(m)
                    }
                    3 if !mine.is_empty() => {
                        let mut x = mine[0].clone();
                        match r.below(4) {
                            0 => {
                                x.pop();
                            }
                            1 => x.push(r.u8()),
                            _ if !x.is_empty() => {
                                let k = r.idx(x.len());
                                x[k] ^= 1 << r.below(8);
                            }
                            _ => x.push(0),
                        }
                        x
                    }
                    _ => mine.last().cloned().unwrap_or_else(|| r.bytes(20)),
                };
                let valid = mine.contains(&token);
                expect.push((valid, h, compact(&SocketAddrV4::new(who_ip, port as u16))));
                qs.push((who, Q::Announce { hash: h, port: port as i128, token }));
            }
            // tokens are valid for some minutes at least
            let oldest = token_age.values().fold(f64::MAX, |a, b| a.min(*b));
            if w.v.now() - oldest > 400.0 {
                tokens.clear();
                token_age.clear();
                continue;
            }
            let asked = ask(&mut w, r, &mut t, qs, true).await;
            for (a, (valid, h, peer)) in asked.iter().zip(&expect) {
                if *valid {
                    the_answer(&w, a);
                    known.entry(*h).or_default().insert(peer.clone());
                    count("accepted", 1);
                } else {
                    if !a.answers.is_empty() {
                        violation("token-accepted", &format!("an announce with a token that wasn't given to {} was accepted", w.nodes[a.from].addr));
                    }
                    count("rejected", 1);
                }
                eval(Some(hash_of(format!("{:?} {valid}", a.q).as_bytes())));
            }
            log.push_str(&format!("{many} announces, "));
            // what others are told
            for h in &hashes {
                let who = r.idx(n);
                let a = ask(&mut w, r, &mut t, vec![(who, Q::GetPeers(*h))], true).await;
                let Some(x) = the_answer(&w, &a[0]) else { continue };
                let got: Vec<Vec<u8>> = x.get("values").and_then(|x| x.list()).map(|l| l.iter().filter_map(|x| x.str().map(|x| x.to_vec())).collect()).unwrap_or_default();
                let set: BTreeSet<Vec<u8>> = got.iter().cloned().collect();
                let want = known.get(h).cloned().unwrap_or_default();
                if set.len() != got.len() {
                    violation("twice", "a peer is listed twice");
                }
                if let Some(x) = set.difference(&want).next() {
                    violation("unannounced", &format!("{} is listed but was never announced", parse_addr(x)));
                }
                if want.len() <= 100 {
                    if let Some(x) = want.difference(&set).next() {
                        violation("unlisted", &format!("{} was announced but isn't listed ({} of {} are)", parse_addr(x), set.len(), want.len()));
                    }
                } else if set.len() < 50 {
                    violation("few", &format!("{} of {} announced peers are listed", set.len(), want.len()));
                }
                count("listed", set.len() as u64);
            }
            let reg: BTreeSet<Vec<u8>> = w.peers.peer_addresses().iter().map(|p| compact(p.addr())).collect();
            if reg != known.get(&w.hash).cloned().unwrap_or_default() {
                violation("registry", &format!("the torrent's registry has {} peers, {} were announced to us", reg.len(), known.get(&w.hash).map(|x| x.len()).unwrap_or(0)));
            }
            let d = r.range(0, 90) as f64;
            w.pass(d, &mut |w, now, k, m| friendly(w, k, &m, Some(&mut t), &[], now)).await;
        }
        OLD.with(|o| {
            for (i, v) in tokens {
                o.borrow_mut().entry(i).or_default().extend(v);
            }
        });
        sample("announces", || format!("{n} nodes, {} torrents, {log}", hashes.len()));
        count("scenarios", 1);
        w.stop().await;
    });
}

// ---------------------------------------------------------------- D07

/// shutdown and restart of the whole node
fn d07(r: &mut Rng) {
    set_context("D07 restart".into());
    let mut own: Option<Id> = None;
    let mut known: BTreeMap<Id, Addr> = BTreeMap::new();
    let mut socks: Vec<Node> = Vec::new();
    let generations = r.urange(2, 4);
    for g in 0..generations {
        vt::runtime().block_on(async {
            let v = Virtual::new(2);
            let peers = Peers::new(&ID::new([7; 20]));
            let (tx, rx) = mpsc::channel(64);
            let (stop, srx) = shutdown::channel();
            start_dht(1, peers.clone(), ID::new([7; 20]), rx, srx).await;
            let mut w = World { v, nodes: std::mem::take(&mut socks), own, peers, hash: [7; 20], tcp_port: 1, to_dht: tx, stop: Some(stop), inbox: vec![], tids: HashSet::new(), mute: None, unanswered: vec![] };
            // nodes of the last time
            let mut asked: HashSet<Addr> = HashSet::new();
            let mut t = Table::new(own.unwrap_or([0; 20]));
            let dead = r.below(4);
            if own.is_some() {
                w.quiet(&mut |w, now, k, m| {
                    if let Msg::Query { q: Q::Ping, .. } = &m {
                        asked.insert(w.nodes[k].addr);
                    }
                    // some are gone
                    if k as u64 % 4 != dead {
                        friendly(w, k, &m, Some(&mut t), &[], now)
                    }
                })
                .await;
                let missing = known.values().filter(|a| !asked.contains(a)).count();
                if missing > 0 {
                    violation("not-asked", &format!("{missing} of {} stored nodes aren't asked after a restart", known.len()));
                }
                count("restarts", 1);
                count("nodes_asked", asked.len() as u64);
            }
            let before = own;
            w.learn_own_id(r).await;
            if before.is_some() && before != w.own {
                violation("own-id", "the own id isn't the same after a restart");
            }
            own = w.own;
            if g == 0 {
                t = Table::new(w.own());
            }
            // who answered is known again
            let answered: Vec<Id> = t.nodes.keys().cloned().collect();
            let probe = {
                let id = r.id();
                w.add(id, ip(40_000))
            };
            for id in &answered {
                let a = ask(&mut w, r, &mut t, vec![(probe, Q::FindNode(*id))], false).await;
                let v = the_answer(&w, &a[0]).and_then(|x| x.get("nodes")).and_then(|x| x.str()).and_then(parse_nodes).unwrap_or_default();
                if !v.iter().any(|x| x.0 == *id) {
                    violation("not-known", "a stored node that answered isn't known");
                }
            }
            // more nodes: few enough that nobody has to make room
            let mut all = known.clone();
            let more = r.urange(1, 8);
            for _ in 0..more {
                let c = (0..20).find(|c| all.keys().filter(|i| class(&w.own(), i) == *c).count() < 6).unwrap_or(30);
                let id = id_in_class(r, &w.own(), c);
                let k = w.nodes.len();
                let k = w.add(id, ip(k + 1000 * g));
                let a = w.nodes[k].addr;
                all.insert(id, a);
                tell(&mut w, a).await;
                w.quiet(&mut |w, now, k, m| if k != probe { friendly(w, k, &m, Some(&mut t), &[], now) }).await;
            }
            let d = r.range(0, 300) as f64;
            w.pass(d, &mut |w, now, k, m| if k != probe { friendly(w, k, &m, Some(&mut t), &[], now) }).await;
            // a full bucket of old nodes may make room, then they aren't expected
            if all.len() <= 8 || all.keys().all(|i| all.keys().filter(|j| class(&w.own(), j) == class(&w.own(), i)).count() <= 8) && g == 0 {
                known = all.clone();
            } else {
                known = t.nodes.iter().map(|(i, k)| (*i, k.addr)).collect();
            }
            eval(Some(hash_of(format!("{g} {} {}", known.len(), hex(&w.own())).as_bytes())));
            count("generations", 1);
            let nodes = std::mem::take(&mut w.nodes);
            w.stop().await;
            socks = nodes.into_iter().enumerate().filter(|(k, _)| *k != probe).map(|x| x.1).collect();
        });
    }
    sample("restart", || format!("{generations} generations, {} nodes in the end", known.len()));
}

// ---------------------------------------------------------------- D08

fn d08(r: &mut Rng) {
    set_context("D08".into());
    vt::runtime().block_on(async {
        let mut w = World::start(r).await;
        let mut t = Table::new(w.own());
        let own = w.own();
        const KINDS: [&str; 12] = ["good", "silent", "asking", "unsolicited", "wrong-tid", "error", "changing", "short-id", "slow", "telling", "garbage", "mirror"];
        let n = r.urange(4, 30);
        let mut kind: Vec<&str> = Vec::new();
        // few of every class: everyone has a place
        let mut per: HashMap<usize, usize> = HashMap::new();
        for k in 0..n {
            let mut c = r.idx(8);
            while per.get(&c).cloned().unwrap_or(0) >= 7 {
                c += 1;
            }
            *per.entry(c).or_default() += 1;
            let id = id_in_class(r, &own, c);
            w.add(id, ip(k));
            kind.push(*r.pick(&KINDS));
        }
        // friends of those that tell: who of them answers is expected in the table, too
        let mut friends: Vec<usize> = Vec::new();
        for k in 0..r.urange(0, 8) {
            let mut c = 8 + r.idx(4);
            while per.get(&c).cloned().unwrap_or(0) >= 5 {
                c += 1;
            }
            *per.entry(c).or_default() += 1;
            let id = id_in_class(r, &own, c);
            let x = w.add(id, ip(10_000 + k));
            kind.push(if r.bool() { "good" } else { "silent" });
            friends.push(x);
        }
        let mut told: Vec<(Id, Addr)> = friends.iter().map(|f| (w.nodes[*f].id, w.nodes[*f].addr)).collect();
        // others know the client as well
        if r.bool() {
            told.insert(r.idx(told.len() + 1), (own, CLIENT.parse().unwrap()));
        }
        let second: Vec<Id> = (0..w.nodes.len()).map(|_| r.id()).collect();
        let mut in_table: HashSet<usize> = HashSet::new();
        let mut was_told: HashSet<usize> = HashSet::new();
        let mut pinged: HashSet<usize> = HashSet::new();
        let mut later: Vec<(f64, usize, Vec<u8>)> = Vec::new();
        let mut rr = r.fork();
        let mut act = |w: &mut World, now: f64, k: usize, m: Msg| {
            let Msg::Query { tid, q, .. } = &m else { return };
            if matches!(q, Q::Ping) {
                pinged.insert(k);
            }
            if k >= kind.len() {
                return;
            }
            let id = w.nodes[k].id;
            let right = match q {
                Q::Ping | Q::Announce { .. } => resp(tid, &id, vec![]),
                Q::FindNode(_) => resp(tid, &id, vec![("nodes", s(compact_nodes(if kind[k] == "telling" { &told } else { &[] })))]),
                Q::GetPeers(_) => resp(tid, &id, vec![("token", s("t")), ("nodes", s(""))]),
            };
            let counts = matches!(q, Q::Ping | Q::FindNode(_));
            match kind[k] {
                "good" | "telling" => {
                    w.nodes[k].send(&right);
                    if counts {
                        in_table.insert(k);
                    }
                    if kind[k] == "telling" && matches!(q, Q::FindNode(_)) {
                        was_told.extend(friends.iter().cloned());
                    }
                }
                "slow" => later.push((now + 0.3 + rr.below(15) as f64 / 10.0, k, right)),
                "changing" => {
                    w.nodes[k].send(&right);
                    if counts {
                        in_table.insert(k);
                    }
                    // the same transaction again
                    let other = match q {
                        Q::FindNode(_) => resp(tid, &second[k], vec![("nodes", s(""))]),
                        _ => resp(tid, &second[k], vec![]),
                    };
                    w.nodes[k].send(&other);
                }
                "wrong-tid" => {
                    let mut x = tid.clone();
                    match rr.below(3) {
                        0 => x.push(0),
                        1 if !x.is_empty() => {
                            x.pop();
                        }
                        _ if !x.is_empty() => {
                            let o = rr.idx(x.len());
                            x[o] ^= 1 << rr.below(8);
                        }
                        _ => x.push(1),
                    }
                    w.nodes[k].send(&match q {
                        Q::FindNode(_) => resp(&x, &id, vec![("nodes", s(compact_nodes(&told)))]),
                        _ => resp(&x, &id, vec![]),
                    });
                }
                // claims to be the client itself
                "mirror" => w.nodes[k].send(&match q {
                    Q::FindNode(_) => resp(tid, &own, vec![("nodes", s(compact_nodes(&told)))]),
                    Q::GetPeers(_) => resp(tid, &own, vec![("token", s("t")), ("nodes", s(""))]),
                    _ => resp(tid, &own, vec![]),
                }),
                "error" => w.nodes[k].send(&dict(vec![("t", s(tid)), ("y", s("e")), ("e", B::List(vec![i(202), s("Server Error")]))]).encode()),
                "short-id" => w.nodes[k].send(&resp(tid, &id[..rr.idx(20)], vec![])),
                "garbage" => w.nodes[k].send(&rr.bytes(60)),
                _ => (),
            }
        };
        let mut sent: Vec<usize> = Vec::new();
        for _ in 0..r.urange(6, 2 * n) {
            match r.below(5) {
                0 => {
                    // those that ask or claim to answer
                    for k in 0..n {
                        if kind[k] == "asking" {
                            let q = match r.below(3) {
                                0 => Q::Ping,
                                1 => Q::FindNode(w.nodes[k].id),
                                _ => Q::GetPeers(w.hash),
                            };
                            let b = query(&r.bytes(2), &w.nodes[k].id, &q, None);
                            w.nodes[k].send(&b);
                        } else if kind[k] == "unsolicited" {
                            let m = r.urange(0, 6);
                            let tid = r.bytes(m);
                            let id = w.nodes[k].id;
                            let b = match r.below(3) {
                                0 => resp(&tid, &id, vec![]),
                                1 => resp(&tid, &id, vec![("nodes", s(compact_nodes(&told)))]),
                                _ => resp(&tid, &id, vec![("token", s("x")), ("nodes", s(compact_nodes(&told)))]),
                            };
                            w.nodes[k].send(&b);
                        }
                    }
                }
                _ => {
                    let k = r.idx(n);
                    let a = w.nodes[k].addr;
                    sent.push(k);
                    tell(&mut w, a).await;
                }
            }
            w.quiet(&mut act).await;
            let d = r.below(20) as f64 * 0.5;
            w.pass(d, &mut act).await;
        }
        w.pass(8.0, &mut act).await;
        drop(act);
        // slow answers
        for (_, k, b) in &later {
            w.nodes[*k].send(b);
            in_table.insert(*k);
        }
        // "telling" nodes may have been asked with the last refresh: their friends were pinged meanwhile
        let slow_only: HashSet<usize> = later.iter().map(|x| x.1).collect();
        w.quiet(&mut |w, _, k, m| {
            if let (Msg::Query { tid, q: Q::Ping, .. }, "good") = (&m, kind.get(k).cloned().unwrap_or("")) {
                let b = resp(tid, &w.nodes[k].id, vec![]);
                w.nodes[k].send(&b);
                in_table.insert(k);
            }
        })
        .await;
        for k in &sent {
            if !pinged.contains(k) {
                violation("not-pinged", &format!("{} was told about but never asked", w.nodes[*k].addr));
            }
        }
        for k in &was_told {
            if !pinged.contains(k) {
                violation("not-pinged", "a node that another one told about was never asked");
            }
            count("told", 1);
        }
        // who is in the table?
        let probe = {
            let id = r.id();
            w.add(id, ip(40_000))
        };
        let mut candidates: Vec<(Id, bool, String)> = vec![(own, false, "own id".to_string())];
        for k in 0..kind.len() {
            // slow ones that were asked with get_peers only didn't count
            if slow_only.contains(&k) {
                continue;
            }
            candidates.push((w.nodes[k].id, in_table.contains(&k), kind[k].to_string()));
            candidates.push((second[k], false, format!("second id of {}", kind[k])));
        }
        for (id, expected, what) in candidates {
            let a = ask(&mut w, r, &mut t, vec![(probe, Q::FindNode(id))], false).await;
            let Some(x) = the_answer(&w, &a[0]) else { continue };
            let v = x.get("nodes").and_then(|x| x.str()).and_then(parse_nodes).unwrap_or_default();
            let found = v.iter().any(|x| x.0 == id);
            if found && !expected {
                violation("entered", &format!("a node that never answered a query of ours is in the table: {what}"));
            }
            if !found && expected {
                violation("missing", &format!("a node that answered isn't in the table: {what}"));
            }
            count(if expected { "in_table" } else { "kept_out" }, 1);
            count(&format!("kind_{}", what.replace(' ', "_")), 1);
            eval(Some(hash_of(&id)));
        }
        sample("nodes", || format!("{kind:?}"));
        count("scenarios", 1);
        w.stop().await;
    });
}

// ---------------------------------------------------------------- D09

fn d09(r: &mut Rng) {
    set_context("D09".into());
    vt::runtime().block_on(async {
        let mut w = World::start(r).await;
        let big = r.one_in(12);
        let n = if big { r.urange(520, 700) } else { *r.pick(&[1usize, 2, 5, 12, 16, 17, 30, 60]) };
        let hash = w.hash;
        const KINDS: [&str; 8] = ["nodes", "nodes", "values", "values", "silent", "late", "error", "both"];
        const IN_TIME: [&str; 8] = ["nodes", "nodes", "values", "slow", "silent", "nodes", "error", "both"];
        const FEW: [&str; 4] = ["nodes", "nodes", "silent", "error"];
        // hundreds of nodes of which hardly any has peers, or none of which is late
        let kinds: &[&'static str] = match (big, r.below(3)) {
            (true, 0) => &FEW,
            (_, 0) => &KINDS,
            _ => &IN_TIME,
        };
        let mut kind: Vec<&str> = Vec::new();
        for k in 0..n {
            let id = if r.one_in(3) { id_in_class(r, &hash, k % 20) } else { r.id() };
            w.add(id, ip(k));
            kind.push(if k == 0 || (big && !r.one_in(4)) { "nodes" } else { *r.pick(kinds) });
        }
        // who tells whom about whom: everybody can be found from the first one
        let mut tells: Vec<Vec<usize>> = vec![Vec::new(); n];
        let mut tellers: Vec<usize> = vec![0];
        for k in 1..n {
            let from = if r.one_in(3) { tellers[0] } else { *r.pick(&tellers) };
            tells[from].push(k);
            if kind[k] == "nodes" {
                tellers.push(k);
            }
        }
        for k in 0..n {
            for _ in 0..r.idx(4) {
                let x = r.idx(n);
                tells[k].push(x);
            }
            tells[k].truncate(40);
        }
        let values: Vec<Vec<Vec<u8>>> = (0..n).map(|_| (0..if r.one_in(8) { r.urange(12, 170) } else { r.urange(1, 12) }).map(|_| r.bytes(6)).collect()).collect();
        let addrs: Vec<(Id, Addr)> = w.nodes.iter().map(|x| (x.id, x.addr)).collect();

        struct Log {
            events: Vec<(f64, usize, Q)>,
            token: HashMap<usize, Vec<u8>>,
            // what was handed out with which kind of answer, in time: (time, node, values?)
            answered: Vec<(f64, usize, bool)>,
            given: BTreeSet<Vec<u8>>,
            told: HashSet<usize>,
            told_at: Vec<(f64, usize)>,
            later: Vec<(f64, usize, Vec<u8>, Vec<u8>, bool)>,
            stamp: u64,
        }
        let mut l = Log { events: vec![], token: HashMap::new(), answered: vec![], given: BTreeSet::new(), told: [0].into(), told_at: vec![], later: vec![], stamp: 0 };
        let mut rr = r.fork();
        let a0 = addrs[0].1;
        tell(&mut w, a0).await;
        let mut tokens_seen: HashMap<usize, Vec<Vec<u8>>> = HashMap::new();
        // some hear of more and more peers
        let grows: Vec<bool> = (0..n).map(|_| r.bool()).collect();
        let mut asked = vec![0usize; n];
        let end = if big { 60.0 } else { r.range(60, 400) as f64 };
        while w.v.now() < end && violation_count() < 20 {
            w.pass(0.5, &mut |w, now, k, m| {
                let Msg::Query { tid, q, .. } = &m else { return };
                l.events.push((now, k, q.clone()));
                let id = w.nodes[k].id;
                match q {
                    Q::Ping => {
                        if k == 0 || rr.one_in(2) {
                            w.nodes[k].send(&resp(tid, &id, vec![]))
                        }
                    }
                    Q::FindNode(_) => w.nodes[k].send(&resp(tid, &id, vec![("nodes", s(""))])),
                    Q::Announce { token, .. } => {
                        if !tokens_seen.get(&k).map(|v| v.contains(token)).unwrap_or(false) {
                            violation("foreign-token", &format!("an announce has a token that this node never gave: {}", hex(token)));
                        }
                        // an answer that comes late may miss the lookup it belongs to
                        if !big && kind[k] != "late" && l.token.get(&k) != Some(token) {
                            violation("old-token", &format!("an announce has an old token {} instead of {:?}", hex(token), l.token.get(&k).map(|x| hex(x))));
                        }
                        match rr.below(3) {
                            0 => (),
                            _ => w.nodes[k].send(&resp(tid, &id, vec![])),
                        }
                    }
                    Q::GetPeers(h) => {
                        if *h != hash {
                            violation("wrong-hash", "a lookup of something else");
                        }
                        l.stamp += 1;
                        let m = rr.urange(1, 20);
                        let token = [rr.bytes(m), l.stamp.to_be_bytes().to_vec()].concat();
                        let nodes: Vec<(Id, Addr)> = tells[k].iter().map(|x| addrs[*x]).collect();
                        asked[k] += 1;
                        let many = if grows[k] { (values[k].len() * asked[k] / 4).clamp(1, values[k].len()) } else { values[k].len() };
                        let handed: Vec<Vec<u8>> = values[k][..many].to_vec();
                        let vals: Vec<B> = handed.iter().map(s).collect();
                        let (b, has_values) = match kind[k] {
                            "values" => (resp(tid, &id, vec![("token", s(&token)), ("values", B::List(vals))]), true),
                            "both" => (resp(tid, &id, vec![("token", s(&token)), ("values", B::List(vals)), ("nodes", s(compact_nodes(&nodes)))]), true),
                            "error" => (dict(vec![("t", s(tid)), ("y", s("e")), ("e", B::List(vec![i(201), s("x")]))]).encode(), false),
                            _ => (resp(tid, &id, vec![("token", s(&token)), ("nodes", s(compact_nodes(&nodes)))]), false),
                        };
                        match kind[k] {
                            "silent" => (),
                            "error" => w.nodes[k].send(&b),
                            "late" => {
                                let d = rr.range(1, 5) as f64;
                                l.later.push((now + d, k, b, token, false));
                            }
                            "slow" => {
                                // others are asked in the meantime, but it's in time
                                let d = rr.range(1, 4) as f64 / 2.0;
                                l.later.push((now + d, k, b, token, true));
                            }
                            _ => {
                                w.nodes[k].send(&b);
                                tokens_seen.entry(k).or_default().push(token.clone());
                                l.token.insert(k, token);
                                l.answered.push((now, k, has_values));
                                if has_values {
                                    l.given.extend(handed);
                                } else {
                                    l.told_at.extend(tells[k].iter().map(|x| (now, *x)));
                                    l.told.extend(tells[k].iter().cloned());
                                }
                            }
                        }
                    }
                }
            })
            .await;
            let now = w.v.now();
            let due: Vec<_> = l.later.iter().filter(|x| x.0 <= now).cloned().collect();
            l.later.retain(|x| x.0 > now);
            for (_, k, b, token, in_time) in due {
                if in_time {
                    w.nodes[k].send(&b);
                    tokens_seen.entry(k).or_default().push(token.clone());
                    l.token.insert(k, token);
                    l.answered.push((now, k, false));
                    l.told.extend(tells[k].iter().cloned());
                    l.told_at.extend(tells[k].iter().map(|x| (now, *x)));
                    continue;
                }
                // whether it comes in time for this round or for the next one isn't known: both tokens will do
                w.nodes[k].send(&b);
                tokens_seen.entry(k).or_default().push(token.clone());
                l.token.remove(&k);
                l.token.insert(k, token);
            }
        }
        // ---- the rounds
        let gets: Vec<(f64, usize)> = l.events.iter().filter(|e| matches!(e.2, Q::GetPeers(_))).map(|e| (e.0, e.1)).collect();
        let anns: Vec<(f64, usize, i128, Id)> = l
            .events
            .iter()
            .filter_map(|e| match &e.2 {
                Q::Announce { hash, port, .. } => Some((e.0, e.1, *port, *hash)),
                _ => None,
            })
            .collect();
        for (_, _, port, h) in &anns {
            if *port != w.tcp_port as i128 || *h != hash {
                violation("announce", &format!("an announce says port {port} instead of {} or another torrent", w.tcp_port));
            }
        }
        // announces end a round
        let mut ends: Vec<f64> = Vec::new();
        for (t, ..) in &anns {
            if ends.last().map(|e| *t - *e > 1.0).unwrap_or(true) {
                ends.push(*t);
            }
        }
        let late = kind.iter().any(|k| *k == "late");
        let mut from = -1.0;
        let mut all_asked: HashSet<usize> = HashSet::new();
        for (round, e) in ends.iter().enumerate() {
            let mut in_round: HashMap<usize, usize> = HashMap::new();
            for (_, k) in gets.iter().filter(|g| g.0 > from && g.0 <= *e) {
                *in_round.entry(*k).or_default() += 1;
                all_asked.insert(*k);
            }
            if let (false, Some((k, m))) = (big, in_round.iter().find(|(_, m)| **m > 1)) {
                violation("asked-twice", &format!("node {k} was asked {m} times in round {round}"));
            }
            if !big {
                if let Some((t, k)) = l.told_at.iter().find(|(t, k)| *t > from && *t < *e - 2.0 && !in_round.contains_key(k)) {
                    violation("not-asked", &format!("node {k} ({}) was told about at {t} s and not asked in that round, which ended at {e} s", kind[*k]));
                }
            }
            let answered: HashMap<usize, bool> = l.answered.iter().filter(|a| a.0 > from && a.0 <= *e).map(|a| (a.1, a.2)).collect();
            let targets: Vec<usize> = anns.iter().filter(|a| a.0 >= *e && a.0 <= *e + 1.0).map(|a| a.1).collect();
            let set: HashSet<usize> = targets.iter().cloned().collect();
            if set.len() != targets.len() {
                violation("announced-twice", &format!("a node got two announces in round {round}"));
            }
            if set.len() > 16 {
                violation("too-many-announces", &format!("{} announces in round {round}", set.len()));
            }
            if !late && !big {
                // nobody falls silent after having answered: the best sixteen of those that answered
                let mut best: Vec<(bool, Id, usize)> = answered.iter().map(|(k, v)| (!*v, distance(&addrs[*k].0, &hash), *k)).collect();
                best.sort();
                best.truncate(16);
                let want: HashSet<usize> = best.iter().map(|b| b.2).collect();
                if want != set {
                    violation("announce-targets", &format!("round {round}: announced to {} nodes, to {} of the {} that should hear it", set.len(), set.intersection(&want).count(), want.len()));
                }
            } else if set.len() < answered.len().min(16) {
                violation("few-announces", &format!("round {round}: announced to {} nodes although {} answered", set.len(), answered.len()));
            }
            count("rounds", 1);
            count("announces", set.len() as u64);
            eval(Some(hash_of(format!("{} {round} {:?}", hex(&w.own()), set.len()).as_bytes())));
            from = *e;
        }
        count("lookups", gets.len() as u64);
        // everybody that was told about was asked
        if !big {
            let cutoff = end - 130.0;
            if ends.len() >= 2 {
                for k in &l.told {
                    if !gets.iter().any(|g| g.1 == *k) {
                        violation("not-asked", &format!("node {k} ({}) was told about but never asked for peers in {end} s", kind[*k]));
                    }
                }
            }
            let _ = cutoff;
            // who answered once is asked again in every round
            for (x, e) in ends.windows(2).map(|w| (w[0], w[1])) {
                let before: HashSet<usize> = gets.iter().filter(|g| g.0 <= x).map(|g| g.1).collect();
                let now: HashSet<usize> = gets.iter().filter(|g| g.0 > x && g.0 <= e).map(|g| g.1).collect();
                if let Some(k) = before.difference(&now).next() {
                    violation("dropped", &format!("node {k} ({}) isn't asked any more after {x} s", kind[*k]));
                }
            }
        }
        // the schedule: 7 s, growing to at most 2 minutes, and what a round takes
        let mut starts: Vec<f64> = Vec::new();
        for e in [-1.0].iter().chain(ends.iter()) {
            if let Some(g) = gets.iter().find(|g| g.0 > *e) {
                starts.push(g.0);
            }
        }
        if starts.is_empty() || starts[0] > 9.0 {
            violation("no-lookup", &format!("first lookup at {:?} s", starts.first()));
        }
        for (k, (s0, e)) in starts.iter().zip(ends.iter()).enumerate() {
            // it may end early once there are enough peers
            if (!big || kinds.len() == FEW.len()) && *e - *s0 < 2.5 {
                violation("hasty", &format!("round {k} ended {} s after its start without waiting for answers", e - s0));
            }
            if !big && *e - *s0 > 60.0 {
                violation("endless", &format!("round {k} took {} s", e - s0));
            }
            if let Some(s1) = starts.get(k + 1) {
                let pause = s1 - e;
                let want = (7.0 + 0.01 * ((k + 1) as f64).powf(3.7)).min(120.0);
                if pause < want - 1.0 || pause > want + 1.5 {
                    violation("schedule", &format!("{pause} s between the rounds {k} and {} instead of {want} s", k + 1));
                }
            }
        }
        if !big && !late && end - ends.last().cloned().unwrap_or(0.0) > 180.0 {
            violation("stopped", &format!("no announce in the last {} s", end - ends.last().cloned().unwrap_or(0.0)));
        }
        // the registry
        let reg: BTreeSet<Vec<u8>> = w.peers.peer_addresses().iter().map(|p| compact(p.addr())).collect();
        // nodes that are too far away in a big network aren't listened to
        if let (false, Some(x)) = (big, l.given.difference(&reg).next()) {
            violation("lost-value", &format!("{} of {} peers that were handed out aren't in the registry, e.g. {}", l.given.difference(&reg).count(), l.given.len(), parse_addr(x)));
        }
        let all: BTreeSet<Vec<u8>> = values.iter().flatten().cloned().collect();
        if let Some(x) = reg.difference(&all).next() {
            violation("invented", &format!("{} is in the registry but nobody told about it", parse_addr(x)));
        }
        count("values", l.given.len() as u64);
        if big {
            count("big_networks", 1);
        }
        sample("network", || format!("{n} nodes, {} rounds, {} asked, {} peers", ends.len(), all_asked.len(), reg.len()));
        count("scenarios", 1);
        w.stop().await;
    });
}

// ---------------------------------------------------------------- D10

fn d10(r: &mut Rng) {
    match r.below(4) {
        0 => busy(r),
        1 => outage(r),
        2 => first_gone(r),
        _ => discovery(r),
    }
}

/// refreshes go on however much traffic there is
fn busy(r: &mut Rng) {
    set_context("D10 busy".into());
    vt::runtime().block_on(async {
        let mut w = World::start(r).await;
        let mut t = Table::new(w.own());
        let n = r.urange(1, 12);
        populate(&mut w, r, &mut t, n).await;
        let period = *r.pick(&[0.5, 1.0, 2.0, 2.75]);
        let asker = {
            let id = r.id();
            w.add(id, ip(30_000))
        };
        let mut finds: Vec<f64> = vec![w.v.now()];
        let mut own_asked = 0;
        let own = w.own();
        let end = r.range(300, 900) as f64;
        while w.v.now() < end {
            let q = match r.below(3) {
                0 => Q::Ping,
                1 => Q::FindNode(r.id()),
                _ => Q::GetPeers(r.id()),
            };
            let b = query(&r.bytes(4), &w.nodes[asker].id, &q, None);
            w.nodes[asker].send(&b);
            w.pass(period, &mut |w, now, k, m| {
                if let Msg::Query { q: Q::FindNode(x), .. } = &m {
                    finds.push(now);
                    if *x == own {
                        own_asked += 1;
                    }
                }
                friendly(w, k, &m, Some(&mut t), &[], now)
            })
            .await;
        }
        finds.push(w.v.now());
        let gap = finds.windows(2).map(|x| x[1] - x[0]).fold(0.0, f64::max);
        if gap > 203.0 {
            violation("no-refresh", &format!("no refresh for {gap} s while a query comes every {period} s ({} nodes known)", t.nodes.len()));
        }
        if own_asked == 0 {
            violation("own-neighbourhood", "nobody is ever asked about the own neighbourhood");
        }
        eval(Some(hash_of(format!("busy {period} {n} {end} {}", hex(&own)).as_bytes())));
        count("busy", 1);
        count("refresh_queries", finds.len() as u64 - 2);
        sample("busy", || format!("{n} nodes, a query every {period} s for {end} s, longest gap {gap} s"));
        w.stop().await;
    });
}

/// nobody answers for a long time, then they do again
fn outage(r: &mut Rng) {
    set_context("D10 outage".into());
    vt::runtime().block_on(async {
        let mut w = World::start(r).await;
        let mut t = Table::new(w.own());
        let n = r.urange(1, 12);
        populate(&mut w, r, &mut t, n).await;
        let before = r.range(0, 300) as f64;
        w.pass(before, &mut |w, now, k, m| friendly(w, k, &m, Some(&mut t), &[], now)).await;
        let silence = r.range(600, 3000) as f64;
        let gone: HashSet<usize> = (0..w.nodes.len()).filter(|k| *k > 0 && r.one_in(3)).collect();
        w.pass(silence, &mut |_, _, _, _| ()).await;
        // back again, some of them
        let mut asked: HashSet<usize> = HashSet::new();
        let mut lookups = 0;
        w.pass(420.0, &mut |w, now, k, m| {
            if let Msg::Query { q, .. } = &m {
                if matches!(q, Q::Ping | Q::FindNode(_)) {
                    asked.insert(k);
                }
                if matches!(q, Q::GetPeers(_)) {
                    lookups += 1;
                }
            }
            if !gone.contains(&k) {
                friendly(w, k, &m, Some(&mut t), &[], now)
            }
        })
        .await;
        let now = w.v.now();
        let alive: Vec<usize> = (0..w.nodes.len()).filter(|k| !gone.contains(k) && t.nodes.contains_key(&w.nodes[*k].id)).collect();
        let missing = alive.iter().filter(|k| !t.is_good(&w.nodes[**k].id, now)).count();
        if missing > 0 {
            violation("contact-lost", &format!("{missing} of {} nodes that are reachable again weren't asked in 420 s after an outage of {silence} s", alive.len()));
        }
        if lookups == 0 {
            violation("no-lookup", &format!("no lookups after an outage of {silence} s"));
        }
        // and the node tells about them again
        let probe = {
            let id = r.id();
            w.add(id, ip(40_000))
        };
        let target = r.id();
        let a = ask(&mut w, r, &mut t, vec![(probe, Q::FindNode(target))], false).await;
        if let Some(x) = the_answer(&w, &a[0]) {
            check_nodes(&w, &t, &a[0], x, &target, true, w.v.now());
        }
        eval(Some(hash_of(format!("outage {silence} {n} {before} {}", hex(&w.own())).as_bytes())));
        count("outages", 1);
        sample("outage", || format!("{n} nodes, nobody answers for {silence} s, {} are gone for good", gone.len()));
        w.stop().await;
    });
}

/// the first node that answered disappears, others are there
fn first_gone(r: &mut Rng) {
    set_context("D10 first node gone".into());
    vt::runtime().block_on(async {
        let mut w = World::start(r).await;
        let mut t = Table::new(w.own());
        populate(&mut w, r, &mut t, 1).await;
        let first = 0;
        let wait = r.range(0, 60) as f64;
        w.pass(wait, &mut |w, now, k, m| {
            if k != first {
                friendly(w, k, &m, Some(&mut t), &[], now)
            }
        })
        .await;
        let own = w.own();
        for _ in 0..r.urange(1, 6) {
            let c = r.idx(5);
            let id = id_in_class(r, &own, c);
            let k = w.nodes.len();
            let k = w.add(id, ip(k));
            let a = w.nodes[k].addr;
            tell(&mut w, a).await;
            w.quiet(&mut |w, now, k, m| {
                if k != first {
                    friendly(w, k, &m, Some(&mut t), &[], now)
                }
            })
            .await;
        }
        let mut asked: HashSet<usize> = HashSet::new();
        let mut announced: HashSet<usize> = HashSet::new();
        w.pass(500.0, &mut |w, now, k, m| {
            match &m {
                Msg::Query { q: Q::GetPeers(_), .. } => {
                    asked.insert(k);
                }
                Msg::Query { q: Q::Announce { .. }, .. } => {
                    announced.insert(k);
                }
                _ => (),
            }
            if k != first {
                friendly(w, k, &m, Some(&mut t), &[], now)
            }
        })
        .await;
        let others = w.nodes.len() - 1;
        if asked.iter().filter(|k| **k != first).count() == 0 || announced.is_empty() {
            violation("single-point", &format!("the first node is gone, {others} others are good but none of them is asked for peers"));
        }
        eval(Some(hash_of(format!("first {others} {wait} {}", hex(&own)).as_bytes())));
        count("first_gone", 1);
        sample("first gone", || format!("{others} other nodes, first one silent since the beginning, {wait} s later the others"));
        w.stop().await;
    });
}

/// from one node to the neighbourhood
fn discovery(r: &mut Rng) {
    set_context("D10 discovery".into());
    vt::runtime().block_on(async {
        let mut w = World::start(r).await;
        let own = w.own();
        let n = if r.bool() { r.urange(2, 60) } else { r.urange(60, 400) };
        let spread = *r.pick(&[4usize, 8, 12]);
        for k in 0..n {
            let c = r.idx(spread);
            let id = if r.bool() { r.id() } else { id_in_class(r, &own, c) };
            w.add(id, ip(k));
        }
        let all: Vec<(Id, Addr)> = w.nodes.iter().map(|x| (x.id, x.addr)).collect();
        let a = all[r.idx(n)].1;
        tell(&mut w, a).await;
        let mut t = Table::new(own);
        w.pass(60.0, &mut |w, now, k, m| {
            let nodes = match &m {
                Msg::Query { q: Q::FindNode(x), .. } | Msg::Query { q: Q::GetPeers(x), .. } => {
                    let mut v = all.clone();
                    v.sort_by_key(|y| distance(&y.0, x));
                    v.truncate(K);
                    v
                }
                _ => vec![],
            };
            friendly(w, k, &m, Some(&mut t), &nodes, now)
        })
        .await;
        let mut near = all.clone();
        near.sort_by_key(|x| distance(&x.0, &own));
        near.truncate(K);
        let probe = {
            let id = r.id();
            w.add(id, ip(40_000))
        };
        for (id, _) in &near {
            let a = ask(&mut w, r, &mut t, vec![(probe, Q::FindNode(*id))], false).await;
            let Some(x) = the_answer(&w, &a[0]) else { continue };
            let v = x.get("nodes").and_then(|x| x.str()).and_then(parse_nodes).unwrap_or_default();
            if !v.iter().any(|x| x.0 == *id) {
                violation("neighbour-missing", &format!("after 60 s one of the eight nearest of {n} nodes isn't known (distance {})", hex(&distance(id, &own)[..4])));
            }
            count("neighbours", 1);
        }
        eval(Some(hash_of(format!("discovery {n} {}", hex(&own)).as_bytes())));
        count("discoveries", 1);
        sample("discovery", || format!("{n} nodes, started with one, {} known after a minute", t.nodes.len()));
        w.stop().await;
    });
}

#[allow(unused)]
fn unused(_: Status) {}
