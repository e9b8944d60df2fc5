//! A peer of the harness: speaks the wire protocol with an implementation of its own, behaves as it was told to
//! and records everything it sees.
use crate::content::{Content, BLOCK};
use crate::Rng;
use std::collections::HashSet;
use std::net::SocketAddrV4;
use std::os::fd::AsRawFd;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::sync::mpsc;
use tokio::time::Instant;

#[derive(Clone, Debug, PartialEq)]
pub enum W {
    KeepAlive,
    Choke,
    Unchoke,
    Interested,
    NotInterested,
    Have(u32),
    Bitfield(Vec<u8>),
    Request(u32, u32, u32),
    Piece(u32, u32, Vec<u8>),
    Cancel(u32, u32, u32),
    Port(u16),
    Other(u8, Vec<u8>),
}

impl W {
    pub fn enc(&self) -> Vec<u8> {
        let mut p: Vec<u8> = Vec::new();
        let n = |p: &mut Vec<u8>, v: &[u32]| v.iter().for_each(|x| p.extend(x.to_be_bytes()));
        match self {
            W::KeepAlive => (),
            W::Choke => p.push(0),
            W::Unchoke => p.push(1),
            W::Interested => p.push(2),
            W::NotInterested => p.push(3),
            W::Have(i) => {
                p.push(4);
                n(&mut p, &[*i])
            }
            W::Bitfield(b) => {
                p.push(5);
                p.extend(b)
            }
            W::Request(a, b, c) => {
                p.push(6);
                n(&mut p, &[*a, *b, *c])
            }
            W::Piece(a, b, d) => {
                p.push(7);
                n(&mut p, &[*a, *b]);
                p.extend(d)
            }
            W::Cancel(a, b, c) => {
                p.push(8);
                n(&mut p, &[*a, *b, *c])
            }
            W::Port(x) => {
                p.push(9);
                p.extend(x.to_be_bytes())
            }
            W::Other(id, d) => {
                p.push(*id);
                p.extend(d)
            }
        }
        let mut v = (p.len() as u32).to_be_bytes().to_vec();
        v.extend(p);
        v
    }
    /// a complete message at the start, and its length
    pub fn dec(b: &[u8]) -> Option<(W, usize)> {
        if b.len() < 4 {
            return None;
        }
        let n = u32::from_be_bytes(b[..4].try_into().unwrap()) as usize;
        if b.len() < 4 + n {
            return None;
        }
        if n == 0 {
            return Some((W::KeepAlive, 4));
        }
        let (id, d) = (b[4], &b[5..4 + n]);
        let num = |k: usize| u32::from_be_bytes(d[4 * k..4 * k + 4].try_into().unwrap());
        let w = match (id, d.len()) {
            (0, 0) => W::Choke,
            (1, 0) => W::Unchoke,
            (2, 0) => W::Interested,
            (3, 0) => W::NotInterested,
            (4, 4) => W::Have(num(0)),
            (5, _) => W::Bitfield(d.to_vec()),
            (6, 12) => W::Request(num(0), num(1), num(2)),
            (7, k) if k >= 8 => W::Piece(num(0), num(1), d[8..].to_vec()),
            (8, 12) => W::Cancel(num(0), num(1), num(2)),
            (9, 2) => W::Port(u16::from_be_bytes(d.try_into().unwrap())),
            _ => W::Other(id, d.to_vec()),
        };
        Some((w, 4 + n))
    }
}

/// Acknowledges what was read right away. Otherwise the kernel holds acknowledgements back for 40 ms of real time (and
/// Nagle's algorithm the next small segment of the other side), which is minutes of virtual time.
pub fn quickack(fd: std::os::fd::RawFd) {
    if cfg!(miri) {
        return;
    }
    let one: libc::c_int = 1;
    unsafe { libc::setsockopt(fd, libc::IPPROTO_TCP, libc::TCP_QUICKACK, &one as *const _ as *const libc::c_void, 4) };
}

pub fn handshake(info_hash: &[u8; 20], peer_id: &[u8; 20], reserved: [u8; 8]) -> Vec<u8> {
    let mut v = vec![19];
    v.extend(b"BitTorrent protocol");
    v.extend(reserved);
    v.extend(info_hash);
    v.extend(peer_id);
    v
}

#[derive(Clone, Debug)]
pub enum Ev {
    /// number of the connection
    Accept(usize),
    Handshake(usize, Vec<u8>),
    Got(usize, W),
    /// answer of a request as it was put on the wire
    Answer(usize, u32, u32),
    Choked(usize),
    Unchoked(usize),
    Closed(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Hs {
    Good,
    WrongProtocol,
    WrongLength,
    WrongTorrent,
    Truncated(usize),
    Silent,
    Close,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub hs: Hs,
    /// for how many connections the handshake is what `hs` says, later ones are good
    pub bad_handshakes: usize,
    pub haves: Vec<bool>,
    /// 0: bitfield, 1: have messages, 2: half and half, 3: have messages that come over time
    pub announce: u8,
    /// seconds after interest (or after the handshake); None: never
    pub unchoke: Option<f64>,
    pub unchoke_without_interest: bool,
    /// (every, for) seconds
    pub rechoke: Option<(f64, f64)>,
    pub delay: f64,
    /// requests out of 100 that are never answered
    pub drop: u64,
    pub corrupt: usize,
    pub bad_length: usize,
    pub duplicate: bool,
    pub unsolicited: bool,
    /// closes after that many blocks, on the first `disconnects` connections
    pub disconnect_after: Option<usize>,
    pub disconnects: usize,
    /// leaves that many seconds after the handshake, on the first `disconnects` connections
    pub leave_at: Option<f64>,
    /// and closes every later connection at once
    pub gone: bool,
    /// have messages for one and the same piece
    pub flood: usize,
    pub noise: bool,
    /// message that is too long after that many blocks, once
    pub oversize_after: Option<usize>,
    pub never_reads: bool,
    pub split: bool,
    /// nothing is answered while somebody else holds it
    pub gate: Option<Arc<tokio::sync::RwLock<()>>>,
}

impl Cfg {
    pub fn honest(haves: Vec<bool>) -> Self {
        Cfg {
            hs: Hs::Good,
            bad_handshakes: 0,
            haves,
            announce: 0,
            unchoke: Some(0.0),
            unchoke_without_interest: false,
            rechoke: None,
            delay: 0.0,
            drop: 0,
            corrupt: 0,
            bad_length: 0,
            duplicate: false,
            unsolicited: false,
            disconnect_after: None,
            disconnects: 0,
            leave_at: None,
            gone: false,
            flood: 0,
            noise: false,
            oversize_after: None,
            never_reads: false,
            split: false,
            gate: None,
        }
    }
    pub fn brief(&self) -> String {
        let mut v = Vec::new();
        let d = Cfg::honest(vec![]);
        if self.bad_handshakes > 0 {
            v.push(format!("{:?}x{}", self.hs, self.bad_handshakes));
        }
        v.push(format!("has{}/{}", self.haves.iter().filter(|x| **x).count(), self.haves.len()));
        if self.announce != d.announce {
            v.push(format!("announce{}", self.announce));
        }
        if self.unchoke != d.unchoke {
            v.push(format!("unchoke{:?}", self.unchoke));
        }
        if let Some(x) = self.rechoke {
            v.push(format!("rechoke{x:?}"));
        }
        if self.delay > 0.0 {
            v.push(format!("delay{:.2}", self.delay));
        }
        for (n, x) in [("drop", self.drop as usize), ("corrupt", self.corrupt), ("badlen", self.bad_length)] {
            if x > 0 {
                v.push(format!("{n}{x}"));
            }
        }
        for (n, x) in [
            ("dup", self.duplicate),
            ("unsolicited", self.unsolicited),
            ("noise", self.noise),
            ("neverreads", self.never_reads),
            ("split", self.split),
        ] {
            if x {
                v.push(n.to_string());
            }
        }
        if let Some(x) = self.disconnect_after {
            v.push(format!("disconnect@{x}x{}", self.disconnects));
        }
        if let Some(x) = self.leave_at {
            v.push(format!("leaves@{x:.1}x{}{}", self.disconnects, if self.gone { ",gone" } else { "" }));
        }
        if self.flood > 0 {
            v.push(format!("flood{}", self.flood));
        }
        if let Some(x) = self.oversize_after {
            v.push(format!("oversize@{x}"));
        }
        v.join(",")
    }
}

static SEQ: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// virtual time stands still while a lot happens, events of all peers still have an order
fn stamp(start: Instant) -> f64 {
    start.elapsed().as_secs_f64() + SEQ.fetch_add(1, std::sync::atomic::Ordering::SeqCst) as f64 * 1e-10
}

pub struct FakePeer {
    pub addr: SocketAddrV4,
    pub cfg: Cfg,
    pub log: Arc<Mutex<Vec<(f64, Ev)>>>,
    task: tokio::task::JoinHandle<()>,
}

struct Budget {
    corrupt: usize,
    bad_length: usize,
    oversize: bool,
}

impl FakePeer {
    pub async fn spawn(start: Instant, c: Arc<Content>, cfg: Cfg, mut r: Rng) -> Self {
        let l = TcpListener::bind("127.0.0.1:0").await.unwrap_or_else(|e| crate::inconclusive(&format!("bind: {e}")));
        let addr = match l.local_addr().unwrap() {
            std::net::SocketAddr::V4(a) => a,
            _ => unreachable!(),
        };
        let log: Arc<Mutex<Vec<(f64, Ev)>>> = Arc::default();
        let (log2, cfg2) = (log.clone(), cfg.clone());
        let task = tokio::spawn(async move {
            let budget = Arc::new(Mutex::new(Budget { corrupt: cfg2.corrupt, bad_length: cfg2.bad_length, oversize: cfg2.oversize_after.is_some() }));
            let mut k = 0;
            let mut children = tokio::task::JoinSet::new();
            loop {
                let Ok((s, _)) = l.accept().await else { continue };
                log2.lock().unwrap().push((stamp(start), Ev::Accept(k)));
                children.spawn(serve(s, k, start, c.clone(), cfg2.clone(), r.fork(), log2.clone(), budget.clone()));
                k += 1;
            }
        });
        FakePeer { addr, cfg, log, task }
    }
    pub fn stop(&self) {
        self.task.abort();
    }
    pub fn log(&self) -> Vec<(f64, Ev)> {
        self.log.lock().unwrap().clone()
    }
}

pub fn bits(v: &[bool]) -> Vec<u8> {
    let mut b = vec![0u8; (v.len() + 7) / 8];
    for (k, x) in v.iter().enumerate() {
        if *x {
            b[k / 8] |= 0x80 >> (k % 8);
        }
    }
    b
}

fn noise(r: &mut Rng, pieces: usize) -> Vec<u8> {
    match r.below(11) {
        0 => W::Other(*r.pick(&[10u8, 14, 20, 21, 77, 255]), { let n = r.idx(60); r.bytes(n) }).enc(),
        1 => W::KeepAlive.enc(),
        2 => W::Have(pieces as u32 + r.below(100) as u32).enc(),
        3 => W::Have(u32::MAX - r.below(3) as u32).enc(),
        4 => W::Request(r.below(pieces as u64 + 3) as u32, r.below(3) as u32 * 16384, r.below(40000) as u32).enc(),
        5 => W::Cancel(r.next() as u32, r.next() as u32, r.next() as u32).enc(),
        6 => W::Port(r.next() as u16).enc(),
        // known message of a wrong length
        7 => W::Other(r.below(4) as u8, r.bytes(3)).enc(),
        8 => W::Other(*r.pick(&[4u8, 6, 8, 9]), { let n = *r.pick(&[0usize, 1, 3, 5, 11, 13, 30]); r.bytes(n) }).enc(),
        9 => W::Bitfield({ let n = r.idx(40); r.bytes(n + (pieces + 7) / 8 + 1) }).enc(),
        _ => {
            let n = r.idx(BLOCK);
            W::Piece(r.below(pieces as u64 + 4) as u32, r.below(5) as u32 * 8192, r.bytes(n)).enc()
        }
    }
}

async fn serve(
    s: TcpStream,
    k: usize,
    start: Instant,
    c: Arc<Content>,
    cfg: Cfg,
    mut r: Rng,
    log: Arc<Mutex<Vec<(f64, Ev)>>>,
    budget: Arc<Mutex<Budget>>,
) {
    let note = |e: Ev| log.lock().unwrap().push((stamp(start), e));
    let _ = s.set_nodelay(true);
    let fd = s.as_raw_fd();
    let (mut rd, wr) = s.into_split();
    let mut hs = [0u8; 68];
    let mut got = 0;
    while got < 68 {
        match rd.read(&mut hs[got..]).await {
            Ok(0) | Err(_) => {
                note(Ev::Closed(k));
                return;
            }
            Ok(n) => got += n,
        }
    }
    quickack(fd);
    note(Ev::Handshake(k, hs.to_vec()));
    if cfg.gone && k >= cfg.disconnects {
        note(Ev::Closed(k));
        return;
    }
    let my_hs = if k < cfg.bad_handshakes { cfg.hs.clone() } else { Hs::Good };
    let reserved: [u8; 8] = r.bytes(8).try_into().unwrap();
    let mut id = r.id();
    let mut answer = handshake(&c.info_hash(), &id, reserved);
    match my_hs {
        Hs::Good => (),
        Hs::WrongProtocol => answer[1 + r.idx(19)] ^= 1 << r.idx(8),
        Hs::WrongLength => answer[0] = *r.pick(&[0, 18, 20, 255]),
        Hs::WrongTorrent => answer[28 + r.idx(20)] ^= 1 << r.idx(8),
        Hs::Truncated(n) => answer.truncate(n),
        Hs::Silent | Hs::Close => answer.clear(),
    }
    // writer: keeps the order, waits where it was told to
    let (tx, mut rx) = mpsc::unbounded_channel::<(Option<Instant>, Vec<u8>, Option<Ev>)>();
    let (mut wr, mut wrng, split, wlog) = (wr, r.fork(), cfg.split, log.clone());
    let writer = async move {
        while let Some((at, bytes, ev)) = rx.recv().await {
            if let Some(at) = at {
                tokio::time::sleep_until(at).await;
            }
            if let Some(e) = ev {
                wlog.lock().unwrap().push((stamp(start), e));
            }
            let mut rest = &bytes[..];
            while !rest.is_empty() {
                let n = if split && wrng.bool() { wrng.urange(1, rest.len()) } else { rest.len() };
                if wr.write_all(&rest[..n]).await.is_err() {
                    return;
                }
                rest = &rest[n..];
                if split && !rest.is_empty() && wrng.one_in(3) {
                    tokio::time::sleep(Duration::from_millis(wrng.range(1, 120))).await;
                } else {
                    tokio::task::yield_now().await;
                }
            }
        }
    };
    let reader = async {
        let send = |b: Vec<u8>| {
            let _ = tx.send((None, b, None));
        };
        send(answer);
        if my_hs == Hs::Close || matches!(my_hs, Hs::Truncated(_)) {
            tokio::time::sleep(Duration::from_millis(200)).await;
            return;
        }
        if my_hs != Hs::Good || cfg.never_reads {
            if my_hs == Hs::Good {
                send(W::Bitfield(bits(&cfg.haves)).enc());
                send(W::Unchoke.enc());
            }
            if cfg.never_reads {
                std::future::pending::<()>().await;
            }
            let mut b = [0u8; 1000];
            while !matches!(rd.read(&mut b).await, Ok(0) | Err(_)) {}
            return;
        }
        let np = cfg.haves.len();
        if cfg.noise {
            for _ in 0..r.idx(4) {
                send(noise_early(&mut r, np));
            }
        }
        let all: Vec<usize> = (0..np).filter(|p| cfg.haves[*p]).collect();
        let mut late: Vec<usize> = Vec::new();
        match cfg.announce {
            0 => {
                let mut b = bits(&cfg.haves);
                if cfg.noise && np % 8 != 0 && r.bool() {
                    // bits that stand for no piece
                    *b.last_mut().unwrap() |= 0xff >> (np % 8);
                }
                send(W::Bitfield(b).enc())
            }
            1 => all.iter().for_each(|p| send(W::Have(*p as u32).enc())),
            2 => {
                let mut half = cfg.haves.clone();
                for (n, x) in half.iter_mut().enumerate() {
                    if n % 2 == 1 {
                        *x = false;
                    }
                }
                send(W::Bitfield(bits(&half)).enc());
                all.iter().for_each(|p| send(W::Have(*p as u32).enc()));
            }
            _ => late = all.clone(),
        }
        let begin = Instant::now();
        let mut unchoke_at = if cfg.unchoke_without_interest { cfg.unchoke.map(|d| begin + Duration::from_secs_f64(d)) } else { None };
        let leave_at = cfg.leave_at.filter(|_| k < cfg.disconnects).map(|d| begin + Duration::from_secs_f64(d));
        if let (true, Some(p)) = (cfg.flood > 0, all.first()) {
            let f = W::Have(*p as u32).enc();
            send(f.iter().copied().cycle().take(f.len() * cfg.flood).collect());
        }
        let mut choked = true;
        let mut next_choke: Option<Instant> = None;
        let mut late_at = begin + Duration::from_secs_f64(1.0);
        let mut buf: Vec<u8> = Vec::new();
        let mut tmp = vec![0u8; 65536];
        let mut blocks = 0usize;
        let mut queue: HashSet<(u32, u32)> = HashSet::new();
        loop {
            let mut wake = Instant::now() + Duration::from_secs(3600);
            for t in [unchoke_at, next_choke, leave_at, (!late.is_empty()).then_some(late_at)].into_iter().flatten() {
                wake = wake.min(t);
            }
            tokio::select! {
                n = rd.read(&mut tmp) => match n {
                    Ok(0) | Err(_) => return,
                    Ok(n) => {
                        buf.extend_from_slice(&tmp[..n]);
                        quickack(fd);
                    }
                },
                _ = tokio::time::sleep_until(wake) => (),
            }
            let now = Instant::now();
            if leave_at.map(|t| now >= t).unwrap_or(false) {
                return;
            }
            if unchoke_at.map(|t| now >= t).unwrap_or(false) {
                unchoke_at = None;
                if choked {
                    choked = false;
                    let _ = tx.send((None, W::Unchoke.enc(), Some(Ev::Unchoked(k))));
                    next_choke = cfg.rechoke.map(|(every, _)| now + Duration::from_secs_f64(every));
                }
            }
            if next_choke.map(|t| now >= t).unwrap_or(false) {
                next_choke = None;
                choked = true;
                queue.clear();
                let _ = tx.send((None, W::Choke.enc(), Some(Ev::Choked(k))));
                unchoke_at = cfg.rechoke.map(|(_, d)| now + Duration::from_secs_f64(d));
            }
            if !late.is_empty() && now >= late_at {
                for _ in 0..r.urange(1, 4) {
                    if !late.is_empty() {
                        let p = late.remove(r.idx(late.len()));
                        send(W::Have(p as u32).enc());
                    }
                }
                late_at = now + Duration::from_secs_f64(1.0);
            }
            while let Some((w, n)) = W::dec(&buf) {
                buf.drain(..n);
                note(Ev::Got(k, w.clone()));
                match w {
                    W::Interested if choked && unchoke_at.is_none() && next_choke.is_none() => {
                        unchoke_at = cfg.unchoke.map(|d| now + Duration::from_secs_f64(d));
                        if cfg.unchoke == Some(0.0) {
                            unchoke_at = None;
                            choked = false;
                            let _ = tx.send((None, W::Unchoke.enc(), Some(Ev::Unchoked(k))));
                            next_choke = cfg.rechoke.map(|(every, _)| now + Duration::from_secs_f64(every));
                        }
                    }
                    W::Request(p, b, l) => {
                        if choked || r.below(100) < cfg.drop {
                            continue;
                        }
                        let _open = match &cfg.gate {
                            Some(g) => Some(g.read().await),
                            None => None,
                        };
                        let (pi, bi, li) = (p as usize, b as usize, l as usize);
                        if pi >= np || pi < c.skip || !cfg.haves[pi] || bi + li > c.piece(pi).len() || li > BLOCK {
                            continue;
                        }
                        let mut data = c.piece(pi)[bi..bi + li].to_vec();
                        {
                            let mut bu = budget.lock().unwrap();
                            if bu.corrupt > 0 && r.bool() {
                                bu.corrupt -= 1;
                                let at = r.idx(data.len());
                                data[at] ^= 1 << r.idx(8);
                            } else if bu.bad_length > 0 && r.bool() {
                                bu.bad_length -= 1;
                                match r.below(3) {
                                    0 => data.truncate(r.idx(data.len())),
                                    1 => data.clear(),
                                    _ => data.push(7),
                                }
                            }
                        }
                        let at = (cfg.delay > 0.0).then(|| now + Duration::from_secs_f64(cfg.delay));
                        let f = W::Piece(p, b, data).enc();
                        if cfg.duplicate && r.bool() {
                            let _ = tx.send((at, f.clone(), Some(Ev::Answer(k, p, b))));
                        }
                        if cfg.unsolicited && r.one_in(3) {
                            let n = r.idx(BLOCK);
                            let q = *r.pick(&[0, p, p + 1, np as u32, u32::MAX]);
                            let bb = *r.pick(&[0, 1, 16384, 32768, 16383, 1 << 30, u32::MAX, b]);
                            send(W::Piece(q, bb, r.bytes(n)).enc());
                        }
                        let _ = tx.send((at, f, Some(Ev::Answer(k, p, b))));
                        blocks += 1;
                        if cfg.noise && r.one_in(4) {
                            send(noise(&mut r, np));
                        }
                        if cfg.disconnect_after.map(|n| blocks >= n).unwrap_or(false) && k < cfg.disconnects {
                            tokio::time::sleep(Duration::from_millis(100)).await;
                            return;
                        }
                        if cfg.oversize_after.map(|n| blocks >= n).unwrap_or(false) {
                            let mut bu = budget.lock().unwrap();
                            if bu.oversize {
                                bu.oversize = false;
                                let mut f = (*r.pick(&[16513u32, 100_000, 1 << 24, u32::MAX, u32::MAX - 4, 1 << 31])).to_be_bytes().to_vec();
                                f.extend(r.bytes(300));
                                send(f);
                            }
                        }
                    }
                    W::Cancel(p, b, _) => {
                        queue.remove(&(p, b));
                    }
                    _ => (),
                }
            }
        }
    };
    tokio::select! {
        _ = writer => (),
        _ = reader => (),
    }
    note(Ev::Closed(k));
}

/// before the bitfield: nothing that could be taken for one
fn noise_early(r: &mut Rng, np: usize) -> Vec<u8> {
    loop {
        let f = noise(r, np);
        if f.get(4) != Some(&5) {
            return f;
        }
    }
}
