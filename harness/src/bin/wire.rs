//! Monitors of one connection: stream framing (P02), handshake (P03), outgoing messages and keep-alive (P04),
//! requests (P05), verification of pieces (P06).
use nargun::verif as n;
use n::data_structures::{SerializableBuf, ID};
use n::peers::connection::connection_handle::Connection;
use n::peers::connection::connection_manager::{ConMessageType as M, MAX_MESSAGE_BYTES};
use n::peers::connection::message::{Piece, Request};
use n::peers::peer::Peer;
use nv::content::{gen, Content, BLOCK};
use nv::fakepeer::*;
use nv::sha1::sha1;
use nv::vt::Virtual;
use nv::*;
use std::collections::{HashMap, HashSet};
use std::net::SocketAddrV4;
use std::os::fd::AsRawFd;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::sync::mpsc;

fn main() {
    let a = Args::parse();
    install_panic_monitor();
    install_hang_monitor(120);
    let mut r = a.rng();
    let rounds = a.num("rounds", 100);
    for _ in 0..rounds {
        beat();
        match a.property.as_str() {
            "P02" => p02(&mut r),
            "P03" => p03(&mut r),
            "P04" => p04(&mut r),
            "P06" if a.num("threads", 0) > 0 => p06_threads(&mut r),
            "P05" | "P06" => p05(&mut r, &a.property),
            x => inconclusive(&format!("unknown property {x}")),
        }
        if violation_count() > 20 {
            break;
        }
    }
    finish()
}

fn v4(l: &TcpListener) -> SocketAddrV4 {
    match l.local_addr().unwrap() {
        std::net::SocketAddr::V4(a) => a,
        _ => unreachable!(),
    }
}

fn tell(m: &M) -> String {
    match m {
        M::Unreachable => "unreachable".into(),
        M::Disconnected => "disconnected".into(),
        M::KeepAlive => "keepalive".into(),
        M::Choke => "choke".into(),
        M::Unchoke => "unchoke".into(),
        M::Interested => "interested".into(),
        M::NotInterested => "notinterested".into(),
        M::Have(i) => format!("have {i}"),
        M::Bitfield(b) => format!("bitfield {}", hex(b.as_ref())),
        M::Request(q) => format!("request {} {} {}", q.index, q.begin, q.length),
        M::Cancel(q) => format!("cancel {} {} {}", q.index, q.begin, q.length),
        M::FinishedPiece(p) => format!("piece {}", p.idx),
    }
}

fn tell_w(w: &W) -> Option<String> {
    Some(match w {
        W::KeepAlive => "keepalive".into(),
        W::Choke => "choke".into(),
        W::Unchoke => "unchoke".into(),
        W::Interested => "interested".into(),
        W::NotInterested => "notinterested".into(),
        W::Have(i) => format!("have {i}"),
        W::Bitfield(b) => format!("bitfield {}", hex(b)),
        W::Request(a, b, c) => format!("request {a} {b} {c}"),
        W::Cancel(a, b, c) => format!("cancel {a} {b} {c}"),
        W::Piece(..) | W::Port(_) | W::Other(..) => return None,
    })
}

fn gen_w(r: &mut Rng) -> W {
    match r.below(16) {
        0 => W::KeepAlive,
        1 => W::Choke,
        2 => W::Unchoke,
        3 => W::Interested,
        4 => W::NotInterested,
        5 | 6 => W::Have(r.edgy_u64() as u32),
        7 => {
            let n = *r.pick(&[0usize, 1, 2, 100, 5000, 16384, 16506, 16507, MAX_MESSAGE_BYTES - 5]);
            W::Bitfield(r.bytes(n))
        }
        8 => W::Request(r.next() as u32, r.next() as u32, r.next() as u32),
        9 => W::Cancel(r.next() as u32, r.next() as u32, r.next() as u32),
        10 => W::Port(r.next() as u16),
        11 | 12 => {
            let n = *r.pick(&[0usize, 1, 100, BLOCK - 1, BLOCK, BLOCK + 1, MAX_MESSAGE_BYTES - 13]);
            W::Piece(r.below(3) as u32, r.below(3) as u32 * BLOCK as u32, r.bytes(n))
        }
        13 => {
            let n = *r.pick(&[0usize, 1, 3, 500, 16000]);
            W::Other(*r.pick(&[10u8, 13, 14, 15, 16, 17, 20, 21, 128, 255]), r.bytes(n))
        }
        14 => W::Other(r.below(4) as u8, { let n = *r.pick(&[1usize, 4, 100]); r.bytes(n) }),
        _ => W::Other(*r.pick(&[4u8, 6, 7, 8, 9]), { let n = *r.pick(&[0usize, 1, 3, 5, 7, 11]); r.bytes(n) }),
    }
}

fn one_line(v: &[String]) -> String {
    let s: Vec<String> = v.iter().map(|x| if x.len() > 60 { format!("{}..({})", &x[..50], x.len()) } else { x.clone() }).collect();
    s.join("; ")
}

struct Con {
    con: Connection,
    dht: mpsc::Receiver<SocketAddrV4>,
    info_hash: [u8; 20],
    own: [u8; 20],
}

fn connection(r: &mut Rng, piece_length: usize, total: usize, dht_cap: usize) -> Con {
    let (tx, dht) = mpsc::channel(dht_cap);
    let (own, info_hash) = (r.id(), r.id());
    Con { con: Connection::new(ID::new(own), ID::new(info_hash), piece_length, total, tx), dht, info_hash, own }
}

async fn greet(s: &mut TcpStream, info_hash: &[u8; 20], r: &mut Rng) -> std::io::Result<[u8; 68]> {
    let mut h = [0u8; 68];
    s.read_exact(&mut h).await?;
    let reserved: [u8; 8] = r.bytes(8).try_into().unwrap();
    let id = r.id();
    s.write_all(&handshake(info_hash, &id, reserved)).await?;
    Ok(h)
}

// ---------------------------------------------------------------- P02

fn p02(r: &mut Rng) {
    let n = r.urange(1, 60);
    let msgs: Vec<W> = (0..n).map(|_| gen_w(r)).collect();
    let mut stream: Vec<u8> = Vec::new();
    for m in &msgs {
        stream.extend(m.enc());
    }
    // how it ends
    let end = r.below(4);
    match end {
        0 => (),
        1 => {
            // in the middle of a message
            let f = W::Piece(0, 0, r.bytes(3000)).enc();
            let cut = r.urange(1, f.len() - 1);
            stream.extend(&f[..cut]);
        }
        _ => {
            let l = *r.pick(&[MAX_MESSAGE_BYTES as u32 - 3, MAX_MESSAGE_BYTES as u32 + 1, 1 << 20, 1 << 31, u32::MAX - 4, u32::MAX - 3, u32::MAX]);
            stream.extend(l.to_be_bytes());
            // what follows isn't a message anymore, even if it looks like one
            for _ in 0..r.idx(10) {
                stream.extend(W::Have(4242).enc());
            }
        }
    }
    let want: Vec<String> = msgs.iter().filter_map(tell_w).collect();
    let want_ports: Vec<u16> = msgs.iter().filter_map(|m| if let W::Port(p) = m { Some(*p) } else { None }).collect();
    // segments
    let style = r.below(4);
    let mut cuts: Vec<usize> = Vec::new();
    let mut at = 0;
    while at < stream.len() {
        let step = match style {
            0 => stream.len(),
            1 => r.urange(1, 7),
            2 => r.urange(1, 3000),
            _ => *r.pick(&[1usize, 3, 4, 5, 13, 16384, 16512, 16513, 20000]),
        };
        let step = if stream.len() > 40_000 { step.max(40) } else { step };
        at = (at + step).min(stream.len());
        cuts.push(at);
    }
    let slow_consumer = r.one_in(3);
    let desc = format!("{} messages, {} bytes in {} segments, end {end}, slow={slow_consumer}: {}", n, stream.len(), cuts.len(), one_line(&want));
    set_context(desc.clone());
    let mut rr = r.fork();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let mut c = connection(&mut rr, 32768, 1 << 20, 8);
        let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
        let addr = v4(&l);
        c.con.connect(Peer::new(addr));
        let (mut s, _) = l.accept().await.unwrap();
        let _ = s.set_nodelay(true);
        if greet(&mut s, &c.info_hash, &mut rr).await.is_err() {
            violation("handshake", &format!("connection was lost in the handshake: {desc}"));
            return;
        }
        let writer = tokio::spawn(async move {
            let mut from = 0;
            for to in cuts {
                if s.write_all(&stream[from..to]).await.is_err() {
                    break;
                }
                from = to;
                tokio::task::yield_now().await;
            }
            let _ = s.flush().await;
            if end < 2 {
                let _ = s.shutdown().await;
            }
            // until the other side closes
            let mut b = [0u8; 4096];
            while !matches!(s.read(&mut b).await, Ok(0) | Err(_)) {}
        });
        let mut dht = c.dht;
        let ports: Arc<Mutex<Vec<SocketAddrV4>>> = Arc::default();
        let p2 = ports.clone();
        tokio::spawn(async move {
            while let Some(a) = dht.recv().await {
                p2.lock().unwrap().push(a);
            }
        });
        let mut got: Vec<String> = Vec::new();
        let mut ended = false;
        loop {
            match tokio::time::timeout(Duration::from_secs(40), c.con.recv()).await {
                Err(_) => break,
                Ok(m) => {
                    if m.peer != Peer::new(addr) {
                        violation("sender", &format!("message of {} is said to be from {}", addr, m.peer.to_string()));
                    }
                    if let M::Disconnected = m.message {
                        ended = true;
                        break;
                    }
                    got.push(tell(&m.message));
                    if slow_consumer {
                        for _ in 0..rr.idx(30) {
                            tokio::task::yield_now().await;
                        }
                    }
                }
            }
        }
        if got != want {
            let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            violation(
                "stream",
                &format!("{} messages were delivered instead of {}, first difference at {at}: {:?} instead of {:?}; {desc}", got.len(), want.len(), got.get(at).map(|x| x.chars().take(80).collect::<String>()), want.get(at).map(|x| x.chars().take(80).collect::<String>())),
            );
        } else if !ended {
            violation("not-ended", &format!("the end of the connection wasn't noticed: {desc}"));
        }
        if ended && tokio::time::timeout(Duration::from_secs(20), writer).await.is_err() {
            violation("not-closed", &format!("the connection stays open after it was reported as disconnected: {desc}"));
        }
        tokio::task::yield_now().await;
        let ports: Vec<SocketAddrV4> = ports.lock().unwrap().clone();
        let wp: Vec<SocketAddrV4> = want_ports.iter().map(|p| SocketAddrV4::new(*addr.ip(), *p)).collect();
        if ports != wp {
            violation("ports", &format!("DHT nodes {ports:?} were reported instead of {wp:?}: {desc}"));
        }
        count("messages", n as u64);
        count("delivered", got.len() as u64);
        count("ports", wp.len() as u64);
        count(["closed", "cut", "oversized", "oversized"][end as usize], 1);
    });
    eval(Some(hash_of(desc.as_bytes())));
    sample("stream", || desc.clone());
}

// ---------------------------------------------------------------- P03

fn p03(r: &mut Rng) {
    let attempts = r.urange(1, 4);
    let plan: Vec<(u64, usize, u64)> = (0..attempts).map(|_| (r.below(12), r.urange(0, 67), r.below(3))).collect();
    let desc = format!("attempts {plan:?}");
    set_context(desc.clone());
    let mut rr = r.fork();
    let rt = nv::vt::runtime();
    rt.block_on(async {
        let v = Virtual::new(8);
        let Con { mut con, dht: _dht, info_hash, own } = connection(&mut rr, 32768, 1 << 20, 8);
        let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
        let addr = v4(&l);
        let peer = Peer::new(addr);
        // one listener for all attempts; the connection is dropped when its attempt is over
        let mut l = Some(l);
        for (k, (kind, cut, seg)) in plan.iter().copied().enumerate() {
            let refused = kind == 0;
            if refused {
                l = None;
            } else if l.is_none() {
                match TcpListener::bind(std::net::SocketAddr::V4(addr)).await {
                    Ok(x) => l = Some(x),
                    Err(_) => return, // somebody else has the port now
                }
            }
            let begin = v.now();
            con.connect(peer);
            con.connect(peer); // already connecting: nothing happens
            if refused {
                let m = expect(&v, &mut con, 40.0).await;
                match m {
                    Some(M::Unreachable) => count("refused", 1),
                    m => violation("refused", &format!("refused connection is reported as {:?}: {desc}", m.as_ref().map(tell))),
                }
                continue;
            }
            let ll = l.as_ref().unwrap();
            let s = accept(&v, ll).await;
            let Some(mut s) = s else {
                violation("no-connect", &format!("attempt {k}: nobody connected: {desc}"));
                return;
            };
            let _ = s.set_nodelay(true);
            let mut h = [0u8; 68];
            if s.read_exact(&mut h).await.is_err() {
                violation("no-handshake", &format!("attempt {k}: connection closed before the handshake: {desc}"));
                return;
            }
            // reserved bytes: DHT is supported (BEP 5), and nothing else is promised
            if h[..] != handshake(&info_hash, &own, [0, 0, 0, 0, 0, 0, 0, 1])[..] {
                violation("handshake-bytes", &format!("handshake is {}", hex(&h)));
            }
            count("handshakes_seen", 1);
            let mut a = handshake(&info_hash, &rr.id(), rr.bytes(8).try_into().unwrap());
            let mut good = false;
            let what = match kind {
                1 | 2 | 3 | 4 => {
                    good = true;
                    "good"
                }
                5 => {
                    a[1 + rr.idx(19)] ^= 1 << rr.idx(8);
                    "protocol"
                }
                6 => {
                    a[0] = *rr.pick(&[0u8, 1, 18, 20, 255]);
                    "length"
                }
                7 | 8 => {
                    a[28 + rr.idx(20)] ^= 1 << rr.idx(8);
                    "torrent"
                }
                9 => {
                    a.truncate(cut);
                    "truncated"
                }
                10 => {
                    a.truncate(cut);
                    "stalled"
                }
                _ => {
                    a.clear();
                    "silent"
                }
            };
            // in segments, over time
            let mut from = 0;
            while from < a.len() {
                let to = match seg {
                    0 => a.len(),
                    1 => from + 1,
                    _ => (from + rr.urange(1, 40)).min(a.len()),
                };
                if s.write_all(&a[from..to]).await.is_err() {
                    break;
                }
                from = to;
                if seg == 2 {
                    v.pass(0.5, 0.5).await;
                } else {
                    tokio::task::yield_now().await;
                }
            }
            count(what, 1);
            if good {
                // messages that came along with the handshake aren't lost
                let _ = s.write_all(&[W::Have(7).enc(), W::Unchoke.enc()].concat()).await;
                for want in ["have 7", "unchoke"] {
                    match expect(&v, &mut con, 20.0).await {
                        Some(m) if tell(&m) == want => (),
                        m => violation("good", &format!("attempt {k}: {:?} instead of {want} after a good handshake in segments {seg}: {desc}", m.as_ref().map(tell))),
                    }
                }
                // and it works in the other direction
                if con.interested(true, peer).await.is_err() {
                    violation("send", &format!("attempt {k}: nothing can be sent: {desc}"));
                }
                let mut b = [0u8; 5];
                v.settle(20).await;
                if s.try_read(&mut b).ok() != Some(5) || b != [0, 0, 0, 1, 2] {
                    violation("send", &format!("attempt {k}: interested wasn't sent: {desc}"));
                }
                if rr.bool() {
                    con.disconnect(&peer);
                    drop_and_wait(&v, s).await;
                    v.settle(10).await;
                } else {
                    drop(s);
                    match expect(&v, &mut con, 20.0).await {
                        Some(M::Disconnected) => (),
                        m => violation("eof", &format!("attempt {k}: {:?} instead of disconnected: {desc}", m.as_ref().map(tell))),
                    }
                }
            } else {
                let mut keep = Some(s);
                if what == "truncated" {
                    keep = None;
                }
                let m = expect(&v, &mut con, 90.0).await;
                let took = v.now() - begin;
                match m {
                    Some(M::Unreachable) => (),
                    m => violation("bad", &format!("attempt {k}: {:?} after {took:.0} s instead of unreachable ({what}, cut at {cut}): {desc}", m.as_ref().map(tell))),
                }
                if what != "silent" && what != "stalled" && took > 36.0 {
                    violation("bad-late", &format!("attempt {k}: a bad handshake ({what}) was noticed after {took:.0} s: {desc}"));
                }
                if let Some(s) = keep {
                    drop_and_wait(&v, s).await;
                }
            }
            eval(Some(hash_of(format!("{what} {cut} {seg} {k} {:?}", a).as_bytes())));
            sample(what, || format!("attempt {k}, cut {cut}, segments {seg}"));
        }
        v.end();
    });
    rt.shutdown_background();
}

/// the client closes its side
async fn drop_and_wait(v: &Virtual, mut s: TcpStream) {
    for _ in 0..40 {
        let mut b = [0u8; 1000];
        match s.try_read(&mut b) {
            Ok(0) => return,
            Ok(_) => continue,
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => v.pass(0.2, 0.2).await,
            Err(_) => return,
        }
    }
    violation("left-open", "the socket of a connection that is over stays open");
    let _ = s.shutdown().await;
}

async fn accept(v: &Virtual, l: &TcpListener) -> Option<TcpStream> {
    for _ in 0..60 {
        tokio::select! {
            biased;
            s = l.accept() => return s.ok().map(|x| x.0),
            _ = v.settle(4) => (),
        }
    }
    None
}

/// next message within that many virtual seconds
async fn expect(v: &Virtual, con: &mut Connection, secs: f64) -> Option<M> {
    let end = v.now() + secs;
    loop {
        tokio::select! {
            biased;
            m = con.recv() => return Some(m.message),
            _ = v.settle(30) => (),
        }
        if v.now() >= end {
            return None;
        }
        v.pass(1.0, 1.0).await;
    }
}

// ---------------------------------------------------------------- P04

fn p04(r: &mut Rng) {
    let n = r.urange(0, 50);
    let peers_n = r.urange(1, 3);
    let mut script: Vec<(usize, W)> = (0..n)
        .map(|_| {
            let w = loop {
                let w = gen_w(r);
                if matches!(w, W::Choke | W::Unchoke | W::Interested | W::NotInterested | W::Have(_) | W::Bitfield(_) | W::Piece(..) | W::Cancel(..) | W::Port(_)) {
                    break w;
                }
            };
            (r.idx(peers_n), w)
        })
        .collect();
    let slow: Vec<bool> = (0..peers_n).map(|_| r.one_in(3)).collect();
    // one that doesn't read at all for a while, until nothing fits into the sockets anymore
    let stalled = r.one_in(8).then(|| r.idx(peers_n));
    if let Some(k) = stalled {
        for _ in 0..r.urange(300, 500) {
            let at = r.idx(script.len() + 1);
            script.insert(at, (k, W::Piece(r.next() as u32, r.next() as u32, r.bytes(BLOCK))));
        }
    }
    let n = script.len();
    let idle = r.range(100, 700) as f64;
    let early = r.bool();
    let desc = format!("{n} messages to {peers_n} peers (slow readers {slow:?}, stalled {stalled:?}), then {idle} s of silence");
    set_context(desc.clone());
    let mut rr = r.fork();
    let rt = nv::vt::runtime();
    rt.block_on(async {
        let v = Virtual::new(8);
        let Con { mut con, dht: _dht, info_hash, .. } = connection(&mut rr, 32768, 1 << 20, 8);
        let sent = Arc::new(Mutex::new(0usize));
        let mut addrs = Vec::new();
        let mut logs: Vec<Arc<Mutex<Vec<(f64, W)>>>> = Vec::new();
        let start = tokio::time::Instant::now();
        for k in 0..peers_n {
            let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
            addrs.push(v4(&l));
            let log: Arc<Mutex<Vec<(f64, W)>>> = Arc::default();
            logs.push(log.clone());
            let (slow, stalled, mut rr) = (slow[k], stalled == Some(k), rr.fork());
            let pause = Duration::from_millis(rr.range(2_000, 60_000));
            let s3 = sent.clone();
            tokio::spawn(async move {
                let Ok((mut s, _)) = l.accept().await else { return };
                if greet(&mut s, &info_hash, &mut rr).await.is_err() {
                    return;
                }
                if stalled {
                    tokio::time::sleep(pause).await;
                    count(if *s3.lock().unwrap() < n { "stalled" } else { "stalled_late" }, 1);
                }
                let mut buf = Vec::new();
                let mut tmp = vec![0u8; if slow { 777 } else { 65536 }];
                loop {
                    match s.read(&mut tmp).await {
                        Ok(0) | Err(_) => return,
                        Ok(n) => {
                            buf.extend_from_slice(&tmp[..n]);
                            quickack(s.as_raw_fd());
                        }
                    }
                    while let Some((w, n)) = W::dec(&buf) {
                        buf.drain(..n);
                        log.lock().unwrap().push((start.elapsed().as_secs_f64(), w));
                    }
                    if slow {
                        tokio::task::yield_now().await;
                    }
                }
            });
        }
        for a in &addrs {
            con.connect(Peer::new(*a));
        }
        if !early {
            v.settle(40).await;
        }
        // nobody is connected there
        if con.have(Peer::new("127.0.0.1:1".parse().unwrap()), 3).await.is_ok() {
            violation("send-to-nobody", "a message to a peer that isn't connected was accepted");
        }
        let info = script.clone();
        let (s2, a2) = (sent.clone(), addrs.clone());
        let task = tokio::spawn(async move {
            for (k, w) in info {
                let p = Peer::new(a2[k]);
                let res = match w {
                    W::Choke => con.choke(true, p).await,
                    W::Unchoke => con.choke(false, p).await,
                    W::Interested => con.interested(true, p).await,
                    W::NotInterested => con.interested(false, p).await,
                    W::Have(x) => con.have(p, x).await,
                    W::Bitfield(b) => con.bitfield(p, SerializableBuf::from(b.as_slice())).await,
                    W::Piece(a, b, d) => con.piece(p, Piece::new(a, b, &d)).await,
                    W::Cancel(a, b, c) => con.cancel(p, Request { index: a, begin: b, length: c }).await,
                    W::Port(x) => con.port(p, x).await,
                    _ => unreachable!(),
                };
                if let Err(e) = res {
                    violation("send-failed", &format!("message can't be sent: {e}"));
                }
                *s2.lock().unwrap() += 1;
            }
            con
        });
        for _ in 0..400 {
            if *sent.lock().unwrap() == n && (0..peers_n).all(|k| logs[k].lock().unwrap().len() >= script.iter().filter(|x| x.0 == k).count()) {
                break;
            }
            if stalled.is_some() {
                v.pass(0.25, 0.25).await;
                beat();
            }
            v.settle(10).await;
        }
        let quiet_from = v.now();
        let mut con = match tokio::time::timeout(Duration::from_secs(5), task).await {
            Ok(Ok(c)) => c,
            _ => {
                violation("send-stuck", &format!("only {} messages could be sent: {desc}", sent.lock().unwrap()));
                return;
            }
        };
        // silence
        v.pass(idle, 5.0).await;
        let end = v.now();
        for k in 0..peers_n {
            let log = logs[k].lock().unwrap().clone();
            let got: Vec<W> = log.iter().map(|x| x.1.clone()).filter(|w| *w != W::KeepAlive).collect();
            let want: Vec<W> = script.iter().filter(|x| x.0 == k).map(|x| x.1.clone()).collect();
            if got != want {
                let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                violation("order", &format!("peer {k} got {} messages instead of {}, first difference at {at}: {} instead of {}: {desc}", got.len(), want.len(), got.get(at).map(|w| show(&w.enc())).unwrap_or_default().chars().take(80).collect::<String>(), want.get(at).map(|w| show(&w.enc())).unwrap_or_default().chars().take(80).collect::<String>()));
            }
            count("messages", got.len() as u64);
            // peers close connections that are silent for two minutes
            let mut last = quiet_from;
            let mut gaps = vec![];
            for t in log.iter().map(|x| x.0).filter(|t| *t > quiet_from).chain([end]) {
                gaps.push(t - last);
                last = t;
            }
            count("keepalives", log.iter().filter(|x| x.1 == W::KeepAlive).count() as u64);
            if let Some(g) = gaps.iter().find(|g| **g > 120.0) {
                violation("keep-alive", &format!("peer {k} heard nothing for {g:.0} s: {desc}"));
            }
            if log.iter().filter(|x| x.1 == W::KeepAlive).count() as f64 > 2.0 + end / 30.0 {
                violation("keep-alive-flood", &format!("peer {k} got a keep-alive more often than every 30 s: {desc}"));
            }
        }
        // no connection was given up
        if let Some(m) = tokio::select! { biased; m = con.recv() => Some(m), _ = v.settle(10) => None } {
            violation("lost", &format!("{} although the peer did nothing wrong: {desc}", tell(&m.message)));
        }
        v.end();
    });
    rt.shutdown_background();
    eval(Some(hash_of(format!("{desc} {script:?}").as_bytes())));
    sample("run", || format!("{desc}: {}", script.iter().take(12).map(|(k, w)| format!("{k}<-{}", show(&w.enc()).chars().take(30).collect::<String>())).collect::<Vec<_>>().join(" ")));
}

// ---------------------------------------------------------------- P05, P06

fn p05(r: &mut Rng, prop: &str) {
    let max = *r.pick(&[40_000usize, 200_000, 600_000]);
    let multi = r.bool();
    let mut c = gen(r, max, multi);
    if c.pieces() > 60 {
        c.piece_length = BLOCK * r.urange(1, 3);
    }
    let regime = r.below(6);
    if regime < 3 {
        // small pieces and enough of them: new ones begin all the time
        c.piece_length = BLOCK * r.urange(1, 4);
        while c.pieces() > 60 {
            c.piece_length *= 2;
        }
    }
    let far = c.files.is_none() && r.one_in(3);
    if far {
        // around 2 or 4 GiB, or behind that
        c.piece_length = BLOCK * r.urange(4, 6) - if r.bool() { r.urange(0, BLOCK) } else { 0 };
        c.skip = (*r.pick(&[1usize << 31, 1 << 32, (1 << 32) + (1 << 31), 1 << 33]) / c.piece_length + r.idx(6)).saturating_sub(r.idx(6)).min(131_000);
    }
    let c = Arc::new(c);
    let np = c.pieces();
    let n = if regime < 3 { r.urange(2, 4) } else { r.urange(1, 4) };
    let mut cfgs: Vec<Cfg> = Vec::new();
    for k in 0..n {
        let mut cfg = Cfg::honest(vec![true; np]);
        cfg.split = r.one_in(3);
        cfg.unchoke_without_interest = true;
        let slow = r.range(2, 60) as f64 / 10.0;
        if regime == 0 && k > 0 {
            // requests expire while a slow peer has many of its own
            if k > 1 || r.bool() {
                cfg.drop = 100;
            } else {
                cfg.delay = slow;
            }
        } else if regime == 1 && k > 0 {
            // answers that come when others were already asked
            cfg.delay = if r.bool() { r.range(680, 860) as f64 / 100.0 } else { r.range(980, 1140) as f64 / 100.0 };
        } else if regime == 2 && k > 0 {
            // requests are forgotten while others have theirs
            cfg.rechoke = Some((r.range(2, 30) as f64 / 4.0, r.range(1, 30) as f64 / 4.0));
            cfg.drop = *r.pick(&[0, 50, 100]);
        } else if regime < 3 {
            cfg.delay = if r.one_in(3) { 0.0 } else { slow };
        } else if r.bool() {
            match r.below(11) {
                0 => cfg.delay = r.range(1, 30) as f64 / 10.0,
                1 => cfg.drop = *r.pick(&[20u64, 50, 100]),
                2 => cfg.corrupt = r.urange(1, 4),
                3 => cfg.bad_length = r.urange(1, 5),
                4 => cfg.duplicate = true,
                5 => cfg.unsolicited = true,
                6 => {
                    cfg.disconnect_after = Some(r.urange(1, 20));
                    cfg.disconnects = 99;
                }
                7 => cfg.noise = true,
                8 => cfg.oversize_after = Some(r.urange(1, 10)),
                9 => cfg.rechoke = Some((r.range(1, 40) as f64 / 4.0, r.range(1, 60) as f64 / 4.0)),
                _ => cfg.unchoke = *r.pick(&[None, Some(3.0), Some(20.0)]),
            }
        }
        cfgs.push(cfg);
    }
    // each piece from some of them
    let plan: Vec<HashSet<usize>> = (0..np)
        .map(|_| {
            let k = if regime < 3 && !r.one_in(4) { n.min(3) } else { r.urange(1, n.min(3)) };
            let mut s = HashSet::new();
            while s.len() < k {
                s.insert(r.idx(n));
            }
            s
        })
        .collect();
    let desc = format!("{} from [{}]", c.describe(), cfgs.iter().map(|c| c.brief()).collect::<Vec<_>>().join("] ["));
    set_context(desc.clone());
    let mut rr = r.fork();
    let secs = 150.0;
    let rt = nv::vt::runtime();
    rt.block_on(async {
        let v = Virtual::new(6);
        let start = tokio::time::Instant::now();
        let (tx, mut dht) = mpsc::channel(8);
        tokio::spawn(async move { while dht.recv().await.is_some() {} });
        let mut con = Connection::new(ID::new(rr.id()), ID::new(c.info_hash()), c.piece_length, c.len(), tx);
        let mut peers = Vec::new();
        for cfg in &cfgs {
            peers.push(FakePeer::spawn(start, c.clone(), cfg.clone(), rr.fork()).await);
        }
        for p in &peers {
            con.connect(Peer::new(p.addr));
            v.pass(0.13, 0.13).await;
        }
        // what the harness tells it to download, and when
        let orders: Arc<Mutex<Vec<(f64, usize, usize)>>> = Arc::default();
        let finished: Arc<Mutex<Vec<(f64, usize, Vec<Vec<u8>>)>>> = Arc::default();
        let dead: Arc<Mutex<HashSet<usize>>> = Arc::default();
        let (o2, f2, d2, c2, plan2) = (orders.clone(), finished.clone(), dead.clone(), c.clone(), plan.clone());
        let addrs: Vec<Peer> = peers.iter().map(|p| Peer::new(p.addr)).collect();
        let driver = tokio::spawn(async move {
            let mut next = c2.skip;
            let mut active: HashSet<usize> = HashSet::new();
            loop {
                while next < np && active.len() < 9 {
                    let hash = ID::new(sha1(c2.piece(next)));
                    let mut any = false;
                    for k in &plan2[next] {
                        if con.download_piece(addrs[*k], next, hash).await.is_ok() {
                            o2.lock().unwrap().push((start.elapsed().as_secs_f64(), next, *k));
                            any = true;
                        }
                    }
                    if any {
                        active.insert(next);
                    }
                    next += 1;
                }
                let m = con.recv().await;
                match m.message {
                    M::FinishedPiece(p) => {
                        con.forget_piece(p.idx);
                        active.remove(&p.idx);
                        f2.lock().unwrap().push((start.elapsed().as_secs_f64(), p.idx, p.data));
                    }
                    M::Disconnected | M::Unreachable => {
                        let gone = addrs.iter().position(|a| *a == m.peer).unwrap();
                        d2.lock().unwrap().insert(gone);
                        // pieces that nobody downloads anymore
                        let dead = d2.lock().unwrap().clone();
                        let lost: Vec<usize> = active.iter().copied().filter(|p| plan2[*p].iter().all(|k| dead.contains(k))).collect();
                        for p in lost {
                            con.forget_piece(p);
                            active.remove(&p);
                        }
                    }
                    _ => (),
                }
            }
        });
        let mut t = 0.0;
        while t < secs {
            // of different lengths: timers of different peers must not always expire in the same step
            let d = rr.range(60, 160) as f64 / 1000.0;
            v.pass(d, d).await;
            t += d;
            beat();
            if finished.lock().unwrap().len() >= np - c.skip && t > 3.0 {
                break;
            }
        }
        // answers that are still on their way, or come twice
        v.pass(10.0, 0.5).await;
        let finished = finished.lock().unwrap().clone();
        let orders = orders.lock().unwrap().clone();
        let dead = dead.lock().unwrap().clone();

        // P06: nothing but what the torrent says, once
        let mut seen: HashMap<usize, usize> = HashMap::new();
        for (at, idx, data) in &finished {
            *seen.entry(*idx).or_insert(0) += 1;
            if *idx >= np || *idx < c.skip || !orders.iter().any(|o| o.1 == *idx && o.0 <= *at) {
                violation("unordered-piece", &format!("piece {idx} was finished, nobody asked for it: {desc}"));
                continue;
            }
            if prop == "P06" && data.concat() != c.piece(*idx) {
                violation("wrong-data", &format!("piece {idx} was finished at {at:.1} s with wrong data: {desc}"));
            }
            if prop == "P06" && *data != c.blocks(*idx) {
                violation("wrong-blocks", &format!("piece {idx} was finished with blocks of {:?} bytes: {desc}", data.iter().map(|b| b.len()).collect::<Vec<_>>()));
            }
        }
        for (idx, k) in &seen {
            if *k > 1 {
                violation("finished-twice", &format!("piece {idx} was finished {k} times: {desc}"));
            }
        }
        count("pieces_finished", finished.len() as u64);
        if far {
            count("far_pieces_finished", finished.iter().filter(|f| f.1 * c.piece_length >= 1 << 32).count() as u64);
        }
        count(["swarms_silent", "swarms_late", "swarms_choking", "swarms_mixed"][regime.min(3) as usize], 1);
        // progress: somebody whose answers are good and in time works on it
        for p in c.skip..np {
            let fine = |k: usize| {
                let q = &cfgs[k];
                q.drop == 0 && q.delay < 6.1 && q.unchoke == Some(0.0) && q.rechoke.is_none() && q.disconnect_after.is_none() && q.oversize_after.is_none() && !dead.contains(&k)
            };
            let ordered: Vec<usize> = orders.iter().filter(|o| o.1 == p).map(|o| o.2).collect();
            if ordered.iter().any(|k| fine(*k)) && !seen.contains_key(&p) {
                // every other peer that holds blocks back costs some timeouts
                violation("no-progress", &format!("piece {p}, asked for at {:?}, isn't finished after {secs} s although peer {:?} serves it: {desc}", orders.iter().filter(|o| o.1 == p).map(|o| o.0 as u64).collect::<Vec<_>>(), ordered.iter().find(|k| fine(**k))));
                break;
            }
        }
        if prop == "P05" {
            judge_requests(&c, &peers, &orders, &finished, &desc);
        } else {
            for p in &peers {
                count("blocks_answered", p.log().iter().filter(|e| matches!(e.1, Ev::Answer(..))).count() as u64);
            }
        }
        for p in &peers {
            count(&format!("peer_{}", if p.cfg.corrupt > 0 { "corrupt" } else if p.cfg.drop > 0 { "dropping" } else if p.cfg.rechoke.is_some() { "choking" } else if p.cfg.disconnect_after.is_some() { "leaving" } else if p.cfg.bad_length > 0 { "wrong_length" } else { "other" }), 1);
            p.stop();
        }
        driver.abort();
        v.end();
    });
    rt.shutdown_background();
    eval(Some(hash_of(desc.as_bytes())));
    sample("swarm", || desc.clone());
}

/// Several threads and real time: blocks of the same pieces arrive from several peers at once. What the swarms of
/// `p05` show in one order per scenario happens here at the same time.
fn p06_threads(r: &mut Rng) {
    let n = r.urange(2, 6);
    let blocks = *r.pick(&[2usize, 3, 5, 16, 40]);
    let np = r.urange(4, 1 + 400 / blocks.max(10));
    let piece_length = BLOCK * blocks - if r.bool() { r.urange(0, BLOCK - 1) } else { 0 };
    let len = (np - 1) * piece_length + r.urange(1, piece_length);
    let data = r.bytes(len);
    let c = Arc::new(Content { name: "t".into(), piece_length, files: None, data, skip: 0 });
    let mut cfgs = Vec::new();
    for k in 0..n {
        let mut cfg = Cfg::honest(vec![true; np]);
        cfg.unchoke_without_interest = true;
        cfg.split = r.one_in(4);
        cfg.delay = r.below(4) as f64 / 1000.0;
        match r.below(8) {
            0 => cfg.duplicate = true,
            1 if k > 0 => cfg.corrupt = r.urange(1, 3),
            _ => (),
        }
        cfgs.push(cfg);
    }
    // a piece that is ordered from one more peer after others finished it may be finished again
    let gate = Arc::new(tokio::sync::RwLock::new(()));
    for cfg in cfgs.iter_mut() {
        cfg.gate = Some(gate.clone());
    }
    let bad = cfgs.iter().any(|c| c.corrupt > 0);
    let desc = format!("threads: {} from [{}]", c.describe(), cfgs.iter().map(|c| c.brief()).collect::<Vec<_>>().join("] ["));
    set_context(desc.clone());
    let mut rr = r.fork();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    let finished: Vec<(usize, Vec<Vec<u8>>)> = rt.block_on(async {
        let start = tokio::time::Instant::now();
        let (tx, mut dht) = mpsc::channel(8);
        tokio::spawn(async move { while dht.recv().await.is_some() {} });
        let mut con = Connection::new(ID::new(rr.id()), ID::new(c.info_hash()), c.piece_length, c.data.len(), tx);
        let mut peers = Vec::new();
        for cfg in &cfgs {
            peers.push(FakePeer::spawn(start, c.clone(), cfg.clone(), rr.fork()).await);
        }
        let addrs: Vec<Peer> = peers.iter().map(|p| Peer::new(p.addr)).collect();
        for a in &addrs {
            con.connect(*a);
        }
        let mut connected = HashSet::new();
        let mut active: HashSet<usize> = HashSet::new();
        let mut next = 0;
        let mut got = Vec::new();
        // a machine that has other things to do must not make this fail: without news for long it's given up
        let mut news = tokio::time::Instant::now();
        let mut after = None;
        loop {
            while connected.len() == n && next < np && active.len() < 9 {
                let hash = ID::new(sha1(c.piece(next)));
                let mut ks: Vec<usize> = (0..n).collect();
                rr.shuffle(&mut ks);
                let mut any = false;
                let _closed = gate.write().await;
                for k in &ks[..n.min(3)] {
                    any |= con.download_piece(addrs[*k], next, hash).await.is_ok();
                }
                if any {
                    active.insert(next);
                } else {
                    break;
                }
                next += 1;
            }
            let wait = after.unwrap_or(100);
            match tokio::time::timeout(Duration::from_millis(wait), con.recv()).await {
                Ok(m) => {
                    news = tokio::time::Instant::now();
                    match m.message {
                        M::FinishedPiece(p) => {
                            con.forget_piece(p.idx);
                            active.remove(&p.idx);
                            got.push((p.idx, p.data));
                        }
                        M::Bitfield(_) | M::Have(_) => {
                            connected.insert(m.peer);
                        }
                        _ => (),
                    }
                }
                Err(_) if after.is_some() => break,
                Err(_) if news.elapsed().as_secs() > if bad { 15 } else { 60 } => break,
                _ => (),
            }
            if active.is_empty() && next == np {
                // what comes twice
                after = Some(60);
            }
            beat();
        }
        for p in &peers {
            p.stop();
        }
        got
    });
    rt.shutdown_background();
    let mut seen: HashMap<usize, usize> = HashMap::new();
    for (idx, data) in &finished {
        *seen.entry(*idx).or_insert(0) += 1;
        if *idx >= np {
            violation("unordered-piece", &format!("piece {idx} was finished, nobody asked for it: {desc}"));
        } else if *data != c.blocks(*idx) {
            violation("wrong-data", &format!("piece {idx} was finished with wrong data: {desc}"));
        }
    }
    for (idx, k) in &seen {
        if *k > 1 {
            violation("finished-twice", &format!("piece {idx} was finished {k} times: {desc}"));
        }
    }
    if seen.len() < np {
        count("threads_incomplete", 1);
        if !bad {
            violation("threads-no-progress", &format!("{} of {np} pieces were finished, and nothing for a minute after that: {desc}", seen.len()));
        }
    }
    count("threads_pieces", finished.len() as u64);
    eval(Some(hash_of(desc.as_bytes())));
    sample("threads", || desc.clone());
}

fn judge_requests(c: &Content, peers: &[FakePeer], orders: &[(f64, usize, usize)], finished: &[(f64, usize, Vec<Vec<u8>>)], desc: &str) {
    // all events in one order
    let mut all: Vec<(f64, usize, usize, Ev)> = Vec::new();
    for (k, p) in peers.iter().enumerate() {
        for (n, (t, e)) in p.log().into_iter().enumerate() {
            all.push((t, k, n, e));
        }
    }
    all.sort_by(|a, b| a.0.total_cmp(&b.0).then(a.1.cmp(&b.1)).then(a.2.cmp(&b.2)));
    let corrupt_possible = peers.iter().any(|p| p.cfg.corrupt > 0 || p.cfg.bad_length > 0 || p.cfg.unsolicited || p.cfg.noise);
    // (piece, begin) -> who was asked and when, unanswered
    let mut claims: HashMap<(u32, u32), Vec<(usize, f64)>> = HashMap::new();
    let mut outstanding: Vec<HashMap<(u32, u32), f64>> = vec![HashMap::new(); peers.len()];
    let mut choked_at: Vec<Option<f64>> = vec![Some(-1.0); peers.len()];
    let mut unchoked_ever = vec![false; peers.len()];
    for (t, k, _, e) in all {
        match e {
            Ev::Got(_, W::Request(p, b, l)) => {
                count("requests", 1);
                let (pi, bi, li) = (p as usize, b as usize, l as usize);
                if pi >= c.pieces() || pi < c.skip || bi % BLOCK != 0 || bi >= c.piece(pi).len() {
                    violation("bounds", &format!("request ({p}, {b}, {l}) is out of bounds: {desc}"));
                    continue;
                }
                if li != (c.piece(pi).len() - bi).min(BLOCK) {
                    violation("length", &format!("request ({p}, {b}, {l}) should be for {} bytes: {desc}", (c.piece(pi).len() - bi).min(BLOCK)));
                }
                if !orders.iter().any(|o| o.1 == pi && o.2 == k && o.0 <= t + 0.01) {
                    violation("not-ordered", &format!("peer {k} was asked for piece {p} that nobody wanted from it: {desc}"));
                }
                if let Some((f, _, _)) = finished.iter().find(|f| f.1 == pi && f.0 + 1.5 < t) {
                    violation("already-finished", &format!("piece {p}, finished at {f:.1} s, was asked for at {t:.1} s: {desc}"));
                }
                if let Some(at) = choked_at[k] {
                    if !unchoked_ever[k] {
                        violation("before-unchoke", &format!("peer {k} was asked for a block at {t:.1} s, before it ever unchoked: {desc}"));
                    } else if t > at + 0.6 {
                        violation("choked", &format!("peer {k} was asked for a block at {t:.1} s, it chokes since {at:.1} s: {desc}"));
                    }
                }
                let o = &mut outstanding[k];
                o.retain(|_, at| t - *at < 5.5);
                if let Some(at) = o.get(&(p, b)) {
                    if !corrupt_possible {
                        violation("asked-again", &format!("peer {k} was asked for ({p}, {b}) at {at:.1} s and again at {t:.1} s: {desc}"));
                    }
                }
                if choked_at[k].is_some() {
                    // crossed the choke, both sides forget it
                    continue;
                }
                o.insert((p, b), t);
                // a block that is asked for again after an answer of a wrong length is answered twice
                if o.len() > if corrupt_possible { 32 } else { 16 } {
                    violation("too-many", &format!("{} unanswered requests to peer {k} at {t:.1} s: {desc}", o.len()));
                }
                let cl = claims.entry((p, b)).or_default();
                cl.retain(|(_, at)| t - *at < 5.5);
                if let Some((other, at)) = cl.iter().find(|(q, _)| *q != k) {
                    if !corrupt_possible {
                        violation("two-peers", &format!("({p}, {b}) was asked from peer {other} at {at:.1} s and from {k} at {t:.1} s: {desc}"));
                    }
                }
                cl.push((k, t));
            }
            Ev::Answer(_, p, b) => {
                outstanding[k].remove(&(p, b));
                if let Some(cl) = claims.get_mut(&(p, b)) {
                    cl.retain(|(q, _)| *q != k);
                }
            }
            Ev::Choked(_) | Ev::Closed(_) => {
                if let Ev::Choked(_) = e {
                    choked_at[k] = Some(t);
                    count("chokes", 1);
                }
                outstanding[k].clear();
                for cl in claims.values_mut() {
                    cl.retain(|(q, _)| *q != k);
                }
            }
            Ev::Unchoked(_) => {
                choked_at[k] = None;
                unchoked_ever[k] = true;
            }
            _ => (),
        }
    }
}
