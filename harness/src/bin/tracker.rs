//! Monitors of the tracker protocol: responses (K02), life cycle of announcing (K03).
use nargun::verif as n;
use bendy::decoding::FromBencode;
use n::data_structures::ID;
use n::peers::active_peers::Peers;
use n::peers::peer::Peer;
use n::tracker::response::Response;
use n::transcoding::metainfo::Torrent;
use nv::bencode::{arbitrary, dict, i, mutate, s, B};
use nv::content::Content;
use nv::vt::Virtual;
use nv::*;
use std::collections::{HashMap, HashSet};
use std::net::{Ipv4Addr, SocketAddrV4};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use tokio::io::{AsyncReadExt, AsyncWriteExt};

fn main() {
    let a = Args::parse();
    install_panic_monitor();
    install_hang_monitor(120);
    let mut r = a.rng();
    let rounds = a.num("rounds", 100);
    for _ in 0..rounds {
        beat();
        match a.property.as_str() {
            "K02" => k02(&mut r),
            "K03" => k03(&mut r),
            x => inconclusive(&format!("unknown property {x}")),
        }
        if violation_count() > 20 {
            break;
        }
    }
    finish()
}

// ---------------------------------------------------------------- K02

fn addr(r: &mut Rng) -> SocketAddrV4 {
    SocketAddrV4::new(Ipv4Addr::new(r.u8(), r.u8(), r.u8(), r.u8()), r.next() as u16)
}

fn compact(v: &[SocketAddrV4]) -> Vec<u8> {
    v.iter().flat_map(|a| a.ip().octets().into_iter().chain(a.port().to_be_bytes())).collect()
}

fn text(r: &mut Rng) -> String {
    let n = r.idx(20);
    (0..n).map(|_| *r.pick(&['a', 'Z', '0', ' ', '&', '%', '+', '=', '#', 'ü', '漢', '/'])).collect()
}

struct Gen {
    b: B,
    interval: u64,
    min_interval: Option<u64>,
    warning: Option<String>,
    tracker_id: Option<String>,
    counts: (Option<u64>, Option<u64>),
    peers: Vec<SocketAddrV4>,
}

fn gen_response(r: &mut Rng) -> Gen {
    let interval = *r.pick(&[1u64, 30, 60, 900, 1800, 1 << 31, u32::MAX as u64, u64::MAX]);
    let np = *r.pick(&[0usize, 1, 2, 7, 50, 200, 1000]);
    let peers: Vec<_> = (0..np).map(|_| addr(r)).collect();
    let mut bytes = compact(&peers);
    if r.one_in(6) {
        let extra = r.urange(1, 5);
        bytes.extend(r.bytes(extra)); // a part of an entry isn't one
    }
    // compact, or as it was before that
    let value = if r.one_in(4) {
        count("lists", 1);
        let mut l: Vec<B> = peers.iter().map(|a| {
            let mut p = dict(vec![("ip", s(a.ip().to_string())), ("port", i(a.port()))]);
            if r.bool() {
                p.set("peer id", s(r.bytes(20)));
            }
            if r.one_in(10) {
                p.set(*r.pick(&["zzz", "a"]), arbitrary(r, 2));
            }
            p
        }).collect();
        for _ in 0..r.idx(3) {
            let at = r.idx(l.len() + 1);
            l.insert(at, dict(vec![("ip", s(*r.pick(&["::1", "2001:db8::7", "peer.example.org", ""]))), ("port", i(6881))]));
        }
        B::List(l)
    } else {
        s(bytes)
    };
    let mut b = dict(vec![("interval", i(interval as i128)), ("peers", value)]);
    let mut opt = |r: &mut Rng, k: &str| {
        r.bool().then(|| {
            let v = r.edgy_u64();
            b.set(k, i(v as i128));
            v
        })
    };
    let min_interval = opt(r, "min interval");
    let counts = (opt(r, "complete"), opt(r, "incomplete"));
    let warning = r.one_in(3).then(|| text(r));
    let tracker_id = r.one_in(2).then(|| text(r));
    if let Some(w) = &warning {
        b.set("warning message", s(w));
    }
    if let Some(t) = &tracker_id {
        b.set("tracker id", s(t));
    }
    for _ in 0..r.idx(3) {
        let key = *r.pick(&["peers6", "downloaded", "external ip", "zzz", "a"]);
        b.set(key, arbitrary(r, 3));
    }
    Gen { b, interval, min_interval, warning, tracker_id, counts, peers }
}

fn decode(b: &[u8]) -> Option<Result<Response, String>> {
    // the way the client itself decodes what a tracker sent
    std::panic::catch_unwind(|| {
        let mut d = bendy::decoding::Decoder::new(b);
        let o = d.next_object().map_err(|e| e.to_string())?.ok_or("empty".to_string())?;
        Response::decode_bencode_object(o).map_err(|e| e.to_string())
    })
    .ok()
}

fn k02(r: &mut Rng) {
    let g = gen_response(r);
    let enc = g.b.encode();
    set_context(show(&enc));
    eval(Some(hash_of(&enc)));
    sample("response", || show(&enc));
    match decode(&enc) {
        None => (),
        Some(Err(e)) => violation("reject-valid", &format!("valid {} was rejected: {e}", show(&enc))),
        Some(Ok(x)) => {
            count("decoded", 1);
            let peers: Vec<SocketAddrV4> = x.peers.iter().map(|p| *p.addr()).collect();
            let same: HashSet<_> = peers.iter().collect();
            if same != g.peers.iter().collect::<HashSet<_>>() || peers.len() < same.len() {
                violation("peers", &format!("{} has the peers {:?}", show(&enc), peers));
            }
            if x.interval != g.interval || x.tracker_id != g.tracker_id || x.min_interval != g.min_interval || x.warning_message != g.warning {
                violation("fields", &format!("{} was understood as {:?}", show(&enc), (x.interval, x.min_interval, x.tracker_id, x.warning_message)));
            }
            if g.counts.0.map(|c| c != x.complete).unwrap_or(false) || g.counts.1.map(|c| c != x.incomplete).unwrap_or(false) {
                violation("counts", &format!("{} was understood as complete={} incomplete={}", show(&enc), x.complete, x.incomplete));
            }
        }
    }
    // what isn't an answer
    let mut bad = g.b.clone();
    let why = match r.below(5) {
        0 => {
            if let B::Dict(d) = &mut bad {
                d.remove(&b"interval"[..].to_vec());
            }
            "no interval"
        }
        1 => {
            if let B::Dict(d) = &mut bad {
                d.remove(&b"peers"[..].to_vec());
            }
            "no peers"
        }
        2 => {
            bad.set("interval", s("30"));
            "interval is a string"
        }
        3 => {
            bad.set("interval", i(-1));
            "negative interval"
        }
        _ => {
            if r.bool() {
                bad = dict(vec![]);
            }
            bad.set("failure reason", s(*r.pick(&["go away", "", "\u{fc}berlastet"])));
            "failure"
        }
    };
    let benc = bad.encode();
    set_context(show(&benc));
    eval(Some(hash_of(&benc)));
    if let Some(Ok(x)) = decode(&benc) {
        violation("accept-bad", &format!("{} ({why}) was understood as {x:?}", show(&benc)));
    }
    count("refused", 1);
    for _ in 0..8 {
        let h = match r.below(4) {
            0 => arbitrary(r, 4).encode(),
            1 => {
                let cut = r.idx(enc.len());
                enc[..cut].to_vec()
            }
            2 => {
                let d = r.urange(1, 200_000);
                let mut v = vec![*r.pick(&[b'l', b'd']); d];
                v.extend_from_slice(b"e");
                v
            }
            _ => {
                let mut v = enc.clone();
                mutate(r, &mut v);
                v
            }
        };
        set_context(show(&h));
        eval(Some(hash_of(&h)));
        count("hostile", 1);
        if let Some(Ok(x)) = decode(&h) {
            count("hostile_accepted", 1);
            // whatever was taken for a peer is there
            match B::decode_prefix(&h) {
                Some((b, _)) => {
                    let bytes = b.get("peers").and_then(|p| p.str().map(|x| x.to_vec())).unwrap_or_default();
                    let mut want: HashSet<Vec<u8>> = bytes.chunks_exact(6).map(|c| c.to_vec()).collect();
                    for p in b.get("peers").and_then(|p| p.list()).into_iter().flatten() {
                        let ip = p.get("ip").and_then(|x| x.str()).and_then(|x| std::str::from_utf8(x).ok()).and_then(|x| x.parse::<Ipv4Addr>().ok());
                        if let (Some(ip), Some(port)) = (ip, p.get("port").and_then(|x| x.int())) {
                            want.extend(u16::try_from(port).ok().map(|port| compact(&[SocketAddrV4::new(ip, port)])));
                        }
                    }
                    if x.peers.iter().any(|p| !want.contains(&compact(&[*p.addr()]))) {
                        violation("invented-peer", &format!("{} was understood as {x:?}", show(&h)));
                    }
                }
                None => count("hostile_noncanonical", 1),
            }
        }
    }
}

// ---------------------------------------------------------------- K03

#[derive(Clone, Debug)]
enum Act {
    Ok { interval: u64, peers: Vec<SocketAddrV4>, id: Option<String>, chunked: bool, more: Vec<(&'static str, B)> },
    Garbage(Vec<u8>),
    Status(u16),
    Close,
    Hang,
}

#[derive(Clone, Debug)]
struct Req {
    at: f64,
    params: HashMap<String, Vec<u8>>,
    act: Act,
    own_query: bool,
}

fn unescape(x: &str) -> Option<Vec<u8>> {
    let b = x.as_bytes();
    let mut v = Vec::new();
    let mut k = 0;
    while k < b.len() {
        if b[k] == b'%' {
            v.push(u8::from_str_radix(x.get(k + 1..k + 3)?, 16).ok()?);
            k += 3;
        } else {
            v.push(b[k]);
            k += 1;
        }
    }
    Some(v)
}

/// what the tracker saw of one announce
async fn serve(l: tokio::net::TcpListener, acts: Vec<Act>, log: Arc<Mutex<Vec<Req>>>, start: tokio::time::Instant, own_query: bool) {
    let mut k = 0;
    loop {
        let Ok((mut sock, _)) = l.accept().await else { continue };
        let act = acts[k.min(acts.len() - 1)].clone();
        k += 1;
        let log = log.clone();
        tokio::spawn(async move {
            let mut buf = Vec::new();
            let mut tmp = [0u8; 4096];
            while !buf.windows(4).any(|w| w == b"\r\n\r\n") {
                match sock.read(&mut tmp).await {
                    Ok(0) | Err(_) => return,
                    Ok(n) => buf.extend_from_slice(&tmp[..n]),
                }
            }
            let line = String::from_utf8_lossy(&buf).lines().next().unwrap_or("").to_string();
            let target = line.split(' ').nth(1).unwrap_or("").to_string();
            let query = target.split_once('?').map(|x| x.1.to_string()).unwrap_or_default();
            let mut params = HashMap::new();
            for kv in query.split('&') {
                if let Some((k, v)) = kv.split_once('=') {
                    params.insert(k.to_string(), unescape(v).unwrap_or_default());
                }
            }
            log.lock().unwrap().push(Req { at: start.elapsed().as_secs_f64(), params, act: act.clone(), own_query });
            let body = match &act {
                Act::Ok { interval, peers, id, more, .. } => {
                    let mut b = dict(vec![("interval", i(*interval as i128)), ("peers", s(compact(peers)))]);
                    if let Some(t) = id {
                        b.set("tracker id", s(t));
                    }
                    for (k, v) in more {
                        b.set(k, v.clone());
                    }
                    b.encode()
                }
                Act::Garbage(g) => g.clone(),
                Act::Status(_) => b"<html>no</html>".to_vec(),
                Act::Close => {
                    return;
                }
                Act::Hang => {
                    // until the client gives up
                    let _ = sock.read(&mut tmp).await;
                    return;
                }
            };
            let status = match act {
                Act::Status(c) => c,
                _ => 200,
            };
            let mut out = format!("HTTP/1.1 {status} X\r\nContent-Type: text/plain\r\n").into_bytes();
            if matches!(act, Act::Ok { chunked: true, .. }) {
                out.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
                for c in body.chunks(7) {
                    out.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes());
                    out.extend_from_slice(c);
                    out.extend_from_slice(b"\r\n");
                }
                out.extend_from_slice(b"0\r\n\r\n");
            } else {
                out.extend_from_slice(format!("Content-Length: {}\r\n\r\n", body.len()).as_bytes());
                out.extend_from_slice(&body);
            }
            let _ = sock.write_all(&out).await;
            let _ = sock.read(&mut tmp).await;
        });
    }
}

/// the timer of the client may see the clock up to this much later than the tracker did
const TOLERANCE: f64 = 12.0;
const RETRY: f64 = 64.0;
const TIMEOUT: f64 = 128.0;

fn k03(r: &mut Rng) {
    let mut c = Content { name: "t".into(), piece_length: 1000, files: None, data: r.bytes(1000 * 7 + 300), skip: 0 };
    if r.one_in(3) {
        // 8 pieces too, but large
        c.piece_length = 1 << r.range(20, 34);
        c.skip = 7;
    }
    let nt = r.urange(1, 3);
    // hours with few announces
    let long = r.one_in(8);
    let mut plans: Vec<Vec<Act>> = Vec::new();
    let mut tag = 0;
    for _ in 0..nt {
        let id = r.bool().then(|| text(r) + "id");
        let id_from = r.idx(3);
        let changing = r.one_in(3);
        let mut oks = 0;
        let n = 60;
        let reliable = r.one_in(3);
        let v = (0..n)
            .map(|k| {
                let bad = !reliable && r.one_in(3);
                if bad && k + 1 < n {
                    match r.below(5) {
                        0 => Act::Close,
                        1 => Act::Hang,
                        2 => Act::Status(*r.pick(&[404, 500, 503])),
                        3 if r.bool() => Act::Garbage(dict(vec![("failure reason", s("busy")), ("interval", i(20)), ("peers", s(""))]).encode()),
                        3 => Act::Garbage(dict(vec![("failure reason", s("busy"))]).encode()),
                        _ => Act::Garbage(r.pick(&[&b""[..], b"d", b"d8:intervali30ee", b"i5e", b"le", b"\xff\xff"]).to_vec()),
                    }
                } else {
                    let m = r.idx(5);
                    oks += 1;
                    tag += 1;
                    let peers: Vec<SocketAddrV4> = (0..m).map(|j| SocketAddrV4::new(Ipv4Addr::new(10, 1, tag as u8, j as u8), 1000 + tag as u16)).collect();
                    Act::Ok {
                        interval: if long { *r.pick(&[90u64, 1800, 3700, 7200, 10_000]) } else { *r.pick(&[40u64, 60, 90, 200, 500]) },
                        peers: peers.clone(),
                        id: if oks > id_from && (oks == id_from + 1 || r.bool()) { id.clone().map(|x| if changing { format!("{x}{oks}") } else { x }) } else { None },
                        chunked: r.one_in(3),
                        more: {
                            let mut more = Vec::new();
                            if r.one_in(4) {
                                more.push(("peers", B::List(peers.iter().map(|a| dict(vec![("ip", s(a.ip().to_string())), ("peer id", s(r.bytes(20))), ("port", i(a.port()))])).collect())));
                            }
                            for _ in 0..r.idx(4) {
                                more.push(match r.below(6) {
                                    0 => ("warning message", s("hm")),
                                    1 => ("min interval", i(r.below(700) as i128)),
                                    2 => ("complete", i(r.below(100) as i128)),
                                    3 => ("incomplete", i(r.below(100) as i128)),
                                    4 => ("external ip", s([10, 0, 0, 1])),
                                    _ => ("peers6", s("")),
                                });
                            }
                            more
                        },
                    }
                }
            })
            .collect();
        plans.push(v);
    }
    let total = if long { r.range(3_000, 20_000) } else { r.range(300, 1500) } as f64;
    let complete_at: Option<f64> = r.bool().then(|| r.below(total as u64) as f64);
    let pieces_at: Vec<f64> = (0..8).map(|_| r.below(total as u64) as f64).collect();
    let port = r.next() as u16;
    let own = r.id();
    let silent_first = r.one_in(6);
    let desc = format!("{nt} trackers, {total} s, completed at {complete_at:?}, pieces of {}", c.piece_length);
    set_context(desc.clone());

    let rt = nv::vt::runtime();
    rt.block_on(async {
        let v = Virtual::new(8);
        let start = tokio::time::Instant::now();
        let mut logs = Vec::new();
        let mut urls = Vec::new();
        for p in &plans {
            let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
            let own_query = r.one_in(3);
            urls.push(format!("http://{}/announce{}", l.local_addr().unwrap(), if own_query { "?key=abc" } else { "" }));
            let log = Arc::new(Mutex::new(Vec::new()));
            logs.push(log.clone());
            tokio::spawn(serve(l, p.clone(), log, start, own_query));
        }
        let t = Torrent::from_buf(&c.torrent(&urls)).unwrap_or_else(|e| inconclusive(&format!("{e}")));
        let peers = Peers::new(&t.info_hash);
        let done = Arc::new(AtomicU64::new(0));
        let (ctx, _crx) = tokio::sync::broadcast::channel(32);
        let (stx, srx) = n::shutdown::channel();
        let _ = silent_first;
        n::tracker::spawn_tracker_managers(&t, &ID::new(own), &peers, done.clone(), &ctx, port, srx.clone());
        drop(srx);
        v.settle(20).await;
        let mut known: Vec<(f64, u64)> = vec![(0.0, 0)];
        let mut completed_at = None;
        while v.now() < total {
            let now = v.now();
            if complete_at.map(|x| now >= x).unwrap_or(false) && completed_at.is_none() {
                done.store(8, Ordering::SeqCst);
                known.push((now, 8));
                let _ = ctx.send(());
                completed_at = Some(now);
                v.settle(20).await;
            } else if completed_at.is_none() {
                let k = pieces_at.iter().filter(|x| now >= **x).count().min(7) as u64;
                if k != done.load(Ordering::SeqCst) {
                    done.store(k, Ordering::SeqCst);
                    known.push((now, k));
                }
            }
            let step = if long { 8.0 } else { 1.0 };
            v.pass(step, step).await;
            beat();
        }
        let before: Vec<usize> = logs.iter().map(|l| l.lock().unwrap().len()).collect();
        let stop_at = v.now();
        let waiter = stx.send();
        let finished = Arc::new(Mutex::new(None));
        let f2 = finished.clone();
        tokio::spawn(async move {
            waiter.wait().await;
            *f2.lock().unwrap() = Some(start.elapsed().as_secs_f64());
        });
        v.settle(60).await;
        v.pass(TIMEOUT + 40.0, 1.0).await;
        let finished = *finished.lock().unwrap();
        match finished {
            None => violation("shutdown-hangs", &format!("shutdown isn't complete {} s after it was asked for: {desc}", v.now() - stop_at)),
            Some(t) => {
                // a tracker that doesn't answer may hold it up, nothing else
                let hangs = logs.iter().zip(&before).any(|(l, b)| l.lock().unwrap().iter().skip(*b).any(|q| matches!(q.act, Act::Hang)));
                if t > stop_at + TOLERANCE + if hangs { TIMEOUT } else { 0.0 } {
                    violation("shutdown-slow", &format!("shutdown was complete {:.0} s after it was asked for: {desc}", t - stop_at));
                }
                count("shutdowns", 1)
            }
        }
        let after: Vec<usize> = logs.iter().map(|l| l.lock().unwrap().len()).collect();
        v.pass(700.0, 20.0).await;
        for (k, l) in logs.iter().enumerate() {
            let l = l.lock().unwrap();
            if l.len() > after[k] {
                violation("after-shutdown", &format!("{} announces after the shutdown was complete: {desc}", l.len() - after[k]));
            }
            judge(&c, &l, before[k], stop_at, completed_at, port, &own, &known, &desc);
        }
        // peers
        let mut want: HashSet<Peer> = HashSet::new();
        for l in &logs {
            for q in l.lock().unwrap().iter() {
                let stop = q.params.get("event").map(|e| e == b"stopped").unwrap_or(false);
                if let (Act::Ok { peers, .. }, false) = (&q.act, stop) {
                    want.extend(peers.iter().map(|a| Peer::new(*a)));
                }
            }
        }
        let have: HashSet<Peer> = peers.peer_addresses().into_iter().collect();
        // an answer that was on its way when the client stopped doesn't matter
        let lost = want.difference(&have).count();
        let last: usize = logs
            .iter()
            .map(|l| match l.lock().unwrap().iter().filter(|q| q.at >= stop_at - 3.0).map(|q| q.act.clone()).next() {
                Some(Act::Ok { peers, .. }) => peers.len(),
                _ => 0,
            })
            .sum();
        if lost > last {
            violation("peers-lost", &format!("{lost} peers that trackers told about aren't registered: {desc}"));
        }
        if have.difference(&want).count() > 0 {
            violation("peers-invented", &format!("{:?} are registered but no tracker told about them: {desc}", have.difference(&want).take(3).collect::<Vec<_>>()));
        }
        count("peers_learned", have.len() as u64);
        v.end();
    });
    eval(Some(hash_of(format!("{desc} {plans:?}").as_bytes())));
    rt.shutdown_background();
}

fn judge(c: &Content, log: &[Req], before: usize, stop_at: f64, completed_at: Option<f64>, port: u16, own: &[u8; 20], known: &[(f64, u64)], desc: &str) {
    let story = log
        .iter()
        .map(|q| {
            format!(
                "{:.0}s:{}->{}",
                q.at,
                q.params.get("event").map(|e| show(e)).unwrap_or("-".into()),
                match &q.act {
                    Act::Ok { interval, .. } => format!("ok{interval}"),
                    Act::Garbage(_) => "garbage".into(),
                    Act::Status(s) => s.to_string(),
                    Act::Close => "close".into(),
                    Act::Hang => "hang".into(),
                }
            )
        })
        .collect::<Vec<_>>()
        .join(" ");
    let bad = |key: &str, why: String| violation(key, &format!("{why} [{story}; completed at {completed_at:?}, stop at {stop_at:.0}] {desc}"));
    sample("history", || format!("{story}; completed at {completed_at:?}, stop at {stop_at:.0}"));
    if log.is_empty() {
        bad("no-announce", "the tracker was never contacted".into());
        return;
    }
    if log[0].at > TOLERANCE {
        bad("first", format!("first announce at {:.0} s", log[0].at));
    }
    let mut owed_complete = completed_at; // not yet told
    let mut id: Option<String> = None;
    // event that the current request has to carry
    let mut expect_event: Option<&str> = Some("started");
    for (k, q) in log.iter().enumerate() {
        count("announces", 1);
        let ev = q.params.get("event").map(|e| String::from_utf8_lossy(e).to_string());
        let get = |n: &str| q.params.get(n).cloned().unwrap_or_default();
        let num = |n: &str| String::from_utf8_lossy(&get(n)).parse::<u64>().ok();
        if get("info_hash") != c.info_hash() || get("peer_id") != own || num("port") != Some(port as u64) || num("compact") != Some(1) {
            bad("parameters", format!("announce {k} has the parameters {:?}", q.params.keys().collect::<Vec<_>>()));
        }
        if q.own_query && get("key") != b"abc" {
            bad("own-query", format!("announce {k} lost the tracker's own query"));
        }
        let got_id = q.params.get("trackerid").map(|x| String::from_utf8_lossy(x).to_string());
        if got_id != id {
            bad("tracker-id", format!("announce {k} has tracker id {got_id:?} instead of {id:?}"));
        }
        if k >= before {
            // after the shutdown
            if ev.as_deref() != Some("stopped") || k > before {
                bad("stop", format!("announce {k}, after the shutdown, has event {ev:?}"));
            }
            if q.at > stop_at + TOLERANCE {
                bad("stop-late", format!("stopped was told {:.0} s after the shutdown", q.at - stop_at));
            }
            let d = known.last().map(|x| x.1).unwrap_or(0);
            let hi = (c.pieces() as u64 - d) * c.piece_length as u64;
            let got = d * c.piece_length as u64;
            if num("downloaded").map(|l| l > got || l + (c.piece_length as u64) <= got && l != got).unwrap_or(true) || num("uploaded") != Some(0) {
                bad("downloaded", format!("announce {k}, of the end, says downloaded={:?} uploaded={:?} with {d} of {} pieces", num("downloaded"), num("uploaded"), c.pieces()));
            }
            if num("left").map(|l| l > hi || l + (c.piece_length as u64) <= hi).unwrap_or(true) {
                bad("left", format!("announce {k}, of the end, says left={:?} with {d} of {} pieces", num("left"), c.pieces()));
            }
            count("stopped", 1);
            return;
        }
        if ev.as_deref() != expect_event {
            bad("event", format!("announce {k} has event {ev:?} instead of {expect_event:?}"));
            return;
        }
        match ev.as_deref() {
            Some("completed") => {
                count("completed", 1);
                if owed_complete.is_none() {
                    bad("completed-twice", format!("announce {k} tells of a completion that wasn't or was told already"));
                }
            }
            Some("started") => count("started", 1),
            _ => count("regular", 1),
        }
        // piece counter may have changed within the tolerance
        let counts: Vec<u64> = {
            let mut v: Vec<u64> = known.iter().filter(|(t, _)| *t <= q.at + 0.5 && *t >= q.at - TOLERANCE).map(|x| x.1).collect();
            if let Some(x) = known.iter().filter(|(t, _)| *t < q.at - TOLERANCE || (*t == 0.0 && k == 0)).last() {
                v.push(x.1);
            }
            v
        };
        let left = num("left");
        let ok = left.map(|l| {
            counts.iter().any(|d| {
                let hi = (c.pieces() as u64 - d) * c.piece_length as u64;
                let lo = hi.saturating_sub(c.piece_length as u64 - 1);
                l <= hi && l >= lo
            })
        });
        let downloaded = num("downloaded");
        let right = downloaded.map(|l| {
            counts.iter().any(|d| {
                let hi = d * c.piece_length as u64;
                l <= hi && l >= hi.saturating_sub(c.piece_length as u64 - 1)
            })
        });
        if k > 0 && (right != Some(true) || num("uploaded") != Some(0)) {
            bad("downloaded", format!("announce {k} says downloaded={downloaded:?} uploaded={:?} with {counts:?} of {} pieces", num("uploaded"), c.pieces()));
        }
        count("downloaded_some", downloaded.map(|l| l > 0).unwrap_or(false) as u64);
        count("left_over_4gib", left.map(|l| l >> 32 > 0).unwrap_or(false) as u64);
        if k > 0 && ok != Some(true) {
            bad("left", format!("announce {k} says left={left:?} with {counts:?} of {} pieces", c.pieces()));
        }
        // the next one
        let ok = matches!(q.act, Act::Ok { .. });
        let (due, event): (f64, Option<&str>) = match &q.act {
            Act::Ok { interval, id: new, .. } => {
                if new.is_some() {
                    id = new.clone();
                }
                if ev.as_deref() == Some("completed") {
                    owed_complete = None;
                }
                match owed_complete {
                    Some(t) if t <= q.at + *interval as f64 + TOLERANCE && t < q.at + *interval as f64 - 1.5 => (t.max(q.at), Some("completed")),
                    _ => (q.at + *interval as f64, None),
                }
            }
            Act::Hang => (q.at + TIMEOUT + RETRY, expect_event),
            _ => (q.at + RETRY, expect_event),
        };
        expect_event = event;
        // the completion came about when the regular announce was due: either order is fine
        if let (Act::Ok { interval, .. }, Some(t)) = (&q.act, owed_complete) {
            if (t - (q.at + *interval as f64)).abs() <= 3.0 + TOLERANCE {
                if let Some(nx) = log.get(k + 1) {
                    let e = nx.params.get("event").map(|e| String::from_utf8_lossy(e).to_string());
                    if k + 1 < before {
                        expect_event = if e.as_deref() == Some("completed") { Some("completed") } else { None };
                        continue;
                    }
                }
            }
        }
        let next = log.get(k + 1).filter(|_| k + 1 < before);
        match next {
            None => {
                if due + TOLERANCE < stop_at {
                    bad("silent", format!("no announce {} although it was due at {due:.0} s", k + 1));
                }
            }
            Some(nx) => {
                if nx.at < due - 2.0 {
                    bad("too-soon", format!("announce {} at {:.0} s instead of {due:.0} s", k + 1, nx.at));
                }
                if nx.at > due + TOLERANCE {
                    bad("too-late", format!("announce {} at {:.0} s instead of {due:.0} s", k + 1, nx.at));
                }
            }
        }
        if k + 1 == before {
            // whatever the client is doing, a tracker that knows it is told that it stops
            let knows = log[..before].iter().any(|q| matches!(q.act, Act::Ok { .. }) && q.at + 3.0 < stop_at);
            if knows && log.len() == before {
                bad("not-stopped", "the tracker wasn't told that the client stops".into());
            }
            if knows && !(ok && q.at + 3.0 < stop_at && due > stop_at + 3.0) {
                count("stopped_during_announce_or_retry", 1);
            }
        }
    }
}
