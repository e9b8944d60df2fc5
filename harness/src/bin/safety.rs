//! Small whole scenarios on several threads in real time, for the sanitizers (Miri, AddressSanitizer): these are the
//! oracle, what is checked here only makes sure that the scenario took place.
use n::data_structures::ID;
use n::peers::active_peers::Peers;
use n::peers::peer::Peer;
use n::torrent_manager::start_client;
use n::transcoding::metainfo::Torrent;
use nargun::verif as n;
use nv::bencode::{dict, i, s, B};
use nv::content::Content;
use nv::fakepeer::{Cfg, Ev, FakePeer, W};
use nv::*;
use std::collections::HashMap;
use std::sync::atomic::AtomicU64;
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::{broadcast, mpsc};
use tokio::time::Instant;

fn main() {
    let a = Args::parse();
    net::own_network();
    install_panic_monitor();
    install_hang_monitor(300);
    let mut r = a.rng();
    let scratch = net::Scratch::new("safety");
    std::env::set_var("HOME", scratch.path());
    for round in 0..a.num("rounds", 1) {
        beat();
        let base = scratch.path().join(format!("r{round}"));
        std::fs::create_dir_all(&base).unwrap();
        match a.property.as_str() {
            "download" => download(&mut r, &base),
            "dht" => dht(&mut r),
            x => inconclusive(&format!("unknown scenario {x}")),
        }
    }
    scratch.cleanup();
    finish()
}

fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap()
}

fn download(r: &mut Rng, base: &std::path::Path) {
    let piece_length = *r.pick(&[1usize, 7, 20, 64, 100]);
    let np = r.urange(1, 4);
    let len = (np - 1) * piece_length + r.urange(1, piece_length);
    let files = r.bool().then(|| {
        let a = r.urange(0, len);
        vec![(vec!["a".to_string()], a), (vec!["d".to_string(), "b".to_string()], len - a), (vec!["empty".to_string()], 0)]
    });
    let data = r.bytes(len);
    let c = Arc::new(Content { name: "t".into(), piece_length, files, data, skip: 0 });
    let c = if cfg!(miri) { c } else { Arc::new(nv::content::gen(r, 300_000, true)) };
    let np = c.pieces();
    let desc = c.describe();
    set_context(desc.clone());
    {
        let mut g = n::torrent_manager::verif::BASE_DIRS.lock().unwrap();
        g.get_or_insert_with(HashMap::new).insert(ID::new(c.info_hash()), base.to_str().unwrap().to_string());
    }
    let rt = runtime();
    rt.block_on(async {
        let start = Instant::now();
        let (tx, mut ports) = mpsc::channel(8);
        let torrent = Torrent::from_buf(&c.torrent(&[])).unwrap_or_else(|e| inconclusive(&format!("{e}")));
        let registry = Peers::new(&torrent.info_hash);
        let mut peers = Vec::new();
        for k in 0..r.urange(1, 3) {
            let mut cfg = Cfg::honest(vec![true; np]);
            cfg.announce = r.below(4) as u8;
            match k {
                0 => (),
                1 => cfg.corrupt = 2,
                _ => cfg.disconnect_after = Some(r.urange(1, 4)),
            }
            cfg.disconnects = 1;
            peers.push(FakePeer::spawn(start, c.clone(), cfg, r.fork()).await);
            registry.insert(Peer::new(peers[k].addr));
        }
        let (ctx, mut crx) = broadcast::channel(32);
        let (stx, srx) = n::shutdown::channel();
        start_client(ID::new(r.id()), registry.clone(), tx, torrent, Arc::new(AtomicU64::new(0)), &ctx, 6881, srx.clone());
        let t = tokio::time::timeout(Duration::from_secs(200), crx.recv()).await;
        match t {
            Ok(Ok(())) if c.compare_complete(base).is_ok() => count("downloads", 1),
            x => count(if x.is_ok() { "different" } else { "incomplete" }, 1),
        }
        while ports.try_recv().is_ok() {}
        for p in &peers {
            count("requests", p.log().iter().filter(|e| matches!(e.1, Ev::Got(_, W::Request(..)))).count() as u64);
            p.stop();
        }
        drop(srx);
        let w = stx.send();
        let _ = tokio::time::timeout(Duration::from_secs(100), w.wait()).await;
    });
    rt.shutdown_background();
    eval(Some(hash_of(desc.as_bytes())));
    sample("download", || desc.clone());
}

fn dht(r: &mut Rng) {
    let hash = r.id();
    let rt = runtime();
    rt.block_on(async {
        let registry = Peers::new(&ID::new(hash));
        let (_dtx, drx) = mpsc::channel(32);
        let (stx, srx) = n::shutdown::channel();
        n::dht::start_dht(7000, registry.clone(), ID::new(hash), drx, srx.clone()).await;
        drop(srx);
        tokio::time::sleep(Duration::from_millis(500)).await;
        let u = tokio::net::UdpSocket::bind("127.0.0.1:0").await.unwrap();
        let node = "127.0.0.1:46493";
        let id = r.id();
        let mut token: Vec<u8> = Vec::new();
        for k in 0..8u32 {
            let a = |mut kv: Vec<(&'static str, B)>| {
                kv.push(("id", s(id)));
                dict(kv)
            };
            let (q, a) = match k % 4 {
                0 => ("ping", a(vec![])),
                1 => ("find_node", a(vec![("target", s(r.id()))])),
                2 => ("get_peers", a(vec![("info_hash", s(hash))])),
                _ => ("announce_peer", a(vec![("info_hash", s(hash)), ("port", i(7 + k)), ("token", s(&token))])),
            };
            let m = dict(vec![("t", s(k.to_be_bytes())), ("y", s("q")), ("q", s(q)), ("a", a)]).encode();
            u.send_to(&m, node).await.unwrap();
            // answers of it and questions
            let mut buf = vec![0u8; 2000];
            loop {
                let Ok(Ok((len, from))) = tokio::time::timeout(Duration::from_secs(20), u.recv_from(&mut buf)).await else {
                    count("unanswered", 1);
                    break;
                };
                let Some(b) = B::decode(&buf[..len]) else { continue };
                if b.get("y").and_then(|x| x.str()) == Some(b"r") {
                    if let Some(t) = b.get("r").and_then(|x| x.get("token")).and_then(|x| x.str()) {
                        token = t.to_vec();
                    }
                    count("answers", 1);
                    break;
                }
                let Some(t) = b.get("t").and_then(|t| t.str()) else { continue };
                let ans = dict(vec![("t", s(t)), ("y", s("r")), ("r", dict(vec![("id", s(id)), ("nodes", s(""))]))]).encode();
                let _ = u.send_to(&ans, from).await;
                count("questions", 1);
            }
            let junk = { let l = r.idx(80); r.bytes(l) };
            let _ = u.send_to(&junk, node).await;
        }
        let w = stx.send();
        let _ = tokio::time::timeout(Duration::from_secs(100), w.wait()).await;
    });
    rt.shutdown_background();
    eval(Some(hash_of(&hash)));
    sample("dht", || format!("info hash {}", hex(&hash)));
}
