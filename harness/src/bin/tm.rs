//! Monitors of whole downloads: the client's torrent manager (with trackers, DHT node) among peers of the harness.
use n::data_structures::ID;
use n::peers::active_peers::Peers;
use n::peers::peer::Peer;
use n::torrent_manager::start_client;
use n::transcoding::metainfo::Torrent;
use nargun::verif as n;
use nv::bencode::{dict, i, s, B};
use nv::content::{files_under, gen, Content, BLOCK};
use nv::fakepeer::{Cfg, Ev, FakePeer, Hs, W};
use nv::vt::Virtual;
use nv::*;
use std::collections::{HashMap, HashSet};
use std::net::SocketAddrV4;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicU8, Ordering};
use std::sync::{Arc, Mutex};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::sync::{broadcast, mpsc};
use tokio::time::Instant;

fn main() {
    let a = Args::parse();
    if !net::own_network() {
        inconclusive("no network of its own");
    }
    install_panic_monitor();
    install_hang_monitor(120);
    let mut r = a.rng();
    let scratch = net::Scratch::new("tm");
    std::env::set_var("HOME", scratch.path());
    for round in 0..a.num("rounds", 10) {
        beat();
        let mut r = r.fork();
        let base = scratch.path().join(format!("r{round}"));
        std::fs::create_dir_all(&base).unwrap();
        match a.property.as_str() {
            "T03" if r.one_in(8) => wide(&mut r, &base),
            "T01" | "T02" | "T03" => download(&mut r, &base, &a.property),
            "T04" => reported(&mut r, &base),
            "T05" => sources(&mut r, &base),
            x => inconclusive(&format!("unknown property {x}")),
        }
        let _ = std::fs::remove_dir_all(&base);
        let _ = std::fs::remove_dir_all(scratch.path().join(".nargun"));
        if violation_count() > 20 {
            break;
        }
    }
    scratch.cleanup();
    finish()
}

// ---------------------------------------------------------------- a disk that fails

/// 0: works; 1: full; 2: takes only a part of everything that is written; 3: takes a while
static DISK: AtomicU8 = AtomicU8::new(0);
static FAILED: AtomicU64 = AtomicU64::new(0);

/// what the standard library links against
#[cfg(not(miri))]
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const libc::c_void, count: libc::size_t) -> libc::ssize_t {
    let mut count = count;
    let how = DISK.load(Ordering::SeqCst);
    if how != 0 && fd > 2 {
        let mut st: libc::stat = std::mem::zeroed();
        if libc::fstat(fd, &mut st) == 0 && st.st_mode & libc::S_IFMT == libc::S_IFREG {
            FAILED.fetch_add(1, Ordering::SeqCst);
            while DISK.load(Ordering::SeqCst) == 3 {
                std::thread::sleep(std::time::Duration::from_micros(200));
            }
            if how == 1 {
                *libc::__errno_location() = libc::ENOSPC;
                return -1;
            }
            if how == 2 {
                count = (count / 3).max(1).min(count);
            }
        }
    }
    libc::syscall(libc::SYS_write, fd, buf, count) as libc::ssize_t
}

/// when the disk doesn't work as it should
#[derive(Debug)]
struct Trouble {
    how: u8,
    from: f64,
    len: f64,
    /// comes again after as many seconds as often
    again: (f64, usize),
}

impl Trouble {
    fn gen(r: &mut Rng, how: u8) -> Self {
        let len = if r.one_in(3) { r.range(80, if how == 3 { 200 } else { 600 }) } else { r.range(1, 80) } as f64 / 10.0;
        let again = if how == 3 { (r.range(1, 30) as f64 / 10.0, if len > 8.0 { r.idx(4) } else { r.idx(20) }) } else { (1.0, 0) };
        Self { how, from: r.below(40) as f64 / 10.0, len, again }
    }
    fn now(&self, t: f64) -> u8 {
        let k = (t - self.from) / (self.len + self.again.0);
        if k >= 0.0 && k < (self.again.1 + 1) as f64 && (t - self.from) - k.floor() * (self.len + self.again.0) < self.len {
            self.how
        } else {
            0
        }
    }
    fn total(&self) -> f64 {
        (self.len + self.again.0) * (self.again.1 + 1) as f64
    }
}

// ---------------------------------------------------------------- swarms

/// what somebody who isn't good does
fn nasty(r: &mut Rng, cfg: &mut Cfg) -> &'static str {
    match r.below(9) {
        8 => {
            cfg.leave_at = Some(r.range(5, 150) as f64 / 10.0);
            cfg.disconnects = r.urange(1, 4);
            cfg.gone = r.bool();
            cfg.drop = *r.pick(&[0, 50, 100]);
            cfg.delay = *r.pick(&[0.0, 0.5, 2.0]);
            "going"
        }
        0 => {
            cfg.corrupt = r.urange(1, 4);
            "corrupt"
        }
        1 => {
            cfg.bad_length = r.urange(1, 5);
            "wrong_length"
        }
        2 => {
            cfg.duplicate = true;
            "duplicating"
        }
        3 => {
            cfg.unsolicited = true;
            "unsolicited"
        }
        4 => {
            cfg.disconnect_after = Some(r.urange(1, 20));
            cfg.disconnects = r.urange(1, 4);
            "leaving"
        }
        5 if r.one_in(8) => {
            cfg.flood = 66_000;
            "flooding"
        }
        5 => {
            cfg.noise = true;
            "noisy"
        }
        6 => {
            cfg.oversize_after = Some(r.urange(1, 10));
            "oversizing"
        }
        _ => {
            cfg.rechoke = Some((r.range(4, 40) as f64 / 4.0, r.range(1, 40) as f64 / 4.0));
            "choking"
        }
    }
}

struct Swarm {
    cfgs: Vec<Cfg>,
    kinds: Vec<&'static str>,
    joins: Vec<f64>,
    unreachable: usize,
    all_honest: bool,
}

fn gen_swarm(r: &mut Rng, np: usize, honest_only: bool) -> Swarm {
    let mut cfgs = Vec::new();
    let mut kinds = Vec::new();
    // together they have everything
    let holders = r.urange(1, 4);
    let mut haves = vec![vec![false; np]; holders];
    for p in 0..np {
        haves[r.idx(holders)][p] = true;
        for h in haves.iter_mut() {
            if r.one_in(3) {
                h[p] = true;
            }
        }
    }
    for h in haves {
        let mut c = Cfg::honest(h);
        c.announce = r.below(4) as u8;
        c.unchoke = Some(*r.pick(&[0.0, 0.0, 0.5, 3.0]));
        c.unchoke_without_interest = r.one_in(4);
        if !honest_only {
            c.delay = *r.pick(&[0.0, 0.0, 0.05, 0.3]);
        }
        c.split = r.one_in(4);
        cfgs.push(c);
        kinds.push("honest");
    }
    let mut unreachable = 0;
    // those who are there first take work, do none of it and leave
    let exodus = !honest_only && r.one_in(5);
    if exodus {
        for c in cfgs.iter_mut().skip(1) {
            if r.bool() {
                c.unchoke = Some(r.range(50, 300) as f64 / 10.0);
            }
        }
        for _ in 0..r.urange(3, 10 - holders) {
            let mut c = Cfg::honest((0..np).map(|_| !r.one_in(3)).collect());
            c.drop = 100;
            c.leave_at = Some(r.range(20, 65) as f64 / 10.0);
            c.disconnects = 1;
            c.gone = true;
            cfgs.push(c);
            kinds.push("fleeing");
        }
    } else if !honest_only {
        let mut places = 10 - holders;
        let mut silent = 0;
        for _ in 0..r.idx(16) {
            let some: Vec<bool> = (0..np).map(|_| !r.one_in(3)).collect();
            let mut c = Cfg::honest(some);
            c.announce = r.below(4) as u8;
            match r.below(10) {
                0 | 1 => {
                    c.bad_handshakes = usize::MAX;
                    c.hs = match r.below(6) {
                        0 => Hs::WrongProtocol,
                        1 => Hs::WrongLength,
                        2 => Hs::WrongTorrent,
                        3 => Hs::Truncated(r.idx(68)),
                        4 => Hs::Close,
                        _ => Hs::Silent,
                    };
                    kinds.push("bad_handshake");
                }
                2 if silent < 2 && places > 0 => {
                    silent += 1;
                    places -= 1;
                    if r.bool() {
                        c.drop = 100;
                        kinds.push("silent");
                    } else {
                        c.never_reads = true;
                        kinds.push("not_reading");
                    }
                }
                3 if places > 0 => {
                    places -= 1;
                    c.unchoke = None;
                    kinds.push("never_unchoking");
                }
                _ if places > 0 => {
                    places -= 1;
                    let k = nasty(r, &mut c);
                    kinds.push(k);
                }
                _ => continue,
            }
            cfgs.push(c);
        }
        let most = *r.pick(&[1, 5, 30]);
        unreachable = r.idx(most);
    }
    // good ones go too, but come back. with more than ten peers somebody else may always have their place
    if !honest_only && cfgs.len() + unreachable <= 10 {
        for c in cfgs.iter_mut().take(holders) {
            if r.one_in(3) {
                c.disconnects = r.urange(1, 3);
                if r.bool() {
                    c.disconnect_after = Some(r.urange(1, 12));
                } else {
                    c.leave_at = Some(r.range(5, 60) as f64 / 10.0);
                }
            } else if r.one_in(4) {
                c.bad_handshakes = r.urange(1, 2);
                c.hs = if r.bool() { Hs::Close } else { Hs::Silent };
            }
        }
    }
    let late = r.one_in(3);
    let joins = cfgs.iter().map(|_| if late && r.bool() { r.below(200) as f64 / 10.0 } else { 0.0 }).collect();
    Swarm { cfgs, kinds, joins, unreachable, all_honest: honest_only }
}

fn gen_content(r: &mut Rng) -> Content {
    let max = *r.pick(&[3_000usize, 40_000, 200_000, 600_000, 1_200_000]);
    let multi = r.bool();
    let mut c = gen(r, max, multi);
    if c.pieces() > 70 {
        c.piece_length = BLOCK * r.urange(1, 3);
    }
    c
}

fn set_base(c: &Content, base: &Path) {
    let mut g = n::torrent_manager::verif::BASE_DIRS.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    m.clear();
    m.insert(ID::new(c.info_hash()), base.to_str().unwrap().to_string());
}

/// closed ports
fn unreachable(k: usize) -> Vec<Peer> {
    (0..k).map(|_| {
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap_or_else(|e| inconclusive(&format!("bind: {e}")));
        let std::net::SocketAddr::V4(a) = l.local_addr().unwrap() else { unreachable!() };
        Peer::new(a)
    }).collect()
}

struct Disk {
    base: PathBuf,
    /// what was there before
    old: HashMap<PathBuf, Vec<u8>>,
}

impl Disk {
    fn prepare(r: &mut Rng, c: &Content, base: &Path) -> Self {
        let mut old = HashMap::new();
        if r.one_in(4) {
            for (path, _, len) in c.layout() {
                if len > 0 && r.bool() {
                    let p = base.join(&path);
                    let n = r.urange(0, len);
                    let junk = r.bytes(n);
                    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                    std::fs::write(&p, &junk).unwrap();
                    old.insert(p, junk);
                }
            }
        }
        Self { base: base.to_path_buf(), old }
    }

    /// every byte is what it was before or what the torrent says
    fn check(&self, c: &Content, desc: &str) -> usize {
        let mut right = 0;
        let mut known = HashSet::new();
        for (path, at, len) in c.layout() {
            let p = self.base.join(&path);
            known.insert(p.clone());
            let Ok(data) = std::fs::read(&p) else { continue };
            if data.len() > len {
                violation("too-long", &format!("{} has {} bytes instead of {len}: {desc}", path.display(), data.len()));
            }
            let old = self.old.get(&p).map(|v| &v[..]).unwrap_or(&[]);
            for (k, b) in data.iter().take(len).enumerate() {
                if *b == c.data[at + k] {
                    right += 1;
                } else if *b != old.get(k).copied().unwrap_or(0) {
                    violation("foreign-data", &format!("byte {k} of {} isn't the torrent's: {desc}", path.display()));
                    break;
                }
            }
        }
        for f in files_under(&self.base) {
            if !known.contains(&f) {
                violation("foreign-file", &format!("{} isn't part of the torrent: {desc}", f.display()));
            }
        }
        right
    }
}

// ---------------------------------------------------------------- T01, T02, T03

fn download(r: &mut Rng, base: &Path, prop: &str) {
    // everything of a slow disk's torrent is there soon, and wanted from peers that don't answer too
    let lagging = prop == "T02" && r.one_in(5);
    let mut c = gen_content(r);
    while lagging && (c.pieces() < 20 || c.piece_length > 3 * BLOCK) {
        c = gen_content(r);
    }
    let c = Arc::new(c);
    let np = c.pieces();
    let honest_only = prop != "T02" && r.one_in(3);
    let mut sw = gen_swarm(r, np, honest_only || lagging);
    if lagging {
        sw.all_honest = false;
        // who does most of the work leaves again and again
        let vanishing = r.bool();
        if vanishing {
            for cfg in sw.cfgs.iter_mut() {
                cfg.unchoke = Some(r.range(200, 900) as f64 / 10.0);
                cfg.unchoke_without_interest = false;
            }
            for _ in 0..r.urange(1, 3) {
                let mut cfg = Cfg::honest(vec![true; np]);
                cfg.disconnect_after = Some(r.urange(4, 16));
                cfg.disconnects = 99;
                sw.cfgs.push(cfg);
                sw.kinds.push("leaving");
                sw.joins.push(0.0);
            }
        }
        // three of them may keep a piece from everybody else
        for k in 0..r.urange(1, 5) {
            let mut cfg = Cfg::honest(vec![true; np]);
            cfg.drop = *r.pick(&[100, 100, 50]);
            if k > 1 {
                cfg.leave_at = Some(r.range(50, 400) as f64 / 10.0);
                cfg.disconnects = 1;
                cfg.gone = true;
            }
            sw.cfgs.push(cfg);
            sw.kinds.push("silent");
            sw.joins.push(0.0);
        }
    }
    // the disk is full, or takes less than it's given, for some time
    let trouble = match prop {
        "T01" if r.one_in(3) => {
            let how = r.range(1, 3) as u8;
            Some(Trouble::gen(r, how))
        }
        "T02" | "T03" if lagging || r.one_in(4) => Some(Trouble::gen(r, 3)),
        _ => None,
    };
    let disk = Disk::prepare(r, &c, base);
    let desc = format!("{} from [{}], {} unreachable, disk {trouble:?}", c.describe(), sw.cfgs.iter().map(|c| c.brief()).collect::<Vec<_>>().join("] ["), sw.unreachable);
    set_context(desc.clone());
    set_base(&c, base);
    let mut rr = r.fork();
    let limit = 600.0 + trouble.as_ref().map(|t| t.total()).unwrap_or(0.0);
    let rt = nv::vt::runtime();
    rt.block_on(async {
        let v = Virtual::new(6);
        let start = Instant::now();
        let (tx, mut dht) = mpsc::channel(8);
        tokio::spawn(async move { while dht.recv().await.is_some() {} });
        let torrent = Torrent::from_buf(&c.torrent(&[])).unwrap_or_else(|e| inconclusive(&format!("{e}")));
        let registry = Peers::new(&torrent.info_hash);
        let mut peers = Vec::new();
        for cfg in &sw.cfgs {
            peers.push(FakePeer::spawn(start, c.clone(), cfg.clone(), rr.fork()).await);
        }
        for p in unreachable(sw.unreachable) {
            registry.insert(p);
        }
        let mut joined = vec![false; peers.len()];
        let (ctx, _crx) = broadcast::channel(32);
        let (_stx, srx) = n::shutdown::channel();
        start_client(ID::new(rr.id()), registry.clone(), tx, torrent, Arc::new(AtomicU64::new(0)), &ctx, 6881, srx);
        let mut done: Option<f64> = None;
        let mut next_check = 0.0;
        let mut next_look = 1.0;
        let mut now = v.now();
        let mut end = limit;
        while now < end {
            for k in 0..peers.len() {
                if !joined[k] && sw.joins[k] <= now {
                    joined[k] = true;
                    registry.insert(Peer::new(peers[k].addr));
                }
            }
            if let Some(x) = &trouble {
                DISK.store(x.now(now), Ordering::SeqCst);
            }
            let d = rr.range(60, 160) as f64 / 1000.0;
            v.pass(d, d).await;
            now = v.now();
            beat();
            if now >= next_check && (prop == "T01" || done.is_some()) {
                let right = disk.check(&c, &desc);
                count("bytes_checked", right as u64);
                count("disk_checks", 1);
                next_check = now + rr.range(1, 100) as f64 / 10.0;
            }
            if done.is_none() && now >= next_look {
                next_look = now + 1.0;
                if c.compare_complete(&disk.base).is_ok() {
                    done = Some(now);
                    // nothing may happen to it afterwards
                    end = now + if prop == "T03" { 60.0 } else { 15.0 };
                }
            }
            if violation_count() > 20 {
                break;
            }
        }
        DISK.store(0, Ordering::SeqCst);
        match (done, c.compare_complete(&disk.base)) {
            (Some(t), Ok(())) => {
                count("completed", 1);
                count("virtual_seconds", t as u64);
                count("bytes_on_disk", c.data.len() as u64);
                count(if t < 30.0 { "within_30s" } else if t < 120.0 { "within_120s" } else { "later" }, 1);
            }
            (Some(t), Err(e)) => violation("damaged", &format!("complete at {t:.1} s, then {e}: {desc}")),
            (None, e) => {
                if std::env::var("NV_DEBUG").is_ok() {
                    for (k, p) in peers.iter().enumerate() {
                        eprintln!("peer {k} {}", sw.cfgs[k].brief());
                        let l = p.log();
                        for (t, e) in l.iter().take(40).chain(l.iter().skip(40.max(l.len().saturating_sub(12)))) {
                            eprintln!("   {t:.2} {}", format!("{e:?}").chars().take(80).collect::<String>());
                        }
                    }
                }
                violation("incomplete", &format!("not complete after {limit} s, {e:?}: {desc}"))
            }
        }
        if trouble.is_some() {
            let noticed = FAILED.swap(0, Ordering::SeqCst) > 0;
            count(if !noticed { "disk_trouble_unnoticed" } else if trouble.as_ref().unwrap().how == 3 { "disk_slow" } else { "disk_trouble" }, 1);
        }
        if prop == "T03" {
            judge(&c, &peers, &sw, done, &desc);
        }
        for (p, k) in peers.iter().zip(&sw.kinds) {
            let met = p.log().iter().filter(|e| matches!(e.1, Ev::Accept(_))).count();
            if met > 0 {
                count(&format!("met_{k}"), 1);
            }
            if met > 1 && *k == "honest" {
                count("met_again", 1);
            }
            p.stop();
        }
        v.end();
    });
    rt.shutdown_background();
    eval(Some(hash_of(desc.as_bytes())));
    sample("swarm", || desc.clone());
}

fn judge(c: &Content, peers: &[FakePeer], sw: &Swarm, done: Option<f64>, desc: &str) {
    let mut all: Vec<(f64, usize, usize, Ev)> = Vec::new();
    for (k, p) in peers.iter().enumerate() {
        for (n, (t, e)) in p.log().into_iter().enumerate() {
            all.push((t, k, n, e));
        }
    }
    all.sort_by(|a, b| a.0.total_cmp(&b.0).then(a.1.cmp(&b.1)).then(a.2.cmp(&b.2)));
    // (peer, connection) -> since when, until when
    let mut open: HashMap<(usize, usize), (f64, Option<f64>)> = HashMap::new();
    let mut asked: HashMap<(u32, u32), Vec<(usize, f64)>> = HashMap::new();
    let mut interested: HashSet<(usize, usize)> = HashSet::new();
    let mut ids: HashSet<Vec<u8>> = HashSet::new();
    let mut most = 0;
    for (t, k, _, e) in &all {
        let (t, k) = (*t, *k);
        match e {
            Ev::Accept(n) => {
                open.insert((k, *n), (t, None));
                // a connection that was closed a moment ago may not be seen as closed yet
                let still = |x: &(f64, Option<f64>)| x.1.map(|e| e > t).unwrap_or(true);
                let now: Vec<&(usize, usize)> = open.iter().filter(|(_, x)| still(x)).map(|x| x.0).collect();
                most = most.max(now.len());
                if now.len() > 10 {
                    // who closed within the next second doesn't count
                    let soon = all.iter().filter(|x| x.0 > t && x.0 < t + 1.0 && matches!(x.3, Ev::Closed(_))).count();
                    if now.len() - soon.min(now.len()) > 10 {
                        violation("too-many-connections", &format!("{} connections at {t:.1} s: {desc}", now.len()));
                    }
                }
                let mine: Vec<usize> = now.iter().filter(|x| x.0 == k && x.1 != *n).map(|x| x.1).collect();
                for m in mine {
                    if !all.iter().any(|x| x.0 < t + 1.0 && x.1 == k && matches!(&x.3, Ev::Closed(y) if *y == m)) {
                        violation("connected-twice", &format!("two connections to peer {k} at {t:.1} s: {desc}"));
                    }
                }
                count("connections", 1);
            }
            Ev::Closed(n) => {
                if let Some(x) = open.get_mut(&(k, *n)) {
                    x.1 = Some(t);
                }
            }
            Ev::Handshake(_, b) => {
                if b.len() != 68 || b[0] != 19 || &b[1..20] != b"BitTorrent protocol" || b[28..48] != c.info_hash() {
                    violation("handshake", &format!("peer {k} got a wrong handshake {}: {desc}", hex(b)));
                }
                ids.insert(b[48..].to_vec());
            }
            Ev::Got(n, W::Interested) => {
                interested.insert((k, *n));
                count("interested", 1);
            }
            Ev::Got(n, W::Request(p, b, _)) => {
                count("requests", 1);
                let (pi, bi) = (*p as usize, *b as usize);
                if pi < c.skip && !sw.cfgs[k].haves[pi] {
                    violation("hasnt", &format!("peer {k} was asked for piece {p} that nobody has: {desc}"));
                    continue;
                }
                if pi < c.skip {
                    count("requests_in_vain", 1);
                    continue;
                }
                if pi >= c.pieces() || bi >= c.piece(pi).len() {
                    violation("bounds", &format!("peer {k} was asked for ({p}, {b}): {desc}"));
                    continue;
                }
                if !sw.cfgs[k].haves[pi] && !sw.cfgs[k].noise {
                    violation("hasnt", &format!("peer {k} was asked for piece {p} that it doesn't have: {desc}"));
                }
                if !interested.contains(&(k, *n)) {
                    violation("not-interested", &format!("peer {k} was asked for a block before it was told that the client is interested: {desc}"));
                }
                if done.map(|d| t > d + 10.0).unwrap_or(false) {
                    violation("after-completion", &format!("peer {k} was asked for ({p}, {b}) at {t:.1} s, all was complete at {done:?}: {desc}"));
                }
                asked.entry((*p, *b)).or_default().push((k, t));
            }
            _ => (),
        }
    }
    if ids.len() > 1 {
        violation("peer-id", &format!("{} different peer ids: {desc}", ids.len()));
    }
    // who has something that is missing is told so
    for (k, p) in peers.iter().enumerate() {
        if sw.kinds[k] == "honest" && sw.cfgs[k].haves.iter().any(|x| *x) && sw.joins[k] + 3.0 < done.unwrap_or(600.0) {
            let first = p.log().iter().find_map(|(t, e)| matches!(e, Ev::Handshake(..)).then_some(*t));
            if let Some(t) = first {
                // everything of it may be there before it says what it has
                if t + 4.0 < done.unwrap_or(600.0) && sw.all_honest && sw.cfgs[k].announce < 3 {
                    count("should_be_interested", 1);
                    let missing = sw.cfgs[k].haves.iter().enumerate().any(|(pi, x)| *x && asked.get(&(pi as u32, 0)).map(|a| a[0].1 > t + 1.0).unwrap_or(true));
                    if missing && !p.log().iter().any(|e| matches!(e.1, Ev::Got(_, W::Interested))) {
                        violation("no-interest", &format!("peer {k} was never told that the client is interested: {desc}"));
                    }
                }
            }
        }
    }
    if sw.all_honest {
        if let Some((b, a)) = asked.iter().find(|(_, a)| a.len() > 1) {
            violation("asked-again", &format!("block {b:?} was asked for from {a:?}: {desc}"));
        }
        count("blocks_once", asked.len() as u64);
    }
    count(&format!("most_{}", if most >= 10 { "10".to_string() } else { "less".to_string() }), 1);
}

/// torrents of thousands of pieces of which only some at the end are there to be had
fn wide(r: &mut Rng, base: &Path) {
    let mut c = loop {
        let c = gen(r, 3_000, false);
        if c.pieces() <= 24 {
            break c;
        }
    };
    c.skip = *r.pick(&[100usize, 1_000, 5_000, 5_000, 66_000]) + r.idx(900);
    let c = Arc::new(c);
    let np = c.pieces();
    let mut sw = gen_swarm(r, np - c.skip, true);
    for cfg in sw.cfgs.iter_mut() {
        let mut h = vec![false; c.skip];
        h.extend(cfg.haves.iter());
        cfg.haves = h;
    }
    // others have the rest, but leave for good before they give any of it
    let deserted = r.bool();
    if deserted {
        for cfg in sw.cfgs.iter_mut() {
            cfg.unchoke = Some(r.range(0, 120) as f64 / 10.0);
            cfg.unchoke_without_interest = false;
        }
        for _ in 0..r.urange(3, 6) {
            let mut cfg = Cfg::honest((0..np).map(|p| p < c.skip).collect());
            cfg.drop = 100;
            cfg.leave_at = Some(r.range(40, 120) as f64 / 10.0);
            cfg.disconnects = 1;
            cfg.gone = true;
            sw.cfgs.push(cfg);
            sw.kinds.push("fleeing");
            sw.joins.push(0.0);
        }
    }
    let desc = format!("{} from [{}]", c.describe(), sw.cfgs.iter().map(|c| c.brief()).collect::<Vec<_>>().join("] ["));
    set_context(desc.clone());
    set_base(&c, base);
    let mut rr = r.fork();
    let rt = nv::vt::runtime();
    rt.block_on(async {
        let v = Virtual::new(6);
        let start = Instant::now();
        let (tx, mut dht) = mpsc::channel(8);
        tokio::spawn(async move { while dht.recv().await.is_some() {} });
        let torrent = Torrent::from_buf(&c.torrent(&[])).unwrap_or_else(|e| inconclusive(&format!("{e}")));
        let registry = Peers::new(&torrent.info_hash);
        let mut peers = Vec::new();
        for cfg in &sw.cfgs {
            peers.push(FakePeer::spawn(start, c.clone(), cfg.clone(), rr.fork()).await);
        }
        let mut joined = vec![false; peers.len()];
        let (ctx, mut crx) = broadcast::channel(32);
        let (_stx, srx) = n::shutdown::channel();
        start_client(ID::new(rr.id()), registry.clone(), tx, torrent, Arc::new(AtomicU64::new(0)), &ctx, 6881, srx);
        let path = base.join(&c.name);
        let there = || {
            use std::os::unix::fs::FileExt;
            let mut buf = vec![0; c.data.len()];
            std::fs::File::open(&path).and_then(|f| f.read_exact_at(&mut buf, (c.skip * c.piece_length) as u64)).is_ok() && buf == c.data
        };
        let mut done = None;
        let mut now = v.now();
        let mut end = 300.0;
        while now < end {
            for k in 0..peers.len() {
                if !joined[k] && sw.joins[k] <= now {
                    joined[k] = true;
                    registry.insert(Peer::new(peers[k].addr));
                }
            }
            let d = rr.range(60, 160) as f64 / 1000.0;
            v.pass(d, d).await;
            now = v.now();
            beat();
            if done.is_none() && there() {
                done = Some(now);
                end = now + 15.0;
            }
        }
        if done.is_none() {
            violation("incomplete", &format!("pieces that are there to be had aren't on disk after {end} s: {desc}"));
        } else if !there() {
            violation("damaged", &format!("pieces that were on disk aren't any more: {desc}"));
        }
        if crx.try_recv().is_ok() {
            violation("completed-early", &format!("download was declared complete: {desc}"));
        }
        judge(&c, &peers, &sw, done, &desc);
        count("wide", 1);
        for p in &peers {
            p.stop();
        }
        v.end();
    });
    rt.shutdown_background();
    eval(Some(hash_of(desc.as_bytes())));
    sample("wide", || desc.clone());
}

// ---------------------------------------------------------------- T04

/// a tracker that answers everything; what it was told
async fn tracker(l: tokio::net::TcpListener, interval: u64, fails: usize, give: Arc<Mutex<Vec<SocketAddrV4>>>, log: Arc<Mutex<Vec<(f64, HashMap<String, String>)>>>, start: Instant) {
    loop {
        let Ok((mut s0, _)) = l.accept().await else { continue };
        let (give, log) = (give.clone(), log.clone());
        tokio::spawn(async move {
            let mut buf = Vec::new();
            let mut t = [0u8; 4096];
            while !buf.windows(4).any(|w| w == b"\r\n\r\n") {
                match s0.read(&mut t).await {
                    Ok(0) | Err(_) => return,
                    Ok(n) => buf.extend_from_slice(&t[..n]),
                }
            }
            let text = String::from_utf8_lossy(&buf).to_string();
            let path = text.split(' ').nth(1).unwrap_or("").to_string();
            let q = path.split_once('?').map(|x| x.1).unwrap_or("");
            let params = q.split('&').filter_map(|p| p.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).collect();
            let n = {
                let mut l = log.lock().unwrap();
                l.push((start.elapsed().as_secs_f64(), params));
                l.len()
            };
            if n <= fails {
                let _ = s0.write_all(b"HTTP/1.1 500 Oops\r\nContent-Length: 4\r\nConnection: close\r\n\r\noops").await;
                let _ = s0.shutdown().await;
                return;
            }
            let peers: Vec<u8> = give.lock().unwrap().iter().flat_map(|a| a.ip().octets().into_iter().chain(a.port().to_be_bytes()).collect::<Vec<_>>()).collect();
            let b = dict(vec![("interval", i(interval as i128)), ("complete", i(1)), ("incomplete", i(1)), ("peers", s(peers))]).encode();
            let mut a = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", b.len()).into_bytes();
            a.extend(b);
            let _ = s0.write_all(&a).await;
            let _ = s0.shutdown().await;
        });
    }
}

/// pieces that are on disk as they should be
fn stored(c: &Content, base: &Path) -> usize {
    (0..c.pieces()).filter(|p| c.compare_on_disk(base, p * c.piece_length, (p * c.piece_length + c.piece(*p).len()).min(c.data.len())).is_ok()).count()
}

fn reported(r: &mut Rng, base: &Path) {
    let mut c = gen_content(r);
    while c.data.iter().take(50).all(|x| *x == 0) {
        c = gen_content(r);
    }
    let c = Arc::new(c);
    let np = c.pieces();
    let honest = r.one_in(3);
    let sw = gen_swarm(r, np, honest);
    let nt = r.urange(1, 3);
    let intervals: Vec<u64> = (0..nt).map(|_| *r.pick(&[2u64, 5, 20, 600])).collect();
    // the first one works, others may fail some times at first
    let fails: Vec<usize> = (0..nt).map(|k| if k > 0 && r.one_in(3) { r.urange(1, 3) } else { 0 }).collect();
    let trouble = r.one_in(3).then(|| {
        let how = r.range(1, 2) as u8;
        Trouble::gen(r, how)
    });
    let desc = format!("{} from [{}], disk {trouble:?}, trackers every {intervals:?} s that fail {fails:?} times", c.describe(), sw.cfgs.iter().map(|c| c.brief()).collect::<Vec<_>>().join("] ["));
    set_context(desc.clone());
    set_base(&c, base);
    let mut rr = r.fork();
    let rt = nv::vt::runtime();
    rt.block_on(async {
        let v = Virtual::new(6);
        let start = Instant::now();
        let (tx, mut dht) = mpsc::channel(8);
        tokio::spawn(async move { while dht.recv().await.is_some() {} });
        let mut peers = Vec::new();
        for cfg in &sw.cfgs {
            peers.push(FakePeer::spawn(start, c.clone(), cfg.clone(), rr.fork()).await);
        }
        let give: Arc<Mutex<Vec<SocketAddrV4>>> = Arc::new(Mutex::new(peers.iter().map(|p| p.addr).collect()));
        let mut logs = Vec::new();
        let mut urls = Vec::new();
        for k in 0..nt {
            let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
            urls.push(format!("http://{}/announce", l.local_addr().unwrap()));
            let log = Arc::new(Mutex::new(Vec::new()));
            logs.push(log.clone());
            tokio::spawn(tracker(l, intervals[k], fails[k], give.clone(), log, start));
        }
        let torrent = Torrent::from_buf(&c.torrent(&urls)).unwrap_or_else(|e| inconclusive(&format!("{e}")));
        let registry = Peers::new(&torrent.info_hash);
        let (ctx, _crx) = broadcast::channel(32);
        let (stx, srx) = n::shutdown::channel();
        let counter = Arc::new(AtomicU64::new(0));
        start_client(ID::new(rr.id()), registry.clone(), tx, torrent, counter, &ctx, 6881, srx.clone());
        drop(srx);
        // (time, pieces that are stored)
        let mut known: Vec<(f64, usize)> = vec![(0.0, 0)];
        let mut done: Option<f64> = None;
        let limit = 600.0;
        let after = 30.0 + 70.0 * *fails.iter().max().unwrap() as f64;
        while v.now() < done.map(|d| d + after).unwrap_or(limit) {
            if let Some(x) = &trouble {
                DISK.store(x.now(v.now()), Ordering::SeqCst);
            }
            let d = rr.range(60, 160) as f64 / 1000.0;
            v.pass(d, d).await;
            beat();
            if done.is_none() {
                let k = stored(&c, base);
                if k != known.last().unwrap().1 {
                    known.push((v.now(), k));
                }
                if k == np && c.compare_complete(base).is_ok() {
                    done = Some(v.now());
                }
            }
        }
        DISK.store(0, Ordering::SeqCst);
        if trouble.is_some() && FAILED.swap(0, Ordering::SeqCst) > 0 {
            count("disk_trouble", 1);
        }
        let Some(done) = done else {
            violation("incomplete", &format!("not complete after {limit} s: {desc}"));
            v.end();
            return;
        };
        let end = v.now();
        for (k, l) in logs.iter().enumerate() {
            let l = l.lock().unwrap().clone();
            let story = l.iter().map(|(t, q)| format!("{t:.1}:{}:left={}", q.get("event").cloned().unwrap_or("-".into()), q.get("left").cloned().unwrap_or_default())).collect::<Vec<_>>().join(" ");
            let full = (np * c.piece_length) as i128;
            for (t, q) in &l {
                let Some(left) = q.get("left").and_then(|x| x.parse::<i128>().ok()) else {
                    violation("left", &format!("announce without left: {story}: {desc}"));
                    continue;
                };
                // what is missing, as it was known within some seconds of the announce
                let before = known.iter().filter(|x| x.0 <= *t - 3.0).last().map(|x| x.1).unwrap_or(0);
                let after = known.iter().filter(|x| x.0 <= *t + 3.0).last().map(|x| x.1).unwrap_or(0);
                // last piece may be shorter than that
                let slack = c.piece_length as i128;
                let most = full - (before * c.piece_length) as i128;
                let least = (full - (after * c.piece_length) as i128 - slack).max(0);
                if left > most || left < least {
                    violation("left", &format!("tracker {k} was told at {t:.1} s that {left} bytes are missing with {before}..{after} of {np} pieces of {} bytes stored: {story}: {desc}", c.piece_length));
                    break;
                }
                // and what isn't missing any more was downloaded
                let least = ((before * c.piece_length) as i128 - slack).max(0);
                let most = (after * c.piece_length) as i128;
                let got = q.get("downloaded").and_then(|x| x.parse::<i128>().ok());
                if got.map(|g| g < least || g > most).unwrap_or(true) {
                    violation("downloaded", &format!("tracker {k} was told at {t:.1} s that {got:?} bytes were downloaded, with {before}..{after} of {np} pieces of {} bytes stored: {story}: {desc}", c.piece_length));
                    break;
                }
                if *t > done + 3.0 && left != 0 {
                    violation("left", &format!("tracker {k} was told at {t:.1} s that {left} bytes are missing, all was complete at {done:.1} s: {story}: {desc}"));
                    break;
                }
                if (l.iter().position(|x| x.0 == *t).unwrap()) < fails[k] && *t > done + 3.0 {
                    count("late_retries", 1);
                }
                if before > 0 && before < np {
                    count("partial_announces", 1);
                }
                count("announces", 1);
            }
            let completed: Vec<f64> = l.iter().filter(|x| x.1.get("event").map(|e| e == "completed").unwrap_or(false)).map(|x| x.0).collect();
            match completed.len() {
                0 => violation("not-completed", &format!("tracker {k} wasn't told within {:.0} s that the download is complete: {story}: {desc}", end - done)),
                1 => {
                    count("told_completed", 1);
                    // the first of its requests that it answered
                    let reached = l.get(fails[k]).map(|x| x.0).unwrap_or(0.0);
                    if completed[0] < done - 3.0 || completed[0] > done.max(reached) + 5.0 {
                        violation("completed-when", &format!("tracker {k} was told at {:.1} s that the download is complete, it was at {done:.1} s: {desc}", completed[0]));
                    }
                }
                m => violation("completed-twice", &format!("tracker {k} was told {m} times that the download is complete: {desc}")),
            }
            eval(Some(hash_of(format!("{desc}{k}").as_bytes())));
        }
        let ended = v.now();
        let w = stx.send();
        let fin = tokio::spawn(async move { w.wait().await });
        v.pass(5.0, 0.2).await;
        if !v.wait_for(&fin, 20).await {
            violation("no-end", &format!("shutdown isn't complete after 5 s: {desc}"));
        }
        for (k, l) in logs.iter().enumerate() {
            let l = l.lock().unwrap();
            let stops: Vec<usize> = (0..l.len()).filter(|i| l[*i].1.get("event").map(|e| e == "stopped").unwrap_or(false)).collect();
            // whoever answered once has to hear of the end
            let knows = l.get(fails[k]).map(|x| x.0 + 3.0 < ended).unwrap_or(false);
            if stops.len() > 1 || stops.iter().any(|i| l[*i].0 + 1.0 < ended) || (knows && stops.is_empty()) {
                violation("stopped", &format!("tracker {k} was told {} times that the client stops (it did at {ended:.1} s, {} announces): {desc}", stops.len(), l.len()));
            }
            count(if stops.is_empty() { "not_stopped" } else { "told_stopped" }, 1);
        }
        for p in &peers {
            p.stop();
        }
        count("downloads", 1);
        v.end();
    });
    rt.shutdown_background();
    sample("download", || desc.clone());
}

// ---------------------------------------------------------------- T05

/// the only ones that have something are found in one way or another
fn sources(r: &mut Rng, base: &Path) {
    let c = Arc::new({
        let max = *r.pick(&[3_000usize, 60_000, 200_000]);
        let multi = r.bool();
        gen(r, max, multi)
    });
    if c.pieces() > 70 {
        return;
    }
    let np = c.pieces();
    const WAYS: [&str; 5] = ["tracker", "tracker-later", "dht-values", "dht-node-of-node", "dht-announce"];
    let way = *r.pick(&WAYS);
    let desc = format!("{} found by {way}", c.describe());
    set_context(desc.clone());
    set_base(&c, base);
    let mut rr = r.fork();
    let rt = nv::vt::runtime();
    rt.block_on(async {
        let v = Virtual::new(6);
        let start = Instant::now();
        let seed = FakePeer::spawn(start, c.clone(), Cfg::honest(vec![true; np]), rr.fork()).await;
        // knows a node of the DHT and has nothing itself
        let guide_udp = net::udp("127.0.0.1".parse().unwrap());
        let other_udp = net::udp("127.9.9.9".parse().unwrap());
        let port_of = |u: &std::net::UdpSocket| u.local_addr().unwrap().port();
        let give: Arc<Mutex<Vec<SocketAddrV4>>> = Arc::default();
        let log = Arc::new(Mutex::new(Vec::new()));
        let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        let url = format!("http://{}/announce", l.local_addr().unwrap());
        let tl = tokio::spawn(tracker(l, 20, 0, give.clone(), log.clone(), start));
        let torrent = Torrent::from_buf(&c.torrent(&[url])).unwrap_or_else(|e| inconclusive(&format!("{e}")));
        let registry = Peers::new(&torrent.info_hash);
        let (dtx, drx) = mpsc::channel(32);
        let (ctx, _crx) = broadcast::channel(32);
        let (stx, srx) = n::shutdown::channel();
        let tcp_port = rr.range(1024, 65535) as u16;
        n::dht::start_dht(tcp_port, registry.clone(), torrent.info_hash, drx, srx.clone()).await;
        // a peer that tells its DHT port
        let gl = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        let std::net::SocketAddr::V4(guide) = gl.local_addr().unwrap() else { unreachable!() };
        let (hash, gport) = (c.info_hash(), port_of(&guide_udp));
        let gid = rr.id();
        let gt = tokio::spawn(async move {
            loop {
                let Ok((mut s0, _)) = gl.accept().await else { continue };
                let mut hs = [0u8; 68];
                if s0.read_exact(&mut hs).await.is_err() {
                    continue;
                }
                let mut a = nv::fakepeer::handshake(&hash, &gid, [0, 0, 0, 0, 0, 0, 0, 1]);
                a.extend(W::Port(gport).enc());
                let _ = s0.write_all(&a).await;
                tokio::spawn(async move {
                    let mut b = [0u8; 1000];
                    while !matches!(s0.read(&mut b).await, Ok(0) | Err(_)) {}
                });
            }
        });
        match way {
            "tracker" => give.lock().unwrap().push(seed.addr),
            "tracker-later" => (),
            _ => give.lock().unwrap().push(guide),
        }
        start_client(ID::new(rr.id()), registry.clone(), dtx, torrent, Arc::new(AtomicU64::new(0)), &ctx, tcp_port, srx.clone());
        drop(srx);
        let ids = [rr.id(), rr.id()];
        let compact = |ip: [u8; 4], port: u16| [&ip[..], &port.to_be_bytes()[..]].concat();
        let mut announced = false;
        let mut done = None;
        let mut heard_announce = false;
        let limit = 300.0;
        while v.now() < done.map(|d: f64| d + 20.0).unwrap_or(limit) {
            let d = rr.range(60, 160) as f64 / 1000.0;
            v.pass(d, d).await;
            beat();
            if way == "tracker-later" && v.now() > 30.0 && give.lock().unwrap().is_empty() {
                give.lock().unwrap().push(seed.addr);
            }
            for (k, u) in [&guide_udp, &other_udp].iter().enumerate() {
                let mut buf = [0u8; 4096];
                while let Ok((m, from)) = u.recv_from(&mut buf) {
                    let Some(q) = B::decode(&buf[..m]) else { continue };
                    let Some(tid) = q.get("t").and_then(|t| t.str()).map(|t| t.to_vec()) else { continue };
                    count("dht_messages", 1);
                    let mut resp = dict(vec![("id", s(&ids[k]))]);
                    match q.get("q").and_then(|x| x.str()) {
                        Some(b"ping") => (),
                        Some(b"find_node") => resp.set("nodes", s("")),
                        Some(b"get_peers") => {
                            resp.set("token", s("tok"));
                            match (way, k) {
                                ("dht-values", 0) | ("dht-node-of-node", 1) => {
                                    resp.set("values", B::List(vec![s(compact([127, 0, 0, 1], seed.addr.port()))]));
                                }
                                ("dht-node-of-node", 0) => {
                                    resp.set("nodes", s([ids[1].to_vec(), compact([127, 9, 9, 9], port_of(&other_udp))].concat()));
                                }
                                _ => resp.set("nodes", s("")),
                            }
                        }
                        Some(b"announce_peer") => {
                            let a = q.get("a");
                            let ok = a.and_then(|a| a.get("info_hash")).and_then(|x| x.str()) == Some(&hash[..])
                                && a.and_then(|a| a.get("port")).and_then(|x| x.int()) == Some(tcp_port as i128)
                                && a.and_then(|a| a.get("token")).and_then(|x| x.str()) == Some(b"tok");
                            if !ok {
                                violation("announce", &format!("the client announced itself wrongly: {}: {desc}", show(&buf[..m])));
                            }
                            heard_announce = true;
                        }
                        _ => {
                            // answer of a get_peers of ours: token for the announce
                            if let (Some(tok), "dht-announce") = (q.get("r").and_then(|r| r.get("token")).and_then(|x| x.str()), way) {
                                let a = dict(vec![("id", s(&ids[0])), ("info_hash", s(&hash)), ("port", i(seed.addr.port() as i128)), ("token", s(tok))]);
                                let b = dict(vec![("t", s("an")), ("y", s("q")), ("q", s("announce_peer")), ("a", a)]).encode();
                                let _ = u.send_to(&b, from);
                            }
                            continue;
                        }
                    }
                    let b = dict(vec![("t", s(tid)), ("y", s("r")), ("r", resp)]).encode();
                    let _ = u.send_to(&b, from);
                    if way == "dht-announce" && !announced && k == 0 {
                        announced = true;
                        let a = dict(vec![("id", s(&ids[0])), ("info_hash", s(&hash))]);
                        let b = dict(vec![("t", s("gp")), ("y", s("q")), ("q", s("get_peers")), ("a", a)]).encode();
                        let _ = u.send_to(&b, from);
                    }
                }
            }
            if done.is_none() && c.compare_complete(base).is_ok() {
                done = Some(v.now());
            }
        }
        match done {
            Some(t) => {
                count(&format!("found_by_{}", way.replace('-', "_")), 1);
                count("virtual_seconds", t as u64);
            }
            None => violation("not-found", &format!("not complete after {limit} s, met the seed {} times: {desc}", seed.log().len())),
        }
        if way.starts_with("dht") && !heard_announce {
            violation("not-announced", &format!("the client didn't announce itself in the DHT: {desc}"));
        }
        let w = stx.send();
        let fin = tokio::spawn(async move { w.wait().await });
        v.pass(6.0, 0.2).await;
        if !v.wait_for(&fin, 20).await {
            violation("no-end", &format!("shutdown isn't complete after 6 s: {desc}"));
        }
        seed.stop();
        tl.abort();
        gt.abort();
        v.end();
    });
    rt.shutdown_background();
    eval(Some(hash_of(desc.as_bytes())));
    sample("download", || desc.clone());
}

