//! Monitors of the growing interval (U01), the shutdown protocol (S01) and the peer registry (R01).
use nargun::verif as n;
use n::data_structures::ID;
use n::interval::CappedGrowingInterval;
use n::peers::active_peers::{Peers, Status};
use n::peers::peer::Peer;
use nv::*;
use std::collections::{HashMap, HashSet};
use std::net::{Ipv4Addr, SocketAddrV4};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

fn main() {
    let a = Args::parse();
    install_panic_monitor();
    install_hang_monitor(90);
    let mut r = a.rng();
    let rounds = a.num("rounds", 100);
    for _ in 0..rounds {
        beat();
        match a.property.as_str() {
            "U01" => u01(&mut r),
            "S01" => s01(&mut r),
            "R01" => r01(&mut r),
            x => inconclusive(&format!("unknown property {x}")),
        }
        if violation_count() > 20 {
            break;
        }
    }
    finish()
}

fn paused() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap()
}

// ---------------------------------------------------------------- U01

fn u01(r: &mut Rng) {
    const F: [(&str, fn(f64) -> f64); 7] = [
        ("7+0.01x^3.7", |x| 7.0 + 0.01 * x.powf(3.7)),
        ("3+0.04x^3", |x| 3.0 + 0.04 * x.powf(3.0)),
        ("x", |x| x),
        ("2^x", |x| 2f64.powf(x)),
        ("0.5", |_| 0.5),
        ("0.001x", |x| 0.001 * x),
        ("e^x", |x| x.exp()),
    ];
    let (name, f) = *r.pick(&F);
    let max = *r.pick(&[0.05, 0.5, 1.0, 7.0, 10.0, 120.0, 200.0, 3600.0]);
    let ticks = if r.one_in(60) { r.urange(60, 4_000) } else { r.urange(1, 60) };
    let plan: Vec<(bool, u64)> = (0..ticks * 2).map(|_| (r.one_in(5), r.below(1000))).collect();
    set_context(format!("{name} max {max}"));
    paused().block_on(async move {
        let mut i = CappedGrowingInterval::new(max, f);
        let mut done = 0usize;
        let mut log = String::new();
        // when the wait that is under way began
        let mut begun: Option<tokio::time::Instant> = None;
        for (cancel, part) in plan {
            if done == ticks {
                break;
            }
            let want = f(done as f64).min(max);
            let from = *begun.get_or_insert_with(tokio::time::Instant::now);
            let left = want - from.elapsed().as_secs_f64();
            if cancel && want > 0.05 && left > 0.02 {
                // something else happens before the end: the wait goes on afterwards
                let some = left * 0.9 * part as f64 / 1000.0;
                tokio::select! {
                    biased;
                    _ = i.tick() => {
                        violation("early", &format!("{name} max {max}: wait {done} ended {} s after it began instead of after {want} s [{log}]", from.elapsed().as_secs_f64()));
                        done += 1;
                        begun = None;
                    }
                    _ = tokio::time::sleep(Duration::from_secs_f64(some)) => count("cancelled", 1),
                }
                if part % 3 == 0 && begun.is_some() {
                    // the time until the wait is taken up again is a part of it
                    let pause = want * (part % 7) as f64 / 5.0;
                    tokio::time::sleep(Duration::from_secs_f64(pause)).await;
                    log.push('p');
                }
                log.push('c');
                continue;
            }
            let due = left.max(0.0);
            let resumed = tokio::time::Instant::now();
            if tokio::time::timeout(Duration::from_secs_f64(due + 5.0), i.tick()).await.is_err() {
                violation("late", &format!("{name} max {max}: wait {done} didn't end 5 s after the expected {want} s [{log}]"));
                return;
            }
            let took = resumed.elapsed().as_secs_f64();
            if took + 0.0005 < due || took > due + 0.004 {
                violation("duration", &format!("{name} max {max}: wait {done} took {took} s instead of {due} s (of {want} s) [{log}]"));
            }
            count("ticks", 1);
            if want == max {
                count("ticks_at_cap", 1);
            }
            log.push('t');
            done += 1;
            begun = None;
        }
        eval(Some(hash_of(format!("{name} {max} {log}").as_bytes())));
        sample("run", || format!("{name} max {max} {log} (t: waited to the end, c: given up, p: pause before it was taken up again)"));
    });
}

// ---------------------------------------------------------------- S01

fn s01(r: &mut Rng) {
    let holders = r.urange(0, 12);
    let generations: Vec<(usize, u64, u64, bool)> =
        (0..holders).map(|_| (r.idx(4), r.below(50), if r.one_in(6) { r.below(3_600_000) } else { r.below(2000) }, r.one_in(4))).collect();
    let early: Vec<bool> = (0..holders).map(|_| r.one_in(6)).collect();
    let send_at = r.below(60);
    let threads = r.bool();
    let desc = format!("{holders} holders (clones, receive delay ms, cleanup ms, cloned late)={generations:?} leaving early={early:?} send at {send_at} ms threads={threads}");
    set_context(desc.clone());
    let rt = if threads {
        tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap()
    } else {
        paused()
    };
    let scale = move |ms: u64| if threads { Duration::from_micros(ms.min(2000) * 20) } else { Duration::from_millis(ms) };
    let limit = if threads { Duration::from_secs(60) } else { Duration::from_secs(5000) };
    rt.block_on(async move {
        let (tx, rx) = n::shutdown::channel();
        let clock = Arc::new(AtomicU64::new(1));
        let signalled_at = Arc::new(AtomicU64::new(0));
        let last_drop = Arc::new(AtomicU64::new(0));
        let alive = Arc::new(AtomicUsize::new(0));
        let got = Arc::new(AtomicUsize::new(0));
        let mut expected = 0;
        let mut tasks = Vec::new();
        for (k, (clones, delay, cleanup, chain)) in generations.iter().copied().enumerate() {
            for c in 0..=clones {
                let mut mine = if chain { rx.clone().clone() } else { rx.clone() };
                let leaves = early[k] && c == 0;
                if !leaves {
                    expected += 1;
                }
                alive.fetch_add(1, Ordering::SeqCst);
                let (clock, signalled_at, last_drop, alive, got, desc) =
                    (clock.clone(), signalled_at.clone(), last_drop.clone(), alive.clone(), got.clone(), desc.clone());
                tasks.push(tokio::spawn(async move {
                    tokio::time::sleep(scale(delay)).await;
                    if !leaves {
                        mine.recv().await;
                        if signalled_at.load(Ordering::SeqCst) == 0 {
                            violation("spurious", &format!("a holder was told to stop before anybody asked for it: {desc}"));
                        }
                        got.fetch_add(1, Ordering::SeqCst);
                        tokio::time::sleep(scale(cleanup)).await;
                    }
                    alive.fetch_sub(1, Ordering::SeqCst);
                    last_drop.fetch_max(clock.fetch_add(1, Ordering::SeqCst), Ordering::SeqCst);
                    drop(mine);
                }));
            }
        }
        drop(rx);
        tokio::time::sleep(scale(send_at)).await;
        signalled_at.store(clock.fetch_add(1, Ordering::SeqCst), Ordering::SeqCst);
        let waiter = tx.send();
        let waited = tokio::time::timeout(limit, waiter.wait()).await;
        let left = alive.load(Ordering::SeqCst);
        match waited {
            Ok(()) if left > 0 => violation("too-early", &format!("shutdown was reported complete while {left} holders still work: {desc}")),
            Ok(()) => count("completed", 1),
            Err(_) if threads => inconclusive(&format!("no end in {limit:?}: {desc}")),
            Err(_) => violation("never", &format!("shutdown isn't reported complete, {left} holders left: {desc}")),
        }
        for t in tasks {
            let _ = tokio::time::timeout(limit, t).await;
        }
        let g = got.load(Ordering::SeqCst);
        if g != expected {
            violation("signal", &format!("{g} of {expected} holders were told to stop: {desc}"));
        }
        count("signals", g as u64);
        count(if threads { "threaded" } else { "virtual_time" }, 1);
        eval(Some(hash_of(desc.as_bytes())));
        sample("history", || desc.clone());
    });
}

// ---------------------------------------------------------------- R01

fn peer(k: u64) -> Peer {
    Peer::new(SocketAddrV4::new(Ipv4Addr::new(10, (k >> 16) as u8, (k >> 8) as u8, k as u8), 1000 + (k % 50000) as u16))
}

fn rank(s: &Status) -> usize {
    match s {
        Status::Unknown => 0,
        Status::NoUsefulPieces => 1,
        Status::ChokedForTooLong => 2,
        Status::UnableToConnect => 3,
        Status::Active => 9,
    }
}

fn bad_status(r: &mut Rng) -> Status {
    r.pick(&[Status::Unknown, Status::UnableToConnect, Status::ChokedForTooLong, Status::NoUsefulPieces]).clone()
}

fn r01(r: &mut Rng) {
    if r.one_in(3) {
        r01_threads(r)
    } else {
        r01_model(r)
    }
}

fn r01_model(r: &mut Rng) {
    let hash = r.id();
    let mut p = Peers::new(&ID::new(hash));
    let mut other = hash;
    other[r.idx(20)] ^= 1 << r.idx(8);
    if !p.serve(&ID::new(hash)) || p.serve(&ID::new(other)) {
        violation("serve", &format!("{} is taken for {}", hex(&hash), hex(&other)));
    }
    let mut m: HashMap<Peer, Status> = HashMap::new();
    let mut log = String::new();
    let space = *r.pick(&[5u64, 30, 300]);
    let ops = r.urange(1, 80);
    for _ in 0..ops {
        match r.below(7) {
            0 => {
                let k = r.below(space);
                log.push_str(&format!("insert({k}) "));
                p.insert(peer(k));
                m.entry(peer(k)).or_insert(Status::Unknown);
            }
            1 => {
                let ks: Vec<u64> = (0..r.idx(40)).map(|_| r.below(space)).collect();
                log.push_str(&format!("extend({ks:?}) "));
                p.extend(ks.iter().map(|k| peer(*k)));
                for k in ks {
                    m.entry(peer(k)).or_insert(Status::Unknown);
                }
            }
            2 | 3 => {
                let active: Vec<Peer> = m.iter().filter(|(_, s)| **s == Status::Active).map(|(p, _)| *p).collect();
                let mut bad: Vec<(Peer, Status)> = Vec::new();
                for x in active {
                    if r.bool() {
                        bad.push((x, bad_status(r)));
                    }
                }
                let limit = *r.pick(&[0usize, 1, 2, 5, 10, 1000]);
                log.push_str(&format!("take({limit}, returning {}) ", bad.iter().map(|(p, s)| format!("{}={s:?}", p.to_string())).collect::<Vec<_>>().join(",")));
                for (x, s) in &bad {
                    m.insert(*x, s.clone());
                }
                let got = p.return_batch_of_bad_peers_and_get_new_batch(&bad, limit);
                let set: HashSet<Peer> = got.iter().copied().collect();
                let available = m.values().filter(|s| **s != Status::Active).count();
                if set.len() != got.len() {
                    violation("duplicate", &format!("a peer was handed out twice by one call: {log}"));
                }
                if got.len() != available.min(limit) {
                    violation("batch-size", &format!("{} peers handed out, {available} available, limit {limit}: {log}", got.len()));
                }
                for g in &got {
                    match m.get(g) {
                        None => violation("unknown-peer", &format!("{} was never inserted: {log}", g.to_string())),
                        Some(Status::Active) => violation("in-use", &format!("{} was handed out although it is in use: {log}", g.to_string())),
                        _ => (),
                    }
                }
                // none that is left is better than one that was taken
                let worst = got.iter().filter_map(|g| m.get(g)).map(rank).max().unwrap_or(0);
                if let Some((q, s)) = m.iter().find(|(q, s)| !set.contains(q) && **s != Status::Active && rank(s) < worst) {
                    violation("priority", &format!("{} ({s:?}) was left out for a worse one: {log}", q.to_string()));
                }
                for g in got {
                    m.insert(g, Status::Active);
                }
                count("batch", 1);
            }
            4 => {
                let limit = *r.pick(&[0usize, 1, 8, 216, usize::MAX]);
                log.push_str(&format!("share({limit}) "));
                let got = p.get_good_peers(limit).unwrap_or_default();
                let good = m.values().filter(|s| **s != Status::UnableToConnect).count();
                if got.len() != good.min(limit) || got.iter().collect::<HashSet<_>>().len() != got.len() {
                    violation("share-size", &format!("{} peers shared, {good} good, limit {limit}: {log}", got.len()));
                }
                if got.iter().any(|g| m.get(g).map(|s| *s == Status::UnableToConnect).unwrap_or(true)) {
                    violation("share-bad", &format!("a peer that nobody can connect to is shared: {log}"));
                }
                count("share", 1);
            }
            5 => {
                let good = m.values().filter(|s| **s != Status::UnableToConnect).count();
                if p.enough_peers() != (good >= 128) {
                    violation("enough", &format!("enough_peers is {} with {good} good ones: {log}", p.enough_peers()));
                }
                count("enough", 1);
            }
            _ => {
                let all: HashSet<Peer> = p.peer_addresses().into_iter().collect();
                if all != m.keys().copied().collect() {
                    violation("membership", &format!("{} peers registered, {} inserted: {log}", all.len(), m.len()));
                }
                count("membership", 1);
            }
        }
        if violation_count() > 10 {
            break;
        }
    }
    eval(Some(hash_of(log.as_bytes())));
    sample("history", || log.clone());
}

/// many threads take, return and insert: nobody holds a peer that another one holds, none is lost
fn r01_threads(r: &mut Rng) {
    let registry = Peers::new(&ID::new([7; 20]));
    let space = r.range(4, 60);
    let threads = r.urange(2, 6);
    let held: Arc<Mutex<HashMap<Peer, usize>>> = Arc::default();
    let inserted: Arc<Mutex<HashSet<Peer>>> = Arc::default();
    let handed = Arc::new(AtomicU64::new(0));
    let start = Arc::new(std::sync::Barrier::new(threads));
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (mut p, held, inserted, handed, start, mut r) =
                (registry.clone(), held.clone(), inserted.clone(), handed.clone(), start.clone(), r.fork());
            std::thread::spawn(move || {
                start.wait();
                let mut mine: Vec<Peer> = Vec::new();
                for _ in 0..200 {
                    match r.below(4) {
                        0 => {
                            let x = peer(r.below(space));
                            inserted.lock().unwrap().insert(x);
                            if r.bool() {
                                p.insert(x)
                            } else {
                                p.extend([x])
                            }
                        }
                        1 => {
                            let _ = p.get_good_peers(r.idx(20));
                            let _ = p.enough_peers();
                        }
                        _ => {
                            let k = r.idx(mine.len() + 1);
                            let bad: Vec<(Peer, Status)> = mine.drain(..k).map(|x| (x, bad_status(&mut r))).collect();
                            // given back before the call: from its start on somebody else may have it
                            {
                                let mut h = held.lock().unwrap();
                                for (x, _) in &bad {
                                    h.remove(x);
                                }
                            }
                            let got = p.return_batch_of_bad_peers_and_get_new_batch(&bad, r.idx(6));
                            handed.fetch_add(got.len() as u64, Ordering::Relaxed);
                            let mut h = held.lock().unwrap();
                            for x in got {
                                if let Some(o) = h.insert(x, t) {
                                    violation("two-holders", &format!("{} was handed to thread {t} while thread {o} has it", x.to_string()));
                                }
                                mine.push(x);
                            }
                        }
                    }
                    if r.one_in(8) {
                        std::thread::yield_now();
                    }
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    let all: HashSet<Peer> = registry.peer_addresses().into_iter().collect();
    if all != *inserted.lock().unwrap() {
        violation("lost", &format!("{} peers registered, {} inserted by {threads} threads", all.len(), inserted.lock().unwrap().len()));
    }
    // what nobody holds can be taken, what somebody holds can't
    let h = held.lock().unwrap().len();
    let rest = registry.clone().return_batch_of_bad_peers_and_get_new_batch(&[], usize::MAX >> 1);
    if rest.len() + h != all.len() || rest.iter().any(|x| held.lock().unwrap().contains_key(x)) {
        violation("conservation", &format!("{} peers: {h} held and {} available", all.len(), rest.len()));
    }
    let k = handed.load(Ordering::Relaxed);
    count("threaded_runs", 1);
    count("threaded_handed_out", k);
    eval(Some(hash_of(format!("{space} {threads} {k} {h}").as_bytes())));
    sample("threads", || format!("{threads} threads, {space} peers, {k} handed out, {h} held at the end"));
}
