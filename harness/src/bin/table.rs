//! Monitors of the routing table and of its copy on disk: D05, D06, D07.
use n::data_structures::ID;
use n::dht::krpc_message::Nodes;
use n::dht::routing_table::{Node, RoutingTable};
use nargun::verif as n;
use nv::kad::{class, distance, id_in_class, Id, Known, Table, K, VALID_SECS};
use nv::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::net::{Ipv4Addr, SocketAddrV4};
use std::path::Path;
use std::time::Duration;

fn main() {
    let a = Args::parse();
    install_panic_monitor();
    install_hang_monitor(60);
    let mut r = a.rng();
    let scratch = net::Scratch::new("table");
    std::env::set_var("HOME", scratch.path());
    let rounds = a.num("rounds", 100);
    for round in 0..rounds {
        beat();
        let mut r = r.fork();
        match a.property.as_str() {
            "D05" | "D06" => history(&mut r, scratch.path(), a.property == "D06"),
            "D07" => {
                stored(&mut r, scratch.path());
                if round % 3 == 0 {
                    crashed(&mut r, scratch.path());
                }
            }
            x => inconclusive(&format!("unknown property {x}")),
        }
        if violation_count() > 20 {
            break;
        }
    }
    scratch.cleanup();
    finish()
}

fn raw(id: &ID) -> Id {
    id.as_byte_ref().try_into().unwrap()
}

fn addr(r: &mut Rng) -> SocketAddrV4 {
    SocketAddrV4::new(Ipv4Addr::new(r.u8(), r.u8(), r.u8(), r.u8()), r.below(65536) as u16)
}

fn forget_cache(home: &Path) {
    let d = home.join(".nargun");
    if d.exists() {
        let _ = std::fs::remove_dir_all(&d);
    }
}

fn contents(rt: &RoutingTable) -> Vec<(Id, SocketAddrV4)> {
    rt.iter_nodes().map(|x| (raw(&x.id), x.addr)).collect()
}

/// id of a class that is likely to become full, or a near miss of a known one
fn some_id(r: &mut Rng, t: &Table, spread: usize) -> Id {
    match r.below(20) {
        0 => r.id(),
        1 => {
            let c = r.urange(0, 160);
            id_in_class(r, &t.own, c)
        }
        2 if !t.nodes.is_empty() => {
            let ids: Vec<&Id> = t.nodes.keys().collect();
            let mut i = *ids[r.idx(ids.len())];
            let b = r.idx(160);
            i[b / 8] ^= 0x80 >> (b % 8);
            i
        }
        3 => t.own,
        _ => {
            let c = r.idx(spread);
            id_in_class(r, &t.own, c)
        }
    }
}

struct Run {
    t: Table,
    touched_with: HashMap<Id, HashSet<SocketAddrV4>>,
    log: Vec<String>,
    start: tokio::time::Instant,
}

impl Run {
    fn now(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    fn tail(&self) -> String {
        let n = self.log.len();
        format!("own {} ... {}", hex(&self.t.own), self.log[n.saturating_sub(12)..].join(" "))
    }

    /// a node answered
    fn touch(&mut self, rt: &mut RoutingTable, id: Id, a: SocketAddrV4, report: bool) {
        let now = self.now();
        let had_place = self.t.has_place(&id, now);
        let known_before = self.t.nodes.contains_key(&id);
        let may_evict = !known_before && self.t.may_evict(&id);
        let c = class(&self.t.own, &id);
        rt.touch_node(ID::new(id), a);
        self.touched_with.entry(id).or_default().insert(a);
        self.log.push(format!("touch({}.. class {c})", hex(&id[..3])));
        count("touched", 1);
        count("touched_own", (id == self.t.own) as u64);

        let after: Vec<(Id, SocketAddrV4)> = contents(rt);
        let ids: HashSet<Id> = after.iter().map(|x| x.0).collect();
        if !report {
            // just follow
        } else {
            if ids.len() != after.len() {
                violation("duplicate", &format!("a node is in the table twice: {}", self.tail()));
            }
            if had_place && !ids.contains(&id) {
                violation("not-taken", &format!("a node whose class has {} good nodes (of at most 8) isn't in the table after it answered: {}", self.t.good_in_class(c, now), self.tail()));
            }
            if !known_before && id == self.t.own && ids.contains(&id) {
                violation("own-id", &format!("our own id became a node: {}", self.tail()));
            } else if !had_place && ids.contains(&id) {
                violation("ninth", &format!("a node was taken although its class has eight good nodes: {}", self.tail()));
            }
            let gone: Vec<&Id> = self.t.nodes.keys().filter(|x| !ids.contains(*x)).collect();
            if let Some(g) = gone.iter().find(|g| self.t.is_good(g, now)) {
                violation("good-lost", &format!("good node {} was removed by touching {}: {}", hex(&g[..3]), hex(&id[..3]), self.tail()));
            }
            if gone.len() > 1 {
                violation("many-lost", &format!("{} nodes were removed by one other: {}", gone.len(), self.tail()));
            }
            if !gone.is_empty() && (known_before || !ids.contains(&id) || !may_evict) {
                violation(
                    "needless-loss",
                    &format!(
                        "{} was removed needlessly (known before: {known_before}, in table now: {}, a bucket could be full: {may_evict}): {}",
                        hex(&gone[0][..3]),
                        ids.contains(&id),
                        self.tail()
                    ),
                );
            }
            if !gone.is_empty() {
                count("replaced", 1);
            }
            if !had_place {
                count("refused", 1);
            }
            if let Some(x) = ids.iter().find(|x| !self.t.nodes.contains_key(*x) && **x != id) {
                violation("appeared", &format!("{} appeared from nowhere: {}", hex(&x[..3]), self.tail()));
            }
            for (i, a) in &after {
                if !self.touched_with.get(i).map(|s| s.contains(a)).unwrap_or(false) {
                    violation("address", &format!("{} has the address {a}, which it never had: {}", hex(&i[..3]), self.tail()));
                }
            }
            let mut per_class: BTreeMap<usize, usize> = BTreeMap::new();
            for i in &ids {
                *per_class.entry(class(&self.t.own, i)).or_default() += 1;
            }
            if let Some((c, m)) = per_class.iter().find(|(_, m)| **m > K) {
                violation("overfull", &format!("{m} nodes of class {c}: {}", self.tail()));
            }
        }
        // follow what the table did: which of the bad nodes makes room is its choice
        let seen: HashMap<Id, Known> = after
            .iter()
            .map(|(i, a)| {
                let s = if *i == id { Some(now) } else { self.t.nodes.get(i).and_then(|k| k.seen) };
                (*i, Known { addr: *a, seen: s })
            })
            .collect();
        self.t.nodes = seen;
    }

    fn check_state(&self, rt: &RoutingTable, r: &mut Rng) {
        let now = self.now();
        let good = self.t.good(now).len();
        if rt.count_good_nodes() != good {
            violation("good-count", &format!("{} good nodes instead of {good}: {}", rt.count_good_nodes(), self.tail()));
        }
        for i in self.t.nodes.keys() {
            if !rt.contains_node(&ID::new(*i)) {
                violation("contains", &format!("{} is in the table but isn't found: {}", hex(&i[..3]), self.tail()));
            }
        }
        for _ in 0..5 {
            let i = some_id(r, &self.t, 10);
            if rt.contains_node(&ID::new(i)) != self.t.nodes.contains_key(&i) {
                violation("contains", &format!("contains_node({}) is wrong: {}", hex(&i), self.tail()));
            }
        }
        // refresh
        let targets: Vec<Id> = rt.iter_over_ids_within_fillable_buckets().map(|x| raw(&x)).collect();
        let mut covered = HashSet::new();
        for x in &targets {
            let c = class(&self.t.own, x);
            if *x != self.t.own && self.t.good_in_class(c, now) >= K {
                violation("refresh-full", &format!("class {c} has eight good nodes but is to be refreshed: {}", self.tail()));
            }
            covered.insert(c);
        }
        if !targets.contains(&self.t.own) {
            violation("refresh-own", &format!("the neighbourhood isn't refreshed: {}", self.tail()));
        }
        for c in 0..160 {
            // more nodes than fit into one bucket: this class has a bucket of its own
            if self.t.from_class(c) > K && self.t.good_in_class(c, now) < K && !covered.contains(&c) {
                violation("refresh-missing", &format!("class {c} has {} good nodes but isn't refreshed: {}", self.t.good_in_class(c, now), self.tail()));
            }
        }
        count("refreshes", 1);
        eval(Some(state_hash(&self.t)));
    }

    fn check_closest(&self, rt: &RoutingTable, r: &mut Rng) {
        let now = self.now();
        for k in 0..6 {
            let target = match k {
                0 => r.id(),
                1 if !self.t.nodes.is_empty() => {
                    let ids: Vec<&Id> = self.t.nodes.keys().collect();
                    *ids[r.idx(ids.len())]
                }
                2 => self.t.own,
                _ => some_id(r, &self.t, 12),
            };
            let want = self.t.closest(&target, now);
            let tid = ID::new(target);
            let got: Option<Vec<Id>> = rt.get_closest_nodes(&tid).map(|v| v.iter().map(|x| raw(&x.id)).collect());
            let show = |v: &[Id]| v.iter().map(|x| hex(&distance(x, &target)[..4])).collect::<Vec<_>>().join(",");
            match (&got, want.is_empty()) {
                (None, true) => count("nobody", 1),
                (Some(g), false) if *g == want => count("closest", 1),
                (g, _) => violation("closest", &format!("distances to {} are {:?} instead of {}: {}", hex(&target), g.as_ref().map(|g| show(g)), show(&want), self.tail())),
            }
            let one = rt.get_closest_node(&tid).map(|x| raw(&x.id));
            if one != want.first().cloned() {
                violation("closest-one", &format!("closest node to {} is wrong: {}", hex(&target), self.tail()));
            }
            let f = rt.find_node(&tid);
            let v: Vec<(Id, SocketAddrV4)> = f.iter().flat_map(|x| x.iter()).map(|x| (raw(&x.id), x.addr)).collect();
            for (i, a) in &v {
                if self.t.nodes.get(i).map(|k| k.addr) != Some(*a) {
                    violation("find-address", &format!("find_node({}) gives {} the address {a}: {}", hex(&target), hex(&i[..3]), self.tail()));
                }
            }
            let ids: Vec<Id> = v.iter().map(|x| x.0).collect();
            if self.t.nodes.contains_key(&target) {
                if !matches!(f, Some(Nodes::Exact(_))) || ids != vec![target] {
                    violation("find-exact", &format!("find_node of the known node {} gives {:?}: {}", hex(&target), f, self.tail()));
                }
                count("exact", 1);
            } else if ids != want || matches!(f, Some(Nodes::Exact(_))) {
                violation("find-closest", &format!("find_node({}) gives distances {} instead of {}: {}", hex(&target), show(&ids), show(&want), self.tail()));
            }
            eval(Some(state_hash(&self.t) ^ hash_of(&target)));
        }
    }
}

fn state_hash(t: &Table) -> u64 {
    t.nodes.iter().fold(0, |h, (i, k)| h ^ hash_of(i) ^ k.seen.map(|s| s as u64).unwrap_or(77).wrapping_mul(0x9e3779b97f4a7c15))
}

/// nodes answer, fall silent, answer again, over hours
fn history(r: &mut Rng, home: &Path, closest: bool) {
    forget_cache(home);
    let steps = r.urange(20, 250);
    let spread = *r.pick(&[1usize, 2, 3, 5, 8, 14, 30]);
    set_context(format!("history of {steps} steps over {spread} classes"));
    vt::runtime().block_on(async {
        let mut rt = RoutingTable::new().await;
        let own = raw(rt.own_id());
        let mut run = Run { t: Table::new(own), touched_with: HashMap::new(), log: vec![], start: tokio::time::Instant::now() };
        if rt.iter_nodes().count() != 0 {
            violation("not-empty", "a new table has nodes");
        }
        let mut gone: Vec<Id> = Vec::new();
        for k in 0..steps {
            match r.below(12) {
                0 => {
                    // ages are multiples of 40 s, the limit is 900 s
                    let d = 40 * if r.one_in(3) { r.range(1, 40) } else { r.range(1, 6) };
                    tokio::time::advance(Duration::from_secs(d)).await;
                    run.log.push(format!("+{d}s"));
                    count("seconds", d);
                }
                1..=3 if !run.t.nodes.is_empty() => {
                    let ids: Vec<Id> = run.t.nodes.keys().cloned().collect();
                    let i = *r.pick(&ids);
                    let a = if r.one_in(4) { addr(r) } else { run.t.nodes[&i].addr };
                    run.touch(&mut rt, i, a, !closest);
                    count("touched_again", 1);
                }
                4 if !gone.is_empty() => {
                    let i = *r.pick(&gone);
                    let a = addr(r);
                    run.touch(&mut rt, i, a, !closest);
                }
                _ => {
                    let i = some_id(r, &run.t, spread);
                    let a = addr(r);
                    let before: Vec<Id> = run.t.nodes.keys().cloned().collect();
                    run.touch(&mut rt, i, a, !closest);
                    gone.extend(before.into_iter().filter(|x| !run.t.nodes.contains_key(x)));
                }
            }
            if closest {
                if k % 3 == 0 {
                    run.check_closest(&rt, r);
                }
            } else {
                run.check_state(&rt, r);
            }
        }
        count("histories", 1);
        sample("history", || format!("{} nodes in the end, {}", run.t.nodes.len(), run.tail()));
        let _ = VALID_SECS;
    });
}

// ---------------------------------------------------------------- D07

async fn filled(r: &mut Rng, rt: &mut RoutingTable, most: usize) {
    let own = raw(rt.own_id());
    let t = Table::new(own);
    let spread = *r.pick(&[1usize, 2, 5, 14, 60]);
    for _ in 0..r.urange(0, most) {
        let i = some_id(r, &t, spread);
        rt.touch_node(ID::new(i), addr(r));
    }
}

fn as_map(rt: &RoutingTable) -> BTreeMap<Id, SocketAddrV4> {
    contents(rt).into_iter().collect()
}

/// a table that came from disk, whatever was there, has to work
async fn usable(rt: &mut RoutingTable, r: &mut Rng, what: &str) {
    let mut run = Run { t: Table::new(raw(rt.own_id())), touched_with: HashMap::new(), log: vec![what.to_string()], start: tokio::time::Instant::now() };
    for (i, a) in contents(rt) {
        run.t.nodes.insert(i, Known { addr: a, seen: None });
        run.touched_with.entry(i).or_default().insert(a);
        if !rt.contains_node(&ID::new(i)) {
            violation("loaded-lost", &format!("{} is in a loaded table but can't be found ({what})", hex(&i)));
            return;
        }
    }
    if rt.count_good_nodes() != 0 {
        violation("loaded-good", &format!("nodes that weren't heard of since the start count as good ({what})"));
    }
    for _ in 0..r.urange(1, 40) {
        let ids: Vec<Id> = run.t.nodes.keys().cloned().collect();
        let i = if !ids.is_empty() && r.one_in(3) { *r.pick(&ids) } else { some_id(r, &run.t, 6) };
        let a = run.t.nodes.get(&i).map(|k| k.addr).unwrap_or_else(|| addr(r));
        run.touch(rt, i, a, true);
        run.check_state(rt, r);
        run.check_closest(rt, r);
    }
}

fn stored(r: &mut Rng, home: &Path) {
    forget_cache(home);
    let file = home.join(".nargun");
    vt::runtime().block_on(async {
        let mut rt = RoutingTable::new().await;
        set_context("store and load".into());
        let generations = r.urange(1, 3);
        for g in 0..generations {
            filled(r, &mut rt, 150).await;
            let own = raw(rt.own_id());
            let want = as_map(&rt);
            rt.store().await;
            let loaded = RoutingTable::new().await;
            if raw(loaded.own_id()) != own {
                violation("own-id", &format!("own id changed from {} to {} by a restart (generation {g}, {} nodes)", hex(&own), hex(loaded.own_id().as_byte_ref()), want.len()));
            }
            if as_map(&loaded) != want || contents(&loaded).len() != want.len() {
                violation("round-trip", &format!("{} nodes were stored, {} loaded or they differ", want.len(), contents(&loaded).len()));
            }
            count("stored", 1);
            count("nodes_stored", want.len() as u64);
            eval(Some(want.keys().fold(g as u64, |h, i| h ^ hash_of(i))));
            rt = loaded;
        }
        let mut again = RoutingTable::new().await;
        usable(&mut again, r, "loaded as it was stored").await;

        // the file is damaged
        let files: Vec<_> = std::fs::read_dir(&file).map(|d| d.flatten().map(|e| e.path()).filter(|p| p.is_file()).collect()).unwrap_or_default();
        if files.is_empty() {
            violation("no-file", "nothing was stored");
            return;
        }
        let originals: Vec<(std::path::PathBuf, Vec<u8>)> = files.iter().map(|p| (p.clone(), std::fs::read(p).unwrap())).collect();
        for _ in 0..12 {
            beat();
            let (p, b) = r.pick(&originals).clone();
            let mut d = b.clone();
            let what = match r.below(8) {
                0 => {
                    d.truncate(r.idx(d.len() + 1));
                    format!("truncated to {} of {} bytes", d.len(), b.len())
                }
                1 => {
                    d.clear();
                    "empty".to_string()
                }
                2 => {
                    d = {
                        let m = r.idx(400);
                        r.bytes(m)
                    };
                    format!("{} random bytes", d.len())
                }
                3 => {
                    let m = r.idx(64);
                    let mut e = r.bytes(m);
                    d.append(&mut e);
                    format!("{m} bytes appended")
                }
                4 => {
                    let m = d.len().min(40);
                    for x in d.iter_mut().take(m) {
                        if r.one_in(4) {
                            *x = r.u8()
                        }
                    }
                    "beginning overwritten".to_string()
                }
                5 => {
                    // length fields
                    let k = r.idx(d.len().saturating_sub(8).max(1));
                    for (o, v) in r.pick(&[[0xffu8; 8], [0, 0, 0, 0, 1, 0, 0, 0], [161, 0, 0, 0, 0, 0, 0, 0], [0; 8]]).iter().enumerate() {
                        if k + o < d.len() {
                            d[k + o] = *v;
                        }
                    }
                    format!("8 bytes overwritten at {k}")
                }
                _ => {
                    let m = r.urange(1, 6);
                    for _ in 0..m {
                        let k = r.idx(d.len());
                        d[k] ^= 1 << r.below(8);
                    }
                    format!("{m} bits flipped")
                }
            };
            std::fs::write(&p, &d).unwrap();
            set_context(format!("load a damaged cache: {what}: {}", hex(&d[..d.len().min(200)])));
            let mut t = RoutingTable::new().await;
            count("damaged", 1);
            if as_map(&t).len() == contents(&t).len() {
                usable(&mut t, r, &format!("damaged: {what}")).await;
            }
            eval(Some(hash_of(&d)));
            std::fs::write(&p, &b).unwrap();
        }
        for (p, _) in &originals {
            let _ = std::fs::remove_file(p);
        }
        std::fs::create_dir_all(&files[0]).unwrap();
        let mut t = RoutingTable::new().await;
        usable(&mut t, r, "a directory in place of the file").await;
    });
}

/// the process is killed (or the disk is full) at every operation while a table is stored over an old one
fn crashed(r: &mut Rng, home: &Path) {
    let child = std::env::current_exe().unwrap().with_file_name("crash");
    let first = r.one_in(4);
    let base = home.join("base");
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(&base).unwrap();
    let seed = r.next();
    let old = if first {
        None
    } else {
        std::env::set_var("HOME", &base);
        vt::runtime().block_on(async {
            let mut rt = RoutingTable::new().await;
            filled(r, &mut rt, 120).await;
            rt.store().await;
            Some((raw(rt.own_id()), as_map(&rt)))
        })
    };
    for mode in ["kill", "lose", "full", "torn"] {
        for op in 0..40 {
            beat();
            let dir = home.join("crash");
            let _ = std::fs::remove_dir_all(&dir);
            copy_dir(&base, &dir);
            let expect = home.join("expect");
            let out = std::process::Command::new(&child)
                .args(["store", &format!("seed={seed}"), &format!("op={op}"), &format!("mode={mode}"), &format!("expect={}", expect.display())])
                .env("HOME", &dir)
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .status();
            let code = match out {
                Ok(s) => s.code(),
                Err(e) => inconclusive(&format!("can't run {}: {e}", child.display())),
            };
            let reached = match code {
                Some(77) => true,
                Some(76) => false,
                // an error of the disk may end the storing
                Some(_) if mode == "full" => true,
                x => inconclusive(&format!("child ended with {x:?}")),
            };
            let text = std::fs::read_to_string(&expect).unwrap_or_else(|e| inconclusive(&format!("no expectation: {e}")));
            let mut lines = text.lines();
            let own: Id = unhex(lines.next().unwrap_or("")).try_into().unwrap_or_else(|_| inconclusive("bad expectation"));
            let new: BTreeMap<Id, SocketAddrV4> = lines
                .map(|l| {
                    let (i, a) = l.split_once(' ').unwrap();
                    (unhex(i).try_into().unwrap(), a.parse().unwrap())
                })
                .collect();
            std::env::set_var("HOME", &dir);
            set_context(format!("loading after {mode} at operation {op}"));
            vt::runtime().block_on(async {
                let mut t = RoutingTable::new().await;
                let got = (raw(t.own_id()), as_map(&t));
                let is_new = got == (own, new.clone());
                let is_old = match &old {
                    Some(o) => *o == got,
                    None => got.1.is_empty(),
                };
                if !is_new && !is_old {
                    violation(
                        &format!("crash-{mode}"),
                        &format!("{mode} at operation {op} of storing {} nodes over {:?}: afterwards there are {} nodes and the own id is {}", new.len(), old.as_ref().map(|o| o.1.len()), got.1.len(), if Some(got.0) == old.as_ref().map(|o| o.0) || got.0 == own { "the same" } else { "another" }),
                    );
                }
                if !reached && !is_new {
                    violation("not-stored", &format!("storing ended but the new table isn't there ({mode})"));
                }
                if reached && r.one_in(4) {
                    // what a killed process left behind doesn't get into the way of the next one
                    filled(r, &mut t, 30).await;
                    let want = (raw(t.own_id()), as_map(&t));
                    t.store().await;
                    let l = RoutingTable::new().await;
                    if (raw(l.own_id()), as_map(&l)) != want {
                        violation("after-crash", &format!("table couldn't be stored after {mode} at operation {op}"));
                    }
                }
                count(if is_new { "new_after_crash" } else { "old_after_crash" }, 1);
                eval(Some(hash_of(format!("{seed} {mode} {op}").as_bytes())));
            });
            if !reached {
                count("ran_through", 1);
                break;
            }
            count(&format!("crash_{mode}"), 1);
            sample("crash", || format!("{mode} at operation {op} while {} nodes are stored over {:?}", new.len(), old.as_ref().map(|o| o.1.len())));
        }
    }
    std::env::set_var("HOME", home);
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|k| u8::from_str_radix(&s[2 * k..2 * k + 2], 16).ok()).collect()
}

fn copy_dir(a: &Path, b: &Path) {
    std::fs::create_dir_all(b).unwrap();
    for e in std::fs::read_dir(a).unwrap().flatten() {
        let to = b.join(e.file_name());
        if e.path().is_dir() {
            copy_dir(&e.path(), &to);
        } else {
            std::fs::copy(e.path(), to).unwrap();
        }
    }
}

#[allow(unused)]
fn unused(_: Node) {}
