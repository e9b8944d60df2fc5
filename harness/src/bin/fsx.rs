//! Monitors of what is stored: mapping of pieces to files (F01), containment (F02), open files (F03), restarts (F04).
use nargun::verif as n;
use n::fs::{Fs, FS};
use n::peers::connection::pending_pieces::FinishedPiece;
use n::transcoding::metainfo::Torrent;
use nv::bencode::{dict, i, s, B};
use nv::content::{files_under, gen, Content, BLOCK};
use nv::net::Scratch;
use nv::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::path::{Path, PathBuf};

fn main() {
    let a = Args::parse();
    if a.property == "F02" {
        // whatever escapes may only reach what anybody may write
        unsafe {
            libc::umask(0);
        }
    }
    let scratch = Scratch::new("fs");
    if a.property == "F02" {
        let p = std::ffi::CString::new(scratch.path().to_str().unwrap()).unwrap();
        unsafe {
            libc::chown(p.as_ptr(), 65534, 65534);
            libc::setgroups(0, std::ptr::null());
            if libc::setgid(65534) != 0 || libc::setuid(65534) != 0 {
                if libc::getuid() == 0 {
                    inconclusive("can't give up root");
                }
            }
        }
    }
    install_panic_monitor();
    install_hang_monitor(60);
    let mut r = a.rng();
    let rounds = a.num("rounds", 100);
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    rt.block_on(async {
        for k in 0..rounds {
            beat();
            let base = scratch.path().join(format!("r{k}"));
            std::fs::create_dir_all(&base).unwrap();
            match a.property.as_str() {
                "F01" => f01(&mut r, &base).await,
                "F02" => f02(&mut r, &base).await,
                "F03" => f03(&mut r, &base).await,
                "F04" => f04(&mut r, &base).await,
                x => inconclusive(&format!("unknown property {x}")),
            }
            let _ = std::fs::remove_dir_all(&base);
            if violation_count() > 20 {
                break;
            }
        }
    });
    scratch.cleanup();
    finish()
}

async fn open(base: &Path, c: &Content) -> FS {
    let t = match Torrent::from_buf(&c.torrent(&[])) {
        Ok(t) => t,
        Err(e) => inconclusive(&format!("generated torrent was refused: {e} {}", c.describe())),
    };
    FS::new(base.to_str().unwrap(), t.info).await
}

async fn write(fs: &mut FS, c: &Content, p: usize) -> anyhow_like::Res {
    fs.write_piece(FinishedPiece { idx: p, data: c.blocks(p) }).await.map_err(|e| e.to_string())
}

mod anyhow_like {
    pub type Res = Result<(), String>;
}

/// size and content of everything below
fn snapshot(base: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    files_under(base).into_iter().map(|p| (p.clone(), std::fs::read(&p).unwrap_or_default())).collect()
}

// ---------------------------------------------------------------- F01

/// Torrents of several GiB: files are sparse, what's stored is around the borders of files and of 2 and 4 GiB.
async fn f01_far(r: &mut Rng, base: &Path) {
    let pl = BLOCK * *r.pick(&[64usize, 128, 200, 256]) - if r.one_in(4) { r.urange(1, BLOCK) } else { 0 };
    let total = *r.pick(&[1usize << 31, 1 << 32, (1 << 32) + (1 << 31), 1 << 33, 20 << 30]) + r.urange(0, 3 * pl);
    let multi = r.one_in(3);
    let mut files: Vec<(String, usize)> = Vec::new();
    if multi {
        let mut left = total;
        while left > 0 && files.len() < 5 {
            let l = match r.below(5) {
                0 => r.urange(1, BLOCK),
                1 => 0,
                2 => (1usize << 32) + r.idx(100) - 50,
                3 => 1 << 31,
                _ => r.urange(1, left),
            }
            .min(left);
            left -= l;
            files.push((format!("f{}", files.len()), l));
        }
        files.push(("last".into(), left));
    }
    let np = (total + pl - 1) / pl;
    let key = r.range(0, u64::MAX - 1);
    let byte = |at: usize| ((at as u64 ^ key).wrapping_mul(0x9E3779B97F4A7C15) >> 56) as u8;
    let mut info = dict(vec![("name", s("t")), ("piece length", i(pl as u64)), ("pieces", s(vec![7u8; 20 * np]))]);
    if multi {
        let l = files.iter().map(|(p, l)| dict(vec![("length", i(*l as u64)), ("path", B::List(vec![s(p)]))])).collect();
        info.set("files", B::List(l));
    } else {
        info.set("length", i(total as u64));
    }
    let desc = format!("{total} bytes in pieces of {pl}, {}", if multi { format!("files {files:?}") } else { "single".into() });
    set_context(desc.clone());
    let t = match Torrent::from_buf(&dict(vec![("info", info), ("announce", s("udp://none.invalid:1/a"))]).encode()) {
        Ok(t) => t,
        Err(e) => inconclusive(&format!("torrent was refused: {e} {desc}")),
    };
    let mut fs = FS::new(base.to_str().unwrap(), t.info).await;
    let layout: Vec<(PathBuf, usize, usize)> = if multi {
        let mut at = 0;
        files
            .iter()
            .map(|(p, l)| {
                at += l;
                (base.join("t").join(p), at - l, *l)
            })
            .collect()
    } else {
        vec![(base.join("t"), 0, total)]
    };
    let mut todo: BTreeSet<usize> = [0, np - 1, (1 << 31) / pl, (1usize << 32) / pl, (1 << 33) / pl, r.idx(np), r.idx(np)].into();
    for (_, at, _) in &layout {
        todo.insert(at / pl);
    }
    // the same place 4 GiB before, if something wraps
    todo.insert(((np - 1) * pl % (1 << 32)) / pl);
    let mut todo: Vec<usize> = todo.into_iter().filter(|p| *p < np).collect();
    r.shuffle(&mut todo);
    todo.truncate(9);
    let range = |p: usize| (p * pl, total.min((p + 1) * pl));
    let mut done: Vec<usize> = Vec::new();
    for p in todo {
        let (a, b) = range(p);
        let data: Vec<u8> = (a..b).map(byte).collect();
        let blocks = data.chunks(BLOCK).map(|b| b.to_vec()).collect();
        if let Err(e) = fs.write_piece(FinishedPiece { idx: p, data: blocks }).await {
            violation("write-failed", &format!("piece {p} of {np} can't be written: {e}: {desc}"));
            return;
        }
        done.push(p);
        count("far_piece_written", (a >= 1 << 32) as u64);
        let begin = r.idx(b - a);
        let len = r.urange(1, (b - a - begin).min(BLOCK));
        let mut buf = vec![0xAA; len];
        match fs.read_block(p, begin, len, &mut buf).await {
            Ok(()) if buf == data[begin..begin + len] => count("block_read", 1),
            Ok(()) => violation("read-back", &format!("block {begin}+{len} of piece {p} reads something else: {desc}")),
            Err(e) => violation("read-failed", &format!("block {begin}+{len} of piece {p} can't be read: {e}: {desc}")),
        }
        beat();
    }
    drop(fs);
    for p in &done {
        let (a, b) = range(*p);
        for (path, at, len) in &layout {
            let (x, y) = (a.max(*at), b.min(at + len));
            if x >= y {
                continue;
            }
            use std::os::unix::fs::FileExt;
            let mut buf = vec![0; y - x];
            let same = std::fs::File::open(path).and_then(|f| f.read_exact_at(&mut buf, (x - at) as u64)).is_ok() && (x..y).zip(&buf).all(|(k, v)| byte(k) == *v);
            if !same {
                violation("on-disk", &format!("piece {p} of {np} isn't at its place in {}: {desc}", path.display()));
                return;
            }
        }
    }
    for (path, _, len) in &layout {
        if std::fs::metadata(path).map(|m| m.len()).unwrap_or(0) > *len as u64 {
            violation("too-long", &format!("{} is longer than {len} bytes: {desc}", path.display()));
        }
    }
    count("far_torrents", 1);
    eval(Some(hash_of(desc.as_bytes())));
    sample("far", || format!("{desc}: {done:?}"));
}

async fn f01(r: &mut Rng, base: &Path) {
    if r.one_in(25) {
        return f01_far(r, base).await;
    }
    let multi = r.below(4) != 0;
    let c = gen(r, 400_000, multi);
    set_context(c.describe());
    let mut fs = open(base, &c).await;
    let np = c.pieces();
    let mut order: Vec<usize> = (0..np).collect();
    r.shuffle(&mut order);
    for _ in 0..r.idx(3) {
        order.push(r.idx(np)); // written twice
    }
    let mut done: HashSet<usize> = HashSet::new();
    let mut log = String::new();
    for p in order {
        if r.one_in(6) {
            // what doesn't exist
            let before = snapshot(base);
            let bad = *r.pick(&[np, np + 1, np + 1000, u32::MAX as usize]);
            let data = c.blocks(r.idx(np));
            if fs.write_piece(FinishedPiece { idx: bad, data }).await.is_ok() {
                violation("write-out-of-bounds", &format!("piece {bad} of {np} was written: {}", c.describe()));
            }
            let mut buf = vec![0u8; BLOCK];
            let len = r.urange(1, BLOCK);
            if fs.read_block(bad, r.idx(c.piece_length), len, &mut buf[..len]).await.is_ok() {
                violation("read-out-of-bounds", &format!("block of piece {bad} of {np} was read: {}", c.describe()));
            }
            let over = c.data.len() - (np - 1) * c.piece_length;
            if fs.read_block(np - 1, over.saturating_sub(1), 2.min(over + 1), &mut buf[..2.min(over + 1)]).await.is_ok() {
                violation("read-past-end", &format!("bytes after the end were read: {}", c.describe()));
            }
            if snapshot(base) != before && done.len() == np {
                violation("out-of-bounds-effect", &format!("an operation out of bounds changed the files: {}", c.describe()));
            }
            count("out_of_bounds", 1);
        }
        log.push_str(&format!("w{p} "));
        if let Err(e) = write(&mut fs, &c, p).await {
            violation("write-failed", &format!("piece {p} of {np} can't be written: {e}: {} [{log}]", c.describe()));
            return;
        }
        // on disk when the write returns, everything that was written before it too
        done.insert(p);
        count("piece_written", 1);
        for q in done.iter() {
            let start = q * c.piece_length;
            if let Err(e) = c.compare_on_disk(base, start, start + c.piece(*q).len()) {
                violation("on-disk", &format!("after piece {p} was written, piece {q}: {e}: {} [{log}]", c.describe()));
                return;
            }
        }
        for _ in 0..3 {
            let q = *r.pick(&done.iter().copied().collect::<Vec<_>>());
            let piece = c.piece(q);
            let begin = r.idx(piece.len());
            let begin = if r.bool() { begin - begin % BLOCK } else { begin };
            let len = r.urange(1, (piece.len() - begin).min(BLOCK));
            let mut buf = vec![0xAA; len];
            log.push_str(&format!("r{q}:{begin}+{len} "));
            match fs.read_block(q, begin, len, &mut buf).await {
                Ok(()) if buf == piece[begin..begin + len] => count("block_read", 1),
                Ok(()) => violation("read-back", &format!("block {begin}+{len} of piece {q} reads something else: {} [{log}]", c.describe())),
                Err(e) => violation("read-failed", &format!("block {begin}+{len} of piece {q} can't be read: {e}: {} [{log}]", c.describe())),
            }
        }
    }
    drop(fs);
    if let Err(e) = c.compare_complete(base) {
        violation("complete", &format!("{e}: {} [{log}]", c.describe()));
    }
    count(if multi { "multi" } else { "single" }, 1);
    if c.files.iter().flatten().any(|f| f.1 == 0) {
        count("with_empty_file", 1);
    }
    eval(Some(hash_of(format!("{} {log}", c.describe()).as_bytes())));
    sample(if multi { "multi" } else { "single" }, || format!("{} [{log}]", c.describe()));
}

// ---------------------------------------------------------------- F02

/// depth of the base directory below the scratch directory: more than any generated path goes up
const DEPTH: usize = 12;

fn hostile_component(r: &mut Rng, k: usize) -> Vec<u8> {
    match r.below(16) {
        0 => b"..".to_vec(),
        1 => b".".to_vec(),
        2 => b"".to_vec(),
        3 => format!("../canary{k}").into_bytes(),
        4 => format!("../../x{k}").into_bytes(),
        5 => format!("a/../../x{k}").into_bytes(),
        6 => format!("/{k}").into_bytes(),
        7 => format!("..\\x{k}").into_bytes(),
        8 => format!("x{k}\0").into_bytes(),
        9 => format!(" ..{k}").into_bytes(),
        10 => format!("...{k}").into_bytes(),
        11 => b"../".to_vec(),
        12 => format!("x{k}/..").into_bytes(),
        13 => b"..\0".to_vec(),
        _ => format!("ok{k}").into_bytes(),
    }
}

async fn f02(r: &mut Rng, root: &Path) {
    let mut base = root.to_path_buf();
    for d in 0..DEPTH {
        base.push(format!("n{d}"));
        std::fs::create_dir_all(&base).unwrap();
        std::fs::write(base.join(format!("canary{d}")), b"canary").unwrap();
    }
    let base = base.join("base");
    std::fs::create_dir_all(&base).unwrap();
    // what is already in the directory stays as it is
    std::fs::create_dir_all(base.join("kept/deep")).unwrap();
    std::fs::write(base.join("kept/deep/file"), b"other data").unwrap();
    let before = snapshot(root);
    let dirs_before = dirs_under(root);

    let data = r.bytes(3000);
    let plen = 1000u64;
    let benign = r.one_in(4);
    let name = if benign || r.bool() { format!("name{}", r.below(5)).into_bytes() } else { hostile_component(r, 99) };
    let pieces: Vec<u8> = data.chunks(plen as usize).flat_map(nv::sha1::sha1).collect();
    let mut info = dict(vec![("name", s(&name)), ("piece length", i(plen)), ("pieces", s(&pieces))]);
    let mut paths: Vec<Vec<Vec<u8>>> = Vec::new();
    if r.one_in(4) {
        info.set("length", i(3000u64));
    } else {
        let nf = r.urange(1, 4);
        let mut rest = 3000u64;
        let mut files = Vec::new();
        for k in 0..nf {
            let l = if k + 1 == nf { rest } else { r.range(0, rest) };
            rest -= l;
            let mut p: Vec<Vec<u8>> = Vec::new();
            for c in 0..r.urange(1, 3) {
                p.push(if benign { format!("ok{k}_{c}").into_bytes() } else { hostile_component(r, k * 10 + c) });
            }
            if r.one_in(3) {
                p.push(format!("leaf{k}").into_bytes());
            }
            files.push(dict(vec![("length", i(l)), ("path", B::List(p.iter().map(s).collect()))]));
            paths.push(p);
        }
        info.set("files", B::List(files));
    }
    let torrent = dict(vec![("announce", s("http://t.invalid/a")), ("info", info)]).encode();
    set_context(show(&torrent));
    let escapes = |c: &Vec<u8>| c.is_empty() || c == b"." || c == b".." || c.contains(&b'/');
    let must_refuse = escapes(&name) || paths.iter().flatten().any(escapes) || name.contains(&0) || paths.iter().flatten().any(|c| c.contains(&0));
    let decoded = Torrent::from_buf(&torrent);
    let summary = format!("name={} paths={:?}", show(&name), paths.iter().map(|p| p.iter().map(|c| show(c)).collect::<Vec<_>>()).collect::<Vec<_>>());
    eval(Some(hash_of(&torrent)));
    match decoded {
        Err(_) => {
            count("refused", 1);
            if !must_refuse {
                violation("refused-benign", &format!("{summary} was refused"));
            }
        }
        Ok(t) => {
            // paths that collide with one another aren't about containment
            let mut seen: BTreeSet<Vec<Vec<u8>>> = BTreeSet::new();
            let mut conflict = false;
            for p in &paths {
                for k in 1..p.len() {
                    conflict |= seen.contains(&p[..k].to_vec());
                }
                conflict |= seen.iter().any(|q| q.len() >= p.len() && q[..p.len()] == p[..]);
                seen.insert(p.clone());
            }
            if conflict {
                count("conflict_skipped", 1);
            } else {
                let nul = name.contains(&0) || paths.iter().flatten().any(|c| c.contains(&0));
                if !nul {
                    count("stored", 1);
                    sample("stored", || summary.clone());
                    let base2 = base.clone();
                    let info = t.info.clone();
                    let pieces: Vec<Vec<u8>> = data.chunks(plen as usize).map(|x| x.to_vec()).collect();
                    let h = tokio::spawn(async move {
                        let mut fs = FS::new(base2.to_str().unwrap(), info).await;
                        for (idx, p) in pieces.into_iter().enumerate() {
                            let _ = fs.write_piece(FinishedPiece { idx, data: vec![p] }).await;
                            let mut buf = [0u8; 10];
                            let _ = fs.read_block(idx, 0, 10, &mut buf).await;
                        }
                    });
                    let _ = h.await;
                }
            }
        }
    }
    // everything outside of base, and what was in it, is what it was
    let after = snapshot(root);
    for (p, d) in &before {
        match after.get(p) {
            Some(x) if x == d => (),
            Some(_) => violation("overwritten", &format!("{} was overwritten by {summary}", p.strip_prefix(root).unwrap().display())),
            None => violation("removed", &format!("{} was removed by {summary}", p.strip_prefix(root).unwrap().display())),
        }
    }
    let expected_top = base.join(String::from_utf8_lossy(&name).to_string());
    for p in after.keys().filter(|p| !before.contains_key(*p)) {
        if !p.starts_with(&base) || (!paths.is_empty() && !p.starts_with(&expected_top)) {
            violation("escape", &format!("{} was created by {summary}", p.strip_prefix(root).unwrap().display()));
        }
    }
    let dirs_after = dirs_under(root);
    for d in dirs_after.difference(&dirs_before) {
        if !d.starts_with(&base) {
            violation("escape-dir", &format!("directory {} was created by {summary}", d.strip_prefix(root).unwrap().display()));
        }
    }
    for d in dirs_before.difference(&dirs_after) {
        violation("removed-dir", &format!("directory {} was removed by {summary}", d.strip_prefix(root).unwrap().display()));
    }
    count("torrents", 1);
}

fn dirs_under(p: &Path) -> BTreeSet<PathBuf> {
    let mut v = BTreeSet::new();
    if let Ok(rd) = std::fs::read_dir(p) {
        for e in rd.flatten() {
            if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                v.extend(dirs_under(&e.path()));
                v.insert(e.path());
            }
        }
    }
    v
}

// ---------------------------------------------------------------- F03

fn open_files(base: &Path) -> usize {
    let mut k = 0;
    if let Ok(rd) = std::fs::read_dir("/proc/self/fd") {
        for e in rd.flatten() {
            if let Ok(t) = std::fs::read_link(e.path()) {
                if t.starts_with(base) {
                    k += 1;
                }
            }
        }
    }
    k
}

/// what the end of the process does to files that nothing closes
fn close_under(base: &Path) {
    if let Ok(rd) = std::fs::read_dir("/proc/self/fd") {
        for e in rd.flatten() {
            if let Ok(t) = std::fs::read_link(e.path()) {
                if t.starts_with(base) {
                    if let Ok(fd) = e.file_name().to_string_lossy().parse::<i32>() {
                        unsafe { libc::close(fd) };
                    }
                }
            }
        }
    }
}

async fn f03(r: &mut Rng, base: &Path) {
    let nf = *r.pick(&[1usize, 10, 15, 16, 17, 18, 30, 60, 120]);
    let mut files = Vec::new();
    let mut total = 0;
    let empties = r.idx(3);
    for k in 0..nf {
        let l = match empties {
            0 if k % 2 == 0 => 0,
            1 if k % 7 == 0 => 0,
            _ => r.urange(1, 900),
        };
        total += l;
        files.push((vec![format!("d{}", k % 5), format!("f{k}")], l));
    }
    if total == 0 {
        files.push((vec!["x".to_string()], 10));
        total = 10;
    }
    let piece_length = *r.pick(&[200usize, 1000, 4000]);
    let c = Content { name: "many".into(), piece_length, files: Some(files), data: r.bytes(total), skip: 0 };
    set_context(c.describe());
    let mut fs = open(base, &c).await;
    let check = |what: &str| {
        let k = open_files(base);
        count("handle_checks", 1);
        if k >= 16 {
            count("at_limit", 1);
        }
        if k > 16 {
            violation("handles", &format!("{k} files of a torrent with {nf} are open after {what}"));
        }
    };
    check("opening");
    let mut order: Vec<usize> = (0..c.pieces()).collect();
    r.shuffle(&mut order);
    let mut done = Vec::new();
    for p in order {
        if let Err(e) = write(&mut fs, &c, p).await {
            violation("write-failed", &format!("piece {p} can't be written: {e}: {}", c.describe()));
            return;
        }
        done.push(p);
        check("write");
        let q = *r.pick(&done);
        let piece = c.piece(q);
        let mut buf = vec![0u8; piece.len()];
        match fs.read_block(q, 0, piece.len(), &mut buf).await {
            Ok(()) if buf == piece => (),
            x => violation("read-back", &format!("piece {q} after {} writes: {x:?}: {}", done.len(), c.describe())),
        }
        check("read");
    }
    drop(fs);
    if let Err(e) = c.compare_complete(base) {
        violation("complete", &format!("{e}: {}", c.describe()));
    }
    count("torrents", 1);
    eval(Some(hash_of(format!("{} {done:?}", c.describe()).as_bytes())));
    sample("torrent", || format!("{nf} files, {} pieces in the order {done:?}", c.pieces()));
}

// ---------------------------------------------------------------- F04

/// one of the directories can't be created: nothing is there for that, but nothing is lost either
async fn blocked(r: &mut Rng, base: &Path, c: &Content, foreign: &BTreeMap<PathBuf, Vec<u8>>, log: &mut String) {
    let top: Vec<&String> = c.files.iter().flatten().filter(|f| f.0.len() > 1).map(|f| &f.0[0]).collect();
    if top.is_empty() {
        return;
    }
    let dir = base.join(&c.name).join(*r.pick(&top));
    let aside = base.join("aside");
    let there = dir.exists();
    if there {
        std::fs::rename(&dir, &aside).unwrap_or_else(|e| inconclusive(&format!("rename: {e}")));
    }
    if !dir.parent().map(|p| p.exists()).unwrap_or(false) {
        return;
    }
    std::fs::write(&dir, b"in the way").unwrap_or_else(|e| inconclusive(&format!("write: {e}")));
    let before = snapshot(base);
    let t = Torrent::from_buf(&c.torrent(&[])).unwrap_or_else(|e| inconclusive(&format!("{e}")));
    let b = base.to_str().unwrap().to_string();
    silence_tokio_panics(&[""]);
    let opened = tokio::spawn(async move { FS::new(&b, t.info).await }).await.is_ok();
    silence_tokio_panics(&[]);
    log.push_str("blocked ");
    count("blocked", 1);
    let after = snapshot(base);
    for (p, d) in &before {
        if after.get(p) != Some(d) {
            violation("blocked-lost", &format!("{} was there when a directory couldn't be created (opened: {opened}), and isn't any more: {} [{log}]", p.display(), c.describe()));
        }
    }
    let _ = foreign;
    if dir.exists() {
        std::fs::remove_file(&dir).unwrap_or_else(|e| inconclusive(&format!("remove: {e}")));
    }
    if there && dir.parent().map(|p| p.exists()).unwrap_or(false) {
        std::fs::rename(&aside, &dir).unwrap_or_else(|e| inconclusive(&format!("rename: {e}")));
    }
}

async fn f04(r: &mut Rng, base: &Path) {
    let multi = r.below(3) != 0;
    let c = gen(r, 200_000, multi);
    set_context(c.describe());
    let np = c.pieces();
    // data that other programs or torrents keep in the same directory
    std::fs::create_dir_all(base.join("other")).unwrap();
    std::fs::write(base.join("other/file"), b"other data").unwrap();
    if multi && r.bool() {
        std::fs::create_dir_all(base.join(&c.name)).unwrap();
        std::fs::write(base.join(&c.name).join("unrelated"), b"unrelated data").unwrap();
    }
    let foreign: BTreeMap<PathBuf, Vec<u8>> = snapshot(base);
    let mut order: Vec<usize> = (0..np).collect();
    r.shuffle(&mut order);
    let mut done: Vec<usize> = Vec::new();
    let mut at = 0;
    let mut log = String::new();
    let restarts = r.urange(1, 4);
    for k in 0..=restarts {
        if r.one_in(3) {
            blocked(r, base, &c, &foreign, &mut log).await;
        }
        let mut fs = open(base, &c).await;
        log.push_str("open ");
        count("openings", 1);
        let verify = |when: &str, log: &str| {
            for q in &done {
                let start = q * c.piece_length;
                if let Err(e) = c.compare_on_disk(base, start, start + c.piece(*q).len()) {
                    violation("lost", &format!("piece {q} was stored, {when}: {e}: {} [{log}]", c.describe()));
                }
            }
            for (p, d) in &foreign {
                if std::fs::read(p).ok().as_ref() != Some(d) {
                    violation("foreign-lost", &format!("{} isn't what it was {when}: {} [{log}]", p.display(), c.describe()));
                }
            }
        };
        verify("after it was opened again", &log);
        for q in &done {
            let piece = c.piece(*q);
            let mut buf = vec![0u8; piece.len()];
            match fs.read_block(*q, 0, piece.len(), &mut buf).await {
                Ok(()) if buf == piece => count("piece_reread", 1),
                x => violation("reread", &format!("piece {q}, stored before a restart: {x:?}: {} [{log}]", c.describe())),
            }
        }
        let upto = if k == restarts { np } else { r.urange(at, np) };
        while at < upto {
            log.push_str(&format!("w{} ", order[at]));
            if let Err(e) = write(&mut fs, &c, order[at]).await {
                violation("write-failed", &format!("piece {} can't be written: {e}: {} [{log}]", order[at], c.describe()));
                return;
            }
            at += 1;
        }
        // the process ends at any moment: without any further call
        if r.bool() {
            std::mem::forget(fs);
            close_under(base);
            log.push_str("kill ");
        } else {
            drop(fs);
            log.push_str("close ");
        }
        done = order[..at].to_vec();
    }
    if let Err(e) = c.compare_on_disk(base, 0, c.data.len()) {
        violation("complete", &format!("{e}: {} [{log}]", c.describe()));
    }
    for (p, d) in &foreign {
        if std::fs::read(p).ok().as_ref() != Some(d) {
            violation("foreign-lost", &format!("{} isn't what it was: {} [{log}]", p.display(), c.describe()));
        }
    }
    eval(Some(hash_of(format!("{} {log}", c.describe()).as_bytes())));
    sample("history", || format!("{} [{log}]", c.describe()));
}
