//! Generated torrents with known content.
use crate::bencode::{dict, i, s, B};
use crate::sha1::sha1;
use crate::Rng;
use std::path::{Path, PathBuf};

pub const BLOCK: usize = 16384;

#[derive(Clone, Debug)]
pub struct Content {
    pub name: String,
    pub piece_length: usize,
    /// None: single file
    pub files: Option<Vec<(Vec<String>, usize)>>,
    /// content of everything after the first `skip` pieces
    pub data: Vec<u8>,
    /// pieces that only exist on paper: lets the rest be far behind the start of the torrent
    pub skip: usize,
}

impl Content {
    pub fn pieces(&self) -> usize {
        self.skip + (self.data.len() + self.piece_length - 1) / self.piece_length
    }
    pub fn len(&self) -> usize {
        self.skip * self.piece_length + self.data.len()
    }
    pub fn piece(&self, idx: usize) -> &[u8] {
        let start = (idx - self.skip) * self.piece_length;
        &self.data[start..self.data.len().min(start + self.piece_length)]
    }
    pub fn blocks(&self, idx: usize) -> Vec<Vec<u8>> {
        self.piece(idx).chunks(BLOCK).map(|b| b.to_vec()).collect()
    }
    pub fn info(&self) -> B {
        let mut info = dict(vec![
            ("name", s(&self.name)),
            ("piece length", i(self.piece_length as u64)),
            ("pieces", s((0..self.pieces()).map(|p| if p < self.skip { vec![0; 20] } else { sha1(self.piece(p)).to_vec() }).collect::<Vec<_>>().concat())),
        ]);
        match &self.files {
            None => info.set("length", i(self.len() as u64)),
            Some(f) => info.set(
                "files",
                B::List(
                    f.iter()
                        .map(|(p, l)| dict(vec![("length", i(*l as u64)), ("path", B::List(p.iter().map(s).collect()))]))
                        .collect(),
                ),
            ),
        };
        info
    }
    pub fn info_hash(&self) -> [u8; 20] {
        sha1(&self.info().encode())
    }
    pub fn torrent(&self, trackers: &[String]) -> Vec<u8> {
        let mut b = dict(vec![("info", self.info())]);
        b.set("announce", s(trackers.first().map(|x| x.as_str()).unwrap_or("udp://none.invalid:1/announce")));
        if trackers.len() > 1 {
            b.set("announce-list", B::List(trackers.iter().map(|t| B::List(vec![s(t)])).collect()));
        }
        b.encode()
    }
    /// path below the base directory, start and length within the content
    pub fn layout(&self) -> Vec<(PathBuf, usize, usize)> {
        match &self.files {
            None => vec![(PathBuf::from(&self.name), 0, self.data.len())],
            Some(f) => {
                let mut at = 0;
                f.iter()
                    .map(|(p, l)| {
                        let mut path = PathBuf::from(&self.name);
                        for c in p {
                            path.push(c);
                        }
                        at += l;
                        (path, at - l, *l)
                    })
                    .collect()
            }
        }
    }
    pub fn describe(&self) -> String {
        let f = match &self.files {
            None => "single".to_string(),
            Some(f) => format!("{:?}", f.iter().map(|(p, l)| format!("{}:{}", p.join("/"), l)).collect::<Vec<_>>()),
        };
        format!("name={:?} piece_length={} length={} {}{}", self.name, self.piece_length, self.len(), f, if self.skip > 0 { format!(" from piece {}", self.skip) } else { String::new() })
    }
    /// first byte of start..end that isn't on disk as it should be
    pub fn compare_on_disk(&self, base: &Path, start: usize, end: usize) -> Result<(), String> {
        use std::os::unix::fs::FileExt;
        for (path, at, len) in self.layout() {
            let (a, b) = (start.max(at), end.min(at + len));
            if a >= b {
                continue;
            }
            let f = std::fs::File::open(base.join(&path)).map_err(|e| format!("{} can't be opened: {}", path.display(), e))?;
            let mut buf = vec![0; b - a];
            f.read_exact_at(&mut buf, (a - at) as u64)
                .map_err(|e| format!("{} bytes {}..{}: {}", path.display(), a - at, b - at, e))?;
            if let Some(k) = buf.iter().zip(&self.data[a..b]).position(|(x, y)| x != y) {
                return Err(format!("{} differs at byte {} of {}..{}", path.display(), a - at + k, a - at, b - at));
            }
        }
        Ok(())
    }
    /// every file is there, has its length and content, and there is nothing else
    pub fn compare_complete(&self, base: &Path) -> Result<(), String> {
        self.compare_on_disk(base, 0, self.data.len())?;
        let mut want: Vec<PathBuf> = Vec::new();
        for (path, _, len) in self.layout() {
            let m = std::fs::metadata(base.join(&path)).map_err(|e| format!("{}: {}", path.display(), e))?;
            if m.len() != len as u64 {
                return Err(format!("{} has {} bytes instead of {}", path.display(), m.len(), len));
            }
            want.push(base.join(path));
        }
        for f in files_under(base) {
            if !want.contains(&f) {
                return Err(format!("{} isn't part of the torrent", f.display()));
            }
        }
        Ok(())
    }
}

pub fn files_under(p: &Path) -> Vec<PathBuf> {
    let mut v = Vec::new();
    if let Ok(rd) = std::fs::read_dir(p) {
        for e in rd.flatten() {
            let t = match e.file_type() {
                Ok(t) => t,
                Err(_) => continue,
            };
            if t.is_dir() {
                v.extend(files_under(&e.path()));
            } else {
                v.push(e.path());
            }
        }
    }
    v
}

pub fn filename(r: &mut Rng, tag: usize) -> String {
    let n = r.urange(0, 6);
    let w: String = (0..n).map(|_| *r.pick(&['a', 'b', 'Z', '0', '.', '-', ' ', 'ü', '漢'])).collect();
    match r.below(12) {
        0 => format!("..{tag}{w}"),
        1 => format!("{tag}{w}."),
        2 => format!(".{tag}{w}"),
        _ => format!("{w}{tag}"),
    }
}

/// files with sizes around block and piece boundaries; no path is a prefix of another one
pub fn gen(r: &mut Rng, max_bytes: usize, multi: bool) -> Content {
    let piece_length = *r.pick(&[BLOCK, BLOCK, 2 * BLOCK, 4 * BLOCK, 20000, 1000, 33000, 49152]).min(&max_bytes.max(1000));
    let mut data_len = 0;
    let mut files = Vec::new();
    if multi {
        let n = *r.pick(&[1usize, 2, 3, 5, 9, 20, 40]);
        let mut dirs: Vec<Vec<String>> = vec![vec![]];
        for k in 0..n {
            let left = max_bytes.saturating_sub(data_len);
            let to_piece = (piece_length - data_len % piece_length) % piece_length;
            let l = match r.below(9) {
                0 | 1 => 0,
                2 => 1,
                3 => to_piece,
                4 => to_piece + piece_length,
                5 => BLOCK,
                6 => r.urange(0, 2 * piece_length),
                _ => r.urange(0, (max_bytes / n).max(1)),
            }
            .min(left);
            if r.one_in(3) {
                let mut d = r.pick(&dirs).clone();
                if d.len() < 4 {
                    d.push(format!("d{}", filename(r, 1000 + k)));
                    dirs.push(d);
                }
            }
            let mut p = r.pick(&dirs).clone();
            p.push(format!("f{}", filename(r, k)));
            data_len += l;
            files.push((p, l));
        }
        if data_len == 0 {
            let l = r.urange(1, max_bytes);
            files.push((vec!["last".to_string()], l));
            data_len = l;
        }
    } else {
        let n = r.urange(1, (max_bytes / piece_length).max(1));
        data_len = match r.below(5) {
            0 => n * piece_length,
            1 => (n - 1) * piece_length + 1,
            2 => n * piece_length - 1,
            _ => (n - 1) * piece_length + r.urange(1, piece_length),
        };
    }
    let data = r.bytes(data_len);
    Content { name: format!("t{}", filename(r, 7)), piece_length, files: multi.then_some(files), data, skip: 0 }
}
