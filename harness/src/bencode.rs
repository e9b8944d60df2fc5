//! Independent bencode: an encoder that can also produce non-canonical output, and a decoder.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum B {
    Int(i128),
    Str(Vec<u8>),
    List(Vec<B>),
    Dict(BTreeMap<Vec<u8>, B>),
}

pub fn s(x: impl AsRef<[u8]>) -> B {
    B::Str(x.as_ref().to_vec())
}
pub fn i(x: impl Into<i128>) -> B {
    B::Int(x.into())
}
pub fn dict(kv: Vec<(&str, B)>) -> B {
    B::Dict(kv.into_iter().map(|(k, v)| (k.as_bytes().to_vec(), v)).collect())
}

impl B {
    pub fn encode(&self) -> Vec<u8> {
        let mut v = Vec::new();
        self.put(&mut v);
        v
    }
    fn put(&self, out: &mut Vec<u8>) {
        match self {
            B::Int(n) => out.extend_from_slice(format!("i{}e", n).as_bytes()),
            B::Str(b) => {
                out.extend_from_slice(format!("{}:", b.len()).as_bytes());
                out.extend_from_slice(b);
            }
            B::List(l) => {
                out.push(b'l');
                l.iter().for_each(|x| x.put(out));
                out.push(b'e');
            }
            B::Dict(d) => {
                out.push(b'd');
                for (k, v) in d {
                    B::Str(k.clone()).put(out);
                    v.put(out);
                }
                out.push(b'e');
            }
        }
    }
    pub fn get(&self, k: &str) -> Option<&B> {
        match self {
            B::Dict(d) => d.get(k.as_bytes()),
            _ => None,
        }
    }
    pub fn get_mut(&mut self, k: &str) -> Option<&mut B> {
        match self {
            B::Dict(d) => d.get_mut(k.as_bytes()),
            _ => None,
        }
    }
    pub fn set(&mut self, k: &str, v: B) {
        if let B::Dict(d) = self {
            d.insert(k.as_bytes().to_vec(), v);
        }
    }
    pub fn str(&self) -> Option<&[u8]> {
        match self {
            B::Str(b) => Some(b),
            _ => None,
        }
    }
    pub fn int(&self) -> Option<i128> {
        match self {
            B::Int(b) => Some(*b),
            _ => None,
        }
    }
    pub fn list(&self) -> Option<&[B]> {
        match self {
            B::List(b) => Some(b),
            _ => None,
        }
    }
    /// lenient about key order and duplicates, strict about everything else; returns the rest of the input
    pub fn decode_prefix(buf: &[u8]) -> Option<(B, &[u8])> {
        Self::dec(buf, 0)
    }
    pub fn decode(buf: &[u8]) -> Option<B> {
        let (b, rest) = Self::dec(buf, 0)?;
        rest.is_empty().then_some(b)
    }
    fn dec(buf: &[u8], depth: usize) -> Option<(B, &[u8])> {
        if depth > 200 {
            return None;
        }
        match *buf.first()? {
            b'i' => {
                let end = buf.iter().position(|c| *c == b'e')?;
                let t = std::str::from_utf8(&buf[1..end]).ok()?;
                let digits = t.strip_prefix('-').unwrap_or(t);
                if digits.is_empty() || !digits.bytes().all(|c| c.is_ascii_digit()) {
                    return None;
                }
                let n = t.parse().unwrap_or(if t.starts_with('-') { i128::MIN } else { i128::MAX });
                Some((B::Int(n), &buf[end + 1..]))
            }
            b'l' => {
                let mut rest = &buf[1..];
                let mut v = Vec::new();
                while *rest.first()? != b'e' {
                    let (x, r) = Self::dec(rest, depth + 1)?;
                    v.push(x);
                    rest = r;
                }
                Some((B::List(v), &rest[1..]))
            }
            b'd' => {
                let mut rest = &buf[1..];
                let mut v = BTreeMap::new();
                while *rest.first()? != b'e' {
                    let (k, r) = Self::dec(rest, depth + 1)?;
                    let B::Str(k) = k else { return None };
                    let (x, r) = Self::dec(r, depth + 1)?;
                    v.insert(k, x);
                    rest = r;
                }
                Some((B::Dict(v), &rest[1..]))
            }
            b'0'..=b'9' => {
                let c = buf.iter().position(|c| *c == b':')?;
                let n: usize = std::str::from_utf8(&buf[..c]).ok()?.parse().ok()?;
                let rest = &buf[c + 1..];
                if rest.len() < n {
                    return None;
                }
                Some((B::Str(rest[..n].to_vec()), &rest[n..]))
            }
            _ => None,
        }
    }
}

/// random nested value
pub fn arbitrary(r: &mut crate::Rng, depth: u32) -> B {
    match r.below(if depth == 0 { 2 } else { 4 }) {
        0 => B::Int(r.edgy_u64() as i64 as i128),
        1 => {
            let n = r.idx(30);
            B::Str(r.bytes(n))
        }
        2 => B::List((0..r.idx(4)).map(|_| arbitrary(r, depth - 1)).collect()),
        _ => B::Dict(
            (0..r.idx(4))
                .map(|_| {
                    let n = r.idx(6);
                    (r.bytes(n), arbitrary(r, depth - 1))
                })
                .collect(),
        ),
    }
}

/// mutation of encoded bytes that tends to keep most of the structure
pub fn mutate(r: &mut crate::Rng, b: &mut Vec<u8>) {
    for _ in 0..r.range(1, 4) {
        if b.is_empty() {
            b.push(r.u8());
        }
        let p = r.idx(b.len());
        match r.below(10) {
            0 => b[p] = r.u8(),
            1 => b[p] ^= 1 << r.below(8),
            2 => {
                b.remove(p);
            }
            3 => b.insert(p, r.u8()),
            4 => b.truncate(p),
            5 => {
                let q = r.idx(b.len());
                let (p, q) = (p.min(q), p.max(q));
                let part = b[p..q].to_vec();
                let at = r.idx(b.len() + 1);
                b.splice(at..at, part);
            }
            6 => {
                // another number
                if let Some(d) = (p..b.len()).find(|x| b[*x].is_ascii_digit()) {
                    let e = (d..b.len()).find(|x| !b[*x].is_ascii_digit()).unwrap_or(b.len());
                    let n = match r.below(6) {
                        0 => "0".to_string(),
                        1 => "-1".to_string(),
                        2 => "99999999999999999999999".to_string(),
                        3 => u64::MAX.to_string(),
                        4 => "00".to_string(),
                        _ => r.below(400).to_string(),
                    };
                    b.splice(d..e, n.into_bytes());
                }
            }
            7 => {
                let c = *r.pick(b"deil:0-");
                b[p] = c
            }
            8 => {
                let n = r.idx(40);
                let junk = r.bytes(n);
                b.extend_from_slice(&junk)
            }
            _ => {
                let q = r.idx(b.len());
                b.swap(p, q)
            }
        }
    }
}
