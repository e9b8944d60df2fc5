//! What a routing table has to contain, told without its structure of buckets.
use crate::Rng;
use std::collections::HashMap;
use std::net::SocketAddrV4;

pub type Id = [u8; 20];

pub const K: usize = 8;
pub const VALID_SECS: f64 = 900.0;

/// length of the common prefix in bits
pub fn class(a: &Id, b: &Id) -> usize {
    for k in 0..20 {
        let x = a[k] ^ b[k];
        if x != 0 {
            return k * 8 + x.leading_zeros() as usize;
        }
    }
    160
}

pub fn distance(a: &Id, b: &Id) -> Id {
    let mut d = [0; 20];
    for k in 0..20 {
        d[k] = a[k] ^ b[k];
    }
    d
}

/// random id whose common prefix with `own` has exactly `c` bits
pub fn id_in_class(r: &mut Rng, own: &Id, c: usize) -> Id {
    let mut id = r.id();
    for bit in 0..=c.min(159) {
        let m = 0x80u8 >> (bit % 8);
        let want = (own[bit / 8] & m != 0) ^ (bit == c);
        if want {
            id[bit / 8] |= m
        } else {
            id[bit / 8] &= !m
        }
    }
    if c >= 160 {
        id = *own;
    }
    id
}

#[derive(Clone, Debug, PartialEq)]
pub struct Known {
    pub addr: SocketAddrV4,
    /// None: not heard of since the table was loaded
    pub seen: Option<f64>,
}

#[derive(Clone, Debug)]
pub struct Table {
    pub own: Id,
    pub nodes: HashMap<Id, Known>,
}

impl Table {
    pub fn new(own: Id) -> Self {
        Self { own, nodes: HashMap::new() }
    }
    pub fn is_good(&self, id: &Id, now: f64) -> bool {
        self.nodes.get(id).and_then(|n| n.seen).map(|s| now - s < VALID_SECS).unwrap_or(false)
    }
    pub fn good(&self, now: f64) -> Vec<Id> {
        self.nodes.keys().filter(|i| self.is_good(i, now)).cloned().collect()
    }
    pub fn in_class(&self, c: usize) -> usize {
        self.nodes.keys().filter(|i| class(&self.own, i) == c).count()
    }
    pub fn good_in_class(&self, c: usize, now: f64) -> usize {
        self.nodes.keys().filter(|i| class(&self.own, i) == c && self.is_good(i, now)).count()
    }
    pub fn from_class(&self, c: usize) -> usize {
        self.nodes.keys().filter(|i| class(&self.own, i) >= c).count()
    }
    /// a node that isn't known has a place unless eight good ones of its class are known, or it's ourselves
    pub fn has_place(&self, id: &Id, now: f64) -> bool {
        self.nodes.contains_key(id) || *id != self.own && self.good_in_class(class(&self.own, id), now) < K
    }
    /// a known node may have to make room only if there is a bucket that is full
    pub fn may_evict(&self, id: &Id) -> bool {
        let c = class(&self.own, id);
        self.in_class(c) >= K || (0..=c).any(|k| self.from_class(k) == K)
    }
    /// the (at most) eight closest good nodes, closest first
    pub fn closest(&self, target: &Id, now: f64) -> Vec<Id> {
        let mut v = self.good(now);
        v.sort_by_key(|i| distance(i, target));
        v.truncate(K);
        v
    }
}
