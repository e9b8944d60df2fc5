//! Monitors of the pure parts: codecs, metainfo, announce URL, bitmap, ID.
use nargun::verif as n;
use nv::bencode::{arbitrary, dict, i, mutate, s, B};
use nv::*;
use std::collections::HashSet;
use std::net::{Ipv4Addr, SocketAddrV4};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn main() {
    let a = Args::parse();
    // what takes more and more memory must end here, not the whole machine
    if let Some(n) = std::env::var("NV_MEMORY").ok().and_then(|x| x.parse().ok()) {
        let l = libc::rlimit { rlim_cur: n, rlim_max: n };
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
    }
    install_panic_monitor();
    install_hang_monitor(60);
    let mut r = a.rng();
    let rounds = a.num("rounds", 1000);
    match a.property.as_str() {
        "D01" => d01(&mut r, rounds),
        "P01" => p01(&mut r, rounds),
        "M01" => m01(&mut r, rounds),
        "K01" => k01(&mut r, rounds),
        "U02" => u02(&mut r, rounds),
        "U03" => u03(&mut r, rounds),
        x => inconclusive(&format!("unknown property {x}")),
    }
    finish()
}

fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

// ---------------------------------------------------------------- D01

use n::data_structures::{Bitmap, SerializableBuf, ID};
use n::dht::krpc_message as k;
use n::dht::routing_table::Node;
use n::peers::peer::Peer;

#[derive(Clone, Debug)]
enum Krpc {
    Ping,
    FindNode { target: [u8; 20] },
    GetPeers { info_hash: [u8; 20] },
    Announce { info_hash: [u8; 20], port: u16, token: Vec<u8> },
    RPing,
    RFindNode { nodes: Vec<([u8; 20], [u8; 4], u16)> },
    RValues { token: Vec<u8>, values: Vec<([u8; 4], u16)> },
    RNodes { token: Vec<u8>, nodes: Vec<([u8; 20], [u8; 4], u16)> },
    Error { code: u32, text: String },
}

fn compact_nodes(v: &[([u8; 20], [u8; 4], u16)]) -> Vec<u8> {
    v.iter().flat_map(|(id, ip, port)| id.iter().chain(ip).copied().chain(port.to_be_bytes()).collect::<Vec<u8>>()).collect()
}
fn compact_peer(v: &([u8; 4], u16)) -> Vec<u8> {
    v.0.iter().copied().chain(v.1.to_be_bytes()).collect()
}

fn gen_krpc(r: &mut Rng) -> Krpc {
    let nodes = |r: &mut Rng| {
        let n = *r.pick(&[0usize, 1, 2, 3, 7, 8, 8, 8, 9, 16, 40]);
        (0..n).map(|_| (r.id(), [r.u8(), r.u8(), r.u8(), r.u8()], r.next() as u16)).collect::<Vec<_>>()
    };
    let token = |r: &mut Rng| {
        let n = *r.pick(&[0usize, 1, 2, 4, 8, 20, 20, 63]);
        r.bytes(n)
    };
    match r.below(9) {
        0 => Krpc::Ping,
        1 => Krpc::FindNode { target: r.id() },
        2 => Krpc::GetPeers { info_hash: r.id() },
        3 => Krpc::Announce { info_hash: r.id(), port: *r.pick(&[0, 1, 80, 255, 256, 6881, 32767, 32768, 65535]), token: token(r) },
        4 => Krpc::RPing,
        5 => Krpc::RFindNode { nodes: nodes(r) },
        6 => Krpc::RValues {
            token: token(r),
            values: (0..*r.pick(&[1usize, 2, 5, 50, 120])).map(|_| ([r.u8(), r.u8(), r.u8(), r.u8()], r.next() as u16)).collect(),
        },
        7 => Krpc::RNodes { token: token(r), nodes: nodes(r) },
        _ => Krpc::Error { code: r.below(400) as u32, text: "an error".into() },
    }
}

fn krpc_to_b(m: &Krpc, tid: &[u8], id: &[u8; 20]) -> B {
    let q = |name: &str, mut a: Vec<(&str, B)>| {
        a.push(("id", s(id)));
        dict(vec![("t", s(tid)), ("y", s("q")), ("q", s(name)), ("a", dict(a))])
    };
    let resp = |mut a: Vec<(&str, B)>| {
        a.push(("id", s(id)));
        dict(vec![("t", s(tid)), ("y", s("r")), ("r", dict(a))])
    };
    match m {
        Krpc::Ping => q("ping", vec![]),
        Krpc::FindNode { target } => q("find_node", vec![("target", s(target))]),
        Krpc::GetPeers { info_hash } => q("get_peers", vec![("info_hash", s(info_hash))]),
        Krpc::Announce { info_hash, port, token } => {
            q("announce_peer", vec![("info_hash", s(info_hash)), ("port", i(*port)), ("token", s(token))])
        }
        Krpc::RPing => resp(vec![]),
        Krpc::RFindNode { nodes } => resp(vec![("nodes", s(compact_nodes(nodes)))]),
        Krpc::RValues { token, values } => {
            resp(vec![("token", s(token)), ("values", B::List(values.iter().map(|v| s(compact_peer(v))).collect()))])
        }
        Krpc::RNodes { token, nodes } => resp(vec![("token", s(token)), ("nodes", s(compact_nodes(nodes)))]),
        Krpc::Error { code, text } => dict(vec![("t", s(tid)), ("y", s("e")), ("e", B::List(vec![i(*code), s(text)]))]),
    }
}

fn node_of(x: &([u8; 20], [u8; 4], u16)) -> Node {
    Node::from_compact_bytes(&compact_nodes(&[*x])).unwrap()
}

fn krpc_via_client(m: &Krpc, tid: &[u8], id: &[u8; 20]) -> Option<k::Message> {
    let t = SerializableBuf::from(tid);
    let own = ID::new(*id);
    let nodes = |v: &Vec<([u8; 20], [u8; 4], u16)>| {
        if v.len() == 1 {
            k::Nodes::Exact(node_of(&v[0]))
        } else {
            k::Nodes::Closest(v.iter().map(node_of).collect())
        }
    };
    Some(match m {
        Krpc::Ping => k::Message::ping_query(&own, t),
        Krpc::FindNode { target } => k::Message::find_nodes_query(&own, &ID::new(*target), t),
        Krpc::GetPeers { info_hash } => k::Message::get_peers_query(&own, &ID::new(*info_hash), t),
        Krpc::Announce { info_hash, port, token } => {
            k::Message::announce_peer_query(&own, &ID::new(*info_hash), *port, SerializableBuf::from(token.as_slice()), t)
        }
        Krpc::RPing => k::Message::ping_resp(&own, t),
        Krpc::RFindNode { nodes: v } => k::Message::find_nodes_resp(&own, nodes(v), t),
        Krpc::RValues { token, values } => k::Message::get_peers_resp(
            &own,
            SerializableBuf::from(token.as_slice()),
            k::ValuesOrNodes::Values { values: values.iter().map(|(ip, p)| Peer::new(SocketAddrV4::new(Ipv4Addr::from(*ip), *p))).collect() },
            t,
        ),
        Krpc::RNodes { token, nodes: v } => {
            k::Message::get_peers_resp(&own, SerializableBuf::from(token.as_slice()), k::ValuesOrNodes::Nodes { nodes: nodes(v) }, t)
        }
        Krpc::Error { .. } => return None,
    })
}

/// what the client understood, in the oracle's terms
fn understood(m: &k::Message) -> (Vec<u8>, Option<[u8; 20]>, Krpc) {
    let nodes = |v: &k::Nodes| {
        v.iter()
            .map(|x| {
                let mut id = [0u8; 20];
                id.copy_from_slice(x.id.as_byte_ref());
                (id, x.addr.ip().octets(), x.addr.port())
            })
            .collect::<Vec<_>>()
    };
    let b = |x: &ID| {
        let mut id = [0u8; 20];
        id.copy_from_slice(x.as_byte_ref());
        id
    };
    let v = |x: &SerializableBuf| x.as_ref().to_vec();
    match m {
        k::Message::Query { transaction_id, arguments, .. } => {
            let (id, q) = match arguments {
                k::Arguments::Ping { id } => (id, Krpc::Ping),
                k::Arguments::FindNode { id, target } => (id, Krpc::FindNode { target: b(target) }),
                k::Arguments::GetPeers { id, info_hash } => (id, Krpc::GetPeers { info_hash: b(info_hash) }),
                k::Arguments::AnnouncePeer { id, info_hash, port, token } => {
                    (id, Krpc::Announce { info_hash: b(info_hash), port: *port, token: v(token) })
                }
            };
            (v(transaction_id), Some(b(id)), q)
        }
        k::Message::Response { transaction_id, response, .. } => {
            let (id, q) = match response {
                k::Response::Ping { id } | k::Response::AnnouncePeer { id } => (id, Krpc::RPing),
                k::Response::FindNode { id, nodes: x } => (id, Krpc::RFindNode { nodes: nodes(x) }),
                k::Response::GetPeers { id, token, values_or_nodes } => (
                    id,
                    match values_or_nodes {
                        k::ValuesOrNodes::Values { values } => Krpc::RValues {
                            token: v(token),
                            values: values.iter().map(|p| (p.addr().ip().octets(), p.addr().port())).collect(),
                        },
                        k::ValuesOrNodes::Nodes { nodes: x } => Krpc::RNodes { token: v(token), nodes: nodes(x) },
                    },
                ),
            };
            (v(transaction_id), Some(b(id)), q)
        }
        k::Message::Error { transaction_id, error, .. } => {
            let mut code = 0;
            let mut text = String::new();
            for e in error {
                match e {
                    k::Error::Code(c) => code = *c,
                    k::Error::Desc(d) => text = d.clone(),
                }
            }
            (v(transaction_id), None, Krpc::Error { code, text })
        }
    }
}

fn d01(r: &mut Rng, rounds: u64) {
    for round in 0..rounds {
        beat();
        let m = gen_krpc(r);
        let kind = format!("{:?}", m).split([' ', '{']).next().unwrap_or("").to_string();
        let n = *r.pick(&[0usize, 1, 2, 4, 5, 8, 20, 50]);
        let tid = r.bytes(n);
        let id = r.id();
        let mut b = krpc_to_b(&m, &tid, &id);
        // what the client writes
        if let Some(Some(Ok(bytes))) = guarded(|| krpc_via_client(&m, &tid, &id).map(|m| m.into_bytes())) {
            eval(Some(hash_of(&bytes)));
            count(&format!("encoded_{kind}"), 1);
            if bytes != b.encode() {
                violation("encode", &format!("{:?} was written as {} instead of {}", m, show(&bytes), show(&b.encode())));
            }
        } else if !matches!(m, Krpc::Error { .. }) {
            violation("encode", &format!("{:?} can't be written", m));
        }
        // what it reads, with keys that it doesn't know
        if r.one_in(2) {
            b.set("v", s(r.bytes(4)));
        }
        if r.one_in(3) {
            b.set("ro", i(1));
        }
        if r.one_in(4) {
            b.set("zz", arbitrary(r, 3));
        }
        let part = if b.get("a").is_some() { "a" } else { "r" };
        if let Some(x) = b.get_mut(part) {
            if r.one_in(3) {
                x.set("want", B::List(vec![s("n4")]));
            }
            if r.one_in(3) {
                x.set("ip", s(r.bytes(6)));
            }
            if r.one_in(3) && matches!(m, Krpc::Announce { .. }) {
                x.set("seed", i(1));
            }
            if r.one_in(3) && matches!(m, Krpc::RValues { .. }) {
                x.set("nodes", s(r.bytes(26 * 8))); // real nodes send both
            }
        }
        let enc = b.encode();
        set_context(show(&enc));
        let got = guarded(|| k::Message::from_bytes(&enc));
        eval(Some(hash_of(&enc)));
        count(&format!("decoded_{kind}"), 1);
        sample(&format!("krpc {kind}"), || show(&enc));
        match got {
            Some(Ok(x)) => {
                let (t, gid, q) = understood(&x);
                let want_id = if matches!(m, Krpc::Error { .. }) { None } else { Some(id) };
                if t != tid || gid != want_id || format!("{:?}", q) != format!("{:?}", m) {
                    violation("decode", &format!("{} was understood as tid={} id={:?} {:?}", show(&enc), show(&t), gid, q));
                }
            }
            Some(Err(e)) => violation("reject-valid", &format!("valid {} was rejected: {}", show(&enc), e)),
            None => (),
        }
        // hostile bytes
        for _ in 0..12 {
            let mut h = match r.below(12) {
                0 => {
                    let n = r.idx(200);
                    r.bytes(n)
                }
                1 => arbitrary(r, 5).encode(),
                2 => {
                    let c = *r.pick(b"ldl");
                    let d = r.urange(1, 1300);
                    let mut v = Vec::new();
                    for _ in 0..d {
                        v.push(c);
                        if c == b'd' {
                            v.extend_from_slice(b"0:");
                        }
                    }
                    if r.bool() {
                        v.extend(std::iter::repeat(b'e').take(d));
                    }
                    // nested in something that looks like a message
                    if r.bool() {
                        let mut w = b"d1:ad2:id20:aaaaaaaaaaaaaaaaaaaa1:x".to_vec();
                        w.extend_from_slice(&v);
                        w.extend_from_slice(b"e1:q4:ping1:t2:aa1:y1:qe");
                        v = w;
                    }
                    v
                }
                3 => {
                    // ids and compact values of wrong length, wrong types
                    let mut x = b.clone();
                    let part = if x.get("a").is_some() { "a" } else { "r" };
                    let bad = match r.below(4) {
                        0 => i(r.edgy_u64() as i64),
                        1 => B::List(vec![]),
                        2 => arbitrary(r, 2),
                        _ => {
                            let n = *r.pick(&[0usize, 1, 19, 21, 25, 27, 52, 53]);
                            s(r.bytes(n))
                        }
                    };
                    let key = *r.pick(&["id", "target", "info_hash", "nodes", "values", "token", "port", "id"]);
                    if let Some(p) = x.get_mut(part) {
                        p.set(key, bad);
                    }
                    x.encode()
                }
                4 => {
                    // neither query nor response nor error, or another one than its parts say
                    let mut x = b.clone();
                    let y = *r.pick(&["Q", "R", "E", "qq", "query", "", "x", "p", "q ", "\u{0}q", "q", "r", "e"]);
                    x.set("y", s(y));
                    count("other_kind", 1);
                    x.encode()
                }
                _ => enc.clone(),
            };
            if (h == enc && !r.one_in(4)) || r.one_in(3) {
                mutate(r, &mut h);
            }
            set_context(show(&h));
            let got = guarded(|| k::Message::from_bytes(&h).map(|m| understood(&m)));
            eval(Some(hash_of(&h)));
            count("hostile", 1);
            let oracle = B::decode_prefix(&h);
            if let Some(Ok((t, gid, q))) = got {
                count("hostile_accepted", 1);
                let Some((o, rest)) = oracle else {
                    violation("accept-malformed", &format!("{} isn't bencoded but was understood as {:?}", show(&h), q));
                    continue;
                };
                // only the canonical ones mean the same thing to everybody
                if o.encode() != h[..h.len() - rest.len()] {
                    continue;
                }
                let ok_t = o.get("t").and_then(|x| x.str()) == Some(&t[..]);
                let body = o.get(if matches!(q, Krpc::Ping | Krpc::FindNode { .. } | Krpc::GetPeers { .. } | Krpc::Announce { .. }) { "a" } else { "r" });
                let kind = match &q {
                    Krpc::Ping | Krpc::FindNode { .. } | Krpc::GetPeers { .. } | Krpc::Announce { .. } => b"q",
                    Krpc::Error { .. } => b"e",
                    _ => b"r",
                };
                let ok_t = ok_t && o.get("y").and_then(|x| x.str()) == Some(&kind[..]);
                let f = |key: &str| body.and_then(|x| x.get(key)).and_then(|x| x.str()).map(|x| x.to_vec());
                let ok = match &q {
                    Krpc::Error { .. } => o.get("e").is_some(),
                    Krpc::Ping | Krpc::RPing => true,
                    Krpc::FindNode { target } => f("target") == Some(target.to_vec()),
                    Krpc::GetPeers { info_hash } => f("info_hash") == Some(info_hash.to_vec()),
                    Krpc::Announce { info_hash, port, token } => {
                        f("info_hash") == Some(info_hash.to_vec())
                            && f("token").as_ref() == Some(token)
                            && body.and_then(|x| x.get("port")).and_then(|x| x.int()) == Some(*port as i128)
                    }
                    Krpc::RFindNode { nodes } => f("nodes") == Some(compact_nodes(nodes)),
                    Krpc::RNodes { token, nodes } => f("nodes") == Some(compact_nodes(nodes)) && f("token").as_ref() == Some(token),
                    Krpc::RValues { token, values } => {
                        f("token").as_ref() == Some(token)
                            && body.and_then(|x| x.get("values")).and_then(|x| x.list().map(|l| l.iter().map(|v| v.str().map(|v| v.to_vec())).collect::<Vec<_>>()))
                                == Some(values.iter().map(|v| Some(compact_peer(v))).collect())
                    }
                };
                let ok_id = gid.is_none() || f("id") == gid.map(|x| x.to_vec());
                if !(ok_t && ok && ok_id) {
                    violation("accept-wrong", &format!("{} was understood as tid={} id={:?} {:?}", show(&h), show(&t), gid, q));
                }
            }
        }
        if round % 1000 == 0 {
            // the bare nodes/peers parsers
            for n in 0..60usize {
                let v = r.bytes(n);
                let ok = guarded(|| Node::from_compact_bytes(&v).is_ok());
                if ok == Some(n != 26) {
                    violation("compact-node", &format!("{} bytes accepted={:?}", n, ok));
                }
            }
        }
    }
}

// ---------------------------------------------------------------- P01

fn p01(r: &mut Rng, rounds: u64) {
    use n::peers::connection::message::{Message as M, Piece, Request};
    for _ in 0..rounds {
        beat();
        let u = |r: &mut Rng| match r.below(4) {
            0 => r.below(300) as u32,
            1 => r.edgy_u64() as u32,
            2 => [0, 1, 0xff, 0x100, 0xffff, 0x10000, 0xff000000, u32::MAX][r.idx(8)],
            _ => r.next() as u32,
        };
        let (a, b, c) = (u(r), u(r), u(r));
        let p = r.next() as u16;
        let n = *r.pick(&[0usize, 1, 2, 13, 100, 1000, 16383, 16384]);
        let data = r.bytes(n);
        let id = r.below(11);
        let be = |v: &[u32]| v.iter().flat_map(|x| x.to_be_bytes()).collect::<Vec<u8>>();
        let req = || Request { index: a, begin: b, length: c };
        let (m, m2, body): (M, M, Vec<u8>) = match id {
            0 => (M::Choke, M::Choke, vec![0]),
            1 => (M::Unchoke, M::Unchoke, vec![1]),
            2 => (M::Interested, M::Interested, vec![2]),
            3 => (M::NotInterested, M::NotInterested, vec![3]),
            4 => (M::Have(a), M::Have(a), [vec![4], be(&[a])].concat()),
            5 => (M::Bitfield(data.as_slice().into()), M::Bitfield(data.as_slice().into()), [vec![5], data.clone()].concat()),
            6 => (M::Request(req()), M::Request(req()), [vec![6], be(&[a, b, c])].concat()),
            7 => (M::Piece(Piece::new(a, b, &data)), M::Piece(Piece::new(a, b, &data)), [vec![7], be(&[a, b]), data.clone()].concat()),
            8 => (M::Cancel(req()), M::Cancel(req()), [vec![8], be(&[a, b, c])].concat()),
            9 => (M::Port(p), M::Port(p), [vec![9], p.to_be_bytes().to_vec()].concat()),
            _ => (M::KeepAlive, M::KeepAlive, vec![]),
        };
        let frame = [(body.len() as u32).to_be_bytes().to_vec(), body.clone()].concat();
        set_context(show(&frame));
        let enc = guarded(|| m.into_bytes());
        eval(Some(hash_of(&frame)));
        count(&format!("kind_{id}"), 1);
        sample(&format!("message {id}"), || show(&frame));
        if enc.as_ref().map_or(false, |e| *e != frame) {
            violation("encode", &format!("{:?} was written as {} instead of {}", m2, show(&enc.unwrap()), show(&frame)));
        }
        // decoded, with whatever follows it in the buffer
        let mut buf = frame.clone();
        let extra = r.idx(40);
        buf.extend(r.bytes(extra));
        let len = guarded(|| M::len(&buf));
        if len.map_or(false, |l| l != body.len()) {
            violation("len", &format!("length of {} is {:?}", show(&frame), len));
        }
        match guarded(|| M::from_buf(&buf)) {
            Some(Some(x)) if x == m2 => (),
            Some(x) => violation("decode", &format!("{} was understood as {:?} instead of {:?}", show(&frame), x, m2)),
            None => (),
        }
        // any id with any length
        for _ in 0..10 {
            let n = *r.pick(&[0usize, 1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 13, 14, 17, 60]);
            let mut body = r.bytes(n);
            if n > 0 && r.one_in(4) == false {
                body[0] = r.below(14) as u8;
            }
            let mut f = [(n as u32).to_be_bytes().to_vec(), body.clone()].concat();
            let extra = r.idx(3);
            f.extend(r.bytes(extra));
            set_context(show(&f));
            eval(Some(hash_of(&f)));
            count("any", 1);
            let w = |o: usize| u32::from_be_bytes([body[o], body[o + 1], body[o + 2], body[o + 3]]);
            let want: Option<M> = match (n, body.first().copied()) {
                (0, _) => Some(M::KeepAlive),
                (1, Some(0)) => Some(M::Choke),
                (1, Some(1)) => Some(M::Unchoke),
                (1, Some(2)) => Some(M::Interested),
                (1, Some(3)) => Some(M::NotInterested),
                (5, Some(4)) => Some(M::Have(w(1))),
                (_, Some(5)) => Some(M::Bitfield(body[1..].into())),
                (13, Some(6)) => Some(M::Request(Request { index: w(1), begin: w(5), length: w(9) })),
                (9.., Some(7)) => Some(M::Piece(Piece::new(w(1), w(5), &body[9..]))),
                (13, Some(8)) => Some(M::Cancel(Request { index: w(1), begin: w(5), length: w(9) })),
                (3, Some(9)) => Some(M::Port(u16::from_be_bytes([body[1], body[2]]))),
                _ => None,
            };
            if want.is_none() {
                count("any_invalid", 1);
            }
            match guarded(|| M::from_buf(&f)) {
                Some(x) if x == want => (),
                Some(x) => violation("decode-any", &format!("{} was understood as {:?} instead of {:?}", show(&f), x, want)),
                None => (),
            }
            // a message that isn't there completely
            if f.len() > 5 && n > 0 {
                let cut = r.urange(4, 4 + n - 1);
                set_context(format!("{} cut to {}", show(&f), cut));
                if let Some(Some(x)) = guarded(|| M::from_buf(&f[..cut])) {
                    violation("decode-cut", &format!("{} of {} bytes of {} were understood as {:?}", cut, n + 4, show(&f), x));
                }
                count("cut", 1);
            }
        }
    }
}

// ---------------------------------------------------------------- M01

fn word(r: &mut Rng) -> String {
    let n = r.urange(1, 12);
    (0..n).map(|_| *r.pick(&['a', 'b', 'Z', '0', '9', '-', '_', ' ', '.', 'ü', '漢', 'x'])).collect::<String>() + "q"
}

struct T {
    b: B,
    name: String,
    piece_length: u64,
    pieces: Vec<[u8; 20]>,
    files: Option<Vec<(Vec<String>, u64)>>,
    length: u64,
    trackers: HashSet<String>,
}

fn gen_torrent(r: &mut Rng, big: bool) -> T {
    let piece_length = *r.pick(&[1u64, 7, 16384, 16384, 32768, 20000, 262144, 16777216, 1 << 32]);
    let count = if big { r.urange(50_000, 300_000) } else { r.urange(1, 12) } as u64;
    let length = match r.below(4) {
        0 => piece_length * count,
        1 => piece_length * (count - 1) + 1,
        _ => piece_length * (count - 1) + r.range(1, piece_length),
    };
    let pieces: Vec<[u8; 20]> = (0..count).map(|_| r.id()).collect();
    let name = word(r);
    let mut info = dict(vec![
        ("name", s(&name)),
        ("piece length", i(piece_length)),
        ("pieces", s(pieces.concat())),
    ]);
    let files = if r.bool() {
        info.set("length", i(length));
        None
    } else {
        let mut rest = length;
        let mut files = Vec::new();
        while rest > 0 {
            let l = match r.below(4) {
                0 => 0,
                1 => rest,
                _ => r.range(1, rest),
            };
            rest -= l;
            files.push(((0..r.urange(1, 4)).map(|_| word(r)).collect::<Vec<_>>(), l));
            if files.len() > 40 {
                files.push((vec![word(r)], rest));
                rest = 0;
            }
        }
        info.set(
            "files",
            B::List(
                files
                    .iter()
                    .map(|(p, l)| {
                        let mut f = dict(vec![("length", i(*l)), ("path", B::List(p.iter().map(s).collect()))]);
                        if r.one_in(4) {
                            f.set("md5sum", s(hex(&r.bytes(16))));
                        }
                        f
                    })
                    .collect(),
            ),
        );
        Some(files)
    };
    for _ in 0..r.idx(3) {
        let key = *r.pick(&["private", "source", "zzz", "a", "publisher"]);
        info.set(key, arbitrary(r, 2));
    }
    let mut trackers = HashSet::new();
    let mut b = dict(vec![("info", info)]);
    let url = |r: &mut Rng, t: &mut HashSet<String>| {
        let u = match r.below(5) {
            0 => format!("udp://t{}.org:69/announce", r.below(1000)),
            1 => format!("https://t{}.org/announce", r.below(1000)),
            2 => format!("wss://t{}.org/", r.below(1000)),
            _ => format!("http://t{}.org:{}/announce", r.below(1000), r.below(65536)),
        };
        if !u.starts_with("wss") {
            t.insert(u.clone());
        }
        u
    };
    if r.one_in(5) == false {
        b.set("announce", s(url(r, &mut trackers)));
    }
    if r.bool() {
        b.set("announce-list", B::List((0..r.idx(4)).map(|_| B::List((0..r.idx(4)).map(|_| s(url(r, &mut trackers))).collect())).collect()));
    }
    if trackers.is_empty() {
        b.set("announce", s("http://only.org/a"));
        trackers.insert("http://only.org/a".into());
    }
    for _ in 0..r.idx(3) {
        let key = *r.pick(&["comment", "created by", "creation date", "encoding", "nodes", "url-list"]);
        b.set(key, arbitrary(r, 2));
    }
    T { b, name, piece_length, pieces, files, length, trackers }
}

use n::transcoding::metainfo::{Mode, Torrent, TrackerAddr};

fn raw_info(enc: &[u8]) -> Option<(usize, usize)> {
    // d, then pairs at the top level
    if enc.first() != Some(&b'd') {
        return None;
    }
    let mut at = 1;
    while *enc.get(at)? != b'e' {
        let (k, rest) = B::decode_prefix(&enc[at..])?;
        let start = enc.len() - rest.len();
        let (_, rest) = B::decode_prefix(rest)?;
        let end = enc.len() - rest.len();
        if k.str() == Some(b"info") {
            return Some((start, end));
        }
        at = end;
    }
    None
}

fn describe(t: &Torrent) -> (String, u64, Vec<Vec<u8>>, Option<Vec<(Vec<String>, u64)>>, u64, HashSet<String>, Vec<u8>) {
    (
        t.info.name.clone(),
        t.info.piece_length,
        t.info.pieces.iter().map(|x| x.as_byte_ref().to_vec()).collect(),
        match &t.info.mode {
            Mode::Single { .. } => None,
            Mode::Multi { files } => Some(files.iter().map(|f| (f.path.clone(), f.length)).collect()),
        },
        t.info.length(),
        t.announce
            .iter()
            .map(|a| match a {
                TrackerAddr::Http(u) => u.clone(),
                TrackerAddr::Udp(u) => u.clone(),
            })
            .collect(),
        t.info_hash.as_byte_ref().to_vec(),
    )
}

fn m01(r: &mut Rng, rounds: u64) {
    let scratch = net::Scratch::new("m01");
    for round in 0..rounds {
        beat();
        let t = gen_torrent(r, round % 2_000 == 7);
        let enc = t.b.encode();
        let (from, to) = raw_info(&enc).unwrap();
        let hash = sha1::sha1(&enc[from..to]);
        set_context(show(&enc));
        eval(Some(hash_of(&enc)));
        count(if t.files.is_some() { "valid_multi" } else { "valid_single" }, 1);
        sample("torrent", || show(&enc));
        // what a user has is a file, sometimes a big one
        let file = (r.one_in(20) || enc.len() > 100_000).then(|| scratch.path().join("t.torrent"));
        if let Some(f) = &file {
            std::fs::write(f, &enc).unwrap_or_else(|e| inconclusive(&format!("{e}")));
            count(if enc.len() > 1 << 20 { "big_files" } else { "files" }, 1);
        }
        let read = |file: &Option<std::path::PathBuf>| match file {
            Some(f) => Torrent::from_file(f),
            None => Torrent::from_buf(&enc),
        };
        match guarded(|| read(&file).map(|x| (describe(&x), x.http_trackers().cloned().collect::<HashSet<_>>(), x.count_pieces()))) {
            Some(Ok((d, http, pieces))) => {
                let want = (
                    t.name.clone(),
                    t.piece_length,
                    t.pieces.iter().map(|x| x.to_vec()).collect::<Vec<_>>(),
                    t.files.clone(),
                    t.length,
                    t.trackers.clone(),
                    hash.to_vec(),
                );
                if d != want {
                    violation("decode", &format!("{} was understood as {:?} instead of {:?}", show(&enc), d, want));
                }
                if http != t.trackers.iter().filter(|x| x.starts_with("http")).cloned().collect() {
                    violation("trackers", &format!("http trackers of {} are {:?}", show(&enc), http));
                }
                if pieces != t.pieces.len() {
                    violation("pieces", &format!("{} pieces instead of {}", pieces, t.pieces.len()));
                }
            }
            Some(Err(e)) => violation("reject-valid", &format!("valid {} was rejected: {}", show(&enc), e)),
            None => (),
        }
        // contradictions and dangerous names have to be refused
        for _ in 0..4 {
            let mut b = t.b.clone();
            let info = b.get_mut("info").unwrap();
            let total = t.length as i128;
            let why = match r.below(11) {
                0 => {
                    info.set("name", s(*r.pick(&["", ".", "..", "../x", "a/b", "/", "/etc", "a/../../b", "x\0y"])));
                    "name"
                }
                1 if t.files.is_some() => {
                    let mut f = t.files.clone().unwrap();
                    let k = r.idx(f.len());
                    let bad = r.pick(&["", ".", "..", "../x", "a/b", "/", "/etc/passwd", "..//..", "a\0"]).to_string();
                    let at = r.idx(f[k].0.len() + 1);
                    f[k].0.insert(at, bad);
                    info.set("files", B::List(f.iter().map(|(p, l)| dict(vec![("length", i(*l)), ("path", B::List(p.iter().map(s).collect()))])).collect()));
                    "path"
                }
                2 if t.files.is_some() => {
                    let mut f = t.files.clone().unwrap();
                    let k = r.idx(f.len());
                    f[k].0.clear();
                    info.set("files", B::List(f.iter().map(|(p, l)| dict(vec![("length", i(*l)), ("path", B::List(p.iter().map(s).collect()))])).collect()));
                    "empty path"
                }
                3 => {
                    info.set("piece length", i(*r.pick(&[0i128, -1, -16384])));
                    "piece length"
                }
                4 => {
                    let mut p = t.pieces.concat();
                    match r.below(4) {
                        0 => p.clear(),
                        1 => {
                            p.pop();
                        }
                        2 => p.extend_from_slice(&[7; 20]),
                        _ => {
                            p.truncate(p.len() - 20);
                        }
                    }
                    info.set("pieces", s(p));
                    "pieces"
                }
                5 if t.files.is_none() => {
                    let delta = t.piece_length as i128;
                    let l = *r.pick(&[total + delta, 0, -1, i64::MAX as i128, u64::MAX as i128, (total - delta).min(0)]);
                    info.set("length", i(l));
                    "length"
                }
                6 if t.files.is_some() => {
                    let mut f = t.files.clone().unwrap();
                    let k = r.idx(f.len());
                    f[k].1 = f[k].1.wrapping_add(*r.pick(&[t.piece_length, u64::MAX - f[k].1, 1 << 63]));
                    f.push((vec!["zz".into()], *r.pick(&[0, 1 << 63, u64::MAX])));
                    if f.iter().map(|x| x.1 as u128).sum::<u128>() <= t.pieces.len() as u128 * t.piece_length as u128 {
                        continue;
                    }
                    info.set("files", B::List(f.iter().map(|(p, l)| dict(vec![("length", i(*l)), ("path", B::List(p.iter().map(s).collect()))])).collect()));
                    "file length"
                }
                7 => {
                    let key = *r.pick(&["name", "piece length", "pieces"]);
                    if let B::Dict(d) = info {
                        d.remove(key.as_bytes());
                    }
                    key
                }
                8 => {
                    if let B::Dict(d) = info {
                        d.remove(&b"length"[..]);
                        d.remove(&b"files"[..]);
                    }
                    "mode"
                }
                9 => {
                    let key = *r.pick(&["name", "piece length", "pieces", "length", "files"]);
                    if info.get(key).is_none() {
                        continue;
                    }
                    let v = if r.bool() { B::List(vec![i(1)]) } else { dict(vec![("x", s("y"))]) };
                    info.set(key, v);
                    "type"
                }
                _ => {
                    if let B::Dict(d) = &mut b {
                        let key = *r.pick(&["info", "announce"]);
                        d.remove(key.as_bytes());
                        d.remove(&b"announce-list"[..]);
                    }
                    "missing"
                }
            };
            let enc = b.encode();
            set_context(show(&enc));
            eval(Some(hash_of(&enc)));
            count(&format!("refused_{}", why.replace(' ', "_")), 1);
            if let Some(Ok(x)) = guarded(|| Torrent::from_buf(&enc).map(|x| describe(&x))) {
                violation("accept-invalid", &format!("{} was accepted although its {} is wrong: {:?}", show(&enc), why, x));
            }
        }
        // hostile bytes
        for _ in 0..8 {
            let mut h = if r.one_in(8) { arbitrary(r, 5).encode() } else { enc.clone() };
            if r.one_in(10) {
                h = std::iter::repeat(*r.pick(b"ldi")).take(r.urange(1, 100_000)).collect();
            }
            mutate(r, &mut h);
            set_context(show(&h));
            eval(Some(hash_of(&h)));
            count("hostile", 1);
            if let Some(Ok(x)) = guarded(|| Torrent::from_buf(&h).map(|x| describe(&x))) {
                count("hostile_accepted", 1);
                let Some((o, rest)) = B::decode_prefix(&h) else {
                    violation("accept-malformed", &format!("{} isn't bencoded but was accepted", show(&h)));
                    continue;
                };
                if o.encode() != h[..h.len() - rest.len()] {
                    continue;
                }
                let info = o.get("info");
                let Some((from, to)) = raw_info(&h) else { continue };
                if sha1::sha1(&h[from..to]).to_vec() != x.6 {
                    violation("info-hash", &format!("{} has info hash {}", show(&h), hex(&x.6)));
                }
                let f = |k: &str| info.and_then(|i| i.get(k));
                let ok = f("name").and_then(|v| v.str()) == Some(x.0.as_bytes())
                    && f("piece length").and_then(|v| v.int()) == Some(x.1 as i128)
                    && f("pieces").and_then(|v| v.str()) == Some(&x.2.concat()[..]);
                let sum: u128 = match &x.3 {
                    Some(f) => f.iter().map(|x| x.1 as u128).sum(),
                    None => x.4 as u128,
                };
                let geometry = x.1 > 0 && x.2.len() as u128 == (sum + x.1 as u128 - 1) / x.1 as u128;
                let part = |p: &str| !p.is_empty() && p != "." && p != ".." && !p.contains(['/', '\0']);
                let safe = part(&x.0) && x.3.iter().flatten().all(|(p, _)| !p.is_empty() && p.iter().all(|p| part(p)));
                if !(ok && geometry && safe) {
                    violation("accept-wrong", &format!("{} was understood as {:?}", show(&h), x));
                }
            }
        }
    }
}

// ---------------------------------------------------------------- K01

fn unescape(x: &str) -> Option<Vec<u8>> {
    let b = x.as_bytes();
    let mut out = Vec::new();
    let mut at = 0;
    while at < b.len() {
        match b[at] {
            b'%' => {
                let h = std::str::from_utf8(b.get(at + 1..at + 3)?).ok()?;
                out.push(u8::from_str_radix(h, 16).ok()?);
                at += 3;
            }
            // anything else that isn't unreserved must be escaped
            c if c.is_ascii_alphanumeric() || b"-_.~".contains(&c) => {
                out.push(c);
                at += 1;
            }
            _ => return None,
        }
    }
    Some(out)
}

fn k01(r: &mut Rng, rounds: u64) {
    use n::tracker::announce::{Announce, AnnounceEvent};
    for _ in 0..rounds {
        beat();
        let (ih, pid) = (r.id(), r.id());
        let base = format!("http://t{}.org:{}/announce", r.below(100), r.below(65536));
        let own: Vec<(String, String)> = (0..r.idx(3)).map(|n| (format!("p{n}"), hex(&r.bytes(5)))).collect();
        let url = if own.is_empty() {
            base.clone()
        } else {
            format!("{}?{}", base, own.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join("&"))
        };
        let event = r.below(4);
        let n = r.urange(0, 20);
        let tracker_id = r.bool().then(|| (0..n).map(|_| *r.pick(&['a', 'Z', '&', '=', '#', '?', ' ', '+', '%', '/', 'é', '0'])).collect::<String>());
        let a = Announce {
            tracker_url: url.clone(),
            info_hash: ID::new(ih),
            peer_id: ID::new(pid),
            port: *r.pick(&[0, 1, 6881, 65535, 12345]),
            uploaded: r.edgy_u64(),
            downloaded: r.edgy_u64(),
            left: r.edgy_u64(),
            compact: r.bool(),
            no_peer_id: r.bool(),
            event: match event {
                0 => None,
                1 => Some(AnnounceEvent::Started),
                2 => Some(AnnounceEvent::Stopped),
                _ => Some(AnnounceEvent::Completed),
            },
            tracker_id: tracker_id.clone(),
        };
        let Some(got) = guarded(|| a.as_url()) else { continue };
        eval(Some(hash_of(got.as_bytes())));
        count(&format!("event_{event}"), 1);
        if !own.is_empty() {
            count("url_with_query", 1);
        }
        if tracker_id.is_some() {
            count("tracker_id", 1);
        }
        sample("url", || got.clone());
        let bad = |why: &str| violation("url", &format!("{}: {:?} became {}", why, a, got));
        let Some((path, query)) = got.split_once('?') else {
            bad("no query");
            continue;
        };
        if path != base {
            bad("another address");
        }
        let mut params = std::collections::BTreeMap::new();
        let mut broken = false;
        for part in query.split('&') {
            match part.split_once('=').and_then(|(k, v)| Some((k.to_string(), unescape(v)?))) {
                Some((k, v)) => broken |= params.insert(k, v).is_some(),
                None => broken = true,
            }
        }
        if broken {
            bad("malformed or duplicate parameter");
            continue;
        }
        let mut want = std::collections::BTreeMap::new();
        for (k, v) in &own {
            want.insert(k.clone(), v.clone().into_bytes());
        }
        want.insert("info_hash".into(), ih.to_vec());
        want.insert("peer_id".into(), pid.to_vec());
        for (k, v) in [("port", a.port as u64), ("uploaded", a.uploaded), ("downloaded", a.downloaded), ("left", a.left), ("compact", a.compact as u64)] {
            want.insert(k.into(), v.to_string().into_bytes());
        }
        match event {
            1 => drop(want.insert("event".into(), b"started".to_vec())),
            2 => drop(want.insert("event".into(), b"stopped".to_vec())),
            3 => drop(want.insert("event".into(), b"completed".to_vec())),
            _ => (),
        }
        if let Some(t) = tracker_id {
            want.insert("trackerid".into(), t.into_bytes());
        }
        // meaningless (but harmless) in compact mode
        let npi = params.remove("no_peer_id");
        if !a.compact && npi != Some((a.no_peer_id as u64).to_string().into_bytes()) {
            bad("no_peer_id");
        }
        if params != want {
            bad("parameters");
        }
    }
}

// ---------------------------------------------------------------- U02

fn u02(r: &mut Rng, rounds: u64) {
    for _ in 0..rounds {
        beat();
        let len = match r.below(3) {
            0 => r.urange(1, 17),
            1 => 8 * r.urange(1, 20),
            _ => r.urange(1, 700),
        };
        let mut log = Vec::new();
        let res = guarded(|| {
            let mut m = vec![false; len];
            let mut b = Bitmap::new(len);
            for step in 0..30 {
                let why;
                match r.below(6) {
                    0 => {
                        let d = r.bytes((len + 7) / 8);
                        log.push(format!("replace({})", hex(&d)));
                        why = "replace_data";
                        if b.replace_data(&d).is_err() {
                            return Some(format!("{} rejected for len={}", hex(&d), len));
                        }
                        for (k, x) in m.iter_mut().enumerate() {
                            *x = d[k / 8] >> (7 - k % 8) & 1 == 1;
                        }
                    }
                    1 => {
                        let n = (len + 7) / 8;
                        let n = if r.bool() { n + r.urange(1, 3) } else { n - r.urange(1, n.min(2)) };
                        let d = r.bytes(n);
                        log.push(format!("replace({} bytes)", n));
                        why = "replace_data";
                        if b.replace_data(&d).is_ok() {
                            return Some(format!("{} bytes accepted for len={}", n, len));
                        }
                    }
                    _ => {
                        let (k, v) = (r.idx(len), r.bool());
                        log.push(format!("change({k},{v})"));
                        why = "change";
                        if b.change(k, v) != m[k] {
                            return Some(format!("change({k}) didn't return the old value"));
                        }
                        m[k] = v;
                    }
                }
                count(why, 1);
                let ok = b.len() == len
                    && (0..len).all(|k| b.get(k) == m[k])
                    && b.iter().collect::<Vec<_>>() == m
                    && b.weight() == m.iter().filter(|x| **x).count()
                    && b.clone().iter().eq(m.iter().copied());
                eval(Some(hash_of(&m.iter().map(|x| *x as u8).collect::<Vec<_>>()) ^ step));
                if !ok {
                    return Some(format!("len={} weight={} iter={:?} instead of {:?}", b.len(), b.weight(), b.iter().collect::<Vec<_>>(), m));
                }
            }
            None
        });
        sample("bitmap", || format!("len={} {}", len, log.join(" ")));
        if let Some(Some(e)) = res {
            violation("bitmap", &format!("{} after len={} {}", e, len, log.join(" ")));
        }
    }
}

// ---------------------------------------------------------------- U03

fn u03(r: &mut Rng, rounds: u64) {
    for round in 0..rounds {
        beat();
        let x = r.id();
        // related ids are the interesting ones
        let mut y = if r.one_in(4) { r.id() } else { x };
        for _ in 0..r.idx(3) {
            y[r.idx(20)] ^= 1 << r.below(8);
        }
        if r.one_in(20) {
            y = if r.bool() { [0; 20] } else { [255; 20] };
        }
        let z = r.id();
        let (a, b, c) = (ID::new(x), ID::new(y), ID::new(z));
        let bit = |v: &[u8; 20], k: usize| v[k / 8] >> (7 - k % 8) & 1 == 1;
        set_context(format!("{} {}", hex(&x), hex(&y)));
        let k = r.idx(160);
        let n = r.urange(0, 160);
        let res = guarded(|| {
            let mut bad = Vec::new();
            if a.cmp(&b) != x.cmp(&y) || (a == b) != (x == y) || (a < b) != (x < y) {
                bad.push("order");
            }
            let xor: Vec<u8> = x.iter().zip(y).map(|(p, q)| p ^ q).collect();
            if (&a ^ &b).as_byte_ref() != xor || (&a - &b).as_byte_ref() != xor || (a - b).as_byte_ref() != xor {
                bad.push("distance");
            }
            let first = (0..160).find(|k| bit(&x, *k) != bit(&y, *k));
            if a.first_diff_bit_idx(&b) != first {
                bad.push("first differing bit");
            }
            // closer to c
            let d = |v: &[u8; 20]| v.iter().zip(z).map(|(p, q)| p ^ q).collect::<Vec<u8>>();
            if (&a - &c).cmp(&(&b - &c)) != d(&x).cmp(&d(&y)) {
                bad.push("order of distances");
            }
            if a.get_bit(k) != bit(&x, k) {
                bad.push("get_bit");
            }
            let mut f = a;
            f.flip_bit(k);
            let mut want = x;
            want[k / 8] ^= 0x80 >> (k % 8);
            if f.as_byte_ref() != want {
                bad.push("flip_bit");
            }
            let v = round % 2 == 0;
            let mut f = a;
            f.change_bit(k, v);
            let mut want = x;
            want[k / 8] &= !(0x80 >> (k % 8));
            want[k / 8] |= (v as u8) << (7 - k % 8);
            if f.as_byte_ref() != want {
                bad.push("change_bit");
            }
            let p: Vec<bool> = (0..n).map(|k| bit(&x, k)).collect();
            let q: Vec<bool> = (0..n).map(|k| bit(&y, k)).collect();
            if a.cmp_first_n_bits(&b, n) != p.cmp(&q) {
                bad.push("cmp_first_n_bits");
            }
            if a.weight() != x.iter().map(|v| v.count_ones() as usize).sum::<usize>() {
                bad.push("weight");
            }
            let mut f = a;
            f.randomize_after_bit(k);
            let mut g = [0u8; 20];
            g.copy_from_slice(f.as_byte_ref());
            if (0..=k).any(|j| bit(&g, j) != bit(&x, j)) {
                bad.push("randomize_after_bit");
            }
            // there's nothing after the last bit
            for beyond in [159, 160, 160 + k] {
                let mut f = a;
                f.randomize_after_bit(beyond);
                if f.as_byte_ref() != x {
                    bad.push("randomize_after_the_end");
                }
            }
            if a.bit_based_order(k, 1, 2) != if bit(&x, k) { (1, 2) } else { (2, 1) } {
                bad.push("bit_based_order");
            }
            let secret = z;
            let mut m = x.to_vec();
            m.extend_from_slice(&secret);
            if a.hash_with_secret(&secret).as_ref() != sha1::sha1(&m) {
                bad.push("hash_with_secret");
            }
            bad
        });
        eval(Some(hash_of(&[x, y].concat())));
        count("pairs", 1);
        sample("ids", || format!("{} {}", hex(&x), hex(&y)));
        for b in res.unwrap_or_default() {
            violation(b, &format!("{} of {} and {} (bit {}, {} bits)", b, hex(&x), hex(&y), k, n));
        }
        // randomizing must actually cover the whole bucket
        if round % 200 == 0 {
            let k = r.idx(150);
            let mut seen = [[false; 2]; 160];
            for _ in 0..60 {
                let mut f = a;
                f.randomize_after_bit(k);
                for j in k + 1..160 {
                    seen[j][f.get_bit(j) as usize] = true;
                }
            }
            if (k + 1..160).any(|j| !(seen[j][0] && seen[j][1])) {
                violation("randomize-coverage", &format!("some bit after {} of {} never changes", k, hex(&x)));
            }
        }
    }
}
