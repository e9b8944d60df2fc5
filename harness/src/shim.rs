//! Miri can't call OpenSSL: what the client uses of it, in Rust.
use std::collections::HashMap;
use std::sync::Mutex;

/// SHA_CTX may be moved, so what it was fed with is found by a number that is kept in it
static FED: Mutex<Option<(u32, HashMap<u32, Vec<u8>>)>> = Mutex::new(None);

#[no_mangle]
pub unsafe extern "C" fn SHA1_Init(c: *mut u32) -> i32 {
    let mut g = FED.lock().unwrap();
    let (next, m) = g.get_or_insert_with(|| (0, HashMap::new()));
    *next += 1;
    m.insert(*next, Vec::new());
    // h0..h4, Nl, Nh, data[16], num
    for k in 0..24 {
        c.add(k).write(0);
    }
    c.write(*next);
    1
}

#[no_mangle]
pub unsafe extern "C" fn SHA1_Update(c: *mut u32, data: *const u8, len: usize) -> i32 {
    let d = std::slice::from_raw_parts(data, len);
    let mut g = FED.lock().unwrap();
    let v = g.as_mut().unwrap().1.get_mut(&c.read()).expect("SHA_CTX of nobody");
    v.extend_from_slice(d);
    1
}

#[no_mangle]
pub unsafe extern "C" fn SHA1_Final(md: *mut u8, c: *mut u32) -> i32 {
    let mut g = FED.lock().unwrap();
    let v = g.as_mut().unwrap().1.remove(&c.read()).expect("SHA_CTX of nobody");
    std::ptr::copy_nonoverlapping(crate::sha1::sha1(&v).as_ptr(), md, 20);
    1
}
