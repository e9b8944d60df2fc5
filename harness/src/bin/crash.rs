//! A process that is killed, or whose disk fails, at a chosen system call on the files below $HOME/.nargun or $NV_WATCH.
//! The system calls are intercepted by defining the symbols that the standard library links against.
use n::data_structures::ID;
use n::dht::routing_table::RoutingTable;
use nargun::verif as n;
use nv::kad::{id_in_class, Id};
use nv::*;
use std::collections::HashMap;
use std::ffi::CStr;
use std::io::Write;
use std::net::{Ipv4Addr, SocketAddrV4};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
use std::sync::Mutex;

static ARMED: AtomicBool = AtomicBool::new(false);
static LEFT: AtomicI64 = AtomicI64::new(0);
static MODE: Mutex<String> = Mutex::new(String::new());
static WATCH: Mutex<String> = Mutex::new(String::new());

struct File {
    durable: i64,
}

// by inode
static FILES: Mutex<Option<HashMap<u64, File>>> = Mutex::new(None);
static FDS: Mutex<Option<HashMap<i32, u64>>> = Mutex::new(None);

fn mode() -> String {
    MODE.lock().unwrap().clone()
}

unsafe fn stat(fd: i32) -> (u64, i64) {
    let mut s: libc::stat = std::mem::zeroed();
    libc::fstat(fd, &mut s);
    (s.st_ino, s.st_size)
}

/// what isn't durable is lost, in the "torn" mode a part of it
unsafe fn lose(torn: bool) {
    let w = WATCH.lock().unwrap().clone();
    let files = FILES.lock().unwrap();
    fn walk(d: &std::path::Path, f: &mut dyn FnMut(&std::path::Path)) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            if e.path().is_dir() {
                walk(&e.path(), f)
            } else {
                f(&e.path())
            }
        }
    }
    walk(std::path::Path::new(&w), &mut |p| {
        use std::os::unix::fs::MetadataExt;
        let Ok(m) = std::fs::metadata(p) else { return };
        if let Some(f) = files.as_ref().and_then(|x| x.get(&m.ino())) {
            let size = m.size() as i64;
            if f.durable < size {
                let to = if torn { f.durable + (size - f.durable) / 2 } else { f.durable };
                let c = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
                libc::syscall(libc::SYS_truncate, c.as_ptr(), to);
            }
        }
    });
}

enum What {
    Go,
    Die,
    Fail,
}

fn next() -> What {
    if !ARMED.load(Ordering::SeqCst) {
        return What::Go;
    }
    let left = LEFT.fetch_sub(1, Ordering::SeqCst);
    let m = mode();
    if m == "full" {
        // from here on everything fails
        return if left <= 0 { What::Fail } else { What::Go };
    }
    if left == 0 {
        What::Die
    } else {
        What::Go
    }
}

unsafe fn die() -> ! {
    ARMED.store(false, Ordering::SeqCst);
    let m = mode();
    if m == "lose" || m == "torn" {
        lose(m == "torn");
    }
    libc::_exit(77)
}

unsafe fn fail() {
    *libc::__errno_location() = libc::ENOSPC;
}

fn watched(p: &[u8]) -> bool {
    if !ARMED.load(Ordering::SeqCst) {
        return false;
    }
    let w = WATCH.lock().unwrap();
    !w.is_empty() && p.starts_with(w.as_bytes())
}

unsafe fn opened(fd: i64) {
    if fd >= 0 {
        let (ino, size) = stat(fd as i32);
        FDS.lock().unwrap().get_or_insert_with(HashMap::new).insert(fd as i32, ino);
        FILES.lock().unwrap().get_or_insert_with(HashMap::new).entry(ino).or_insert(File { durable: size });
    }
}

unsafe fn do_open(path: *const libc::c_char, flags: i32, mode: libc::mode_t) -> i32 {
    let p = CStr::from_ptr(path).to_bytes();
    let changes = flags & (libc::O_CREAT | libc::O_TRUNC) != 0;
    let w = watched(p);
    if w && changes {
        match next() {
            What::Die => die(),
            What::Fail => {
                fail();
                return -1;
            }
            What::Go => (),
        }
    }
    let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode);
    if w {
        opened(fd);
        // and right after it
        if fd >= 0 && changes {
            if let What::Die = next() {
                die()
            }
        }
    }
    fd as i32
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: libc::mode_t) -> i32 {
    do_open(path, flags, mode)
}
fn tracked(fd: i32) -> Option<u64> {
    if !ARMED.load(Ordering::SeqCst) {
        return None;
    }
    FDS.lock().unwrap().as_ref()?.get(&fd).cloned()
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if ARMED.load(Ordering::SeqCst) {
        if let Some(m) = FDS.lock().unwrap().as_mut() {
            m.remove(&fd);
        }
    }
    libc::syscall(libc::SYS_close, fd) as i32
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const libc::c_void, len: usize) -> isize {
    if tracked(fd).is_some() {
        match next() {
            What::Die => {
                if mode() == "torn" && len > 1 {
                    libc::syscall(libc::SYS_write, fd, buf, len / 2);
                }
                die()
            }
            What::Fail => {
                fail();
                return -1;
            }
            What::Go => (),
        }
    }
    libc::syscall(libc::SYS_write, fd, buf, len) as isize
}

/// other ways to change a file: half of it is done when the process dies
unsafe fn other(fd: i32, len: usize, call: &dyn Fn(usize) -> i64) -> i64 {
    if tracked(fd).is_some() {
        match next() {
            What::Die => {
                if mode() == "torn" && len > 1 {
                    call(len / 2);
                }
                die()
            }
            What::Fail => {
                fail();
                return -1;
            }
            What::Go => (),
        }
    }
    call(len)
}

#[no_mangle]
pub unsafe extern "C" fn copy_file_range(from: i32, off_in: *mut i64, to: i32, off_out: *mut i64, len: usize, flags: u32) -> isize {
    other(to, len, &|len| libc::syscall(libc::SYS_copy_file_range, from, off_in, to, off_out, len, flags)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(to: i32, from: i32, off: *mut i64, len: usize) -> isize {
    other(to, len, &|len| libc::syscall(libc::SYS_sendfile, to, from, off, len)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendfile(to: i32, from: i32, off: *mut i64, len: usize) -> isize {
    sendfile64(to, from, off, len)
}
#[no_mangle]
pub unsafe extern "C" fn splice(from: i32, off_in: *mut i64, to: i32, off_out: *mut i64, len: usize, flags: u32) -> isize {
    other(to, len, &|len| libc::syscall(libc::SYS_splice, from, off_in, to, off_out, len, flags)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, buf: *const libc::c_void, len: usize, at: i64) -> isize {
    other(fd, len, &|len| libc::syscall(libc::SYS_pwrite64, fd, buf, len, at)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const libc::iovec, n: i32) -> isize {
    other(fd, n as usize, &|n| libc::syscall(libc::SYS_writev, fd, v, n)) as isize
}

unsafe fn named(path: *const libc::c_char, call: &dyn Fn() -> i64) -> i32 {
    let w = watched(CStr::from_ptr(path).to_bytes());
    if w {
        match next() {
            What::Die => die(),
            What::Fail => {
                fail();
                return -1;
            }
            What::Go => (),
        }
    }
    let rc = call();
    if w && rc == 0 {
        if let What::Die = next() {
            die()
        }
    }
    rc as i32
}

#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const libc::c_char) -> i32 {
    named(p, &|| libc::syscall(libc::SYS_unlink, p))
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const libc::c_char, b: *const libc::c_char) -> i32 {
    named(b, &|| libc::syscall(libc::SYS_link, a, b))
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d1: i32, a: *const libc::c_char, d2: i32, b: *const libc::c_char, flags: i32) -> i32 {
    named(b, &|| libc::syscall(libc::SYS_linkat, d1, a, d2, b, flags))
}

unsafe fn sync(fd: i32, nr: i64) -> i32 {
    if let Some(ino) = tracked(fd) {
        match next() {
            What::Die => die(),
            What::Fail => {
                fail();
                return -1;
            }
            What::Go => (),
        }
        let size = stat(fd).1;
        if let Some(f) = FILES.lock().unwrap().as_mut().and_then(|x| x.get_mut(&ino)) {
            f.durable = size;
        }
    }
    libc::syscall(nr, fd) as i32
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    sync(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    sync(fd, libc::SYS_fdatasync)
}

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const libc::c_char, b: *const libc::c_char) -> i32 {
    if watched(CStr::from_ptr(b).to_bytes()) {
        match next() {
            What::Die => die(),
            What::Fail => {
                fail();
                return -1;
            }
            What::Go => (),
        }
        let rc = libc::syscall(libc::SYS_renameat2, libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0);
        if rc == 0 {
            // and right after it
            if let What::Die = next() {
                die()
            }
        }
        return rc as i32;
    }
    libc::syscall(libc::SYS_renameat2, libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, len: i64) -> i32 {
    if tracked(fd).is_some() {
        match next() {
            What::Die => die(),
            What::Fail => {
                fail();
                return -1;
            }
            What::Go => (),
        }
    }
    libc::syscall(libc::SYS_ftruncate, fd, len) as i32
}

fn main() {
    let a = Args::parse();
    match a.property.as_str() {
        "store" => store(&a),
        _ => std::process::exit(9),
    }
}

fn store(a: &Args) {
    std::panic::set_hook(Box::new(|_| ()));
    let mut r = Rng::new(a.num("seed", 1));
    let home = std::env::var("HOME").unwrap();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let full = a.text("mode", "") == "full";
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        rt.block_on(async {
            let mut t = RoutingTable::new().await;
            let own: Id = t.own_id().as_byte_ref().try_into().unwrap();
            for _ in 0..r.urange(1, 150) {
                let c = r.idx(12);
                let i = id_in_class(&mut r, &own, c);
                t.touch_node(ID::new(i), SocketAddrV4::new(Ipv4Addr::new(r.u8(), r.u8(), r.u8(), r.u8()), r.below(65536) as u16));
            }
            {
                let mut f = std::fs::File::create(a.text("expect", "")).unwrap();
                writeln!(f, "{}", hex(&own)).unwrap();
                for x in t.iter_nodes() {
                    writeln!(f, "{} {}", hex(x.id.as_byte_ref()), x.addr).unwrap();
                }
            }
            *MODE.lock().unwrap() = a.text("mode", "kill");
            *WATCH.lock().unwrap() = format!("{home}/.nargun");
            LEFT.store(a.num("op", 0) as i64, Ordering::SeqCst);
            ARMED.store(true, Ordering::SeqCst);
            t.store().await;
            ARMED.store(false, Ordering::SeqCst);
        })
    }));
    ARMED.store(false, Ordering::SeqCst);
    let ran_through = res.is_ok() && (!full || LEFT.load(Ordering::SeqCst) >= 0);
    unsafe { libc::_exit(if ran_through { 76 } else { 77 }) }
}
