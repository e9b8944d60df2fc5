//! Isolation: own network namespace (so that a fixed port is free and many workers run at once) and scratch home.
use std::path::{Path, PathBuf};

/// true if this process has a loopback of its own now
pub fn own_network() -> bool {
    // whoever starts the interpreter has to see to it
    if cfg!(miri) {
        return false;
    }
    unsafe {
        let (uid, gid) = (libc::getuid(), libc::getgid());
        if libc::unshare(libc::CLONE_NEWUSER | libc::CLONE_NEWNET) != 0 {
            return false;
        }
        let _ = std::fs::write("/proc/self/setgroups", "deny");
        let _ = std::fs::write("/proc/self/uid_map", format!("0 {} 1", uid));
        let _ = std::fs::write("/proc/self/gid_map", format!("0 {} 1", gid));
        let fd = libc::socket(libc::AF_INET, libc::SOCK_DGRAM, 0);
        if fd < 0 {
            return false;
        }
        let mut ifr: libc::ifreq = std::mem::zeroed();
        ifr.ifr_name[0] = b'l' as _;
        ifr.ifr_name[1] = b'o' as _;
        ifr.ifr_ifru.ifru_flags = (libc::IFF_UP | libc::IFF_RUNNING) as _;
        let ok = libc::ioctl(fd, libc::SIOCSIFFLAGS as _, &ifr) == 0;
        libc::close(fd);
        ok
    }
}

pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new(tag: &str) -> Self {
        let base = std::env::var("NV_SCRATCH").unwrap_or_else(|_| "/tmp".to_string());
        let p = Path::new(&base).join(format!("nv-{}-{}", tag, std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        Self(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
    pub fn cleanup(&self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        self.cleanup()
    }
}

/// a socket of any port but the one that the client's node takes
pub fn udp(ip: std::net::Ipv4Addr) -> std::net::UdpSocket {
    // sockets of the wrong port are kept until there is a better one
    let mut wrong = Vec::new();
    loop {
        let u = std::net::UdpSocket::bind((ip, 0)).unwrap_or_else(|e| crate::inconclusive(&format!("bind: {e}")));
        u.set_nonblocking(true).unwrap();
        match u.local_addr().unwrap().port() {
            46493 => wrong.push(u),
            _ => return u,
        }
    }
}
