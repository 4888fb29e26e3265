//! Virtual TCP and UDP sockets for scheduled threads.  A socket is an ordinary descriptor (of
//! /dev/null) whose reads and writes are answered here: bytes travel over channels of the
//! scheduler, and each call may be answered by any of the deviations the socket's budget allows
//! (short transfer of every length, interruption, error), all explored.
use crate::rt::{self, Ch, Dl, R};
use libc::{c_int, c_void, iovec, sockaddr, socklen_t, ssize_t};
use std::collections::{HashMap, VecDeque};
use std::sync::Mutex;

#[derive(Clone, Default)]
pub struct Faults {
    /// deviations allowed on this socket
    pub budget: usize,
    /// a transfer may be shorter than asked for, by every length
    pub short: bool,
    /// restricts the short lengths (empty: all of them)
    pub lens: Vec<usize>,
    /// the call may be interrupted (EINTR)
    pub intr: bool,
    /// error numbers a call may answer, after which the connection is dead
    pub errors: Vec<c_int>,
}
struct Wire {
    ch: Ch,
    segs: VecDeque<Vec<u8>>,
    /// everything ever written
    total: Vec<u8>,
    writes: usize,
    w_open: bool,
    r_open: bool,
}
struct Sock {
    udp: bool,
    refs: usize,
    rx: Option<usize>,
    tx: Option<usize>,
    f: Faults,
    broken: Option<c_int>,
    nonblock: bool,
    rcv_timeout: Option<u64>,
    calls: Vec<String>,
    consumed: Vec<u8>,
    fatal: bool,
    bound: Option<String>,
    used: usize,
}
#[derive(Default)]
struct Net {
    run: u64,
    fds: HashMap<c_int, usize>,
    socks: Vec<Sock>,
    wires: Vec<Wire>,
    /// answers to the next calls of `connect`
    connects: VecDeque<Result<usize, c_int>>,
    binds: VecDeque<c_int>,
    connected_to: Vec<String>,
}
static NET: Mutex<Option<Net>> = Mutex::new(None);
fn net<T>(f: impl FnOnce(&mut Net) -> T) -> T {
    let mut g = NET.lock().unwrap_or_else(|e| e.into_inner());
    let n = g.get_or_insert_with(Net::default);
    if rt::active() && n.run != rt::run_id() {
        let old: Vec<c_int> = n.fds.keys().copied().collect();
        *n = Net { run: rt::run_id(), ..Net::default() };
        for fd in old {
            unsafe { libc::syscall(libc::SYS_close, fd) };
        }
    }
    f(n)
}
fn look(fd: c_int) -> Option<usize> {
    if !rt::active() {
        return None;
    }
    net(|n| n.fds.get(&fd).copied())
}
fn errno(e: c_int) -> ssize_t {
    unsafe { *libc::__errno_location() = e };
    -1
}
fn newfd() -> c_int {
    let fd = unsafe { libc::syscall(libc::SYS_openat, libc::AT_FDCWD, c"/dev/null".as_ptr(), libc::O_RDWR | libc::O_CLOEXEC) } as c_int;
    assert!(fd >= 0);
    fd
}
fn wire() -> usize {
    let ch = rt::chan_new(None);
    net(|n| {
        n.wires.push(Wire { ch, segs: VecDeque::new(), total: vec![], writes: 0, w_open: true, r_open: true });
        n.wires.len() - 1
    })
}
fn sock(udp: bool, rx: Option<usize>, tx: Option<usize>, f: Faults) -> (c_int, usize) {
    let fd = newfd();
    net(|n| {
        n.socks.push(Sock { udp, refs: 1, rx, tx, f, broken: None, nonblock: false, rcv_timeout: None, calls: vec![], consumed: vec![], fatal: false, bound: None, used: 0 });
        n.fds.insert(fd, n.socks.len() - 1);
        (fd, n.socks.len() - 1)
    })
}
/// Handle on one side of a connection, for scenario programs.
#[derive(Clone, Copy, Debug)]
pub struct Side(usize);
impl Side {
    /// calls made on this side
    pub fn calls(self) -> Vec<String> {
        net(|n| n.socks[self.0].calls.clone())
    }
    /// every byte this side has put on the wire
    pub fn sent(self) -> Vec<u8> {
        net(|n| n.socks[self.0].tx.map(|w| n.wires[w].total.clone()).unwrap_or_default())
    }
    pub fn writes(self) -> usize {
        net(|n| n.socks[self.0].tx.map(|w| n.wires[w].writes).unwrap_or_default())
    }
    /// every byte this side has taken from the wire
    pub fn consumed(self) -> Vec<u8> {
        net(|n| n.socks[self.0].consumed.clone())
    }
    /// an error (not an interruption) was answered to a call of this side
    pub fn fatal(self) -> bool {
        net(|n| n.socks[self.0].fatal)
    }
    /// number of deviations used
    pub fn used(self) -> usize {
        net(|n| n.socks[self.0].used)
    }
    /// both directions given up by this side
    pub fn shut(self) -> bool {
        net(|n| {
            let s = &n.socks[self.0];
            s.tx.is_none_or(|w| !n.wires[w].w_open) && s.rx.is_none_or(|w| !n.wires[w].r_open)
        })
    }
    pub fn open_fds(self) -> usize {
        net(|n| n.socks[self.0].refs)
    }
    pub fn bound(self) -> Option<String> {
        net(|n| n.socks[self.0].bound.clone())
    }
}
/// Two connected sockets: descriptors and handles.
pub fn pair(udp: bool, fa: Faults, fb: Faults) -> ((c_int, Side), (c_int, Side)) {
    let (x, y) = (wire(), wire());
    let (a, i) = sock(udp, Some(x), Some(y), fa);
    let (b, j) = sock(udp, Some(y), Some(x), fb);
    ((a, Side(i)), (b, Side(j)))
}
/// The next `connect` succeeds with this client-side fault set; returns the server side.
pub fn accept_next(udp: bool, client: Faults) -> (Side, (c_int, Side)) {
    let (x, y) = (wire(), wire());
    let (b, j) = sock(udp, Some(y), Some(x), Faults::default());
    let i = net(|n| {
        n.socks.push(Sock { udp, refs: 0, rx: Some(x), tx: Some(y), f: client, broken: None, nonblock: false, rcv_timeout: None, calls: vec![], consumed: vec![], fatal: false, bound: None, used: 0 });
        n.connects.push_back(Ok(n.socks.len() - 1));
        n.socks.len() - 1
    });
    (Side(i), (b, Side(j)))
}
pub fn refuse_next(e: c_int) {
    net(|n| n.connects.push_back(Err(e)))
}
pub fn bind_fails_next(e: c_int) {
    net(|n| n.binds.push_back(e))
}
pub fn connected_to() -> Vec<String> {
    net(|n| n.connected_to.clone())
}
/// Descriptors still open.
pub fn open_fds() -> usize {
    net(|n| n.fds.len())
}

/// Error or interruption before the call takes effect.
fn pre(i: usize) -> Option<c_int> {
    let (b, intr, errs, broken) = net(|n| {
        let s = &n.socks[i];
        (s.f.budget, s.f.intr, s.f.errors.clone(), s.broken)
    });
    if broken.is_some() {
        return broken;
    }
    if b == 0 {
        return None;
    }
    let mut o: Vec<c_int> = vec![];
    if intr {
        o.push(libc::EINTR)
    }
    o.extend(errs);
    let c = rt::choose(1 + o.len());
    if c == 0 {
        return None;
    }
    let e = o[c - 1];
    net(|n| {
        let s = &mut n.socks[i];
        s.f.budget -= 1;
        s.used += 1;
        s.calls.push(format!("error {e}"));
        if e != libc::EINTR {
            s.fatal = true;
            if !s.udp {
                s.broken = Some(e);
            }
        }
    });
    rt::note(|| format!("    network: call on side {i} answers error {e}"));
    Some(e)
}
/// How many of `n` transferable bytes are transferred.
fn amount(i: usize, n: usize) -> usize {
    let (b, short, lens) = net(|m| {
        let s = &m.socks[i];
        (s.f.budget, s.f.short && !s.udp, s.f.lens.clone())
    });
    if b == 0 || !short || n < 2 {
        return n;
    }
    let o: Vec<usize> = if lens.is_empty() { (1..n).collect() } else { lens.into_iter().filter(|l| *l < n).collect() };
    let c = rt::choose(1 + o.len());
    if c == 0 {
        return n;
    }
    let k = o[c - 1];
    net(|m| {
        m.socks[i].f.budget -= 1;
        m.socks[i].used += 1
    });
    rt::note(|| format!("    network: only {k} of {n} bytes transferred on side {i}"));
    k
}
fn do_recv(i: usize, bufs: &mut [&mut [u8]], peek: bool, dontwait: bool) -> ssize_t {
    let want: usize = bufs.iter().map(|b| b.len()).sum();
    net(|n| n.socks[i].calls.push(format!("recv {want}")));
    if let Some(e) = pre(i) {
        return errno(e);
    }
    let (udp, rx, nb, to) = net(|n| {
        let s = &n.socks[i];
        (s.udp, s.rx, s.nonblock || dontwait, s.rcv_timeout)
    });
    let Some(w) = rx else { return errno(libc::ENOTCONN) };
    let (ch, open) = net(|n| (n.wires[w].ch, n.wires[w].r_open));
    if !open {
        return 0;
    }
    if want == 0 && !udp {
        return 0;
    }
    let dl = if nb { Dl::Try } else { to.map_or(Dl::Block, |t| Dl::At(rt::now() + t)) };
    let mut got: Vec<u8> = vec![];
    let r = rt::recv_bytes(ch, dl, &mut || {
        let len = net(|n| n.wires[w].segs[0].len());
        let k = amount(i, len.min(want));
        net(|n| {
            let q = &mut n.wires[w].segs;
            got = q[0][..k].to_vec();
            if peek {
                return false;
            }
            if udp || k == len {
                q.pop_front();
                true
            } else {
                q[0].drain(..k);
                false
            }
        })
    });
    match r {
        R::Ok => {
            if !peek {
                net(|n| n.socks[i].consumed.extend_from_slice(&got));
            }
            let mut o = 0;
            for b in bufs.iter_mut() {
                let k = b.len().min(got.len() - o);
                b[..k].copy_from_slice(&got[o..o + k]);
                o += k;
            }
            o as ssize_t
        }
        R::Disc if udp => errno(libc::ECONNREFUSED),
        R::Disc => 0,
        R::Timeout => errno(libc::EAGAIN),
    }
}
fn do_send(i: usize, bufs: &[&[u8]]) -> ssize_t {
    let all: Vec<u8> = bufs.concat();
    net(|n| n.socks[i].calls.push(format!("send {}", all.len())));
    if let Some(e) = pre(i) {
        return errno(e);
    }
    let (udp, tx) = net(|n| (n.socks[i].udp, n.socks[i].tx));
    let Some(w) = tx else { return errno(libc::ENOTCONN) };
    let (ch, open) = net(|n| (n.wires[w].ch, n.wires[w].w_open));
    if !open {
        return errno(libc::EPIPE);
    }
    if all.is_empty() && !udp {
        return 0;
    }
    let k = amount(i, all.len());
    let r = rt::send(ch, Dl::Block, &mut || {
        net(|n| {
            n.wires[w].segs.push_back(all[..k].to_vec());
            n.wires[w].total.extend_from_slice(&all[..k]);
            n.wires[w].writes += 1;
        })
    });
    match r {
        R::Ok => k as ssize_t,
        // the peer is gone: the system may not know yet
        _ => {
            if rt::choose(2) == 0 {
                k as ssize_t
            } else {
                net(|n| n.socks[i].fatal = true);
                errno(if udp { libc::ECONNREFUSED } else { libc::EPIPE })
            }
        }
    }
}
fn close_dir(i: usize, rd: bool, wr: bool) {
    let (tx, rx) = net(|n| {
        let s = &n.socks[i];
        let tx = s.tx.filter(|w| wr && n.wires[*w].w_open);
        let rx = s.rx.filter(|w| rd && n.wires[*w].r_open);
        if let Some(w) = tx {
            n.wires[w].w_open = false
        }
        if let Some(w) = rx {
            n.wires[w].r_open = false
        }
        (tx.map(|w| n.wires[w].ch), rx.map(|w| n.wires[w].ch))
    });
    if let Some(c) = tx {
        rt::drop_sender(c);
    }
    if let Some(c) = rx {
        rt::drop_receiver(c);
    }
}

macro_rules! bufs {
    ($iov:expr, $n:expr) => {
        unsafe { std::slice::from_raw_parts($iov, $n as usize) }
    };
}
#[unsafe(no_mangle)]
unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, n: usize, flags: c_int) -> ssize_t {
    match look(fd) {
        None => unsafe { libc::syscall(libc::SYS_recvfrom, fd, b, n, flags, 0usize, 0usize) as ssize_t },
        Some(i) => do_recv(i, &mut [unsafe { std::slice::from_raw_parts_mut(b as *mut u8, n) }], flags & libc::MSG_PEEK != 0, flags & libc::MSG_DONTWAIT != 0),
    }
}
#[unsafe(no_mangle)]
unsafe extern "C" fn recvfrom(fd: c_int, b: *mut c_void, n: usize, flags: c_int, a: *mut sockaddr, l: *mut socklen_t) -> ssize_t {
    match look(fd) {
        None => unsafe { libc::syscall(libc::SYS_recvfrom, fd, b, n, flags, a, l) as ssize_t },
        Some(i) => {
            if !a.is_null() && !l.is_null() {
                unsafe { fill_addr(a, l) }
            }
            do_recv(i, &mut [unsafe { std::slice::from_raw_parts_mut(b as *mut u8, n) }], flags & libc::MSG_PEEK != 0, flags & libc::MSG_DONTWAIT != 0)
        }
    }
}
unsafe fn fill_addr(a: *mut sockaddr, l: *mut socklen_t) {
    let mut s: libc::sockaddr_in = unsafe { std::mem::zeroed() };
    s.sin_family = libc::AF_INET as _;
    s.sin_port = 9u16.to_be();
    s.sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
    let k = (unsafe { *l } as usize).min(size_of::<libc::sockaddr_in>());
    unsafe {
        std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, a as *mut u8, k);
        *l = size_of::<libc::sockaddr_in>() as _;
    }
}
#[unsafe(no_mangle)]
unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: usize, flags: c_int) -> ssize_t {
    match look(fd) {
        None => unsafe { libc::syscall(libc::SYS_sendto, fd, b, n, flags, 0usize, 0usize) as ssize_t },
        Some(i) => do_send(i, &[unsafe { std::slice::from_raw_parts(b as *const u8, n) }]),
    }
}
#[unsafe(no_mangle)]
unsafe extern "C" fn sendto(fd: c_int, b: *const c_void, n: usize, flags: c_int, a: *const sockaddr, l: socklen_t) -> ssize_t {
    match look(fd) {
        None => unsafe { libc::syscall(libc::SYS_sendto, fd, b, n, flags, a, l as usize) as ssize_t },
        Some(i) => do_send(i, &[unsafe { std::slice::from_raw_parts(b as *const u8, n) }]),
    }
}
#[unsafe(no_mangle)]
unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> ssize_t {
    match look(fd) {
        None => unsafe { libc::syscall(libc::SYS_read, fd, b, n) as ssize_t },
        Some(i) => do_recv(i, &mut [unsafe { std::slice::from_raw_parts_mut(b as *mut u8, n) }], false, false),
    }
}
#[unsafe(no_mangle)]
unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> ssize_t {
    match look(fd) {
        None => unsafe { libc::syscall(libc::SYS_write, fd, b, n) as ssize_t },
        Some(i) => do_send(i, &[unsafe { std::slice::from_raw_parts(b as *const u8, n) }]),
    }
}
#[unsafe(no_mangle)]
unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    match look(fd) {
        None => unsafe { libc::syscall(libc::SYS_readv, fd, iov, n) as ssize_t },
        Some(i) => {
            let mut v: Vec<&mut [u8]> = bufs!(iov, n).iter().map(|x| unsafe { std::slice::from_raw_parts_mut(x.iov_base as *mut u8, x.iov_len) }).collect();
            do_recv(i, &mut v, false, false)
        }
    }
}
#[unsafe(no_mangle)]
unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    match look(fd) {
        None => unsafe { libc::syscall(libc::SYS_writev, fd, iov, n) as ssize_t },
        Some(i) => {
            let v: Vec<&[u8]> = bufs!(iov, n).iter().map(|x| unsafe { std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len) }).collect();
            do_send(i, &v)
        }
    }
}
#[unsafe(no_mangle)]
unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    match look(fd) {
        None => unsafe { libc::syscall(libc::SYS_shutdown, fd, how) as c_int },
        Some(i) => {
            let connected = net(|n| {
                n.socks[i].calls.push(format!("shutdown {how}"));
                let s = &n.socks[i];
                s.broken.is_none() && s.tx.is_some_and(|w| n.wires[w].w_open || n.wires[s.rx.unwrap()].w_open)
            });
            if !connected {
                return errno(libc::ENOTCONN) as c_int;
            }
            close_dir(i, how != libc::SHUT_WR, how != libc::SHUT_RD);
            0
        }
    }
}
#[unsafe(no_mangle)]
unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some(i) = look(fd) {
        let last = net(|n| {
            n.fds.remove(&fd);
            n.socks[i].refs -= 1;
            n.socks[i].refs == 0
        });
        if last {
            close_dir(i, true, true)
        }
    }
    unsafe { libc::syscall(libc::SYS_close, fd) as c_int }
}
fn dup_of(fd: c_int, new: c_int) -> c_int {
    if new >= 0 {
        if let Some(i) = look(fd) {
            net(|n| {
                n.fds.insert(new, i);
                n.socks[i].refs += 1
            });
        }
    }
    new
}
#[unsafe(no_mangle)]
unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let r = unsafe { libc::syscall(libc::SYS_fcntl, fd, cmd, arg) } as c_int;
    if cmd == libc::F_DUPFD || cmd == libc::F_DUPFD_CLOEXEC { dup_of(fd, r) } else { r }
}
#[unsafe(no_mangle)]
unsafe extern "C" fn dup(fd: c_int) -> c_int {
    dup_of(fd, unsafe { libc::syscall(libc::SYS_dup, fd) } as c_int)
}
#[unsafe(no_mangle)]
unsafe extern "C" fn socket(dom: c_int, ty: c_int, proto: c_int) -> c_int {
    let t = ty & 0xf;
    if !rt::active() || dom == libc::AF_UNIX || (t != libc::SOCK_STREAM && t != libc::SOCK_DGRAM) {
        return unsafe { libc::syscall(libc::SYS_socket, dom, ty, proto) as c_int };
    }
    sock(t == libc::SOCK_DGRAM, None, None, Faults::default()).0
}
fn addr(a: *const sockaddr) -> String {
    unsafe {
        if (*a).sa_family as c_int == libc::AF_INET {
            let s = &*(a as *const libc::sockaddr_in);
            let b = s.sin_addr.s_addr.to_ne_bytes();
            format!("{}.{}.{}.{}:{}", b[0], b[1], b[2], b[3], u16::from_be(s.sin_port))
        } else {
            "other".into()
        }
    }
}
#[unsafe(no_mangle)]
unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    match look(fd) {
        None => unsafe { libc::syscall(libc::SYS_connect, fd, a, l as usize) as c_int },
        Some(i) => {
            let to = addr(a);
            net(|n| {
                n.connected_to.push(to);
                match n.connects.pop_front() {
                    Some(Ok(j)) => {
                        // the prepared side takes the place of the fresh socket
                        n.socks[j].refs = n.socks[i].refs;
                        n.socks[j].bound = n.socks[i].bound.clone();
                        for s in n.fds.values_mut() {
                            if *s == i {
                                *s = j
                            }
                        }
                        0
                    }
                    Some(Err(e)) => errno(e) as c_int,
                    None => errno(libc::ECONNREFUSED) as c_int,
                }
            })
        }
    }
}
#[unsafe(no_mangle)]
unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    match look(fd) {
        None => unsafe { libc::syscall(libc::SYS_bind, fd, a, l as usize) as c_int },
        Some(i) => {
            let at = addr(a);
            net(|n| {
                if let Some(e) = n.binds.pop_front() {
                    return errno(e) as c_int;
                }
                n.socks[i].bound = Some(at);
                0
            })
        }
    }
}
#[unsafe(no_mangle)]
unsafe extern "C" fn setsockopt(fd: c_int, level: c_int, name: c_int, v: *const c_void, l: socklen_t) -> c_int {
    match look(fd) {
        None => unsafe { libc::syscall(libc::SYS_setsockopt, fd, level, name, v, l as usize) as c_int },
        Some(i) => {
            if level == libc::SOL_SOCKET && name == libc::SO_RCVTIMEO {
                let t = unsafe { *(v as *const libc::timeval) };
                let d = t.tv_sec as u64 * 1_000_000_000 + t.tv_usec as u64 * 1000;
                net(|n| n.socks[i].rcv_timeout = (d > 0).then_some(d));
            }
            0
        }
    }
}
#[unsafe(no_mangle)]
unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    match look(fd) {
        None => unsafe { libc::syscall(libc::SYS_getpeername, fd, a, l) as c_int },
        Some(_) => {
            unsafe { fill_addr(a, l) };
            0
        }
    }
}
#[unsafe(no_mangle)]
unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    match look(fd) {
        None => unsafe { libc::syscall(libc::SYS_getsockname, fd, a, l) as c_int },
        Some(_) => {
            unsafe { fill_addr(a, l) };
            0
        }
    }
}
#[unsafe(no_mangle)]
unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: usize) -> c_int {
    match look(fd) {
        Some(i) if req == libc::FIONBIO as libc::c_ulong => {
            let v = unsafe { *(arg as *const c_int) };
            net(|n| n.socks[i].nonblock = v != 0);
            0
        }
        _ => unsafe { libc::syscall(libc::SYS_ioctl, fd, req, arg) as c_int },
    }
}
