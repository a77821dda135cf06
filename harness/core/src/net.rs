//! Sockets and the clock as the code under test sees them: the libc functions below replace the real
//! ones, deliver a script of datagrams and errors, and record everything that is sent.
use crate::rt::*;
use std::future::Future;
use std::net::{IpAddr, SocketAddr};
use std::pin::pin;
use std::task::{Context, Poll, Waker};

pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EAGAIN: i32 = 11;
pub const ECONNREFUSED: i32 = 111;
pub const ETIMEDOUT: i32 = 110;

/// A socket address as it appears in a `sockaddr`.
#[derive(Clone, Copy)]
pub struct Addr {
    pub v6: bool,
    pub ip: [u8; 16],
    pub port: u16,
    pub flow: u32,
    pub scope: u32,
}

impl Addr {
    pub fn of(a: &SocketAddr) -> Addr {
        let mut r = Addr { v6: false, ip: [0; 16], port: a.port(), flow: 0, scope: 0 };
        match a {
            SocketAddr::V4(a) => r.ip[..4].copy_from_slice(&a.ip().octets()),
            SocketAddr::V6(a) => {
                r.v6 = true;
                r.ip = a.ip().octets();
                r.flow = a.flowinfo();
                r.scope = a.scope_id();
            }
        }
        r
    }
    pub fn v4(ip: [u8; 4], port: u16) -> Addr {
        Addr::of(&SocketAddr::new(IpAddr::from(ip), port))
    }
    pub fn same(&self, o: &Addr) -> bool {
        (self.v6 == o.v6) & (self.port == o.port) & (self.flow == o.flow) & (self.scope == o.scope) & eq_bytes(&self.ip, &o.ip)
    }
    unsafe fn read(p: *const u8, n: u32) -> Addr {
        let b = core::slice::from_raw_parts(p, n as usize);
        let fam = u16::from_ne_bytes([b[0], b[1]]);
        let mut r = Addr { v6: fam == 10, ip: [0; 16], port: u16::from_be_bytes([b[2], b[3]]), flow: 0, scope: 0 };
        if r.v6 {
            r.flow = u32::from_ne_bytes([b[4], b[5], b[6], b[7]]);
            r.ip.copy_from_slice(&b[8..24]);
            r.scope = u32::from_ne_bytes([b[24], b[25], b[26], b[27]]);
        } else {
            check(fam == 2, "an address is IPv4 or IPv6");
            r.ip[..4].copy_from_slice(&b[4..8]);
        }
        r
    }
    unsafe fn write(&self, p: *mut u8, n: *mut u32) {
        let mut b = vec![];
        b.extend_from_slice(&(if self.v6 { 10u16 } else { 2 }).to_ne_bytes());
        b.extend_from_slice(&self.port.to_be_bytes());
        if self.v6 {
            b.extend_from_slice(&self.flow.to_ne_bytes());
            b.extend_from_slice(&self.ip);
            b.extend_from_slice(&self.scope.to_ne_bytes());
        } else {
            b.extend_from_slice(&self.ip[..4]);
            b.extend_from_slice(&[0; 8]);
        }
        core::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len());
        *n = b.len() as u32;
    }
}

#[derive(Clone)]
pub enum Ev {
    /// A datagram arrives.
    Data(Vec<u8>, Addr),
    /// Nothing arrives before the receive times out.
    Quiet,
    /// The receive fails.
    Fail(i32),
}

/// Something that happens during a receive, which takes `dt` (seconds, nanoseconds).
#[derive(Clone)]
pub struct Step {
    pub ev: Ev,
    pub dt: (u64, u32),
    /// polls of a future that find nothing before this happens
    pub pend: u8,
}

pub fn data(m: Vec<u8>, from: Addr) -> Step {
    Step { ev: Ev::Data(m, from), dt: (0, 1000), pend: 0 }
}
pub fn quiet() -> Step {
    Step { ev: Ev::Quiet, dt: (0, 500_000_000), pend: 0 }
}
pub fn fail(e: i32) -> Step {
    Step { ev: Ev::Fail(e), dt: (0, 0), pend: 0 }
}

/// An error of a socket; further ones in the same run are different.
pub fn error() -> i32 {
    const ALL: [i32; 6] = [EIO, ECONNREFUSED, 101, EINTR, 1, 12];
    static mut BASE: Option<usize> = None;
    unsafe {
        #[allow(static_mut_refs)]
        let b = match BASE {
            None => choose(6),
            Some(b) => (b + 1) % 6,
        };
        BASE = Some(b);
        ALL[b]
    }
}

pub struct Sent {
    pub sock: usize,
    pub to: Addr,
    pub msg: Vec<u8>,
    /// receives that were finished before
    pub after: usize,
}

pub struct Sock {
    pub v6: bool,
    pub bound: Option<Addr>,
    pub reuse: bool,
    /// IPv4 groups that were joined
    pub groups: Vec<[u8; 4]>,
    /// receive timeout (seconds, microseconds), (0, 0) for none
    pub timeout: (u64, u64),
    pub open: bool,
    pub connected: Option<Addr>,
    /// options as they were set
    pub options: Vec<(i32, i32, Vec<u8>)>,
}

pub struct Net {
    pub socks: Vec<Sock>,
    pub script: Vec<Step>,
    pub at: usize,
    pub sent: Vec<Sent>,
    /// errors of the next sends, 0 for success
    pub send_errors: Vec<i32>,
    pub now: (u64, u32),
    /// for each receive that was finished: the timeout it ran with (µs)
    pub waits: Vec<u64>,
    /// clock at the start of each receive
    pub starts: Vec<(u64, u32)>,
    /// answers datagrams as they are sent
    pub peer: Option<Box<dyn FnMut(&[u8], Addr) -> Option<Step>>>,
    /// receives that were made after the script had ended
    pub beyond: usize,
    /// futures are polled so late that timers have run out when a datagram is found
    pub late: bool,
    timer_polled: bool,
    fired: bool,
    /// the steps (numbered by what is taken) of setting sockets up that fail, and how
    pub broken: Option<(usize, i32)>,
    pub steps: usize,
    /// a step has failed
    pub broke: bool,
}

const FD: i32 = 100;
static mut NET: Option<Net> = None;

#[allow(static_mut_refs)]
pub fn net() -> &'static mut Net {
    unsafe {
        if NET.is_none() {
            NET = Some(Net::new(vec![]));
        }
        NET.as_mut().unwrap()
    }
}

/// Starts afresh with a script.  Behind its end every receive stays without data and takes an hour.
pub fn script(s: Vec<Step>) {
    unsafe {
        NET = Some(Net::new(s));
    }
}

impl Net {
    fn new(script: Vec<Step>) -> Net {
        Net {
            socks: vec![],
            script,
            at: 0,
            sent: vec![],
            send_errors: vec![],
            now: (1000, 500_000_000),
            waits: vec![],
            starts: vec![],
            peer: None,
            beyond: 0,
            late: false,
            timer_polled: false,
            fired: false,
            broken: None,
            steps: 0,
            broke: false,
        }
    }
    fn sock(&mut self, fd: i32) -> &mut Sock {
        let i = (fd - FD) as usize;
        check(i < self.socks.len() && self.socks[i].open, "only open sockets are used");
        &mut self.socks[i]
    }
    /// Whether the next step of setting a socket up fails.
    fn breaks(&mut self) -> Option<i32> {
        self.steps += 1;
        match self.broken {
            Some((k, e)) if k + 1 == self.steps => {
                self.broke = true;
                Some(e)
            }
            _ => None,
        }
    }
    fn head(&self) -> Step {
        if self.at < self.script.len() {
            self.script[self.at].clone()
        } else {
            Step { ev: Ev::Quiet, dt: (3600, 0), pend: 0 }
        }
    }
    fn step(&mut self, wait: u64) -> Step {
        let s = self.head();
        if self.at >= self.script.len() {
            self.beyond += 1;
            check(self.beyond < 4, "the loop ends some time after the last datagram");
        }
        self.fired = false;
        self.at += 1;
        self.waits.push(wait);
        self.starts.push(self.now);
        self.now.0 += s.dt.0;
        self.now.1 += s.dt.1;
        if self.now.1 >= 1_000_000_000 {
            self.now.1 -= 1_000_000_000;
            self.now.0 += 1;
        }
        s
    }
}

fn errno(e: i32) -> isize {
    extern "C" {
        fn __errno_location() -> *mut i32;
    }
    unsafe { *__errno_location() = e };
    -1
}

#[no_mangle]
unsafe extern "C" fn socket(family: i32, ty: i32, _proto: i32) -> i32 {
    check(family == 2 || family == 10, "socket family is IPv4 or IPv6");
    check(ty & 0xff == 2, "sockets are datagram sockets");
    let n = net();
    if let Some(e) = n.breaks() {
        return errno(e) as i32;
    }
    n.socks.push(Sock { v6: family == 10, bound: None, reuse: false, groups: vec![], timeout: (0, 0), open: true, connected: None, options: vec![] });
    FD + n.socks.len() as i32 - 1
}
#[no_mangle]
unsafe extern "C" fn bind(fd: i32, a: *const u8, len: u32) -> i32 {
    let a = Addr::read(a, len);
    if let Some(e) = net().breaks() {
        return errno(e) as i32;
    }
    let s = net().sock(fd);
    check(s.v6 == a.v6, "a socket is bound to an address of its family");
    s.bound = Some(a);
    0
}
#[no_mangle]
unsafe extern "C" fn close(fd: i32) -> i32 {
    net().sock(fd).open = false;
    0
}
#[no_mangle]
unsafe extern "C" fn fcntl(fd: i32, _cmd: i32, _arg: usize) -> i32 {
    if fd >= FD {
        net().sock(fd);
    }
    0
}
#[no_mangle]
unsafe extern "C" fn ioctl(_fd: i32, _req: usize, _arg: usize) -> i32 {
    0
}
#[no_mangle]
unsafe extern "C" fn setsockopt(fd: i32, level: i32, name: i32, v: *const u8, n: u32) -> i32 {
    if let Some(e) = net().breaks() {
        return errno(e) as i32;
    }
    let s = net().sock(fd);
    let v = core::slice::from_raw_parts(v, n as usize);
    s.options.retain(|o| (o.0, o.1) != (level, name));
    s.options.push((level, name, v.to_vec()));
    if level == 1 && name == 20 {
        let mut q = [0u8; 8];
        q.copy_from_slice(&v[..8]);
        let sec = u64::from_ne_bytes(q);
        q.copy_from_slice(&v[8..16]);
        s.timeout = (sec, u64::from_ne_bytes(q));
    } else if level == 1 && name == 2 {
        s.reuse = v[0] != 0;
    } else if level == 0 && name == 35 {
        s.groups.push([v[0], v[1], v[2], v[3]]);
    }
    0
}
#[no_mangle]
unsafe extern "C" fn getsockopt(fd: i32, level: i32, name: i32, p: *mut u8, n: *mut u32) -> i32 {
    let s = net().sock(fd);
    let mut v = vec![0; *n as usize];
    let int = match (level, name) {
        (1, 3) => 2,
        (1, 38) => 17,
        (1, 39) => if s.v6 { 10 } else { 2 },
        (1, 7) | (1, 8) => 212992,
        (0, 2) => 64,
        (0, 33) | (0, 34) | (0, 49) | (41, 18) | (41, 19) => 1,
        _ => 0i32,
    };
    let mut i = int.to_ne_bytes().to_vec();
    for o in &s.options {
        if (o.0, o.1) == (level, name) {
            i = o.2.clone();
        }
    }
    let k = if i.len() < v.len() { i.len() } else { v.len() };
    v[..k].copy_from_slice(&i[..k]);
    core::ptr::copy_nonoverlapping(v.as_ptr(), p, v.len());
    0
}
#[no_mangle]
unsafe extern "C" fn getsockname(fd: i32, a: *mut u8, n: *mut u32) -> i32 {
    let s = net().sock(fd);
    let mut r = match s.bound {
        Some(b) => b,
        None if s.v6 => Addr::of(&SocketAddr::new(IpAddr::from([0u8; 16]), 0)),
        None => Addr::v4([0; 4], 0),
    };
    if r.port == 0 && (s.bound.is_some() || s.connected.is_some()) {
        r.port = 40000 + fd as u16;
    }
    r.write(a, n);
    0
}
#[no_mangle]
unsafe extern "C" fn getpeername(fd: i32, a: *mut u8, n: *mut u32) -> i32 {
    match net().sock(fd).connected {
        Some(r) => {
            r.write(a, n);
            0
        }
        None => errno(107) as i32,
    }
}
#[no_mangle]
unsafe extern "C" fn connect(fd: i32, a: *const u8, len: u32) -> i32 {
    let a = Addr::read(a, len);
    if let Some(e) = net().breaks() {
        return errno(e) as i32;
    }
    net().sock(fd).connected = Some(a);
    0
}
#[no_mangle]
unsafe extern "C" fn send(fd: i32, p: *const u8, n: usize, flags: i32) -> isize {
    match net().sock(fd).connected {
        None => errno(89),
        Some(a) => {
            let mut b = [0u8; 28];
            let mut k = 0;
            a.write(b.as_mut_ptr(), &mut k);
            sendto(fd, p, n, flags, b.as_ptr(), k)
        }
    }
}
#[no_mangle]
unsafe extern "C" fn sendto(fd: i32, p: *const u8, n: usize, _flags: i32, a: *const u8, len: u32) -> isize {
    let to = if a.is_null() {
        match net().sock(fd).connected {
            Some(c) => c,
            None => return errno(89),
        }
    } else {
        Addr::read(a, len)
    };
    let msg = core::slice::from_raw_parts(p, n).to_vec();
    let net = net();
    let s = net.sock(fd);
    check(s.v6 == to.v6, "the socket has the family of the address it sends to");
    if !net.send_errors.is_empty() {
        let e = net.send_errors.remove(0);
        if e != 0 {
            return errno(e);
        }
    }
    if let Some(mut f) = net.peer.take() {
        if let Some(s) = f(&msg, to) {
            net.script.push(s);
        }
        net.peer = Some(f);
    }
    let after = net.waits.len();
    net.sent.push(Sent { sock: (fd - FD) as usize, to, msg, after });
    n as isize
}
#[no_mangle]
unsafe extern "C" fn recvfrom(fd: i32, p: *mut u8, n: usize, flags: i32, a: *mut u8, len: *mut u32) -> isize {
    let net = net();
    let t = net.sock(fd).timeout;
    if let Some(c) = net.sock(fd).connected {
        // a connected socket is given what its peer sends only
        while let Ev::Data(_, from) = net.head().ev {
            if from.same(&c) {
                break;
            }
            net.at += 1;
        }
    }
    // MSG_PEEK leaves what arrives (and the time until then) to the next receive
    let s = if flags & 2 != 0 && !matches!(net.head().ev, Ev::Quiet) { net.head() } else { net.step(t.0 * 1_000_000 + t.1) };
    match s.ev {
        Ev::Quiet => errno(EAGAIN),
        Ev::Fail(e) => errno(e),
        Ev::Data(m, from) => {
            let k = if m.len() < n { m.len() } else { n };
            core::ptr::copy_nonoverlapping(m.as_ptr(), p, k);
            if !a.is_null() {
                from.write(a, len);
            }
            k as isize
        }
    }
}
#[no_mangle]
unsafe extern "C" fn recv(fd: i32, p: *mut u8, n: usize, flags: i32) -> isize {
    recvfrom(fd, p, n, flags, core::ptr::null_mut(), core::ptr::null_mut())
}
#[no_mangle]
unsafe extern "C" fn clock_gettime(_c: i32, t: *mut u64) -> i32 {
    let n = net();
    *t = n.now.0;
    *t.add(1) = n.now.1 as u64;
    0
}

// What the model of async-io asks for.

/// 0: nothing yet, 1: the socket can be read, 2: the timer fires first.
#[no_mangle]
extern "C" fn model_ready() -> u8 {
    let h = net().head();
    if h.pend > 0 {
        return 0;
    }
    match h.ev {
        Ev::Quiet => 2,
        _ => 1,
    }
}
/// Whether a timer that is polled now has run out.
#[no_mangle]
extern "C" fn model_timer() -> bool {
    let n = net();
    n.timer_polled = true;
    n.fired || model_ready() == 2
}
/// A receive that is limited by a timer of this many µs.
#[no_mangle]
extern "C" fn model_limit(us: u64) {
    for s in &mut net().socks {
        s.timeout = (us / 1_000_000, us % 1_000_000);
    }
}
#[no_mangle]
extern "C" fn model_fire() {
    let t = net().socks.last().map_or((0, 0), |s| s.timeout);
    if net().fired {
        // the datagram stays
        net().fired = false;
        net().waits.push(t.0 * 1_000_000 + t.1);
        return;
    }
    net().step(t.0 * 1_000_000 + t.1);
}

/// Polls a future `n` times at most; it is dropped when that does not end it.
pub fn run_some<F: Future>(f: F, n: usize) -> Option<F::Output> {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..n {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return Some(r);
        }
        let n = net();
        let at = n.at;
        if at < n.script.len() && n.script[at].pend > 0 {
            n.script[at].pend -= 1;
        }
    }
    None
}

/// Polls a future to its end; every poll that finds nothing counts against the next event.
pub fn run<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    let mut idle = 0;
    loop {
        net().timer_polled = false;
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
        let n = net();
        let at = n.at;
        if at < n.script.len() && n.script[at].pend > 0 {
            n.script[at].pend -= 1;
            n.fired = n.late && n.timer_polled && n.script[at].pend == 0 && !matches!(n.script[at].ev, Ev::Quiet);
            idle = 0;
        } else {
            idle += 1;
            check(idle < 3, "a future with nothing to wait for goes on");
        }
    }
}
