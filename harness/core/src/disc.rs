//! Service discovery, against a reference that works on the received bytes and the script of events.
use crate::adv::{labels, name_of, put16, wire, Labels};
use crate::net::*;
use crate::res::{header, record};
use crate::rt::*;
use crate::spec;
use std::io;
use std::net::{IpAddr, SocketAddr};
use std::ops::ControlFlow;
use std::time::Duration;
use uwuhi::name::Label;
use uwuhi::service::discovery::{encode_query, SyncDiscoverer};
use uwuhi::service::*;

pub fn group() -> SocketAddr {
    SocketAddr::new(IpAddr::from([224, 0, 0, 251]), 5353)
}
pub fn peer() -> Addr {
    Addr::v4([10, 0, 0, 7], 5353)
}

/// An instance, or a service type (no instance name).
#[derive(Clone)]
pub struct Item {
    pub inst: Option<Vec<u8>>,
    pub svc: Vec<u8>,
    pub tcp: bool,
}

impl Item {
    fn same(&self, o: &Item) -> bool {
        let i = match (&self.inst, &o.inst) {
            (None, None) => true,
            (Some(a), Some(b)) => eq_bytes(a, b),
            _ => false,
        };
        i & eq_bytes(&self.svc, &o.svc) & (self.tcp == o.tcp)
    }
    pub fn of_instance(i: &ServiceInstance) -> Item {
        Item {
            inst: Some(i.instance_name().as_bytes().to_vec()),
            svc: i.service_name().as_bytes().to_vec(),
            tcp: i.service_transport() == ServiceTransport::TCP,
        }
    }
    pub fn of_type(s: &Service) -> Item {
        Item { inst: None, svc: s.name().as_bytes().to_vec(), tcp: s.transport() == ServiceTransport::TCP }
    }
}

/// A record of the answer section of a received datagram whose data can be decoded.
pub struct Rec {
    pub ty: u16,
    pub at: usize,
    pub end: usize,
}

/// The decodable records that a datagram brings.
pub fn records(m: &[u8]) -> Vec<Rec> {
    let mut out = vec![];
    let m = if m.len() > 1500 { &m[..1500] } else { m };
    if m.len() < 12 {
        reach("no header");
        return out;
    }
    if m[2] & 0x80 == 0 {
        reach("not a response");
        return out;
    }
    let n = |p: usize| (m[p] as usize) << 8 | m[p + 1] as usize;
    let mut p = 12;
    for _ in 0..n(4) {
        match spec::question(m, p) {
            Ok(q) => p = q.next,
            Err(_) => {
                reach("malformed question");
                return out;
            }
        }
    }
    for _ in 0..n(6) {
        let rr = match spec::rr(m, p) {
            Ok(r) => r,
            Err(_) => {
                reach("malformed answer");
                return out;
            }
        };
        p = rr.next;
        let d = spec::rdata(m, &rr);
        // whether data with bytes left over can be decoded is left open
        assume(d != spec::Data::Left);
        match d {
            spec::Data::Good => out.push(Rec { ty: rr.ty, at: rr.rdata, end: rr.rdata + rr.rdlen }),
            spec::Data::Bad => reach("malformed data"),
            _ => reach("other record"),
        }
    }
    out
}

/// The labels of a name in a message.
pub fn labels_at(m: &[u8], p: usize, end: usize) -> Labels {
    let mut l = vec![];
    if let Ok(n) = spec::name(m, end, p) {
        for i in 0..n.n {
            l.push(m[n.l[i].0..n.l[i].0 + n.l[i].1].to_vec());
        }
    }
    l
}

/// What a pointer record names.
fn item(l: &Labels, instances: bool) -> Option<Item> {
    let k = instances as usize;
    if l.len() < 3 + k {
        reach("too few labels");
        return None;
    }
    let t = &l[1 + k];
    let tcp = eq_bytes(t, b"_tcp");
    if !tcp && !eq_bytes(t, b"_udp") {
        reach("unknown transport");
        return None;
    }
    Some(Item { inst: if instances { Some(l[0].clone()) } else { None }, svc: l[k].clone(), tcp })
}

/// How a call ended.
#[derive(Clone, Copy, PartialEq)]
pub enum End {
    Done,
    TimedOut,
    Os(i32),
    Other,
}

pub fn end(r: &io::Result<()>) -> End {
    match r {
        Ok(()) => End::Done,
        Err(e) => match e.raw_os_error() {
            Some(n) => End::Os(n),
            None if e.kind() == io::ErrorKind::TimedOut => End::TimedOut,
            None => End::Other,
        },
    }
}

pub fn nanos(t: (u64, u32)) -> u64 {
    t.0 * 1_000_000_000 + t.1 as u64
}

pub const TIMEOUT: u64 = 1_000_000_000;

/// What must come of a script, from position `at` on.  `f` is given each datagram that arrives and
/// tells whether to stop.
pub struct Want {
    pub end: End,
    pub receives: usize,
    pub quiet: usize,
    /// the last receive was quiet and the time was over after it
    pub last_quiet: bool,
}

pub fn expect(at: usize, timeout: u64, mut f: impl FnMut(&[u8]) -> bool) -> Want {
    let mut w = Want { end: End::Done, receives: 0, quiet: 0, last_quiet: false };
    let mut t = 0u64;
    loop {
        // what happens exactly at the timeout is left open
        assume(t != timeout);
        if t >= timeout {
            return w;
        }
        let k = at + w.receives;
        let s = if k < net().script.len() { net().script[k].clone() } else { Step { ev: Ev::Quiet, dt: (3600, 0), pend: 0 } };
        w.receives += 1;
        t += nanos(s.dt);
        w.last_quiet = false;
        match s.ev {
            Ev::Data(m, _) => {
                // a datagram that comes too late may be reported or not; not explored here
                assume(t < timeout);
                if f(&m) {
                    reach("stopped");
                    return w;
                }
            }
            Ev::Quiet => {
                w.quiet += 1;
                w.last_quiet = true;
                reach("quiet");
            }
            Ev::Fail(e) => {
                w.end = End::Os(e);
                reach("socket error");
                return w;
            }
        }
    }
}

pub fn ended(w: &Want, got: End, at: usize) {
    let n = net();
    check(got == w.end, "how the call ends");
    check(n.at - at == w.receives, "the call ends in time, but not earlier");
    // whether the query is sent once more when the time is over is left open
    let s = n.sent.len();
    check(s == 1 + w.quiet || (w.last_quiet && s == w.quiet), "the query is sent once and again after each receive timeout");
    for x in &n.sent {
        check(x.to.same(&Addr::of(&group())), "the query goes to the server");
        check_bytes(&x.msg, &n.sent[0].msg, "the same query is repeated");
    }
}

pub fn new() -> SyncDiscoverer {
    match SyncDiscoverer::new_multicast_v4() {
        Ok(d) => d,
        Err(_) => {
            check(false, "a discoverer can be made");
            loop {}
        }
    }
}

fn service() -> Service {
    Service::new(Label::new("_s"), ServiceTransport::TCP)
}

/// Browses, with a callback that stops at its `stop`th call, and checks everything.
fn browse(d: &mut SyncDiscoverer, instances: bool, stop: usize, timeout: u64) {
    let at = net().at;
    net().sent.clear();
    let mut got: Vec<Item> = vec![];
    let flow = |n: usize| if n == stop { ControlFlow::Break(()) } else { ControlFlow::Continue(()) };
    let r = if instances {
        d.discover_instances(&service(), |i| {
            got.push(Item::of_instance(i));
            flow(got.len())
        })
    } else {
        d.discover_service_types(|s| {
            got.push(Item::of_type(s));
            flow(got.len())
        })
    };
    let mut want: Vec<Item> = vec![];
    let w = expect(at, timeout, |m| {
        for r in records(m) {
            if r.ty != 12 {
                reach("no pointer");
                continue;
            }
            if let Some(i) = item(&labels_at(m, r.at, r.end), instances) {
                let mut known = false;
                for x in &want {
                    known |= x.same(&i);
                }
                if known {
                    reach("known already");
                    continue;
                }
                want.push(i);
                reach("found");
                if want.len() == stop {
                    return true;
                }
            }
        }
        false
    });
    check(got.len() == want.len(), "number of callbacks");
    for (a, b) in got.iter().zip(&want) {
        check(a.same(b), "reported item");
    }
    ended(&w, end(&r), at);
}

fn pointer(m: &mut Vec<u8>, l: &Labels) {
    record(m, &[0], 12, 1, 120, &wire(l));
}
fn some_labels(lens: &[usize]) -> Labels {
    lens.iter()
        .map(|&n| {
            let mut b = [0u8; 63];
            fill(&mut b[..n]);
            b[..n].to_vec()
        })
        .collect()
}
/// A domain as long as can be behind an instance's or service type's labels.
pub fn long_domain(svc: usize) -> Labels {
    let c = u8_();
    // 255 octets with the root and the longest prefix, `_services._dns-sd._udp` or the service's own labels
    let mut left = 254 - (svc + 1 + 5).max(23);
    let mut l = vec![];
    while left > 1 {
        let n = (left - 1).min(63);
        l.push(vec![c; n]);
        left -= n + 1;
    }
    l
}

/// A pointer to `NAME._s._tcp.local` or `_NAME._tcp.local`.
fn simple(instances: bool, c: u8) -> Labels {
    if instances {
        labels(&[&[c], b"_s", b"_tcp", b"local"])
    } else {
        labels(&[&[b'_', c], b"_tcp", b"local"])
    }
}

/// One of several names that read alike, or have the same bytes one after the other, and differ in their labels.
pub fn alike() -> Labels {
    let c = u8_();
    let k = choose(6);
    let text: &[u8] = match k {
        0 => &[c, b'.', b'_', b'y', b'.', b'_', b'z'],
        1 => &[b'x', b'.', b'_', b'y', b'.', b'_', c],
        2 => &[b'x', b'_', c, b'_', b'z'],
        3 => &[b'x', b'_', b'y', b'_', c],
        4 => &[c, b'_', b'_', b'z'],
        _ => b"x__z",
    };
    let cut = [1, 4, 1, 3, 1, 2][k];
    let tail = &text[cut + (k < 2) as usize..];
    labels(&[&text[..cut], tail, if choose(2) == 1 { b"_udp" } else { b"_tcp" }, b"local"])
}

harness! {
    /// Pointers to names of all forms.
    fn br_instances() {
        let shapes: [&[usize]; 9] = [&[], &[4], &[4, 4, 4], &[1, 2, 4, 1], &[2, 3, 4, 5], &[1, 4, 4, 4, 1], &[63, 16, 4, 1], &[1, 1, 3, 1], &[1, 1, 5, 1]];
        let mut m = header(0, 0x8400, 0, 1);
        pointer(&mut m, &some_labels(shapes[choose(9)]));
        script(vec![data(m, peer())]);
        browse(&mut new(), true, 99, TIMEOUT);
    }

    fn br_types() {
        let shapes: [&[usize]; 8] = [&[], &[4], &[4, 4], &[2, 4, 1], &[3, 4, 5], &[4, 4, 4, 1], &[63, 4, 1], &[1, 5, 1]];
        let mut m = header(0, 0x8400, 0, 1);
        pointer(&mut m, &some_labels(shapes[choose(8)]));
        script(vec![data(m, peer())]);
        browse(&mut new(), false, 99, TIMEOUT);
    }

    /// Items that repeat, within a response and among responses, with a callback that may stop.
    fn br_repeat() {
        let inst = choose(2) == 1;
        let mut s = vec![];
        let mut n = 0;
        while n < 4 {
            let k = 1 + choose(3);
            let mut m = header(0, 0x8400, 0, k as u16);
            for _ in 0..k {
                pointer(&mut m, &simple(inst, u8_()));
            }
            n += k;
            s.push(data(m, peer()));
        }
        script(s);
        browse(&mut new(), inst, 1 + choose(4), TIMEOUT);
    }

    /// Instances that differ in one part only.
    fn br_distinct() {
        let mut m = header(0, 0x8400, 0, 2);
        for _ in 0..2 {
            let mut l = labels(&[&[u8_(), u8_()], &[b'_', u8_()], b"_tcp", b"local"]);
            if choose(2) == 1 {
                l[2] = b"_udp".to_vec();
            }
            if choose(2) == 1 {
                l[3] = b"else".to_vec();
            }
            pointer(&mut m, &l);
        }
        script(vec![data(m, peer())]);
        browse(&mut new(), true, 99, TIMEOUT);
    }

    /// Names that read alike, or have the same bytes one after the other, and differ in their labels.
    fn br_alike() {
        let mut m = header(0, 0x8400, 0, 2);
        for _ in 0..2 {
            let l = alike();
            pointer(&mut m, &l);
        }
        script(vec![data(m, peer())]);
        browse(&mut new(), true, 99, TIMEOUT);
    }

    /// Any header.
    fn br_header() {
        let inst = choose(2) == 1;
        let mut m = header(u16_(), u16_(), choose(2) as u16, choose(3) as u16);
        if m[5] == 1 {
            m.extend(wire(&labels(&[b"_s", b"_tcp", b"local"])));
            put16(&mut m, 12);
            put16(&mut m, 1);
        }
        for _ in 0..m[7] {
            pointer(&mut m, &simple(inst, u8_()));
        }
        script(vec![data(m, peer())]);
        browse(&mut new(), inst, 99, TIMEOUT);
    }

    /// Other and malformed records between pointers.
    fn br_mixed() {
        let inst = choose(2) == 1;
        let mut m = header(0, 0x8400, 0, 3);
        pointer(&mut m, &simple(inst, b'x'));
        let ty = [1, 2, 5, 6, 12, 15, 16, 28, 33, 99][choose(10)];
        let b = bytes::<3>();
        record(&mut m, &[0], ty, u16_(), u32_(), &b[..choose(4)]);
        pointer(&mut m, &simple(inst, u8_()));
        script(vec![data(m, peer())]);
        browse(&mut new(), inst, 99, TIMEOUT);
    }

    /// Pointers that other types of record look like.
    fn br_type() {
        let mut m = header(0, 0x8400, 0, 1);
        let ty = u16_();
        assume((ty == 2) | (ty == 5) | (ty == 12) | (ty == 3) | (ty > 255));
        record(&mut m, &[0], ty, u16_(), u32_(), &wire(&simple(true, b'x')));
        script(vec![data(m, peer())]);
        browse(&mut new(), true, 99, TIMEOUT);
    }

    /// A response cut anywhere, and one behind it.
    fn br_cut() {
        let inst = choose(2) == 1;
        let mut m = header(0, 0x8400, 1, 2);
        m.extend(wire(&labels(&[b"_s", b"_tcp", b"local"])));
        put16(&mut m, 12);
        put16(&mut m, 1);
        let (a, b) = (u8_(), u8_());
        // compressed: the domain is that of the question
        let l: Vec<u8> = if inst { vec![1, a, 0xc0, 12] } else { vec![2, b'_', a, 0xc0, 15] };
        record(&mut m, &[0xc0, 12], 12, 1, 120, &l);
        pointer(&mut m, &simple(inst, b));
        let n = choose(m.len() + 1);
        m.truncate(n);
        let mut g = header(0, 0x8400, 0, 1);
        pointer(&mut g, &simple(inst, b'z'));
        script(vec![data(m, peer()), data(g, peer())]);
        browse(&mut new(), inst, 99, TIMEOUT);
    }

    /// Any bytes as data of a pointer.
    fn br_any() {
        let mut m = header(0, 0x8400, 0, 2);
        let b = bytes::<4>();
        let n = choose(5);
        record(&mut m, &[0], 12, 1, 120, &b[..n]);
        pointer(&mut m, &simple(true, b'z'));
        script(vec![data(m, peer())]);
        browse(&mut new(), true, 99, TIMEOUT);
    }

    /// Responses up to and beyond the size of the receive buffer.
    fn br_big() {
        let n = [1499, 1500, 1501, 3000][choose(4)];
        let mut m = header(0, 0x8400, 0, 2);
        pointer(&mut m, &simple(true, u8_()));
        let l = simple(true, b'q');
        let rest = n - m.len() - 11;
        if choose(2) == 1 {
            record(&mut m, &[0], 99, 1, 1, &vec![0; rest]);
        } else {
            let pad = rest - wire(&l).len() - 11;
            record(&mut m, &[0], 99, 1, 1, &vec![0; pad]);
            pointer(&mut m, &l);
            m[7] = 3;
        }
        script(vec![data(m, peer())]);
        browse(&mut new(), true, 99, TIMEOUT);
    }

    /// Sequences of datagrams, timeouts and errors.
    fn br_sequence() {
        let inst = choose(2) == 1;
        let mut s = vec![];
        for i in 0..4 {
            let mut m = header(0, 0x8400, 0, 1);
            pointer(&mut m, &simple(inst, if i == 0 { b'a' } else { u8_() }));
            s.push(match choose(5) {
                0 => Step { ev: Ev::Quiet, dt: (0, 300_000_000), pend: 0 },
                1 => fail(error()),
                2 => data(m, Addr::v4(bytes::<4>(), u16_())),
                3 => {
                    m.truncate(20);
                    data(m, peer())
                }
                _ => {
                    m[2] = 0;
                    data(m, peer())
                }
            });
        }
        script(s);
        browse(&mut new(), inst, 1 + choose(3), TIMEOUT);
    }

    /// What is received is logged, which makes no difference.
    fn br_logged() {
        crate::tap::logged();
        let inst = choose(2) == 1;
        let mut s = vec![];
        for _ in 0..2 {
            s.push(data(crate::tap::response(choose(crate::tap::RESPONSES)), peer()));
        }
        let mut m = header(0, 0x8400, 0, 1);
        pointer(&mut m, &simple(inst, b'x'));
        s.push(data(m, peer()));
        script(s);
        browse(&mut new(), inst, 9, TIMEOUT);
    }

    /// Receives of any duration, and any discovery timeout.
    fn br_clock() {
        let mut s = vec![];
        let odd = choose(3);
        for k in 0..3 {
            let mut m = header(0, 0x8400, 0, 1);
            pointer(&mut m, &simple(true, k));
            let ns = if odd == k as usize { u32_() } else { [0, 400_000_000, 999_999_999][choose(3)] };
            assume(ns < 1_000_000_000);
            let sec = if odd == k as usize { choose(2) as u64 } else { 0 };
            s.push(Step { ev: if choose(2) == 0 { Ev::Quiet } else { Ev::Data(m, peer()) }, dt: (sec, ns), pend: 0 });
        }
        script(s);
        net().now.1 = [0, 700_000_000][choose(2)];
        let mut d = new();
        let t = [1, TIMEOUT, 300_000_000, 2_000_000_001][choose(4)];
        check(d.set_discovery_timeout(Duration::from_nanos(t)).is_ok(), "a timeout can be set");
        browse(&mut d, true, 99, t);
    }

    /// A callback that stops: nothing is received or reported any more.
    fn br_stop() {
        let inst = choose(2) == 1;
        let mut s = vec![];
        for k in 0..3u8 {
            let mut m = header(0, 0x8400, 0, 3);
            pointer(&mut m, &simple(inst, k * 2));
            record(&mut m, &[0], 16, 1, 120, &[0]);
            pointer(&mut m, &simple(inst, k * 2 + 1));
            s.push(data(m, peer()));
        }
        script(s);
        browse(&mut new(), inst, choose(8), TIMEOUT);
    }

    /// A callback that stops at a response of any size.
    fn br_stop_big() {
        let inst = choose(2) == 1;
        let mut m = header(0, 0x8400, 0, 3);
        pointer(&mut m, &simple(inst, u8_()));
        let n = [20, 100, 180, 200, 230, 430, 470, 700, 1000, 1300, 1400][choose(11)];
        record(&mut m, &[0], 99, 1, 1, &vec![0; n]);
        pointer(&mut m, &simple(inst, u8_()));
        let mut g = header(0, 0x8400, 0, 1);
        pointer(&mut g, &simple(inst, u8_()));
        script(vec![data(m, peer()), data(g, peer())]);
        browse(&mut new(), inst, 1 + choose(3), TIMEOUT);
    }

    /// Many receives that stay quiet, before a response.
    fn br_long() {
        let inst = choose(2) == 1;
        let k = [3, 4, 5, 8, 9, 17, 33, 48][choose(8)];
        let mut s = vec![];
        for _ in 0..k {
            s.push(Step { ev: Ev::Quiet, dt: (0, 20_000_000), pend: 0 });
        }
        let mut m = header(0, 0x8400, 0, 1);
        pointer(&mut m, &simple(inst, u8_()));
        s.push(data(m, peer()));
        script(s);
        let mut d = new();
        check(d.set_retransmit_timeout(Duration::from_millis(20)).is_ok(), "a timeout can be set");
        browse(&mut d, inst, 99, TIMEOUT);
    }

    /// Many responses, and many items in one.
    fn br_many() {
        let inst = choose(2) == 1;
        let k = [9u8, 17, 33, 48, 101][choose(5)];
        let mut s = vec![];
        let mut m = header(0, 0x8400, 0, 0);
        let one = k < 50 && choose(2) == 1;
        for i in 0..k {
            pointer(&mut m, &simple(inst, if i == k - 1 { u8_() } else { i }));
            m[7] += 1;
            if !one {
                s.push(data(m, peer()));
                m = header(0, 0x8400, 0, 0);
            }
        }
        s.push(data(m, peer()));
        script(s);
        browse(&mut new(), inst, [5, 16, 99][choose(3)], TIMEOUT);
    }

    /// A query that cannot be sent, at first or later.
    fn br_send_fails() {
        let inst = choose(2) == 1;
        let k = choose(3);
        let mut m = header(0, 0x8400, 0, 1);
        pointer(&mut m, &simple(inst, b'a'));
        script(vec![Step { ev: Ev::Quiet, dt: (0, 100), pend: 0 }, data(m, peer()), Step { ev: Ev::Quiet, dt: (0, 100), pend: 0 }]);
        net().send_errors = vec![0; k];
        net().send_errors.push(EIO);
        let mut d = new();
        let mut n = 0;
        let cb = |_| { n += 1; ControlFlow::Continue(()) };
        let r = if inst { let mut cb = cb; d.discover_instances(&service(), |_| cb(())) } else { let mut cb = cb; d.discover_service_types(|_| cb(())) };
        check(end(&r) == End::Os(EIO), "a failed send is reported");
        check(n == (k == 2) as i32, "callbacks before the failure");
        check(net().waits.len() == [0, 1, 3][k], "the call ends with the failed send");
        reach("send failed");
    }

    /// Several calls: each reports anew.
    fn br_again() {
        let mut s = vec![];
        for inst in [true, false, true] {
            let mut m = header(0, 0x8400, 0, 1);
            pointer(&mut m, &simple(inst, u8_()));
            s.push(data(m, peer()));
            s.push(Step { ev: Ev::Quiet, dt: (2, 0), pend: 0 });
        }
        script(s);
        let mut d = new();
        browse(&mut d, true, 99, TIMEOUT);
        browse(&mut d, false, 99, TIMEOUT);
        browse(&mut d, true, 99, TIMEOUT);
        reach("three calls");
    }

    /// The retransmit timeout is the one that was set, and 300 ms unless one was set.
    fn br_retransmit() {
        let us: u64 = [300_000, 1, 250_000, 999_999, 1_500_000][choose(5)];
        script(vec![data(vec![], peer()), quiet()]);
        let mut d = match choose(2) {
            0 => new(),
            _ => match SyncDiscoverer::new(group(), name_of(&labels(&[b"local"]))) {
                Ok(d) => d,
                Err(_) => return check(false, "a discoverer can be made"),
            },
        };
        if us == 300_000 {
            reach("default timeout");
        } else {
            check(d.set_retransmit_timeout(Duration::from_micros(us)).is_ok(), "a timeout can be set");
        }
        browse(&mut d, true, 99, TIMEOUT);
        for w in &net().waits {
            check(*w == us, "timeout of a receive");
        }
        reach("timeout set");
    }

    // Queries.

    /// What is asked when browsing.
    fn query_browse() {
        let l = some_labels([&[1, 2][..], &[63, 1], &[5]][choose(3)]);
        let tcp = choose(2) == 1;
        let tl: &[u8] = if tcp { b"_tcp" } else { b"_udp" };
        let mut svc = vec![b'_'];
        svc.extend_from_slice(&l[0][..l[0].len().min(62)]);
        let domain: Labels = match choose(3) {
            0 => vec![],
            1 if l.len() > 1 => vec![l[1].clone(), b"example".to_vec()],
            _ => long_domain(l[0].len() + 1),
        };
        script(vec![]);
        let mut d = match SyncDiscoverer::new(group(), name_of(&domain)) {
            Ok(d) => d,
            Err(_) => return check(false, "a discoverer can be made"),
        };
        let types = choose(2) == 1;
        let r = if types {
            d.discover_service_types(|_| ControlFlow::Continue(()))
        } else {
            let t = if tcp { ServiceTransport::TCP } else { ServiceTransport::Other };
            d.discover_instances(&Service::new(Label::new(&svc), t), |_| ControlFlow::Continue(()))
        };
        check(r.is_ok(), "browsing ends after its timeout");
        let mut n = if types { labels(&[b"_services", b"_dns-sd", b"_udp"]) } else { vec![svc, tl.to_vec()] };
        n.extend(domain);
        check(!net().sent.is_empty(), "a query is sent");
        for s in &net().sent {
            check_bytes(&s.msg, &discovery_query(&n, &[12]), "browsing query");
        }
        reach(if types { "types" } else { "instances" });
    }

    /// What is asked for the details of an instance.
    fn query_details() {
        let l = some_labels([&[1, 2][..], &[63, 1], &[5, 62]][choose(3)]);
        let tcp = choose(2) == 1;
        let tl: &[u8] = if tcp { b"_tcp" } else { b"_udp" };
        let mut svc = vec![b'_'];
        svc.extend_from_slice(&l[1]);
        let t = if tcp { ServiceTransport::TCP } else { ServiceTransport::Other };
        script(vec![]);
        let r = new().load_instance_details(&ServiceInstance::new(Label::new(&l[0]), Label::new(&svc), t));
        check(r.is_err(), "no details without a response");
        let n = vec![l[0].clone(), svc, tl.to_vec(), b"local".to_vec()];
        check(!net().sent.is_empty(), "a query is sent");
        for s in &net().sent {
            let a = eq_bytes(&s.msg, &discovery_query(&n, &[33, 16]));
            let b = eq_bytes(&s.msg, &discovery_query(&n, &[16, 33]));
            check(a | b, "details query");
        }
        reach("details");
    }

    /// The bytes of a discovery query for any types.
    fn query_discovery() {
        let l = if choose(3) == 0 { crate::res::long_name() } else { crate::res::name() };
        let k = choose(4);
        let ty: Vec<u16> = (0..k).map(|_| u16_()).collect();
        let qt: Vec<_> = ty.iter().map(|&t| crate::enc::qtype_(t)).collect();
        let mut buf = [0xaau8; 900];
        let got = encode_query(&mut buf, &name_of(&l), &qt);
        check_bytes(got, &discovery_query(&l, &ty), "discovery query");
        reach("query");
    }
}

pub fn discovery_query(l: &Labels, types: &[u16]) -> Vec<u8> {
    let mut m = header(12345, 0, types.len() as u16, 0);
    for &t in types {
        m.extend(wire(l));
        put16(&mut m, t);
        put16(&mut m, 1);
    }
    m
}
