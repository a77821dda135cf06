//! The async resolver and discoverer against the synchronous ones: both run on the same script, and
//! everything that can be observed is compared.
use crate::adv::{labels, name_of, wire, Labels};
use crate::disc::{alike, group, long_domain, peer, Item};
use crate::det::instance;
use crate::net::*;
use crate::res::{from, QUERY_ID, good, header, long_name, name, record, server};
use crate::rt::*;
use std::io;
use std::net::{IpAddr, SocketAddr};
use std::ops::ControlFlow;
use std::time::Duration;
use uwuhi::name::Label;
use uwuhi::resolver::SyncResolver;
use uwuhi::service::discovery::SyncDiscoverer;
use uwuhi::service::*;
use uwuhi_async::resolver::AsyncResolver;
use uwuhi_async::service::discovery::AsyncDiscoverer;

/// How a call ended; `TimedOut` and `WouldBlock` both stand for a timeout.
#[derive(Clone, Copy, PartialEq)]
enum End {
    Ok,
    Timeout,
    Os(i32),
    Kind(io::ErrorKind),
}

fn end<T>(r: &io::Result<T>) -> End {
    match r {
        Ok(_) => End::Ok,
        Err(e) => match (e.kind(), e.raw_os_error()) {
            (io::ErrorKind::WouldBlock | io::ErrorKind::TimedOut, _) => End::Timeout,
            (_, Some(n)) => End::Os(n),
            (k, None) => End::Kind(k),
        },
    }
}

/// All that can be seen of a run.
struct Seen {
    end: Vec<End>,
    /// what was returned or called back, flattened
    out: Vec<Vec<u8>>,
    sent: Vec<Sent>,
    at: usize,
    /// timeouts of the receives that stayed quiet
    waits: Vec<u64>,
    v6: Vec<bool>,
}

fn seen(end: Vec<End>, out: Vec<Vec<u8>>) -> Seen {
    let n = net();
    let mut waits = vec![];
    for (i, w) in n.waits.iter().enumerate() {
        if i >= n.script.len() || matches!(n.script[i].ev, Ev::Quiet) {
            waits.push(*w);
        }
    }
    Seen { end, out, sent: core::mem::take(&mut n.sent), at: n.at, waits, v6: n.socks.iter().map(|s| s.v6).collect() }
}

fn compare(a: Seen, b: Seen) {
    check(a.end == b.end, "both end in the same way");
    check(a.out.len() == b.out.len(), "both return as many items");
    for (x, y) in a.out.iter().zip(&b.out) {
        check_bytes(y, x, "both return the same");
    }
    check(a.at == b.at, "both receive as often");
    check(a.waits == b.waits, "both wait as long");
    check(a.v6 == b.v6, "both use the same sockets");
    check(a.sent.len() == b.sent.len(), "both send as often");
    for (x, y) in a.sent.iter().zip(&b.sent) {
        check(x.to.same(&y.to), "both send to the same server");
        check_bytes(&y.msg, &x.msg, "both send the same");
        check(x.after == y.after, "both send at the same time");
    }
    for e in &a.end {
        match e {
            End::Ok => reach("success"),
            End::Timeout => reach("timeout"),
            _ => reach("error"),
        }
    }
}

/// A call after one that was given up sends what one of a fresh object sends.
fn compare_sent(x: &[Sent], at: usize, y: &[Sent]) {
    check(x.len() == y.len(), "a call after one given up sends as often");
    for (x, y) in x.iter().zip(y) {
        check(x.to.same(&y.to), "a call after one given up sends to the same server");
        check_bytes(&x.msg, &y.msg, "a call after one given up sends the same");
        check(x.after - at == y.after, "a call after one given up sends at the same time");
    }
}

fn made<T>(r: io::Result<T>) -> T {
    match r {
        Ok(r) => r,
        Err(_) => {
            check(false, "it can be made");
            loop {}
        }
    }
}

/// Starts the async run: events become ready after some polls, which may come late.
fn start(t: Vec<Step>) {
    let late = t.iter().any(|s| s.pend > 0) && choose(2) == 1;
    script(t);
    net().late = late;
}

/// The script for the async run: events become ready after some polls.
fn delayed(mut s: Vec<Step>) -> Vec<Step> {
    let (n, k) = [(0, 0), (1, 2), (2, 1)][choose(3)];
    for (i, x) in s.iter_mut().enumerate() {
        x.pend = if i % 2 == 0 { n as u8 } else { k as u8 };
    }
    s
}

fn ip(a: IpAddr) -> Vec<u8> {
    match a {
        IpAddr::V4(a) => a.octets().to_vec(),
        IpAddr::V6(a) => a.octets().to_vec(),
    }
}

/// What to configure before the lookups.
struct Config {
    servers: Vec<SocketAddr>,
    timeout: Option<Duration>,
    /// server of `new`, or one of the multicast constructors
    how: usize,
    lookups: usize,
    send_errors: Vec<i32>,
    name: Labels,
}

fn config() -> Config {
    Config { servers: vec![server()], timeout: None, how: 0, lookups: 1, send_errors: vec![], name: labels(&[b"a"]) }
}

fn resolve_both(c: &Config, s: Vec<Step>) {
    let t = delayed(s.clone());
    script(s);
    net().send_errors = c.send_errors.clone();
    let mut r = made(match c.how {
        0 => SyncResolver::new(c.servers[0]),
        1 => SyncResolver::new_multicast_v4(),
        _ => SyncResolver::new_multicast_v6(),
    });
    for s in c.servers.iter().skip(1) {
        r.add_server(*s);
    }
    if let Some(d) = c.timeout {
        made(r.set_timeout(d));
    }
    let (mut e, mut o) = (vec![], vec![]);
    for _ in 0..c.lookups {
        let x = r.resolve_domain(&name_of(&c.name));
        e.push(end(&x));
        if let Ok(i) = x {
            o.push(vec![]);
            o.extend(i.map(ip));
        }
    }
    let a = seen(e, o);
    drop(r);

    start(t);
    net().send_errors = c.send_errors.clone();
    let mut r = made(run(async {
        match c.how {
            0 => AsyncResolver::new(c.servers[0]).await,
            1 => AsyncResolver::new_multicast_v4().await,
            _ => AsyncResolver::new_multicast_v6().await,
        }
    }));
    for s in c.servers.iter().skip(1) {
        r.add_server(*s);
    }
    if let Some(d) = c.timeout {
        made(r.set_timeout(d));
    }
    let (mut e, mut o) = (vec![], vec![]);
    for _ in 0..c.lookups {
        let n = name_of(&c.name);
        let x = run(r.resolve_domain(&n));
        e.push(end(&x));
        if let Ok(i) = x {
            o.push(vec![]);
            o.extend(i.map(ip));
        }
    }
    compare(a, seen(e, o));
}

fn flat(i: &Item) -> Vec<u8> {
    let mut v = vec![];
    if let Some(n) = &i.inst {
        v.extend_from_slice(n);
        v.push(b'/');
    }
    v.extend_from_slice(&i.svc);
    v.push(i.tcp as u8);
    v
}
fn details(d: &InstanceDetails, o: &mut Vec<Vec<u8>>) {
    let mut v = d.port().to_be_bytes().to_vec();
    for l in d.host().labels() {
        v.push(l.as_bytes().len() as u8);
        v.extend_from_slice(l.as_bytes());
    }
    o.push(v);
    for (k, x) in d.txt_records().iter() {
        let mut v = k.as_bytes().to_vec();
        match x {
            TxtRecordValue::NoValue => v.push(0),
            TxtRecordValue::Value(b) => {
                v.push(b'=');
                v.extend_from_slice(b);
            }
        }
        o.push(v);
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Call {
    Instances,
    Types,
    Details,
}

struct Look {
    calls: Vec<Call>,
    stop: usize,
    retransmit: Option<Duration>,
    timeout: Option<Duration>,
    server: SocketAddr,
    domain: Option<Labels>,
    instance: ServiceInstance,
    send_errors: Vec<i32>,
}

fn look(c: &[Call]) -> Look {
    Look { calls: c.to_vec(), stop: 99, retransmit: None, timeout: None, server: group(), domain: None, instance: instance(), send_errors: vec![] }
}

fn any_call() -> Call {
    [Call::Instances, Call::Types, Call::Details][choose(3)]
}

/// One call of a discoverer; its end goes to `e`, what it gives to `o`.
macro_rules! calling {
    ($d:expr, $call:expr, $e:expr, $o:expr, $stop:expr, $w:ident) => {
        calling!($d, $call, instance(), $e, $o, $stop, $w)
    };
    ($d:expr, $call:expr, $inst:expr, $e:expr, $o:expr, $stop:expr, $w:ident) => {{
        let inst = $inst;
        let service = inst.service().clone();
        let mut k = 0;
        let mut flow = || {
            k += 1;
            if k == $stop {
                ControlFlow::Break(())
            } else {
                ControlFlow::Continue(())
            }
        };
        $e.push(match $call {
            Call::Instances => end(&$w($d.discover_instances(&service, |i| {
                $o.push(flat(&Item::of_instance(i)));
                flow()
            }))),
            Call::Types => end(&$w($d.discover_service_types(|i| {
                $o.push(flat(&Item::of_type(i)));
                flow()
            }))),
            Call::Details => {
                let r = $w($d.load_instance_details(&inst));
                if let Ok(d) = &r {
                    details(d, &mut $o);
                }
                end(&r)
            }
        });
    }};
}
fn same<T>(x: T) -> T {
    x
}

fn discover_both(c: &Look, s: Vec<Step>) {
    let t = delayed(s.clone());
    script(s);
    net().send_errors = c.send_errors.clone();
    let mut d = made(match &c.domain {
        None => SyncDiscoverer::new_multicast_v4(),
        Some(n) => SyncDiscoverer::new(c.server, name_of(n)),
    });
    if let Some(t) = c.retransmit {
        made(d.set_retransmit_timeout(t));
    }
    if let Some(t) = c.timeout {
        made(d.set_discovery_timeout(t));
    }
    let (mut e, mut o) = (vec![], vec![]);
    for call in &c.calls {
        calling!(d, call, c.instance.clone(), e, o, c.stop, same);
    }
    let a = seen(e, o);
    drop(d);

    start(t);
    net().send_errors = c.send_errors.clone();
    let mut d = made(run(async {
        match &c.domain {
            None => AsyncDiscoverer::new_multicast_v4().await,
            Some(n) => AsyncDiscoverer::new(c.server, name_of(n)).await,
        }
    }));
    if let Some(t) = c.retransmit {
        made(d.set_retransmit_timeout(t));
    }
    if let Some(t) = c.timeout {
        made(d.set_discovery_timeout(t));
    }
    let (mut e, mut o) = (vec![], vec![]);
    for call in &c.calls {
        calling!(d, call, c.instance.clone(), e, o, c.stop, run);
    }
    compare(a, seen(e, o));
}

fn quiet_ms(ms: u32) -> Step {
    Step { ev: Ev::Quiet, dt: (0, ms * 1_000_000), pend: 0 }
}
/// Records for a call: what it looks for, with one arbitrary byte.
fn fitting(c: Call, m: &mut Vec<u8>) {
    let b = u8_();
    match c {
        Call::Instances => record(m, &[0], 12, 1, 1, &wire(&labels(&[&[b], b"_s", b"_tcp", b"local"]))),
        Call::Types => record(m, &[0], 12, 1, 1, &wire(&labels(&[&[b'_', b], b"_udp", b"local"]))),
        Call::Details => match choose(2) {
            0 => record(m, &[0], 33, 1, 1, &[0, 0, 0, 0, b, choose(2) as u8, 1, b'h', 0]),
            _ => record(m, &[0], 16, 1, 1, &[3, b'k', b'=', b]),
        },
    }
}

/// The `i`th of many records a call looks for.
fn many(c: Call, m: &mut Vec<u8>, i: u8) {
    match c {
        Call::Instances => record(m, &[0], 12, 1, 1, &wire(&labels(&[&[i], b"_s", b"_tcp", b"local"]))),
        Call::Types => record(m, &[0], 12, 1, 1, &wire(&labels(&[&[b'_', i], b"_udp", b"local"]))),
        Call::Details => record(m, &[0], 99, 1, 1, &[i]),
    }
}

harness! {
    fn as_resolve() {
        let mut s = vec![];
        for _ in 0..3 {
            let mut m = header(QUERY_ID, 0x8180, 0, 2);
            record(&mut m, &[0], 1, 1, 1, &bytes::<4>());
            record(&mut m, &[0], 28, 1, 1, &bytes::<16>());
            s.push(match choose(7) {
                0 => quiet(),
                1 => fail(error()),
                2 => data(m, from()),
                3 => {
                    m.truncate(40);
                    data(m, from())
                }
                4 => {
                    m[7] = 0;
                    data(m, from())
                }
                5 => {
                    m[0] = u8_();
                    m[1] = u8_();
                    m[2] = u8_();
                    data(m, from())
                }
                _ => data(vec![], from()),
            });
        }
        resolve_both(&config(), s);
    }

    /// Any header and any record.
    fn as_resolve_any() {
        let mut m = header(u16_(), u16_(), 0, choose(3) as u16);
        for i in 0..m[7] {
            let ty = u16_();
            assume((ty == 1) | (ty == 28) | (ty == 99));
            let b = bytes::<16>();
            let n = if i == 0 { [0, 2, 4, 16][choose(4)] } else { 4 };
            record(&mut m, &[0], ty, u16_(), u32_(), &b[..n]);
        }
        let mut c = config();
        c.how = choose(3);
        resolve_both(&c, vec![data(m, from()), data(good(), from())]);
    }

    fn as_resolve_name() {
        let mut m = header(u16_(), 0x8000, 0, 1);
        let b = bytes::<3>();
        record(&mut m, &[0], 5, 1, 1, &b[..choose(4)]);
        resolve_both(&config(), vec![data(m, from()), data(good(), from())]);
    }

    fn as_resolve_servers() {
        let mut c = config();
        let v6 = choose(2) == 1;
        c.servers.clear();
        let n = [1usize, 2, 3, 4, 5, 9, 17, 33][choose(8)];
        for k in 0..n {
            if k >= 5 {
                c.servers.push(SocketAddr::new(if v6 { IpAddr::from([k as u16; 8]) } else { IpAddr::from([k as u8; 4]) }, 53));
                continue;
            }
            let a = if v6 {
                let b = bytes::<16>();
                assume(b[0] != 0xff);
                IpAddr::from(b)
            } else {
                let b = bytes::<4>();
                assume(b[0] & 0xf0 != 0xe0);
                IpAddr::from(b)
            };
            c.servers.push(SocketAddr::new(a, u16_()));
        }
        c.name = if choose(4) == 0 { long_name() } else { name() };
        resolve_both(&c, vec![quiet()]);
    }

    /// What is received is logged, which makes no difference.
    fn as_logged() {
        crate::tap::logged();
        let mut s = vec![];
        for _ in 0..1 {
            s.push(data(crate::tap::response(choose(crate::tap::RESPONSES)), peer()));
        }
        if choose(2) == 0 {
            s.push(data(good(), from()));
            return resolve_both(&config(), s);
        }
        let c = any_call();
        let mut m = header(0, 0x8400, 0, 1);
        fitting(c, &mut m);
        s.push(data(m, peer()));
        discover_both(&look(&[c]), s);
    }

    fn as_resolve_one() {
        let a = if choose(2) == 1 { IpAddr::from(bytes::<16>()) } else { IpAddr::from(bytes::<4>()) };
        let mut c = config();
        c.servers = vec![SocketAddr::new(a, u16_())];
        let mut m = good();
        m[0] = u8_();
        m[1] = u8_();
        resolve_both(&c, vec![data(m, from()), quiet()]);
    }

    /// Several lookups, timeouts that are set, and receives beyond the buffer size.
    fn as_resolve_again() {
        let mut s = vec![];
        let pad = [0, 473, 474, 475, 500, 900, 1462, 1463][choose(8)];
        for _ in 0..2 {
            let mut m = header(QUERY_ID, 0x8180, 0, 2);
            record(&mut m, &[0], 1, 1, 1, &bytes::<4>());
            record(&mut m, &[0], 99, 1, 1, &vec![0; pad]);
            s.push(match choose(3) {
                0 => quiet(),
                1 => fail(error()),
                _ => data(m, from()),
            });
        }
        s.push(data(good(), from()));
        let mut c = config();
        c.lookups = 3;
        if choose(2) == 1 {
            c.timeout = Some(Duration::from_millis(123));
        }
        resolve_both(&c, s);
    }

    /// A lookup that is given up before it is through leaves nothing to the next one, which brings what it
    /// would bring to a fresh resolver.
    fn as_resolve_cancel() {
        let mut s = vec![];
        for _ in 0..3 {
            let b = bytes::<4>();
            let mut m = header(QUERY_ID, 0x8180, 0, 1 + choose(2) as u16);
            record(&mut m, &[0], 1, 1, 60, &b);
            s.push(match choose(4) {
                0 => quiet(),
                1 => fail(error()),
                2 => data(header(QUERY_ID, 0x8180, 0, 0), from()),
                // the second record may be missing
                _ => data(m, from()),
            });
        }
        let mut t = s.clone();
        for x in t.iter_mut() {
            x.pend = 1;
        }
        script(t);
        let mut r = made(run(AsyncResolver::new(server())));
        let n = name_of(&labels(&[b"a"]));
        if run_some(r.resolve_domain(&n), 1 + choose(3)).is_some() {
            return;
        }
        let at = net().at;
        let before = net().sent.len();
        let (mut e, mut o) = (vec![], vec![]);
        {
            let x = run(r.resolve_domain(&n));
            e.push(end(&x));
            if let Ok(i) = x {
                o.extend(i.map(ip));
            }
        }
        drop(r);
        let sent = net().sent.split_off(before);

        script(s[at..].to_vec());
        let mut r = made(SyncResolver::new(server()));
        let x = r.resolve_domain(&n);
        check(end(&x) == e[0], "a lookup after one given up ends like one on a fresh resolver");
        let mut p = vec![];
        if let Ok(i) = x {
            p.extend(i.map(ip));
        }
        check(p.len() == o.len(), "a lookup after one given up returns as many addresses");
        for (x, y) in p.iter().zip(&o) {
            check_bytes(x, y, "a lookup after one given up returns its own addresses");
        }
        compare_sent(&sent, at, &net().sent);
        reach("given up");
        if !p.is_empty() {
            reach("found after that");
        }
    }

    fn as_resolve_send() {
        let mut c = config();
        c.servers.push(server());
        c.send_errors = vec![0; choose(4)];
        c.send_errors.push(error());
        c.lookups = 2;
        resolve_both(&c, vec![data(good(), from()), data(good(), from())]);
    }

    /// Servers are refused by the async resolver as by the synchronous one.
    fn as_add() {
        let any = |v6: bool| if v6 { IpAddr::from(bytes::<16>()) } else { IpAddr::from(bytes::<4>()) };
        let (v6, w6) = (choose(2) == 1, choose(2) == 1);
        let (a, b) = (any(v6), any(w6));
        let multicast = match a {
            IpAddr::V4(a) => a.octets()[0] & 0xf0 == 0xe0,
            IpAddr::V6(a) => a.octets()[0] == 0xff,
        };
        let (a, b) = (SocketAddr::new(a, u16_()), SocketAddr::new(b, u16_()));
        script(vec![]);
        let mut r = made(run(AsyncResolver::new(a)));
        allow_panic(multicast | (v6 != w6));
        r.add_server(b);
        allow_panic(false);
        check(!multicast, "no server can be added to a multicast resolver");
        check(v6 == w6, "servers of different families are refused");
        reach("server added");
    }

    /// Texts.
    fn as_text() {
        let b = bytes::<3>();
        let n = choose(4);
        assume((b[0] < 128) & (b[1] < 128) & (b[2] < 128));
        let s = core::str::from_utf8(&b[..n]).unwrap();
        script(vec![data(good(), from())]);
        let mut r = made(SyncResolver::new(server()));
        let x = r.resolve(s).map(|i| i.map(ip).collect::<Vec<_>>());
        let a = seen(vec![end(&x)], x.unwrap_or(vec![]));
        drop(r);
        script(vec![data(good(), from())]);
        let mut r = made(run(AsyncResolver::new(server())));
        let x = run(r.resolve(s)).map(|i| i.map(ip).collect::<Vec<_>>());
        compare(a, seen(vec![end(&x)], x.unwrap_or(vec![])));
    }

    /// Sequences of datagrams, timeouts and errors.
    fn as_discover() {
        let c = any_call();
        let mut s = vec![];
        for _ in 0..3 {
            let mut m = header(0, 0x8400, 0, 1);
            s.push(match choose(5) {
                0 => quiet_ms(300),
                1 => fail(error()),
                2 => {
                    fitting(c, &mut m);
                    data(m, peer())
                }
                3 => {
                    fitting(Call::Types, &mut m);
                    m.truncate(25);
                    data(m, peer())
                }
                _ => {
                    fitting(Call::Types, &mut m);
                    m[2] = u8_();
                    data(m, peer())
                }
            });
        }
        let mut l = look(&[c]);
        l.stop = 1 + choose(2);
        discover_both(&l, s);
    }

    /// Several records in one response, some of them malformed.
    fn as_discover_records() {
        let c = any_call();
        let mut m = header(0, 0x8400, 0, 3);
        fitting(c, &mut m);
        let ty = [1, 12, 16, 33, 99][choose(5)];
        let b = bytes::<2>();
        if ty == 16 {
            assume((b[0] < 128) & (b[1] < 128));
        }
        record(&mut m, &[0], ty, 1, 1, &b[..choose(3)]);
        fitting(c, &mut m);
        let mut l = look(&[c]);
        l.stop = 1 + choose(3);
        discover_both(&l, vec![data(m, peer()), quiet_ms(300)]);
    }

    /// Pointers that differ in any of their labels, or in none.
    fn as_discover_alike() {
        let c = [Call::Instances, Call::Types][choose(2)];
        let kind = choose(2);
        let mut s = vec![];
        let mut m = header(0, 0x8400, 0, 0);
        for k in 0..2 {
            let l = match kind {
                0 => alike(),
                _ => {
                    let (x, y) = (u8_(), u8_());
                    let tr: &[u8] = if choose(2) == 1 { b"_udp" } else { b"_tcp" };
                    let at: &[u8] = if choose(2) == 1 { b"else" } else { b"local" };
                    match c {
                        Call::Instances => labels(&[&[x], &[b'_', y], tr, at]),
                        _ => labels(&[&[b'_', x], tr, at]),
                    }
                }
            };
            record(&mut m, &[0], 12, 1, 1, &wire(&l));
            m[7] += 1;
            if k == 0 && choose(2) == 1 {
                s.push(data(m, peer()));
                m = header(0, 0x8400, 0, 0);
            }
        }
        s.push(data(m, peer()));
        s.push(quiet_ms(300));
        discover_both(&look(&[c]), s);
    }

    /// Calls for any instance and service.
    fn as_discover_for() {
        let c = any_call();
        let mut l = look(&[c]);
        let (i, j) = [(1, 1), (2, 62), (63, 0), (4, 4)][choose(4)];
        let (mut name, mut svc) = (vec![b'n'; i], vec![b's'; j + 1]);
        name[0] = u8_();
        name[i - 1] = u8_();
        svc[j] = u8_();
        svc[0] = b'_';
        let t = if choose(2) == 1 { ServiceTransport::TCP } else { ServiceTransport::Other };
        l.instance = ServiceInstance::new(Label::new(&name), Label::new(&svc), t);
        if choose(2) == 1 {
            l.domain = Some(long_domain(i + j + 2));
        }
        let mut m = header(0, 0x8400, 0, 1);
        fitting(c, &mut m);
        discover_both(&l, vec![data(m, peer()), quiet_ms(300)]);
    }

    /// Receives of any duration and several timeouts.
    fn as_discover_clock() {
        let c = any_call();
        let odd = choose(2);
        let mut s = vec![];
        for k in 0..2 {
            let mut m = header(0, 0x8400, 0, 1);
            fitting(c, &mut m);
            let ns = if odd == k { u32_() } else { [0, 999_999_999][choose(2)] };
            assume(ns < 1_000_000_000);
            s.push(Step { ev: if choose(2) == 0 { Ev::Quiet } else { Ev::Data(m, peer()) }, dt: (0, ns), pend: 0 });
        }
        let mut l = look(&[c]);
        l.timeout = [None, Some(Duration::from_nanos(1)), Some(Duration::from_millis(1500))][choose(3)];
        discover_both(&l, s);
    }

    /// Several calls, timeouts that are set, other servers and domains.
    fn as_discover_again() {
        let calls = [any_call(), any_call()];
        let mut s = vec![];
        for c in calls {
            let mut m = header(0, 0x8400, 0, 1);
            fitting(c, &mut m);
            s.push(data(m, peer()));
            s.push(quiet_ms(999));
            s.push(quiet_ms(999));
        }
        let mut l = look(&calls);
        match choose(5) {
            0 => {}
            1 => l.retransmit = Some(Duration::from_millis(77)),
            4 => {
                let b = bytes::<4>();
                l.domain = Some(vec![b[..1].to_vec(), b[1..3].to_vec(), b[3..].to_vec()]);
            }
            2 => {
                l.domain = Some(vec![bytes::<3>().to_vec()]);
                l.server = SocketAddr::new(IpAddr::from(bytes::<4>()), u16_());
            }
            _ => {
                l.domain = Some(vec![]);
                l.server = SocketAddr::new(IpAddr::from(bytes::<16>()), u16_());
            }
        }
        discover_both(&l, s);
    }

    /// A call that is given up before its end, and the same or another one after it.
    fn as_discover_cancel() {
        let c = any_call();
        let calls = [c, if choose(2) == 0 { c } else if c == Call::Types { Call::Details } else { Call::Types }];
        let mut s = vec![];
        for k in 0..3 {
            let mut m = header(0, 0x8400, 0, 1 + if k == 0 { choose(2) } else { 0 } as u16);
            fitting(calls[k.min(1)], &mut m);
            s.push(match choose(3) {
                0 => quiet_ms(500),
                1 => fail(error()),
                // the second record may be missing
                _ => data(m, peer()),
            });
        }
        let mut t = s.clone();
        for x in t.iter_mut() {
            x.pend = 1;
        }
        start(t);
        let mut d = made(run(AsyncDiscoverer::new_multicast_v4()));
        let n = 1 + choose(2);
        let service = Service::new(Label::new("_s"), ServiceTransport::TCP);
        let ended = match calls[0] {
            Call::Instances => run_some(d.discover_instances(&service, |_| ControlFlow::Continue(())), n).is_some(),
            Call::Types => run_some(d.discover_service_types(|_| ControlFlow::Continue(())), n).is_some(),
            Call::Details => run_some(d.load_instance_details(&instance()), n).is_some(),
        };
        if ended {
            return;
        }
        let at = net().at;
        let before = net().sent.len();
        let (mut e, mut o) = (vec![], vec![]);
        calling!(d, calls[1], e, o, 99, run);
        drop(d);
        let sent = net().sent.split_off(before);

        script(s[at..].to_vec());
        let mut d = made(SyncDiscoverer::new_multicast_v4());
        let (mut f, mut p) = (vec![], vec![]);
        calling!(d, calls[1], f, p, 99, same);
        check(e == f, "a call after one given up ends like one of a fresh discoverer");
        check(o.len() == p.len(), "a call after one given up finds as much");
        for (x, y) in o.iter().zip(&p) {
            check_bytes(x, y, "a call after one given up finds what is there");
        }
        compare_sent(&sent, at, &net().sent);
        reach("given up");
        if !p.is_empty() {
            reach("found after that");
        }
    }

    /// Responses around the size of the receive buffer.
    fn as_discover_big() {
        let c = any_call();
        let mut m = header(0, 0x8400, 0, 2);
        fitting(c, &mut m);
        let n = [1499, 1500, 1501][choose(3)] - m.len() - 11;
        record(&mut m, &[0], 16, 1, 1, &[vec![255; 1], vec![b'x'; 255]].concat());
        if n > 267 {
            record(&mut m, &[0], 99, 1, 1, &vec![0; n - 267]);
        }
        fitting(c, &mut m);
        m[7] = 4;
        discover_both(&look(&[c]), vec![data(m, peer())]);
    }

    /// Many receives that stay quiet, many datagrams, and many records in one.
    fn as_discover_long() {
        let c = any_call();
        let k = [5, 9, 17, 33][choose(4)];
        let mut s = vec![];
        let mut l = look(&[c]);
        let mut m = header(0, 0x8400, 0, 1);
        match choose(3) {
            0 => {
                l.retransmit = Some(Duration::from_millis(20));
                for _ in 0..k {
                    s.push(quiet_ms(20));
                }
                fitting(c, &mut m);
                s.push(data(m, peer()));
            }
            1 => {
                for i in 0..k {
                    let mut o = header(0, 0x8400, 0, 1);
                    many(c, &mut o, i);
                    s.push(data(o, peer()));
                }
                fitting(c, &mut m);
                s.push(data(m, peer()));
            }
            _ => {
                m[7] = k + 1;
                for i in 0..k {
                    many(c, &mut m, i);
                }
                fitting(c, &mut m);
                s.push(data(m, peer()));
            }
        }
        s.push(quiet_ms(999));
        discover_both(&l, s);
    }

    /// Many addresses in a response, many responses that are of no use, and several lookups.
    fn as_resolve_many() {
        let k = [9, 17, 29][choose(3)];
        let mut s = vec![];
        let mut m = header(QUERY_ID, 0x8180, 0, k + 1);
        for i in 0..k {
            if i > 0 || choose(2) == 0 {
                record(&mut m, &[0], 1, 1, 1, &[10, 0, 0, i as u8]);
            } else {
                record(&mut m, &[0], 28, 1, 1, &bytes::<16>());
            }
        }
        record(&mut m, &[0], 1, 1, 1, &bytes::<4>());
        for _ in 0..choose(2) * k as usize {
            s.push(data(header(QUERY_ID, 0x8180, 0, 0), from()));
        }
        s.push(data(m, from()));
        s.push(data(good(), from()));
        let mut c = config();
        c.lookups = 2;
        if choose(2) == 1 {
            c.servers.push(server());
        }
        resolve_both(&c, s);
    }

    fn as_discover_send() {
        let c = any_call();
        let mut l = look(&[c]);
        l.send_errors = vec![0; choose(4)];
        l.send_errors.push(error());
        let mut m = header(0, 0x8400, 0, 1);
        fitting(c, &mut m);
        discover_both(&l, vec![quiet_ms(300), data(m, peer()), quiet_ms(300)]);
    }
}
