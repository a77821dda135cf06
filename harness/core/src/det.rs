//! Instance details, and both sides of the library talking to each other.
use crate::adv::{labels, local, name_of, put16, same_name, wire, Labels};
use crate::disc::{end, expect, labels_at, new, peer, records, End, Item, TIMEOUT};
use crate::net::*;
use crate::res::{header, record};
use crate::rt::*;
use crate::svc::metadata;
use std::io;
use std::net::IpAddr;
use std::ops::ControlFlow;
use std::time::Duration;
use uwuhi::name::{DomainName, Label};
use uwuhi::packet::records::TXT;
use uwuhi::resolver::SyncResolver;
use uwuhi::service::advertising::Advertiser;
use uwuhi::service::discovery::SyncDiscoverer;
use uwuhi::service::*;

pub fn same_domain(d: &DomainName, l: &Labels) -> bool {
    let mut n = 0;
    let mut ok = true;
    for x in d.labels() {
        if n < l.len() {
            ok &= eq_bytes(x.as_bytes(), &l[n]);
        }
        n += 1;
    }
    ok & (n == l.len())
}

/// The strings of a TXT record.
fn strings(m: &[u8], mut p: usize, end: usize) -> Vec<Vec<u8>> {
    let mut v = vec![];
    while p < end {
        let n = m[p] as usize;
        v.push(m[p + 1..p + 1 + n].to_vec());
        p += 1 + n;
    }
    v
}

pub fn instance() -> ServiceInstance {
    ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP)
}

/// Loads details and checks them against the script from its current position on.
fn load(d: &mut SyncDiscoverer, timeout: u64) {
    let at = net().at;
    net().sent.clear();
    let got = d.load_instance_details(&instance());
    let mut srv: Option<(Labels, u16)> = None;
    let mut txt: Option<Vec<Vec<u8>>> = None;
    let w = expect(at, timeout, |m| {
        for r in records(m) {
            if r.ty == 33 {
                let port = (m[r.at + 4] as u16) << 8 | m[r.at + 5] as u16;
                srv = Some((labels_at(m, r.at + 6, r.end), port));
                return true;
            }
            if r.ty == 16 {
                txt = Some(strings(m, r.at, r.end));
                reach("metadata");
            }
        }
        false
    });
    match (srv, got) {
        (Some((host, port)), Ok(d)) => {
            check(same_domain(d.host(), &host), "host of an instance");
            check(d.port() == port, "port of an instance");
            metadata(d.txt_records(), &txt.unwrap_or(vec![]));
            check(net().at - at == w.receives, "the call ends with the first SRV record");
            reach("details");
        }
        (None, Err(e)) => {
            if w.end == End::Done {
                check(e.kind() == io::ErrorKind::TimedOut, "a missing SRV record is a timeout");
                reach("no details");
                crate::disc::ended(&w, End::Done, at);
            } else {
                crate::disc::ended(&w, end(&Err(e)), at);
            }
        }
        (None, Ok(_)) => check(false, "no details without SRV record"),
        (Some(_), Err(_)) => check(false, "an SRV record gives details"),
    }
}

fn srv(m: &mut Vec<u8>, host: &Labels, port: u16) {
    let mut d = bytes::<4>().to_vec();
    put16(&mut d, port);
    d.extend(wire(host));
    record(m, &[0], 33, 1, 120, &d);
}
fn txt(m: &mut Vec<u8>, s: &[&[u8]]) {
    let mut d = vec![];
    for s in s {
        d.push(s.len() as u8);
        d.extend_from_slice(s);
    }
    record(m, &[0], 16, 1, 120, &d);
}
fn any_host() -> Labels {
    match choose(4) {
        0 => vec![],
        1 => vec![vec![u8_()]],
        2 => vec![bytes::<5>().to_vec(), b"local".to_vec()],
        _ => vec![bytes::<63>().to_vec(), vec![u8_(), u8_()], vec![u8_()]],
    }
}

/// Asks an advertiser directly: connects what the code under test sends with `adv`.
fn connect(mut adv: Advertiser) {
    script(vec![]);
    net().peer = Some(Box::new(move |m, _| match adv.handle_packet(m) {
        Ok(Some(r)) => Some(data(r.to_vec(), peer())),
        _ => None,
    }));
}
fn advertiser(host: &[u8], ip: IpAddr) -> Advertiser {
    match Advertiser::new(Label::new(host), ip) {
        Ok(a) => a,
        Err(_) => {
            check(false, "an advertiser can be made");
            loop {}
        }
    }
}

/// An advertised instance.
struct Inst {
    item: Item,
    host: Labels,
    port: u16,
    txt: Vec<Vec<u8>>,
}

fn transport(tcp: bool) -> ServiceTransport {
    if tcp {
        ServiceTransport::TCP
    } else {
        ServiceTransport::Other
    }
}

impl Inst {
    fn real(&self) -> ServiceInstance {
        ServiceInstance::new(Label::new(self.item.inst.as_ref().unwrap()), Label::new(&self.item.svc), transport(self.item.tcp))
    }
    fn add(&self, a: &mut Advertiser) {
        let mut d = InstanceDetails::new(name_of(&self.host), self.port);
        if !self.txt.is_empty() {
            *d.txt_records_mut() = TxtRecords::from_txt(&TXT::new(self.txt.clone()));
        }
        a.add_instance(self.real(), d);
    }
}

fn is(a: &Item, b: &Item) -> bool {
    let i = match (&a.inst, &b.inst) {
        (Some(x), Some(y)) => eq_bytes(x, y),
        (None, None) => true,
        _ => false,
    };
    i & eq_bytes(&a.svc, &b.svc) & (a.tcp == b.tcp)
}

/// An instance with names of one arbitrary byte each.
fn any_instance(k: u8) -> Inst {
    Inst {
        item: Item { inst: Some(vec![u8_()]), svc: vec![b'_', u8_()], tcp: choose(2) == 0 },
        host: local(&[k]),
        port: 1000 + k as u16,
        txt: vec![vec![b'k', b'=', k]],
    }
}

harness! {
    /// One SRV record of any contents.
    fn det_srv() {
        let mut m = header(u16_(), 0x8400, 0, 1);
        srv(&mut m, &any_host(), u16_());
        script(vec![data(m, peer())]);
        load(&mut new(), TIMEOUT);
    }

    /// TXT and SRV records of several responses in any order.
    fn det_order() {
        let mut s = vec![];
        for k in 0..2u8 {
            let mut m = header(0, 0x8400, 0, 3);
            for j in 0..3u8 {
                match choose(4) {
                    0 => srv(&mut m, &labels(&[&[b'h', k, j]]), u16_()),
                    1 => txt(&mut m, &[&[b'k', b'=', u8_()], b"flag"]),
                    2 => txt(&mut m, &[]),
                    _ => record(&mut m, &[0], 12, 1, 1, &[0]),
                }
            }
            s.push(data(m, peer()));
        }
        script(s);
        load(&mut new(), TIMEOUT);
    }

    /// Other and malformed records before the SRV record.
    fn det_mixed() {
        let mut m = header(0, 0x8400, 0, 3);
        txt(&mut m, &[b"a=1"]);
        let ty = [1, 2, 5, 6, 12, 15, 16, 28, 33, 99][choose(10)];
        let b = bytes::<7>();
        let n = [0, 1, 2, 3, 6, 7][choose(6)];
        // names in these are covered by other entries
        assume(matches!(ty, 16 | 33 | 1 | 28 | 99) || n < 3);
        if ty == 16 && n > 1 {
            assume((b[1] < 128) & (b[2] < 128) & (b[3] < 128) & (b[4] < 128) & (b[5] < 128) & (b[6] < 128));
        }
        record(&mut m, &[0], ty, u16_(), u32_(), &b[..n]);
        srv(&mut m, &labels(&[b"h"]), 7);
        script(vec![data(m, peer())]);
        load(&mut new(), TIMEOUT);
    }

    /// Any header.
    fn det_header() {
        let mut m = header(u16_(), u16_(), 0, choose(3) as u16);
        txt(&mut m, &[b"a=1"]);
        srv(&mut m, &labels(&[b"h"]), u16_());
        script(vec![data(m, peer())]);
        load(&mut new(), TIMEOUT);
    }

    /// A response cut anywhere, and one behind it.
    fn det_cut() {
        let mut m = header(0, 0x8400, 1, 3);
        m.extend(wire(&labels(&[b"i", b"local"])));
        put16(&mut m, 33);
        put16(&mut m, 1);
        txt(&mut m, &[b"a=1"]);
        record(&mut m, &[0xc0, 12], 33, 1, 1, &[0, 0, 0, 0, u8_(), u8_(), 1, b'h', 0xc0, 14]);
        txt(&mut m, &[b"a=2"]);
        let n = choose(m.len() + 1);
        m.truncate(n);
        let mut g = header(0, 0x8400, 0, 1);
        srv(&mut g, &labels(&[b"g"]), 9);
        script(vec![data(m, peer()), data(g, peer())]);
        load(&mut new(), TIMEOUT);
    }

    /// Sequences of datagrams, timeouts and errors, and two calls.
    fn det_sequence() {
        let mut s = vec![];
        for k in 0..4u8 {
            let mut m = header(0, 0x8400, 0, 2);
            s.push(match choose(5) {
                0 => Step { ev: Ev::Quiet, dt: (0, 300_000_000), pend: 0 },
                1 => fail(error()),
                2 => {
                    txt(&mut m, &[&[b'a', b'=', u8_()]]);
                    m[7] = 1;
                    data(m, peer())
                }
                3 => {
                    txt(&mut m, &[&[b'b', b'=', k]]);
                    srv(&mut m, &labels(&[b"h"]), u16_());
                    data(m, peer())
                }
                _ => {
                    srv(&mut m, &labels(&[b"h"]), u16_());
                    m[2] = 0;
                    data(m, peer())
                }
            });
        }
        script(s);
        let mut d = new();
        load(&mut d, TIMEOUT);
        load(&mut d, TIMEOUT);
    }

    /// What is received is logged, which makes no difference.
    fn det_logged() {
        crate::tap::logged();
        let mut s = vec![];
        for _ in 0..1 {
            s.push(data(crate::tap::response(choose(crate::tap::RESPONSES)), peer()));
        }
        let mut m = header(0, 0x8400, 0, 1);
        srv(&mut m, &labels(&[b"h"]), 7);
        s.push(data(m, peer()));
        script(s);
        load(&mut new(), TIMEOUT);
    }

    /// Many records in front of the SRV record, in one response or in many; many strings; long hosts.
    fn det_many() {
        let n = [4u8, 8, 9, 16, 17, 33][choose(6)];
        let how = choose(5);
        let mut s = vec![];
        let mut m = header(0, 0x8400, 0, 0);
        for k in 0..n {
            match how {
                0 | 1 => {
                    record(&mut m, &[1, k + 1, 0], [99, 1, 12, 28][k as usize % 4], 1, 1, &[[0; 4], [0; 4], [0; 4], [0; 4]].concat()[..[2, 4, 1, 16][k as usize % 4]]);
                    m[7] += 1;
                    if how == 1 {
                        s.push(data(m, peer()));
                        m = header(0, 0x8400, 0, 0);
                    }
                }
                2 => s.push(data(vec![0; k as usize], peer())),
                _ => {}
            }
        }
        let mut host = labels(&[b"h", b"local"]);
        if how == 3 {
            let v: Vec<Vec<u8>> = (0..n).map(|k| vec![b'k', k, b'=', if k == n - 1 { u8_() } else { 1 }]).collect();
            let v: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
            txt(&mut m, &v);
            m[7] += 1;
        } else if how == 4 {
            let n = n.min(24);
            host = (0..n).map(|k| vec![b'h', if k == n - 1 { u8_() } else { k }]).collect();
        }
        srv(&mut m, &host, u16_());
        m[7] += 1;
        s.push(data(m, peer()));
        script(s);
        load(&mut new(), TIMEOUT);
    }

    /// Receives of several durations, and several discovery timeouts.
    fn det_clock() {
        let odd = choose(2);
        let mut s = vec![];
        for k in 0..2u8 {
            let mut m = header(0, 0x8400, 0, 1);
            if k == 0 {
                txt(&mut m, &[b"a=1"]);
            } else {
                srv(&mut m, &labels(&[b"h"]), 1);
            }
            let ns = if odd == k as usize { u32_() } else { [0, 400_000_000, 999_999_999][choose(3)] };
            assume(ns < 1_000_000_000);
            s.push(Step { ev: if choose(2) == 0 { Ev::Quiet } else { Ev::Data(m, peer()) }, dt: (0, ns), pend: 0 });
        }
        script(s);
        let mut d = new();
        let t = [1, TIMEOUT, 300_000_000, 2_000_000_001][choose(4)];
        check(d.set_discovery_timeout(Duration::from_nanos(t)).is_ok(), "a timeout can be set");
        load(&mut d, t);
    }

    // Both sides together.

    /// Two instances with arbitrary names are advertised, and one type is browsed for.
    fn both_instances() {
        let a = [any_instance(0), any_instance(1)];
        let mut adv = advertiser(b"host", IpAddr::from([10, 0, 0, 1]));
        for i in &a {
            i.add(&mut adv);
        }
        let want = Item { inst: None, svc: vec![b'_', u8_()], tcp: choose(2) == 0 };
        connect(adv);
        let mut got = vec![];
        let r = new().discover_instances(&Service::new(Label::new(&want.svc), transport(want.tcp)), |i| {
            got.push(Item::of_instance(i));
            ControlFlow::Continue(())
        });
        check(r.is_ok(), "browsing ends after its timeout");
        for i in &a {
            let matching = eq_bytes(&i.item.svc, &want.svc) & (i.item.tcp == want.tcp);
            let mut n = 0;
            for g in &got {
                n += is(g, &i.item) as usize;
            }
            check(n == matching as usize, "exactly the instances of the type are found, once");
            reach(if matching { "found" } else { "not of this type" });
        }
        for g in &got {
            check(is(g, &a[0].item) | is(g, &a[1].item), "only advertised instances are found");
        }
    }

    /// Many instances: each is found, with its details, and each type once.
    fn both_many() {
        let n = [3usize, 8, 9, 12, 16, 17, 24][choose(7)];
        let mut a = vec![];
        let mut adv = advertiser(b"host", IpAddr::from([10, 0, 0, 1]));
        let types = choose(2) == 1;
        for k in 0..n {
            let k = k as u8;
            let i = Inst {
                item: Item { inst: Some(vec![b'i', k]), svc: if types { vec![b'_', k] } else { b"_s".to_vec() }, tcp: true },
                host: local(&[b'h', k]),
                port: 1000 + k as u16,
                txt: vec![],
            };
            adv.add_name(Label::new([b'h', k]), IpAddr::from([10, 0, 1, k]));
            i.add(&mut adv);
            a.push(i);
        }
        connect(adv);
        let mut got = vec![];
        let mut d = new();
        let r = if types {
            d.discover_service_types(|s| {
                got.push(Item::of_type(s));
                ControlFlow::Continue(())
            })
        } else {
            d.discover_instances(&Service::new(Label::new("_s"), ServiceTransport::TCP), |i| {
                got.push(Item::of_instance(i));
                ControlFlow::Continue(())
            })
        };
        check(r.is_ok(), "browsing ends after its timeout");
        check(got.len() == n, "all that is advertised is found");
        for k in 0..n {
            let mut one = 0;
            for g in &got {
                one += (g.svc == a[k].item.svc && (types || g.inst == a[k].item.inst)) as usize;
            }
            check(one == 1, "each is found once");
        }
        let k = [0, n / 2, n - 1][choose(3)];
        match d.load_instance_details(&a[k].real()) {
            Ok(d) => {
                check(same_domain(d.host(), &a[k].host), "host of an instance");
                check(d.port() == a[k].port, "port of an instance");
            }
            Err(_) => check(false, "the details of an advertised instance are found"),
        }
        let mut r = match SyncResolver::new_multicast_v4() {
            Ok(r) => r,
            Err(_) => return check(false, "a resolver can be made"),
        };
        match r.resolve_domain(&name_of(&a[k].host)).map(|i| i.collect::<Vec<_>>()) {
            Ok(x) => check(x.len() == 1 && x[0] == IpAddr::from([10, 0, 1, k as u8]), "address of an advertised host"),
            Err(_) => check(false, "the host of an instance is resolved"),
        }
        reach("many");
    }

    /// The types of three instances are found, once each.
    fn both_types() {
        let n = choose(4);
        let mut a = vec![];
        let mut adv = advertiser(b"host", IpAddr::from([10, 0, 0, 1]));
        for k in 0..n {
            a.push(any_instance(k as u8));
            a[k].add(&mut adv);
        }
        connect(adv);
        let mut got = vec![];
        let r = new().discover_service_types(|s| {
            got.push(Item::of_type(s));
            ControlFlow::Continue(())
        });
        check(r.is_ok(), "browsing ends after its timeout");
        let kind = |i: &Item| Item { inst: None, svc: i.svc.clone(), tcp: i.tcp };
        for i in &a {
            let mut n = 0;
            for g in &got {
                n += is(g, &kind(&i.item)) as usize;
            }
            check(n == 1, "each advertised type is found once");
        }
        for g in &got {
            let mut any = false;
            for i in &a {
                any |= is(g, &kind(&i.item));
            }
            check(any, "only advertised types are found");
        }
        reach(match got.len() { 0 => "no types", 1 => "one type", 2 => "two types", _ => "three types" });
    }

    /// The details of an instance are those it was registered with.
    fn both_details() {
        let mut a = [any_instance(0), any_instance(1)];
        a[0].host = any_host();
        a[0].port = u16_();
        let b = bytes::<2>();
        assume((b[0] < 128) & (b[0] != b'=') & (b[0] != 0));
        a[0].txt = match choose(3) {
            0 => vec![],
            1 => vec![vec![b[0]]],
            _ => vec![vec![b[0], b'=', b[1]], b"flag".to_vec()],
        };
        let mut adv = advertiser(b"host", IpAddr::from([10, 0, 0, 1]));
        // registering two instances under one name is not explored
        assume(!is(&a[0].item, &a[1].item));
        if choose(2) == 1 {
            a[1].add(&mut adv);
        }
        a[0].add(&mut adv);
        connect(adv);
        match new().load_instance_details(&a[0].real()) {
            Ok(d) => {
                check(same_domain(d.host(), &a[0].host), "host of an instance");
                check(d.port() == a[0].port, "port of an instance");
                reach("details");
            }
            Err(_) => check(false, "the details of an advertised instance are found"),
        }
    }

    /// Names that are advertised are resolved to their addresses, others are not.
    fn both_hosts() {
        let ips = [crate::adv::ip(), crate::adv::ip()];
        let hosts = [vec![u8_()], vec![u8_(), u8_()]];
        let mut adv = advertiser(&hosts[0], ips[0]);
        adv.add_name(Label::new(&hosts[1]), ips[1]);
        connect(adv);
        let ask: Labels = match choose(3) {
            0 => local(&[u8_()]),
            1 => local(&[u8_(), u8_()]),
            _ => vec![vec![u8_()], b"else".to_vec()],
        };
        let mut r = match SyncResolver::new_multicast_v4() {
            Ok(r) => r,
            Err(_) => return check(false, "a resolver can be made"),
        };
        let got = r.resolve_domain(&name_of(&ask)).map(|i| i.collect::<Vec<_>>());
        let mut want = None;
        for k in 0..2 {
            if same_name(&ask, &local(&hosts[k])) {
                want = Some(ips[k]);
            }
        }
        match (got, want) {
            (Ok(g), Some(w)) => {
                check(g.len() == 1, "number of addresses");
                check(Addr::of(&(g[0], 0).into()).same(&Addr::of(&(w, 0).into())), "address of an advertised host");
                reach("resolved");
            }
            (Err(_), None) => reach("unknown"),
            _ => check(false, "exactly the advertised hosts are resolved"),
        }
    }

    /// Found instances lead to their details, and their hosts to addresses.
    fn both_walk() {
        let i = any_instance(7);
        let ip = crate::adv::ip();
        let mut adv = advertiser(&[7], ip);
        i.add(&mut adv);
        connect(adv);
        let mut d = new();
        let mut types = vec![];
        let _ = d.discover_service_types(|s| {
            types.push(s.clone());
            ControlFlow::Break(())
        });
        check(types.len() == 1, "the type is found");
        let mut found = vec![];
        let _ = d.discover_instances(&types[0], |i| {
            found.push(i.clone());
            ControlFlow::Break(())
        });
        check(found.len() == 1, "the instance is found");
        check(found[0] == i.real(), "the instance is the advertised one");
        let det = match d.load_instance_details(&found[0]) {
            Ok(d) => d,
            Err(_) => return check(false, "the details of an advertised instance are found"),
        };
        check(det.port() == i.port, "port of an instance");
        let mut r = match SyncResolver::new_multicast_v4() {
            Ok(r) => r,
            Err(_) => return check(false, "a resolver can be made"),
        };
        let a = match r.resolve_domain(det.host()) {
            Ok(mut a) => a.next(),
            Err(_) => None,
        };
        match a {
            Some(a) => check(Addr::of(&(a, 0).into()).same(&Addr::of(&(ip, 0).into())), "address of an advertised host"),
            None => check(false, "the host of an instance is resolved"),
        }
        reach("walked");
    }
}
