//! The resolver, against a reference that works on the received bytes.
use crate::adv::{labels, name_of, put16, put32, wire, Labels};
use crate::net::*;
use crate::rt::*;
use crate::spec;
use std::io;
use std::net::{IpAddr, SocketAddr};
use std::time::Duration;
use uwuhi::name::DomainName;
use uwuhi::resolver::{encode_query, SyncResolver};

/// The ID of every query.
pub const QUERY_ID: u16 = 12345;

pub const SERVER: [u8; 4] = [192, 0, 2, 1];
pub fn server() -> SocketAddr {
    SocketAddr::new(IpAddr::from(SERVER), 53)
}
pub fn from() -> Addr {
    Addr::v4(SERVER, 53)
}

fn be16(m: &[u8], p: usize) -> u16 {
    (m[p] as u16) << 8 | m[p + 1] as u16
}

/// The addresses a received datagram brings.
pub fn addresses(m: &[u8], multicast: bool) -> Vec<IpAddr> {
    let none = vec![];
    let m = if m.len() > 512 { &m[..512] } else { m };
    if m.len() < 12 {
        reach("no header");
        return none;
    }
    if !multicast && be16(m, 0) != QUERY_ID {
        reach("another query's response");
        return none;
    }
    if m[2] & 0x80 == 0 {
        reach("not a response");
        return none;
    }
    let mut p = 12;
    for _ in 0..be16(m, 4) {
        match spec::question(m, p) {
            Ok(q) => p = q.next,
            Err(_) => {
                reach("malformed question");
                return none;
            }
        }
    }
    let mut out = vec![];
    for _ in 0..be16(m, 6) {
        let rr = match spec::rr(m, p) {
            Ok(r) => r,
            Err(_) => {
                reach("malformed answer");
                return none;
            }
        };
        p = rr.next;
        let d = spec::rdata(m, &rr);
        // whether data with bytes left over counts as malformed is left open
        assume(d != spec::Data::Left);
        if d == spec::Data::Bad {
            reach("malformed data");
            return none;
        }
        let a = &m[rr.rdata..];
        if rr.ty == 1 {
            out.push(IpAddr::from([a[0], a[1], a[2], a[3]]));
        } else if rr.ty == 28 {
            let mut b = [0u8; 16];
            b.copy_from_slice(&a[..16]);
            out.push(IpAddr::from(b));
        } else {
            reach("other record");
        }
    }
    out
}

fn same_ip(a: &IpAddr, b: &IpAddr) -> bool {
    match (a, b) {
        (IpAddr::V4(a), IpAddr::V4(b)) => eq_bytes(&a.octets(), &b.octets()),
        (IpAddr::V6(a), IpAddr::V6(b)) => eq_bytes(&a.octets(), &b.octets()),
        _ => false,
    }
}

/// Looks a name up and compares what comes back with what the script, from its position `at` on, brings.
fn lookup(r: &mut SyncResolver, multicast: bool) {
    let at = net().at;
    let got: io::Result<Vec<IpAddr>> = r.resolve_domain(&name_of(&labels(&[b"a"]))).map(|i| i.collect());
    let used = net().waits.len();
    let mut want = None;
    let mut n = at;
    while want.is_none() {
        let e = if n < net().script.len() { net().script[n].ev.clone() } else { Ev::Quiet };
        n += 1;
        match e {
            Ev::Data(m, _) => {
                let a = addresses(&m, multicast);
                if !a.is_empty() {
                    want = Some(Ok(a));
                }
            }
            Ev::Quiet => want = Some(Err(EAGAIN)),
            Ev::Fail(e) => want = Some(Err(e)),
        }
    }
    check(used == n, "a lookup ends with the first useful response or error");
    match (got, want) {
        (Ok(got), Some(Ok(want))) => {
            check(got.len() == want.len(), "number of addresses");
            for (a, b) in got.iter().zip(&want) {
                check(same_ip(a, b), "address");
            }
            reach("resolved");
        }
        (Err(e), Some(Err(w))) => {
            if w == EAGAIN {
                check(matches!(e.kind(), io::ErrorKind::WouldBlock | io::ErrorKind::TimedOut), "error of a timeout");
                reach("timeout");
            } else {
                check(e.raw_os_error() == Some(w), "error of the socket");
                reach("socket error");
            }
        }
        (Ok(_), _) => check(false, "a lookup without useful response fails"),
        (Err(_), _) => check(false, "a useful response resolves the name"),
    }
}

fn new(a: SocketAddr) -> SyncResolver {
    match SyncResolver::new(a) {
        Ok(r) => r,
        Err(_) => {
            check(false, "a resolver can be made");
            loop {}
        }
    }
}

/// A response with the given counts.
pub fn header(id: u16, flags: u16, qd: u16, an: u16) -> Vec<u8> {
    let mut m = vec![];
    put16(&mut m, id);
    put16(&mut m, flags);
    put16(&mut m, qd);
    put16(&mut m, an);
    put32(&mut m, 0);
    m
}
pub fn record(m: &mut Vec<u8>, name: &[u8], ty: u16, class: u16, ttl: u32, data: &[u8]) {
    m.extend_from_slice(name);
    put16(m, ty);
    put16(m, class);
    put32(m, ttl);
    put16(m, data.len() as u16);
    m.extend_from_slice(data);
}
/// A plain response with one address.
pub fn good() -> Vec<u8> {
    let mut m = header(QUERY_ID, 0x8180, 0, 1);
    record(&mut m, &[0], 1, 1, 60, &[10, 9, 8, 7]);
    m
}

/// A record with a type, class and TTL of any value and data of one of several lengths.
fn any_record(m: &mut Vec<u8>) {
    let ty = u16_();
    let mut b = [0u8; 17];
    let n = [0, 3, 4, 7, 15, 16, 17][choose(7)];
    fill(&mut b[..n]);
    // the data of names and strings is covered elsewhere
    assume((ty == 1) | (ty == 28) | (ty == 65) | (ty == 999));
    record(m, &[0], ty, u16_(), u32_(), &b[..n]);
}

harness! {
    /// Any header in front of one or two records.
    fn res_header() {
        let an = choose(3);
        let qd = choose(2);
        let mut m = header(u16_(), u16_(), qd as u16, an as u16);
        if qd == 1 {
            m.extend_from_slice(&[1, u8_(), 0]);
            put16(&mut m, u16_());
            put16(&mut m, u16_());
        }
        for _ in 0..an {
            let d = bytes::<4>();
            record(&mut m, &[0xc0, 0x0c], 1, 1, 60, &d);
        }
        if qd == 0 && an > 0 {
            m[12] = 1;
            m[13] = b'x';
            m.insert(14, 0);
        }
        script(vec![data(m, from()), data(good(), from())]);
        lookup(&mut new(server()), false);
    }

    /// Records of address and other types with data of fitting and other lengths.
    fn res_records() {
        let n = 1 + choose(2);
        let mut m = header(QUERY_ID, 0x8180, 0, n as u16);
        for _ in 0..n {
            any_record(&mut m);
        }
        script(vec![data(m, from()), data(good(), from())]);
        lookup(&mut new(server()), false);
    }

    /// Records of all decoded types, one of them being any of these with any six bytes of data.
    fn res_types() {
        let mut m = header(QUERY_ID, 0x8580, 0, 3);
        record(&mut m, &[0], 1, 1, 60, &bytes::<4>());
        let k = choose(10);
        let ty = [1, 2, 5, 6, 12, 15, 16, 28, 33, 99][k];
        let b = bytes::<4>();
        record(&mut m, &[0], ty, 1, 60, &b[..choose(5)]);
        record(&mut m, &[0], 28, 1, 60, &bytes::<16>());
        script(vec![data(m, from()), data(good(), from())]);
        lookup(&mut new(server()), false);
    }

    /// A response cut anywhere.
    fn res_cut() {
        let mut m = header(QUERY_ID, 0x8180, 1, 4);
        m.extend_from_slice(&[1, b'a', 0, 0, 1, 0, 1]);
        record(&mut m, &[0xc0, 12], 5, 1, 1, &[1, b'b', 0xc0, 12]);
        record(&mut m, &[0xc0, 12], 1, 1, 1, &bytes::<4>());
        record(&mut m, &[0xc0, 12], 28, 1, 1, &bytes::<16>());
        record(&mut m, &[0xc0, 12], 1, 1, 1, &bytes::<4>());
        let n = choose(m.len() + 1);
        m.truncate(n);
        script(vec![data(m, from()), data(good(), from())]);
        lookup(&mut new(server()), false);
    }

    /// Any bytes behind a response header.
    fn res_any() {
        let an = 1 + choose(2);
        let mut m = header(QUERY_ID, 0x8180, 0, an as u16);
        let b = bytes::<14>();
        let n = choose(if an == 1 { 14 } else { 13 });
        m.push(0);
        m.extend_from_slice(&b[..n]);
        script(vec![data(m, from()), data(good(), from())]);
        lookup(&mut new(server()), false);
    }

    /// Any bytes at all.
    fn res_raw() {
        let mut b = [0u8; 18];
        let n = choose(19);
        fill(&mut b[..n]);
        if n >= 12 {
            assume((b[4] == 0) & (b[5] == 0) & (b[6] == 0) & (b[7] < 2));
        }
        script(vec![data(b[..n].to_vec(), from())]);
        lookup(&mut new(server()), false);
    }

    /// Responses that do not fit into the receive buffer.
    fn res_big() {
        let n = [512, 511, 513, 1400][choose(4)];
        let mut m = header(QUERY_ID, 0x8180, 0, 2);
        record(&mut m, &[0], 1, 1, 1, &bytes::<4>());
        let fill = n - m.len() - 11;
        record(&mut m, &[0], 99, 1, 1, &vec![0; fill]);
        script(vec![data(m, from()), data(good(), from())]);
        lookup(&mut new(server()), false);
    }

    /// Sequences of datagrams and errors.
    fn res_sequence() {
        let mut s = vec![];
        for _ in 0..3 {
            let mut m = header(QUERY_ID, 0x8180, 0, 2);
            record(&mut m, &[0], 1, 1, 1, &bytes::<4>());
            record(&mut m, &[0], 28, 1, 1, &bytes::<16>());
            s.push(match choose(8) {
                0 => quiet(),
                1 => fail(error()),
                2 => data(m, Addr::v4(bytes::<4>(), u16_())),
                3 => {
                    m.truncate(30);
                    data(m, from())
                }
                4 => {
                    m[7] = 0;
                    data(m, from())
                }
                5 => {
                    m[2] = 0;
                    data(m, from())
                }
                6 => {
                    m[0] = u8_();
                    m[1] = u8_();
                    data(m, from())
                }
                _ => data(vec![], from()),
            });
        }
        script(s);
        lookup(&mut new(server()), false);
    }

    /// What is received is logged, which makes no difference.
    fn res_logged() {
        crate::tap::logged();
        let mut s = vec![];
        for _ in 0..2 {
            s.push(data(crate::tap::response(choose(crate::tap::RESPONSES)), Addr::v4([10, 0, 0, 7], 5353)));
        }
        s.push(data(good(), from()));
        script(s);
        if choose(2) == 0 {
            return lookup(&mut new(server()), false);
        }
        match SyncResolver::new_multicast_v4() {
            Ok(mut r) => lookup(&mut r, true),
            Err(_) => check(false, "a resolver can be made"),
        }
    }

    /// Multicast responses carry any id.
    fn res_multicast() {
        let v6 = choose(2) == 1;
        let mut m = header(u16_(), u16_(), 0, 1);
        record(&mut m, &[0], 1, 1, 1, &bytes::<4>());
        script(vec![data(m, Addr::v4([10, 0, 0, 3], 5353)), data(good(), from())]);
        let r = if v6 { SyncResolver::new_multicast_v6() } else { SyncResolver::new_multicast_v4() };
        match r {
            Ok(mut r) => lookup(&mut r, true),
            Err(_) => check(false, "a resolver can be made"),
        }
    }

    /// Several lookups with the same resolver: nothing is left over from earlier ones.
    fn res_again() {
        let mut s = vec![];
        for _ in 0..4 {
            let n = choose(2);
            let mut m = header(QUERY_ID, 0x8180, 0, 1 + n as u16);
            record(&mut m, &[0], 1, 1, 1, &bytes::<4>());
            if n == 1 {
                record(&mut m, &[0], 1, 1, 1, &bytes::<4>());
            }
            s.push(match choose(4) {
                0 => data(m, from()),
                1 => {
                    let k = m.len() - 1;
                    m.truncate(k);
                    data(m, from())
                }
                2 => quiet(),
                _ => fail(error()),
            });
        }
        script(s);
        let mut r = new(server());
        for i in 0..choose(3) {
            r.add_server(SocketAddr::new(IpAddr::from([192, 0, 2, 2 + i as u8]), 53));
        }
        let mut rounds = 0;
        while net().at < net().script.len() {
            lookup(&mut r, false);
            rounds += 1;
        }
        reach(if rounds > 1 { "several lookups" } else { "one lookup" });
    }

    /// Many addresses, and many responses of no use before.
    fn res_many() {
        let k = [5u8, 9, 16, 17, 30][choose(5)];
        let mut m = header(QUERY_ID, 0x8180, 0, k as u16);
        let x = [0, k / 2, k - 1][choose(3)];
        for i in 0..k {
            if i == x {
                record(&mut m, &[0], 1, 1, 1, &bytes::<4>());
            } else {
                record(&mut m, &[0], 1, 1, 1, &[10, 0, 0, i]);
            }
        }
        let mut s = vec![];
        let short = choose(2) == 1;
        for i in 0..[0, 5, 9, 17, 33][choose(5)] {
            let mut b = if i == 0 { header(u16_(), u16_(), 0, 0) } else { header(QUERY_ID, 0x8180, 0, 0) };
            if short {
                b.truncate(11);
            }
            s.push(data(b, from()));
        }
        s.push(data(m, from()));
        script(s);
        lookup(&mut new(server()), false);
    }

    /// The timeout is the one that was set, for every receive, and half a second unless one was set.
    fn res_timeout() {
        let mut us: u64 = [0, 1, 250_000, 999_999, 1_000_000, 61_500_000][choose(6)];
        script(vec![data(vec![0; 12], from()), data(good(), from())]);
        let kind = choose(3);
        let r = match kind {
            0 => Ok(new(server())),
            1 => SyncResolver::new_multicast_v4(),
            _ => SyncResolver::new_multicast_v6(),
        };
        let mut r = match r {
            Ok(r) => r,
            Err(_) => return check(false, "a resolver can be made"),
        };
        if us == 0 {
            us = 500_000;
            reach("default timeout");
        } else {
            check(r.set_timeout(Duration::from_micros(us)).is_ok(), "a timeout can be set");
        }
        lookup(&mut r, kind > 0);
        for w in &net().waits {
            check(*w == us, "timeout of a receive");
        }
        check(net().waits.len() == 2, "two receives");
        reach("timeout set");
    }

    // Servers.

    /// Every server is asked once, in any number.
    fn srv_v4() {
        let n = 1 + choose(4);
        let mut a = vec![];
        for _ in 0..n {
            let ip = bytes::<4>();
            assume(ip[0] & 0xf0 != 0xe0);
            a.push(SocketAddr::new(IpAddr::from(ip), u16_()));
        }
        servers(&a);
    }

    /// Many servers.
    fn srv_many() {
        let n = [5usize, 8, 9, 16, 17, 32, 33, 64][choose(8)];
        let v6 = choose(2) == 1;
        let mut a = vec![];
        for k in 0..n {
            let ip = match v6 {
                true => IpAddr::from([0xfe80, 0, 0, 0, 0, 0, 0, k as u16]),
                false => IpAddr::from([10, 0, 1, k as u8]),
            };
            a.push(SocketAddr::new(ip, if k == n - 1 { u16_() } else { 53 }));
        }
        servers(&a);
    }

    fn srv_v6() {
        let n = 1 + choose(3);
        let mut a = vec![];
        for _ in 0..n {
            let ip = bytes::<16>();
            assume(ip[0] != 0xff);
            a.push(SocketAddr::new(IpAddr::from(ip), u16_()));
        }
        servers(&a);
    }

    fn srv_multicast() {
        script(vec![data(good(), from())]);
        let (r, want) = match choose(2) {
            0 => (SyncResolver::new_multicast_v4(), Addr::v4([224, 0, 0, 251], 5353)),
            _ => (SyncResolver::new_multicast_v6(), Addr::of(&SocketAddr::new(IpAddr::from([0xff02, 0, 0, 0, 0, 0, 0, 0xfb]), 5353))),
        };
        let mut r = match r {
            Ok(r) => r,
            Err(_) => return check(false, "a resolver can be made"),
        };
        lookup(&mut r, true);
        asked(&[want]);
    }

    /// Which servers can be added to which resolver.
    fn srv_add() {
        let any = |v6: bool| if v6 { IpAddr::from(bytes::<16>()) } else { IpAddr::from(bytes::<4>()) };
        let (v6, w6) = (choose(2) == 1, choose(2) == 1);
        let (a, b) = (any(v6), any(w6));
        let multicast = match a {
            IpAddr::V4(a) => a.octets()[0] & 0xf0 == 0xe0,
            IpAddr::V6(a) => a.octets()[0] == 0xff,
        };
        script(vec![data(good(), from())]);
        let (a, b) = (SocketAddr::new(a, u16_()), SocketAddr::new(b, u16_()));
        let mut r = new(a);
        if choose(2) == 1 && !multicast {
            r.add_server(a);
        }
        allow_panic(multicast | (v6 != w6));
        r.add_server(b);
        allow_panic(false);
        check(!multicast, "no server can be added to a multicast resolver");
        check(v6 == w6, "servers of different families are refused");
        reach("server added");
    }

    /// Text names are looked up as the names they stand for; texts that are no names are not.
    fn srv_text() {
        let b = bytes::<4>();
        let n = choose(5);
        assume((b[0] < 128) & (b[1] < 128) & (b[2] < 128) & (b[3] < 128));
        let s = core::str::from_utf8(&b[..n]).unwrap();
        script(vec![data(good(), from())]);
        let mut r = new(server());
        let name = DomainName::from_str(s);
        let got = r.resolve(s).map(|i| i.count());
        match (name, got) {
            (Ok(d), Ok(k)) => {
                check(k == 1, "number of addresses");
                let mut buf = [0; 600];
                let q = encode_query(&mut buf, &d);
                check(net().sent.len() == 1, "one query is sent");
                check_bytes(&net().sent[0].msg, q, "query for a text");
                reach("looked up");
            }
            (Err(_), Err(_)) => {
                check(net().sent.is_empty(), "nothing is asked for a text that is no name");
                reach("no name");
            }
            _ => check(false, "exactly the texts that are names are looked up"),
        }
    }

    /// Several lookups: every server is asked again each time.
    fn srv_again() {
        script(vec![data(good(), from()), quiet(), data(good(), from())]);
        let mut r = new(server());
        let b = SocketAddr::new(IpAddr::from(bytes::<4>()), u16_());
        r.add_server(b);
        for k in 0..3 {
            net().sent.clear();
            lookup(&mut r, false);
            asked(&[from(), Addr::of(&b)]);
            if k == 2 {
                reach("third lookup");
            }
        }
    }

    /// A query that cannot be sent ends the lookup.
    fn srv_send_fails() {
        let e = [EIO, ECONNREFUSED, 101, 1][choose(4)];
        script(vec![data(good(), from())]);
        let mut r = new(server());
        net().send_errors = vec![e];
        let got = r.resolve_domain(&name_of(&labels(&[b"a"]))).map(|i| i.count());
        match got {
            Err(x) => check(x.raw_os_error() == Some(e), "error of the send"),
            Ok(_) => check(false, "a failed send is reported"),
        }
        check(net().waits.is_empty(), "nothing is awaited after a failed send");
        lookup(&mut r, false);
        reach("send failed");
    }

    // Queries.

    /// The bytes of a lookup query.
    fn query_lookup() {
        let l = name();
        let mut buf = [0xaau8; 600];
        let got = encode_query(&mut buf, &name_of(&l));
        check_bytes(got, &lookup_query(&l), "lookup query");
        reach("query");
    }

    fn query_lookup_long() {
        let l = long_name();
        let mut buf = [0xaau8; 600];
        let got = encode_query(&mut buf, &name_of(&l));
        check_bytes(got, &lookup_query(&l), "lookup query");
        reach("query");
    }

    /// What the resolver sends.
    fn query_sent() {
        let l = if choose(3) == 0 { long_name() } else { name() };
        script(vec![data(good(), from())]);
        let r = match choose(3) {
            0 => Ok(new(server())),
            1 => SyncResolver::new_multicast_v4(),
            _ => SyncResolver::new_multicast_v6(),
        };
        let mut r = match r {
            Ok(r) => r,
            Err(_) => return check(false, "a resolver can be made"),
        };
        check(r.resolve_domain(&name_of(&l)).is_ok(), "a useful response resolves the name");
        check(net().sent.len() == 1, "one query is sent");
        check_bytes(&net().sent[0].msg, &lookup_query(&l), "lookup query");
        reach("sent");
    }
}

/// Names of up to three labels of any bytes, and names with a special meaning somewhere.
pub fn name() -> Labels {
    match choose(6) {
        0 => return labels(&[&[u8_()], b"local"]),
        1 => return labels(&[b"_services", b"_dns-sd", b"_udp", b"local"]),
        2 => return labels(&[&[u8_()], b"_s", b"_tcp", b"local"]),
        3 => return labels(&[b"1", &[u8_()], b"0", b"10", b"in-addr", b"arpa"]),
        4 => return labels(&[b"local", b"example", b"com"]),
        _ => {}
    }
    let lens: &[usize] = [&[][..], &[1], &[3, 2], &[1, 2, 1], &[63]][choose(5)];
    lens.iter()
        .map(|&n| {
            let mut b = [0u8; 63];
            fill(&mut b[..n]);
            b[..n].to_vec()
        })
        .collect()
}
/// The longest names there are: 255 octets in few and in many labels.
pub fn long_name() -> Labels {
    let lens: Vec<usize> = match choose(2) {
        0 => vec![63, 63, 63, 61],
        _ => vec![1; 127],
    };
    let c = u8_();
    lens.iter().map(|&n| vec![c; n]).collect()
}

pub fn lookup_query(l: &Labels) -> Vec<u8> {
    let mut m = header(12345, 0x0100, 2, 0);
    for ty in [1, 28] {
        m.extend(wire(l));
        put16(&mut m, ty);
        put16(&mut m, 1);
    }
    m
}

/// Checks that exactly the given servers were asked, with the same query.
fn asked(want: &[Addr]) {
    let n = net();
    check(n.sent.len() == want.len(), "each server is asked once");
    for s in &n.sent {
        check_bytes(&s.msg, &n.sent[0].msg, "all servers are asked the same");
        check(s.sock == n.sent[0].sock, "one socket is used");
        check(s.after == n.sent[0].after, "all servers are asked before anything is awaited");
    }
    // as multisets: each wanted address occurs among the sent ones as often as it is wanted
    for w in want {
        let mut a = 0;
        let mut b = 0;
        for x in want {
            a += x.same(w) as usize;
        }
        for x in &n.sent {
            b += x.to.same(w) as usize;
        }
        check(a == b, "exactly the configured servers are asked");
    }
    let k = &n.socks[n.sent[0].sock];
    check(k.v6 == want[0].v6, "family of the socket");
    reach("asked");
}

fn servers(a: &[SocketAddr]) {
    script(vec![data(good(), from())]);
    let mut r = new(a[0]);
    for s in &a[1..] {
        r.add_server(*s);
    }
    lookup(&mut r, false);
    let want: Vec<Addr> = a.iter().map(Addr::of).collect();
    asked(&want);
}
