//! The advertiser, against a reference responder that works on plain byte strings.
use crate::rt::*;
use std::net::IpAddr;
use uwuhi::name::{DomainName, Label};
use uwuhi::packet::records::TXT;
use uwuhi::service::advertising::Advertiser;
use uwuhi::service::{InstanceDetails, ServiceInstance, ServiceTransport, TxtRecords};

pub type Labels = Vec<Vec<u8>>;

pub fn labels(l: &[&[u8]]) -> Labels {
    l.iter().map(|x| x.to_vec()).collect()
}
pub fn wire(l: &Labels) -> Vec<u8> {
    let mut w = vec![];
    for x in l {
        w.push(x.len() as u8);
        w.extend_from_slice(x);
    }
    w.push(0);
    w
}
pub fn name_of(l: &Labels) -> DomainName {
    let mut d = DomainName::ROOT;
    for x in l {
        d.push_label(Label::new(x));
    }
    d
}
pub fn same_name(a: &Labels, b: &Labels) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for (x, y) in a.iter().zip(b) {
        ok &= eq_bytes(x, y);
    }
    ok
}
pub fn put16(v: &mut Vec<u8>, x: u16) {
    v.extend_from_slice(&x.to_be_bytes());
}
pub fn put32(v: &mut Vec<u8>, x: u32) {
    v.extend_from_slice(&x.to_be_bytes());
}

/// One registered record.
pub struct Ent {
    pub name: Labels,
    pub ty: u16,
    pub data: Vec<u8>,
}

/// What is registered with the advertiser under test.
pub struct Db {
    pub adv: Advertiser,
    pub e: Vec<Ent>,
}

pub fn local(l: &[u8]) -> Labels {
    labels(&[l, b"local"])
}

impl Db {
    pub fn new(host: &[u8], ip: IpAddr) -> Db {
        let adv = match Advertiser::new(Label::new(host), ip) {
            Ok(a) => a,
            Err(_) => {
                check(false, "an advertiser can be made");
                loop {}
            }
        };
        let mut d = Db { adv, e: vec![] };
        d.host(host, ip);
        d
    }
    fn host(&mut self, host: &[u8], ip: IpAddr) {
        let (ty, data) = match ip {
            IpAddr::V4(a) => (1, a.octets().to_vec()),
            IpAddr::V6(a) => (28, a.octets().to_vec()),
        };
        self.e.push(Ent { name: local(host), ty, data });
    }
    pub fn add_name(&mut self, host: &[u8], ip: IpAddr) {
        self.adv.add_name(Label::new(host), ip);
        self.host(host, ip);
    }
    /// `txt`: at most one string, because the order of several is left open.
    pub fn add(&mut self, inst: &[u8], svc: &[u8], tcp: bool, host: &Labels, port: u16, txt: Option<&[u8]>) {
        let t = if tcp { ServiceTransport::TCP } else { ServiceTransport::Other };
        let tl: &[u8] = if tcp { b"_tcp" } else { b"_udp" };
        let mut det = InstanceDetails::new(name_of(host), port);
        if let Some(s) = txt {
            *det.txt_records_mut() = TxtRecords::from_txt(&TXT::new([s.to_vec()]));
        }
        self.adv.add_instance(ServiceInstance::new(Label::new(inst), Label::new(svc), t), det);
        let iname = labels(&[inst, svc, tl, b"local"]);
        let sname = labels(&[svc, tl, b"local"]);
        let mut srv = vec![0, 0, 0, 0];
        put16(&mut srv, port);
        srv.extend(wire(host));
        self.e.push(Ent { name: iname.clone(), ty: 33, data: srv });
        let mut t = vec![0];
        if let Some(s) = txt {
            t[0] = s.len() as u8;
            t.extend_from_slice(s);
        }
        self.e.push(Ent { name: iname.clone(), ty: 16, data: t });
        self.e.push(Ent { name: sname.clone(), ty: 12, data: wire(&iname) });
        self.e.push(Ent { name: labels(&[b"_services", b"_dns-sd", b"_udp", b"local"]), ty: 12, data: wire(&sname) });
    }
    /// The expected response: `None` when nothing matches.
    pub fn expect(&self, id: u16, qs: &[Q]) -> Option<Vec<u8>> {
        let mut body = vec![];
        let mut n = 0u16;
        for q in qs {
            for e in &self.e {
                let c = q.class & 0x7fff;
                let class_ok = (c == 1) | (c == 255);
                let type_ok = (q.ty == e.ty) | (q.ty == 255);
                if class_ok & type_ok & same_name(&q.name, &e.name) {
                    n += 1;
                    body.extend(wire(&e.name));
                    put16(&mut body, e.ty);
                    put16(&mut body, 1);
                    put32(&mut body, 120);
                    put16(&mut body, e.data.len() as u16);
                    body.extend_from_slice(&e.data);
                }
            }
        }
        if n == 0 {
            return None;
        }
        let mut m = vec![];
        put16(&mut m, id);
        put16(&mut m, 0x8400);
        put16(&mut m, 0);
        put16(&mut m, n);
        put32(&mut m, 0);
        m.extend(body);
        Some(m)
    }
    pub fn ask(&mut self, msg: &[u8], want: Option<Vec<u8>>, what: &'static str) {
        match (self.adv.handle_packet(msg), want) {
            (Ok(None), None) => reach("silent"),
            (Ok(Some(got)), Some(want)) => {
                check_bytes(got, &want, what);
                reach("answered");
            }
            (Ok(Some(_)), None) => check(false, "silence is expected"),
            (Ok(None), Some(_)) => check(false, "an answer is expected"),
            (Err(_), _) => check(false, "a well-formed query is no error"),
        }
    }
}

pub struct Q {
    pub name: Labels,
    pub ty: u16,
    pub class: u16,
}

/// A query with the given header id and flags.
pub fn query(id: u16, flags: u16, qs: &[Q]) -> Vec<u8> {
    let mut m = vec![];
    put16(&mut m, id);
    put16(&mut m, flags);
    put16(&mut m, qs.len() as u16);
    put16(&mut m, 0);
    put32(&mut m, 0);
    for q in qs {
        m.extend(wire(&q.name));
        put16(&mut m, q.ty);
        put16(&mut m, q.class);
    }
    m
}

pub fn ip() -> IpAddr {
    if choose(2) == 0 {
        IpAddr::from(bytes::<4>())
    } else {
        IpAddr::from(bytes::<16>())
    }
}

/// A host, another host with two addresses, two instances of one service and one of another.
fn house() -> Db {
    let mut d = Db::new(b"host", IpAddr::from([10, 0, 0, 1]));
    d.add_name(b"Box", IpAddr::from([10, 0, 0, 2]));
    d.add_name(b"Box", IpAddr::from([0xfe80, 0, 0, 0, 0, 0, 0, 9]));
    d.add(b"one", b"_s", true, &local(b"host"), 80, Some(b"k=v"));
    d.add(b"two", b"_s", true, &local(b"Box"), 8080, None);
    d.add(b"one", b"_s", false, &labels(&[b"else"]), 53, Some(b"flag"));
    d
}
/// Names that are asked for in `house`, the last ones being unknown.
fn asked(k: usize) -> Labels {
    match k {
        0 => local(b"host"),
        1 => local(b"Box"),
        2 => labels(&[b"one", b"_s", b"_tcp", b"local"]),
        3 => labels(&[b"two", b"_s", b"_tcp", b"local"]),
        4 => labels(&[b"one", b"_s", b"_udp", b"local"]),
        5 => labels(&[b"_s", b"_tcp", b"local"]),
        6 => labels(&[b"_s", b"_udp", b"local"]),
        7 => labels(&[b"_services", b"_dns-sd", b"_udp", b"local"]),
        8 => labels(&[b"two", b"_s", b"_udp", b"local"]),
        9 => labels(&[b"host"]),
        10 => labels(&[b"local"]),
        11 => labels(&[]),
        12 => labels(&[b"host", b"local", b"local"]),
        13 => labels(&[b"hos", b"tlocal"]),
        _ => labels(&[b"_services", b"_dns-sd", b"_tcp", b"local"]),
    }
}
const ASKED: usize = 15;

harness! {
    /// Any type and class for any of the known names and some unknown ones.
    fn adv_types() {
        let mut d = house();
        let q = [Q { name: asked(choose(ASKED)), ty: u16_(), class: u16_() }];
        // mail-related questions match no record here
        let id = u16_();
        let want = d.expect(id, &q);
        d.ask(&query(id, 0, &q), want, "answer to one question");
    }

    /// Any header: only standard queries without response code are answered.
    fn adv_header() {
        let mut d = house();
        let (id, flags) = (u16_(), u16_());
        let q = [Q { name: asked(2 * choose(3)), ty: 255, class: 1 }];
        let silent = flags & 0xF80F != 0;
        let want = if silent { None } else { d.expect(id, &q) };
        d.ask(&query(id, flags, &q), want, "answer to any kind of header");
    }

    /// A name of arbitrary bytes is asked for.
    fn adv_names() {
        let shapes: [&[usize]; 9] = [&[], &[3], &[5], &[3, 5], &[4, 5], &[2, 4, 5], &[3, 2, 4, 5], &[1, 1], &[3, 2, 4, 4]];
        let mut l: Labels = vec![];
        for &n in shapes[choose(9)] {
            let mut b = [0u8; 8];
            fill(&mut b[..n]);
            l.push(b[..n].to_vec());
        }
        let mut d = house();
        let q = [Q { name: l, ty: 255, class: 255 }];
        let want = d.expect(7, &q);
        d.ask(&query(7, 0, &q), want, "answer to a name of arbitrary bytes");
    }

    /// Two and three questions, each answered in its turn.
    fn adv_many() {
        let n = 2 + choose(2);
        let mut q = vec![];
        for i in 0..n {
            let k = if i < 2 { choose(8) } else { 2 };
            q.push(Q { name: asked(k), ty: if i == 0 { u16_() } else { [1, 33, 16, 255][choose(4)] }, class: 0x8001 });
        }
        let mut d = house();
        let id = u16_();
        let want = d.expect(id, &q);
        d.ask(&query(id, 0x0100, &q), want, "answer to several questions");
    }

    /// Registered names, addresses, ports and metadata of arbitrary bytes.
    fn adv_regs() {
        let hb = bytes::<3>();
        let hn = 1 + choose(3);
        let h = &hb[..hn];
        let mut d = Db::new(h, ip());
        let ib = bytes::<2>();
        let sb = [b'_', u8_()];
        let tcp = choose(2) == 0;
        let target = if choose(2) == 0 { local(h) } else { labels(&[]) };
        let txt = match choose(7) {
            0 => None,
            1 => Some(&b"a=b"[..]),
            2 => Some(&b"a="[..]),
            3 => Some(&b"a=b="[..]),
            4 => Some(&b"a=="[..]),
            5 => Some(&b" A = "[..]),
            _ => Some(&b"flag"[..]),
        };
        d.add(&ib[..1 + choose(2)], &sb, tcp, &target, u16_(), txt);
        let k = choose(5);
        let n = d.e[k].name.clone();
        let id = u16_();
        let q = [Q { name: n, ty: u16_(), class: 1 }];
        let want = d.expect(id, &q);
        d.ask(&query(id, 0, &q), want, "answer from arbitrary registrations");
    }

    /// Labels of all lengths.
    fn adv_lengths() {
        let lens = [1usize, 7, 8, 14, 15, 16, 31, 32, 62, 63];
        let mut a = vec![b'n'; lens[choose(10)]];
        let z = a.len() - 1;
        a[z] = u8_();
        let which = choose(3);
        let one: &[u8] = b"_x";
        let (h, i, v): (&[u8], &[u8], &[u8]) = match which {
            0 => (&a, one, one),
            1 => (one, &a, one),
            _ => (one, one, &a),
        };
        let mut sv = vec![b'_'];
        sv.extend_from_slice(&v[1..]);
        let mut d = Db::new(h, IpAddr::from([1, 2, 3, 4]));
        d.add(i, &sv, true, &local(h), u16_(), Some(b"k=v"));
        let k = choose(5);
        let mut n = d.e[k].name.clone();
        // the name itself or one that is shorter or longer
        match choose(3) {
            0 => {}
            1 if n[0].len() < 63 => n[0].push(b'n'),
            _ => {
                let _ = n[0].pop();
                if n[0].is_empty() {
                    n[0].push(b'n');
                }
            }
        }
        let q = [Q { name: n, ty: 255, class: 1 }];
        let want = d.expect(7, &q);
        d.ask(&query(7, 0, &q), want, "answer with labels of any length");
    }

    /// Metadata of several strings, which may come in any order.
    fn adv_metadata() {
        let n = [2usize, 3, 5, 9, 17, 33][choose(6)];
        let mut strings = vec![];
        let odd = [0, n / 2, n - 1][choose(3)];
        for k in 0..n {
            let key = if k < 26 { b'A' + k as u8 } else { b'0' + (k - 26) as u8 };
            let c = u8_();
            strings.push(match if k == odd { choose(5) } else { k % 2 } {
                0 => vec![key, b'=', c],
                1 => vec![key],
                2 => vec![key, b'='],
                3 => vec![key, b'=', c, b'=', c],
                _ => {
                    let mut v = vec![c; 255];
                    v[0] = key;
                    v[1] = b'=';
                    v
                }
            });
        }
        let mut adv = match Advertiser::new(Label::new(b"h"), IpAddr::from([1, 2, 3, 4])) {
            Ok(a) => a,
            Err(_) => return check(false, "an advertiser can be made"),
        };
        let mut det = InstanceDetails::new(name_of(&local(b"h")), 1);
        *det.txt_records_mut() = TxtRecords::from_txt(&TXT::new(strings.clone()));
        adv.add_instance(ServiceInstance::new(Label::new(b"i"), Label::new(b"_s"), ServiceTransport::TCP), det);
        let name = labels(&[b"i", b"_s", b"_tcp", b"local"]);
        let m = query(3, 0, &[Q { name: name.clone(), ty: 16, class: 1 }]);
        let got = match adv.handle_packet(&m) {
            Ok(Some(g)) => g.to_vec(),
            _ => return check(false, "metadata is answered"),
        };
        let mut len = 0;
        for s in &strings {
            len += s.len() + 1;
        }
        let at = 12 + wire(&name).len() + 10;
        check(got.len() == at + len, "metadata: length of all strings");
        check(u16::from_be_bytes([got[at - 2], got[at - 1]]) as usize == len, "metadata: data length");
        let mut seen = vec![false; n];
        let mut p = at;
        while p < got.len() {
            let l = got[p] as usize;
            check(l > 0 && p + 1 + l <= got.len(), "metadata: string");
            let c = got[p + 1];
            let k = if c >= b'A' { (c - b'A') as usize } else { c.wrapping_sub(b'0') as usize + 26 };
            check(k < n && !seen[k], "metadata: each string once");
            seen[k] = true;
            check_bytes(&got[p + 1..p + 1 + l], &strings[k], "metadata: string as given");
            p += 1 + l;
        }
        reach("answered");
    }

    /// Arbitrary names on both sides.
    fn adv_both() {
        let a = bytes::<2>();
        let b = bytes::<2>();
        let mut d = Db::new(&a[..1 + choose(2)], IpAddr::from([1, 2, 3, 4]));
        d.add_name(&b[..1 + choose(2)], IpAddr::from([5, 6, 7, 8]));
        let c = bytes::<2>();
        let q = [Q { name: local(&c[..1 + choose(2)]), ty: 1, class: 1 }];
        let want = d.expect(1, &q);
        d.ask(&query(1, 0, &q), want, "answer with arbitrary names on both sides");
    }

    /// Compressed questions, records behind the questions, trailing bytes.
    fn adv_layout() {
        let mut d = house();
        let k = choose(6);
        let n = asked(k);
        let mut m = query(9, 0, &[Q { name: n.clone(), ty: 255, class: 1 }]);
        let mut q = vec![Q { name: n.clone(), ty: 255, class: 1 }];
        match choose(4) {
            0 => {
                // the same name again as a pointer
                m[5] = 2;
                m.extend_from_slice(&[0xC0, 12]);
                let t = u16_();
                put16(&mut m, t);
                put16(&mut m, 1);
                q.push(Q { name: n, ty: t, class: 1 });
            }
            1 => {
                // its tail behind another label
                m[5] = 2;
                m.extend_from_slice(&[3, b't', b'w', b'o', 0xC0, 12 + 1 + q[0].name[0].len() as u8]);
                put16(&mut m, 255);
                put16(&mut m, 1);
                let mut l = n.clone();
                l[0] = b"two".to_vec();
                q.push(Q { name: l, ty: 255, class: 1 });
            }
            2 => {
                // known answers and an additional record, whatever they are
                m[7] = 1;
                m[11] = 1;
                let r = bytes::<12>();
                m.extend_from_slice(&r);
            }
            _ => m.extend_from_slice(&bytes::<3>()),
        }
        let want = d.expect(9, &q);
        d.ask(&m, want, "answer to a query in another layout");
    }

    /// Records in any of the other sections, in any number, and whatever the counts say.
    fn adv_extra() {
        let mut d = house();
        let q = vec![Q { name: asked(choose(3) * 2), ty: 255, class: 1 }];
        let mut m = query(9, choose(2) as u16 * 0x100, &q);
        let c = [choose(4), choose(3), choose(4)];
        for s in 0..3 {
            m[7 + 2 * s] = c[s] as u8;
            for _ in 0..c[s] {
                // an OPT record, a key, or something unknown
                let t = [41, 249, 99][s];
                m.push(0);
                put16(&mut m, t);
                put16(&mut m, 1232);
                put32(&mut m, 0);
                put16(&mut m, 2);
                m.extend_from_slice(&bytes::<2>());
            }
        }
        let want = d.expect(9, &q);
        d.ask(&m, want, "answer to a query with other records");
    }
    /// Any counts of the other sections.
    fn adv_counts() {
        let mut d = house();
        let q = vec![Q { name: asked(choose(3) * 2), ty: 255, class: 1 }];
        let mut m = query(9, 0, &q);
        fill(&mut m[6..12]);
        let r = bytes::<12>();
        m.extend_from_slice(&r);
        let want = d.expect(9, &q);
        d.ask(&m, want, "answer to a query with any counts");
    }

    /// Queries cut anywhere, and counts that promise too much, are errors; nothing is answered.
    fn adv_cut() {
        let mut d = house();
        let q = [Q { name: asked(2), ty: 255, class: 1 }, Q { name: asked(choose(2) * 9), ty: 1, class: 1 }];
        let mut m = query(9, 0, &q);
        if choose(2) == 0 {
            let n = choose(70);
            assume(n < m.len());
            m.truncate(n);
        } else {
            let c = u16_();
            assume(c > 2);
            m[4] = (c >> 8) as u8;
            m[5] = c as u8;
        }
        check(d.adv.handle_packet(&m).is_err(), "a malformed query is reported");
        reach("malformed");
        let want = d.expect(9, &q[..1]);
        d.ask(&query(9, 0, &q[..1]), want, "answer after a malformed query");
    }

    /// Any datagram of up to 18 bytes (flags and id included), then one that is to be answered as by
    /// a new advertiser.
    fn adv_any() { any(6) }
    fn adv_any_long() { any(8) }

    /// Answers, errors and truncated answers leave no trace in later answers.
    fn adv_history() {
        let mut d = house();
        let id = bytes::<6>();
        for i in 0..3 {
            let x = (id[2 * i] as u16) << 8 | id[2 * i + 1] as u16;
            let k = choose(5);
            match k {
                0 | 1 => {
                    let q = [Q { name: asked(2 * k), ty: if i == 1 { u16_() } else { 255 }, class: 1 }];
                    let want = d.expect(x, &q);
                    d.ask(&query(x, 0, &q), want, "answer within a history");
                }
                2 => {
                    let q = [Q { name: asked(0), ty: 1, class: 1 }];
                    let m = query(x, 0, &q);
                    check(d.adv.handle_packet(&m[..20]).is_err(), "a malformed query is reported");
                }
                3 => {
                    // the first question matches, the second is cut
                    let q = [Q { name: asked(0), ty: 1, class: 1 }, Q { name: asked(1), ty: 1, class: 1 }];
                    let m = query(x, 0, &q);
                    check(d.adv.handle_packet(&m[..m.len() - 1]).is_err(), "a malformed query is reported");
                }
                _ => big(&mut d, x),
            }
        }
    }

    /// What is asked is logged, which makes no difference.
    fn adv_logged() {
        crate::tap::logged();
        let mut d = house();
        let c = u8_();
        d.add(&[c, 0xff, b'\n'], b"_s", true, &labels(&[&[c]]), 7, Some(&[b'k', b'=', c]));
        let m = crate::tap::response(choose(crate::tap::RESPONSES));
        let k = choose(2);
        let mut m = m;
        if k == 1 && m.len() > 7 {
            // the same as a query
            m[2] = 0;
            m[5] = m[7];
        }
        let _ = d.adv.handle_packet(&m);
        let q = vec![Q { name: [labels(&[&[c, 0xff, b'\n'], b"_s", b"_tcp", b"local"]), asked(5), asked(10)][choose(3)].clone(), ty: 255, class: 1 }, Q { name: asked(7), ty: 12, class: 0x8001 }];
        let want = d.expect(9, &q);
        d.ask(&query(9, 0, &q), want, "answer that is logged");
    }

    /// Many registrations, and many questions.
    fn adv_scale() {
        let n = [7usize, 16, 31, 64, 129][choose(5)];
        let v = u8_();
        let mut d = Db::new(&[b'h', 0], IpAddr::from([1, 2, 3, v]));
        for i in 1..n {
            match i % 3 {
                0 => d.add_name(&[b'h', i as u8], IpAddr::from([1, 2, i as u8, v])),
                1 => d.add(&[i as u8], b"_s", true, &local(&[b'h', i as u8]), u16::from_be_bytes([i as u8, v]), Some(&[b'k', b'=', v])),
                _ => d.add(&[i as u8], &[b'_', i as u8], i % 2 == 0, &local(b"h"), i as u16, None),
            }
        }
        let mut q = vec![];
        let ends = [0, n - 1, n / 2, n - 2, n - 3];
        let (k, missed) = [(1, 0), (2, 0), (5, 0), (9, 0), (17, 0), (1, 33), (2, 70)][choose(7)];
        let ty = u16_();
        // Questions that nothing matches count for nothing.
        for _ in 0..missed {
            q.push(Q { name: labels(&[b"x"]), ty: 255, class: 1 });
        }
        for j in 0..k {
            let i = if j == k - 1 { ends[choose(5)] } else { j * 7 % n };
            let name = match i % 3 {
                0 => local(&[b'h', i as u8]),
                1 => labels(&[&[i as u8], b"_s", b"_tcp", b"local"]),
                _ => labels(&[&[b'_', i as u8], if i % 2 == 0 { b"_tcp" } else { b"_udp" }, b"local"]),
            };
            q.push(Q { name, ty: if j == k - 1 { ty } else { 255 }, class: 1 });
        }
        let want = d.expect(5, &q);
        d.ask(&query(5, 0, &q), want, "answer out of many registrations");
        reach("many");
    }

    /// Names and instances that are registered between queries.
    fn adv_grow() {
        let mut d = Db::new(b"a", IpAddr::from([1, 2, 3, 4]));
        let id = u16_();
        let ask = |d: &mut Db, k: usize| {
            let n = [local(b"a"), labels(&[b"_s", b"_tcp", b"local"]), labels(&[b"i", b"_s", b"_tcp", b"local"])][k].clone();
            let q = [Q { name: n, ty: 255, class: 1 }];
            let want = d.expect(id, &q);
            d.ask(&query(id, 0, &q), want, "answer between registrations");
        };
        for _ in 0..2 {
            let k = choose(3);
            ask(&mut d, k);
            match choose(3) {
                0 => d.add_name(b"a", IpAddr::from(bytes::<4>())),
                1 => d.add(b"i", b"_s", true, &local(b"a"), u16_(), None),
                _ => d.add(&[u8_()], b"_s", true, &local(b"a"), 1, Some(b"x=y")),
            }
            ask(&mut d, k);
        }
        reach("grown");
    }

    /// Many messages before the one that counts.
    fn adv_long() {
        let mut d = house();
        let n = [17usize, 40, 70, 260][choose(4)];
        let kind = choose(4);
        for i in 0..n {
            let id = i as u16;
            match if kind == 3 { i % 3 } else { kind } {
                0 => {
                    let q = [Q { name: asked(i % 9), ty: 255, class: 1 }];
                    let want = d.expect(id, &q);
                    d.ask(&query(id, 0, &q), want, "answer within a long history");
                }
                1 => {
                    let q = [Q { name: asked(i % 9), ty: 255, class: 1 }];
                    let m = query(id, 0, &q);
                    check(d.adv.handle_packet(&m[..m.len() - 1]).is_err(), "a malformed query is reported");
                }
                _ => {
                    if i % 40 == 0 {
                        big(&mut d, id);
                    } else {
                        let q = [Q { name: asked(9), ty: 255, class: 1 }];
                        d.ask(&query(id, 0, &q), None, "silence within a long history");
                    }
                }
            }
        }
        let id = u16_();
        let q = [Q { name: asked(choose(9)), ty: 255, class: 1 }];
        let want = d.expect(id, &q);
        d.ask(&query(id, 0, &q), want, "answer after a long history");
        reach("long history");
    }

    /// Metadata strings of any length: what no record can hold is refused when it is registered, not
    /// when somebody asks.
    fn adv_flags() {
        let n = [1, 254, 255, 256, 257, 300, 1600][choose(7)];
        let mut d = Db::new(b"a", IpAddr::from([1, 2, 3, 4]));
        let mut det = InstanceDetails::new(name_of(&local(b"a")), 1);
        let two = choose(2) == 1;
        allow_panic(n > 255);
        det.txt_records_mut().add_flag("f".repeat(n));
        if two {
            det.txt_records_mut().add_flag("g".into());
        }
        d.adv.add_instance(ServiceInstance::new(Label::new(b"i"), Label::new(b"_s"), ServiceTransport::TCP), det);
        allow_panic(false);
        let mut data = vec![n as u8];
        data.resize(1 + if n > 255 { 0 } else { n }, b'f');
        if two {
            data.extend_from_slice(b"\x01g");
        }
        d.e.push(Ent { name: labels(&[b"i", b"_s", b"_tcp", b"local"]), ty: 16, data });
        let id = u16_();
        let q = [Q { name: labels(&[b"i", b"_s", b"_tcp", b"local"]), ty: 16, class: 1 }];
        let m = query(id, 0, &q);
        if n <= 255 {
            let want = d.expect(id, &q);
            d.ask(&m, want, "answer with a long metadata string");
            reach("long metadata");
        } else {
            check(d.adv.handle_packet(&m).is_ok(), "a well-formed query is no error");
            reach("overlong metadata");
        }
    }

    /// Answers around and beyond the size of the buffer.
    fn adv_trunc() {
        let mut d = Db::new(&[b'h'; 63], IpAddr::from([1, 2, 3, 4]));
        let n = [15usize, 16, 17, 20][choose(4)];
        let last = bytes::<4>();
        for _ in 0..n {
            d.add_name(&[b'h'; 63], IpAddr::from(last));
        }
        let id = u16_();
        let q = [Q { name: local(&[b'h'; 63]), ty: 1, class: 1 }];
        cut_answer(&mut d, id, &q);
    }

    /// The cut falls on every place of a record.
    fn adv_trunc_at() {
        let l = 1 + choose(30);
        let mut d = Db::new(b"h", IpAddr::from([1, 2, 3, 4]));
        let v = u8_();
        let n = 1488 / (22 + l) + choose(3);
        for _ in 0..n {
            d.add_name(&[b'x'; 30][..l], IpAddr::from([9, 9, 9, v]));
        }
        let q = [Q { name: local(&[b'x'; 30][..l]), ty: 255, class: 1 }];
        cut_answer(&mut d, 77, &q);
    }
}

/// Asks the same question so often that the answer does not fit.
fn big(d: &mut Db, id: u16) {
    let mut q = vec![];
    for _ in 0..40 {
        q.push(Q { name: asked(2), ty: 255, class: 1 });
    }
    cut_answer(d, id, &q);
}

fn cut_answer(d: &mut Db, id: u16, q: &[Q]) {
    let full = match d.expect(id, q) {
        Some(w) => w,
        None => return check(false, "harness"),
    };
    let m = query(id, 0, q);
    if full.len() <= 1500 {
        return d.ask(&m, Some(full), "answer that just fits");
    }
    match d.adv.handle_packet(&m) {
        Ok(Some(r)) => {
            check(r.len() == 1500, "a truncated answer fills the buffer");
            check(r[0] == full[0] && r[1] == full[1] && r[2] == 0x86 && r[3] == 0, "header of a truncated answer");
            check_bytes(&r[4..12], &full[4..12], "counts of a truncated answer");
            // the record that is cut announces the data that is there
            let mut want = full;
            let mut p = 12;
            loop {
                while want[p] != 0 {
                    p += 1 + want[p] as usize;
                }
                p += 11;
                let e = p + ((want[p - 2] as usize) << 8 | want[p - 1] as usize);
                if e > 1500 {
                    let l = if p < 1500 { 1500 - p } else { 0 };
                    want[p - 2] = (l >> 8) as u8;
                    want[p - 1] = l as u8;
                    break;
                }
                p = e;
            }
            check_bytes(&r[12..], &want[12..1500], "records of a truncated answer");
            reach("truncated answer");
        }
        _ => check(false, "a truncated answer is sent"),
    }
}

fn any(k: usize) {
    let mut d = house();
    let mut b = [0u8; 24];
    b[0] = u8_();
    b[2] = u8_();
    b[5] = u8_();
    fill(&mut b[12..12 + k]);
    let n = choose(13 + k);
    let _ = d.adv.handle_packet(&b[..n]);
    reach("any datagram");
    let q = [Q { name: asked(0), ty: 255, class: 1 }];
    let want = d.expect(5, &q);
    d.ask(&query(5, 0, &q), want, "answer after any datagram");
}
