//! The encoder: what it writes, against bytes produced here by hand from RFC 1035.
use crate::rt::*;
use std::net::{Ipv4Addr, Ipv6Addr};
use uwuhi::name::{DomainName, Label};
use uwuhi::packet::decoder::MessageDecoder;
use uwuhi::packet::encoder::{MessageEncoder, Question, ResourceRecord};
use uwuhi::packet::records::*;
use uwuhi::packet::{Class, Header, QClass, QType};
use uwuhi::Error;

pub const CAP: usize = 1600;

/// The expected message.
pub struct W {
    pub b: [u8; CAP],
    pub n: usize,
    /// where the data of each record starts and ends
    pub rr: [(usize, usize); 24],
    pub rrs: usize,
}
impl W {
    pub fn new() -> W {
        W { b: [0; CAP], n: 12, rr: [(0, 0); 24], rrs: 0 }
    }
    pub fn get(&self) -> &[u8] {
        &self.b[..self.n]
    }
    pub fn u8(&mut self, v: u8) {
        self.b[self.n] = v;
        self.n += 1;
    }
    pub fn u16(&mut self, v: u16) {
        self.u8((v >> 8) as u8);
        self.u8(v as u8);
    }
    pub fn u32(&mut self, v: u32) {
        self.u16((v >> 16) as u16);
        self.u16(v as u16);
    }
    pub fn raw(&mut self, v: &[u8]) {
        self.b[self.n..self.n + v.len()].copy_from_slice(v);
        self.n += v.len();
    }
    pub fn label(&mut self, l: &[u8]) {
        self.u8(l.len() as u8);
        self.raw(l);
    }
    pub fn name(&mut self, d: &[&[u8]]) {
        for l in d {
            self.label(l);
        }
        self.u8(0);
    }
    /// Id, flags and the four counts.
    pub fn head(&mut self, id: u16, flags: u16, counts: [u16; 4]) {
        let n = self.n;
        self.n = 0;
        self.u16(id);
        self.u16(flags);
        for c in counts {
            self.u16(c);
        }
        self.n = n;
    }
    /// Type, class, TTL, and a place for the length of the data; returns that place.
    pub fn rr(&mut self, ty: u16, class: u16, ttl: u32) -> usize {
        self.u16(ty);
        self.u16(class);
        self.u32(ttl);
        self.u16(0);
        self.n
    }
    pub fn end(&mut self, at: usize) {
        let l = self.n - at;
        self.b[at - 2] = (l >> 8) as u8;
        self.b[at - 1] = l as u8;
        if self.rrs < 24 {
            self.rr[self.rrs] = (at, self.n);
            self.rrs += 1;
        }
    }
    /// What is left of the message in a buffer of `size` octets: a prefix, in which the record that
    /// is cut announces the data that is there.
    pub fn cut(&mut self, size: usize) -> &[u8] {
        for k in 0..self.rrs {
            let (at, end) = self.rr[k];
            if end > size && at - 2 < size {
                let l = if size > at { size - at } else { 0 };
                self.b[at - 2] = (l >> 8) as u8;
                self.b[at - 1] = l as u8;
            }
        }
        &self.b[..size]
    }
}

pub fn class_(v: u16) -> Class {
    bytemuck::cast(v)
}
pub fn qclass_(v: u16) -> QClass {
    bytemuck::cast(v)
}
pub fn qtype_(v: u16) -> QType {
    bytemuck::cast(v)
}
pub fn header_(v: [u8; 12]) -> Header {
    bytemuck::cast(v)
}

/// Up to two labels of arbitrary bytes in one of several lengths.
pub struct Dom {
    pub b: [[u8; 63]; 2],
    pub l: [usize; 2],
    pub n: usize,
}
pub fn dom(shape: usize) -> Dom {
    let mut d = Dom { b: [[0; 63]; 2], l: [0; 2], n: 0 };
    let lens: &[usize] = [&[][..], &[1], &[3, 2], &[63], &[1, 63]][shape];
    for (k, &n) in lens.iter().enumerate() {
        d.l[k] = n;
        fill(&mut d.b[k][..n]);
        d.n += 1;
    }
    d
}
impl Dom {
    pub fn name(&self) -> DomainName {
        let mut x = DomainName::ROOT;
        for k in 0..self.n {
            x.push_label(Label::new(&self.b[k][..self.l[k]]));
        }
        x
    }
    pub fn put(&self, w: &mut W) {
        for k in 0..self.n {
            w.label(&self.b[k][..self.l[k]]);
        }
        w.u8(0);
    }
}

/// A record of type number `k` (0..9) with arbitrary contents, and its expected data.
pub fn record(k: usize, w: &mut W, d: &Dom, e: &Dom) -> Record<'static> {
    match k {
        0 => {
            let a = bytes::<4>();
            w.raw(&a);
            Record::A(A::new(Ipv4Addr::from(a)))
        }
        1 => {
            let a = bytes::<16>();
            w.raw(&a);
            Record::AAAA(AAAA::new(Ipv6Addr::from(a)))
        }
        2 => {
            d.put(w);
            Record::CNAME(CNAME::new(d.name()))
        }
        3 => {
            let p = u16_();
            w.u16(p);
            d.put(w);
            Record::MX(MX::new(p, d.name()))
        }
        4 => {
            d.put(w);
            Record::NS(NS::new(d.name()))
        }
        5 => {
            d.put(w);
            Record::PTR(PTR::new(d.name()))
        }
        6 => {
            let mut lens = vec![];
            match choose(5) {
                0 => lens.push([255, 254, 128, 64][choose(4)]),
                1 => lens.extend_from_slice(&[&[1; 5][..], &[0; 5], &[3, 0, 2, 0]][choose(3)]),
                k => (1..k).for_each(|_| lens.push([0, 1, 2][choose(3)])),
            }
            let mut v: Vec<Vec<u8>> = vec![];
            for n in lens {
                let mut b = [0u8; 255];
                fill(&mut b[..n.min(9)]);
                w.label(&b[..n]);
                v.push(b[..n].to_vec());
            }
            Record::TXT(TXT::new(v))
        }
        7 => {
            let (a, b, c) = (u16_(), u16_(), u16_());
            w.u16(a);
            w.u16(b);
            w.u16(c);
            d.put(w);
            Record::SRV(SRV::new(a, b, c, d.name()))
        }
        _ => {
            d.put(w);
            e.put(w);
            let v = [u32_(), u32_(), u32_(), u32_(), u32_()];
            for x in v {
                w.u32(x);
            }
            Record::SOA(SOA::new(d.name(), e.name(), v[0], v[1], v[2], v[3], v[4]))
        }
    }
}
pub const TYPES: [u16; 9] = [1, 28, 5, 15, 2, 12, 16, 33, 6];

fn same(a: &Record, b: &Record) -> bool {
    match (a, b) {
        (Record::A(a), Record::A(b)) => a == b,
        (Record::AAAA(a), Record::AAAA(b)) => a == b,
        (Record::CNAME(a), Record::CNAME(b)) => a == b,
        (Record::MX(a), Record::MX(b)) => a == b,
        (Record::NS(a), Record::NS(b)) => a == b,
        (Record::PTR(a), Record::PTR(b)) => a == b,
        (Record::TXT(a), Record::TXT(b)) => a == b,
        (Record::SRV(a), Record::SRV(b)) => a == b,
        (Record::SOA(a), Record::SOA(b)) => a == b,
        _ => false,
    }
}

/// Buffers start out with other contents, which must not show through.
fn buffer() -> [u8; CAP] {
    [0xA5; CAP]
}

/// One record (with arbitrary class and TTL) of every type in the section `sec`.
fn one_record(sec: usize, shapes: &[usize]) {
    let mut w = W::new();
    let k = choose(9);
    let d = dom(shapes[choose(shapes.len())]);
    let e = dom(2);
    d.put(&mut w);
    let (class, ttl) = (u16_(), u32_());
    let at = w.rr(TYPES[k], class, ttl);
    let rec = record(k, &mut w, &d, &e);
    w.end(at);
    let mut c = [0; 4];
    c[sec] = 1;
    w.head(0, 0, c);
    let mut buf = buffer();
    let name = d.name();
    let rr = ResourceRecord::new(&name, &rec).class(class_(class)).ttl(ttl);
    let enc = MessageEncoder::new(&mut buf);
    let len = match sec {
        1 => {
            let mut enc = enc.answers();
            enc.add_answer(rr);
            enc.finish()
        }
        2 => {
            let mut enc = enc.answers().authority();
            enc.add_authority(rr);
            enc.finish()
        }
        _ => {
            let mut enc = enc.answers().authority().additional();
            enc.add_additional(rr);
            enc.finish()
        }
    };
    let len = match len {
        Ok(n) => n,
        Err(_) => return check(false, "the message fits"),
    };
    check_bytes(&buf[..len], w.get(), "encoded record");
    // and back
    let m = &buf[..len];
    let dec = match MessageDecoder::new(m).and_then(|d| d.answers()) {
        Ok(d) => d,
        Err(_) => return check(false, "own message is decodable"),
    };
    let chk = |r: Option<Result<uwuhi::packet::decoder::ResourceRecord, Error>>| match r {
        Some(Ok(r)) => {
            check(*r.name() == name, "round trip: owner name");
            check(r.class() == class_(class & 0x7fff), "round trip: class");
            check(r.ttl() == ttl, "round trip: TTL");
            match r.as_enum() {
                Some(Ok(x)) => check(same(&x, &rec), "round trip: record"),
                _ => check(false, "round trip: record"),
            }
            reach(["A", "AAAA", "CNAME", "MX", "NS", "PTR", "TXT", "SRV", "SOA"][k]);
        }
        _ => check(false, "own message is decodable"),
    };
    match sec {
        1 => {
            let mut dec = dec;
            chk(dec.next());
        }
        2 => match dec.authority() {
            Ok(mut dec) => chk(dec.next()),
            Err(_) => check(false, "own message is decodable"),
        },
        _ => match dec.additional() {
            Ok(mut dec) => chk(dec.next()),
            Err(_) => check(false, "own message is decodable"),
        },
    }
}

/// A message with `c` items in the four sections: names of arbitrary bytes, A records.
/// `ends` receives the offset behind each item.
fn many<'b>(c: [usize; 4], w: &mut W, buf: &'b mut [u8], ends: &mut [usize; 16], hdr: Option<[u8; 12]>) -> Result<usize, Error> {
    let mut k = 0;
    let mut enc = MessageEncoder::new(buf);
    if let Some(h) = hdr {
        enc.set_header(header_(h));
    }
    for i in 0..c[0] {
        let d = dom(1 + i % 2);
        let (t, cl) = (u16_(), u16_());
        d.put(w);
        w.u16(t);
        w.u16(cl);
        let n = d.name();
        enc.question(Question::new(&n).ty(qtype_(t)).class(qclass_(cl)));
        ends[k] = w.n;
        k += 1;
    }
    macro_rules! rrs {
        ($enc:expr, $f:ident, $n:expr) => {
            for i in 0..$n {
                let d = dom((i + 1) % 3);
                d.put(w);
                let ttl = u32_();
                let at = w.rr(TYPES[0], 1, ttl);
                let r = record(0, w, &d, &d);
                w.end(at);
                let n = d.name();
                $enc.$f(ResourceRecord::new(&n, &r).ttl(ttl));
                ends[k] = w.n;
                k += 1;
            }
        };
    }
    let mut enc = enc.answers();
    rrs!(enc, add_answer, c[1]);
    let mut enc = enc.authority();
    rrs!(enc, add_authority, c[2]);
    let mut enc = enc.additional();
    rrs!(enc, add_additional, c[3]);
    enc.finish()
}

fn counts16(c: [usize; 4]) -> [u16; 4] {
    [c[0] as u16, c[1] as u16, c[2] as u16, c[3] as u16]
}

/// The messages used for encoding into short buffers; returns the number of items.
fn short(k: usize, w: &mut W, buf: &mut [u8], ends: &mut [usize; 16]) -> (usize, [usize; 4], Result<usize, Error>) {
    if k < 4 {
        let c = [[2, 0, 0, 0], [1, 1, 0, 0], [0, 1, 1, 1], [0, 2, 0, 1]][k];
        let r = many(c, w, buf, ends, None);
        return (c.iter().sum(), c, r);
    }
    // one record of each type, then an A record that may still fit where the first did not
    let t = k - 4;
    let d = dom(2);
    let e = dom(1);
    d.put(w);
    let ttl = u32_();
    let at = w.rr(TYPES[t], 1, ttl);
    let rec = if t == 6 {
        let b = bytes::<6>();
        w.label(&b[..3]);
        w.label(&[]);
        w.label(&b[3..]);
        Record::TXT(TXT::new([b[..3].to_vec(), vec![], b[3..].to_vec()]))
    } else {
        record(t, w, &d, &e)
    };
    w.end(at);
    ends[0] = w.n;
    e.put(w);
    let at = w.rr(1, 1, 7);
    let rec2 = record(0, w, &d, &e);
    w.end(at);
    ends[1] = w.n;
    let (dn, en) = (d.name(), e.name());
    let mut enc = MessageEncoder::new(buf).answers();
    enc.add_answer(ResourceRecord::new(&dn, &rec).ttl(ttl));
    enc.add_answer(ResourceRecord::new(&en, &rec2).ttl(7));
    (2, [0, 2, 0, 0], enc.finish())
}

fn short_any(k: usize) {
    let mut w = W::new();
    let mut ends = [0; 16];
    let mut store = buffer();
    let size = 12 + choose(150);
    let (items, c, r) = short(k, &mut w, &mut store[..size], &mut ends);
    let fits = size >= w.n;
    check(store[size] == 0xA5, "nothing is written behind the buffer");
    match r {
        Ok(n) => {
            check(fits, "success only when the whole message fits");
            check(n == w.n, "number of bytes written");
            w.head(0, 0, counts16(c));
            check_bytes(&store[..n], w.get(), "complete message");
            reach("fits");
        }
        Err(e) => {
            check(e == Error::Truncated, "error of a truncated message");
            check(!fits, "truncation is reported only when something is missing");
            w.head(0, 0x0200, counts16(c));
            check_bytes(&store[..12], &w.b[..12], "header of a truncated message: TC bit and nothing else");
            check_bytes(&store[..size], w.cut(size), "a truncated message is a prefix of the whole one");
            let mut whole = 12;
            for k in 0..items {
                if ends[k] <= size {
                    whole = ends[k];
                }
            }
            check_bytes(&store[..whole], &w.b[..whole], "items in front of the cut are intact");
            if whole > 12 {
                reach("truncated behind an item");
            }
            reach("truncated");
        }
    }
    if !fits {
        // the items that fitted are found in the truncated message
        let m = &store[..size];
        let mut d = match MessageDecoder::new(m) {
            Ok(d) => d,
            Err(_) => return check(false, "header of a truncated message"),
        };
        check(d.header().is_truncated(), "TC bit");
        for i in 0..c[0] {
            if ends[i] <= size {
                check(matches!(d.next(), Some(Ok(_))), "questions in front of the cut can be read");
            }
        }
        if c[0] == 0 || ends[c[0] - 1] <= size {
            match d.answers() {
                Ok(mut d) => {
                    for i in 0..c[1] {
                        if ends[c[0] + i] <= size {
                            check(matches!(d.next(), Some(Ok(_))), "records in front of the cut can be read");
                        }
                    }
                }
                Err(_) => check(false, "questions in front of the cut can be skipped"),
            }
        }
    }
}

harness! {
    fn enc_answer() { one_record(1, &[0, 1, 2, 3, 4]) }
    fn enc_authority() { one_record(2, &[0, 2, 4]) }
    fn enc_additional() { one_record(3, &[1, 2, 3]) }

    /// Items in all sections.
    fn enc_sections() {
        let c = [choose(3), choose(3), choose(3), choose(3)];
        let mut w = W::new();
        let mut buf = buffer();
        let mut ends = [0; 16];
        let r = many(c, &mut w, &mut buf, &mut ends, None);
        w.head(0, 0, counts16(c));
        match r {
            Ok(n) => check_bytes(&buf[..n], w.get(), "message with items in all sections"),
            Err(_) => check(false, "the message fits"),
        }
        reach("encoded");
    }

    /// Default class and type of a question, default class and TTL of a record.
    fn enc_defaults() {
        let d = dom(2);
        let mut w = W::new();
        d.put(&mut w);
        w.u16(255);
        w.u16(1);
        d.put(&mut w);
        let at = w.rr(1, 1, 0);
        let r = record(0, &mut w, &d, &d);
        w.end(at);
        w.head(0, 0, [1, 1, 0, 0]);
        let mut buf = buffer();
        let n = d.name();
        let mut enc = MessageEncoder::new(&mut buf);
        enc.question(Question::new(&n));
        let mut enc = enc.answers();
        enc.add_answer(ResourceRecord::new(&n, &r));
        if choose(2) == 0 {
            drop(enc); // finishes the message as well
            check_bytes(&buf[..w.n], w.get(), "dropped encoder");
            reach("dropped");
            return;
        }
        match enc.finish() {
            Ok(n) => check_bytes(&buf[..n], w.get(), "defaults"),
            Err(_) => check(false, "the message fits"),
        }
        reach("encoded");
    }

    /// `set_header` with arbitrary contents: id and flags survive, counts and TC are the encoder's.
    fn enc_header() {
        let h = bytes::<12>();
        let c = [choose(2), choose(3), choose(2), choose(2)];
        let mut w = W::new();
        let mut buf = buffer();
        let mut ends = [0; 16];
        let r = many(c, &mut w, &mut buf, &mut ends, Some(h));
        w.head((h[0] as u16) << 8 | h[1] as u16, ((h[2] as u16) << 8 | h[3] as u16) & !0x0200, counts16(c));
        match r {
            Ok(n) => check_bytes(&buf[..n], w.get(), "header given to the encoder"),
            Err(_) => check(false, "the message fits"),
        }
        reach("encoded");
    }

    /// Counts that need both octets.
    fn enc_counts() {
        let sec = choose(4);
        let n = [255usize, 256, 257, 300][choose(4)];
        let mut c = [0u16; 4];
        c[sec] = n as u16;
        let mut w = W::new();
        w.head(0, 0, c);
        let name = DomainName::ROOT;
        let rec = Record::A(A::new(Ipv4Addr::new(1, 2, 3, 4)));
        let mut buf = [0xA5u8; 12 + 15 * 300];
        let mut enc = MessageEncoder::new(&mut buf);
        let t = u16_();
        if sec == 0 {
            for _ in 0..n {
                enc.question(Question::new(&name).ty(qtype_(t)));
            }
        }
        let mut enc = enc.answers();
        if sec == 1 {
            for _ in 0..n {
                enc.add_answer(ResourceRecord::new(&name, &rec));
            }
        }
        let mut enc = enc.authority();
        if sec == 2 {
            for _ in 0..n {
                enc.add_authority(ResourceRecord::new(&name, &rec));
            }
        }
        let mut enc = enc.additional();
        if sec == 3 {
            for _ in 0..n {
                enc.add_additional(ResourceRecord::new(&name, &rec));
            }
        }
        let r = enc.finish();
        check(r == Ok(12 + n * if sec == 0 { 5 } else { 15 }), "length of a long message");
        check_bytes(&buf[..12], &w.b[..12], "counts above 255");
        reach("encoded");
    }

    /// Data up to and beyond what an RDLENGTH can hold, and messages of more than 65535 octets. Data that is
    /// too long may be refused, but nothing else may be written for it.
    fn enc_huge() {
        let (n, last) = [(10usize, 3usize), (255, 0), (255, 254), (256, 0), (300, 7)][choose(5)];
        let sec = choose(3);
        let (a, b) = (u8_(), u8_());
        let mut v: Vec<Vec<u8>> = vec![vec![a; 255]; n];
        if last > 0 {
            v.push(vec![b; last]);
        }
        let total = n * 256 + if last > 0 { last + 1 } else { 0 };
        let fits = total <= 65535;
        let rec = Record::TXT(TXT::new(v));
        let small = Record::A(A::new(Ipv4Addr::new(1, 2, 3, a)));
        let name = DomainName::from_str("z").unwrap_or(DomainName::ROOT);
        let mut buf = vec![0xA5u8; 150000];
        let mut enc = MessageEncoder::new(&mut buf).answers();
        allow_panic(!fits);
        let r = match sec {
            0 => {
                for _ in 0..2 {
                    enc.add_answer(ResourceRecord::new(&name, &rec));
                }
                enc.add_answer(ResourceRecord::new(&name, &small));
                enc.finish()
            }
            1 => {
                let mut enc = enc.authority();
                for _ in 0..2 {
                    enc.add_authority(ResourceRecord::new(&name, &rec));
                }
                enc.add_authority(ResourceRecord::new(&name, &small));
                enc.finish()
            }
            _ => {
                let mut enc = enc.authority().additional();
                for _ in 0..2 {
                    enc.add_additional(ResourceRecord::new(&name, &rec));
                }
                enc.add_additional(ResourceRecord::new(&name, &small));
                enc.finish()
            }
        };
        allow_panic(false);
        if !fits {
            // a message that says that it is incomplete is fine as well
            if r.is_err() {
                reach("refused");
                return;
            }
        }
        check(fits, "data that no RDLENGTH can hold is refused");
        let want = 12 + 2 * (3 + 10 + total) + 3 + 14;
        check(r == Ok(want), "length of a very long message");
        let mut w = W::new();
        let mut c = [0u16; 4];
        c[1 + sec] = 3;
        w.head(0, 0, c);
        check_bytes(&buf[..12], &w.b[..12], "header of a very long message");
        let mut p = 12;
        for _ in 0..2 {
            check_bytes(&buf[p..p + 11], &[1, b'z', 0, 0, 16, 0, 1, 0, 0, 0, 0], "record with a lot of data");
            check_bytes(&buf[p + 11..p + 13], &(total as u16).to_be_bytes(), "length of a lot of data");
            p += 13;
            for k in 0..n {
                if k == 0 || k + 1 == n {
                    check(buf[p] == 255, "length of a string");
                    check_bytes(&buf[p + 1..p + 256], &[a; 255], "string");
                }
                p += 256;
            }
            if last > 0 {
                check(buf[p] == last as u8, "length of the last string");
                check_bytes(&buf[p + 1..p + 1 + last], &[b; 255][..last], "last string");
                p += 1 + last;
            }
        }
        check_bytes(&buf[p..want], &[1, b'z', 0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 4, 1, 2, 3, a], "record behind a lot of data");
        reach("encoded");
    }

    fn short_q() { short_any(0) }
    fn short_qa() { short_any(1) }
    fn short_rrr() { short_any(2) }
    fn short_aa() { short_any(3) }
    fn short_types() { short_any(4 + choose(9)) }

    /// A buffer without room for a header is refused by `new`, which says so.
    fn short_header() {
        let n = choose(13);
        let mut buf = [0u8; 13];
        allow_panic(n < 12);
        let enc = MessageEncoder::new(&mut buf[..n]);
        allow_panic(false);
        check(n >= 12, "buffer too short for a header is refused");
        if n >= 12 {
            check(enc.finish() == Ok(12), "empty message");
            check_bytes(&buf[..12], &[0; 12], "empty message");
            reach("empty message");
        }
    }

    /// The header is given at any time, also more than once and behind what did not fit: the last one
    /// counts.
    fn short_header_late() {
        let mut w = W::new();
        let mut store = buffer();
        let size = [12usize, 14, 20, 28, 29, 30, 43, 44, 50, 100][choose(10)];
        let (h, g) = (bytes::<12>(), bytes::<12>());
        let when = choose(6);
        let twice = choose(2) == 1;
        let name = DomainName::ROOT;
        let a = bytes::<4>();
        let rec = Record::A(A::new(Ipv4Addr::from(a)));
        macro_rules! at {
            ($e:expr, $k:expr) => {
                if twice && $k == 0 {
                    $e.set_header(header_(g));
                }
                if when == $k {
                    $e.set_header(header_(h));
                }
            };
        }
        let mut enc = MessageEncoder::new(&mut store[..size]);
        at!(enc, 0);
        enc.question(Question::new(&name).ty(QType::A));
        w.u8(0);
        w.u16(1);
        w.u16(1);
        at!(enc, 1);
        let mut enc = enc.answers();
        at!(enc, 2);
        enc.add_answer(ResourceRecord::new(&name, &rec).ttl(9));
        w.u8(0);
        let at = w.rr(1, 1, 9);
        w.raw(&a);
        w.end(at);
        at!(enc, 3);
        let mut enc = enc.authority();
        enc.add_authority(ResourceRecord::new(&name, &rec).ttl(10));
        w.u8(0);
        let at = w.rr(1, 1, 10);
        w.raw(&a);
        w.end(at);
        at!(enc, 4);
        let mut enc = enc.additional();
        at!(enc, 5);
        let r = enc.finish();
        let fits = size >= w.n;
        check(r == if fits { Ok(w.n) } else { Err(Error::Truncated) }, "truncation is reported whenever the header is given");
        w.head(h[0] as u16 * 256 + h[1] as u16, (h[2] as u16 * 256 + h[3] as u16) & !0x0200 | if fits { 0 } else { 0x200 }, [1, 1, 1, 0]);
        let n = size.min(w.n);
        check_bytes(&store[..12], &w.b[..12], "header given late");
        check_bytes(&store[..n], w.cut(n), "items are the same whenever the header is given");
        reach(if fits { "fits" } else { "truncated" });
    }

    /// A message longer than 1500 octets in a smaller buffer, and one cut inside a long label.
    fn short_long() {
        let size = [12usize, 75, 76, 77, 80, 89, 91, 100, 300, 301, 511, 512, 1499, 1500][choose(14)];
        let mut w = W::new();
        let mut store = buffer();
        let d = dom(4);
        let n = d.name();
        let a = bytes::<4>();
        let rec = Record::A(A::new(Ipv4Addr::from(a)));
        let mut enc = MessageEncoder::new(&mut store[..size]).answers();
        let mut whole = 12;
        for _ in 0..19 {
            enc.add_answer(ResourceRecord::new(&n, &rec).ttl(9));
            d.put(&mut w);
            let at = w.rr(1, 1, 9);
            w.raw(&a);
            w.end(at);
            if w.n <= size {
                whole = w.n;
            }
        }
        let r = enc.finish();
        check(r == Err(Error::Truncated), "error of a truncated message");
        w.head(0, 0x0200, [0, 19, 0, 0]);
        check_bytes(&store[..whole], &w.b[..whole], "items in front of the cut are intact");
        check_bytes(&store[..size], w.cut(size), "a truncated message is a prefix of the whole one");
        check(store[size] == 0xA5, "nothing is written behind the buffer");
        reach("truncated");
    }

    /// Strings that no character string can hold, and none at all, are refused before anything is encoded.
    fn enc_txt_limits() {
        let c = u8_();
        let n = [0usize, 1, 254, 255, 256, 257, 300, 512][choose(8)];
        let mut v = vec![];
        match choose(4) {
            0 => {}
            1 => v.push(vec![c; n]),
            2 => v.extend([vec![c; n], vec![c]]),
            _ => v.extend([vec![c], vec![c; n], vec![]]),
        }
        let ok = !v.is_empty() && v.iter().all(|x| x.len() <= 255);
        let want = v.clone();
        allow_panic(!ok);
        let t = TXT::new(v);
        allow_panic(false);
        check(ok, "strings that cannot be encoded are refused");
        check(t.entries().count() == want.len(), "number of strings");
        for (x, y) in t.entries().zip(&want) {
            check_bytes(x, y, "strings are kept");
        }
        reach("accepted");
    }
}
