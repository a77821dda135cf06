//! Record framing, sections and RDATA, against the reference model.
use crate::rt::*;
use crate::spec;
use crate::wire::{check_name, header, same_err};
use uwuhi::packet::decoder::{MessageDecoder, Question, ResourceRecord};
use uwuhi::packet::records::Record;
use uwuhi::packet::{section, Class, QClass, QType, Type};
use uwuhi::Error;

pub fn ty(t: u16) -> Type {
    bytemuck::cast(t)
}
pub fn qty(t: u16) -> QType {
    bytemuck::cast(t)
}
pub fn cl(t: u16) -> Class {
    bytemuck::cast(t)
}
pub fn qcl(t: u16) -> QClass {
    bytemuck::cast(t)
}
fn clnum_q(q: &Question) -> u16 {
    bytemuck::cast(q.qclass())
}
pub fn tynum(t: Type) -> u16 {
    bytemuck::cast(t)
}
pub fn clnum(t: Class) -> u16 {
    bytemuck::cast(t)
}

pub fn check_q(m: &[u8], q: &Question, s: &spec::Q) {
    check_name(m, q.qname(), &s.name, "question: name");
    check(bytemuck::cast::<QType, u16>(q.qtype()) == s.ty, "question: type");
    check(bytemuck::cast::<QClass, u16>(q.qclass()) == s.class & 0x7fff, "question: class without the unicast bit");
}

pub fn check_rr(m: &[u8], r: &ResourceRecord<'_>, s: &spec::Rr) {
    check_name(m, r.name(), &s.name, "record: owner name");
    check(tynum(r.type_()) == s.ty, "record: type");
    check(clnum(r.class()) == s.class & 0x7fff, "record: class without the cache-flush bit");
    check(r.cache_flush() == (s.class & 0x8000 != 0), "record: cache-flush bit");
    check(r.ttl() == s.ttl, "record: time to live");
    check_bytes(r.rdata(), &m[s.rdata..s.rdata + s.rdlen], "record: raw data");
}

/// Reference state of a streaming decoder.
#[derive(Clone, Copy)]
struct Model<'a> {
    m: &'a [u8],
    pos: usize,
    left: [usize; 4],
    errored: bool,
}

enum Dec<'a> {
    Q(MessageDecoder<'a, section::Question>),
    A(MessageDecoder<'a, section::Answer>),
    N(MessageDecoder<'a, section::Authority>),
    R(MessageDecoder<'a, section::Additional>),
}

impl<'a> Model<'a> {
    /// Advances over one item of section `s`; None when there is none.
    fn step(&mut self, s: usize) -> Option<Result<(), spec::E>> {
        if self.errored || self.left[s] == 0 {
            return None;
        }
        let r = if s == 0 {
            spec::question(self.m, self.pos).map(|q| q.next)
        } else {
            spec::rr(self.m, self.pos).map(|q| q.next)
        };
        Some(match r {
            Ok(p) => {
                self.pos = p;
                self.left[s] -= 1;
                Ok(())
            }
            Err(e) => {
                self.errored = true;
                Err(e)
            }
        })
    }

    /// Skips the rest of the sections `from..to`.
    fn skip(&mut self, from: usize, to: usize) -> Result<(), spec::E> {
        for s in from..to {
            while let Some(r) = self.step(s) {
                r?;
            }
        }
        Ok(())
    }

    fn question(&mut self, got: Option<Result<Question, Error>>) {
        let at = self.pos;
        let want = self.step(0);
        self.question_at(at, want, got);
    }
    fn question_at(&self, at: usize, want: Option<Result<(), spec::E>>, got: Option<Result<Question, Error>>) {
        match (got, want) {
            (Some(Ok(q)), Some(Ok(()))) => {
                if let Ok(s) = spec::question(self.m, at) {
                    check_q(self.m, &q, &s);
                }
                reach("question");
            }
            (Some(Err(e)), Some(Err(s))) => {
                check(same_err(e, s), "error kind");
                reach("malformed question");
            }
            (None, None) => {}
            _ => check(false, "question section: number of items or malformed item"),
        }
    }

    fn record(&mut self, sec: usize, got: Option<Result<ResourceRecord<'_>, Error>>) {
        let at = self.pos;
        let want = self.step(sec);
        self.record_at(sec, at, want, got);
    }
    fn record_at(
        &self,
        sec: usize,
        at: usize,
        want: Option<Result<(), spec::E>>,
        got: Option<Result<ResourceRecord<'_>, Error>>,
    ) {
        match (got, want) {
            (Some(Ok(r)), Some(Ok(()))) => {
                if let Ok(s) = spec::rr(self.m, at) {
                    check_rr(self.m, &r, &s);
                }
                reach(["", "answer", "authority", "additional"][sec]);
            }
            (Some(Err(e)), Some(Err(s))) => {
                check(same_err(e, s), "error kind");
                reach("malformed record");
            }
            (None, None) => {}
            _ => check(false, "record section: number of items or malformed item"),
        }
    }
}

fn conv<T>(r: Result<T, Error>, s: Result<(), spec::E>) -> Option<T> {
    match (r, s) {
        (Ok(d), Ok(())) => Some(d),
        (Err(e), Err(s)) => {
            check(same_err(e, s), "error kind while skipping");
            reach("error while skipping");
            None
        }
        _ => {
            check(false, "skipping a section fails exactly on malformed items");
            None
        }
    }
}

/// What the iterator methods other than `next` say, for the rest of a section: each as if `next` had
/// been called the right number of times.
fn adapters<I, T, F>(md: &mut Model, s: usize, it: I, same: F)
where
    I: Iterator<Item = Result<T, Error>>,
    F: Fn(&Model, usize, Option<Result<(), spec::E>>, Option<Result<T, Error>>),
{
    let mut it = it;
    match choose(6) {
        0 => {
            let k = choose(4);
            let got = it.nth(k);
            drop(it);
            let mut at = md.pos;
            let mut want = md.step(s);
            for _ in 0..k {
                if want.is_some() {
                    at = md.pos;
                    want = md.step(s);
                }
            }
            same(md, at, want, got);
        }
        1 => {
            let got = it.last();
            let mut last = (md.pos, None);
            loop {
                let at = md.pos;
                match md.step(s) {
                    None => break,
                    w => last = (at, w),
                }
            }
            same(md, last.0, last.1, got);
        }
        2 => {
            let n = it.count();
            let mut k = 0;
            while md.step(s).is_some() {
                k += 1;
            }
            check(n == k, "number of items of an iterator");
        }
        3 => {
            let (lo, hi) = it.size_hint();
            drop(it);
            let mut k = 0;
            let mut md = *md;
            while md.step(s).is_some() {
                k += 1;
            }
            check(lo <= k, "lower bound on the number of items");
            if let Some(h) = hi {
                check(k <= h, "upper bound on the number of items");
            }
        }
        4 => {
            // skipping and taking
            let k = choose(3);
            let got: Vec<_> = it.by_ref().skip(k).take(2).collect();
            drop(it);
            for _ in 0..k {
                let _ = md.step(s);
            }
            let mut got = got.into_iter();
            for _ in 0..2 {
                let at = md.pos;
                let want = md.step(s);
                let done = want.is_none();
                same(md, at, want, got.next());
                if done {
                    break;
                }
            }
            check(got.next().is_none(), "no items behind the end");
        }
        _ => {
            let m = &mut *md;
            it.for_each(|x| {
                let at = m.pos;
                let want = m.step(s);
                same(m, at, want, Some(x));
            });
            let at = md.pos;
            let want = md.step(s);
            check(want.is_none(), "all items are seen");
            same(md, at, want, None);
        }
    }
    reach("adapter");
}

/// Reads the message with a freely chosen sequence of `next`, `iter` and section changes.
fn walk(m: &[u8], counts: [usize; 4], script: usize) {
    let mut md = Model { m, pos: 12, left: counts, errored: false };
    let mut d = match MessageDecoder::new(m) {
        Ok(d) => Dec::Q(d),
        Err(_) => return check(false, "a complete header is accepted"),
    };
    let mut sec = 0;
    let with = if script == 4 { choose(4) } else { 0 };
    loop {
        // read some items of the current section
        let (mode, n) = match script {
            0 => (1, 0),
            4 => (if sec == with { 1 } else { 2 }, 0),
            1 => (0, counts[sec] + 1),
            2 => (2, 0),
            _ => (choose(2), choose(counts[sec] + 2)),
        };
        match mode {
            1 => {
                // iterate to the end
                let lim = counts[sec] + 1;
                macro_rules! all {
                    ($d:expr, $f:expr) => {{
                        let mut it = $d.iter();
                        for _ in 0..lim + 1 {
                            let x = it.next();
                            $f(&mut md, x);
                        }
                    }};
                }
                if script == 4 {
                    let m = &mut md;
                    match &mut d {
                        Dec::Q(d) => adapters(m, 0, d.iter(), |m, at, w, x| m.question_at(at, w, x)),
                        Dec::A(d) => adapters(m, 1, d.iter(), |m, at, w, x| m.record_at(1, at, w, x)),
                        Dec::N(d) => adapters(m, 2, d.iter(), |m, at, w, x| m.record_at(2, at, w, x)),
                        Dec::R(d) => adapters(m, 3, d.iter(), |m, at, w, x| m.record_at(3, at, w, x)),
                    }
                } else {
                match &mut d {
                    Dec::Q(d) => all!(d, |md: &mut Model, x| md.question(x)),
                    Dec::A(d) => all!(d, |md: &mut Model, x| md.record(1, x)),
                    Dec::N(d) => all!(d, |md: &mut Model, x| md.record(2, x)),
                    Dec::R(d) => all!(d, |md: &mut Model, x| md.record(3, x)),
                }
                }
            }
            0 => {
                for _ in 0..n {
                    match &mut d {
                        Dec::Q(d) => md.question(d.next()),
                        Dec::A(d) => md.record(1, d.next()),
                        Dec::N(d) => md.record(2, d.next()),
                        Dec::R(d) => md.record(3, d.next()),
                    }
                }
            }
            _ => {}
        }
        if sec == 3 {
            break;
        }
        let to = if script == 2 { 3 } else if script < 2 || script == 4 { sec + 1 } else { sec + 1 + choose(3 - sec) };
        let failed = md.errored;
        let want = md.skip(sec, to);
        macro_rules! go {
            ($e:expr, $v:ident) => {
                match conv($e, want) {
                    Some(x) => Dec::$v(x),
                    None => return,
                }
            };
        }
        d = match (d, to) {
            (Dec::Q(d), 1) => go!(d.answers(), A),
            (Dec::Q(d), 2) => go!(d.authority(), N),
            (Dec::Q(d), _) => go!(d.additional(), R),
            (Dec::A(d), 2) => go!(d.authority(), N),
            (Dec::A(d), _) => go!(d.additional(), R),
            (Dec::N(d), _) => go!(d.additional(), R),
            (d, _) => d,
        };
        if failed {
            reach("section change after an error");
        }
        sec = to;
    }
    reach("walked the message");
}

const SHAPES: [[u8; 4]; 10] = [
    [1, 1, 0, 0],
    [0, 2, 0, 0],
    [0, 1, 1, 0],
    [0, 0, 1, 1],
    [1, 0, 0, 1],
    [0, 0, 0, 2],
    [2, 1, 0, 0],
    [0, 0, 2, 0],
    [0, 0, 0, 0],
    [1, 1, 1, 1],
];

/// Items with the root as their name; type, class, TTL, RDLENGTH and data arbitrary.
fn frame(shapes: core::ops::Range<usize>, script: usize, body: usize) {
    let c = SHAPES[shapes.start + choose(shapes.len())];
    let mut buf = [0u8; 80];
    header(&mut buf, c);
    fill(&mut buf[12..12 + body]);
    let m = &mut buf[..12 + body];
    let mut p = 12;
    for _ in 0..c[0] {
        if p < m.len() {
            m[p] = 0;
        }
        p += 5;
    }
    for _ in 0..c[1] + c[2] + c[3] {
        if p < m.len() {
            m[p] = 0;
        }
        if p + 10 < m.len() {
            m[p + 9] = 0;
            // short data, or data that does not fit
            assume(m[p + 10] < 4 || p + 14 + m[p + 10] as usize > m.len());
            p += 11 + conc(m[p + 10] as usize);
        } else {
            p += 11;
        }
    }
    walk(m, [c[0] as usize, c[1] as usize, c[2] as usize, c[3] as usize], script);
}

/// One record with RDATA `body` bytes long (and a second record header behind it).
fn check_rdata(m: &[u8], s: &spec::Rr, rec: Option<Result<Record<'_>, Error>>) {
    let end = s.rdata + s.rdlen;
    let p = s.rdata;
    let m = &m[..end]; // nothing behind the record's data exists for it
    // expected failure, or the offset of the first byte that was not used
    let used: Result<usize, spec::E> = match s.ty {
        1 => spec::need(end, p, 4),
        28 => spec::need(end, p, 16),
        2 | 5 | 12 => spec::name(m, end, p).map(|n| n.next),
        15 => spec::need(end, p, 2).and_then(|q| spec::name(m, end, q)).map(|n| n.next),
        33 => spec::need(end, p, 6).and_then(|q| spec::name(m, end, q)).map(|n| n.next),
        6 => spec::name(m, end, p)
            .and_then(|n| spec::name(m, end, n.next))
            .and_then(|n| spec::need(end, n.next, 20)),
        16 => spec::strings(m, end, p),
        _ => {
            check(rec.is_none(), "unsupported type has no decoded form");
            return;
        }
    };
    let rec = match rec {
        None => return check(false, "supported type is decoded"),
        Some(r) => r,
    };
    let used = match (used, &rec) {
        (Ok(u), Ok(_)) => u,
        (Ok(u), Err(_)) => {
            // leftover bytes may be rejected, complete data may not
            check(u != end, "complete RDATA is accepted");
            return;
        }
        (Err(_), Ok(_)) => return check(false, "malformed RDATA is rejected"),
        (Err(s), Err(e)) => {
            check(same_err(*e, s), "RDATA error kind");
            reach("malformed RDATA");
            return;
        }
    };
    let _ = used;
    let be16 = |p| spec::be16(m, end, p).unwrap_or(0);
    let be32 = |p| spec::be32(m, end, p).unwrap_or(0);
    let chk = |n: &uwuhi::name::DomainName, at: usize| -> usize {
        match spec::name(m, end, at) {
            Ok(s) => {
                check_name(m, n, &s, "name in RDATA");
                s.next
            }
            Err(_) => {
                check(false, "name in RDATA");
                at
            }
        }
    };
    match rec {
        Ok(Record::A(a)) if s.ty == 1 => {
            check_bytes(&a.addr().octets(), &m[p..p + 4], "A address");
            reach("A");
        }
        Ok(Record::AAAA(a)) if s.ty == 28 => {
            check_bytes(&a.addr().octets(), &m[p..p + 16], "AAAA address");
            reach("AAAA");
        }
        Ok(Record::NS(r)) if s.ty == 2 => {
            chk(r.nsdname(), p);
            reach("NS");
        }
        Ok(Record::CNAME(r)) if s.ty == 5 => {
            chk(r.cname(), p);
            reach("CNAME");
        }
        Ok(Record::PTR(r)) if s.ty == 12 => {
            chk(r.ptrdname(), p);
            reach("PTR");
        }
        Ok(Record::MX(r)) if s.ty == 15 => {
            check(r.preference() == be16(p), "MX preference");
            chk(r.exchange(), p + 2);
            reach("MX");
        }
        Ok(Record::SRV(r)) if s.ty == 33 => {
            check(r.priority() == be16(p), "SRV priority");
            check(r.weight() == be16(p + 2), "SRV weight");
            check(r.port() == be16(p + 4), "SRV port");
            chk(r.target(), p + 6);
            reach("SRV");
        }
        Ok(Record::SOA(r)) if s.ty == 6 => {
            let q = chk(r.mname(), p);
            let q = chk(r.rname(), q);
            check(r.serial() == be32(q), "SOA serial");
            check(r.refresh() == be32(q + 4), "SOA refresh");
            check(r.retry() == be32(q + 8), "SOA retry");
            check(r.expire() == be32(q + 12), "SOA expire");
            check(r.minimum_ttl() == be32(q + 16), "SOA minimum");
            reach("SOA");
        }
        Ok(Record::TXT(r)) if s.ty == 16 => {
            let mut q = p;
            for e in r.entries() {
                let n = m[q] as usize;
                check_bytes(e, &m[q + 1..q + 1 + n], "TXT string");
                q += 1 + n;
            }
            check(q == end, "number of TXT strings");
            reach("TXT");
        }
        _ => check(false, "record decoded as the right type"),
    }
}

/// `01 'a' 00` as owner, type `t`, arbitrary class and TTL, `rdlen` arbitrary up to `max + 1`
/// octets, `max` octets of data supplied by the caller, then four more octets.
fn rdata(t: u16, m: &mut [u8], max: usize, any_len: bool) {
    header(m, [0, 2, 0, 0]);
    m[12] = 1;
    m[13] = b'a';
    m[14] = 0;
    m[15] = (t >> 8) as u8;
    m[16] = t as u8;
    m[17..23].copy_from_slice(&[0x80, 1, 0, 2, 3, 4]);
    if t == 1 || t == 28 {
        fill(&mut m[17..23]);
    }
    m[23] = 0;
    m[24] = if any_len { choose(max + 6) as u8 } else { max as u8 };
    m[25 + max..25 + max + 4].copy_from_slice(&[1, 2, 0, 7]);
    let m = &mut m[..25 + max + 4];
    let next = 25 + m[24] as usize;
    if next < m.len() {
        m[next] = 0; // the following record has the root as its name
    }
    let m = &m[..];
    let d = match MessageDecoder::new(m) {
        Ok(d) => d,
        Err(_) => return check(false, "a complete header is accepted"),
    };
    let mut d = match d.answers() {
        Ok(d) => d,
        Err(_) => return check(false, "no questions to skip"),
    };
    let next;
    match (d.next(), spec::rr(m, 12)) {
        (Some(Ok(r)), Ok(s)) => {
            check_rr(m, &r, &s);
            check_rdata(m, &s, r.as_enum());
            check_rdata(m, &s, r.as_enum()); // decoding is repeatable
            check_bytes(r.rdata(), &m[s.rdata..s.rdata + s.rdlen], "record: raw data");
            next = s.next;
        }
        (Some(Err(e)), Err(s)) => {
            check(same_err(e, s), "error kind");
            reach("record too long");
            return;
        }
        _ => return check(false, "record accepted or rejected wrongly"),
    }
    match (d.next(), spec::rr(m, next)) {
        (Some(Ok(r)), Ok(s)) => check_rr(m, &r, &s),
        (Some(Err(e)), Err(s)) => check(same_err(e, s), "error kind"),
        _ => check(false, "following record accepted or rejected wrongly"),
    }
}

fn rdata_any(t: u16, n: usize) {
    let mut m = [0u8; 80];
    fill(&mut m[25..25 + n]);
    rdata(t, &mut m, n, true);
}

/// A name of one of several shapes at `p`; returns its end.
pub fn name_shape(m: &mut [u8], p: usize) -> usize {
    match choose(6) {
        0 => {
            m[p] = 0;
            p + 1
        }
        1 => {
            m[p] = 1;
            m[p + 1] = u8_();
            m[p + 2] = 0;
            p + 3
        }
        2 => {
            m[p] = 0xC0;
            m[p + 1] = [12, 19, 25][choose(3)]; // owner name, the TTL, or a loop
            p + 2
        }
        3 => {
            m[p] = 2;
            m[p + 1] = u8_();
            m[p + 2] = u8_();
            m[p + 3] = 0xC0;
            m[p + 4] = 12;
            p + 5
        }
        4 => {
            // arbitrary first octet
            m[p] = u8_();
            assume(m[p] >= 64 && m[p] < 192 || m[p] > 40 && m[p] < 64);
            p + 1
        }
        _ => {
            m[p] = 1;
            m[p + 1] = u8_();
            m[p + 2] = 1;
            m[p + 3] = u8_();
            m[p + 4] = 0;
            p + 5
        }
    }
}

harness! {
    fn frame_next() { frame(0..10, 1, 28) }
    fn frame_iter() { frame(0..10, 0, 28) }
    fn frame_skip() { frame(0..10, 2, 28) }
    fn frame_mix() { frame(0..9, 3, 22) }
    /// Skipping, counting and collecting with the methods of the iterators.
    fn frame_adapters() {
        let c = [[2u8, 1, 0, 0], [0, 2, 1, 0], [0, 0, 2, 1], [1, 0, 0, 2], [3, 0, 1, 0], [0, 3, 0, 1]][choose(6)];
        let mut m = [0u8; 12 + 5 * 11];
        header(&mut m, c);
        let k = choose(3);
        let p = [0, 5, 11][k];
        m[12 + p] = u8_();
        assume((m[12 + p] == 0) | (m[12 + p] >= 0x40));
        let len = [12, 20, 22, 23, 27, 33, 34, 60, 67][choose(9)];
        walk(&m[..len], [c[0] as usize, c[1] as usize, c[2] as usize, c[3] as usize], 4);
    }
    fn frame_four() { frame(9..10, 1, 44) }
    fn frame_skip_four() { frame(9..10, 2, 44) }

    /// Owner names of arbitrary bytes in every section.
    fn frame_names() {
        let c = [[1u8, 1, 0, 0], [0, 1, 1, 0], [0, 0, 1, 1], [1, 0, 0, 1]][choose(4)];
        let mut m = [0u8; 12 + 8 + 12];
        header(&mut m, c);
        let gap = 12 + 8;
        fill(&mut m[12..14]);
        fill(&mut m[gap..gap + 4]);
        walk(&m, [c[0] as usize, c[1] as usize, c[2] as usize, c[3] as usize], 1);
    }

    /// Large section counts: exactly as many items as the header announces.
    fn frame_many() {
        let sec = choose(4);
        let n = [3usize, 255, 256, 257, 300][choose(5)];
        let mut m = [0u8; 12 + 11 * 320];
        m[2] = 0x84;
        m[4 + 2 * sec] = (n >> 8) as u8;
        m[5 + 2 * sec] = n as u8;
        let one = if sec == 0 { 5 } else { 11 };
        let len = 12 + one * n + choose(3) - 1;
        let mut c = [0; 4];
        c[sec] = n;
        walk(&m[..len], c, 1 - choose(2));
    }

    /// Messages of more than 65535 octets, as they come over TCP or out of a file: records behind a lot
    /// of data, also such that point back to names far in front.
    fn frame_huge() {
        let sec = 1 + choose(3);
        let size = [30000u16, 65000, 65535][choose(3)];
        let far = choose(2) == 1;
        let mut m = vec![0u8; 12];
        m[2] = 0x84;
        m[5 + 2 * sec] = 4;
        for k in 0..3 {
            m.extend([1, b'a' + k, 0, 0, 99, 0, 1, 0, 0, 0, 9]);
            let z = m.len() + 2;
            m.extend(size.to_be_bytes());
            m.resize(z + size as usize, 7);
        }
        if far {
            m.extend([1, b'z', 0xc0, 12]);
        } else {
            m.extend([1, u8_(), 0]);
        }
        m.extend([0, 1, 0, 1, 0, 0, 0, 1, 0, 4, 1, 2, 3, u8_()]);
        let len = m.len() - choose(2);
        let mut c = [0; 4];
        c[sec] = 4;
        walk(&m[..len], c, 1 - choose(2));
    }

    /// What the debug text of a question says of its unicast bit, if it says anything.
    fn frame_unicast() {
        let mut m = vec![0u8; 12];
        m[5] = 1;
        let class = [u8_(), [0, 1, 255, u8_()][choose(4)]];
        m.extend([1, b'a', 0, 0, 1, class[0], class[1]]);
        let q = match MessageDecoder::new(&m) {
            Ok(mut d) => match d.next() {
                Some(Ok(q)) => q,
                _ => return check(false, "a question is decoded"),
            },
            Err(_) => return check(false, "a header is accepted"),
        };
        let mut t = crate::text::Text::new();
        check(core::fmt::Write::write_fmt(&mut t, format_args!("{:?}", q)).is_ok(), "a question can be shown");
        let g = t.get();
        let key = b"unicast: ";
        let mut k = 0;
        while k + key.len() + 4 <= g.len() {
            if &g[k..k + key.len()] == key {
                let says = &g[k + key.len()..k + key.len() + 4] == b"true";
                check(says == (class[0] & 0x80 != 0), "question: unicast-response bit");
            }
            k += 1;
        }
        check(clnum_q(&q) == u16::from_be_bytes([class[0] & 0x7f, class[1]]), "question: class");
        reach("question");
    }

    fn rd_a() { rdata_any(1, 7) }
    fn rd_aaaa() { rdata_any(28, 18) }
    fn rd_cname() { rdata_any(5, 6) }
    fn rd_ns() { rdata_any(2, 6) }
    fn rd_ptr() { rdata_any(12, 6) }
    fn rd_txt() { rdata_any(16, 8) }
    fn rd_mx() { rdata_any(15, 7) }
    fn rd_srv() { rdata_any(33, 10) }
    fn rd_soa() {
        let mut m = [0u8; 80];
        let p = name_shape(&mut m, 25);
        let p = name_shape(&mut m, p);
        let k = 18 + choose(5);
        fill(&mut m[p..p + k]);
        rdata(6, &mut m, p + k - 25, false);
    }
    fn rd_soa_short() {
        let mut m = [0u8; 80];
        let p = name_shape(&mut m, 25);
        let p = name_shape(&mut m, p);
        fill(&mut m[p..p + 20]);
        rdata(6, &mut m, p + 20 - 25, true);
    }
    fn rd_name_shapes() {
        let t = [2u16, 5, 12, 15, 33][choose(5)];
        let mut m = [0u8; 80];
        let f = if t == 33 { 6 } else if t == 15 { 2 } else { 0 };
        fill(&mut m[25..25 + f]);
        let p = name_shape(&mut m, 25 + f);
        let extra = choose(3);
        fill(&mut m[p..p + extra]);
        rdata(t, &mut m, p + extra - 25, true);
    }
    /// TXT strings of any length octet.
    fn rd_txt_long() {
        let mut m = [0u8; 12 + 11 + 2 + 300];
        header(&mut m, [0, 1, 0, 0]);
        m[14] = 16;
        m[21] = 1;
        m[22] = choose(3) as u8 * 13;
        let k = [0usize, 1, 63, 128, 200, 255][choose(6)];
        m[23] = k as u8;
        m[24 + k] = u8_();
        let m = &m[..];
        if let Ok(d) = MessageDecoder::new(m) {
            if let Ok(mut d) = d.answers() {
                match (d.next(), spec::rr(m, 12)) {
                    (Some(Ok(r)), Ok(s)) => {
                        check_rdata(m, &s, r.as_enum());
                        return;
                    }
                    (Some(Err(_)), Err(_)) => return,
                    _ => {}
                }
            }
        }
        check(false, "TXT record accepted or rejected wrongly");
    }
    /// Any type at all: only the supported ones are decoded, each as itself.
    fn rd_type() {
        let mut m = [0u8; 12 + 11 + 24];
        header(&mut m, [0, 1, 0, 0]);
        fill(&mut m[13..19]);
        let n = choose(3) * 12;
        m[22] = n as u8;
        let m = &m[..23 + n];
        if let Ok(d) = MessageDecoder::new(m) {
            if let Ok(mut d) = d.answers() {
                match (d.next(), spec::rr(m, 12)) {
                    (Some(Ok(r)), Ok(s)) => {
                        check_rr(m, &r, &s);
                        let known = matches!(s.ty, 1 | 28 | 2 | 5 | 12 | 15 | 33 | 6 | 16);
                        let rec = r.as_enum();
                        check(rec.is_some() == known, "exactly the nine supported types are decoded");
                        if let Some(Ok(rec)) = &rec {
                            check(tynum(rec.record_type()) == s.ty, "decoded record reports its type");
                            reach("decoded");
                        }
                        if rec.is_none() {
                            reach("unsupported type");
                        }
                        return;
                    }
                    _ => {}
                }
            }
        }
        check(false, "record accepted or rejected wrongly");
    }
}
