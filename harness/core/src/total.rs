//! Decoding of anything: nothing panics or goes on forever, and no section has more items than announced.
use crate::adv::{labels, put16, put32, wire};
use crate::res::record;
use crate::rt::*;
use std::fmt::Write;
use std::ops::ControlFlow;
use uwuhi::packet::decoder::{MessageDecoder, Question, ResourceRecord};
use uwuhi::packet::records::Record;
use uwuhi::{resolver, service, Error};

fn rr(r: &Result<ResourceRecord<'_>, Error>) {
    match r {
        Ok(r) => {
            log(r.rdata().len() as u64 + r.name().labels().len() as u64);
            match r.as_enum() {
                Some(Ok(x)) => {
                    reach("typed record");
                    if let Record::TXT(t) = &x {
                        log(t.entries().count() as u64);
                    }
                }
                Some(Err(_)) => reach("typed record is malformed"),
                None => reach("other record"),
            }
        }
        Err(_) => reach("record error"),
    }
}
fn question(q: &Result<Question, Error>) {
    match q {
        Ok(q) => {
            log(q.qname().labels().len() as u64);
            reach("question");
        }
        Err(_) => reach("question error"),
    }
}

macro_rules! section {
    ($d:expr, $f:ident, $announced:expr, $how:expr) => {{
        let mut good = 0usize;
        let mut bad = 0usize;
        match $how {
            0 => {
                for x in $d.iter() {
                    if x.is_ok() {
                        good += 1
                    } else {
                        bad += 1
                    }
                    check(bad <= 1, "a section ends after its first error");
                    $f(&x);
                }
            }
            1 => {
                while let Some(x) = $d.next() {
                    if x.is_ok() {
                        good += 1
                    } else {
                        bad += 1
                    }
                    check(bad <= 1, "a section ends after its first error");
                    $f(&x);
                }
                // and again behind the end
                check($d.next().is_none(), "nothing follows the end of a section");
                check($d.iter().next().is_none(), "nothing follows the end of a section");
            }
            _ => {
                // the first one only
                if let Some(x) = $d.next() {
                    if x.is_ok() {
                        good += 1
                    } else {
                        bad += 1
                    }
                    check(bad <= 1, "a section ends after its first error");
                    $f(&x);
                }
            }
        }
        check(good + bad <= $announced, "no section has more items than announced");
        check(bad <= 1, "a section ends after its first error");
    }};
}

fn count(m: &[u8], k: usize) -> usize {
    (m[4 + 2 * k] as usize) << 8 | m[5 + 2 * k] as usize
}

/// Walks all sections; `how[k]` is the way the k-th is walked: iterating, stepping, one step, not at all.
fn walk(m: &[u8], how: [usize; 4]) {
    let mut d = match MessageDecoder::new(m) {
        Ok(d) => d,
        Err(_) => {
            check(m.len() < 12, "a message with a header is accepted");
            return reach("no header");
        }
    };
    if how[0] < 3 {
        section!(d, question, count(m, 0), how[0]);
    }
    let mut d = match d.answers() {
        Ok(d) => d,
        Err(_) => return reach("questions cannot be skipped"),
    };
    if how[1] < 3 {
        section!(d, rr, count(m, 1), how[1]);
    }
    let mut d = match d.authority() {
        Ok(d) => d,
        Err(_) => return reach("answers cannot be skipped"),
    };
    if how[2] < 3 {
        section!(d, rr, count(m, 2), how[2]);
    }
    let mut d = match d.additional() {
        Ok(d) => d,
        Err(_) => return reach("authorities cannot be skipped"),
    };
    if how[3] < 3 {
        section!(d, rr, count(m, 3), how[3]);
    }
    reach("walked");
}

fn walks() -> [usize; 4] {
    [[0, 0, 0, 0], [1, 1, 1, 1], [2, 2, 2, 2], [3, 3, 3, 0], [3, 0, 3, 1], [0, 3, 1, 3]][choose(6)]
}
/// A header with any counts (the other fields do not matter for walking).
fn any_counts() -> Vec<u8> {
    let mut m = vec![0u8; 4];
    m.extend_from_slice(&bytes::<8>());
    m
}

/// Writes a text of all that can be shown.
fn show(m: &[u8]) {
    let mut s = Sink(0, 0);
    let mut ok = true;
    let mut d = match MessageDecoder::new(m) {
        Ok(d) => d,
        Err(e) => {
            let _ = write!(s, "{} {:?}", e, e);
            return;
        }
    };
    for x in d.iter() {
        ok &= match x {
            Ok(q) => write!(s, "{} {:?}", q, q),
            Err(e) => write!(s, "{} {:?}", e, e),
        }
        .is_ok();
    }
    if let Ok(mut d) = d.answers() {
        for x in d.iter() {
            ok &= match x {
                Ok(r) => write!(s, "{} {:?}", r, r),
                Err(e) => write!(s, "{} {:?}", e, e),
            }
            .is_ok();
        }
    }
    check(ok, "everything can be shown");
    reach("shown");
}

fn receivers(m: &[u8]) {
    if choose(2) == 0 {
        let mut v = vec![];
        log(resolver::decode_answer(m, &mut v).is_ok() as u64);
        check(v.len() <= m.len(), "no more addresses than bytes");
        reach("resolver");
    } else {
        let mut n = 0usize;
        let stop = choose(3);
        let r = service::discovery::decode_answer(m, &mut |r| {
            n += 1;
            if let Record::PTR(p) = &r {
                log(p.ptrdname().labels().len() as u64);
            }
            if n == stop {
                ControlFlow::Break(())
            } else {
                ControlFlow::Continue(())
            }
        });
        log(r.is_ok() as u64);
        check(n <= m.len(), "no more records than bytes");
        reach("discovery");
    }
}

harness! {
    /// Any message of 12 + n bytes with any counts, walked in several ways.
    fn t_walk() {
        let mut m = any_counts();
        m.extend_from_slice(&bytes::<4>());
        let n = 12 + choose(5);
        walk(&m[..n], walks());
    }
    fn t_walk_long() {
        let mut m = any_counts();
        m.extend_from_slice(&bytes::<6>());
        walk(&m, walks());
    }
    fn t_questions_long() {
        let mut m = any_counts();
        m[6..12].fill(0);
        m.extend_from_slice(&bytes::<11>());
        walk(&m, [choose(4), 0, 0, 0]);
    }
    /// Any questions.
    fn t_questions() {
        let mut m = any_counts();
        m[6..12].fill(0);
        m.extend_from_slice(&bytes::<9>());
        let n = [16, 17, 18, 20, 21][choose(5)];
        walk(&m[..n], [choose(4), 0, 0, 0]);
    }
    /// Records with any name, in any section.
    fn t_names() {
        let s = choose(3);
        let mut m = vec![0; 12];
        m[6 + 2 * s] = u8_();
        m[7 + 2 * s] = u8_();
        m.extend_from_slice(&bytes::<6>());
        m.extend_from_slice(&[0, 1, 0, 1, 0, 0, 0, 0, 0, 4, 1, 2, 3, 4]);
        let n = m.len() - choose(3);
        walk(&m[..n], [3, choose(3), choose(3), choose(3)]);
    }
    /// A record with any type, data length and data, and one behind it.
    fn t_record() {
        let s = choose(3);
        let mut m = vec![0; 12];
        m[7 + 2 * s] = u8_();
        m.push(0);
        put16(&mut m, u16_());
        m.extend_from_slice(&[0, 1, 0, 0, 0, 1]);
        put16(&mut m, u16_());
        m.extend_from_slice(&bytes::<2>());
        m.extend_from_slice(&[0, 0, 1]);
        let n = m.len() - [0, 1, 4, 6][choose(4)];
        walk(&m[..n], [[0, 0, 0, 0], [3, 1, 1, 1]][choose(2)]);
    }
    /// A record cut anywhere, with any class and TTL.
    fn t_record_cut() {
        let s = choose(3);
        let mut m = vec![0; 12];
        m[7 + 2 * s] = u8_();
        m.push(0);
        m.extend_from_slice(&[0, 99]);
        m.extend_from_slice(&bytes::<6>());
        put16(&mut m, [0, 3, 4, 65535][choose(4)]);
        m.extend_from_slice(&[0, 0, 1]);
        let n = 12 + choose(m.len() - 11);
        walk(&m[..n], walks());
    }
    /// Any data of each supported type, also with pointers into the message.
    fn t_data() {
        let t = [1, 2, 5, 6, 12, 15, 16, 28, 33][choose(9)];
        let mut m = vec![0; 12];
        m[7] = 1;
        m.push(0);
        put16(&mut m, t);
        put16(&mut m, 1);
        put32(&mut m, 1);
        let n = [0, 1, 2, 3, 4, 5, 6, 7, 8][choose(9)];
        put16(&mut m, n);
        m.extend_from_slice(&bytes::<8>()[..n as usize]);
        walk(&m, [0, choose(2), 3, 3]);
    }
    /// Fixed parts in front of the names.
    fn t_data_late() {
        let (t, k) = [(15, 2), (33, 6), (6, 1), (28, 14), (16, 200)][choose(5)];
        let mut m = vec![0; 12];
        m[7] = 1;
        m.push(0);
        put16(&mut m, t);
        put16(&mut m, 1);
        put32(&mut m, 1);
        let n = choose(7);
        put16(&mut m, k + n as u16);
        m.extend(vec![0; k as usize]);
        m.extend_from_slice(&bytes::<6>()[..n]);
        walk(&m, [0, 0, 3, 3]);
    }
    /// Many compressed names in one message.
    fn t_chain() {
        let mut m = vec![0; 12];
        m[5] = [1, 4, 5][choose(3)];
        m[7] = choose(2) as u8;
        m.extend_from_slice(&[1, b'a', 0, 0, 1, 0, 1]);
        for _ in 0..3 {
            m.extend_from_slice(&[1, b'b', 0xc0, u8_(), 0, 1, 0, 1]);
        }
        walk(&m, [0, 0, 0, 0]);
    }
    /// Pointers to pointers to pointers.
    fn t_deep() {
        let mut m = vec![0; 12];
        let k = choose(3);
        m[5 + 2 * (k > 0) as usize] = 1;
        let n = [1, 10, 60, 200][choose(4)];
        m.extend_from_slice(&[1, b'x', 0]);
        let mut at = 12;
        for _ in 0..n {
            let here = m.len();
            m.extend_from_slice(&[1, b'y']);
            put16(&mut m, 0xc000 | at as u16);
            at = here;
        }
        // the header's items begin behind all of these: they are skipped as the data of a record
        let mut w = vec![0; 12];
        w[7] = 2;
        w.push(0);
        put16(&mut w, 99);
        put16(&mut w, 1);
        put32(&mut w, 0);
        put16(&mut w, m.len() as u16 - 12);
        let shift = w.len() - 12;
        for i in 12..m.len() {
            w.push(m[i]);
        }
        let mut p = 12 + shift + 3;
        let mut last = 12 + shift;
        for _ in 0..n {
            w[p + 2] = 0xc0 | (last >> 8) as u8;
            w[p + 3] = last as u8;
            last = p;
            p += 4;
        }
        let d = u8_();
        assume(d < 12);
        w.push(0xc0 | (last >> 8) as u8);
        w.push((last & 0xff) as u8 ^ d);
        put16(&mut w, 5);
        put16(&mut w, 1);
        put32(&mut w, 1);
        put16(&mut w, 2);
        put16(&mut w, 0xc000 | last as u16);
        walk(&w, [0, 0, 0, 0]);
    }
    /// Any bytes behind any counts for the resolver and the discoverer.
    fn t_receivers() {
        let mut m = vec![0; 12];
        m[2] = u8_();
        m[4] = u8_();
        m[5] = u8_();
        m[6] = u8_();
        m[7] = u8_();
        m.extend_from_slice(&bytes::<5>());
        let n = choose(18);
        receivers(&m[..n]);
    }
    fn t_received_records() {
        let mut m = vec![0; 12];
        m[2] = 0x80;
        m[7] = 1 + choose(2) as u8;
        m.push(0);
        put16(&mut m, [1, 2, 5, 6, 12, 15, 16, 28, 33, 99][choose(10)]);
        m.extend_from_slice(&[0, 1, 0, 0, 0, 1]);
        m.push([0, 255][choose(2)]);
        m.push(u8_());
        m.extend_from_slice(&bytes::<3>());
        m.extend_from_slice(&[0, 0, 1, 0, 1, 0, 0, 0, 1, 0, 4, 1, 2, 3]);
        let n = m.len() - [0, 1, 14, 16, 20][choose(5)];
        receivers(&m[..n]);
    }
    /// Texts of questions: any codes and short names.
    fn t_show_question() {
        let mut m = vec![0; 12];
        m[5] = 1;
        m.extend_from_slice(&bytes::<3>());
        m.extend_from_slice(&[0, 0, 1, 0, 1]);
        show(&m);
    }
    fn t_show_codes() {
        let mut m = vec![0; 12];
        m[5] = 1;
        m[7] = 1;
        m.push(0);
        let k = choose(4);
        let v = u16_();
        let mut f = [1; 4];
        f[k] = v;
        put16(&mut m, f[0]);
        put16(&mut m, f[1]);
        m.push(0);
        put16(&mut m, f[2]);
        put16(&mut m, f[3]);
        put32(&mut m, 1);
        put16(&mut m, 0);
        show(&m);
    }
    /// Texts of records: any short data of any type.
    fn t_show_data() {
        let t = [1, 2, 5, 6, 12, 15, 16, 28, 33, 99][choose(10)];
        let mut m = vec![0; 12];
        m[7] = 1;
        m.push(0);
        put16(&mut m, t);
        put16(&mut m, 1);
        put32(&mut m, 1);
        let n = choose(4);
        put16(&mut m, n as u16);
        m.extend_from_slice(&bytes::<3>()[..n]);
        show(&m);
    }
    /// Data of any length that is shown as it is.
    fn t_show_long() {
        let mut m = vec![0; 12];
        m[7] = 1;
        let k = choose(70);
        let n = if k < 40 {
            k
        } else if k < 64 {
            [48, 64, 96, 128, 192, 256][(k - 40) / 4] + k % 4 - 1
        } else {
            [300, 400, 511, 512, 513, 1000][k - 64]
        };
        let ty = [99, 65, 41, 16][choose(4)];
        let d = if ty == 16 { [&[0][..], &vec![1; n / 2 * 2]].concat() } else { vec![7; n] };
        record(&mut m, &[0], ty, 1, 1, &d);
        show(&m);
        reach("long data");
    }
    /// ... and well-formed data with any values at some place.
    fn t_show_values() {
        let n = wire(&labels(&[&[u8_()]]));
        let (t, d) = match choose(6) {
            0 => (1, [&[u8_()], &[1, 2, 3][..]].concat()),
            1 => {
                let mut d = vec![0; 16];
                d[choose(16)] = u8_();
                (28, d)
            }
            2 => (15, [&[u8_(), 1], &n[..]].concat()),
            3 => (33, [&[0, 1, 2, 3, 4, 5], &n[..]].concat()),
            4 => (16, vec![1, u8_(), 0, 1, u8_()]),
            _ => (6, [&n[..], &[0], &[255; 20]].concat()),
        };
        let mut m = vec![0; 12];
        m[7] = 1;
        record(&mut m, &[0], t, 1, 1, &d);
        show(&m);
    }
    /// ... and numbers up to the largest.
    fn t_show_numbers() {
        let (t, d, n, at) = match choose(4) {
            0 => (1, vec![1, 2, 3, 4], 4, 0),
            1 => (15, vec![0, 1, 0], 2, 0),
            2 => (33, vec![0, 1, 2, 3, 4, 5, 0], 2, choose(3) * 2),
            _ => (6, [&[0, 0][..], &[0; 20]].concat(), 4, 2 + choose(5) * 4),
        };
        let mut m = vec![0; 12];
        m[7] = 1;
        record(&mut m, &[0], t, 1, 1, &d);
        let at = if t == 1 { 17 } else { 23 + at };
        let v = [0, 255][choose(2)];
        for k in 0..n {
            m[at + k] = v;
        }
        m[at + choose(n)] = u8_();
        show(&m);
        reach("numbers");
    }
    /// Texts of headers.
    fn t_show_header() {
        let mut m = vec![0; 12];
        match choose(3) {
            0 => m[choose(2)] = u8_(),
            1 => {
                m[2] = u8_();
                m[3] = u8_();
            }
            _ => m[4 + choose(8)] = u8_(),
        }
        let mut s = Sink(0, 0);
        if let Ok(d) = MessageDecoder::new(&m) {
            check(write!(s, "{:?} {} {}", d.header(), d.header().opcode(), d.header().rcode()).is_ok(), "everything can be shown");
            reach("header");
        }
    }
}
