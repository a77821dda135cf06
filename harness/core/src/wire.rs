//! Names: decoding of arbitrary bytes against the reference model.
use crate::rt::*;
use crate::spec;
use uwuhi::name::DomainName;
use uwuhi::packet::decoder::MessageDecoder;
use uwuhi::Error;

pub fn same_err(e: Error, s: spec::E) -> bool {
    matches!((e, s), (Error::Eof, spec::E::Eof) | (Error::PointerLoop, spec::E::Loop) | (Error::InvalidValue, spec::E::Invalid))
}

pub fn check_name(m: &[u8], n: &DomainName, s: &spec::Name, label: &'static str) {
    check(n.labels().len() == s.n, label);
    if s.n > spec::MAXL {
        return;
    }
    for (k, l) in n.labels().iter().enumerate() {
        let (o, len) = s.l[k];
        check_bytes(l.as_bytes(), &m[o..o + len], label);
    }
}

/// Header with a fixed id and flags of an authoritative response.
pub fn header(m: &mut [u8], counts: [u8; 4]) {
    m[..12].copy_from_slice(&[0x30, 0x39, 0x84, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    for k in 0..4 {
        m[5 + 2 * k] = counts[k];
    }
}

/// The names of the first `n` questions of `m`, compared with the reference.
fn names(m: &[u8], n: usize) {
    let mut d = match MessageDecoder::new(m) {
        Ok(d) => d,
        Err(_) => {
            check(false, "a complete header is accepted");
            return;
        }
    };
    let mut pos = 12;
    for _ in 0..n {
        match (d.next(), spec::question(m, pos)) {
            (Some(Ok(q)), Ok(s)) => {
                check_name(m, q.qname(), &s.name, "labels of the decoded name");
                reach("name ok");
                if s.name.n > 0 && s.name.l[s.name.n.min(spec::MAXL) - 1].0 < pos {
                    reach("name via pointer");
                }
                pos = s.next;
            }
            (Some(Err(e)), Err(s)) => {
                check(same_err(e, s), "error kind");
                match s {
                    spec::E::Eof => reach("eof"),
                    spec::E::Loop => reach("pointer loop"),
                    spec::E::Invalid => reach("reserved label type"),
                }
                return;
            }
            (Some(Ok(_)), Err(_)) => {
                check(false, "malformed name accepted");
                return;
            }
            (Some(Err(_)), Ok(_)) => {
                check(false, "well-formed name rejected");
                return;
            }
            (None, _) => {
                check(false, "question missing");
                return;
            }
        }
    }
}

fn names_body(body: usize) {
    let mut m = [0u8; 40];
    header(&mut m, [3, 0, 0, 0]);
    fill(&mut m[12..12 + body]);
    names(&m[..12 + body], 3);
}

harness! {
    /// Arbitrary id, flags and body: pointers may lead into the header.
    fn names_hdr() {
        let mut m = [0u8; 18];
        fill(&mut m[..4]);
        m[5] = 2;
        fill(&mut m[12..]);
        names(&m, 2);
    }
    fn names_10() { names_body(10) }
    fn names_12() { names_body(12) }
    fn names_14() { names_body(14) }

    /// Two labels of any length octet each, in a message long enough for both.
    fn names_long() {
        let mut m = [0u8; 160];
        header(&mut m, [1, 0, 0, 0]);
        m[12] = u8_();
        let l = m[12] as usize;
        if l < 64 {
            m[13 + l] = u8_();
            if l > 0 {
                m[12 + l] = u8_();
            }
        }
        let cut = if bool_() { 160 } else { 12 + 1 + 63 };
        names(&m[..cut], 1);
    }

    /// Names of up to 254 octets in labels of several sizes, the last one of any length, at the
    /// beginning of a name or behind a pointer.
    fn names_total() {
        let k = [1usize, 3, 10, 31, 62, 63][choose(6)];
        let total = [100usize, 126, 127, 128, 129, 130, 192, 240, 250, 252][choose(10)];
        let mut m = vec![0u8; 12];
        header(&mut m, [2, 0, 0, 0]);
        while m.len() + k + 1 < 12 + total {
            m.push(k as u8);
            m.extend(vec![b'x'; k]);
        }
        let l = u8_();
        assume((l == 0) | (l == 1) | (l == 2) | (l == 60) | (l >= 64));
        m.push(l);
        m.extend_from_slice(&[u8_(), 0]);
        m.extend_from_slice(&[0, 1, 0, 1]);
        m.extend_from_slice(&[1, b'y', 0xc0, 12, 0, 1, 0, 1]);
        if l == 60 {
            m.extend_from_slice(&[0; 60]);
        }
        names(&m, 2);
    }

    /// A pointer in the owner name of a record far behind its target (14-bit offsets).
    fn names_far() {
        let ats = [0x40usize, 0xff, 0x100, 0x3ff, 0x7ff, 0xfff, 0x1000, 0x1fff, 0x3ffe, 0x4001];
        let at = ats[choose(10)]; // where the second record's name (the pointer) is
        let mut buf = [0u8; 0x4020];
        let m = &mut buf[..at + 14];
        header(m, [0, 2, 0, 0]);
        let rdlen = at - 23;
        m[13] = 0xff; // unknown type
        m[21] = (rdlen >> 8) as u8;
        m[22] = rdlen as u8;
        let targets = [12usize, 0x18, 0x3c, 0xff, 0x100, 0x101, 0x3fd, 0x7ff, 0x800, 0xfff, 0x1000, 0x2000, 0x3fe0, 0x3ffe, 0x3fff];
        let t = targets[choose(15)];
        if t >= 23 && t + 4 <= at {
            m[t] = 2;
            m[t + 1] = u8_();
            m[t + 2] = u8_();
        }
        m[at] = 0xC0 | (t >> 8) as u8;
        m[at + 1] = t as u8;
        let d = match MessageDecoder::new(m) {
            Ok(d) => d,
            Err(_) => return check(false, "a complete header is accepted"),
        };
        let mut d = match d.answers() {
            Ok(d) => d,
            Err(_) => return check(false, "no questions to skip"),
        };
        match d.next() {
            Some(Ok(r)) => check(r.rdata().len() == rdlen, "length of a long RDATA"),
            _ => return check(false, "long record"),
        }
        match (d.next(), spec::name(m, m.len(), at)) {
            (Some(Ok(r)), Ok(s)) => {
                check_name(m, r.name(), &s, "labels behind a far pointer");
                reach("far pointer");
            }
            (Some(Err(e)), Err(s)) => {
                check(same_err(e, s), "error kind");
                reach("far pointer rejected");
            }
            _ => check(false, "far pointer accepted or rejected wrongly"),
        };
    }

    /// Chains of pointers: name k is a label followed by a pointer to name k-1.
    fn names_chain() {
        let n = [1usize, 2, 3, 5, 8, 13, 21, 34, 64, 127][choose(10)];
        let lab = bool_();
        let mut m = [0u8; 12 + 5 + 128 * 8];
        header(&mut m, [n as u8 + 1, 0, 0, 0]);
        let mut p = 12 + 5;
        let mut prev = 12;
        for _ in 0..n {
            let me = p;
            if lab {
                m[p] = 1;
                m[p + 1] = b'a';
                p += 2;
            }
            m[p] = 0xC0 | (prev >> 8) as u8;
            m[p + 1] = prev as u8;
            p += 6;
            prev = me;
        }
        // the last pointer is arbitrary in its low six bits
        let x = u8_();
        m[p - 5] = (m[p - 5] & 0xC0) | (x & 0x3F);
        let mut d = match MessageDecoder::new(&m[..p]) {
            Ok(d) => d,
            Err(_) => return check(false, "a complete header is accepted"),
        };
        let mut pos = 12;
        for k in 0..n + 1 {
            match (d.next(), spec::question(&m[..p], pos)) {
                (Some(Ok(q)), Ok(s)) => {
                    check(q.qname().labels().len() == s.name.n, "number of labels behind a pointer chain");
                    if k == n {
                        reach("chain");
                    }
                    pos = s.next;
                }
                (Some(Err(e)), Err(s)) => {
                    check(same_err(e, s), "error kind");
                    return;
                }
                _ => return check(false, "pointer chain accepted or rejected wrongly"),
            }
        }
    }
}
