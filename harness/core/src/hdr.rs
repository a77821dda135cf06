//! The message header, and the codes of types, classes, opcodes and response codes.
use crate::enc::*;
use crate::rt::*;
use uwuhi::packet::decoder::MessageDecoder;
use uwuhi::packet::{Class, Header, Opcode, QClass, QType, RCode, Type};
use uwuhi::Error;

const TYPES_: [(Type, u16, &str); 53] = [
    (Type::A, 1, "A"),
    (Type::NS, 2, "NS"),
    (Type::MD, 3, "MD"),
    (Type::MF, 4, "MF"),
    (Type::CNAME, 5, "CNAME"),
    (Type::SOA, 6, "SOA"),
    (Type::MB, 7, "MB"),
    (Type::MG, 8, "MG"),
    (Type::MR, 9, "MR"),
    (Type::NULL, 10, "NULL"),
    (Type::WKS, 11, "WKS"),
    (Type::PTR, 12, "PTR"),
    (Type::HINFO, 13, "HINFO"),
    (Type::MINFO, 14, "MINFO"),
    (Type::MX, 15, "MX"),
    (Type::TXT, 16, "TXT"),
    (Type::RP, 17, "RP"),
    (Type::AFSDB, 18, "AFSDB"),
    (Type::SIG, 24, "SIG"),
    (Type::KEY, 25, "KEY"),
    (Type::AAAA, 28, "AAAA"),
    (Type::LOC, 29, "LOC"),
    (Type::SRV, 33, "SRV"),
    (Type::NAPTR, 35, "NAPTR"),
    (Type::KX, 36, "KX"),
    (Type::CERT, 37, "CERT"),
    (Type::DNAME, 39, "DNAME"),
    (Type::APL, 42, "APL"),
    (Type::DS, 43, "DS"),
    (Type::SSHFP, 44, "SSHFP"),
    (Type::IPSECKEY, 45, "IPSECKEY"),
    (Type::RRSIG, 46, "RRSIG"),
    (Type::NSEC, 47, "NSEC"),
    (Type::DNSKEY, 48, "DNSKEY"),
    (Type::DHCID, 49, "DHCID"),
    (Type::NSEC3, 50, "NSEC3"),
    (Type::NSEC3PARAM, 51, "NSEC3PARAM"),
    (Type::TLSA, 52, "TLSA"),
    (Type::SMIMEA, 53, "SMIMEA"),
    (Type::HIP, 55, "HIP"),
    (Type::CDS, 59, "CDS"),
    (Type::CDNSKEY, 60, "CDNSKEY"),
    (Type::OPENPGPKEY, 61, "OPENPGPKEY"),
    (Type::CSYNC, 62, "CSYNC"),
    (Type::ZONEMD, 63, "ZONEMD"),
    (Type::SVCB, 64, "SVCB"),
    (Type::HTTPS, 65, "HTTPS"),
    (Type::EUI48, 108, "EUI48"),
    (Type::EUI64, 109, "EUI64"),
    (Type::TKEY, 249, "TKEY"),
    (Type::TSIG, 250, "TSIG"),
    (Type::URI, 256, "URI"),
    (Type::CAA, 257, "CAA"),
];
const QTYPES: [(QType, u16, &str); 57] = [
    (QType::A, 1, "A"),
    (QType::NS, 2, "NS"),
    (QType::MD, 3, "MD"),
    (QType::MF, 4, "MF"),
    (QType::CNAME, 5, "CNAME"),
    (QType::SOA, 6, "SOA"),
    (QType::MB, 7, "MB"),
    (QType::MG, 8, "MG"),
    (QType::MR, 9, "MR"),
    (QType::NULL, 10, "NULL"),
    (QType::WKS, 11, "WKS"),
    (QType::PTR, 12, "PTR"),
    (QType::HINFO, 13, "HINFO"),
    (QType::MINFO, 14, "MINFO"),
    (QType::MX, 15, "MX"),
    (QType::TXT, 16, "TXT"),
    (QType::RP, 17, "RP"),
    (QType::AFSDB, 18, "AFSDB"),
    (QType::SIG, 24, "SIG"),
    (QType::KEY, 25, "KEY"),
    (QType::AAAA, 28, "AAAA"),
    (QType::LOC, 29, "LOC"),
    (QType::SRV, 33, "SRV"),
    (QType::NAPTR, 35, "NAPTR"),
    (QType::KX, 36, "KX"),
    (QType::CERT, 37, "CERT"),
    (QType::DNAME, 39, "DNAME"),
    (QType::APL, 42, "APL"),
    (QType::DS, 43, "DS"),
    (QType::SSHFP, 44, "SSHFP"),
    (QType::IPSECKEY, 45, "IPSECKEY"),
    (QType::RRSIG, 46, "RRSIG"),
    (QType::NSEC, 47, "NSEC"),
    (QType::DNSKEY, 48, "DNSKEY"),
    (QType::DHCID, 49, "DHCID"),
    (QType::NSEC3, 50, "NSEC3"),
    (QType::NSEC3PARAM, 51, "NSEC3PARAM"),
    (QType::TLSA, 52, "TLSA"),
    (QType::SMIMEA, 53, "SMIMEA"),
    (QType::HIP, 55, "HIP"),
    (QType::CDS, 59, "CDS"),
    (QType::CDNSKEY, 60, "CDNSKEY"),
    (QType::OPENPGPKEY, 61, "OPENPGPKEY"),
    (QType::CSYNC, 62, "CSYNC"),
    (QType::ZONEMD, 63, "ZONEMD"),
    (QType::SVCB, 64, "SVCB"),
    (QType::HTTPS, 65, "HTTPS"),
    (QType::EUI48, 108, "EUI48"),
    (QType::EUI64, 109, "EUI64"),
    (QType::TKEY, 249, "TKEY"),
    (QType::TSIG, 250, "TSIG"),
    (QType::URI, 256, "URI"),
    (QType::CAA, 257, "CAA"),
    (QType::AXFR, 252, "AXFR"),
    (QType::MAILB, 253, "MAILB"),
    (QType::MAILA, 254, "MAILA"),
    (QType::ALL, 255, "ALL"),
];
const CLASSES: [(Class, u16, &str); 4] = [
    (Class::IN, 1, "IN"),
    (Class::CS, 2, "CS"),
    (Class::CH, 3, "CH"),
    (Class::HS, 4, "HS"),
];
const QCLASSES: [(QClass, u16, &str); 5] = [
    (QClass::IN, 1, "IN"),
    (QClass::CS, 2, "CS"),
    (QClass::CH, 3, "CH"),
    (QClass::HS, 4, "HS"),
    (QClass::ANY, 255, "ANY"),
];
const OPCODES: [(Opcode, u8, &str); 5] = [
    (Opcode::QUERY, 0, "QUERY"),
    (Opcode::IQUERY, 1, "IQUERY"),
    (Opcode::STATUS, 2, "STATUS"),
    (Opcode::NOTIFY, 4, "NOTIFY"),
    (Opcode::UPDATE, 5, "UPDATE"),
];
const RCODES: [(RCode, u8, &str); 21] = [
    (RCode::NO_ERROR, 0, "NO_ERROR"),
    (RCode::FORM_ERR, 1, "FORM_ERR"),
    (RCode::SERV_FAIL, 2, "SERV_FAIL"),
    (RCode::NX_DOMAIN, 3, "NX_DOMAIN"),
    (RCode::NOT_IMP, 4, "NOT_IMP"),
    (RCode::REFUSED, 5, "REFUSED"),
    (RCode::YX_DOMAIN, 6, "YX_DOMAIN"),
    (RCode::YX_RR_SET, 7, "YX_RR_SET"),
    (RCode::NX_RR_SET, 8, "NX_RR_SET"),
    (RCode::NOT_AUTH, 9, "NOT_AUTH"),
    (RCode::NOT_ZONE, 10, "NOT_ZONE"),
    (RCode::DSO_TYPE_NI, 11, "DSO_TYPE_NI"),
    (RCode::BAD_VERS, 16, "BAD_VERS"),
    (RCode::BAD_SIG, 16, "BAD_SIG"),
    (RCode::BAD_KEY, 17, "BAD_KEY"),
    (RCode::BAD_TIME, 18, "BAD_TIME"),
    (RCode::BAD_MODE, 19, "BAD_MODE"),
    (RCode::BAD_NAME, 20, "BAD_NAME"),
    (RCode::BAD_ALG, 21, "BAD_ALG"),
    (RCode::BAD_TRUNC, 22, "BAD_TRUNC"),
    (RCode::BAD_COOKIE, 23, "BAD_COOKIE"),
];

fn raw(h: &Header) -> [u8; 12] {
    bytemuck::cast(*h)
}
fn be(b: &[u8; 12], k: usize) -> u16 {
    (b[k] as u16) << 8 | b[k + 1] as u16
}

/// Every getter shows its bits of the twelve octets `b` and nothing else.
fn getters(h: &Header, b: &[u8; 12], label: &'static str) {
    let f = be(b, 2);
    let bit = |n: u16| f >> n & 1 == 1;
    let ok = h.id() == be(b, 0)
        && h.is_response() == bit(15)
        && h.is_query() == !bit(15)
        && bytemuck::cast::<_, u8>(h.opcode()) as u16 == f >> 11 & 15
        && h.is_authority() == bit(10)
        && h.is_truncated() == bit(9)
        && h.is_recursion_desired() == bit(8)
        && h.is_recursion_available() == bit(7)
        && bytemuck::cast::<_, u8>(h.rcode()) as u16 == f & 15
        && h.question_count() == be(b, 4)
        && h.answer_count() == be(b, 6)
        && h.authoritative_count() == be(b, 8)
        && h.additional_count() == be(b, 10);
    check(ok, label);
}

struct Text {
    b: [u8; 64],
    n: usize,
}
impl core::fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for &c in s.as_bytes() {
            if self.n < 64 {
                self.b[self.n] = c;
            }
            self.n += 1;
        }
        Ok(())
    }
}
fn text<T: core::fmt::Display>(x: &T) -> Text {
    use core::fmt::Write;
    let mut t = Text { b: [0; 64], n: 0 };
    let r = write!(t, "{}", x);
    check(r.is_ok() && t.n <= 64, "display of a code");
    t
}
fn named<T: core::fmt::Display>(x: &T, name: &str) {
    let t = text(x);
    check_bytes(&t.b[..t.n.min(64)], name.as_bytes(), "display of a known code");
}
/// The text of a code without a name: it says so, and has the number, in hexadecimal behind `0x` or in decimal.
fn unknown<T: core::fmt::Display>(x: &T, code: u32) {
    let t = text(x);
    check(t.n > 0 && contains(&t, b"unknown"), "display of an unknown code");
    let b = &t.b[..t.n.min(64)];
    let mut p = 0;
    while p < b.len() && !(b[p] >= b'0' && b[p] <= b'9') {
        p += 1;
    }
    let hex = p + 1 < b.len() && b[p] == b'0' && b[p + 1] == b'x';
    if hex {
        p += 2;
    }
    let q = p;
    let mut v = 0u32;
    while p < b.len() {
        let c = b[p];
        if c >= b'0' && c <= b'9' {
            v = v * if hex { 16 } else { 10 } + (c - b'0') as u32;
        } else if hex && c >= b'a' && c <= b'f' {
            v = v * 16 + (c - b'a' + 10) as u32;
        } else if hex && c >= b'A' && c <= b'F' {
            v = v * 16 + (c - b'A' + 10) as u32;
        } else {
            break;
        }
        p += 1;
    }
    check(p > q && v == code, "number of an unknown code");
}
fn contains(t: &Text, what: &[u8]) -> bool {
    t.b[..t.n.min(64)].windows(what.len()).any(|w| w == what)
}

harness! {
    /// Getters on an arbitrary header, read through the decoder and directly.
    fn hdr_get() {
        let b = bytes::<12>();
        getters(&header_(b), &b, "header field");
        match MessageDecoder::new(&b) {
            Ok(d) => getters(d.header(), &b, "header field of a message"),
            Err(_) => check(false, "a header alone is a message"),
        }
        reach("header");
    }
    /// One setter with an arbitrary value on an arbitrary header: only its own bits change.
    fn hdr_set() {
        let b = bytes::<12>();
        let mut h = header_(b);
        let mut w = b;
        let f = be(&b, 2);
        let put = |n: u16, v: bool| (f & !(1 << n)) | (v as u16) << n;
        let k = choose(8);
        let g = match k {
            0 => {
                let id = u16_();
                h.set_id(id);
                w[0] = (id >> 8) as u8;
                w[1] = id as u8;
                f
            }
            1 => {
                let o = u8_();
                h.set_opcode(bytemuck::cast(o));
                (f & !0x7800) | (o as u16 & 15) << 11
            }
            2 => {
                let o = u8_();
                h.set_rcode(bytemuck::cast(o));
                (f & !15) | o as u16 & 15
            }
            _ => {
                let v = choose(2) == 1;
                match k {
                    3 => h.set_response(v),
                    4 => h.set_authority(v),
                    5 => h.set_truncated(v),
                    6 => h.set_recursion_desired(v),
                    _ => h.set_recursion_available(v),
                }
                put([15, 10, 9, 8, 7][k - 3], v)
            }
        };
        w[2] = (g >> 8) as u8;
        w[3] = g as u8;
        check_bytes(&raw(&h), &w, "a setter changes its own bits only");
        getters(&h, &w, "header field after a change");
        reach("set");
    }
    /// Sequences of setters.
    fn hdr_seq() {
        let mut h = Header::default();
        check_bytes(&raw(&h), &[0; 12], "default header");
        let id = u16_();
        let op = u8_() & 15;
        let rc = u8_() & 15;
        let v = u8_();
        for k in 0..2 {
            h.set_rcode(bytemuck::cast(if k == 0 { 15u8 } else { rc }));
            h.set_recursion_available(v & 1 != 0);
            h.set_id(id);
            h.set_truncated(v & 2 != 0);
            h.set_opcode(bytemuck::cast(if k == 0 { 15u8 } else { op }));
            h.set_response(v & 4 != 0);
            h.set_recursion_desired(v & 8 != 0);
            h.set_authority(v & 16 != 0);
        }
        let f = (v as u16 & 4) << 13 | (op as u16) << 11 | (v as u16 & 16) << 6 | (v as u16 & 2) << 8 | (v as u16 & 8) << 5
            | (v as u16 & 1) << 7 | rc as u16;
        let w = [(id >> 8) as u8, id as u8, (f >> 8) as u8, f as u8, 0, 0, 0, 0, 0, 0, 0, 0];
        check_bytes(&raw(&h), &w, "all flags together");
        getters(&h, &w, "all flags together");
        reach("seq");
    }
    /// A message is accepted exactly when the twelve octets are there.
    fn hdr_len() {
        let b = bytes::<14>();
        let n = choose(15);
        match MessageDecoder::new(&b[..n]) {
            Ok(_) => check(n >= 12, "short header accepted"),
            Err(e) => check(n < 12 && e == Error::Eof, "complete header rejected"),
        }
        reach("length");
    }

    /// `QType::matches` on all pairs.
    fn match_type() {
        let (q, t) = (u16_(), u16_());
        let got = qtype_(q).matches(bytemuck::cast(t));
        let want = match q {
            252 | 254 => false, // zone transfer, obsolete MAILA
            253 => t == 7 || t == 8 || t == 9,
            255 => true,
            _ => q == t,
        };
        check(got == want, "type matching");
        reach("matched");
    }
    fn match_class() {
        let (q, c) = (u16_(), u16_());
        check(qclass_(q).matches(class_(c)) == (q == 255 || q == c), "class matching");
        reach("matched");
    }
    /// The constants have the codes IANA assigned.
    fn codes() {
        for (t, n, _) in TYPES_ {
            check(bytemuck::cast::<_, u16>(t) == n, "type code");
        }
        for (t, n, _) in QTYPES {
            check(bytemuck::cast::<_, u16>(t) == n, "query type code");
        }
        for (t, n, _) in CLASSES {
            check(bytemuck::cast::<_, u16>(t) == n, "class code");
        }
        for (t, n, _) in QCLASSES {
            check(bytemuck::cast::<_, u16>(t) == n, "query class code");
        }
        for (t, n, _) in OPCODES {
            check(bytemuck::cast::<_, u8>(t) == n, "opcode");
        }
        for (t, n, _) in RCODES {
            check(bytemuck::cast::<_, u8>(t) == n, "response code");
        }
        reach("codes");
    }
    /// Display of any code: its mnemonic when it has one, otherwise something else that does not
    /// pass for one.
    fn names_type() {
        let c = u16_();
        let t: Type = bytemuck::cast(c);
        for (x, n, s) in TYPES_ {
            if c == n {
                check(t == x, "codes compare by value");
                named(&t, s);
                reach("known");
                return;
            }
        }
        unknown(&t, c as u32);
        reach("unknown");
    }
    fn names_qtype() {
        let c = u16_();
        let t: QType = bytemuck::cast(c);
        for (x, n, s) in QTYPES {
            if c == n {
                check(t == x, "codes compare by value");
                named(&t, s);
                reach("known");
                return;
            }
        }
        unknown(&t, c as u32);
        reach("unknown");
    }
    fn names_other() {
        let c = u16_();
        match choose(4) {
            0 => match CLASSES.iter().find(|x| x.1 == c) {
                Some(x) => named(&class_(c), x.2),
                None => unknown(&class_(c), c as u32),
            },
            1 => match QCLASSES.iter().find(|x| x.1 == c) {
                Some(x) => named(&qclass_(c), x.2),
                None => unknown(&qclass_(c), c as u32),
            },
            2 => {
                let t: Opcode = bytemuck::cast(c as u8);
                match OPCODES.iter().find(|x| x.1 == c as u8) {
                    Some(x) => named(&t, x.2),
                    None => unknown(&t, c as u8 as u32),
                }
            }
            _ => {
                let t: RCode = bytemuck::cast(c as u8);
                match RCODES.iter().find(|x| x.1 == c as u8 && x.1 != 16) {
                    Some(x) => named(&t, x.2),
                    None if c as u8 == 16 => {}
                    None => unknown(&t, c as u8 as u32),
                }
            }
        }
        reach("named");
    }
}
