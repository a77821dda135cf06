//! What questions, records and errors look like as text.
use crate::adv::{labels, put16, wire, Labels};
use crate::res::{header, record};
use crate::rt::*;
use crate::text::{shown, Text};
use core::fmt::Write;
use std::error::Error as _;
use std::io;
use std::net::{Ipv4Addr, Ipv6Addr};
use uwuhi::name::{DomainName, Label};
use uwuhi::packet::decoder::MessageDecoder;
use uwuhi::service::{Service, ServiceInstance, ServiceTransport};
use uwuhi::Error;

fn show(x: &impl core::fmt::Display) -> Text {
    let mut t = Text::new();
    check(write!(t, "{}", x).is_ok(), "everything can be shown");
    check(t.n <= crate::text::CAP, "harness: text too long");
    t
}
/// A destination that has only room for `room` bytes.
struct Small {
    room: usize,
    failed: bool,
}
impl Write for Small {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        if self.failed || s.len() > self.room {
            self.failed = true;
            return Err(core::fmt::Error);
        }
        self.room -= s.len();
        Ok(())
    }
}
/// Shows `x` where any number of bytes less than all of its text can be written.
fn show_small(x: &impl core::fmt::Display) {
    let t = show(x);
    let mut w = Small { room: choose(t.n + 1), failed: false };
    let fits = w.room == t.n;
    let r = write!(w, "{}", x);
    check(r.is_ok() == fits && w.failed != fits, "a text that does not fit its destination is an error");
    reach(if fits { "fits" } else { "does not fit" });
}
fn dec(v: u64) -> Text {
    let mut d = [0u8; 20];
    let mut n = 0;
    let mut v = v;
    loop {
        d[n] = b'0' + (v % 10) as u8;
        n += 1;
        v /= 10;
        if v == 0 {
            break;
        }
    }
    let mut t = Text::new();
    while n > 0 {
        n -= 1;
        t.put(d[n]);
    }
    t
}
fn text(s: &str) -> Text {
    let mut t = Text::new();
    let _ = t.write_str(s);
    t
}
fn name_text(l: &Labels) -> Text {
    let mut t = Text::new();
    for x in l {
        shown(&mut t, x);
        t.put(b'.');
    }
    if l.is_empty() {
        t.put(b'.');
    }
    t
}

/// The parts, in order, with white space between them and nothing else.
fn parts(got: &Text, want: &[Text]) {
    let g = got.get();
    let mut p = 0;
    for (k, w) in want.iter().enumerate() {
        if k > 0 {
            let q = p;
            while p < g.len() && (g[p] == b' ' || g[p] == b'\t') {
                p += 1;
            }
            check(p > q, "values are separated");
        }
        let w = w.get();
        check(p + w.len() <= g.len(), "each value is shown in full");
        check_bytes(&g[p..p + w.len()], w, "each value is shown as it is");
        p += w.len();
    }
    check(p == g.len(), "nothing is shown behind the last value");
    controls(g);
    reach("shown");
}
fn controls(g: &[u8]) {
    let mut bad = false;
    for &c in g {
        bad |= ((c < 0x20) & (c != b'\t')) | (c == 0x7f);
    }
    check(!bad, "no control characters of a message are shown");
}

/// A message whose only record (in one of three sections) is the given one.
fn one(name: &[u8], ty: u16, class: u16, ttl: u32, data: &[u8]) -> Vec<u8> {
    let mut m = header(1, 0x8400, 0, 1);
    record(&mut m, name, ty, class, ttl, data);
    m
}
/// Shows the record and gives its parts to `f`.
fn shown_record(m: &[u8]) -> Text {
    let d = MessageDecoder::new(m).and_then(|d| d.answers());
    let mut d = match d {
        Ok(d) => d,
        Err(_) => {
            check(false, "a header is accepted");
            loop {}
        }
    };
    let t = match d.next() {
        Some(Ok(r)) => show(&r),
        _ => {
            check(false, "a record is decoded");
            loop {}
        }
    };
    t
}
fn data_shown(ty: u16, tyname: &str, data: &[u8], want: Vec<Text>) {
    let t = shown_record(&one(&[1, b'o', 0], ty, 1, 77, data));
    let mut w = vec![text("o."), text("77"), text("IN"), text(tyname)];
    w.extend(want);
    parts(&t, &w);
}
fn hex_data(ty: u16, tn: &str, b: &[u8]) {
    let n = b.len();
    let t = shown_record(&one(&[1, b'o', 0], ty, 1, 77, b));
    let head = [text("o."), text("77"), text("IN"), text(tn)];
    let mut k = 0;
    for h in &head {
        k += h.n + 1;
    }
    let g = t.get();
    check(g.len() >= k, "data is shown");
    let mut h = Text::new();
    for &c in &g[k..] {
        let digit = (c >= b'0') & (c <= b'9');
        let low = (c >= b'a') & (c <= b'f');
        if digit {
            h.put(c - b'0');
        } else if low {
            h.put(c - b'a' + 10);
        }
    }
    check(h.n == 2 * n, "two digits for each byte");
    if h.n == 2 * n {
        let mut v = vec![0u8; n];
        for i in 0..n {
            v[i] = h.b[2 * i] << 4 | h.b[2 * i + 1];
        }
        check_bytes(&v, b, "data in hexadecimal");
    }
    reach("other data");
}
/// A number of `n` bytes with one arbitrary one.
fn number(n: usize) -> Vec<u8> {
    let mut v = vec![[0, 255, 0x3b][choose(3)]; n];
    v[choose(n)] = u8_();
    v
}
fn value(v: &[u8]) -> u64 {
    v.iter().fold(0, |a, b| a << 8 | *b as u64)
}
fn a_name() -> Labels {
    let c = u8_();
    match choose(3) {
        0 => labels(&[&[b'n', c]]),
        1 => labels(&[b"x", &[b'y', c, b'z'], b"com"]),
        _ => labels(&[]),
    }
}

harness! {
    fn sh_question() {
        let n = a_name();
        let mut m = header(1, 0, 1, 0);
        m.extend(wire(&n));
        let (ty, tn) = [(1, "A"), (12, "PTR"), (33, "SRV"), (255, "ALL"), (28, "AAAA"), (252, "AXFR")][choose(6)];
        let (class, cn) = [(1, "IN"), (255, "ANY"), (3, "CH")][choose(3)];
        put16(&mut m, ty);
        put16(&mut m, class | (choose(2) as u16) << 15);
        let mut d = match MessageDecoder::new(&m) {
            Ok(d) => d,
            Err(_) => return check(false, "a header is accepted"),
        };
        match d.next() {
            Some(Ok(q)) => parts(&show(&q), &[name_text(&n), text(cn), text(tn)]),
            _ => check(false, "a question is decoded"),
        };
    }

    /// Owner name, TTL and class.
    fn sh_record() {
        let n = a_name();
        let v = number(4);
        let (class, cn) = [(1, "IN"), (3, "CH"), (4, "HS")][choose(3)];
        let m = one(&wire(&n), 1, class | (choose(2) as u16) << 15, value(&v) as u32, &[1, 2, 3, 4]);
        parts(&shown_record(&m), &[name_text(&n), dec(value(&v)), text(cn), text("A"), text("1.2.3.4")]);
    }
    fn sh_a() {
        let a = bytes::<4>();
        let mut t = Text::new();
        for k in 0..4 {
            if k > 0 {
                t.put(b'.');
            }
            for &c in dec(a[k] as u64).get() {
                t.put(c);
            }
        }
        data_shown(1, "A", &a, vec![t]);
    }
    fn sh_aaaa() {
        let mut a = [[0u8; 16], [0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0], [255; 16]][choose(3)];
        a[choose(16)] = u8_();
        let mut t = Text::new();
        let _ = write!(t, "{}", Ipv6Addr::from(a));
        data_shown(28, "AAAA", &a, vec![t]);
    }
    fn sh_names() {
        let n = a_name();
        let (ty, tn) = [(2, "NS"), (5, "CNAME"), (12, "PTR")][choose(3)];
        data_shown(ty, tn, &wire(&n), vec![name_text(&n)]);
    }
    /// A name that continues at a pointer.
    fn sh_pointer() {
        let c = u8_();
        let (ty, tn) = [(2, "NS"), (5, "CNAME"), (12, "PTR")][choose(3)];
        data_shown(ty, tn, &[2, b'p', c, 0xc0, 12], vec![name_text(&labels(&[&[b'p', c], b"o"]))]);
    }
    fn sh_mx() {
        let v = number(2);
        let n = a_name();
        data_shown(15, "MX", &[&v[..], &wire(&n)].concat(), vec![dec(value(&v)), name_text(&n)]);
    }
    fn sh_srv() {
        let k = choose(3);
        let v = number(2);
        let mut d = vec![];
        let mut w = vec![];
        for i in 0..3 {
            let x = if i == k { v.clone() } else { vec![1, i as u8] };
            d.extend_from_slice(&x);
            w.push(dec(value(&x)));
        }
        let n = a_name();
        d.extend(wire(&n));
        w.push(name_text(&n));
        data_shown(33, "SRV", &d, w);
    }
    fn sh_soa() {
        let (n, o) = (a_name(), labels(&[b"rname"]));
        let k = choose(5);
        let v = number(4);
        let mut d = [wire(&n), wire(&o)].concat();
        let mut w = vec![name_text(&n), name_text(&o)];
        for i in 0..5 {
            let x = if i == k { v.clone() } else { vec![0, 0, i as u8, 9] };
            d.extend_from_slice(&x);
            w.push(dec(value(&x)));
        }
        data_shown(6, "SOA", &d, w);
    }
    /// Printable strings.
    fn sh_txt() {
        let b = bytes::<4>();
        for c in b {
            assume((c > 0x20) & (c < 0x7f));
        }
        let n = 1 + choose(3);
        let mut d = vec![n as u8];
        d.extend_from_slice(&b[..n]);
        let mut t = Text::new();
        for &c in &b[..n] {
            t.put(c);
        }
        let mut w = vec![t];
        if choose(2) == 1 {
            d.extend_from_slice(&[2, b[3], b'x']);
            let mut t = Text::new();
            t.put(b[3]);
            t.put(b'x');
            w.push(t);
        }
        data_shown(16, "TXT", &d, w);
    }
    /// Any strings: nothing gets through that is not printable.
    fn sh_txt_any() {
        let b = bytes::<3>();
        let d = [3, b[0], b[1], b[2], 0, 2, b'e', b'f'];
        let t = shown_record(&one(&[0], 16, 1, 5, &d));
        controls(t.get());
        let g = t.get();
        check(g.len() > 2 && g[g.len() - 2] == b'e' && g[g.len() - 1] == b'f', "the last string is shown last");
        reach("any text");
    }
    /// An empty string is a value like any other: with and without it the texts differ.
    fn sh_txt_empty() {
        let b = u8_();
        let with: &[u8] = match choose(3) {
            0 => &[0, 1, b, 1, b'f'],
            1 => &[1, b, 0, 1, b'f'],
            _ => &[1, b, 1, b'f', 0],
        };
        let a = shown_record(&one(&[0], 16, 1, 5, with));
        let o = shown_record(&one(&[0], 16, 1, 5, &[1, b, 1, b'f']));
        check(!eq_bytes(a.get(), o.get()), "an empty string is shown as well");
        reach("empty string");
    }
    /// Strings of any length, and many of them.
    fn sh_txt_long() {
        let c = u8_();
        assume((c > 0x20) & (c < 0x7f));
        let mut d = vec![];
        let mut w = vec![];
        let mut add = |n: usize, at: usize| {
            d.push(n as u8);
            let mut t = Text::new();
            for i in 0..n {
                t.put(if i == at { c } else { b'a' + (i % 26) as u8 });
            }
            d.extend_from_slice(t.get());
            w.push(t);
        };
        if choose(2) == 0 {
            let n = [4, 8, 16, 17, 31, 32, 33, 63, 64, 65, 80, 100, 127, 128, 129, 200, 254, 255][choose(18)];
            add(n, [0, n / 2, n - 1][choose(3)]);
            add(2, 0);
        } else {
            for k in 0..[3, 4, 5, 8, 9, 16, 17, 33, 65][choose(9)] {
                add(1 + k % 3, k);
            }
            add(1, 0);
        }
        data_shown(16, "TXT", &d, w);
    }
    /// Long labels and names of many labels, as owner and in the data.
    fn sh_names_long() {
        let c = u8_();
        let mut l: Labels = vec![];
        if choose(2) == 0 {
            let n = [4usize, 16, 17, 32, 33, 48, 60, 61, 62, 63][choose(10)];
            let mut x = vec![b'l'; n];
            let at = [0, n / 2, n - 1][choose(3)];
            // (a space in front is not told from what separates the values)
            assume((c != b' ') | (at > 0));
            x[at] = c;
            l.push(x);
            l.push(b"y".to_vec());
        } else {
            let n = [4usize, 8, 9, 16, 17, 33, 65, 127][choose(8)];
            for k in 0..n {
                l.push(vec![if k == n - 1 { c } else { b'a' + (k % 26) as u8 }]);
            }
        }
        match choose(5) {
            0 => {
                let m = one(&wire(&l), 1, 1, 7, &[1, 2, 3, 4]);
                parts(&shown_record(&m), &[name_text(&l), text("7"), text("IN"), text("A"), text("1.2.3.4")]);
            }
            1 => data_shown(12, "PTR", &wire(&l), vec![name_text(&l)]),
            2 => data_shown(33, "SRV", &[&[0, 1, 0, 2, 0, 3][..], &wire(&l)].concat(), vec![text("1"), text("2"), text("3"), name_text(&l)]),
            3 => data_shown(15, "MX", &[&[0, 1][..], &wire(&l)].concat(), vec![text("1"), name_text(&l)]),
            _ => {
                let mut m = header(1, 0, 1, 0);
                m.extend(wire(&l));
                put16(&mut m, 1);
                put16(&mut m, 1);
                match MessageDecoder::new(&m).ok().and_then(|mut d| d.next()) {
                    Some(Ok(q)) => parts(&show(&q), &[name_text(&l), text("IN"), text("A")]),
                    _ => check(false, "a question is decoded"),
                }
            }
        }
    }
    /// Long data of unsupported types.
    fn sh_other_long() {
        let n = [5usize, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300][choose(20)];
        let mut b: Vec<u8> = (0..n).map(|i| (i * 7) as u8).collect();
        b[[0, n / 2, n - 1][choose(3)]] = u8_();
        hex_data(65, "HTTPS", &b);
    }
    /// Data of unsupported types is shown byte by byte, in hexadecimal digits.
    fn sh_other() {
        let b = bytes::<4>();
        let n = choose(5);
        let (ty, tn) = [(13, "HINFO"), (47, "NSEC"), (65, "HTTPS")][choose(3)];
        hex_data(ty, tn, &b[..n]);
    }
    /// Malformed data is shown as its error.
    fn sh_bad() {
        let (ty, tn) = [(1, "A"), (28, "AAAA"), (2, "NS"), (15, "MX"), (33, "SRV"), (6, "SOA"), (16, "TXT")][choose(7)];
        let b = bytes::<2>();
        let n = choose(3);
        let m = one(&[1, b'o', 0], ty, 1, 77, &b[..n]);
        let e = match MessageDecoder::new(&m).and_then(|d| d.answers()) {
            Ok(mut d) => match d.next() {
                Some(Ok(r)) => match r.as_enum() {
                    Some(Err(e)) => e,
                    _ => return reach("well-formed"),
                },
                _ => return check(false, "a record is decoded"),
            },
            Err(_) => return check(false, "a header is accepted"),
        };
        let t = shown_record(&m);
        let mut w = text("o.\t77\tIN\t");
        let _ = write!(w, "{}\t{}", tn, e);
        let (g, w) = (t.get(), w.get());
        // the head and the error, whatever stands between them
        check(g.len() >= w.len(), "the error is shown");
        let k = 10 + tn.len();
        for i in 0..k {
            check(g[i] == w[i] || w[i] == b'\t', "the rest of the record is shown");
        }
        check_bytes(&g[g.len() - (w.len() - k - 1)..], &w[k + 1..], "the error is shown");
        reach("malformed");
    }

    /// Different types and classes look different.
    fn sh_codes() {
        let (a, b) = (u16_(), u16_());
        let how = choose(4);
        let mut t = vec![];
        for x in [a, b] {
            let (ty, class) = if how % 2 == 0 { (x, 1) } else { (1, x) };
            if how < 2 {
                let mut m = header(1, 0, 1, 0);
                m.extend_from_slice(&[1, b'o', 0]);
                put16(&mut m, ty);
                put16(&mut m, class);
                match MessageDecoder::new(&m).ok().and_then(|mut d| d.next()) {
                    Some(Ok(q)) => t.push(show(&q)),
                    _ => return check(false, "a question is decoded"),
                }
            } else {
                // data of the types that are not supported, and of some that are
                assume((how == 3) | (ty == 65) | (ty == 999) | (ty > 4000));
                t.push(shown_record(&one(&[1, b'o', 0], ty, class, 1, &[1, 2, 3, 4])));
            }
        }
        let same = if how % 2 == 0 { a == b } else { (a ^ b) & 0x7fff == 0 };
        check(eq_bytes(t[0].get(), t[1].get()) == same, "different codes look different");
        reach(if same { "same" } else { "different" });
    }

    /// Errors as text and as I/O errors.
    fn sh_errors() {
        // each error as it comes from the code: by any bytes that lead to it
        let b = bytes::<3>();
        let e = match choose(3) {
            0 => {
                let mut m = header(1, 0, 1, 0);
                m.extend_from_slice(&b);
                match MessageDecoder::new(&m) {
                    Ok(mut d) => match d.next() {
                        Some(Err(e)) => e,
                        _ => return,
                    },
                    Err(e) => e,
                }
            }
            1 => match Label::try_new(&[b[0]; 70][..[0, 64][choose(2)]]) {
                Err(e) => e,
                Ok(_) => return check(false, "labels have 1 to 63 bytes"),
            },
            _ => {
                assume((b[0] < 128) & (b[1] < 128) & (b[2] < 128));
                match DomainName::from_str(core::str::from_utf8(&b).unwrap()) {
                    Err(e) => e,
                    Ok(_) => return,
                }
            }
        };
        let (want, what) = match e {
            Error::Eof => (io::ErrorKind::UnexpectedEof, "eof"),
            Error::PointerLoop => (io::ErrorKind::InvalidData, "loop"),
            Error::InvalidValue => (io::ErrorKind::InvalidData, "value"),
            Error::InvalidEmptyLabel => (io::ErrorKind::InvalidInput, "empty label"),
            Error::LabelTooLong => (io::ErrorKind::InvalidInput, "long label"),
            _ => return check(false, "no other error comes from decoding"),
        };
        check(show(&e).n > 0, "each error has a text");
        let all = [Error::Eof, Error::PointerLoop, Error::InvalidValue, Error::InvalidEmptyLabel, Error::LabelTooLong, Error::Truncated];
        for o in all {
            if o != e {
                check(show(&o).get() != show(&e).get(), "each error has a text of its own");
            }
        }
        check(e.source().is_none(), "errors have no further cause");
        check(io::Error::from(e).kind() == want, "kind of the I/O error");
        check(io::Error::from(Error::Truncated).kind() == io::ErrorKind::OutOfMemory, "kind of the I/O error for lack of space");
        reach(what);
    }

    /// The log of raw packets and the texts of addresses need every byte.
    fn sh_v4_in_v6() {
        let a = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, [0, 255][choose(2)], 255, u8_(), 2, 3, 4];
        let mut t = Text::new();
        let _ = write!(t, "{}", Ipv6Addr::from(a));
        data_shown(28, "AAAA", &a, vec![t]);
        let mut t = Text::new();
        let _ = write!(t, "{}", Ipv4Addr::from([a[12], 2, 3, 4]));
        data_shown(1, "A", &a[12..], vec![t]);
    }
    /// Texts that do not fit their destination.
    fn sh_full() {
        let c = u8_();
        let k = choose(16);
        match k {
            11 => return show_small(&DomainName::from_iter([Label::new(&[b'a', c]), Label::new(b"bc")])),
            12 => return show_small(&DomainName::ROOT),
            13 => return show_small(&Service::new(Label::new(&[b'_', b'a', c]), ServiceTransport::Other)),
            14 => return show_small(&ServiceInstance::new(Label::new(&[b'a', c]), Label::new(b"_b"), ServiceTransport::TCP)),
            15 => {
                let mut m = header(1, 0, 1, 0);
                m.extend([1, b'q', 0, 0, c, 0, 1]);
                return match MessageDecoder::new(&m) {
                    Ok(mut d) => match d.next() {
                        Some(Ok(q)) => show_small(&q),
                        _ => check(false, "a question is decoded"),
                    },
                    Err(_) => check(false, "a header is accepted"),
                };
            }
            _ => {}
        }
        let n = [1, c, 0];
        let mut soa = vec![1, c, 0, 0];
        soa.extend([1; 20]);
        let (ty, data): (u16, Vec<u8>) = match k {
            0 => (1, vec![c, 2, 3, 4]),
            1 => (28, vec![c; 16]),
            2 => (2, n.to_vec()),
            3 => (5, n.to_vec()),
            4 => (12, n.to_vec()),
            5 => (15, vec![0, 7, 1, c, 0]),
            6 => (16, vec![2, b't', c, 1, b'u']),
            7 => (33, vec![0, 1, 0, 2, 0, 3, 1, c, 0]),
            8 => (6, soa),
            9 => (99, vec![c, 1]),
            _ => (1, vec![c]),
        };
        let m = one(&[1, b'o', 0], ty, 1, 77, &data);
        match MessageDecoder::new(&m).and_then(|d| d.answers()) {
            Ok(mut d) => match d.next() {
                Some(Ok(r)) => show_small(&r),
                _ => check(false, "a record is decoded"),
            },
            Err(_) => check(false, "a header is accepted"),
        }
    }
}
