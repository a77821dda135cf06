//! Labels and names as text and as collections.
use crate::rt::*;
use core::fmt::Write;
use uwuhi::name::{DomainName, Label};
use uwuhi::Error;

pub const CAP: usize = 1600;

pub struct Text {
    pub b: [u8; CAP],
    pub n: usize,
}
impl Write for Text {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for &c in s.as_bytes() {
            if self.n < CAP {
                self.b[self.n] = c;
            }
            self.n += 1;
        }
        Ok(())
    }
}
impl Text {
    pub fn new() -> Text {
        Text { b: [0; CAP], n: 0 }
    }
    pub fn put(&mut self, c: u8) {
        self.b[self.n] = c;
        self.n += 1;
    }
    pub fn get(&self) -> &[u8] {
        &self.b[..self.n.min(CAP)]
    }
}

pub fn shown(t: &mut Text, l: &[u8]) {
    for &c in l {
        esc(t, c);
    }
}

/// What is shown of one octet: itself when printable, an escape otherwise.
fn esc(t: &mut Text, c: u8) {
    let hex = b"0123456789abcdef";
    let two: &[u8] = match c {
        b'\t' => b"\\t",
        b'\r' => b"\\r",
        b'\n' => b"\\n",
        b'\'' => b"\\'",
        b'"' => b"\\\"",
        b'\\' => b"\\\\",
        _ => b"",
    };
    let mut put = |c: u8| {
        t.b[t.n] = c;
        t.n += 1;
    };
    if two.len() == 2 {
        put(two[0]);
        put(two[1]);
    } else if c >= 0x20 && c < 0x7f {
        put(c);
    } else {
        put(b'\\');
        put(b'x');
        put(hex[(c >> 4) as usize]);
        put(hex[(c & 15) as usize]);
    }
}

/// The labels of the text `s`, split at dots, a dot at the end being optional.
fn parse(s: &[u8], out: &mut [(usize, usize); 140]) -> Result<usize, Error> {
    if s == b"." || s.is_empty() {
        return Ok(0);
    }
    let mut n = 0;
    let mut at = 0;
    for i in 0..s.len() + 1 {
        if i == s.len() || s[i] == b'.' {
            if i == s.len() && at == i {
                break; // text ended with a dot
            }
            if i == at {
                return Err(Error::InvalidEmptyLabel);
            }
            if i - at > 63 {
                return Err(Error::LabelTooLong);
            }
            out[n] = (at, i - at);
            n += 1;
            at = i + 1;
        }
    }
    Ok(n)
}

fn check_parse(s: &[u8]) {
    let st = unsafe { core::str::from_utf8_unchecked(s) };
    let mut l = [(0, 0); 140];
    let want = parse(s, &mut l);
    let got: Result<DomainName, Error> = if choose(2) == 0 { DomainName::from_str(st) } else { st.parse() };
    match (got, want) {
        (Ok(d), Ok(n)) => {
            check(d.labels().len() == n, "number of labels in a text");
            for (k, x) in d.labels().iter().enumerate() {
                if k < n {
                    check_bytes(x.as_bytes(), &s[l[k].0..l[k].0 + l[k].1], "label in a text");
                }
            }
            reach("parsed");
        }
        (Err(a), Err(b)) => {
            check(a == b, "error for a text that is no name");
            reach("rejected");
        }
        _ => check(false, "text accepted or rejected wrongly"),
    }
}

harness! {
    /// A label has 1 to 63 octets, whichever way it is made.
    fn label_len() {
        let n = [0usize, 1, 2, 62, 63, 64, 65, 127, 128, 255, 256][choose(11)];
        let b = [7u8; 256];
        let how = choose(3);
        let ok = n >= 1 && n <= 63;
        let r = match how {
            0 => Label::try_new(&b[..n]),
            1 => unsafe { core::str::from_utf8_unchecked(&b[..n]) }.parse::<Label>(),
            _ => {
                allow_panic(!ok);
                let l = Label::new(&b[..n]);
                allow_panic(false);
                check(ok, "`Label::new` refuses an invalid label");
                Ok(l)
            }
        };
        match r {
            Ok(l) => {
                check(ok, "label of an impossible length");
                check(l.as_bytes().len() == n, "length of a label");
                reach("label");
            }
            Err(e) => {
                check(!ok, "valid label refused");
                check(e == if n == 0 { Error::InvalidEmptyLabel } else { Error::LabelTooLong }, "error for an invalid label");
                reach("invalid label");
            }
        }
    }
    /// Any octets may be in a label, and labels are equal exactly when their octets are.
    fn label_bytes() {
        let a = bytes::<5>();
        let b = bytes::<5>();
        let (m, n) = (1 + choose(5), 1 + choose(5));
        let (x, y) = (Label::new(&a[..m]), Label::new(&b[..n]));
        check_bytes(x.as_bytes(), &a[..m], "octets of a label");
        let same = eq_bytes(&a[..m], &b[..n]);
        check((x == y) == same, "equality of labels");
        check((x.cmp(&y) == core::cmp::Ordering::Equal) == same, "ordering and equality of labels");
        check(x.clone() == x, "clone of a label");
        reach("labels");
    }
    /// ASCII texts of up to seven characters.
    fn parse_short() {
        let b = bytes::<7>();
        for c in b {
            assume(c < 128);
        }
        check_parse(&b[..choose(8)]);
    }
    /// Two-octet characters are kept as they are.
    fn parse_utf8() {
        let c = u8_();
        assume(c >= 0x80 && c < 0xC0);
        let d = bytes::<3>();
        for c in d {
            assume(c < 128);
        }
        let s = [d[0], 0xC3, c, d[1], 0xC2, c, d[2]];
        check_parse(&s);
    }
    /// Characters of two to four octets, and labels around the maximum length.
    fn parse_wide() {
        let c = u8_();
        assume((c >= 0x80) & (c < 0xC0));
        let ch = [vec![0xC3, c], vec![0xE3, 0x81, c], vec![0xF0, 0x9F, 0x98, c]][choose(3)].clone();
        let every = [8, 20, 1000][choose(3)];
        let n = [15, 16, 20, 21, 22, 31, 32, 33, 62, 63, 64][choose(11)];
        let mut s: Vec<u8> = b"xyz"[..choose(4)].to_vec();
        for k in 0..n {
            s.extend_from_slice(&ch);
            if k % every == every - 1 {
                s.push(b'.');
            }
        }
        if s.len() < 280 {
            check_parse(&s);
        }
        match core::str::from_utf8(&s) {
            Ok(t) => {
                let dots = s.iter().any(|&x| x == b'.');
                if !dots {
                    check(t.parse::<Label>().is_ok() == (s.len() < 64), "a label from a text has at most 63 octets");
                }
            }
            Err(_) => check(false, "harness: text"),
        }
    }
    /// What the iterators over labels say besides `next`.
    fn name_iters() {
        let b = bytes::<4>();
        let n = choose(5);
        let l: Vec<Label> = (0..n).map(|k| Label::new(&b[k..k + 1])).collect();
        let d: DomainName = l.iter().collect();
        let k = choose(6);
        let same = |x: Option<&Label>, i: usize| match x {
            Some(x) => {
                check(i < n, "no label behind the last one");
                if i < n {
                    check_bytes(x.as_bytes(), &b[i..i + 1], "label of an iterator");
                }
            }
            None => check(i >= n, "no label is left out"),
        };
        match choose(7) {
            0 => {
                let mut it = (&d).into_iter();
                same(it.nth(k), k);
                same(it.next(), k + 1);
            }
            1 => {
                let mut it = d.clone().into_iter();
                same(it.nth(k).as_ref(), k);
                same(it.next().as_ref(), k + 1);
            }
            2 => same((&d).into_iter().last(), if n > 0 { n - 1 } else { 0 }),
            3 => same(d.into_iter().last().as_ref(), if n > 0 { n - 1 } else { 0 }),
            4 => check((&d).into_iter().count() == n && d.into_iter().count() == n, "number of labels of an iterator"),
            5 => {
                let (x, y) = (&d).into_iter().size_hint();
                check(x <= n && y.map_or(true, |y| n <= y), "bounds on the number of labels");
                let (x, y) = d.into_iter().size_hint();
                check(x <= n && y.map_or(true, |y| n <= y), "bounds on the number of labels");
            }
            _ => {
                let v: Vec<Label> = d.into_iter().skip(k).collect();
                check(v.len() == n.saturating_sub(k), "number of labels that are not skipped");
                for (i, x) in v.iter().enumerate() {
                    same(Some(x), i + k);
                }
            }
        }
        reach("iterated");
    }
    /// Names that are extended, from names of any kind.
    fn name_extend() {
        let b = bytes::<6>();
        let (m, n) = (choose(4), choose(4));
        let mk = |b: &[u8]| b.iter().map(|x| Label::new([*x])).collect::<DomainName>();
        let (mut d, e) = (mk(&b[..m]), mk(&b[3..3 + n]));
        match choose(4) {
            0 => d.extend(&e),
            1 => d.extend(e.clone()),
            2 => d.extend(e.labels()),
            _ => e.labels().iter().for_each(|l| d.push_label(l.clone())),
        }
        check(d.labels().len() == m + n, "number of labels of an extended name");
        for (k, x) in d.labels().iter().enumerate() {
            let c = if k < m { b[k] } else { b[3 + k - m] };
            check(x.as_bytes().len() == 1 && x.as_bytes()[0] == c, "labels of an extended name");
        }
        check(e == mk(&b[3..3 + n]), "what a name is extended with stays");
        reach("extended");
    }
    /// Labels around the maximum length.
    fn parse_long() {
        let n = [62usize, 63, 64, 65, 126, 127, 128, 129, 200][choose(9)];
        let mut b = [b'x'; 200];
        let k = [0usize, 61, 62, 63, 64, 65][choose(6)];
        b[k] = u8_();
        b[n - 1] = u8_();
        assume(b[k] < 128 && b[n - 1] < 128);
        check_parse(&b[..n]);
    }
    /// Display and Debug of a label.
    fn show_label() {
        let b = bytes::<2>();
        let n = 1 + choose(2);
        let l = Label::new(&b[..n]);
        let mut want = Text::new();
        let mut got = Text::new();
        let debug = choose(2) == 1;
        if debug {
            let _ = want.write_str("\"");
        }
        for &c in &b[..n] {
            esc(&mut want, c);
        }
        let r = if debug {
            let _ = want.write_str("\"");
            write!(got, "{:?}", l)
        } else {
            write!(got, "{}", l)
        };
        check(r.is_ok(), "formatting succeeds");
        check_bytes(got.get(), want.get(), "label as text");
        reach("shown");
    }
    /// Labels of any length.
    fn show_long() {
        let n = [3usize, 8, 9, 15, 16, 17, 20, 24, 31, 32, 33, 40, 48, 59, 60, 61, 62, 63][choose(18)];
        let mut b = [0u8; 63];
        for i in 0..n {
            b[i] = b'a' + (i % 26) as u8;
        }
        b[[0, n / 2, n - 1][choose(3)]] = u8_();
        let l = Label::new(&b[..n]);
        let mut want = Text::new();
        let mut got = Text::new();
        let r = match choose(3) {
            0 => {
                let _ = want.write_str("\"");
                shown(&mut want, &b[..n]);
                let _ = want.write_str("\"");
                write!(got, "{:?}", l)
            }
            1 => {
                shown(&mut want, &b[..n]);
                write!(got, "{}", l)
            }
            _ => {
                let _ = want.write_str("x.");
                shown(&mut want, &b[..n]);
                let _ = want.write_str(".");
                let mut d = DomainName::ROOT;
                d.push_label(Label::new("x"));
                d.push_label(l);
                write!(got, "{}", d)
            }
        };
        check(r.is_ok(), "formatting succeeds");
        check_bytes(got.get(), want.get(), "long label as text");
        reach("shown");
    }
    /// Names of many labels, built, compared, shown and parsed.
    fn name_many() {
        let n = [4usize, 5, 7, 8, 9, 10, 15, 16, 17, 32, 33, 63, 64, 65, 126, 127][choose(16)];
        let at = [0, n / 2, n - 1][choose(3)];
        let c = u8_();
        assume((c > b' ') & (c < 0x7f) & (c != b'.') & (c != b'\\') & (c != b'"') & (c != b'\''));
        let other = u8_();
        let mk = |c: u8| (0..n).map(|k| Label::new([if k == at { c } else { b'a' + (k % 26) as u8 }])).collect::<Vec<_>>();
        let (l, o) = (mk(c), mk(other));
        let d: DomainName = l.iter().collect();
        let mut e = DomainName::ROOT;
        for x in &o {
            e.push_label(x.clone());
        }
        check(d.labels().len() == n && e.labels().len() == n, "number of labels");
        check((d == e) == (c == other), "equality of long names");
        let shorter: DomainName = l[..n - 1].iter().collect();
        check(shorter != d, "a name differs from its front part");
        let mut k = 0;
        for x in &d {
            check_bytes(x.as_bytes(), l[k].as_bytes(), "labels in order");
            k += 1;
        }
        check(k == n, "number of labels");
        let mut got = Text::new();
        check(write!(got, "{}", d).is_ok(), "formatting succeeds");
        let mut want = Text::new();
        for x in &l {
            shown(&mut want, x.as_bytes());
            want.put(b'.');
        }
        check_bytes(got.get(), want.get(), "long name as text");
        check_parse(&got.get()[..got.n - choose(2)]);
        reach("many labels");
    }
    /// Display of a name: every label, each followed by a dot.
    fn show_name() {
        let n = choose(4);
        let mut d = DomainName::ROOT;
        let mut want = Text::new();
        let mut quoted = Text::new();
        let mut got = Text::new();
        for k in 0..n {
            let c = if k == 1 { bytes::<1>()[0] } else { b'a' + k as u8 };
            d.push_label(Label::new([b'q', c]));
            for (t, q) in [(&mut want, ""), (&mut quoted, "\"")] {
                let _ = t.write_str(q);
                let _ = t.write_str("q");
                esc(t, c);
                let _ = t.write_str(q);
                let _ = t.write_str(".");
            }
        }
        if n == 0 {
            let _ = want.write_str(".");
            let _ = quoted.write_str(".");
        }
        if choose(2) == 1 {
            // with labels as they show or as they show in debug output
            check(write!(got, "{:?}", d).is_ok(), "formatting succeeds");
            let plain = got.n == 0 || got.b[0] != b'"';
            check_bytes(got.get(), if plain { want.get() } else { quoted.get() }, "debug text of a name");
            return reach("debug");
        }
        check(write!(got, "{}", d).is_ok(), "formatting succeeds");
        check_bytes(got.get(), want.get(), "name as text");
        reach("shown");
    }
    /// The text of a name made of printable labels without special characters parses to that name.
    fn show_parse() {
        let n = choose(4);
        let mut d = DomainName::ROOT;
        for _ in 0..n {
            let b = bytes::<3>();
            let l = 1 + choose(3);
            for &c in &b[..l] {
                assume((c > 0x20) & (c < 0x7f) & (c != b'.') & (c != b'\\') & (c != b'"') & (c != b'\''));
            }
            d.push_label(Label::new(&b[..l]));
        }
        let mut got = Text::new();
        check(write!(got, "{}", d).is_ok(), "formatting succeeds");
        let s = unsafe { core::str::from_utf8_unchecked(got.get()) };
        match DomainName::from_str(s) {
            Ok(e) => check(e == d, "text of a name parses to the name"),
            Err(_) => check(false, "text of a name parses"),
        }
        reach("round trip");
    }
    /// The ways of building and reading a name agree, in order.
    fn name_collect() {
        let b = bytes::<6>();
        let n = choose(4);
        let lens = [1usize, 2, 3];
        let offs = [0usize, 1, 3];
        let l: Vec<Label> = (0..n).map(|k| Label::new(&b[offs[k]..offs[k] + lens[k]])).collect();
        let mut d = DomainName::ROOT;
        for x in &l {
            d.push_label(x.clone());
        }
        let how = choose(4);
        let e = match how {
            0 => l.iter().collect::<DomainName>(),
            1 => l.clone().into_iter().collect::<DomainName>(),
            2 => {
                let mut e = DomainName::ROOT;
                e.extend(l.iter());
                e
            }
            _ => {
                let mut e = DomainName::ROOT;
                e.extend(l.clone());
                e
            }
        };
        check(d == e, "names built from the same labels are equal");
        check(d.labels().len() == n, "number of labels");
        for (k, x) in (&e).into_iter().enumerate() {
            check_bytes(x.as_bytes(), &b[offs[k]..offs[k] + lens[k]], "labels by reference, in order");
        }
        let mut k = 0;
        for x in e {
            check_bytes(x.as_bytes(), &b[offs[k]..offs[k] + lens[k]], "labels by value, in order");
            k += 1;
        }
        check(k == n, "number of labels by value");
        reach("collected");
    }
    /// Names are equal exactly when their labels are, one by one.
    fn name_eq() {
        let b = bytes::<4>();
        let c = bytes::<4>();
        let split: [&[(usize, usize)]; 6] = [&[], &[(0, 4)], &[(0, 1), (1, 4)], &[(0, 2), (2, 4)], &[(0, 1), (1, 2), (2, 4)], &[(0, 2)]];
        let (i, j) = (choose(6), choose(6));
        let mk = |s: &[(usize, usize)], b: &[u8]| s.iter().map(|x| Label::new(&b[x.0..x.1])).collect::<DomainName>();
        let (x, y) = (mk(split[i], &b), mk(split[j], &c));
        let n = if i == 0 { 0 } else if i == 5 { 2 } else { 4 };
        check((x == y) == (i == j && eq_bytes(&b[..n], &c[..n])), "equality of names");
        reach("compared");
    }
}
