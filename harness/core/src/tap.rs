//! The traffic tap: it takes every datagram, and its log shows all of a well-formed message.
use crate::adv::{labels, put16, query, wire, Q};
use crate::net::*;
use crate::res::{header, record};
use crate::rt::*;
use std::fmt::Write;
use uwuhi::packet::decoder::MessageDecoder;
use uwuhi::tap::SyncTap;

const BUFFER: usize = 1500;

struct Lines;
static LOGGER: Lines = Lines;
static mut LINES: Vec<String> = Vec::new();

impl log::Log for Lines {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let mut s = String::new();
        if write!(s, "{}", r.args()).is_err() {
            check(false, "everything can be shown");
        }
        #[allow(static_mut_refs)]
        unsafe {
            LINES.push(s)
        };
    }
    fn flush(&self) {}
}

/// Switches the log on, to any of the levels that show what is received.
pub fn logged() {
    logging([log::LevelFilter::Warn, log::LevelFilter::Debug, log::LevelFilter::Trace][choose(3)]);
}
/// A response of one of several kinds, most of them of no use.
pub fn response(kind: usize) -> Vec<u8> {
    let n = wire(&labels(&[b"i\xff\n", b"_s", b"_tcp", b"local"]));
    let mut m = header(12345, 0x8400, 0, 1);
    match kind {
        0 => m = vec![],
        1 => m.truncate(5),
        2 => m[7] = 0,
        3 => m[2] = 0,
        4 => m.extend_from_slice(&[0xc0, 12]),
        5 => record(&mut m, &[0], 12, 1, 1, &[3, b'a']),
        6 => record(&mut m, &n, 99, 0x8001, 1, &[0xc3; 17]),
        7 => record(&mut m, &n, 16, 1, 1, &[2, 0xff, b'=', 1, b'=', 2, b'k', 0xc3]),
        8 => {
            m[7] = 9;
            for (ty, d) in [(1, vec![10, 0, 0, 0xc3]), (28, vec![1; 16]), (2, n.clone()), (5, n.clone()), (15, [&[0, 1][..], &n].concat()), (6, [&n[..], &n, &[7; 20]].concat()), (16, vec![3, b'a', b'=', 200]), (47, vec![]), (33, [&[0, 0, 0, 0, 0, 80][..], &n].concat())] {
                record(&mut m, &n, ty, 1, 120, &d);
            }
        }
        9 => {
            m = header(12345, 0x8183, 1, 1);
            m.extend(&n);
            m.extend_from_slice(&[0, 12, 0, 1]);
            record(&mut m, &[0xc0, 12], 12, 1, 1, &n);
        }
        10 => record(&mut m, &[0], 12, 1, 1, &wire(&labels(&[b"_s"]))),
        11 => record(&mut m, &[0], 12, 1, 1, &wire(&labels(&[b"i", b"s", b"_tcx", b"local"]))),
        12 => record(&mut m, &[0], 99, 1, 1, &[0; 700]),
        _ => record(&mut m, &[0], 99, 1, 1, &[0; 1477]),
    }
    m
}
pub const RESPONSES: usize = 14;

pub fn logging(l: log::LevelFilter) {
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(l);
    #[allow(static_mut_refs)]
    unsafe {
        LINES.clear()
    };
}
fn lines() -> Vec<String> {
    #[allow(static_mut_refs)]
    unsafe {
        core::mem::take(&mut LINES)
    }
}

fn contains(line: &[u8], text: &[u8]) -> bool {
    if line.len() * text.len() > 20_000 {
        // these are concrete; stop at the first difference
        return line.windows(text.len()).any(|w| w == text);
    }
    let mut found = false;
    let mut p = 0;
    while p + text.len() <= line.len() {
        found |= eq_bytes(&line[p..p + text.len()], text);
        p += 1;
    }
    found
}

/// Listens to the script, which ends with an error.
fn listen(s: Vec<Step>) {
    let n = s.len();
    let mut e = 0;
    if let Ev::Fail(x) = s[n - 1].ev {
        e = x;
    }
    script(s);
    let t = match SyncTap::new() {
        Ok(t) => t,
        Err(_) => return check(false, "a tap can be made"),
    };
    match t.listen() {
        Ok(()) => check(false, "the tap never ends without an error"),
        Err(x) => check(x.raw_os_error() == Some(e), "the tap ends with the error of its socket"),
    }
    check(net().at == n, "the tap listens until its socket fails and no longer");
    check(net().sent.is_empty(), "the tap sends nothing");
    reach("tapped");
}

/// The texts of all questions and records, `None` if the message is malformed.
fn texts(m: &[u8]) -> Option<Vec<String>> {
    let mut v = vec![];
    let mut d = MessageDecoder::new(m).ok()?;
    for q in d.iter() {
        v.push(format!("{}", q.ok()?));
    }
    let mut d = d.answers().ok()?;
    for r in d.iter() {
        v.push(format!("{}", r.ok()?));
    }
    let mut d = d.authority().ok()?;
    for r in d.iter() {
        v.push(format!("{}", r.ok()?));
    }
    let mut d = d.additional().ok()?;
    for r in d.iter() {
        v.push(format!("{}", r.ok()?));
    }
    Some(v)
}

fn shown(messages: &[Vec<u8>]) {
    let l = lines();
    for m in messages {
        let m = if m.len() > BUFFER { &m[..BUFFER] } else { m };
        match texts(m) {
            None => reach("malformed"),
            Some(t) => {
                for x in t {
                    let mut found = false;
                    for y in &l {
                        found |= contains(y.as_bytes(), x.as_bytes());
                    }
                    check(found, "each question and record of a message is logged");
                    reach("logged");
                }
            }
        }
    }
}

fn tap(messages: Vec<Vec<u8>>) {
    let mut s: Vec<Step> = messages.iter().map(|m| data(m.clone(), Addr::v4([10, 0, 0, 7], 5353))).collect();
    s.push(fail([EIO, 12, ECONNREFUSED, EINTR, EAGAIN, 101][choose(if messages.len() > 1 { 2 } else { 6 })]));
    listen(s);
    shown(&messages);
}

/// A message with one item in each section.
fn sections(counts: [u8; 4]) -> Vec<u8> {
    let mut m = header(7, 0x8400, counts[0] as u16, counts[1] as u16);
    m[9] = counts[2];
    m[11] = counts[3];
    let mut k = b'a';
    for _ in 0..counts[0] {
        m.extend(wire(&labels(&[&[k]])));
        put16(&mut m, 12);
        put16(&mut m, 1);
        k += 1;
    }
    for c in &counts[1..] {
        for _ in 0..*c {
            record(&mut m, &[1, k, 0], 1, 1, 120, &[10, 0, 0, k]);
            k += 1;
        }
    }
    m
}

harness! {
    /// Any number of items in each section.
    fn tap_sections() {
        logging(log::LevelFilter::Trace);
        let m = sections([choose(3) as u8, choose(3) as u8, choose(3) as u8, choose(3) as u8]);
        tap(vec![m]);
    }

    /// Many items in a section.
    fn tap_many() {
        logging(log::LevelFilter::Debug);
        let mut c = [0u8; 4];
        c[choose(4)] = [3, 9, 16, 17, 24][choose(5)];
        tap(vec![sections(c)]);
    }
    /// Many datagrams, malformed or not, then one that has to be logged.
    fn tap_long() {
        logging(log::LevelFilter::Debug);
        let kind = choose(5);
        let mut v = vec![];
        for k in 0..[9, 17, 33, 65][choose(4)] {
            v.push(match if kind == 4 { k % 4 } else { kind } {
                0 => vec![],
                1 => sections([1, 1, 0, 0])[..30].to_vec(),
                2 => sections([0, 0, 0, 0]),
                _ => vec![0, 0, 0x84, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0xc0, 12],
            });
        }
        let last = sections([1, 1, 1, 1]);
        v.push(last.clone());
        let mut s: Vec<Step> = v.iter().map(|m| data(m.clone(), Addr::v4([10, 0, 0, 7], 5353))).collect();
        s.push(fail(EIO));
        listen(s);
        shown(&[last]);
    }
    /// Any name and codes in a question.
    fn tap_question() {
        logging(log::LevelFilter::Debug);
        let b = bytes::<2>();
        let q = [Q { name: labels(&[&b[..1 + choose(2)]]), ty: u16_(), class: 1 }];
        tap(vec![query(7, 0, &q)]);
    }
    fn tap_class() {
        logging(log::LevelFilter::Debug);
        tap(vec![query(7, 0, &[Q { name: labels(&[b"a"]), ty: 12, class: u16_() }])]);
    }
    /// Any header.
    fn tap_header() {
        logging(log::LevelFilter::Debug);
        let k = choose(5);
        let mut m = sections([[1, 1, 1, 1], [0, 0, 0, 1]][choose(2)]);
        if k < 4 {
            m[2] = [0, 0x87][choose(2)];
            m[k] = u8_();
        } else {
            m = sections([1, 1, 0, 0]);
            m[2] = u8_();
            m[3] = u8_();
        }
        tap(vec![m]);
    }
    /// Any type and short data of a record in any section.
    fn tap_record() {
        logging(log::LevelFilter::Debug);
        let mut m = header(7, 0x8400, 0, 0);
        m[7 + 2 * choose(3)] = 1;
        let b = bytes::<3>();
        record(&mut m, &[0], u16_(), 1, 120, &b[..choose(4)]);
        tap(vec![m]);
    }
    /// Each supported type with short names.
    fn tap_types() {
        logging(log::LevelFilter::Trace);
        let mut m = header(7, 0x8400, 0, 0);
        m[7 + 2 * choose(3)] = 1;
        let c = [b'a', b'.', b'\\', 0, 200][choose(5)];
        let n = wire(&labels(&[&[c]]));
        let (t, d) = match choose(9) {
            0 => (1, vec![10, 1, 2, c]),
            1 => (28, vec![c; 16]),
            2 => (2, n),
            3 => (5, n),
            4 => (12, n),
            5 => (15, [&[1, c], &n[..]].concat()),
            6 => (33, [&[0, 1, 2, 3, 4, c], &n[..]].concat()),
            7 => (16, [&[2, c, c, 0, 1], &[c][..]].concat()),
            _ => (6, [&n[..], &n, &[c; 20]].concat()),
        };
        record(&mut m, &[1, c, 0], t, 0x8001, 1, &d);
        tap(vec![m]);
    }
    /// TTL and class.
    fn tap_ttl() {
        logging(log::LevelFilter::Debug);
        let mut m = header(7, 0x8400, 0, 1);
        let (ttl, class) = if choose(2) == 0 { (u8_() as u32, 1) } else { (1, u16_()) };
        record(&mut m, &[0], 1, class, ttl, &[10, 0, 0, 1]);
        tap(vec![m]);
    }
    /// Any short datagram.
    fn tap_any() {
        logging([log::LevelFilter::Off, log::LevelFilter::Debug][choose(2)]);
        let mut m = vec![0u8; 15];
        m[2] = u8_();
        m[[5, 7, 9, 11][choose(4)]] = choose(3) as u8;
        fill(&mut m[12..]);
        m.truncate([0, 1, 5, 11, 12, 13, 14, 15][choose(8)]);
        tap(vec![m]);
    }
    fn tap_bytes() {
        logging(log::LevelFilter::Trace);
        let b = bytes::<4>();
        tap(vec![b[..choose(5)].to_vec()]);
    }
    /// A message cut anywhere or announcing more than it has.
    fn tap_cut() {
        logging(log::LevelFilter::Trace);
        let mut m = sections([1, 1, 1, 1]);
        m[[5, 7, 9, 11][choose(4)]] += choose(2) as u8;
        let n = choose(m.len() + 1);
        m.truncate(n);
        tap(vec![m, sections([1, 1, 0, 0])]);
    }
    /// Sizes around that of the receive buffer, with and without an error at the end.
    fn tap_big() {
        let trace = choose(2) == 1;
        logging(if trace { log::LevelFilter::Trace } else { log::LevelFilter::Debug });
        let n = [1498, 1499, 1500, 1501, 1502, 1600][choose(6)];
        let mut m = sections([1, 1, 0, 0]);
        m[11] = choose(2) as u8;
        let l = n - m.len() - 11;
        record(&mut m, &[0], 99, 1, 1, &vec![b'x'; l]);
        if trace {
            // only that it goes on
            return listen(vec![data(m, Addr::v4([10, 0, 0, 7], 5353)), fail(EIO)]);
        }
        tap(vec![m, sections([1, 0, 0, 1])]);
    }
    /// Sequences of datagrams.
    fn tap_sequence() {
        logging(log::LevelFilter::Debug);
        let mut v = vec![];
        for k in 0..3 {
            v.push(match choose(5) {
                0 => sections([k, 1, 0, 0]),
                1 => sections([1, 0, 0, 2])[..40].to_vec(),
                2 => vec![],
                3 => {
                    let mut m = sections([0, 0, 0, 0]);
                    m[7] = 1;
                    m.extend_from_slice(&[0xc0, 12]);
                    m
                }
                _ => sections([0, 0, 1, k]),
            });
        }
        tap(v);
    }
    /// The listening socket.
    fn tap_socket() {
        logging(log::LevelFilter::Off);
        listen(vec![fail(EIO)]);
        let n = net();
        check(n.socks.len() == 1, "one socket is used");
        let s = &n.socks[0];
        check(!s.open, "the socket is closed in the end");
        check(s.reuse, "the port is shared with other programs");
        check(s.timeout == (0, 0), "it listens without a timeout");
        check(s.groups.len() == 1 && s.groups[0] == [224, 0, 0, 251], "the mDNS group is joined");
        match s.bound {
            Some(b) => check(b.same(&Addr::v4([0, 0, 0, 0], 5353)), "it listens on port 5353 of every interface"),
            None => check(false, "the socket is bound"),
        }
        reach("listening socket");
    }
}
