//! The advertiser's server loops: what is received, handled by a second advertiser with the same
//! registrations, gives what has to be sent.
use crate::adv::{ip, labels, local, name_of, put16, query, Labels, Q};
use crate::net::*;
use crate::rt::*;
use std::io;
use std::net::IpAddr;
use uwuhi::name::Label;
use uwuhi::packet::records::TXT;
use uwuhi::service::advertising::{Advertiser, SyncAdvertiser};
use uwuhi::service::{InstanceDetails, ServiceInstance, ServiceTransport, TxtRecords};
use uwuhi_async::service::advertising::AsyncAdvertiser;

const BUFFER: usize = 1500;

struct Inst {
    inst: Vec<u8>,
    svc: Vec<u8>,
    tcp: bool,
    host: Labels,
    port: u16,
    txt: Option<Vec<u8>>,
}
impl Inst {
    fn of(&self) -> (ServiceInstance, InstanceDetails) {
        let t = if self.tcp { ServiceTransport::TCP } else { ServiceTransport::Other };
        let mut d = InstanceDetails::new(name_of(&self.host), self.port);
        if let Some(s) = &self.txt {
            *d.txt_records_mut() = TxtRecords::from_txt(&TXT::new([s.to_vec()]));
        }
        (ServiceInstance::new(Label::new(&self.inst), Label::new(&self.svc), t), d)
    }
}

/// Registrations, made in the order first host, other hosts, instances.
struct Reg {
    hosts: Vec<(Vec<u8>, IpAddr)>,
    insts: Vec<Inst>,
}

fn reg() -> Reg {
    Reg {
        hosts: vec![(b"host".to_vec(), IpAddr::from([10, 0, 0, 1])), (b"box".to_vec(), IpAddr::from([0xfe80, 0, 0, 0, 0, 0, 0, 9]))],
        insts: vec![Inst { inst: b"one".to_vec(), svc: b"_s".to_vec(), tcp: true, host: local(b"host"), port: 80, txt: Some(b"k=v".to_vec()) }],
    }
}

macro_rules! register {
    ($a:expr, $r:expr) => {{
        for (h, ip) in &$r.hosts[1..] {
            $a.add_name(Label::new(h), *ip);
        }
        for i in &$r.insts {
            let (s, d) = i.of();
            $a.add_instance(s, d);
        }
    }};
}

fn made<T>(r: io::Result<T>) -> T {
    match r {
        Ok(r) => r,
        Err(_) => {
            check(false, "it can be made");
            loop {}
        }
    }
}

/// Runs one of the loops on the script, which has to end with an error of the socket or a send.
fn serve(r: &Reg, s: Vec<Step>, send_errors: &[i32]) {
    let mut t = s.clone();
    script(s);
    net().send_errors = send_errors.to_vec();
    let e = if choose(2) == 0 {
        let mut a = made(SyncAdvertiser::new(Label::new(&r.hosts[0].0), r.hosts[0].1));
        register!(a, r);
        a.listen_blocking()
    } else {
        let k = choose(3) as u8;
        for (i, x) in net().script.iter_mut().enumerate() {
            x.pend = if i % 2 == 0 { k } else { 2 - k };
        }
        let mut a = made(AsyncAdvertiser::new(Label::new(&r.hosts[0].0), r.hosts[0].1));
        register!(a, r);
        run(a.listen())
    };
    let got = match &e {
        Ok(()) => {
            check(false, "the loop never ends without an error");
            return;
        }
        Err(e) => e.raw_os_error(),
    };

    // the reference
    let mut sends = 0;
    let mut want: Vec<(Vec<u8>, Addr, usize)> = vec![];
    let mut end = None;
    let mut at = 0;
    for x in t.drain(..) {
        at += 1;
        match x.ev {
            Ev::Fail(n) => end = Some(n),
            Ev::Quiet => {}
            Ev::Data(mut m, from) => {
                m.truncate(BUFFER);
                let mut a = made(Advertiser::new(Label::new(&r.hosts[0].0), r.hosts[0].1));
                register!(a, r);
                match a.handle_packet(&m) {
                    Ok(Some(x)) => {
                        let e = send_errors.get(sends).copied().unwrap_or(0);
                        sends += 1;
                        if e == 0 {
                            want.push((x.to_vec(), from, at));
                            reach("answered");
                        } else {
                            end = Some(e);
                            reach("send fails");
                        }
                    }
                    Ok(None) => reach("silent"),
                    Err(_) => reach("malformed"),
                }
            }
        }
        if end.is_some() {
            break;
        }
    }
    let n = net();
    check(n.at == at, "it listens until the socket fails and no longer");
    check(got == end, "it ends with the error of the socket");
    check(n.sent.len() == want.len(), "each answer is sent once and nothing else");
    for (s, (m, to, at)) in n.sent.iter().zip(&want) {
        check(s.to.same(to), "an answer goes to the sender of the query");
        check_bytes(&s.msg, m, "an answer is sent unchanged");
        check(s.after == *at, "an answer is sent right after its query");
        let k = &n.socks[s.sock];
        let port = k.bound.map_or(0, |b| b.port);
        check(port == 5353, "answers come from port 5353");
    }
    reach("ended");
}

/// Gives the async loop up after a few polls and starts it again.
fn serve_again(r: &Reg, s: Vec<Step>, polls: usize) {
    script(s.clone());
    for x in net().script.iter_mut() {
        x.pend = 1;
    }
    let mut a = made(AsyncAdvertiser::new(Label::new(&r.hosts[0].0), r.hosts[0].1));
    register!(a, r);
    if run_some(a.listen(), polls).is_some() {
        return;
    }
    let cut = net().at;
    a.add_name(Label::new("late"), IpAddr::from([9, 9, 9, 9]));
    let e = run(a.listen());
    check(matches!((&e, &s[s.len() - 1].ev), (Err(e), Ev::Fail(n)) if e.raw_os_error() == Some(*n)), "it ends with the error of the socket");
    let n = net();
    check(n.at == s.len(), "it listens until the socket fails and no longer");
    let mut k = 0;
    for (at, x) in s.iter().enumerate() {
        if let Ev::Data(m, from) = &x.ev {
            let mut a = made(Advertiser::new(Label::new(&r.hosts[0].0), r.hosts[0].1));
            register!(a, r);
            if at >= cut {
                a.add_name(Label::new("late"), IpAddr::from([9, 9, 9, 9]));
            }
            if let Ok(Some(x)) = a.handle_packet(m) {
                let sent = k < n.sent.len() && n.sent[k].after == at + 1;
                // an answer may be lost with the call that was about to send it
                check(sent || at + 1 == cut, "a query is answered after listening was given up once");
                if sent {
                    check(n.sent[k].to.same(from), "an answer goes to the sender of the query");
                    check_bytes(&n.sent[k].msg, x, "an answer is sent unchanged");
                    k += 1;
                }
            }
        }
    }
    check(k == n.sent.len(), "each answer is sent once and nothing else");
    reach("given up");
    if k > 0 {
        reach("answered");
    }
}

/// Some sender.
fn who() -> Addr {
    Addr::v4(bytes::<4>(), u16_())
}
/// A question for something that is registered.
fn hit(k: usize) -> Vec<Q> {
    let n = match k {
        0 => local(b"host"),
        1 => local(b"box"),
        _ => labels(&[b"one", b"_s", b"_tcp", b"local"]),
    };
    vec![Q { name: n, ty: 255, class: 1 }]
}
fn miss() -> Vec<Q> {
    vec![Q { name: local(b"other"), ty: 255, class: 1 }]
}
fn datagram(kind: usize) -> Vec<u8> {
    datagram_(kind, if kind < 5 { u16_() } else { 0 })
}
fn datagram_(kind: usize, id: u16) -> Vec<u8> {
    match kind {
        0 => query(id, 0, &hit(0)),
        1 => query(id, 0x0100, &hit(2)),
        2 => query(id, 0, &miss()),
        3 => query(id, 0x8400, &hit(0)),
        4 => {
            let mut m = query(id, 0, &hit(0));
            m.truncate(20);
            m
        }
        _ => vec![],
    }
}
fn end() -> Step {
    fail(error())
}

harness! {
    /// Sequences of answered, unanswered and malformed datagrams from any senders.
    fn sv_sequence() {
        let mut s = vec![];
        for _ in 0..3 {
            s.push(data(datagram(choose(6)), who()));
        }
        s.push(end());
        serve(&reg(), s, &[]);
    }

    /// Listening that is given up and started again, with one name more.
    fn sv_cancel() {
        let mut s = vec![];
        for _ in 0..3 {
            let m = match choose(5) {
                0 => query(u16_(), 0, &[Q { name: local(b"late"), ty: 1, class: 1 }]),
                k => datagram(k - 1),
            };
            s.push(data(m, who()));
        }
        s.push(end());
        serve_again(&reg(), s, 1 + choose(4));
    }

    /// An arbitrary datagram between others.
    fn sv_any() {
        let mut m = vec![0u8; 18];
        m[0] = u8_();
        m[2] = u8_();
        m[3] = u8_();
        m[5] = u8_();
        fill(&mut m[12..]);
        m.truncate(choose(19));
        serve(&reg(), vec![data(m, who()), data(datagram(0), who()), fail(EIO)], &[]);
    }

    /// Any question.
    fn sv_question() {
        let q = vec![Q { name: hit(choose(3)).remove(0).name, ty: u16_(), class: u16_() }];
        serve(&reg(), vec![data(query(u16_(), u16_(), &q), who()), fail(EIO)], &[]);
    }

    /// Any registrations.
    fn sv_register() {
        let b = bytes::<4>();
        let mut r = Reg { hosts: vec![(vec![b[0]], ip())], insts: vec![] };
        if choose(2) == 1 {
            r.hosts.push((vec![b[1]], ip()));
        }
        if choose(2) == 1 {
            let txt = [None, Some(vec![b'k', b'=', u8_()])][choose(2)].clone();
            r.insts.push(Inst { inst: vec![b[2]], svc: vec![b'_', b[3]], tcp: choose(2) == 1, host: labels(&[&[u8_()]]), port: u16_(), txt });
        }
        let n = match choose(3) {
            0 => local(&[u8_()]),
            1 => labels(&[&[u8_()], &[b'_', u8_()], [b"_tcp", b"_udp"][choose(2)], b"local"]),
            _ => labels(&[&[b'_', u8_()], [b"_tcp", b"_udp"][choose(2)], b"local"]),
        };
        let q = vec![Q { name: n, ty: 255, class: 1 }];
        serve(&r, vec![data(query(1, 0, &q), who()), fail(EIO)], &[]);
    }

    /// Datagrams around the size of the receive buffer, and answers that do not fit into the send buffer.
    fn sv_big() {
        let mut m = query(u16_(), 0, &hit(0));
        let n = [1498, 1499, 1500, 1501, 1502, 2000][choose(6)];
        // a record in the additional section and a question behind it
        match choose(3) {
            0 => m.resize(n, 0),
            1 => {
                // a second question, whose end is cut off in long datagrams
                m[5] = 2;
                let mut left = n - m.len() - 5;
                while left > 0 {
                    let k = if left > 64 { 63 } else { left - 1 };
                    if left - k - 1 == 1 {
                        m.push(k as u8 - 1);
                        m.resize(m.len() + k - 1, b'x');
                        left -= k;
                    } else {
                        m.push(k as u8);
                        m.resize(m.len() + k, b'x');
                        left -= k + 1;
                    }
                }
                m.push(0);
                put16(&mut m, 1);
                put16(&mut m, 1);
            }
            _ => {
                let mut q = vec![];
                for _ in 0..[19, 20, 40][choose(3)] {
                    q.extend(hit(2));
                }
                m = query(u16_(), 0, &q);
            }
        }
        serve(&reg(), vec![data(m, who()), data(datagram(1), who()), fail(EIO)], &[]);
    }

    /// A send that fails ends the loop.
    fn sv_send() {
        let mut s = vec![];
        for _ in 0..3 {
            s.push(data(datagram([0, 2, 4][choose(3)]), who()));
        }
        s.push(end());
        let mut e = vec![0; choose(3)];
        e.push([EIO, 101, 12][choose(3)]);
        serve(&reg(), s, &e);
    }

    /// What is received is logged, which makes no difference.
    fn sv_logged() {
        crate::tap::logged();
        let m = if choose(2) == 0 { datagram(choose(6)) } else { crate::tap::response(choose(crate::tap::RESPONSES)) };
        serve(&reg(), vec![data(m, Addr::v4([10, 0, 0, 9], 5353)), data(datagram(1), Addr::v4([10, 0, 0, 8], 5354)), fail(EIO)], &[]);
    }

    /// Many datagrams of each kind, then one that has to be answered.
    fn sv_long() {
        let n = [7usize, 11, 16, 17, 33, 64, 65, 100][choose(8)];
        let kind = choose(7);
        let mut s = vec![];
        for k in 0..n {
            let d = if kind == 6 { [4, 0, 2, 5, 1, 3][k % 6] } else { kind };
            s.push(data(datagram_(d, k as u16), Addr::v4([10, 0, 0, k as u8], 5353)));
        }
        s.push(data(datagram(1), who()));
        s.push(fail(EIO));
        serve(&reg(), s, &[]);
    }

    /// The listening socket.
    fn sv_socket() {
        let is_async = choose(2) == 1;
        script(vec![fail(EIO)]);
        let (h, a) = (Label::new([u8_()]), ip());
        let made = if is_async {
            match AsyncAdvertiser::new(h, a) {
                Ok(mut a) => run(a.listen()).is_err(),
                Err(_) => false,
            }
        } else {
            match SyncAdvertiser::new(h, a) {
                Ok(mut a) => a.listen_blocking().is_err(),
                Err(_) => false,
            }
        };
        check(made, "it listens");
        let n = net();
        check(n.socks.len() == 1, "one socket is used");
        let s = &n.socks[0];
        check(!s.open, "the socket is closed in the end");
        check(s.reuse, "the port is shared with other programs");
        check(s.timeout == (0, 0), "it listens without a timeout");
        check(s.groups.len() == 1 && s.groups[0] == [224, 0, 0, 251], "the mDNS group is joined");
        match s.bound {
            Some(b) => check(b.same(&Addr::v4([0, 0, 0, 0], 5353)), "it listens on port 5353 of every interface"),
            None => check(false, "the socket is bound"),
        }
        reach("listening socket");
    }
}
