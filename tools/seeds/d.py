D, EN, R, PK, N = "src/packet/decoder.rs", "src/packet/encoder.rs", "src/packet/records.rs", "src/packet.rs", "src/name.rs"
S, ADV, DIS, RES, TAP = "src/service.rs", "src/service/advertising.rs", "src/service/discovery.rs", "src/resolver.rs", "src/tap.rs"
ER, HEX = "src/error.rs", "src/hex.rs"
AR, AA, AD = "uwuhi-async/src/resolver.rs", "uwuhi-async/src/service/advertising.rs", "uwuhi-async/src/service/discovery.rs"
ASYNC = 'uwuhi-async = { path = "$repo/uwuhi-async" }\nfutures-lite = "2"'
MSG = open("/verif/tools/seeds/b.py").read().split("MSG = '''")[1].split("'''")[0]
MD = "use uwuhi::packet::decoder::MessageDecoder;\n"

# Joining a group fails, everything else is as always.
NOJOIN = '''
extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: i32, level: i32, opt: i32, val: *const u8, len: u32) -> i32 {
    if level == 0 && opt == 35 {
        *__errno_location() = 19;
        return -1;
    }
    syscall(54, fd as i64, level as i64, opt as i64, val, len as i64) as i32
}
'''

seed("C24-leak", "C24", {ADV: [("        let sock = UdpSocket::from(sock);\n        sock.join_multicast_v4(&\"224.0.0.251\".parse().unwrap(), &Ipv4Addr::UNSPECIFIED)?;\n\n        Ok(sock)", "        // The socket must not be closed while it is handed over.\n        let sock = std::mem::ManuallyDrop::new(UdpSocket::from(sock));\n        sock.join_multicast_v4(&\"224.0.0.251\".parse().unwrap(), &Ipv4Addr::UNSPECIFIED)?;\n\n        Ok(std::mem::ManuallyDrop::into_inner(sock))")]}, NOJOIN + '''
use uwuhi::{name::Label, service::advertising::Advertiser};
fn main() {
    let n = || std::fs::read_dir("/proc/self/fd").unwrap().count();
    let a = Advertiser::new(Label::new("h"), "10.0.0.1".parse().unwrap()).unwrap();
    let before = n();
    for _ in 0..5 {
        assert!(a.create_socket().is_err());
    }
    assert_eq!(n(), before);
}
''', "joining the multicast group fails", "The socket stays open for good.")

seed("C24-join-ignored", "C24", {TAP: [("        sock.join_multicast_v4(&\"224.0.0.251\".parse().unwrap(), &Ipv4Addr::UNSPECIFIED)?;\n", "        if let Err(e) =\n            sock.join_multicast_v4(&\"224.0.0.251\".parse().unwrap(), &Ipv4Addr::UNSPECIFIED)\n        {\n            log::warn!(\"failed to join multicast group: {}\", e);\n        }\n")]}, NOJOIN + '''
fn main() {
    assert!(uwuhi::tap::SyncTap /**/ ::new().is_err());
}
''', "joining the multicast group fails", "A tap that hears nothing is made without an error.")

seed("C24-zero-timeout", "C24", {RES: [("self.sock.set_read_timeout(Some(timeout))?;", "self.sock\n            .set_read_timeout(Some(timeout).filter(|t| !t.is_zero()))?;")]}, '''
use std::time::Duration;
use uwuhi::resolver::SyncResolver;
fn main() {
    let mut r = SyncResolver::new("127.0.0.1:9".parse().unwrap()).unwrap();
    assert!(r.set_timeout(Duration::ZERO).is_err());
}
''', "a timeout of zero", "It is accepted and makes lookups wait forever.")

seed("C24-fixed-port", "C24", {DIS: [("            (Ipv4Addr::UNSPECIFIED, 0).into()", "            // one-shot queriers may use any port but 5353\n            (Ipv4Addr::UNSPECIFIED, 5354).into()")]}, '''
use uwuhi::service::discovery::SyncDiscoverer;
fn main() {
    let _a = SyncDiscoverer::new_multicast_v4().unwrap();
    let _b = SyncDiscoverer::new_multicast_v4().unwrap();
}
''', "two discoverers at the same time", "The second one cannot be made.")

seed("C15-default-timeout", "C15", {RES: [("        this.set_timeout(Self::DEFAULT_TIMEOUT)?;\n        Ok(this)", "        if !this.is_multicast && sock.port() == 53 {\n            this.set_timeout(Self::DEFAULT_TIMEOUT)?;\n        }\n        Ok(this)")]}, '''
use std::{net::UdpSocket, time::Duration};
use uwuhi::resolver::SyncResolver;
fn main() {
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let a = s.local_addr().unwrap();
    std::thread::spawn(|| {
        std::thread::sleep(Duration::from_secs(5));
        std::process::exit(1);
    });
    let mut r = SyncResolver::new(a).unwrap();
    assert!(r.resolve("a").map(|i| i.count()).is_err());
}
''', "a server on another port than 53 that does not answer", "The lookup never ends.")

seed("C05-nth", "C05", {D: [("    fn next(&mut self) -> Option<Self::Item> {\n        self.dec.next_rr()\n    }\n", "    fn next(&mut self) -> Option<Self::Item> {\n        self.dec.next_rr()\n    }\n\n    // Avoids going through the whole section for records behind its end.\n    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        if n > usize::from(*self.dec.remaining()) {\n            *self.dec.remaining() = 0;\n            return None;\n        }\n        for _ in 0..n {\n            self.dec.next_rr()?.ok()?;\n        }\n        self.dec.next_rr()\n    }\n")]}, MSG + MD + '''
fn main() {
    let mut m = head(0, 0x8400, 0, 2);
    rr(&mut m, "a", 1, &[1, 2, 3, 4]);
    rr(&mut m, "b", 1, &[1, 2, 3, 4]);
    m[9] = 1;
    rr(&mut m, "c", 1, &[1, 2, 3, 4]);
    let mut d = MessageDecoder::new(&m).unwrap().answers().unwrap();
    assert!(d.iter().nth(5).is_none());
    let mut d = d.authority().unwrap();
    let x = d.next().unwrap().unwrap();
    assert_eq!(x.name().to_string(), "c.");
}
''', "skipping more records than a section has and then moving to the next section", "The records of the section before are found in the next one.")

seed("C05-size-hint", "C05", {D: [("    fn next(&mut self) -> Option<Self::Item> {\n        self.dec.next()\n    }\n", "    fn next(&mut self) -> Option<Self::Item> {\n        self.dec.next()\n    }\n\n    fn size_hint(&self) -> (usize, Option<usize>) {\n        let n = usize::from(self.dec.q_remaining);\n        (n, Some(n))\n    }\n\n    fn count(self) -> usize {\n        self.size_hint().0\n    }\n")]}, MSG + MD + '''
fn main() {
    let mut m = head(0, 0, 1000, 0);
    q(&mut m, "a", 1);
    let mut d = MessageDecoder::new(&m).unwrap();
    assert_eq!(d.iter().count(), 2);
}
''', "counting the questions of a message that announces more than it has", "Questions that are not there are counted.")

seed("C07-late-header", "C07", {EN: [("        self.inner.w.modify_header(|h| *h = header);\n", "        // whether the message is truncated is decided from here on\n        self.inner.w.trunc = false;\n        self.inner.w.modify_header(|h| *h = header);\n")]}, '''
use uwuhi::name::DomainName;
use uwuhi::packet::{encoder::*, Header};
fn main() {
    let n = DomainName::from_str("abcdef").unwrap();
    let mut b = [0u8; 16];
    let mut e = MessageEncoder::new(&mut b);
    e.question(Question::new(&n));
    e.set_header(Header::default());
    assert!(e.finish().is_err());
    assert_eq!(b[2] & 2, 2);
}
''', "a header that is set after something did not fit", "The truncated message is passed off as complete.")

seed("C10-replace", "C10", {ADV: [("        self.db.entries.push(Entry::new(host_and_domain, record));\n", "        // A host that is added again has got a new address.\n        let (name, ty) = (&host_and_domain, std::mem::discriminant(&record));\n        self.db\n            .entries\n            .retain(|e| e.name != *name || std::mem::discriminant(&e.record) != ty);\n        self.db.entries.push(Entry::new(host_and_domain, record));\n")]}, MSG + '''
use uwuhi::{name::Label, service::advertising::Advertiser};
fn main() {
    let mut a = Advertiser::new(Label::new("h"), "10.0.0.1".parse().unwrap()).unwrap();
    a.add_name(Label::new("h"), "10.0.0.2".parse().unwrap());
    let mut m = head(1, 0, 1, 0);
    q(&mut m, "h.local", 1);
    assert_eq!(a.handle_packet(&m).unwrap().unwrap()[7], 2);
}
''', "a host with two addresses of the same kind", "Only the last one is in the answers.")

seed("C10-eight", "C10", {ADV: [("        for res in dec.iter() {\n            let q = res?;\n", "        for res in dec.iter().take(8) {\n            let q = res?;\n")] }, MSG + '''
use uwuhi::{name::Label, service::advertising::Advertiser};
fn main() {
    let mut a = Advertiser::new(Label::new("h"), "10.0.0.1".parse().unwrap()).unwrap();
    let mut m = head(1, 0, 12, 0);
    for _ in 0..11 {
        q(&mut m, "x.local", 1);
    }
    q(&mut m, "h.local", 1);
    assert!(a.handle_packet(&m).unwrap().is_some());
}
''', "a query with more than eight questions", "The later ones are not answered.")

seed("C10-edns", "C10", {ADV: [("        if dec.header().rcode() != RCode::NO_ERROR {\n", "        if dec.header().rcode() != RCode::NO_ERROR || dec.header().additional_count() > 1 {\n")]}, MSG + '''
use uwuhi::{name::Label, service::advertising::Advertiser};
fn main() {
    let mut a = Advertiser::new(Label::new("h"), "10.0.0.1".parse().unwrap()).unwrap();
    let mut m = head(1, 0, 1, 0);
    m[11] = 2;
    q(&mut m, "h.local", 1);
    rr(&mut m, "", 41, &[]);
    rr(&mut m, "", 250, &[]);
    assert!(a.handle_packet(&m).unwrap().is_some());
}
''', "a query with two additional records", "It is not answered.")

seed("C11-cache", "C11", {ADV: [("    response_buf: Vec<u8>,\n}", "    response_buf: Vec<u8>,\n    /// The last query that was answered, and the length of the answer.\n    last: (Vec<u8>, usize),\n}"), ("            response_buf: vec![0; MDNS_BUFFER_SIZE],\n", "            response_buf: vec![0; MDNS_BUFFER_SIZE],\n            last: (Vec::new(), 0),\n"), ("        let mut dec = MessageDecoder::new(packet)?;\n", "        if packet == self.last.0 && !packet.is_empty() {\n            return Ok(Some(&self.response_buf[..self.last.1]));\n        }\n        self.last.0.clear();\n        let mut dec = MessageDecoder::new(packet)?;\n"), ("            Ok(Some(&self.response_buf[..len]))\n", "            self.last = (packet.to_vec(), len);\n            Ok(Some(&self.response_buf[..len]))\n")]}, MSG + '''
use uwuhi::{name::Label, service::advertising::Advertiser};
fn main() {
    let mut a = Advertiser::new(Label::new("h"), "10.0.0.1".parse().unwrap()).unwrap();
    let mut m = head(1, 0, 1, 0);
    q(&mut m, "h.local", 1);
    assert_eq!(a.handle_packet(&m).unwrap().unwrap()[7], 1);
    a.add_name(Label::new("h"), "10.0.0.2".parse().unwrap());
    assert_eq!(a.handle_packet(&m).unwrap().unwrap()[7], 2);
}
''', "a registration between two equal queries", "The second query gets the answer of the first.")

seed("C12-escaped", "C12", {ADV: [("        let instance_domain = DomainName::from_iter([\n            instance.instance_name(),\n", "        // instance names are free-form text\n        let instance_name = Label::new(&String::from_utf8_lossy(instance.instance_name().as_bytes()).replace('\\\\', \"\\\\\\\\\"));\n        let instance_domain = DomainName::from_iter([\n            &instance_name,\n")]}, MSG + '''
use uwuhi::{name::Label, service::{*, advertising::Advertiser}};
fn main() {
    let mut a = Advertiser::new(Label::new("h"), "10.0.0.1".parse().unwrap()).unwrap();
    let i = ServiceInstance::new(Label::new("a\\\\b"), Label::new("_s"), ServiceTransport::TCP);
    a.add_instance(i, InstanceDetails::new("h.local".parse().unwrap(), 80));
    let mut m = head(1, 0, 1, 0);
    q(&mut m, "a\\\\b._s._tcp.local", 33);
    assert!(a.handle_packet(&m).unwrap().is_some());
}
''', "an instance with a backslash in its name", "It is advertised under another name.")

seed("C14-long-key", "C14", {S: [("            let key = match String::from_utf8(key.to_vec()) {", "            if key.len() > 64 {\n                // RFC 6763, 6.4: keys should be no more than nine characters long\n                continue;\n            }\n            let key = match String::from_utf8(key.to_vec()) {")]}, '''
use uwuhi::{packet::records::TXT, service::*};
fn main() {
    let k = "k".repeat(100);
    let t = TxtRecords::from_txt(&TXT::new([k.clone().into_bytes()]));
    assert!(t.get(&k).is_some());
}
''', "a key of more than 64 bytes", "It is ignored.")

seed("C14-many-keys", "C14", {S: [("        for entry in txt.entries() {\n            let mut split", "        for entry in txt.entries().take(16) {\n            let mut split")]}, '''
use uwuhi::{packet::records::TXT, service::*};
fn main() {
    let t = TxtRecords::from_txt(&TXT::new((0..20).map(|i| format!("k{i}=v").into_bytes())));
    assert_eq!(t.iter().count(), 20);
}
''', "metadata of more than 16 strings", "The later ones are lost.")

seed("C17-goodbye", "C17", {DIS: [("        log::debug!(\"ANS: {}\", ans);\n", "        log::debug!(\"ANS: {}\", ans);\n        if ans.ttl() == 0 {\n            // RFC 6762, 10.1: goodbye packet\n            continue;\n        }\n")]}, MSG + '''
use std::{ops::ControlFlow, time::Duration};
use uwuhi::{name::DomainName, service::discovery::*};
fn main() {
    let mut m = head(0, 0x8400, 0, 1);
    q(&mut m, "a", 12);
    m.extend([0, 0, 0, 0]);
    let d = name("_s._tcp.local");
    m.extend((d.len() as u16).to_be_bytes());
    m.extend(d);
    let (a, _rx) = server(vec![vec![m]]);
    let mut d = SyncDiscoverer::new(a, DomainName::from_str("local").unwrap()).unwrap();
    d.set_discovery_timeout(Duration::from_millis(300)).unwrap();
    let mut n = 0;
    d.discover_service_types(|_| {
        n += 1;
        ControlFlow::Continue(())
    }).unwrap();
    assert_eq!(n, 1);
}
''', "a pointer record with a TTL of zero", "It is not reported.")

seed("C17-other-service", "C17", {DIS: [("            // FIXME should probably check that the domain matches ours\n", "            if instance.service() != service {\n                return ControlFlow::Continue(());\n            }\n")]}, MSG + '''
use std::{ops::ControlFlow, time::Duration};
use uwuhi::{name::*, service::{*, discovery::*}};
fn main() {
    let mut m = head(0, 0x8400, 0, 1);
    rr(&mut m, "a", 12, &name("i._printer._tcp.local"));
    let (a, _rx) = server(vec![vec![m]]);
    let mut d = SyncDiscoverer::new(a, DomainName::from_str("local").unwrap()).unwrap();
    d.set_discovery_timeout(Duration::from_millis(300)).unwrap();
    let mut n = 0;
    d.discover_instances(&Service::new(Label::new("_s"), ServiceTransport::TCP), |_| {
        n += 1;
        ControlFlow::Continue(())
    }).unwrap();
    assert_eq!(n, 1);
}
''', "a pointer record that names an instance of another service", "It is not reported.")

seed("C18-priority", "C18", {DIS: [("                            // FIXME: respect SRV priority, as required by RFC 6763\n                            details = Some(det);\n", "                            if srv.priority() == u16::MAX {\n                                // a server of last resort, wait for a better one\n                                details.get_or_insert(det);\n                                return ControlFlow::Continue(());\n                            }\n                            details = Some(det);\n")]}, MSG + '''
use std::time::{Duration, Instant};
use uwuhi::{name::*, service::{*, discovery::*}};
fn main() {
    let mut m = head(0, 0x8400, 0, 2);
    let mut d = srv(1, "a");
    d[0] = 255;
    d[1] = 255;
    rr(&mut m, "i", 33, &d);
    rr(&mut m, "i", 33, &srv(2, "b"));
    let (a, _rx) = server(vec![vec![m]]);
    let mut d = SyncDiscoverer::new(a, DomainName::from_str("local").unwrap()).unwrap();
    d.set_discovery_timeout(Duration::from_millis(300)).unwrap();
    let r = d.load_instance_details(&ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP)).unwrap();
    assert_eq!(r.port(), 1);
    let _ = Instant::now();
}
''', "an SRV record of priority 65535 in front of another one", "The later record is returned.")

seed("C19-retransmit-first", "C19", {AD: [("                if discovery_start.elapsed() >= self.discovery_timeout {", "                if discovery_start.elapsed() >= self.discovery_timeout.max(self.retransmit_timeout) {")]}, MSG + '''
use std::{ops::ControlFlow, time::*};
use uwuhi::name::DomainName;
use uwuhi_async::service::discovery::AsyncDiscoverer;
fn main() {
    let mut m = head(0, 0x8400, 0, 1);
    rr(&mut m, "a", 12, &name("_s._tcp.local"));
    let (a, _rx) = server(vec![vec![]]);
    let s = std::net::UdpSocket::bind("127.0.0.1:0").unwrap();
    let _ = (s, m);
    futures_lite::future::block_on(async {
        let mut d = AsyncDiscoverer::new(a, DomainName::from_str("local").unwrap()).await.unwrap();
        d.set_retransmit_timeout(Duration::from_millis(400)).unwrap();
        d.set_discovery_timeout(Duration::from_millis(0)).unwrap();
        let t = Instant::now();
        d.discover_service_types(|_| ControlFlow::Continue(())).await.unwrap();
        assert!(t.elapsed() < Duration::from_millis(300));
    });
}
''', "a discovery timeout below the retransmit timeout", "The async discoverer goes on for longer than the synchronous one.", ASYNC)

seed("C20-many", "C20", {D: [("        let mut msg = msg.answers()?;\n        for rr in msg.iter() {\n            let rr = rr?;\n            cb(format_args!(\"ANS: {}\", rr));\n        }\n", "        let mut msg = msg.answers()?;\n        for (i, rr) in msg.iter().enumerate() {\n            let rr = rr?;\n            if i < 16 {\n                cb(format_args!(\"ANS: {}\", rr));\n            }\n        }\n")]}, MSG + '''
use std::{net::UdpSocket, sync::atomic::*, time::Duration};
use uwuhi::tap::SyncTap;
static N: AtomicUsize = AtomicUsize::new(0);
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) {
        if r.args().to_string().starts_with("ANS: ") {
            N.fetch_add(1, Ordering::SeqCst);
        }
    }
    fn flush(&self) {}
}
static LOG: L = L;
fn main() {
    log::set_logger(&LOG).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let t = SyncTap::new().unwrap();
    std::thread::spawn(move || t.listen());
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let mut m = head(0, 0x8400, 0, 20);
    for _ in 0..20 {
        rr(&mut m, "a", 1, &[1, 2, 3, 4]);
    }
    s.send_to(&m, "127.0.0.1:5353").unwrap();
    std::thread::sleep(Duration::from_millis(700));
    assert_eq!(N.load(Ordering::SeqCst), 20);
}
''', "a message with more than 16 answers", "The later ones are not logged.", 'log = "0.4"')

seed("C21-gives-up", "C21", {ADV: [("        let mut recv_buf = [0; MDNS_BUFFER_SIZE];\n        loop {\n            let (len, addr) = sock", "        let mut recv_buf = [0; MDNS_BUFFER_SIZE];\n        let mut errors = 0;\n        loop {\n            let (len, addr) = sock"), ("                Err(e) => {\n                    log::debug!(\"failed to handle packet: {}\", e);\n", "                Err(e) => {\n                    errors += 1;\n                    if errors > 10 {\n                        return Err(e);\n                    }\n                    log::debug!(\"failed to handle packet: {}\", e);\n")]}, MSG + '''
use std::{net::*, time::Duration};
use uwuhi::{name::Label, service::advertising::SyncAdvertiser};
fn main() {
    let mut a = SyncAdvertiser::new(Label::new("host"), "10.0.0.1".parse().unwrap()).unwrap();
    std::thread::spawn(move || a.listen_blocking());
    std::thread::sleep(Duration::from_millis(300));
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    s.set_read_timeout(Some(Duration::from_millis(1000))).unwrap();
    for _ in 0..20 {
        s.send_to(&[1], "127.0.0.1:5353").unwrap();
        std::thread::sleep(Duration::from_millis(5));
    }
    let mut m = head(1, 0, 1, 0);
    q(&mut m, "host.local", 1);
    s.send_to(&m, "127.0.0.1:5353").unwrap();
    s.recv_from(&mut [0; 2000]).expect("an answer");
}
''', "more than ten malformed datagrams", "The server loop ends.")

seed("C23-elide", "C23", {D: [("                write!(f, \"{:02x?}\", self.rdata())?;\n", "                let data = self.rdata();\n                if data.len() > 32 {\n                    write!(f, \"{:02x?}...\", &data[..32])?;\n                } else {\n                    write!(f, \"{:02x?}\", data)?;\n                }\n")]}, MSG + MD + '''
fn main() {
    let mut m = head(0, 0x8400, 0, 1);
    rr(&mut m, "a", 99, &[7; 40]);
    let mut d = MessageDecoder::new(&m).unwrap().answers().unwrap();
    assert_eq!(d.next().unwrap().unwrap().to_string().matches("07").count(), 40);
}
''', "data of an unsupported type of more than 32 bytes", "It is not shown in full.")

seed("C23-long-txt", "C23", {R: [("            for &byte in entry {\n                if byte.is_ascii_graphic() {\n", "            for &byte in &entry[..entry.len().min(64)] {\n                if byte.is_ascii_graphic() {\n")]}, MSG + MD + '''
fn main() {
    let mut m = head(0, 0x8400, 0, 1);
    let mut t = vec![100];
    t.extend([b'x'; 100]);
    rr(&mut m, "a", 16, &t);
    let mut d = MessageDecoder::new(&m).unwrap().answers().unwrap();
    assert_eq!(d.next().unwrap().unwrap().to_string().matches('x').count(), 100);
}
''', "a TXT string of more than 64 bytes", "It is not shown in full.")

seed("C23-long-name", "C23", {N: [("        for label in &self.labels {\n            write!(f, ", "        for label in &self.labels[..self.labels.len().min(16)] {\n            write!(f, ")]} if False else {N: [("impl fmt::Display for Label {\n    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {\n        self.as_bytes().escape_ascii().fmt(f)", "impl fmt::Display for Label {\n    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {\n        self.as_bytes()[..self.as_bytes().len().min(60)]\n            .escape_ascii()\n            .fmt(f)")]}, '''
use uwuhi::name::*;
fn main() {
    assert_eq!(Label::new("x".repeat(63)).to_string().len(), 63);
}
''', "a label of more than 60 bytes", "It is not shown in full.")

seed("C04-big-txt", "C04", {R: [("        while !dec.r.buf().is_empty() {\n", "        while !dec.r.buf().is_empty() && entries.len() < 32 {\n")]}, MSG + MD + '''
use uwuhi::packet::records::Record;
fn main() {
    let mut m = head(0, 0x8400, 0, 1);
    rr(&mut m, "a", 16, &[1, b'x'].repeat(40));
    let mut d = MessageDecoder::new(&m).unwrap().answers().unwrap();
    let r = d.next().unwrap().unwrap();
    match r.as_enum().unwrap().unwrap() {
        Record::TXT(t) => assert_eq!(t.entries().count(), 40),
        _ => panic!(),
    };
}
''', "a TXT record of more than 32 strings", "The later ones are lost.")

seed("C06-many", "C06", {EN: [("            h.set_ancount(self.ancount);\n", "            h.set_ancount(self.ancount.min(255));\n")]}, '''
use uwuhi::name::DomainName;
use uwuhi::packet::{encoder::*, records::*};
fn main() {
    let mut b = [0u8; 9000];
    let mut e = MessageEncoder::new(&mut b).answers();
    let r = Record::A(A::new("1.2.3.4".parse().unwrap()));
    for _ in 0..300 {
        e.add_answer(ResourceRecord::new(&DomainName::ROOT, &r));
    }
    e.finish().unwrap();
    assert_eq!(b[6..8], [1, 44]);
}
''', "a message with more than 255 answers", "The count is wrong.")

seed("C16-eight", "C16", {AR: [("        for addr in &self.servers {\n", "        for addr in self.servers.iter().take(8) {\n")]} if False else {RES: [("        for addr in &self.servers {\n", "        for addr in self.servers.iter().take(8) {\n")]}, '''
use std::{net::UdpSocket, time::Duration};
use uwuhi::resolver::SyncResolver;
fn main() {
    let s: Vec<_> = (0..10).map(|_| UdpSocket::bind("127.0.0.1:0").unwrap()).collect();
    let mut r = SyncResolver::new(s[0].local_addr().unwrap()).unwrap();
    for s in &s[1..] {
        r.add_server(s.local_addr().unwrap());
    }
    r.set_timeout(Duration::from_millis(100)).unwrap();
    let _ = r.resolve("a").map(|i| i.count());
    for s in &s {
        s.set_read_timeout(Some(Duration::from_millis(500))).unwrap();
        s.recv_from(&mut [0; 600]).expect("a query");
    }
}
''', "a resolver with more than eight servers", "Not every server is asked.")

seed("C22-root", "C22", {DIS: [("        domain.extend(&self.domain);\n        let mut service_types", "        if self.domain.labels().is_empty() {\n            domain.push_label(Label::new(\"local\"));\n        }\n        domain.extend(&self.domain);\n        let mut service_types"), ("    name::DomainName,\n", "    name::{DomainName, Label},\n")]}, MSG + '''
use std::{ops::ControlFlow, time::Duration};
use uwuhi::{name::DomainName, service::discovery::*};
fn main() {
    let (a, rx) = server(vec![vec![]]);
    let mut d = SyncDiscoverer::new(a, DomainName::ROOT).unwrap();
    d.set_discovery_timeout(Duration::from_millis(100)).unwrap();
    d.discover_service_types(|_| ControlFlow::Continue(())).unwrap();
    let m = rx.recv().unwrap();
    assert_eq!(m.len(), 12 + name("_services._dns-sd._udp").len() + 4);
}
''', "browsing the root domain", "Another domain is asked for.")

seed("C02-far-name", "C02", {D: [("        self.pos.set(end.unwrap_or(copy.pos.get()));\n        Ok(domain_name)", "        if domain_name.labels().iter().map(|l| l.as_bytes().len()).sum::<usize>() > 128 {\n            return Err(Error::InvalidValue);\n        }\n        self.pos.set(end.unwrap_or(copy.pos.get()));\n        Ok(domain_name)")]}, MSG + MD + '''
fn main() {
    let mut m = head(0, 0, 1, 0);
    let n = format!("{}.{}.{}", "a".repeat(63), "b".repeat(63), "c".repeat(63));
    q(&mut m, &n, 1);
    assert!(MessageDecoder::new(&m).unwrap().next().unwrap().is_ok());
}
''', "a name with more than 128 bytes in its labels", "It is refused.")

seed("C13-hash", "C13", {S: [("/// A service type identifier.\n", "impl std::hash::Hash for Service {\n    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {\n        std::ptr::hash(self.name.as_bytes(), state);\n        self.transport.hash(state);\n    }\n}\n\n/// A service type identifier.\n"), ("#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct Service {", "#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]\npub struct Service {")]}, '''
use std::collections::HashSet;
use uwuhi::{name::Label, service::*};
fn main() {
    let s = |n: &str| Service::new(Label::new(n), ServiceTransport::TCP);
    let h: HashSet<_> = [s("_a"), s("_a")].into_iter().collect();
    assert_eq!(h.len(), 1);
}
''', "service types in a hash set", "Equal types have different hashes.")
