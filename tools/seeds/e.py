D, EN, R, PK, N = "src/packet/decoder.rs", "src/packet/encoder.rs", "src/packet/records.rs", "src/packet.rs", "src/name.rs"
S, ADV, DIS, RES, TAP = "src/service.rs", "src/service/advertising.rs", "src/service/discovery.rs", "src/resolver.rs", "src/tap.rs"
AR, AA, AD = "uwuhi-async/src/resolver.rs", "uwuhi-async/src/service/advertising.rs", "uwuhi-async/src/service/discovery.rs"
ASYNC = 'uwuhi-async = { path = "$repo/uwuhi-async" }\nfutures-lite = "2"'
MSG = open("/verif/tools/seeds/b.py").read().split("MSG = '''")[1].split("'''")[0]
MD = "use uwuhi::packet::decoder::MessageDecoder;\n"
LOGGER = '''
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { let _ = r.args().to_string(); }
    fn flush(&self) {}
}
static LOG: L = L;
'''
LOGON = "    log::set_logger(&LOG).unwrap();\n    log::set_max_level(log::LevelFilter::Trace);\n"

seed("C15-log-id", "C15", {RES: [("            log::trace!(\"recv from {}: {}\", addr, Hex(recv));\n", "            log::trace!(\n                \"recv from {}: id {:#06x}, {}\",\n                addr,\n                u16::from_be_bytes([recv[0], recv[1]]),\n                Hex(recv),\n            );\n")]}, MSG + LOGGER + '''
use uwuhi::resolver::SyncResolver;
fn main() {
''' + LOGON + '''
    let mut m = head(12345, 0x8180, 0, 1);
    rr(&mut m, "a", 1, &[1, 2, 3, 4]);
    let (a, _rx) = server(vec![vec![vec![1], m]]);
    let mut r = SyncResolver::new(a).unwrap();
    assert_eq!(r.resolve("a").unwrap().count(), 1);
}
''', "trace logging and a datagram of less than two bytes", "The lookup panics.", 'log = "0.4"')

seed("C18-log-take", "C18", {DIS: [("                    txt_records = Some(TxtRecords::from_txt(&txt));\n", "                    log::trace!(\"metadata so far: {:?}\", txt_records.take());\n                    txt_records.get_or_insert_with(|| TxtRecords::from_txt(&txt));\n")]}, MSG + '''
use std::time::Duration;
use uwuhi::{name::*, service::{*, discovery::*}};
fn main() {
    let mut m = head(0, 0x8400, 0, 3);
    rr(&mut m, "i", 16, b"\\x03a=1");
    rr(&mut m, "i", 16, b"\\x03a=2");
    rr(&mut m, "i", 33, &srv(1, "a"));
    let (a, _rx) = server(vec![vec![m]]);
    let mut d = SyncDiscoverer::new(a, DomainName::from_str("local").unwrap()).unwrap();
    d.set_discovery_timeout(Duration::from_millis(300)).unwrap();
    let r = d.load_instance_details(&ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP)).unwrap();
    assert!(matches!(r.txt_records().get("a"), Some(TxtRecordValue::Value(b"2"))));
}
''', "two TXT records without trace logging", "The metadata of the first one is returned.")

seed("C18-log-lost", "C18", {DIS: [("                            log::debug!(\n                                \"failed to read", "                            log::debug!(\n                                \"failed to read"), ("                Record::TXT(txt) => {\n                    txt_records", "                Record::TXT(txt) => {\n                    log::debug!(\"replacing metadata {:?}\", txt_records);\n                    txt_records"), ("            Some(mut details) => {\n                if let Some(txt) = txt_records {", "            Some(mut details) => {\n                log::trace!(\"metadata of {}: {:?}\", instance, txt_records.take());\n                if let Some(txt) = txt_records {")]}, MSG + LOGGER + '''
use std::time::Duration;
use uwuhi::{name::*, service::{*, discovery::*}};
fn main() {
''' + LOGON + '''
    let mut m = head(0, 0x8400, 0, 2);
    rr(&mut m, "i", 16, b"\\x03a=1");
    rr(&mut m, "i", 33, &srv(1, "a"));
    let (a, _rx) = server(vec![vec![m]]);
    let mut d = SyncDiscoverer::new(a, DomainName::from_str("local").unwrap()).unwrap();
    d.set_discovery_timeout(Duration::from_millis(300)).unwrap();
    let r = d.load_instance_details(&ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP)).unwrap();
    assert!(r.txt_records().get("a").is_some());
}
''', "trace logging", "The metadata is gone once it has been logged.", 'log = "0.4"')

seed("C17-log-utf8", "C17", {DIS: [("            // FIXME should probably check that the domain matches ours\n", "            log::debug!(\n                \"found instance {}\",\n                std::str::from_utf8(instance.instance_name().as_bytes()).unwrap(),\n            );\n")]}, MSG + LOGGER + '''
use std::{ops::ControlFlow, time::Duration};
use uwuhi::{name::*, service::{*, discovery::*}};
fn main() {
''' + LOGON + '''
    let mut m = head(0, 0x8400, 0, 1);
    let mut n = name("x._s._tcp.local");
    n[1] = 0xff;
    rr(&mut m, "a", 12, &n);
    let (a, _rx) = server(vec![vec![m]]);
    let mut d = SyncDiscoverer::new(a, DomainName::from_str("local").unwrap()).unwrap();
    d.set_discovery_timeout(Duration::from_millis(300)).unwrap();
    let mut n = 0;
    d.discover_instances(&Service::new(Label::new("_s"), ServiceTransport::TCP), |_| {
        n += 1;
        ControlFlow::Continue(())
    }).unwrap();
    assert_eq!(n, 1);
}
''', "debug logging and an instance name that is not UTF-8", "Browsing panics.", 'log = "0.4"')

seed("C03-chars", "C03", {N: [("    fn from_str(s: &str) -> Result<Self, Self::Err> {\n        Self::try_new(s)\n", "    fn from_str(s: &str) -> Result<Self, Self::Err> {\n        if s.is_empty() {\n            return Err(Error::InvalidEmptyLabel);\n        }\n        if s.chars().count() > Self::MAX_LEN {\n            return Err(Error::LabelTooLong);\n        }\n        Ok(Self {\n            bytes: s.as_bytes().into(),\n        })\n")]}, '''
use uwuhi::name::Label;
fn main() {
    assert!("\\u{fc}".repeat(40).parse::<Label>().is_err());
}
''', "a text of at most 63 characters that takes more than 63 bytes", "It becomes a label that is too long.")

seed("C01-wide-position", "C01", {D: [("    pos: Cell<usize>,\n", "    pos: Cell<u16>,\n"), ("        &self.full_buf[self.pos.get()..]\n", "        &self.full_buf[usize::from(self.pos.get())..]\n"), ("        self.pos.set(self.pos.get() + by);\n", "        self.pos.set(self.pos.get() + by as u16);\n"), ("        self.full_buf.get(self.pos.get()).copied().ok_or(Error::Eof)\n", "        self.full_buf\n            .get(usize::from(self.pos.get()))\n            .copied()\n            .ok_or(Error::Eof)\n"), ("        let pos = self.pos.get();\n        match", "        let pos = usize::from(self.pos.get());\n        match"), ("            copy.full_buf = &copy.full_buf[..self.pos.get() + len];\n", "            copy.full_buf = &copy.full_buf[..usize::from(self.pos.get()) + len];\n"), ("            let length = copy.peek_u8()?;\n", "            let length = copy.peek_u8()?;\n"), ("                    let ptr = usize::from(copy.read_u16()? & 0b0011_1111_1111_1111);\n", "                    let ptr = copy.read_u16()? & 0b0011_1111_1111_1111;\n")]}, MSG + MD + '''
fn main() {
    let mut m = head(0, 0x8400, 0, 3);
    rr(&mut m, "a", 99, &[1; 40000]);
    rr(&mut m, "a", 99, &[1; 40000]);
    rr(&mut m, "z", 99, &[1; 4]);
    let mut d = MessageDecoder::new(&m).unwrap().answers().unwrap();
    assert_eq!(d.iter().last().unwrap().unwrap().name().to_string(), "z.");
}
''', "a message of more than 65535 bytes", "Decoding it panics or goes on at a wrong position.")

STALE = '''
use std::{net::*, time::Duration};
use uwuhi::{name::Label, service::advertising::SyncAdvertiser};
fn main() {
    let mut a = SyncAdvertiser::new(Label::new("host"), "10.0.0.1".parse().unwrap()).unwrap();
    std::thread::spawn(move || a.listen_blocking());
    std::thread::sleep(Duration::from_millis(300));
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    s.set_read_timeout(Some(Duration::from_millis(1000))).unwrap();
    let mut m = head(1, 0, 1, 0);
    q(&mut m, "host.local", 1);
    s.send_to(&m, "127.0.0.1:5353").unwrap();
    s.recv_from(&mut [0; 2000]).expect("an answer");
    s.send_to(&m[..20], "127.0.0.1:5353").unwrap();
    assert!(s.recv_from(&mut [0; 2000]).is_err());
}
'''
seed("C21-padding", "C21", {ADV: [("            let packet = &recv_buf[..len];\n", "            // Some senders cut off trailing zeros, which the end of a question may consist of.\n            let packet = &recv_buf[..(len + 14).min(MDNS_BUFFER_SIZE)];\n")]}, MSG + STALE, "a datagram that was cut, after one that was not", "The bytes of the earlier datagram complete it, and it is answered.")

seed("C14-display", "C14", {S: [("                Some(v) => {\n                    f.write_str(\"=\")?;\n                    v.escape", "                Some(v) if v.is_empty() => {}\n                Some(v) => {\n                    f.write_str(\"=\")?;\n                    v.escape")]}, '''
use uwuhi::{packet::records::TXT, service::*};
fn main() {
    let t = TxtRecords::from_txt(&TXT::new([b"a=".to_vec()]));
    assert_eq!(t.to_string(), "a=");
}
''', "a key with an empty value", "It is shown like a flag.")

seed("C19-cancel", "C19", {AR: [("        self.ip_buf.clear();\n\n        let mut send_buf", "        let mut send_buf"), ("            match decode_answer(recv, &mut self.ip_buf) {\n                Ok(()) => {\n", "            match decode_answer(recv, &mut self.ip_buf) {\n                Ok(()) => {\n                    // give others a turn\n                    future::yield_now().await;\n")]}, MSG + '''
use uwuhi_async::resolver::AsyncResolver;
fn main() {
    let mut m = head(12345, 0x8180, 0, 1);
    rr(&mut m, "a", 1, &[1, 2, 3, 4]);
    let (a, _rx) = server(vec![vec![m.clone()], vec![m]]);
    futures_lite::future::block_on(async {
        let mut r = AsyncResolver::new(a).await.unwrap();
        assert_eq!(r.resolve("a").await.unwrap().count(), 1);
        assert_eq!(r.resolve("a").await.unwrap().count(), 1);
    });
}
''', "a second lookup on the same async resolver", "It also returns the addresses of the first one.", ASYNC)

seed("C19-domain", "C19", {AD: [("        let mut domain = DomainName::from_str(\"_services._dns-sd._udp\").unwrap();\n        domain.extend(&self.domain);\n", "        let mut domain = DomainName::from_str(\"_services._dns-sd._udp\").unwrap();\n        domain.extend(self.domain.labels().last());\n")]}, MSG + '''
use std::{ops::ControlFlow, time::*};
use uwuhi::name::DomainName;
use uwuhi_async::service::discovery::AsyncDiscoverer;
fn main() {
    let (a, rx) = server(vec![vec![]]);
    futures_lite::future::block_on(async {
        let mut d = AsyncDiscoverer::new(a, DomainName::from_str("example.org").unwrap()).await.unwrap();
        d.set_retransmit_timeout(Duration::from_millis(100)).unwrap();
        d.set_discovery_timeout(Duration::from_millis(100)).unwrap();
        d.discover_service_types(|_| ControlFlow::Continue(())).await.unwrap();
    });
    let q = rx.recv().unwrap();
    assert!(q.windows(9).any(|w| w == b"\\x07example\\x03"));
}
''', "browsing service types in a domain of more than one label", "The async discoverer asks for another name than the synchronous one.", ASYNC)

seed("C10-port-zero", "C10", {ADV: [("        self.db.entries.push(Entry::new(\n            instance_domain.clone(),\n            Record::SRV(SRV::new(0, 0, details.port(), details.host().clone())),\n        ));\n", "        if details.port() != 0 {\n            self.db.entries.push(Entry::new(\n                instance_domain.clone(),\n                Record::SRV(SRV::new(0, 0, details.port(), details.host().clone())),\n            ));\n        }\n")]}, MSG + '''
use uwuhi::{name::Label, service::{*, advertising::Advertiser}};
fn main() {
    let mut a = Advertiser::new(Label::new("h"), "10.0.0.1".parse().unwrap()).unwrap();
    a.add_instance(ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP), InstanceDetails::new("h.local".parse().unwrap(), 0));
    let mut m = head(1, 0, 1, 0);
    q(&mut m, "i._s._tcp.local", 33);
    assert!(a.handle_packet(&m).unwrap().is_some());
}
''', "an instance registered with port 0", "It has no SRV record.")

seed("C12-host-itself", "C12", {S: [("        Ok(Self {\n            host: srv.target().clone(),", "        if srv.port() == 0 || srv.target().labels().is_empty() {\n            // RFC 2782: the service is decidedly not available\n            return Err(Error::InvalidValue);\n        }\n        Ok(Self {\n            host: srv.target().clone(),")]}, MSG + '''
use std::time::Duration;
use uwuhi::{name::*, service::{*, discovery::*}};
fn main() {
    let mut m = head(0, 0x8400, 0, 1);
    rr(&mut m, "i", 33, &srv(0, "a"));
    let (a, _rx) = server(vec![vec![m]]);
    let mut d = SyncDiscoverer::new(a, DomainName::from_str("local").unwrap()).unwrap();
    d.set_discovery_timeout(Duration::from_millis(300)).unwrap();
    let r = d.load_instance_details(&ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP));
    assert_eq!(r.map(|r| r.port()).unwrap(), 0);
}
''', "an instance registered with port 0 or the root as its host", "Its details are not found.")

seed("C06-huge-data", "C06", {EN: [("        w.write_u16(rdata_len.try_into().expect(\"RDATA length overflows u16\"));\n", "        w.write_u16(rdata_len as u16);\n")]}, '''
use uwuhi::name::DomainName;
use uwuhi::packet::{decoder::MessageDecoder, encoder::*, records::*};
fn main() {
    let n = DomainName::from_str("a").unwrap();
    let r = std::panic::catch_unwind(|| {
        let mut b = vec![0u8; 100000];
        let len = {
            let mut e = MessageEncoder::new(&mut b).answers();
            e.add_answer(ResourceRecord::new(&n, &Record::TXT(TXT::new(vec![vec![1u8; 255]; 260]))));
            e.finish().unwrap()
        };
        b.truncate(len);
        b
    });
    if let Ok(b) = r {
        let mut d = MessageDecoder::new(&b).unwrap().answers().unwrap();
        let x = d.next().unwrap().unwrap();
        let Some(Ok(Record::TXT(t))) = x.as_enum() else { panic!() };
        assert_eq!(t.entries().count(), 260);
    }
}
''', "record data of more than 65535 bytes", "A wrong length is written for it, and what is decoded differs.")

seed("C23-txt-empty", "C23", {R: [("        for (i, entry) in self.entries().enumerate() {", "        for (i, entry) in self.entries().filter(|e| !e.is_empty()).enumerate() {")]}, '''
use uwuhi::packet::records::TXT;
fn main() {
    let a = TXT::new([b"a".to_vec(), b"".to_vec()]);
    let b = TXT::new([b"a".to_vec()]);
    assert_ne!(a.to_string(), b.to_string());
}
''', "a TXT record with an empty string among others", "The empty string is not shown.")
