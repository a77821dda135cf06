D, EN, R, PK, N = "src/packet/decoder.rs", "src/packet/encoder.rs", "src/packet/records.rs", "src/packet.rs", "src/name.rs"
S, ADV, DIS, RES, TAP = "src/service.rs", "src/service/advertising.rs", "src/service/discovery.rs", "src/resolver.rs", "src/tap.rs"
AR, AA, AD = "uwuhi-async/src/resolver.rs", "uwuhi-async/src/service/advertising.rs", "uwuhi-async/src/service/discovery.rs"
ASYNC = 'uwuhi-async = { path = "$repo/uwuhi-async" }\nfutures-lite = "2"'

# helpers that demos share
MSG = '''
#[allow(dead_code)]
fn head(id: u16, flags: u16, qd: u16, an: u16) -> Vec<u8> {
    let mut m = vec![];
    for x in [id, flags, qd, an, 0, 0] {
        m.extend(x.to_be_bytes());
    }
    m
}
#[allow(dead_code)]
fn name(s: &str) -> Vec<u8> {
    let mut v = vec![];
    for l in s.split('.').filter(|l| !l.is_empty()) {
        v.push(l.len() as u8);
        v.extend(l.as_bytes());
    }
    v.push(0);
    v
}
#[allow(dead_code)]
fn q(m: &mut Vec<u8>, n: &str, ty: u16) {
    m.extend(name(n));
    m.extend(ty.to_be_bytes());
    m.extend([0, 1]);
}
#[allow(dead_code)]
fn rr(m: &mut Vec<u8>, n: &str, ty: u16, data: &[u8]) {
    q(m, n, ty);
    m.extend([0, 0, 0, 120]);
    m.extend((data.len() as u16).to_be_bytes());
    m.extend(data);
}
#[allow(dead_code)]
fn srv(port: u16, host: &str) -> Vec<u8> {
    let mut d = vec![0, 0, 0, 0];
    d.extend(port.to_be_bytes());
    d.extend(name(host));
    d
}
/// A server that answers the n-th datagram with the n-th list of datagrams.
#[allow(dead_code)]
fn server(answers: Vec<Vec<Vec<u8>>>) -> (std::net::SocketAddr, std::sync::mpsc::Receiver<Vec<u8>>) {
    let s = std::net::UdpSocket::bind("127.0.0.1:0").unwrap();
    let a = s.local_addr().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut b = [0; 2000];
        let mut it = answers.into_iter();
        while let Ok((n, from)) = s.recv_from(&mut b) {
            let _ = tx.send(b[..n].to_vec());
            for m in it.next().unwrap_or_default() {
                let _ = s.send_to(&m, from);
            }
        }
    });
    (a, rx)
}
'''

seed("C01-stuck-iterator", "C01", {D: [("        let rr = match self.r.read_resource_record() {\n            Ok(q) => q,\n            Err(e) => {\n                self.has_errored = true;", "        let rr = match self.r.read_resource_record() {\n            Ok(q) => q,\n            Err(e) => {\n                self.has_errored = matches!(e, Error::Eof);")]}, MSG + '''
use std::ops::ControlFlow;
use uwuhi::service::discovery::decode_answer;
fn main() {
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(10));
        std::process::exit(1);
    });
    // the owner name of the second record starts with a reserved label form
    let mut m = head(0, 0x8400, 0, 2);
    rr(&mut m, "a", 12, &name("x._s._tcp.local"));
    m.extend([0x80, 0, 0, 12, 0, 1, 0, 0, 0, 0, 0, 0]);
    let mut n = 0;
    let _ = decode_answer(&m, &mut |_| {
        n += 1;
        ControlFlow::Continue(())
    });
    assert_eq!(n, 1);
}
''', "a record whose owner name starts with a reserved label form, given to the discovery's decoder", "The record iterator repeats the same error forever, so the discovery's decoder never ends.")

seed("C01-display-window", "C01", {D: [('                write!(f, "{:02x?}", self.rdata())?;', '                // long data is abbreviated\n                let data = self.rdata();\n                let tail = if data.len() > 32 { data.len().min(64) } else { 0 };\n                write!(f, "{:02x?}", &data[..data.len().min(32)])?;\n                if tail > 0 {\n                    write!(f, "..{:02x?}", &data[tail..tail + 1])?;\n                }')]}, MSG + '''
use uwuhi::packet::decoder::MessageDecoder;
fn main() {
    for n in [0, 10, 32, 33, 64, 65, 300] {
        let mut m = head(0, 0x8400, 0, 1);
        rr(&mut m, "a", 99, &vec![1; n]);
        let mut d = MessageDecoder::new(&m).unwrap().answers().unwrap();
        let _ = d.next().unwrap().unwrap().to_string();
    }
}
''', "showing a record of an unsupported type with 33 to 64 bytes of data", "Displaying the record panics with an index out of range.")

seed("C02-long-name", "C02", {D: [("                    let label = copy.read_slice(length)?;", "                    let label = copy.read_slice(length)?;\n                    if copy.pos.get() > self.pos.get() && copy.pos.get() - self.pos.get() > 128 {\n                        return Err(Error::InvalidValue); // no name is that long\n                    }")]}, MSG + '''
use uwuhi::packet::decoder::MessageDecoder;
fn main() {
    let l = "x".repeat(60);
    let n = format!("{l}.{l}.{l}");
    let mut m = head(0, 0, 1, 0);
    q(&mut m, &n, 1);
    let mut d = MessageDecoder::new(&m).unwrap();
    assert_eq!(d.next().unwrap().unwrap().qname().to_string(), n + ".");
}
''', "a name of more than 128 but at most 255 octets", "Long but legal names are refused.")

seed("C10-prefix-name", "C10", {ADV: [("                if q.qname() != &entry.name {\n", "                let mut labels = q.qname().labels().iter().zip(entry.name.labels());\n                if labels.any(|(a, b)| a != b) {\n")]}, MSG + '''
use uwuhi::{name::Label, service::advertising::Advertiser};
fn main() {
    let mut a = Advertiser::new(Label::new("host"), "10.0.0.1".parse().unwrap()).unwrap();
    let mut m = head(1, 0, 1, 0);
    q(&mut m, "host.local", 1);
    assert!(a.handle_packet(&m).unwrap().is_some());
    let mut m = head(1, 0, 1, 0);
    q(&mut m, "host", 1);
    assert!(a.handle_packet(&m).unwrap().is_none());
    let mut m = head(1, 0, 1, 0);
    q(&mut m, "host.local.lan", 1);
    assert!(a.handle_packet(&m).unwrap().is_none());
}
''', "a question for a name that is a prefix or an extension of a registered one", "The advertiser answers questions for other names.")

seed("C10-flag-equals", "C10", {ADV: [("                TxtRecordValue::NoValue => k.as_bytes().to_vec(),\n                TxtRecordValue::Value(v) => {", "                TxtRecordValue::Value(v) if v.is_empty() => k.as_bytes().to_vec(),\n                TxtRecordValue::NoValue => k.as_bytes().to_vec(),\n                TxtRecordValue::Value(v) => {")]}, MSG + '''
use uwuhi::{name::{DomainName, Label}, packet::records::TXT, service::{advertising::Advertiser, *}};
fn main() {
    let mut a = Advertiser::new(Label::new("host"), "10.0.0.1".parse().unwrap()).unwrap();
    let mut d = InstanceDetails::new(DomainName::from_str("host.local").unwrap(), 80);
    *d.txt_records_mut() = TxtRecords::from_txt(&TXT::new([b"path="]));
    a.add_instance(ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP), d);
    let mut m = head(1, 0, 1, 0);
    q(&mut m, "i._s._tcp.local", 16);
    let r = a.handle_packet(&m).unwrap().unwrap();
    assert!(r.ends_with(b"\\x05path="));
}
''', "metadata with an empty value", "A key with an empty value is advertised as a flag without one.")

seed("C11-stale-flag", "C11", {ADV: [("    response_buf: Vec<u8>,\n}", "    response_buf: Vec<u8>,\n    have_relevant_answer: bool,\n}"), ("            response_buf: vec![0; MDNS_BUFFER_SIZE],\n", "            response_buf: vec![0; MDNS_BUFFER_SIZE],\n            have_relevant_answer: false,\n"), ("        let mut have_relevant_answer = false;\n", ""), ("                have_relevant_answer = true;\n", "                self.have_relevant_answer = true;\n"), ("        if have_relevant_answer {\n", "        if std::mem::take(&mut self.have_relevant_answer) {\n")]}, MSG + '''
use uwuhi::{name::Label, service::advertising::Advertiser};
fn main() {
    let mut a = Advertiser::new(Label::new("host"), "10.0.0.1".parse().unwrap()).unwrap();
    let mut m = head(1, 0, 2, 0);
    q(&mut m, "host.local", 1);
    assert!(a.handle_packet(&m).is_err()); // the second question is missing
    let mut m = head(1, 0, 1, 0);
    q(&mut m, "other.local", 1);
    assert!(a.handle_packet(&m).unwrap().is_none());
}
''', "a query that is malformed behind a question that matched, followed by one that nothing matches", "The match found in the malformed query makes the advertiser answer the next one with an empty response.")

seed("C11-growing-buffer", "C11", {ADV: [("            let len = enc.finish().ok().unwrap_or(self.response_buf.len()); // truncated replies should still get sent\n            Ok(Some(&self.response_buf[..len]))", "            match enc.finish() {\n                Ok(len) => Ok(Some(&self.response_buf[..len])),\n                Err(_) => {\n                    // truncated replies should still get sent; make room for the next ones\n                    let len = self.response_buf.len();\n                    self.response_buf.resize(2 * len, 0);\n                    Ok(Some(&self.response_buf[..len]))\n                }\n            }")]}, MSG + '''
use uwuhi::{name::Label, service::advertising::Advertiser};
fn main() {
    let mut a = Advertiser::new(Label::new("host"), "10.0.0.1".parse().unwrap()).unwrap();
    let mut m = head(1, 0, 60, 0);
    for _ in 0..60 {
        q(&mut m, "host.local", 1);
    }
    for _ in 0..2 {
        assert!(a.handle_packet(&m).unwrap().unwrap().len() <= uwuhi::MDNS_BUFFER_SIZE);
    }
}
''', "two queries whose answers do not fit into 1500 bytes", "The response buffer grows with each truncated answer, so later answers exceed the mDNS buffer size.")

seed("C12-one-transport", "C12", {ADV: [("        self.db.entries.push(Entry::new(\n            self.discovery_domain.clone(),\n            Record::PTR(PTR::new(service_domain.clone())),\n        ));", "        // Each service type is announced once.\n        let known = self.db.entries.iter().any(|e| match &e.record {\n            Record::PTR(ptr) if e.name == self.discovery_domain => {\n                ptr.ptrdname().labels().first() == service_domain.labels().first()\n            }\n            _ => false,\n        });\n        if !known {\n            self.db.entries.push(Entry::new(\n                self.discovery_domain.clone(),\n                Record::PTR(PTR::new(service_domain.clone())),\n            ));\n        }")]}, MSG + '''
use std::{ops::ControlFlow, collections::BTreeSet};
use uwuhi::{name::{DomainName, Label}, service::{advertising::Advertiser, discovery::decode_answer, *}, packet::records::Record};
fn main() {
    let mut a = Advertiser::new(Label::new("host"), "10.0.0.1".parse().unwrap()).unwrap();
    for t in [ServiceTransport::TCP, ServiceTransport::Other] {
        let d = InstanceDetails::new(DomainName::from_str("host.local").unwrap(), 80);
        a.add_instance(ServiceInstance::new(Label::new("i"), Label::new("_s"), t), d);
    }
    let mut m = head(1, 0, 1, 0);
    q(&mut m, "_services._dns-sd._udp.local", 12);
    let r = a.handle_packet(&m).unwrap().unwrap();
    let mut found = BTreeSet::new();
    let _ = decode_answer(r, &mut |r| {
        if let Record::PTR(p) = r {
            found.insert(Service::from_ptr(p).unwrap().to_string());
        }
        ControlFlow::Continue(())
    });
    assert_eq!(found.len(), 2);
}
''', "two services of the same name with different transports", "The second type is never announced and browsing for service types does not find it.")

seed("C12-short-host", "C12", {S: [("            host: srv.target().clone(),\n", "            host: DomainName::from_iter(srv.target().labels().iter().take(2)),\n")]}, MSG + '''
use uwuhi::{name::DomainName, packet::records::SRV, service::InstanceDetails};
fn main() {
    for n in ["a.", "a.local.", "a.b.local."] {
        let d = InstanceDetails::from_srv(&SRV::new(0, 0, 80, DomainName::from_str(n).unwrap())).unwrap();
        assert_eq!(d.host().to_string(), n);
    }
}
''', "an instance on a host whose name has three or more labels", "The host name is cut to two labels.")

seed("C13-underscore-anywhere", "C13", {S: [('assert!(name.as_bytes().starts_with(b"_"));', 'assert!(name.as_bytes().contains(&b\'_\'));')]}, '''
use uwuhi::{name::Label, service::{Service, ServiceTransport}};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    assert!(std::panic::catch_unwind(|| Service::new(Label::new("http"), ServiceTransport::TCP)).is_err());
    assert!(std::panic::catch_unwind(|| Service::new(Label::new("my_http"), ServiceTransport::TCP)).is_err());
    assert!(std::panic::catch_unwind(|| Service::new(Label::new("_http"), ServiceTransport::TCP)).is_ok());
}
''', "a service name with an underscore that is not its first character", "A service can be made with a name that does not start with an underscore.")

seed("C13-ordering", "C13", {S: [("#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct ServiceInstance {", "#[derive(Clone, PartialEq, Eq, Hash)]\npub struct ServiceInstance {"), ("impl ServiceInstance {\n    /// Creates a new [`ServiceInstance`] from", "impl PartialOrd for ServiceInstance {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}\n\nimpl Ord for ServiceInstance {\n    fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n        let key = |i: &Self| (i.service.name.clone(), i.instance_name.clone());\n        key(self).cmp(&key(other))\n    }\n}\n\nimpl ServiceInstance {\n    /// Creates a new [`ServiceInstance`] from")]}, '''
use std::collections::BTreeSet;
use uwuhi::{name::Label, service::{ServiceInstance, ServiceTransport}};
fn main() {
    let i = |t| ServiceInstance::new(Label::new("i"), Label::new("_s"), t);
    let mut s = BTreeSet::new();
    s.insert(i(ServiceTransport::TCP));
    s.insert(i(ServiceTransport::Other));
    assert_eq!(s.len(), 2);
}
''', "two instances of the same names that differ in their transport", "They compare as equal, so collections keep only one of them.")

seed("C14-second-equals", "C14", {S: [("entry.splitn(2, |&b| b == b'=')", "entry.split(|&b| b == b'=')")]}, '''
use uwuhi::{packet::records::TXT, service::{TxtRecords, TxtRecordValue}};
fn main() {
    let t = TxtRecords::from_txt(&TXT::new([b"k=YWI=".to_vec()]));
    assert!(matches!(t.get("k"), Some(TxtRecordValue::Value(b"YWI="))));
}
''', "a value that contains an equals sign", "The value is cut at its first equals sign.")

seed("C14-unicode-lookup", "C14", {S: [("            .get(&key.to_ascii_lowercase())\n", "            .get(&key.to_lowercase())\n")]}, '''
use uwuhi::{packet::records::TXT, service::TxtRecords};
fn main() {
    for k in ["Key", "key", "\\u{c9}t"] {
        let t = TxtRecords::from_txt(&TXT::new([format!("{k}=1").into_bytes()]));
        assert!(t.get(k).is_some(), "{k}");
    }
}
''', "a key with a non-ASCII upper case letter", "Keys are stored in ASCII lower case but looked up in Unicode lower case, so such keys are not found.")

seed("C15-mapped", "C15", {RES: [("ip_buf.push(IpAddr::V6(a.addr().octets().into())),", "ip_buf.push(IpAddr::V6(a.addr().octets().into()).to_canonical()),")]}, MSG + '''
use uwuhi::resolver::decode_answer;
fn main() {
    let mut m = head(12345, 0x8180, 0, 1);
    let ip: std::net::Ipv6Addr = "::ffff:10.0.0.1".parse().unwrap();
    rr(&mut m, "a", 28, &ip.octets());
    let mut v = vec![];
    decode_answer(&m, &mut v).unwrap();
    assert_eq!(v, [std::net::IpAddr::V6(ip)]);
}
''', "an AAAA record with an IPv4-mapped address", "The address is returned as an IPv4 address.")

seed("C15-truncated", "C15", {RES: [("    if !h.is_response() {\n        return Ok(());", "    if !h.is_response() || h.is_truncated() {\n        return Ok(());")]}, MSG + '''
use uwuhi::resolver::SyncResolver;
fn main() {
    let mut m = head(12345, 0x8380, 0, 1);
    rr(&mut m, "a", 1, &[10, 0, 0, 1]);
    let (a, _rx) = server(vec![vec![m]]);
    let mut r = SyncResolver::new(a).unwrap();
    let v: Vec<_> = r.resolve("a").expect("resolves").collect();
    assert_eq!(v.len(), 1);
}
''', "a response with the truncation bit that is complete as far as it goes", "The response is ignored and the lookup times out.")

seed("C15-keep-waiting", "C15", {RES: [("            let (b, addr) = self.sock.recv_from(&mut recv_buf)?;\n", "            let (b, addr) = match self.sock.recv_from(&mut recv_buf) {\n                Ok(r) => r,\n                // some server was not reachable, but another may be\n                Err(e) if e.kind() == io::ErrorKind::ConnectionRefused => continue,\n                Err(_) => return Ok(self.ip_buf.iter().copied()),\n            };\n")]}, MSG + '''
use uwuhi::resolver::SyncResolver;
fn main() {
    let (a, _rx) = server(vec![]);
    let mut r = SyncResolver::new(a).unwrap();
    assert!(r.resolve("a").is_err());
}
''', "no useful response in time", "A lookup that times out yields no addresses instead of an error.")

seed("C16-same-host", "C16", {RES: [("        self.servers.push(server);\n", "        if self.servers.iter().all(|s| s.ip() != server.ip()) {\n            self.servers.push(server);\n        }\n")]}, MSG + '''
use uwuhi::resolver::SyncResolver;
fn main() {
    let mut m = head(12345, 0x8180, 0, 1);
    rr(&mut m, "a", 1, &[10, 0, 0, 1]);
    let (a, _ra) = server(vec![]);
    let (b, _rb) = server(vec![vec![m]]);
    let mut r = SyncResolver::new(a).unwrap();
    r.add_server(b);
    assert!(r.resolve("a").is_ok());
}
''', "two servers at the same address with different ports", "The second server is never asked.")

seed("C16-mapped-server", "C16", {RES: [("            server.is_ipv4(),\n            \"server families must match\",", "            server.ip().to_canonical().is_ipv4(),\n            \"server families must match\",")]}, '''
use uwuhi::resolver::SyncResolver;
fn main() {
    let mut r = SyncResolver::new("[::1]:53".parse().unwrap()).unwrap();
    r.add_server("[::2]:53".parse().unwrap());
    r.add_server("[::ffff:10.0.0.1]:53".parse().unwrap());
}
''', "an IPv4-mapped IPv6 server address", "A server of the right family is refused by a panic.")

seed("C17-lost-behind", "C17", {DIS: [('                log::warn!("failed to decode RR: {:?}", e);\n                continue;\n            }\n            None => {}', '                log::warn!("failed to decode RR: {:?}", e);\n                return Err(e);\n            }\n            None => {}')]}, MSG + '''
use std::ops::ControlFlow;
use uwuhi::service::discovery::decode_answer;
fn main() {
    let mut m = head(0, 0x8400, 0, 3);
    rr(&mut m, "a", 12, &name("x._s._tcp.local"));
    rr(&mut m, "a", 1, &[10, 0]);
    rr(&mut m, "a", 12, &name("y._s._tcp.local"));
    let mut n = 0;
    let _ = decode_answer(&m, &mut |_| {
        n += 1;
        ControlFlow::Continue(())
    });
    assert_eq!(n, 2);
}
''', "a response with a malformed record in front of a well-formed one", "Records behind the malformed one are not reported.")

seed("C17-extended-deadline", "C17", {DIS: [("        let discovery_start = Instant::now();\n", "        let mut discovery_start = Instant::now();\n"), ("                    Ok(ControlFlow::Continue(())) => {}\n                    Ok(ControlFlow::Break(())) => return Ok(()),", "                    Ok(ControlFlow::Continue(())) => {\n                        // there may be more\n                        discovery_start = Instant::now();\n                    }\n                    Ok(ControlFlow::Break(())) => return Ok(()),")]}, MSG + '''
use std::{net::UdpSocket, ops::ControlFlow, time::Duration};
use uwuhi::{name::{DomainName, Label}, service::{discovery::SyncDiscoverer, *}};
fn main() {
    std::thread::spawn(|| {
        std::thread::sleep(Duration::from_secs(10));
        std::process::exit(1);
    });
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let a = s.local_addr().unwrap();
    std::thread::spawn(move || {
        let mut m = head(0, 0x8400, 0, 1);
        rr(&mut m, "a", 12, &name("x._s._tcp.local"));
        let mut b = [0; 1500];
        let (_, from) = s.recv_from(&mut b).unwrap();
        loop {
            let _ = s.send_to(&m, from);
            std::thread::sleep(Duration::from_millis(50));
        }
    });
    let mut d = SyncDiscoverer::new(a, DomainName::from_str("local").unwrap()).unwrap();
    let mut n = 0;
    d.discover_instances(&Service::new(Label::new("_s"), ServiceTransport::TCP), |_| {
        n += 1;
        ControlFlow::Continue(())
    }).unwrap();
    assert_eq!(n, 1);
}
''', "responses that keep arriving faster than the discovery timeout", "Each response extends the discovery, so browsing never ends in a busy network.")

seed("C17-forget-on-retransmit", "C17", {DIS: [("            match service_types.entry(service) {\n                Entry::Vacant(e) => {\n                    let flow = callback(e.key());\n                    e.insert(());\n                    flow\n                }", "            let last = service_types.len();\n            match service_types.entry(service) {\n                Entry::Vacant(e) => {\n                    let flow = callback(e.key());\n                    if last < 2 {\n                        e.insert(());\n                    }\n                    flow\n                }")]}, MSG + '''
use std::{ops::ControlFlow, time::Duration};
use uwuhi::{name::DomainName, service::discovery::SyncDiscoverer};
fn main() {
    let mut m = head(0, 0x8400, 0, 4);
    for s in ["_a", "_b", "_c", "_c"] {
        rr(&mut m, "a", 12, &name(&format!("{s}._tcp.local")));
    }
    let (a, _rx) = server(vec![vec![m]]);
    let mut d = SyncDiscoverer::new(a, DomainName::from_str("local").unwrap()).unwrap();
    d.set_discovery_timeout(Duration::from_millis(300)).unwrap();
    let mut n = 0;
    d.discover_service_types(|_| {
        n += 1;
        ControlFlow::Continue(())
    }).unwrap();
    assert_eq!(n, 3);
}
''', "three distinct service types, the third one named twice", "Only the first two types are remembered, others are reported each time they arrive.")

seed("C18-first-txt", "C18", {DIS: [("                    txt_records = Some(TxtRecords::from_txt(&txt));\n", "                    txt_records.get_or_insert(TxtRecords::from_txt(&txt));\n")]}, MSG + '''
use uwuhi::{name::{DomainName, Label}, service::{discovery::SyncDiscoverer, *}};
fn main() {
    let mut m = head(0, 0x8400, 0, 3);
    rr(&mut m, "i._s._tcp.local", 16, b"\\x03k=1");
    rr(&mut m, "i._s._tcp.local", 16, b"\\x03k=2");
    rr(&mut m, "i._s._tcp.local", 33, &srv(80, "h.local"));
    let (a, _rx) = server(vec![vec![m]]);
    let mut d = SyncDiscoverer::new(a, DomainName::from_str("local").unwrap()).unwrap();
    let i = ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP);
    let d = d.load_instance_details(&i).unwrap();
    assert!(matches!(d.txt_records().get("k"), Some(TxtRecordValue::Value(b"2"))));
}
''', "two TXT records in front of the SRV record", "The metadata of the first, outdated TXT record is returned.")

seed("C18-wait-for-txt", "C18", {DIS: [("                            ControlFlow::Break(())\n                        }\n                        Err(e) => {\n                            log::debug!(\n                                \"failed to read", "                            if txt_records.is_some() {\n                                ControlFlow::Break(())\n                            } else {\n                                ControlFlow::Continue(())\n                            }\n                        }\n                        Err(e) => {\n                            log::debug!(\n                                \"failed to read")]}, MSG + '''
use uwuhi::{name::{DomainName, Label}, service::{discovery::SyncDiscoverer, *}};
fn main() {
    let mut m = head(0, 0x8400, 0, 2);
    rr(&mut m, "i._s._tcp.local", 33, &srv(80, "h.local"));
    rr(&mut m, "i._s._tcp.local", 33, &srv(81, "h.local"));
    let (a, _rx) = server(vec![vec![m]]);
    let mut d = SyncDiscoverer::new(a, DomainName::from_str("local").unwrap()).unwrap();
    let i = ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP);
    assert_eq!(d.load_instance_details(&i).unwrap().port(), 80);
}
''', "two SRV records without a TXT record in front of the first", "The later SRV record replaces the first one.")

seed("C19-buffer", "C19", {AR: [("            let mut recv_buf = [0; DNS_BUFFER_SIZE];\n", "            let mut recv_buf = [0; MDNS_BUFFER_SIZE];\n"), ("DNS_BUFFER_SIZE, MDNS_BUFFER_SIZE", "MDNS_BUFFER_SIZE")]}, MSG + '''
use uwuhi_async::resolver::AsyncResolver;
use uwuhi::resolver::SyncResolver;
fn main() {
    let mut m = head(12345, 0x8180, 0, 2);
    rr(&mut m, "a", 1, &[10, 0, 0, 1]);
    rr(&mut m, "a", 99, &[0; 600]);
    let (a, _rx) = server(vec![vec![m.clone()], vec![m]]);
    let x = SyncResolver::new(a).unwrap().resolve("a").is_ok();
    let y = futures_lite::future::block_on(async { AsyncResolver::new(a).await.unwrap().resolve("a").await.is_ok() });
    assert_eq!(x, y);
}
''', "a response of more than 512 bytes", "The async resolver accepts a response that the synchronous one cuts and refuses.", deps=ASYNC)

seed("C19-timer", "C19", {AD: [("            self.sock.send_to(data, self.server).await?;\n\n            loop {", "            self.sock.send_to(data, self.server).await?;\n            let retransmit_at = Instant::now() + self.retransmit_timeout;\n\n            loop {"), ("                    Timer::after(self.retransmit_timeout).await;\n", "                    Timer::at(retransmit_at).await;\n")]}, MSG + '''
use std::{net::UdpSocket, ops::ControlFlow, time::Duration, sync::{Arc, atomic::*}};
use uwuhi::{name::{DomainName, Label}, service::*};
use uwuhi_async::service::discovery::AsyncDiscoverer;
fn main() {
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    s.set_read_timeout(Some(Duration::from_millis(20))).unwrap();
    let a = s.local_addr().unwrap();
    let queries = Arc::new(AtomicUsize::new(0));
    let k = queries.clone();
    std::thread::spawn(move || {
        let m = head(0, 0x8400, 0, 0);
        let mut b = [0; 1500];
        let mut to = None;
        loop {
            if let Ok((_, f)) = s.recv_from(&mut b) {
                k.fetch_add(1, Ordering::SeqCst);
                to = Some(f);
            }
            if let Some(f) = to {
                let _ = s.send_to(&m, f);
            }
        }
    });
    futures_lite::future::block_on(async {
        let mut d = AsyncDiscoverer::new(a, DomainName::from_str("local").unwrap()).await.unwrap();
        let s = Service::new(Label::new("_s"), ServiceTransport::TCP);
        d.discover_instances(&s, |_| ControlFlow::Continue(())).await.unwrap();
    });
    // responses arrived all the time, so no receive timed out
    assert_eq!(queries.load(Ordering::SeqCst), 1);
}
''', "responses that arrive between the query and its retransmission", "The async discoverer repeats its query although something was received in the meantime.", deps=ASYNC)

seed("C19-refused", "C19", {AD: [("                    Ok(Err(e)) => return Err(e),\n", "                    Ok(Err(e)) if e.kind() == io::ErrorKind::ConnectionRefused => continue,\n                    Ok(Err(e)) => return Err(e),\n")]}, MSG + '''
use std::{ops::ControlFlow, time::Duration};
use uwuhi::{name::{DomainName, Label}, service::{*, discovery::SyncDiscoverer}};
use uwuhi_async::service::discovery::AsyncDiscoverer;
fn main() {
    // a response that is cut makes no difference; both end in the same way
    let (a, _rx) = server(vec![]);
    let s = Service::new(Label::new("_s"), ServiceTransport::TCP);
    let mut d = SyncDiscoverer::new(a, DomainName::from_str("local").unwrap()).unwrap();
    d.set_discovery_timeout(Duration::from_millis(100)).unwrap();
    assert!(d.discover_instances(&s, |_| ControlFlow::Continue(())).is_ok());
    // SAFETY: none needed; an unconnected UDP socket only gets this error from the queue with IP_RECVERR,
    // which is set on all of this process's sockets here
    let ok = futures_lite::future::block_on(async {
        let mut d = AsyncDiscoverer::new("127.0.0.1:9".parse().unwrap(), DomainName::from_str("local").unwrap()).await.unwrap();
        d.set_discovery_timeout(Duration::from_millis(300)).unwrap();
        for fd in 3..64 {
            let one = 1i32;
            unsafe { libc::setsockopt(fd, 0, 11, &one as *const i32 as *const _, 4) };
        }
        d.discover_instances(&s, |_| ControlFlow::Continue(())).await.is_ok()
    });
    assert!(!ok);
}
''', "a receive that fails with ConnectionRefused", "The async discoverer goes on where the synchronous one ends with the error.", deps=ASYNC + '\nlibc = "0.2"')

seed("C20-empty", "C20", {TAP: [("            let buf = &buf[..len];\n", "            let buf = &buf[..len];\n            if buf.is_empty() {\n                // the other side is gone\n                return Ok(());\n            }\n")]}, '''
use std::{net::UdpSocket, sync::{Arc, atomic::*}, time::Duration};
use uwuhi::tap::SyncTap;
fn main() {
    let t = SyncTap::new().unwrap();
    let done = Arc::new(AtomicBool::new(false));
    let d = done.clone();
    std::thread::spawn(move || {
        let _ = t.listen();
        d.store(true, Ordering::SeqCst);
    });
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    s.send_to(&[], "127.0.0.1:5353").unwrap();
    std::thread::sleep(Duration::from_millis(500));
    assert!(!done.load(Ordering::SeqCst));
}
''', "an empty datagram", "The tap stops listening.")

seed("C20-truncated", "C20", {D: [('            cb(format_args!("AUTH: {}", rr));\n        }\n', '            cb(format_args!("AUTH: {}", rr));\n        }\n        if !trunc.is_empty() {\n            // the rest is missing\n            return Ok(());\n        }\n')]}, MSG + '''
use std::{net::UdpSocket, sync::Mutex, time::Duration};
use uwuhi::tap::SyncTap;
static LINES: Mutex<String> = Mutex::new(String::new());
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { LINES.lock().unwrap().push_str(&r.args().to_string()); }
    fn flush(&self) {}
}
fn main() {
    log::set_logger(&L).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let t = SyncTap::new().unwrap();
    std::thread::spawn(move || { let _ = t.listen(); });
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let mut m = head(0, 0x8600, 0, 1);
    m[11] = 1;
    rr(&mut m, "first", 1, &[10, 0, 0, 1]);
    rr(&mut m, "second", 1, &[10, 0, 0, 2]);
    s.send_to(&m, "127.0.0.1:5353").unwrap();
    std::thread::sleep(Duration::from_millis(500));
    let l = LINES.lock().unwrap();
    assert!(l.contains("first.") && l.contains("second."));
}
''', "a message with the truncation bit and additional records", "The additional records are not logged.", deps='log = "0.4"')

seed("C21-truncated", "C21", {ADV: [("                Ok(Some(resp)) => {\n", "                Ok(Some(resp)) if resp.len() < MDNS_BUFFER_SIZE => {\n"), ("                Ok(None) => {}\n", "                Ok(_) => {}\n")]}, MSG + '''
use std::{net::UdpSocket, time::Duration};
use uwuhi::{name::Label, service::advertising::SyncAdvertiser};
fn main() {
    let mut a = SyncAdvertiser::new(Label::new("host"), "10.0.0.1".parse().unwrap()).unwrap();
    std::thread::spawn(move || a.listen_blocking());
    std::thread::sleep(Duration::from_millis(300));
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    s.set_read_timeout(Some(Duration::from_millis(1000))).unwrap();
    let mut b = [0; 2000];
    for n in [1, 70] {
        let mut m = head(1, 0, n, 0);
        for _ in 0..n {
            q(&mut m, "host.local", 1);
        }
        s.send_to(&m, "127.0.0.1:5353").unwrap();
        s.recv_from(&mut b).expect("an answer");
    }
}
''', "a query whose answer has to be truncated", "The server loop does not send truncated answers.")

seed("C21-async-buffer", "C21", {AA: [("        let mut recv_buf = [0; MDNS_BUFFER_SIZE];\n", "        let mut recv_buf = [0; uwuhi::DNS_BUFFER_SIZE];\n"), ("    service::{InstanceDetails, ServiceInstance},\n    MDNS_BUFFER_SIZE,\n", "    service::{InstanceDetails, ServiceInstance},\n")]}, MSG + '''
use std::{net::UdpSocket, time::Duration};
use uwuhi::name::Label;
use uwuhi_async::service::advertising::AsyncAdvertiser;
fn main() {
    std::thread::spawn(move || futures_lite::future::block_on(async {
        let mut a = AsyncAdvertiser::new(Label::new("host"), "10.0.0.1".parse().unwrap()).unwrap();
        a.listen().await
    }));
    std::thread::sleep(Duration::from_millis(300));
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    s.set_read_timeout(Some(Duration::from_millis(1000))).unwrap();
    let mut b = [0; 2000];
    for n in [1, 40] {
        let mut m = head(1, 0, n, 0);
        for _ in 0..n {
            q(&mut m, "host.local", 1);
        }
        s.send_to(&m, "127.0.0.1:5353").unwrap();
        s.recv_from(&mut b).expect("an answer");
    }
}
''', "a query of more than 512 bytes", "The async server loop cuts the query and does not answer it.", deps=ASYNC)

seed("C22-local", "C22", {RES: [("    header.set_recursion_desired(true);\n", "    // there is no recursion in mDNS\n    let local = name.labels().last().map_or(false, |l| l.as_bytes() == b\"local\");\n    header.set_recursion_desired(!local);\n")]}, '''
use uwuhi::{name::DomainName, resolver::encode_query};
fn main() {
    for n in ["a.example", "a.local", "local"] {
        let mut b = [0; 600];
        let q = encode_query(&mut b, &DomainName::from_str(n).unwrap());
        assert_eq!(q[2], 1, "{n}");
    }
}
''', "a name in the domain local", "The lookup does not request recursion.")

seed("C22-all", "C22", {DIS: [("    for qtype in qtypes {\n", "    let qtypes = if qtypes.len() > 2 { &[QType::ALL][..] } else { qtypes };\n    for qtype in qtypes {\n")]}, '''
use uwuhi::{name::DomainName, packet::QType, service::discovery::encode_query};
fn main() {
    let n = DomainName::from_str("a.local").unwrap();
    for t in [&[QType::PTR][..], &[QType::SRV, QType::TXT], &[QType::SRV, QType::TXT, QType::A]] {
        let mut b = [0; 600];
        let q = encode_query(&mut b, &n, t);
        assert_eq!(q[5] as usize, t.len());
    }
}
''', "a discovery query for three or more types", "The query asks for all types with a single question.")

