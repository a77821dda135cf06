exec(open("/verif/tools/seeds/e.py").read().split('LOGGER')[0])

seed("C17-shown-name", "C17", {DIS: [("            match instances.entry(instance) {\n                Entry::Vacant(e) => {\n                    let flow = callback(e.key());\n", "            match instances.entry(instance.to_string()) {\n                Entry::Vacant(e) => {\n                    let flow = callback(&instance);\n")]}, MSG + '''
use std::{ops::ControlFlow, time::*};
use uwuhi::{name::*, service::{*, discovery::*}};
fn main() {
    let mut m = head(0, 0x8400, 0, 2);
    rr(&mut m, "i", 12, b"\\x01x\\x05_y._z\\x04_tcp\\x05local\\0");
    rr(&mut m, "i", 12, b"\\x04x._y\\x02_z\\x04_tcp\\x05local\\0");
    let (a, _rx) = server(vec![vec![m]]);
    let mut d = SyncDiscoverer::new(a, DomainName::from_str("local").unwrap()).unwrap();
    d.set_discovery_timeout(Duration::from_millis(300)).unwrap();
    let mut n = 0;
    d.discover_instances(&Service::new(Label::new("_s"), ServiceTransport::TCP), |_| { n += 1; ControlFlow::Continue(()) }).unwrap();
    assert_eq!(n, 2);
}
''', "two instances whose labels contain dots, so that they read the same", "Only one of them is reported.")

seed("C15-connected", "C15", {RES: [("        for addr in &self.servers {\n            self.sock.send_to(data, addr)?;\n        }\n", "        if let [server] = self.servers[..] {\n            // With a single server there is no need to hear anybody else.\n            self.sock.connect(server)?;\n            self.sock.send(data)?;\n        } else {\n            for addr in &self.servers {\n                self.sock.send_to(data, addr)?;\n            }\n        }\n")]}, MSG + '''
use std::{net::*, time::*};
use uwuhi::resolver::SyncResolver;
fn main() {
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let other = UdpSocket::bind("127.0.0.1:0").unwrap();
    let a = s.local_addr().unwrap();
    std::thread::spawn(move || {
        let mut b = [0; 1500];
        let (_, from) = s.recv_from(&mut b).unwrap();
        let mut m = head(12345, 0x8180, 0, 1);
        rr(&mut m, "a", 1, &[1, 2, 3, 4]);
        // as a multicast responder does, the answer comes from another address
        other.send_to(&m, from).unwrap();
        std::thread::sleep(Duration::from_secs(2));
        drop(s);
    });
    let mut r = SyncResolver::new(a).unwrap();
    assert_eq!(r.resolve("a").unwrap().count(), 1);
}
''', "a response from an address other than the one the query was sent to, as with multicast", "It is never received.")

seed("C21-connected", "C21", {ADV: [("                    sock.send_to(resp, addr)?;\n", "                    // errors of this sender are then reported for it and not for the next one\n                    sock.connect(addr)?;\n                    sock.send(resp)?;\n")]}, MSG + '''
use std::{net::*, time::*};
use uwuhi::{name::Label, service::advertising::*, resolver};
fn main() {
    std::thread::spawn(|| {
        let mut a = SyncAdvertiser::new(Label::new("h"), "10.0.0.1".parse().unwrap()).unwrap();
        a.listen_blocking().unwrap();
    });
    std::thread::sleep(Duration::from_millis(300));
    let _ = head(0, 0, 0, 0);
    let mut b = [0; 1500];
    let q = resolver::encode_query(&mut b, &"h.local".parse().unwrap()).to_vec();
    for _ in 0..2 {
        let s = UdpSocket::bind("127.0.0.1:0").unwrap();
        s.set_read_timeout(Some(Duration::from_secs(1))).unwrap();
        s.send_to(&q, "127.0.0.1:5353").unwrap();
        assert!(s.recv(&mut [0; 1500]).unwrap() > 12);
    }
}
''', "two senders one after the other", "The second one is not heard any more.")

seed("C10-qname-hash", "C10", {ADV: [("            for entry in &self.db.entries {\n", "            // A name that was asked for already brings nothing new.\n            if prev.as_ref() == Some(q.qname()) && prev_type == Some(q.qtype()) {\n                continue;\n            }\n            prev = Some(q.qname().clone());\n            prev_type = Some(q.qtype());\n\n            for entry in &self.db.entries {\n"), ("        let mut have_relevant_answer = false;\n", "        let mut have_relevant_answer = false;\n        let mut prev = None;\n        let mut prev_type = None;\n")]}, MSG + '''
use uwuhi::{name::Label, service::advertising::*, packet::decoder::MessageDecoder};
fn main() {
    let mut a = Advertiser::new(Label::new("h"), "10.0.0.1".parse().unwrap()).unwrap();
    let mut m = head(7, 0, 2, 0);
    for class in [3u8, 1] {
        m.extend(b"\\x01h\\x05local\\0\\0\\x01\\0");
        m.push(class);
    }
    let _ = rr;
    let r = a.handle_packet(&m).unwrap().expect("an answer");
    assert_eq!(MessageDecoder::new(r).unwrap().answers().unwrap().iter().count(), 1);
}
''', "the same question twice in a row, first for another class", "The second one is not answered.")

seed("C10-empty-value", "C10", {ADV: [("                    let mut kv = k.as_bytes().to_vec();\n                    kv.push(b'=');\n", "                    let mut kv = k.as_bytes().to_vec();\n                    if v.is_empty() {\n                        return kv;\n                    }\n                    kv.push(b'=');\n")]}, MSG + '''
use uwuhi::{name::*, service::{*, advertising::*}, packet::{decoder::MessageDecoder, records::*}};
fn main() {
    let mut a = Advertiser::new(Label::new("h"), "10.0.0.1".parse().unwrap()).unwrap();
    let mut d = InstanceDetails::new("h.local".parse().unwrap(), 1);
    *d.txt_records_mut() = TxtRecords::from_txt(&TXT::new([&b"k="[..]]));
    a.add_instance(ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP), d);
    let mut m = head(7, 0, 1, 0);
    m.extend(b"\\x01i\\x02_s\\x04_tcp\\x05local\\0\\0\\x10\\0\\x01");
    let _ = rr;
    let r = a.handle_packet(&m).unwrap().expect("an answer");
    let mut d = MessageDecoder::new(r).unwrap().answers().unwrap();
    let rec = d.next().unwrap().unwrap();
    match rec.as_enum() {
        Some(Ok(Record::TXT(t))) => assert!(t.entries().eq([&b"k="[..]])),
        _ => panic!(),
    };
}
''', "metadata whose value is empty", "It is advertised as a flag without a value.")

seed("C19-same-name", "C19", {AD: [("            match instances.entry(instance) {\n                Entry::Vacant(e) => {\n                    let flow = callback(e.key());\n", "            match instances.entry(instance.instance_name().clone()) {\n                Entry::Vacant(e) => {\n                    let flow = callback(&instance);\n")]}, MSG + '''
use std::{ops::ControlFlow, time::*};
use uwuhi::{name::*, service::*};
use uwuhi_async::service::discovery::AsyncDiscoverer;
fn main() {
    let mut m = head(0, 0x8400, 0, 2);
    rr(&mut m, "i", 12, b"\\x01x\\x02_s\\x04_tcp\\x05local\\0");
    rr(&mut m, "i", 12, b"\\x01x\\x02_s\\x04_udp\\x05local\\0");
    let (a, _rx) = server(vec![vec![m]]);
    futures_lite::future::block_on(async {
        let mut d = AsyncDiscoverer::new(a, DomainName::from_str("local").unwrap()).await.unwrap();
        d.set_discovery_timeout(Duration::from_millis(300)).unwrap();
        let mut n = 0;
        d.discover_instances(&Service::new(Label::new("_s"), ServiceTransport::TCP), |_| { n += 1; ControlFlow::Continue(()) }).await.unwrap();
        assert_eq!(n, 2);
    });
}
''', "two instances of the same name with different transports", "Only one of them is reported, unlike in the synchronous discoverer.", ASYNC)

seed("C19-transport", "C19", {AD: [("DomainName::from_iter([service.name(), &service.transport().to_label()]);", "DomainName::from_iter([service.name(), &ServiceTransport::TCP.to_label()]);"), ("use uwuhi::{", "use uwuhi::service::ServiceTransport;\nuse uwuhi::{")]}, MSG + '''
use std::{ops::ControlFlow, time::*};
use uwuhi::{name::*, service::*};
use uwuhi_async::service::discovery::AsyncDiscoverer;
fn main() {
    let (a, rx) = server(vec![vec![]]);
    let _ = (head(0, 0, 0, 0), rr);
    futures_lite::future::block_on(async {
        let mut d = AsyncDiscoverer::new(a, DomainName::from_str("local").unwrap()).await.unwrap();
        d.set_discovery_timeout(Duration::from_millis(100)).unwrap();
        d.set_retransmit_timeout(Duration::from_millis(100)).unwrap();
        let _ = d.discover_instances(&Service::new(Label::new("_s"), ServiceTransport::Other), |_| ControlFlow::Continue(())).await;
    });
    let q = rx.recv().unwrap();
    assert!(q.windows(4).any(|w| w == b"_udp"));
}
''', "browsing for a service that does not use TCP", "The async discoverer asks for the TCP one.", ASYNC)

seed("C22-small-buffer", "C22", {RES: [("        let mut send_buf = [0; MDNS_BUFFER_SIZE];", "        let mut send_buf = [0; DNS_BUFFER_SIZE];"), ("use crate::{DNS_BUFFER_SIZE, MDNS_BUFFER_SIZE};", "use crate::DNS_BUFFER_SIZE;")]}, MSG + '''
use uwuhi::{name::*, resolver::SyncResolver};
fn main() {
    let mut m = head(12345, 0x8180, 0, 1);
    rr(&mut m, "a", 1, &[1, 2, 3, 4]);
    let (a, _rx) = server(vec![vec![m]]);
    let n = DomainName::from_iter([63, 63, 63, 61].map(|k| Label::new("a".repeat(k))));
    assert_eq!(SyncResolver::new(a).unwrap().resolve_domain(&n).unwrap().count(), 1);
}
''', "a name of close to 255 octets", "The two questions do not fit and the lookup panics.")

seed("C22-browse-buffer", "C22", {DIS: [("        let mut send_buf = [0; MDNS_BUFFER_SIZE];", "        let mut send_buf = [0; 256];")]}, MSG + '''
use std::{ops::ControlFlow, time::*};
use uwuhi::{name::*, service::{*, discovery::*}};
fn main() {
    let (a, rx) = server(vec![vec![]]);
    let _ = (head(0, 0, 0, 0), rr);
    let n = DomainName::from_iter([63, 63, 63, 40].map(|k| Label::new("a".repeat(k))));
    let mut d = SyncDiscoverer::new(a, n).unwrap();
    d.set_discovery_timeout(Duration::from_millis(100)).unwrap();
    let _ = d.discover_instances(&Service::new(Label::new("_s"), ServiceTransport::TCP), |_| ControlFlow::Continue(()));
    assert!(rx.recv().unwrap().len() > 200);
}
''', "a domain of more than 220 octets", "The question does not fit and browsing panics.")

seed("C10-netbios", "C10", {ADV: [("        let mut host_and_domain = DomainName::from_iter([hostname]);", "        // hosts are known by at most 15 characters, as in NetBIOS\n        let short = hostname.as_bytes();\n        let mut host_and_domain = DomainName::from_iter([Label::new(&short[..short.len().min(15)])]);")]}, MSG + '''
use uwuhi::{name::Label, service::advertising::*};
fn main() {
    let mut a = Advertiser::new(Label::new("a-rather-long-host"), "10.0.0.1".parse().unwrap()).unwrap();
    let mut m = head(7, 0, 1, 0);
    m.extend(b"\\x12a-rather-long-host\\x05local\\0\\0\\x01\\0\\x01");
    let _ = rr;
    assert!(a.handle_packet(&m).unwrap().is_some());
}
''', "a host name of more than 15 octets", "The advertiser does not answer for it.")

seed("C10-txt-total", "C10", {ADV: [("TXT::new(details.txt_records().iter().map(", "TXT::new(details.txt_records().iter().take(16).map(")]}, MSG + '''
use uwuhi::{name::*, service::{*, advertising::*}, packet::{decoder::MessageDecoder, records::*}};
fn main() {
    let mut a = Advertiser::new(Label::new("h"), "10.0.0.1".parse().unwrap()).unwrap();
    let mut d = InstanceDetails::new("h.local".parse().unwrap(), 1);
    for k in 0..20u8 {
        d.txt_records_mut().add_flag(((b'a' + k) as char).to_string());
    }
    a.add_instance(ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP), d);
    let mut m = head(7, 0, 1, 0);
    m.extend(b"\\x01i\\x02_s\\x04_tcp\\x05local\\0\\0\\x10\\0\\x01");
    let _ = rr;
    let r = a.handle_packet(&m).unwrap().expect("an answer");
    let mut d = MessageDecoder::new(r).unwrap().answers().unwrap();
    let rec = d.next().unwrap().unwrap();
    match rec.as_enum() {
        Some(Ok(Record::TXT(t))) => assert_eq!(t.entries().count(), 20),
        _ => panic!(),
    };
}
''', "metadata with more than 16 keys", "The others are not advertised.")

seed("C24-refused-none", "C24", {RES: [("        self.sock.set_read_timeout(Some(timeout))?;\n        Ok(())", "        // the new timeout must not be mixed up with the old one\n        self.sock.set_read_timeout(None)?;\n        self.sock.set_read_timeout(Some(timeout))?;\n        Ok(())")]}, MSG + '''
use std::time::*;
use uwuhi::resolver::SyncResolver;
fn main() {
    let (a, _rx) = server(vec![vec![]]);
    let _ = (head(0, 0, 0, 0), rr);
    std::thread::spawn(|| {
        std::thread::sleep(Duration::from_secs(5));
        std::process::exit(1);
    });
    let mut r = SyncResolver::new(a).unwrap();
    assert!(r.set_timeout(Duration::ZERO).is_err());
    assert!(r.resolve("a").is_err());
}
''', "a timeout of zero, which is refused, and a lookup nobody answers", "The lookup never ends.")
