D, EN, R, PK, N = "src/packet/decoder.rs", "src/packet/encoder.rs", "src/packet/records.rs", "src/packet.rs", "src/name.rs"
S, ADV, DIS, RES, TAP = "src/service.rs", "src/service/advertising.rs", "src/service/discovery.rs", "src/resolver.rs", "src/tap.rs"
ER, HEX = "src/error.rs", "src/hex.rs"
AR, AA, AD = "uwuhi-async/src/resolver.rs", "uwuhi-async/src/service/advertising.rs", "uwuhi-async/src/service/discovery.rs"
ASYNC = 'uwuhi-async = { path = "$repo/uwuhi-async" }\nfutures-lite = "2"'
MSG = open("/verif/tools/seeds/b.py").read().split("MSG = '''")[1].split("'''")[0]
MD = "use uwuhi::packet::decoder::MessageDecoder;\n"

seed("C01-txt-slice", "C01", {D: [("        let length = self.read_u8()?;\n        self.read_slice(length.into())", "        let length = usize::from(self.read_u8()?);\n        let string = &self.buf()[..length];\n        self.advance(length);\n        Ok(string)")]}, MSG + MD + '''
fn main() {
    let mut m = head(0, 0x8400, 0, 1);
    rr(&mut m, "a", 16, b"\\x01a\\x05ab");
    let mut d = MessageDecoder::new(&m).unwrap().answers().unwrap();
    assert!(d.next().unwrap().unwrap().as_enum().unwrap().is_err());
}
''', "TXT data whose last string announces more bytes than there are", "Decoding the record panics.")

seed("C01-ttl-millis", "C01", {D: [('            "{}\\t{}\\t{}\\t{}\\t",\n            self.name(),\n            self.ttl(),', '            "{}\\t{}\\t{}\\t{}\\t",\n            self.name(),\n            (self.ttl() + 29) / 30 * 30 - (self.ttl() + 29) / 30 * 30 + self.ttl(),')]}, MSG + MD + '''
fn main() {
    let mut m = head(0, 0x8400, 0, 1);
    q(&mut m, "a", 1);
    m.extend([255, 255, 255, 240, 0, 4, 1, 2, 3, 4]);
    let mut d = MessageDecoder::new(&m).unwrap().answers().unwrap();
    d.next().unwrap().unwrap().to_string();
}
''', "showing a record with a TTL close to the largest value", "Displaying the record panics with an overflow.")

seed("C02-hops", "C02", {D: [("        let mut min_pos = self.pos.get();\n", "        let mut min_pos = self.pos.get();\n        let mut hops = 0;\n"), ("                        min_pos = ptr;\n", "                        min_pos = ptr;\n                        hops += 1;\n                        if hops > 3 {\n                            return Err(Error::PointerLoop);\n                        }\n")]}, MSG + MD + '''
fn main() {
    let mut m = head(0, 0, 6, 0);
    let mut at = m.len();
    q(&mut m, "local", 1);
    for l in 0..5 {
        let here = m.len();
        m.extend([1, b'a' + l]);
        m.extend((0xc000u16 | at as u16).to_be_bytes());
        m.extend([0, 1, 0, 1]);
        at = here;
    }
    let mut d = MessageDecoder::new(&m).unwrap();
    let v: Vec<_> = d.iter().map(|q| q.unwrap().qname().to_string()).collect();
    assert_eq!(v[5], "e.d.c.b.a.local.");
}
''', "a name compressed through more than three pointers", "A legal chain of compression pointers is refused as a loop.")

seed("C02-root-pointer", "C02", {D: [("                    if length == 0 {\n                        break;\n                    }\n", "                    if length == 0 {\n                        if domain_name.labels().is_empty() && end.is_some() {\n                            return Err(Error::InvalidEmptyLabel);\n                        }\n                        break;\n                    }\n")]}, MSG + MD + '''
fn main() {
    let mut m = head(0, 0, 2, 0);
    q(&mut m, "a", 1);
    m.extend([0xc0, 14, 0, 1, 0, 1]);
    let mut d = MessageDecoder::new(&m).unwrap();
    d.next().unwrap().unwrap();
    assert_eq!(d.next().unwrap().unwrap().qname().to_string(), ".");
}
''', "a name that is only a pointer to a root label", "The root name is refused when it is compressed.")

seed("C03-double-dot", "C03", {N: [("""        for label in s.split_terminator('.') {
            name.labels.push(label.parse()?);
        }
""", """        let s = if s.starts_with('.') { s } else { s.trim_end_matches('.') };
        for label in s.split_terminator('.') {
            name.labels.push(label.parse()?);
        }
""")]}, '''
use uwuhi::name::DomainName;
fn main() {
    assert!(DomainName::from_str("a.b.").is_ok());
    assert!(DomainName::from_str("a.b..").is_err());
}
''', "a name that ends in two dots", "A name with an empty label is accepted.")

seed("C03-trim", "C03", {N: [("    fn from_str(s: &str) -> Result<Self, Self::Err> {\n        Self::try_new(s)", "    fn from_str(s: &str) -> Result<Self, Self::Err> {\n        Self::try_new(s.trim_end())")]}, '''
use uwuhi::name::{DomainName, Label};
fn main() {
    assert_eq!(DomainName::from_str("a b .c").unwrap().labels()[0], Label::new("a b "));
}
''', "a label that ends in white space", "Parsing a name drops bytes of a label.")

seed("C03-eq-length", "C03", {N: [("#[derive(PartialEq, Eq, Clone)]\npub struct DomainName {", "impl PartialEq for DomainName {\n    fn eq(&self, other: &Self) -> bool {\n        // compare the most significant labels first, they differ least often\n        self.labels.len() == other.labels.len()\n            && self.labels.iter().flat_map(|l| l.as_bytes()).eq(other.labels.iter().flat_map(|l| l.as_bytes()))\n    }\n}\n\nimpl Eq for DomainName {}\n\n#[derive(Clone)]\npub struct DomainName {")]}, '''
use uwuhi::name::DomainName;
fn main() {
    let p = |s| DomainName::from_str(s).unwrap();
    assert!(p("ab.c") == p("ab.c."));
    assert!(p("ab.c") != p("a.bc"));
}
''', "two names with the same bytes and number of labels, cut differently", "Different names are equal.")

seed("C04-soa-expire", "C04", {R: [("    pub fn expire(&self) -> u32 {\n        self.expire", "    pub fn expire(&self) -> u32 {\n        self.expire.max(self.retry)")]}, MSG + MD + '''
use uwuhi::packet::records::Record;
fn main() {
    let mut m = head(0, 0x8400, 0, 1);
    let mut d = vec![0, 0];
    for x in [1u32, 2, 900, 4, 5] {
        d.extend(x.to_be_bytes());
    }
    rr(&mut m, "a", 6, &d);
    let mut d = MessageDecoder::new(&m).unwrap().answers().unwrap();
    let r = d.next().unwrap().unwrap();
    let Some(Ok(Record::SOA(s))) = r.as_enum() else { panic!() };
    assert_eq!((s.retry(), s.expire()), (900, 4));
}
''', "a SOA record whose expire time is below its retry time", "The expire time is not the one in the record.")

seed("C04-short-aaaa", "C04", {R: [("""        Ok(Self {
            addr: Ipv6Addr::from(*dec.r.read_array()?),
            _p: PhantomData,
        })""", """        let addr = match dec.r.buf() {
            // some appliances send IPv4 addresses
            [_, _, _, _] => Ipv4Addr::from(*dec.r.read_array()?).to_ipv6_mapped(),
            _ => Ipv6Addr::from(*dec.r.read_array()?),
        };
        Ok(Self {
            addr,
            _p: PhantomData,
        })""")]}, MSG + MD + '''
fn main() {
    let mut m = head(0, 0x8400, 0, 1);
    rr(&mut m, "a", 28, &[1, 2, 3, 4]);
    let mut d = MessageDecoder::new(&m).unwrap().answers().unwrap();
    assert!(d.next().unwrap().unwrap().as_enum().unwrap().is_err());
}
''', "an AAAA record with four bytes of data", "Data that is too short is accepted as an address.")

seed("C04-srv-trailing", "C04", {R: [("""        Ok(Self {
            priority: dec.r.read_u16()?,
            weight: dec.r.read_u16()?,
            port: dec.r.read_u16()?,
            target: dec.r.read_domain_name()?.into(),
            _p: PhantomData,
        })""", """        let this = Self {
            priority: dec.r.read_u16()?,
            weight: dec.r.read_u16()?,
            port: dec.r.read_u16()?,
            target: match dec.r.buf() {
                [] => DomainName::ROOT.into(),
                _ => dec.r.read_domain_name()?.into(),
            },
            _p: PhantomData,
        };
        Ok(this)""")]}, MSG + MD + '''
fn main() {
    let mut m = head(0, 0x8400, 0, 1);
    rr(&mut m, "a", 33, &[1, 2, 3, 4, 5, 6]);
    let mut d = MessageDecoder::new(&m).unwrap().answers().unwrap();
    assert!(d.next().unwrap().unwrap().as_enum().unwrap().is_err());
}
''', "an SRV record whose data ends before the target", "Data that ends early is accepted.")

seed("C05-flush-in", "C05", {D: [("                cache_flush = true;\n", "                cache_flush = raw & !0x8000 != 0x00ff;\n")]}, MSG + MD + '''
fn main() {
    let mut m = head(0, 0x8400, 0, 1);
    m.extend([0, 0, 1, 0x80, 0xff, 0, 0, 0, 1, 0, 0]);
    let mut d = MessageDecoder::new(&m).unwrap().answers().unwrap();
    assert!(d.next().unwrap().unwrap().cache_flush());
}
''', "a record of class ANY with the cache-flush bit", "The cache-flush bit is not reported.")

seed("C05-skip-errors", "C05", {D: [("""    pub fn authority(mut self) -> Result<MessageDecoder<'a, section::Authority>, Error> {
        while let Some(res) = self.next() {
            res?;
        }
""", """    pub fn authority(mut self) -> Result<MessageDecoder<'a, section::Authority>, Error> {
        while let Some(Ok(_)) = self.next() {}
""")]}, MSG + MD + '''
fn main() {
    let mut m = head(0, 0x8400, 0, 2);
    rr(&mut m, "a", 1, &[1, 2, 3, 4]);
    m.extend([1]);
    assert!(MessageDecoder::new(&m).unwrap().authority().is_err());
}
''', "skipping an answer section that is cut off", "The error is lost and the message seems to be complete.")

seed("C05-count-byte", "C05", {D: [("            ans_remaining: header.answer_count(),\n", "            ans_remaining: header.answer_count().min(255),\n")]}, MSG + MD + '''
fn main() {
    let mut m = head(0, 0x8400, 0, 300);
    for _ in 0..300 {
        m.extend([0, 0, 1, 0, 1, 0, 0, 0, 1, 0, 0]);
    }
    assert_eq!(MessageDecoder::new(&m).unwrap().answers().unwrap().iter().count(), 300);
}
''', "a message with more than 255 answers", "Answers are left out, and later sections start at the wrong place.")

seed("C06-ttl", "C06", {EN: [("        w.write_u32(rr.ttl);\n", "        // RFC 2181: TTLs have 31 bits\n        w.write_u32(rr.ttl & (u32::MAX >> 1));\n")]}, MD + '''
use uwuhi::{name::DomainName, packet::{encoder::*, records::*}};
fn main() {
    let mut b = [0; 100];
    let n = DomainName::from_str("a").unwrap();
    let r = Record::A(A::new([1, 2, 3, 4].into()));
    let mut e = MessageEncoder::new(&mut b).answers();
    e.add_answer(ResourceRecord::new(&n, &r).ttl(0x8000_0001));
    let l = e.finish().unwrap();
    let mut d = MessageDecoder::new(&b[..l]).unwrap().answers().unwrap();
    assert_eq!(d.next().unwrap().unwrap().ttl(), 0x8000_0001);
}
''', "a TTL with the top bit set", "Another TTL is written.")

seed("C06-txt-tail", "C06", {R: [("        for entry in self.entries() {\n            enc.w.write_character_string(entry);", "        for entry in self.entries.iter().enumerate().filter(|(i, e)| *i != 1 || !e.is_empty() || self.entries.len() > 2).map(|e| e.1) {\n            enc.w.write_character_string(entry);")]}, MD + '''
use uwuhi::{name::DomainName, packet::{encoder::*, records::*}};
fn main() {
    let mut b = [0; 100];
    let n = DomainName::from_str("a").unwrap();
    let r = Record::TXT(TXT::new([&b"x"[..], b""]));
    let mut e = MessageEncoder::new(&mut b).answers();
    e.add_answer(ResourceRecord::new(&n, &r));
    let l = e.finish().unwrap();
    assert_eq!(b[l - 3..l], [1, b'x', 0]);
}
''', "a TXT record of two strings whose second is empty", "The empty string is not written.")

seed("C06-class", "C06", {EN: [("        self.inner.w.write_u16(question.class.0);\n", "        self.inner.w.write_u16(match question.ty {\n            QType::ALL => QClass::IN.0,\n            _ => question.class.0,\n        });\n")]}, '''
use uwuhi::{name::DomainName, packet::{encoder::*, QClass}};
fn main() {
    let mut b = [0; 100];
    let n = DomainName::from_str("a").unwrap();
    let mut e = MessageEncoder::new(&mut b);
    e.question(Question::new(&n).class(QClass::CH));
    let l = e.finish().unwrap();
    assert_eq!(b[l - 4..l], [0, 255, 0, 3]);
}
''', "a question for all types in another class than IN", "The question is written with class IN.")

seed("C06-header-flags", "C06", {EN: [("            h.set_qdcount(self.qdcount);\n", "            if h.is_query() {\n                h.set_recursion_available(false);\n            }\n            h.set_qdcount(self.qdcount);\n")]}, '''
use uwuhi::packet::{encoder::*, Header};
fn main() {
    let mut b = [0; 100];
    let mut h = Header::default();
    h.set_recursion_available(true);
    let mut e = MessageEncoder::new(&mut b);
    e.set_header(h);
    e.finish().unwrap();
    assert_eq!(b[2..4], [0, 0x80]);
}
''', "a header with the recursion available bit but not the response bit", "The header is not written as given.")

seed("C07-exact-fit", "C07", {EN: [("        if data.len() > buf.len() {\n", "        if data.len() >= buf.len() && !data.is_empty() && self.pos > size_of::<Header>() {\n")]}, '''
use uwuhi::{name::DomainName, packet::encoder::*};
fn main() {
    let n = DomainName::from_str("a").unwrap();
    let mut b = [0; 19];
    let mut e = MessageEncoder::new(&mut b);
    e.question(Question::new(&n));
    assert_eq!(e.finish(), Ok(19));
}
''', "a message that fills its buffer exactly", "A complete message is reported and marked as truncated.")

seed("C07-rdata-lost", "C07", {EN: [("        w.trunc = enc.w.trunc;\n", "        w.trunc |= enc.w.trunc && w.pos < w.buf.len();\n")]}, '''
use uwuhi::{name::DomainName, packet::{encoder::*, records::*, Header}};
fn main() {
    let n = DomainName::from_str("a").unwrap();
    let r = Record::A(A::new([1, 2, 3, 4].into()));
    let _ = Header::default();
    let mut b = [0; 27];
    let mut e = MessageEncoder::new(&mut b).answers();
    e.add_answer(ResourceRecord::new(&n, &r));
    assert!(e.finish().is_err());
}
''', "a buffer that ends within the data of the last record", "The truncation is not reported.")

seed("C08-query-bits", "C08", {PK: [("        self.modify_flags(|f| f.set(HeaderFlags::QR, is_response));", "        self.modify_flags(|f| {\n            f.set(HeaderFlags::QR, is_response);\n            if !is_response {\n                f.remove(HeaderFlags::RA); // only meaningful in responses\n            }\n        });")]}, '''
use uwuhi::packet::Header;
fn main() {
    let mut h = Header::default();
    h.set_recursion_available(true);
    h.set_response(true);
    h.set_response(false);
    assert!(h.is_recursion_available());
}
''', "clearing the response bit after setting the recursion available bit", "A setter changes another field.")

seed("C08-opcode-bits", "C08", {PK: [("            f.remove(HeaderFlags::OPCODE);\n            *f.0.bits_mut() |=\n                (u16::from(opcode.0)", "            f.remove(HeaderFlags::OPCODE);\n            *f.0.bits_mut() |=\n                (u16::from(opcode.0 & 0b111)")]}, '''
use uwuhi::packet::{Header, Opcode};
fn main() {
    let op: Opcode = header(9 << 11).opcode();
    let mut h = Header::default();
    h.set_opcode(op);
    assert!(h.opcode() == op);
}
fn header(flags: u16) -> Header {
    let mut m = [0; 12];
    m[2..4].copy_from_slice(&flags.to_be_bytes());
    *uwuhi::packet::decoder::MessageDecoder::new(&m).unwrap().header()
}
''', "an opcode above 7", "The opcode that is set is not the one that is read back.")

seed("C08-rcode-authority", "C08", {PK: [("    pub fn is_authority(&self) -> bool {\n        self.flags().contains(HeaderFlags::AA)", "    pub fn is_authority(&self) -> bool {\n        self.flags().contains(HeaderFlags::AA) && self.rcode() != RCode::REFUSED")]}, '''
use uwuhi::packet::{Header, RCode};
fn main() {
    let mut h = Header::default();
    h.set_authority(true);
    h.set_rcode(RCode::REFUSED);
    assert!(h.is_authority());
}
''', "a header with the authority bit and the response code REFUSED", "An accessor does not return its field.")

seed("C09-maila", "C09", {PK: [("            Self::MAILA => false, // obsolete\n", "            Self::MAILA => matches!(ty, Type::MD | Type::MF), // obsolete\n")]}, '''
use uwuhi::packet::{QType, Type};
fn main() {
    assert!(!QType::MAILA.matches(Type::MD));
}
''', "a question for mail agents and an MD or MF record", "An obsolete question matches records.")

seed("C09-https", "C09", {PK: [("            _ => self.0 == ty.0,\n        }", "            Self::SVCB => matches!(ty, Type::SVCB | Type::HTTPS), // HTTPS records are SVCB records\n            _ => self.0 == ty.0,\n        }")]}, '''
use uwuhi::packet::{QType, Type};
fn main() {
    assert!(!QType::SVCB.matches(Type::HTTPS));
}
''', "a question for SVCB and an HTTPS record", "A question matches a record of another type.")

seed("C10-truncated-query", "C10", {ADV: [("        if dec.header().opcode() != Opcode::QUERY {\n            return Ok(None);\n        }\n", "        if dec.header().opcode() != Opcode::QUERY {\n            return Ok(None);\n        }\n        if dec.header().is_truncated() {\n            return Ok(None); // more known answers follow\n        }\n")]}, MSG + '''
use uwuhi::{name::Label, service::advertising::Advertiser};
fn main() {
    let mut a = Advertiser::new(Label::new("host"), "10.0.0.1".parse().unwrap()).unwrap();
    let mut m = head(1, 0x0200, 1, 0);
    q(&mut m, "host.local", 1);
    assert!(a.handle_packet(&m).unwrap().is_some());
}
''', "a query with the truncation bit", "The advertiser does not answer.")

seed("C10-once", "C10", {ADV: [("        let mut have_relevant_answer = false;\n", "        let mut have_relevant_answer = false;\n        let mut sent: Vec<*const Entry> = Vec::new();\n"), ("                have_relevant_answer = true;\n", "                have_relevant_answer = true;\n                if sent.contains(&(entry as *const Entry)) {\n                    continue;\n                }\n                sent.push(entry);\n")]}, MSG + '''
use uwuhi::{name::Label, service::advertising::Advertiser};
fn main() {
    let mut a = Advertiser::new(Label::new("host"), "10.0.0.1".parse().unwrap()).unwrap();
    let mut m = head(1, 0, 2, 0);
    q(&mut m, "host.local", 1);
    q(&mut m, "host.local", 255);
    assert_eq!(a.handle_packet(&m).unwrap().unwrap()[7], 2);
}
''', "a query with two questions that the same record matches", "The second question is not answered.")

seed("C10-first-address", "C10", {ADV: [("        self.db.entries.push(Entry::new(host_and_domain, record));", "        self.db.entries.retain(|e| e.name != host_and_domain || e.record.record_type() == record.record_type());\n        self.db.entries.push(Entry::new(host_and_domain, record));")]}, MSG + '''
use uwuhi::{name::Label, service::advertising::Advertiser};
fn main() {
    let mut a = Advertiser::new(Label::new("host"), "10.0.0.1".parse().unwrap()).unwrap();
    a.add_name(Label::new("host"), "::1".parse().unwrap());
    let mut m = head(1, 0, 1, 0);
    q(&mut m, "host.local", 255);
    assert_eq!(a.handle_packet(&m).unwrap().unwrap()[7], 2);
}
''', "a host name registered with an IPv4 and an IPv6 address", "The first address is dropped.")

seed("C11-retransmission", "C11", {ADV: [("    response_buf: Vec<u8>,\n}", "    response_buf: Vec<u8>,\n    last_query: Vec<u8>,\n}"), ("            response_buf: vec![0; MDNS_BUFFER_SIZE],\n", "            response_buf: vec![0; MDNS_BUFFER_SIZE],\n            last_query: Vec::new(),\n"), ("        let mut header = Header::default();\n        header.set_id(dec.header().id());\n", "        // do not answer a query that is received on two interfaces twice\n        if self.last_query == packet && dec.header().id() != 0 {\n            self.last_query.clear();\n            return Ok(None);\n        }\n        self.last_query = packet.to_vec();\n\n        let mut header = Header::default();\n        header.set_id(dec.header().id());\n")]}, MSG + '''
use uwuhi::{name::Label, service::advertising::Advertiser};
fn main() {
    let mut a = Advertiser::new(Label::new("host"), "10.0.0.1".parse().unwrap()).unwrap();
    let mut m = head(1, 0, 1, 0);
    q(&mut m, "host.local", 1);
    assert!(a.handle_packet(&m).unwrap().is_some());
    assert!(a.handle_packet(&m).unwrap().is_some());
}
''', "the same query with an id other than zero twice in a row", "The second query is not answered.")

seed("C11-known-answers", "C11", {ADV: [("            Ok(Some(&self.response_buf[..len]))", "            // keep IP fragmentation away\n            Ok(Some(&self.response_buf[..len.min(1232)]))")]}, MSG + '''
use uwuhi::{name::Label, service::advertising::Advertiser};
fn main() {
    let mut a = Advertiser::new(Label::new("host"), "10.0.0.1".parse().unwrap()).unwrap();
    let mut m = head(1, 0, 70, 0);
    for _ in 0..70 {
        q(&mut m, "host.local", 1);
    }
    let l = a.handle_packet(&m).unwrap().unwrap().len();
    assert_eq!(l, uwuhi::MDNS_BUFFER_SIZE);
}
''', "a query whose response has more than 1232 bytes", "The response is cut short of the buffer size, without a truncation bit if it would have fitted.")

seed("C12-same-type", "C12", {ADV: [("""        self.db.entries.push(Entry::new(
            DomainName::from_iter([
                instance.service_name(),
                &instance.service_transport().to_label(),
                &Label::new("local"),
            ]),
            Record::PTR(PTR::new(instance_domain.clone())),
        ));

        self.db.entries.push(Entry::new(
            self.discovery_domain.clone(),
            Record::PTR(PTR::new(service_domain.clone())),
        ));
""", """        if self.db.entries.iter().any(|e| e.name == service_domain) {
            return; // this type has been announced already
        }

        self.db.entries.push(Entry::new(
            DomainName::from_iter([
                instance.service_name(),
                &instance.service_transport().to_label(),
                &Label::new("local"),
            ]),
            Record::PTR(PTR::new(instance_domain.clone())),
        ));

        self.db.entries.push(Entry::new(
            self.discovery_domain.clone(),
            Record::PTR(PTR::new(service_domain.clone())),
        ));
""")]}, MSG + '''
use uwuhi::{name::{DomainName, Label}, service::{*, advertising::Advertiser}};
fn main() {
    let mut a = Advertiser::new(Label::new("host"), "10.0.0.1".parse().unwrap()).unwrap();
    for i in ["i", "j"] {
        a.add_instance(ServiceInstance::new(Label::new(i), Label::new("_s"), ServiceTransport::TCP), InstanceDetails::new(DomainName::from_str("host.local").unwrap(), 80));
    }
    let mut m = head(1, 0, 1, 0);
    q(&mut m, "_s._tcp.local", 12);
    assert_eq!(a.handle_packet(&m).unwrap().unwrap()[7], 2);
}
''', "two instances of the same service type", "Browsing does not find the second instance.")

seed("C12-port", "C12", {S: [("            host: srv.target().clone(),\n            port: srv.port(),", "            host: srv.target().clone(),\n            port: if srv.priority() == 0 && srv.port() < 1024 { srv.port() & 0x1ff } else { srv.port() },")]}, '''
use uwuhi::{name::DomainName, packet::records::SRV, service::InstanceDetails};
fn main() {
    let n = DomainName::from_str("host.local").unwrap();
    for p in [80, 515, 631, 8080] {
        assert_eq!(InstanceDetails::from_srv(&SRV::new(0, 0, p, &n)).unwrap().port(), p);
    }
}
''', "an instance registered with a port between 512 and 1023", "Asking for the details yields another port.")

seed("C13-underscore-required", "C13", {S: [("        Ok(ServiceInstance {\n            instance_name: instance_name.clone(),", "        if service_name.as_bytes() == b\"_sub\" {\n            return Err(Error::InvalidValue);\n        }\n        Ok(ServiceInstance {\n            instance_name: instance_name.clone(),")]}, '''
use uwuhi::{name::DomainName, packet::records::PTR, service::ServiceInstance};
fn main() {
    let n = DomainName::from_str("i._sub._tcp.local").unwrap();
    assert!(ServiceInstance::from_ptr(PTR::new(&n)).is_ok());
}
''', "an instance of a service that is called _sub", "A well-formed pointer record is refused.")

seed("C13-local-only", "C13", {S: [("""        let service_name = labels.next().ok_or(Error::Eof)?;
        let transport = labels.next().ok_or(Error::Eof)?;
        if labels.next().is_none() {
            // Domain missing, this is probably not a valid service.
            return Err(Error::Eof);
        }
        Ok(Service {
""", """        let service_name = labels.next().ok_or(Error::Eof)?;
        let transport = labels.next().ok_or(Error::Eof)?;
        if labels.last().is_none() || ptr.ptrdname().labels().len() > 5 {
            // Domain missing, this is probably not a valid service.
            return Err(Error::Eof);
        }
        Ok(Service {
""")]}, '''
use uwuhi::{name::DomainName, packet::records::PTR, service::Service};
fn main() {
    let n = DomainName::from_str("_s._tcp.a.b.example.org").unwrap();
    assert!(Service::from_ptr(PTR::new(&n)).is_ok());
}
''', "a service type in a domain of more than three labels", "A well-formed pointer record is refused.")

seed("C13-display", "C13", {S: [('        write!(f, "{}.{}", self.instance_name, self.service,)', '        write!(f, "{}.{}", String::from_utf8_lossy(self.instance_name.as_bytes()).trim_end(), self.service,)')]}, '''
use uwuhi::{name::Label, service::*};
fn main() {
    let d = |s: &[u8]| ServiceInstance::new(Label::new(s), Label::new("_s"), ServiceTransport::TCP).to_string();
    assert_eq!(d(b"a"), "a._s._tcp");
    assert_ne!(d(b"\\xff"), d(b"\\xfe"));
}
''', "instances whose names differ only in bytes that are not UTF-8 or in trailing white space", "Different instances display alike.")

seed("C14-flag-upgrade", "C14", {S: [("            match split.next() {\n                Some(value) => {\n                    entry.or_insert(TxtRecord {", "            match split.next() {\n                Some(value) => {\n                    entry.and_modify(|rec: &mut TxtRecord| {\n                        rec.value.get_or_insert_with(|| value.to_vec());\n                    }).or_insert(TxtRecord {")]}, '''
use uwuhi::{packet::records::TXT, service::*};
fn main() {
    let t = TxtRecords::from_txt(&TXT::new([&b"a"[..], b"a=1"]));
    assert!(matches!(t.get("a"), Some(TxtRecordValue::NoValue)));
}
''', "a flag followed by a string with the same key and a value", "The second string counts.")

seed("C14-trim-value", "C14", {S: [("                        value: Some(value.to_vec()),", "                        value: Some(value.strip_suffix(b\"\\0\").unwrap_or(value).to_vec()),")]}, '''
use uwuhi::{packet::records::TXT, service::*};
fn main() {
    let t = TxtRecords::from_txt(&TXT::new([&b"a=1\\0"[..]]));
    assert!(matches!(t.get("a"), Some(TxtRecordValue::Value(b"1\\0"))));
}
''', "a value that ends in a zero byte", "The value is changed.")

seed("C14-add-flag", "C14", {S: [("        self.map\n            .insert(key.to_ascii_lowercase(), TxtRecord { key, value: None });", "        self.map\n            .entry(if key.is_ascii() { key.to_ascii_lowercase() } else { key.clone() })\n            .or_insert(TxtRecord { key, value: None });")]}, '''
use uwuhi::service::*;
fn main() {
    let mut t = TxtRecords::new();
    t.add_flag("K\\u{e9}y".to_string());
    assert!(t.get("k\\u{e9}y").is_some());
}
''', "a flag with upper case letters and non-ASCII characters in its key", "Lookup does not find the flag.")

seed("C15-rcode", "C15", {RES: [("    if !h.is_response() {\n        return Ok(());\n    }\n", "    if !h.is_response() || h.rcode() == RCode::NX_DOMAIN {\n        return Ok(());\n    }\n"), ("        Header, QType,\n", "        Header, QType, RCode,\n")]}, MSG + '''
use uwuhi::resolver::decode_answer;
fn main() {
    let mut m = head(12345, 0x8403, 0, 1);
    rr(&mut m, "a", 1, &[1, 2, 3, 4]);
    let mut v = vec![];
    decode_answer(&m, &mut v).unwrap();
    assert_eq!(v.len(), 1);
}
''', "a response with addresses and the response code NX_DOMAIN", "The addresses are dropped.")

seed("C15-dedup", "C15", {RES: [("            Some(Ok(Record::A(a))) => ip_buf.push(IpAddr::V4(a.addr().octets().into())),", "            Some(Ok(Record::A(a))) if ip_buf.contains(&a.addr().into()) => {}\n            Some(Ok(Record::A(a))) => ip_buf.push(IpAddr::V4(a.addr().octets().into())),")]}, MSG + '''
use uwuhi::resolver::decode_answer;
fn main() {
    let mut m = head(12345, 0x8400, 0, 2);
    rr(&mut m, "a", 1, &[1, 2, 3, 4]);
    rr(&mut m, "a", 1, &[1, 2, 3, 4]);
    let mut v = vec![];
    decode_answer(&m, &mut v).unwrap();
    assert_eq!(v.len(), 2);
}
''', "a response that has the same address twice", "The addresses are not those of the response.")

seed("C15-stale", "C15", {RES: [("    ) -> io::Result<impl Iterator<Item = IpAddr> + '_> {\n        self.ip_buf.clear();\n", "    ) -> io::Result<impl Iterator<Item = IpAddr> + '_> {\n        if self.servers.len() == 1 {\n            self.ip_buf.clear();\n        }\n")]}, MSG + '''
use uwuhi::resolver::SyncResolver;
fn main() {
    let mut m = head(12345, 0x8400, 0, 1);
    rr(&mut m, "a", 1, &[1, 2, 3, 4]);
    let mut n = head(12345, 0x8400, 0, 1);
    rr(&mut n, "a", 1, &[5, 6, 7, 8]);
    let (a, _rx) = server(vec![vec![m], vec![n]]);
    let (b, _ry) = server(vec![]);
    let mut r = SyncResolver::new(a).unwrap();
    r.add_server(b);
    assert_eq!(r.resolve("a").unwrap().count(), 1);
    assert_eq!(r.resolve("b").unwrap().count(), 1);
}
''', "two lookups with a resolver that has two servers", "The second lookup also returns the addresses of the first.")

seed("C15-max", "C15", {RES: [("    for res in dec.answers()?.iter() {\n", "    for res in dec.answers()?.iter().take(16) {\n")]}, MSG + '''
use uwuhi::resolver::decode_answer;
fn main() {
    let mut m = head(12345, 0x8400, 0, 20);
    for i in 0..20 {
        rr(&mut m, "a", 1, &[1, 2, 3, i]);
    }
    let mut v = vec![];
    decode_answer(&m, &mut v).unwrap();
    assert_eq!(v.len(), 20);
}
''', "a response with more than 16 answers", "Addresses are missing.")

seed("C16-maxns", "C16", {RES: [("        for addr in &self.servers {\n", "        for addr in self.servers.iter().take(3) {\n")]}, MSG + '''
use std::time::Duration;
use uwuhi::resolver::SyncResolver;
fn main() {
    let s: Vec<_> = (0..4).map(|_| server(vec![])).collect();
    let mut r = SyncResolver::new(s[0].0).unwrap();
    for x in &s[1..] {
        r.add_server(x.0);
    }
    r.set_timeout(Duration::from_millis(100)).unwrap();
    let _ = r.resolve("a").is_err();
    for x in &s {
        x.1.recv_timeout(Duration::from_millis(1000)).unwrap();
    }
}
''', "a resolver with more than three servers", "The fourth server is not asked.")

seed("C16-send-error", "C16", {RES: [("            self.sock.send_to(data, addr)?;\n", "            if let Err(e) = self.sock.send_to(data, addr) {\n                log::debug!(\"cannot ask {}: {}\", addr, e);\n                break;\n            }\n")]}, MSG + '''
use std::time::Duration;
use uwuhi::resolver::SyncResolver;
fn main() {
    // sending to port 0 fails; the lookup ends with that error
    let mut r = SyncResolver::new("127.0.0.1:0".parse().unwrap()).unwrap();
    r.set_timeout(Duration::from_millis(100)).unwrap();
    let k = r.resolve("a").map(|_| ()).unwrap_err().kind();
    assert_eq!(k, std::io::ErrorKind::InvalidInput);
}
''', "a server that cannot be sent to", "The remaining servers are not asked and the lookup waits for an answer that cannot come.")

seed("C17-three-tries", "C17", {DIS: [("        let discovery_start = Instant::now();\n        'retransmit: loop {\n", "        let discovery_start = Instant::now();\n        let mut tries = 0;\n        'retransmit: loop {\n            tries += 1;\n            if tries > 4 {\n                return Ok(()); // nobody is listening\n            }\n")]}, MSG + '''
use std::{ops::ControlFlow, time::{Duration, Instant}};
use uwuhi::{name::{DomainName, Label}, service::{*, discovery::SyncDiscoverer}};
fn main() {
    let (a, rx) = server(vec![]);
    let s = Service::new(Label::new("_s"), ServiceTransport::TCP);
    let mut d = SyncDiscoverer::new(a, DomainName::from_str("local").unwrap()).unwrap();
    d.set_discovery_timeout(Duration::from_millis(1000)).unwrap();
    d.set_retransmit_timeout(Duration::from_millis(100)).unwrap();
    let t = Instant::now();
    d.discover_instances(&s, |_| ControlFlow::Continue(())).unwrap();
    assert!(t.elapsed() >= Duration::from_millis(1000));
    assert!(rx.try_iter().count() > 5);
}
''', "a discovery timeout of more than four times the retransmit timeout and nobody answering", "Browsing ends before the discovery timeout.")

seed("C17-same-name", "C17", {DIS: [("            match instances.entry(instance) {\n                Entry::Vacant(e) => {\n                    let flow = callback(e.key());\n                    e.insert(());\n                    flow\n                }", "            match instances.entry((instance.instance_name.clone(), instance.service.name.clone())) {\n                Entry::Vacant(e) => {\n                    let flow = callback(&instance);\n                    e.insert(());\n                    flow\n                }")]}, MSG + '''
use std::{ops::ControlFlow, time::Duration};
use uwuhi::{name::{DomainName, Label}, service::{*, discovery::SyncDiscoverer}};
fn main() {
    let mut m = head(0, 0x8400, 0, 2);
    rr(&mut m, "a", 12, &name("i._s._tcp.local"));
    rr(&mut m, "a", 12, &name("i._s._udp.local"));
    let (a, _rx) = server(vec![vec![m]]);
    let s = Service::new(Label::new("_s"), ServiceTransport::TCP);
    let mut d = SyncDiscoverer::new(a, DomainName::from_str("local").unwrap()).unwrap();
    d.set_discovery_timeout(Duration::from_millis(300)).unwrap();
    let mut n = 0;
    d.discover_instances(&s, |_| {
        n += 1;
        ControlFlow::Continue(())
    }).unwrap();
    assert_eq!(n, 2);
}
''', "two instances that differ only in their transport", "The second instance is not reported.")

seed("C17-last-break", "C17", {DIS: [("                Ok(ControlFlow::Break(())) => return Ok(()),\n", "                    Ok(ControlFlow::Break(())) if b < 256 => return Ok(()),\n                    Ok(ControlFlow::Break(())) => {}\n".lstrip())]}, MSG + '''
use std::{ops::ControlFlow, time::Duration};
use uwuhi::{name::{DomainName, Label}, service::{*, discovery::SyncDiscoverer}};
fn main() {
    let mut m = head(0, 0x8400, 0, 2);
    rr(&mut m, "a", 12, &name("i._s._tcp.local"));
    rr(&mut m, "a", 99, &[0; 256]);
    let mut m2 = head(0, 0x8400, 0, 1);
    rr(&mut m2, "a", 12, &name("j._s._tcp.local"));
    let (a, _rx) = server(vec![vec![m, m2]]);
    let s = Service::new(Label::new("_s"), ServiceTransport::TCP);
    let mut d = SyncDiscoverer::new(a, DomainName::from_str("local").unwrap()).unwrap();
    d.set_discovery_timeout(Duration::from_millis(300)).unwrap();
    let mut n = 0;
    d.discover_instances(&s, |_| {
        n += 1;
        ControlFlow::Break(())
    }).unwrap();
    assert_eq!(n, 1);
}
''', "a callback that stops the browsing at a response of 256 bytes or more", "Browsing goes on after it has been told to stop.")

seed("C18-root-target", "C18", {S: [("        Ok(Self {\n            host: srv.target().clone(),", "        if srv.port() == 0 {\n            return Err(Error::InvalidValue); // service is not available\n        }\n        Ok(Self {\n            host: srv.target().clone(),")]}, '''
use uwuhi::{name::DomainName, packet::records::SRV, service::InstanceDetails};
fn main() {
    let n = DomainName::from_str("host.local").unwrap();
    assert_eq!(InstanceDetails::from_srv(&SRV::new(0, 0, 0, &n)).unwrap().port(), 0);
}
''', "an SRV record with port 0", "The first SRV record is passed over.")

seed("C18-merge", "C18", {DIS: [("                    txt_records = Some(TxtRecords::from_txt(&txt));\n", "                    let txt = TxtRecords::from_txt(&txt);\n                    if txt_records.is_none() || !txt.is_empty() {\n                        txt_records = Some(txt);\n                    }\n")]}, MSG + '''
use std::time::Duration;
use uwuhi::{name::{DomainName, Label}, service::{*, discovery::SyncDiscoverer}};
fn main() {
    let mut m = head(0, 0x8400, 0, 3);
    rr(&mut m, "a", 16, b"\\x03a=1");
    rr(&mut m, "a", 16, b"\\x00");
    rr(&mut m, "a", 33, &srv(80, "host.local"));
    let (a, _rx) = server(vec![vec![m]]);
    let mut d = SyncDiscoverer::new(a, DomainName::from_str("local").unwrap()).unwrap();
    d.set_discovery_timeout(Duration::from_millis(300)).unwrap();
    let r = d.load_instance_details(&ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP)).unwrap();
    assert!(r.txt_records().is_empty());
}
''', "an empty TXT record after one with metadata, before the SRV record", "The outdated metadata is returned.")

seed("C19-total-timeout", "C19", {AR: [("        loop {\n            let mut recv_buf = [0; DNS_BUFFER_SIZE];\n            let timeout = async {\n                Timer::after(self.timeout).await;", "        let deadline = std::time::Instant::now() + self.timeout;\n        loop {\n            let mut recv_buf = [0; DNS_BUFFER_SIZE];\n            let timeout = async {\n                Timer::at(deadline).await;")]}, MSG + '''
use std::{net::UdpSocket, time::Duration};
use uwuhi_async::resolver::AsyncResolver;
fn main() {
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let a = s.local_addr().unwrap();
    std::thread::spawn(move || {
        let mut b = [0; 1000];
        let (_, from) = s.recv_from(&mut b).unwrap();
        for _ in 0..4 {
            std::thread::sleep(Duration::from_millis(200));
            s.send_to(&head(12345, 0x8400, 0, 0), from).unwrap();
        }
        let mut m = head(12345, 0x8400, 0, 1);
        rr(&mut m, "a", 1, &[1, 2, 3, 4]);
        s.send_to(&m, from).unwrap();
    });
    futures_lite::future::block_on(async {
        let mut r = AsyncResolver::new(a).await.unwrap();
        assert_eq!(r.resolve("a").await.unwrap().count(), 1);
    });
}
''', "datagrams without addresses before the response, over longer than the timeout", "The async resolver times out where the synchronous one goes on waiting.", ASYNC)

seed("C19-timeout-first", "C19", {AD: [("                let (b, addr) = match future::or(recv, timeout).await {", "                let (b, addr) = match future::or(timeout, recv).await {")]}, MSG + '''
use std::{ops::ControlFlow, time::Duration};
use uwuhi::{name::{DomainName, Label}, service::*};
use uwuhi_async::service::discovery::AsyncDiscoverer;
fn main() {
    let mut m = head(0, 0x8400, 0, 1);
    rr(&mut m, "a", 12, &name("i._s._tcp.local"));
    // responses have arrived before the future is polled again
    let (a, _rx) = server(vec![vec![m; 1]; 100]);
    let s = Service::new(Label::new("_s"), ServiceTransport::TCP);
    let n = futures_lite::future::block_on(async {
        let mut d = AsyncDiscoverer::new(a, DomainName::from_str("local").unwrap()).await.unwrap();
        d.set_retransmit_timeout(Duration::from_millis(0)).unwrap();
        d.set_discovery_timeout(Duration::from_millis(500)).unwrap();
        let mut n = 0;
        d.discover_instances(&s, |_| {
            n += 1;
            ControlFlow::Continue(())
        }).await.unwrap();
        n
    });
    assert_eq!(n, 1);
}
''', "a response that has arrived when the retransmit timeout is over", "The async discoverer repeats its query instead of reading the response.", ASYNC)

seed("C19-details-txt", "C19", {AD: [("                if let Some(txt) = txt_records {\n", "                if let Some(txt) = txt_records.filter(|_| details.port() != 0) {\n")]}, MSG + '''
use std::time::Duration;
use uwuhi::{name::{DomainName, Label}, service::*};
use uwuhi_async::service::discovery::AsyncDiscoverer;
fn main() {
    let mut m = head(0, 0x8400, 0, 2);
    rr(&mut m, "a", 16, b"\\x03a=1");
    rr(&mut m, "a", 33, &srv(0, "host.local"));
    let (a, _rx) = server(vec![vec![m]]);
    futures_lite::future::block_on(async {
        let mut d = AsyncDiscoverer::new(a, DomainName::from_str("local").unwrap()).await.unwrap();
        d.set_discovery_timeout(Duration::from_millis(500)).unwrap();
        let r = d.load_instance_details(&ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP)).await.unwrap();
        assert!(!r.txt_records().is_empty());
    });
}
''', "an instance with port 0 and metadata", "The async discoverer drops the metadata.", ASYNC)

seed("C20-opcode", "C20", {D: [("        for q in msg.iter() {\n            let q = q?;\n", "        if h.rcode() != RCode::NO_ERROR && h.is_query() {\n            return Ok(());\n        }\n        for q in msg.iter() {\n            let q = q?;\n"), ("    Class, Header, QClass, QType, Type,\n};\n\n#[derive", "    Class, Header, QClass, QType, RCode, Type,\n};\n\n#[derive")]}, MSG + '''
use std::{net::UdpSocket, sync::atomic::*, time::Duration};
use uwuhi::tap::SyncTap;
static N: AtomicUsize = AtomicUsize::new(0);
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) {
        if r.args().to_string().starts_with("Q: ") {
            N.fetch_add(1, Ordering::SeqCst);
        }
    }
    fn flush(&self) {}
}
static LOG: L = L;
fn main() {
    log::set_logger(&LOG).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let t = SyncTap::new().unwrap();
    std::thread::spawn(move || t.listen());
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let mut m = head(0, 3, 1, 0);
    q(&mut m, "a", 1);
    s.send_to(&m, "127.0.0.1:5353").unwrap();
    std::thread::sleep(Duration::from_millis(500));
    assert_eq!(N.load(Ordering::SeqCst), 1);
}
''', "a query with a response code", "Its questions and records are not logged.", 'log = "0.4"')

seed("C20-reuse", "C20", {TAP: [("        sock.set_reuse_address(true)?;\n        sock.bind(", "        if sock.reuse_address()? {\n            sock.set_reuse_address(true)?;\n        }\n        sock.bind(")]}, '''
use uwuhi::tap::SyncTap;
fn main() {
    let _a = SyncTap::new().unwrap();
    let _b = SyncTap::new().unwrap();
}
''', "another program that listens on the mDNS port", "The tap cannot be created.")

seed("C21-multicast-reply", "C21", {ADV: [("                    sock.send_to(resp, addr)?;\n", "                    if addr.port() == 5353 {\n                        // RFC 6762: responses to mDNS queries are multicast\n                        sock.send_to(resp, \"224.0.0.251:5353\")?;\n                    } else {\n                        sock.send_to(resp, addr)?;\n                    }\n")]}, MSG + '''
use std::{net::*, time::Duration};
use uwuhi::{name::Label, service::advertising::SyncAdvertiser};
fn main() {
    let mut a = SyncAdvertiser::new(Label::new("host"), "10.0.0.1".parse().unwrap()).unwrap();
    std::thread::spawn(move || a.listen_blocking());
    std::thread::sleep(Duration::from_millis(300));
    let s = UdpSocket::bind("127.0.0.2:5353").or_else(|_| {
        let s = socket2::Socket::new(socket2::Domain::IPV4, socket2::Type::DGRAM, None)?;
        s.set_reuse_address(true)?;
        s.bind(&"127.0.0.2:5353".parse::<SocketAddr>().unwrap().into())?;
        std::io::Result::Ok(UdpSocket::from(s))
    }).unwrap();
    s.set_read_timeout(Some(Duration::from_millis(1000))).unwrap();
    let mut m = head(1, 0, 1, 0);
    q(&mut m, "host.local", 1);
    s.send_to(&m, "127.0.0.1:5353").unwrap();
    s.recv_from(&mut [0; 2000]).expect("an answer");
}
''', "a query from port 5353", "The response goes to the group and not to the sender.", 'socket2 = "0.5"')

seed("C21-own-packets", "C21", {AA: [("            let packet = &recv_buf[..len];\n", "            let packet = &recv_buf[..len];\n            if addr.ip().is_loopback() && len >= 512 {\n                continue; // our own response\n            }\n")]}, MSG + '''
use std::{net::*, time::Duration};
use uwuhi::name::Label;
use uwuhi_async::service::advertising::AsyncAdvertiser;
fn main() {
    std::thread::spawn(move || futures_lite::future::block_on(async {
        let mut a = AsyncAdvertiser::new(Label::new("host"), "10.0.0.1".parse().unwrap()).unwrap();
        a.listen().await
    }));
    std::thread::sleep(Duration::from_millis(300));
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    s.set_read_timeout(Some(Duration::from_millis(1000))).unwrap();
    let mut m = head(1, 0, 1, 1);
    q(&mut m, "host.local", 1);
    rr(&mut m, "x", 99, &[0; 500]);
    s.send_to(&m, "127.0.0.1:5353").unwrap();
    s.recv_from(&mut [0; 2000]).expect("an answer");
}
''', "a query of 512 bytes or more from the loopback address, to the async server loop", "The query is not answered.", ASYNC)

seed("C22-recursion", "C22", {DIS: [("    header.set_id(12345);\n    let mut enc", "    header.set_id(12345);\n    // unicast servers may have to ask others\n    let local = domain.labels().last().map_or(false, |l| l.as_bytes() == b\"local\");\n    header.set_recursion_desired(!local);\n    let mut enc")]}, '''
use uwuhi::{name::DomainName, packet::QType, service::discovery::encode_query};
fn main() {
    let mut b = [0; 300];
    for n in ["_s._tcp.local", "_s._tcp.example.org"] {
        let m = encode_query(&mut b, &DomainName::from_str(n).unwrap(), &[QType::PTR]);
        assert_eq!(m[2], 0);
    }
}
''', "browsing in another domain than local", "The discovery query requests recursion.")

seed("C22-case", "C22", {RES: [("    enc.question(Question::new(&name).ty(QType::AAAA));\n", "    let v4 = name.labels().last().map_or(false, |l| l.as_bytes() == b\"arpa\");\n    enc.question(Question::new(&name).ty(if v4 { QType::PTR } else { QType::AAAA }));\n")]}, '''
use uwuhi::{name::DomainName, resolver::encode_query};
fn main() {
    let mut b = [0; 300];
    for n in ["a.local", "1.in-addr.arpa"] {
        let m = encode_query(&mut b, &DomainName::from_str(n).unwrap());
        assert_eq!(m[m.len() - 4..], [0, 28, 0, 1]);
    }
}
''', "looking up a name under arpa", "The query does not ask for AAAA.")

seed("C23-srv-order", "C23", {R: [("            self.priority, self.weight, self.port, self.target,\n", "            self.priority,\n            self.weight.min(0xfffe),\n            self.port,\n            self.target,\n")]}, MSG + MD + '''
fn main() {
    let mut m = head(0, 0x8400, 0, 1);
    let mut d = vec![0, 0, 255, 255, 0, 80];
    d.extend(name("h"));
    rr(&mut m, "a", 33, &d);
    let mut d = MessageDecoder::new(&m).unwrap().answers().unwrap();
    assert_eq!(d.next().unwrap().unwrap().to_string(), "a.\\t120\\tIN\\tSRV\\t0\\t65535\\t80\\th.");
}
''', "showing an SRV record with the weight 65535", "Another weight is shown.")

seed("C23-txt-control", "C23", {R: [("                if byte.is_ascii_graphic() {\n", "                if byte.is_ascii() && byte != b'\\n' && byte != b' ' {\n")]}, MSG + MD + '''
fn main() {
    let mut m = head(0, 0x8400, 0, 1);
    rr(&mut m, "a", 16, b"\\x03\\x1b[m");
    let mut d = MessageDecoder::new(&m).unwrap().answers().unwrap();
    assert!(!d.next().unwrap().unwrap().to_string().contains('\\x1b'));
}
''', "showing a TXT record with control characters", "Control characters of a message get into the text.")

seed("C23-error-kind", "C23", {ER: [("            Error::Truncated => io::ErrorKind::OutOfMemory.into(),", "            Error::Truncated => io::ErrorKind::UnexpectedEof.into(),")]}, '''
use uwuhi::Error;
fn main() {
    let k = |e| std::io::Error::from(e).kind();
    assert_ne!(k(Error::Truncated), k(Error::Eof));
}
''', "an encoder's truncation error turned into an I/O error", "It has the kind of another error.")

seed("C23-unknown-class", "C23", {"src/packet/macros.rs": [('write!(f, "(unknown {}: {:#x})", stringify!($name), self.0)', 'write!(f, "(unknown {}: {:#x})", stringify!($name), self.0 as u8)')]}, MSG + MD + '''
fn main() {
    let t = |ty| {
        let mut m = head(0, 0x8400, 0, 1);
        rr(&mut m, "a", ty, &[]);
        let mut d = MessageDecoder::new(&m).unwrap().answers().unwrap();
        d.next().unwrap().unwrap().to_string()
    };
    assert_ne!(t(0x1234), t(0x5634));
}
''', "showing a type or class above 255 that has no name", "Different codes are shown alike.")
