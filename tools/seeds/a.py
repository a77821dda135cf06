D, EN, R, PK, N = "src/packet/decoder.rs", "src/packet/encoder.rs", "src/packet/records.rs", "src/packet.rs", "src/name.rs"

seed("C04-empty-data", "C04", {D: [("            copy.full_buf = &copy.full_buf[..self.pos.get() + len];\n", "            if len > 0 {\n                copy.full_buf = &copy.full_buf[..self.pos.get() + len];\n            }\n")]},
'''
use uwuhi::packet::decoder::MessageDecoder;
fn main() {
    let mut m = vec![0u8; 12];
    m[2] = 0x80;
    m[7] = 2;
    m.extend([0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0]); // an A record without data
    m.extend([0, 0, 99, 0, 1, 0, 0, 0, 0, 0, 0]);
    let mut d = MessageDecoder::new(&m).unwrap().answers().unwrap();
    let r = d.next().unwrap().unwrap();
    assert!(matches!(r.as_enum(), Some(Err(_))));
}
''', "a record that announces no data", "Data of an empty record is read from the record behind it.")

seed("C05-error-forgotten", "C05", {D: [("            has_errored: self.has_errored,\n", "            has_errored: false,\n")]},
'''
use uwuhi::packet::decoder::MessageDecoder;
fn main() {
    // question with a reserved label type; what follows happens to look like an answer
    let mut m = vec![0u8; 12];
    m[2] = 0x80;
    m[5] = 1;
    m[7] = 1;
    m.extend([0x40]);
    m.splice(12..12, []);
    let mut m2 = m.clone();
    m2.truncate(12);
    m2.extend([0, 0, 1, 0, 1]); // fine question
    m2.extend([0, 0, 99, 0, 1, 0, 0, 0, 0, 0, 0]);
    assert_eq!(MessageDecoder::new(&m2).unwrap().answers().unwrap().iter().count(), 1);
    let mut m3 = m.clone();
    m3.truncate(12);
    m3.extend([0xC0, 0x50]); // pointer ahead: an error
    m3.extend([0, 0, 99, 0, 1, 0, 0, 0, 0, 0, 0]);
    let mut d = MessageDecoder::new(&m3).unwrap();
    assert!(d.next().unwrap().is_err());
    if let Ok(mut a) = d.answers() {
        assert!(a.next().is_none(), "decoding went on behind an error");
    }
}
''', "a malformed question that the caller tolerates before moving to the next section", "After an error in one section the decoder carries on in the next one and yields items read at the wrong place.")

seed("C05-ttl-sign", "C05", {D: [("        let ttl = self.read_u32()?;\n        let rdlength", "        // TTLs are 31-bit values (RFC 2181)\n        let ttl = self.read_u32()? & 0x7fff_ffff;\n        let rdlength")]},
'''
use uwuhi::packet::decoder::MessageDecoder;
fn main() {
    let mut m = vec![0u8; 12];
    m[2] = 0x80;
    m[7] = 1;
    m.extend([0, 0, 99, 0, 1, 0x80, 0, 0, 7, 0, 0]);
    let mut d = MessageDecoder::new(&m).unwrap().answers().unwrap();
    assert!(format!("{}", d.next().unwrap().unwrap()).contains("2147483655"));
}
''', "a TTL with its most significant bit set", "TTL values are not reported as they are in the message.")

seed("C06-rdlength", "C06", {EN: [('        w.write_u16(rdata_len.try_into().expect("RDATA length overflows u16"));', '        w.write_u8(0);\n        w.write_u8(rdata_len as u8);')]},
'''
use uwuhi::name::DomainName;
use uwuhi::packet::{encoder::*, records::*};
fn main() {
    let mut b = [0u8; 1500];
    let mut e = MessageEncoder::new(&mut b).answers();
    let r = Record::TXT(TXT::new([vec![1u8; 200], vec![2u8; 200]]));
    e.add_answer(ResourceRecord::new(&DomainName::ROOT, &r));
    let n = e.finish().unwrap();
    assert_eq!(n, 12 + 11 + 402);
    assert_eq!(b[21..23], [1, 146]);
}
''', "record data of 256 bytes or more", "The data length field of long records is wrong, so everything behind it is misread.")

seed("C07-all-or-nothing", "C07", {EN: [("            buf.copy_from_slice(&data[..buf.len()]);\n            self.pos += buf.len();\n", "")]},
'''
use uwuhi::name::{DomainName, Label};
use uwuhi::packet::encoder::*;
fn main() {
    let mut n = DomainName::ROOT;
    n.push_label(Label::new("abcdef"));
    let mut full = [0u8; 100];
    let mut e = MessageEncoder::new(&mut full);
    e.question(Question::new(&n));
    assert_eq!(e.finish().unwrap(), 12 + 8 + 4);
    let mut b = [0u8; 16];
    let mut e = MessageEncoder::new(&mut b);
    e.question(Question::new(&n));
    assert!(e.finish().is_err());
    assert_eq!(b[12..], full[12..16]);
}
''', "a buffer that ends inside a label", "What does not fit is left out and later parts are written in its place, so a truncated message is no prefix of the full one.")

seed("C07-tc-sticky", "C07", {EN: [("            h.set_truncated(trunc);\n", "            if trunc {\n                h.set_truncated(true);\n            }\n")]},
'''
use uwuhi::packet::{encoder::*, Header};
fn main() {
    let mut h = Header::default();
    h.set_truncated(true); // e.g. a copy of a received header
    let mut b = [0u8; 64];
    let mut e = MessageEncoder::new(&mut b);
    e.set_header(h);
    assert!(e.finish().is_ok());
    assert_eq!(b[2] & 2, 0);
}
''', "a header given to the encoder that has the truncation bit set, and a message that fits", "A complete message goes out marked as truncated.")

seed("C08-opcode-overflow", "C08", {PK: [("                (u16::from(opcode.0) << HeaderFlags::OPCODE_POS) & HeaderFlags::OPCODE_MASK;", "                u16::from(opcode.0 & 0x1f) << HeaderFlags::OPCODE_POS;")]},
'''
use uwuhi::packet::{Header, Opcode};
fn main() {
    let op: Opcode = unsafe { std::mem::transmute(0x10u8) };
    let mut h = Header::default();
    h.set_opcode(op);
    assert!(h.is_query());
    h.set_opcode(Opcode::UPDATE);
    assert!(h.opcode() == Opcode::UPDATE && h.is_query());
}
''', "an opcode above 15", "Setting such an opcode turns a query into a response.")

seed("C09-meta-types", "C09", {PK: [("            Self::ALL => true,\n", "            Self::ALL => !matches!(ty, Type::TKEY | Type::TSIG | Type::NULL),\n")]},
'''
use uwuhi::packet::{QType, Type};
fn main() {
    assert!(QType::ALL.matches(Type::A));
    assert!(QType::ALL.matches(Type::TSIG));
    assert!(QType::ALL.matches(Type::NULL));
}
''', "a question for all types and a record of type NULL, TKEY or TSIG", "A question for all types misses some.")

seed("C09-any-class", "C09", {PK: [("        if *self == Self::ANY {\n            true\n", "        if *self == Self::ANY {\n            class.0 != 0\n")]},
'''
use uwuhi::packet::{Class, QClass};
fn main() {
    assert!(QClass::ANY.matches(Class::IN));
    let c: Class = unsafe { std::mem::transmute(0u16) };
    assert!(QClass::ANY.matches(c));
}
''', "a record of the reserved class 0 and a question for any class", "A question for any class misses records.")
seed("C02-reserved-form", "C02", {D: [("                0b1100_0000 => {\n", "                0b1100_0000 | 0b1000_0000 => {\n")]},
'''
use uwuhi::packet::decoder::MessageDecoder;
fn main() {
    let mut m = vec![0u8; 12];
    m[2] = 0x80;
    m[7] = 2;
    m.extend([1, b'a', 0, 0, 99, 0, 1, 0, 0, 0, 0, 0, 0]);
    m.extend([0x80, 12, 0, 99, 0, 1, 0, 0, 0, 0, 0, 0]);
    let mut d = MessageDecoder::new(&m).unwrap().answers().unwrap();
    assert!(d.next().unwrap().is_ok());
    assert!(d.next().unwrap().is_err());
}
''', "a length byte of the reserved form 10xxxxxx", "A reserved label form is taken for a compression pointer.")

seed("C03-case", "C03", {N: [("        Self::try_new(s)\n", "        Self::try_new(s.to_ascii_lowercase())\n")]},
'''
use uwuhi::name::DomainName;
fn main() {
    let n = DomainName::from_str("My-Host.local").unwrap();
    assert_eq!(n.labels()[0].as_bytes(), b"My-Host");
}
''', "a name with capital letters given as text", "Parsing a name changes its bytes.")

seed("C03-unescaped", "C03", {N: [("        self.as_bytes().escape_ascii().fmt(f)\n", "        if self.bytes.iter().all(|b| b.is_ascii_graphic()) {\n            return self.bytes.iter().try_for_each(|&b| f.write_char(b.into()));\n        }\n        self.as_bytes().escape_ascii().fmt(f)\n")]},
'''
use uwuhi::name::Label;
fn main() {
    assert_eq!(Label::new(b"a\\\\x20b").to_string(), "a\\\\\\\\x20b");
    assert_ne!(Label::new(b"\\\\x00").to_string(), Label::new(b"\\0").to_string());
}
''', "a label of printable characters with a backslash or quote in it", "Two different labels are shown alike.")

seed("C04-lenient-txt", "C04", {R: [("            entries.push(dec.r.read_character_string()?.into());\n", "            match dec.r.read_character_string() {\n                Ok(entry) => entries.push(entry.into()),\n                Err(_) if !entries.is_empty() => break,\n                Err(e) => return Err(e),\n            }\n")]},
'''
use uwuhi::packet::decoder::MessageDecoder;
fn main() {
    let mut m = vec![0u8; 12];
    m[2] = 0x80;
    m[7] = 1;
    m.extend([0, 0, 16, 0, 1, 0, 0, 0, 0, 0, 4, 1, b'a', 9, b'b']);
    let mut d = MessageDecoder::new(&m).unwrap().answers().unwrap();
    let r = d.next().unwrap().unwrap();
    assert!(matches!(r.as_enum(), Some(Err(_))));
}
''', "a TXT record whose second or later string is cut off", "Damaged TXT data is accepted in part.")

