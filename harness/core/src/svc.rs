//! Services, instances and their metadata.
use crate::adv::{labels, name_of, Labels, Q};
use crate::rt::*;
use crate::text::Text;
use core::cmp::Ordering;
use core::fmt::Write;
use uwuhi::name::Label;
use uwuhi::packet::decoder::MessageDecoder;
use uwuhi::packet::records::{Record, PTR, SRV, TXT};
use uwuhi::service::advertising::Advertiser;
use uwuhi::service::*;
use uwuhi::Error;

/// Labels of arbitrary bytes, `lens` giving their lengths.
fn any_labels(lens: &[usize]) -> Labels {
    let mut l = vec![];
    for &n in lens {
        let mut b = [0u8; 63];
        fill(&mut b[..n]);
        l.push(b[..n].to_vec());
    }
    l
}

/// The transport a label stands for.
fn transport(l: &[u8]) -> Option<ServiceTransport> {
    if eq_bytes(l, b"_tcp") {
        Some(ServiceTransport::TCP)
    } else if eq_bytes(l, b"_udp") {
        Some(ServiceTransport::Other)
    } else {
        None
    }
}

/// A small hasher.
struct Fold(u64);
impl core::hash::Hasher for Fold {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = self.0.rotate_left(5) ^ x as u64;
        }
    }
}
fn hash(x: &impl core::hash::Hash) -> u64 {
    let mut f = Fold(7);
    x.hash(&mut f);
    core::hash::Hasher::finish(&f)
}

fn instance(l: &Labels, t: ServiceTransport) -> ServiceInstance {
    ServiceInstance::new(Label::new(&l[0]), Label::new(&l[1]), t)
}

/// An instance with names of one or two arbitrary bytes.
fn some_instance() -> (Labels, bool, ServiceInstance) {
    let mut l = any_labels(&[1 + choose(2), choose(3)]);
    l[1].insert(0, b'_');
    let tcp = choose(2) == 0;
    let i = instance(&l, if tcp { ServiceTransport::TCP } else { ServiceTransport::Other });
    (l, tcp, i)
}

fn value<'a>(v: &TxtRecordValue<'a>) -> Option<&'a [u8]> {
    match v {
        TxtRecordValue::NoValue => None,
        TxtRecordValue::Value(v) => Some(v),
    }
}

fn same_value(a: Option<&[u8]>, b: Option<&[u8]>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => eq_bytes(a, b),
        _ => false,
    }
}

/// Key and value of a metadata string.
fn split(s: &[u8]) -> (&[u8], Option<&[u8]>) {
    for i in 0..s.len() {
        if s[i] == b'=' {
            return (&s[..i], Some(&s[i + 1..]));
        }
    }
    (s, None)
}

fn upper(s: &str) -> String {
    s.chars().map(|c| c.to_ascii_uppercase()).collect()
}
pub fn same_key(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let lo = |c: u8| c | ((c.wrapping_sub(b'A') < 26) as u8) << 5;
    let mut d = 0;
    for i in 0..a.len() {
        d |= lo(a[i]) ^ lo(b[i]);
    }
    d == 0
}

/// Checks `t` against the strings it was made of.
pub fn metadata(t: &TxtRecords, strings: &[Vec<u8>]) {
    let mut want: Vec<(&[u8], Option<&[u8]>)> = vec![];
    for s in strings {
        let (k, v) = split(s);
        if k.is_empty() || core::str::from_utf8(k).is_err() {
            reach("ignored string");
            continue;
        }
        let mut dup = false;
        for w in &want {
            if same_key(w.0, k) {
                dup = true;
            }
        }
        if dup {
            reach("repeated key");
            continue;
        }
        want.push((k, v));
    }
    check(t.is_empty() == want.is_empty(), "emptiness of metadata");
    check(t.iter().count() == want.len(), "number of keys");
    for (k, v) in &want {
        let k = core::str::from_utf8(k).unwrap();
        for q in [k.to_string(), upper(k), k.to_ascii_lowercase()] {
            match t.get(&q) {
                Some(got) => check(same_value(value(&got), *v), "value of a key"),
                None => check(false, "key is missing"),
            }
        }
        let mut seen = 0;
        for (kk, vv) in t.iter() {
            if eq_bytes(kk.as_bytes(), k.as_bytes()) {
                seen += 1;
                check(same_value(value(&vv), *v), "listed value");
            }
        }
        check(seen == 1, "key is listed once, as it was written");
        reach(if v.is_some() { "value" } else { "flag" });
    }
    check(t.get("").is_none(), "no key is empty");
}

/// The number of different keys of strings that all have one.
fn want_keys(v: &[Vec<u8>]) -> usize {
    let mut n = 0;
    for i in 0..v.len() {
        let mut dup = false;
        for j in 0..i {
            if same_key(split(&v[i]).0, split(&v[j]).0) {
                dup = true;
            }
        }
        n += !dup as usize;
    }
    n
}

fn txt(strings: &[Vec<u8>]) -> TXT<'static> {
    TXT::new(strings.to_vec())
}

/// `n` strings in one of several layouts, keys being ASCII.
fn strings(n: usize) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for _ in 0..n {
        let b = bytes::<3>();
        assume((b[0] < 128) & (b[1] < 128));
        v.push(match choose(4) {
            0 => b[..1].to_vec(),
            1 => vec![b[0], b'=', b[2]],
            2 => vec![b[0], b[1]],
            _ => vec![b[0], b[1], b'='],
        });
    }
    v
}

harness! {
    fn svc_type() {
        let shapes: [&[usize]; 14] = [&[2, 4, 1, 1, 1], &[2, 4, 1, 1, 1, 1, 1], &[1, 4, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1], &[1, 4, 63, 63, 63], &[], &[2], &[2, 4], &[2, 4, 1], &[2, 3, 1], &[2, 5, 1], &[1, 4, 5, 1], &[4, 4, 4], &[63, 4, 1], &[2, 4, 2, 4, 1]];
        let l = any_labels(shapes[choose(14)]);
        let r = Service::from_ptr(PTR::new(name_of(&l)));
        if l.len() < 3 {
            check(matches!(r, Err(Error::Eof)), "type with labels missing");
            reach("labels missing");
            return;
        }
        match (transport(&l[1]), r) {
            (None, Err(e)) => {
                check(e == Error::InvalidValue, "error for an unknown transport");
                reach("unknown transport");
            }
            (Some(t), Ok(s)) => {
                check_bytes(s.name().as_bytes(), &l[0], "name of a type");
                check(s.transport() == t, "transport of a type");
                reach("type");
            }
            _ => check(false, "a type is found exactly when the transport is known"),
        }
    }

    fn svc_instance() {
        let shapes: [&[usize]; 15] = [&[1, 2, 4, 1, 1, 1], &[1, 2, 4, 1, 1, 1, 1, 1], &[1, 1, 4, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1], &[1, 1, 4, 63, 63, 63], &[], &[2], &[2, 4], &[1, 2, 4], &[1, 2, 4, 1], &[2, 2, 3, 1], &[2, 2, 5, 1], &[1, 4, 4, 5, 1], &[4, 4, 4, 4], &[63, 63, 4, 1], &[2, 4, 2, 4, 1]];
        let l = any_labels(shapes[choose(15)]);
        let r = ServiceInstance::from_ptr(PTR::new(name_of(&l)));
        if l.len() < 4 {
            check(matches!(r, Err(Error::Eof)), "instance with labels missing");
            reach("labels missing");
            return;
        }
        match (transport(&l[2]), r) {
            (None, Err(e)) => {
                check(e == Error::InvalidValue, "error for an unknown transport");
                reach("unknown transport");
            }
            (Some(t), Ok(s)) => {
                check_bytes(s.instance_name().as_bytes(), &l[0], "name of an instance");
                check_bytes(s.service_name().as_bytes(), &l[1], "service of an instance");
                check_bytes(s.service().name().as_bytes(), &l[1], "service of an instance");
                check(s.service_transport() == t && s.service().transport() == t, "transport of an instance");
                reach("instance");
            }
            _ => check(false, "an instance is found exactly when the transport is known"),
        }
    }

    /// The constructors insist on the underscore and keep what they are given.
    fn svc_new() {
        let l = any_labels(&[1 + choose(2), 1 + choose(3)]);
        let t = if choose(2) == 0 { ServiceTransport::TCP } else { ServiceTransport::Other };
        let ok = l[1][0] == b'_';
        let how = choose(3);
        allow_panic(!ok);
        let i = match how {
            0 => instance(&l, t),
            1 => ServiceInstance::from_service(Label::new(&l[0]), Service::new(Label::new(&l[1]), t)),
            _ => {
                let s = Service::new(Label::new(&l[1]), t);
                allow_panic(false);
                check(ok, "a service name without underscore is refused");
                check_bytes(s.name().as_bytes(), &l[1], "service name");
                check(s.transport() == t, "transport");
                reach("service");
                return;
            }
        };
        allow_panic(false);
        check(ok, "a service name without underscore is refused");
        check_bytes(i.instance_name().as_bytes(), &l[0], "instance name");
        check_bytes(i.service_name().as_bytes(), &l[1], "service name");
        check(i.service_transport() == t, "transport");
        reach("instance");
    }

    /// Equality and order are those of the parts.
    fn svc_order() {
        let (a, ta, x) = some_instance();
        let (b, tb, y) = some_instance();
        let same = (ta == tb) & eq_bytes(&a[0], &b[0]) & eq_bytes(&a[1], &b[1]);
        check((x == y) == same, "equality of instances");
        check((x.cmp(&y) == Ordering::Equal) == same, "order of instances agrees with equality");
        check(x.cmp(&y) == y.cmp(&x).reverse(), "order of instances is antisymmetric");
        let same = (ta == tb) & eq_bytes(&a[1], &b[1]);
        check((x.service() == y.service()) == same, "equality of services");
        check((x.service().cmp(y.service()) == Ordering::Equal) == same, "order of services agrees with equality");
        reach(if same { "same service" } else { "other service" });
    }

    /// The order of three instances is transitive.
    fn svc_order3() {
        let mut v = vec![];
        for _ in 0..3 {
            let mut l = any_labels(&[1, 1]);
            l[1].insert(0, b'_');
            v.push(instance(&l, if choose(2) == 0 { ServiceTransport::TCP } else { ServiceTransport::Other }));
        }
        let (a, b, c) = (&v[0], &v[1], &v[2]);
        if a <= b && b <= c {
            check(a <= c, "order of instances is transitive");
            reach("chain");
        }
    }

    /// What is equal hashes equally.
    fn svc_hash() {
        let mut l = any_labels(&[1 + choose(2), choose(3)]);
        l[1].insert(0, b'_');
        let t = if choose(2) == 0 { ServiceTransport::TCP } else { ServiceTransport::Other };
        let a = instance(&l, t);
        let b = match choose(4) {
            0 => instance(&l.clone(), t),
            1 => a.clone(),
            2 => ServiceInstance::from_service(Label::new(&l[0]), Service::new(Label::new(&l[1]), t)),
            _ => {
                let mut n = l.clone();
                n.push(if t == ServiceTransport::TCP { b"_tcp".to_vec() } else { b"_udp".to_vec() });
                n.push(b"local".to_vec());
                match ServiceInstance::from_ptr(PTR::new(name_of(&n))) {
                    Ok(i) => i,
                    Err(_) => return check(false, "an instance"),
                }
            }
        };
        check(a == b, "equal instances");
        check(hash(&a) == hash(&b), "equal instances hash equally");
        check(hash(a.service()) == hash(b.service()), "equal services hash equally");
        check(hash(a.instance_name()) == hash(b.instance_name()), "equal labels hash equally");
        check(hash(&a.service_transport()) == hash(&b.service_transport()), "equal transports hash equally");
        reach("hashed");
    }

    fn svc_show() {
        let (l, tcp, i) = some_instance();
        let tail: &[u8] = if tcp { b"._tcp" } else { b"._udp" };
        let mut want = Text::new();
        crate::text::shown(&mut want, &l[1]);
        let mut got = Text::new();
        let _ = write!(got, "{}", i.service());
        let (n, m) = (want.n, got.n);
        check(m == n + 5, "length of a shown service");
        check_bytes(&got.get()[..n], want.get(), "shown service");
        check_bytes(&got.get()[n..], tail, "shown transport");
        let mut want = Text::new();
        crate::text::shown(&mut want, &l[0]);
        let mut got2 = Text::new();
        let _ = write!(got2, "{}", i);
        let n = want.n;
        check(got2.n == n + 1 + m && got2.b[n] == b'.', "length of a shown instance");
        check_bytes(&got2.get()[..n], want.get(), "shown instance name");
        check_bytes(&got2.get()[n + 1..], got.get(), "shown service of an instance");
        reach("shown");
    }

    /// Transports as text and as labels.
    fn svc_transport() {
        let b = bytes::<5>();
        let n = choose(6);
        for i in 0..n {
            assume(b[i] < 128);
        }
        let s = core::str::from_utf8(&b[..n]).unwrap();
        match (transport(s.as_bytes()), s.parse::<ServiceTransport>()) {
            (Some(t), Ok(u)) => {
                check(t == u, "transport from text");
                check_bytes(t.to_label().as_bytes(), s.as_bytes(), "label of a transport");
                reach("known");
            }
            (None, Err(e)) => {
                check(e == Error::InvalidValue, "error for an unknown transport");
                reach("unknown");
            }
            _ => check(false, "only _tcp and _udp are transports"),
        }
    }

    /// Details taken from a service record.
    fn svc_details() {
        let l = any_labels([&[][..], &[1], &[3, 2]][choose(3)]);
        let (p, w, port) = (u16_(), u16_(), u16_());
        match InstanceDetails::from_srv(&SRV::new(p, w, port, name_of(&l))) {
            Ok(d) => {
                check(*d.host() == name_of(&l), "host of an instance");
                check(d.port() == port, "port of an instance");
                check(d.txt_records().is_empty(), "no metadata yet");
                reach("details");
            }
            Err(_) => check(false, "every SRV record gives details"),
        }
    }

    /// One string of any bytes.
    fn txt_one() {
        let b = bytes::<5>();
        let v = vec![b[..choose(6)].to_vec()];
        metadata(&TxtRecords::from_txt(&txt(&v)), &v);
    }

    /// Values with any bytes, equals signs included.
    fn txt_value() {
        let b = bytes::<6>();
        let n = choose(7);
        let mut s = b"key=".to_vec();
        s.extend_from_slice(&b[..n]);
        let v = vec![s];
        metadata(&TxtRecords::from_txt(&txt(&v)), &v);
    }

    /// Long values.
    fn txt_long() {
        let n = [0usize, 1, 100, 252, 253][choose(5)];
        let mut s = b"K=".to_vec();
        let mut b = [0u8; 253];
        fill(&mut b[..n.min(20)]);
        s.extend_from_slice(&b[..n]);
        let v = vec![s, b"k".to_vec()];
        metadata(&TxtRecords::from_txt(&txt(&v)), &v);
    }

    /// Keys of any length.
    fn txt_long_key() {
        let n = [4usize, 8, 9, 10, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 200, 253, 255][choose(17)];
        let mut k = vec![b'k'; n];
        let c = u8_();
        assume((c < 128) & (c != b'='));
        k[[0, n / 2, n - 1][choose(3)]] = c;
        let mut v = vec![k.clone()];
        if n < 254 && choose(2) == 1 {
            v[0].push(b'=');
            v[0].push(u8_());
        }
        if choose(2) == 1 {
            // the same key in other letters, and another key of which it is the front part
            v.push(k.to_ascii_uppercase());
            if n < 255 {
                k.push(b'x');
                v.push(k);
            }
        }
        metadata(&TxtRecords::from_txt(&txt(&v)), &v);
    }
    /// Many strings.
    fn txt_many() {
        let n = [4usize, 8, 9, 16, 17, 32, 33, 65][choose(8)];
        let at = [0, n / 2, n - 1][choose(3)];
        let mut v = vec![];
        for i in 0..n {
            if i == at {
                v.push(vec![b'k', b'=', u8_()]);
            } else {
                v.push(vec![b'a' + (i / 8) as u8, b'0' + (i % 8) as u8, [b'=', b'!'][i % 2]]);
            }
        }
        if choose(2) == 1 {
            // all of them again
            for i in 0..n {
                let mut s = v[i].to_ascii_uppercase();
                s.truncate(2);
                s.push(b'=');
                s.push(b'z');
                v.push(s);
            }
        }
        let t = TxtRecords::from_txt(&txt(&v));
        check(t.iter().count() == want_keys(&v), "number of keys");
        let (k, val) = split(&v[at]);
        match t.get(core::str::from_utf8(k).unwrap()) {
            Some(got) => check(same_value(value(&got), val), "value of a key"),
            None => check(false, "key is missing"),
        }
        let (k, val) = split(&v[n - 1]);
        match t.get(core::str::from_utf8(k).unwrap()) {
            Some(got) => check(same_value(value(&got), val), "value of the last key"),
            None => check(false, "key is missing"),
        }
        reach("many");
    }

    fn txt_two() {
        let v = strings(2);
        metadata(&TxtRecords::from_txt(&txt(&v)), &v);
    }

    /// Three strings, keys of one letter or none.
    fn txt_three() {
        let mut v: Vec<Vec<u8>> = vec![];
        for _ in 0..3 {
            let b = bytes::<2>();
            assume(b[0] < 128);
            v.push(match choose(3) {
                0 => vec![b[0]],
                1 => vec![b[0], b'=', b[1]],
                _ => vec![],
            });
        }
        metadata(&TxtRecords::from_txt(&txt(&v)), &v);
    }

    /// Flags that are added, also over existing keys.
    fn txt_flag() {
        let b = bytes::<2>();
        assume((b[0] < 128) & (b[1] < 128));
        let k = core::str::from_utf8(&b[..1 + choose(2)]).unwrap();
        let mut t = if choose(2) == 0 { TxtRecords::new() } else { TxtRecords::from_txt(&txt(&[b"a=b".to_vec(), b"Z".to_vec()])) };
        let before = t.iter().count();
        let had = t.get(k).is_some();
        t.add_flag(k.to_string());
        check(!t.is_empty(), "emptiness of metadata");
        check(t.iter().count() == before + !had as usize, "number of keys");
        check(matches!(t.get(k), Some(TxtRecordValue::NoValue)), "added flag");
        check(matches!(t.get(&upper(k)), Some(TxtRecordValue::NoValue)), "added flag in capitals");
        if before > 0 && !same_key(k.as_bytes(), b"a") {
            check(matches!(t.get("a"), Some(TxtRecordValue::Value(b"b"))), "other keys stay");
        }
        reach(if had { "replaced" } else { "added" });
    }

    /// How metadata is shown.
    fn txt_show() {
        let b = bytes::<2>();
        assume((b[0] < 128) & (b[0] != b'=') & (b[0] != 0));
        let how = choose(3);
        let v = vec![match how {
            0 => vec![b[0]],
            1 => vec![b[0], b'='],
            _ => vec![b[0], b'=', b[1]],
        }];
        let t = TxtRecords::from_txt(&txt(&v));
        let mut want = Text::new();
        want.put(b[0]);
        if how > 0 {
            want.put(b'=');
        }
        if how == 2 {
            crate::text::shown(&mut want, &b[1..]);
        }
        let mut got = Text::new();
        let _ = write!(got, "{}", t);
        check_bytes(got.get(), want.get(), "shown metadata");
        reach("shown");
    }

    /// Metadata survives being advertised.
    fn txt_advertised() {
        let n = choose(3);
        let v = strings(n);
        let t = if n == 0 { TxtRecords::new() } else { TxtRecords::from_txt(&txt(&v)) };
        let mut d = InstanceDetails::new(name_of(&labels(&[b"h"])), 1);
        *d.txt_records_mut() = t;
        let mut a = match Advertiser::new(Label::new("h"), std::net::IpAddr::from([1, 2, 3, 4])) {
            Ok(a) => a,
            Err(_) => return check(false, "an advertiser can be made"),
        };
        a.add_instance(ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP), d);
        let q = [Q { name: labels(&[b"i", b"_s", b"_tcp", b"local"]), ty: 16, class: 1 }];
        let r = match a.handle_packet(&crate::adv::query(1, 0, &q)) {
            Ok(Some(r)) => r,
            _ => return check(false, "the TXT record is returned"),
        };
        let mut dec = match MessageDecoder::new(r).and_then(|d| d.answers()) {
            Ok(d) => d,
            Err(_) => return check(false, "the answer can be read"),
        };
        let rr = dec.next();
        match rr.as_ref().map(|r| r.as_ref().map(|r| r.as_enum())) {
            Some(Ok(Some(Ok(Record::TXT(t))))) => {
                check(t.entries().count() > 0, "a TXT record holds at least one string");
                metadata(&TxtRecords::from_txt(&t), &v)
            }
            _ => check(false, "the answer can be read"),
        }
        reach("advertised");
    }
}
