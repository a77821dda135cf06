exec(open("/verif/tools/seeds/e.py").read().split('LOGGER')[0])

seed("C19-hoisted", "C19", {AR: [("        loop {\n            let mut recv_buf = [0; DNS_BUFFER_SIZE];\n            let timeout = async {\n                Timer::after(self.timeout).await;\n                Err(io::ErrorKind::TimedOut.into())\n            };\n            let (b, addr) = future::or(self.sock.recv_from(&mut recv_buf), timeout).await?;\n", "        let mut timer = Timer::after(self.timeout);\n        loop {\n            let mut recv_buf = [0; DNS_BUFFER_SIZE];\n            let timeout = async {\n                (&mut timer).await;\n                Err(io::ErrorKind::TimedOut.into())\n            };\n            let (b, addr) = future::or(self.sock.recv_from(&mut recv_buf), timeout).await?;\n")]}, MSG + '''
use std::{net::*, time::*};
use uwuhi_async::resolver::AsyncResolver;
fn main() {
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let a = s.local_addr().unwrap();
    std::thread::spawn(move || {
        let mut b = [0; 1500];
        let (_, from) = s.recv_from(&mut b).unwrap();
        let mut m = head(12345, 0x8180, 0, 1);
        rr(&mut m, "a", 1, &[1, 2, 3, 4]);
        std::thread::sleep(Duration::from_millis(600));
        s.send_to(&[1, 2, 3], from).unwrap();
        std::thread::sleep(Duration::from_millis(600));
        s.send_to(&m, from).unwrap();
    });
    futures_lite::future::block_on(async {
        let mut r = AsyncResolver::new(a).await.unwrap();
        r.set_timeout(Duration::from_millis(1000)).unwrap();
        assert_eq!(r.resolve("a").await.unwrap().count(), 1);
    });
}
''', "a datagram that is no answer, and an answer within a timeout of it but not of the query", "The async lookup has timed out by then: its timeout is no longer that of a single receive.", ASYNC)

seed("C23-swallowed", "C23", {N: [("impl fmt::Display for DomainName {\n    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {\n        if self.labels.is_empty() {\n            return f.write_char('.');\n        }\n        for label in &self.labels {\n            label.fmt(f)?;\n            f.write_char('.')?;\n        }\n        Ok(())", "impl fmt::Display for DomainName {\n    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {\n        if self.labels.is_empty() {\n            return f.write_char('.');\n        }\n        for label in &self.labels {\n            if label.fmt(f).and_then(|()| f.write_char('.')).is_err() {\n                break;\n            }\n        }\n        Ok(())")]}, '''
use std::io::Write;
use uwuhi::name::DomainName;
fn main() {
    let n: DomainName = "abc.def".parse().unwrap();
    let mut room = [0u8; 5];
    assert!(write!(&mut room[..], "{}", n).is_err());
}
''', "writing a name where there is not enough room", "The text is cut short and nobody is told.")

seed("C19-borrowed-domain", "C19", {AD: [("        domain.extend(&self.domain);\n\n        let mut instances = BTreeMap::new();\n        self.send_query(", "        let base = std::mem::replace(&mut self.domain, DomainName::ROOT);\n        domain.extend(&base);\n\n        let mut instances = BTreeMap::new();\n        let res = self.send_query("), ("                Entry::Occupied(_) => {\n                    // Already discovered this instance\n                    ControlFlow::Continue(())\n                }\n            }\n        })\n        .await\n", "                Entry::Occupied(_) => {\n                    // Already discovered this instance\n                    ControlFlow::Continue(())\n                }\n            }\n        })\n        .await;\n        self.domain = base;\n        res\n")]}, MSG + '''
use std::{ops::ControlFlow, time::*};
use uwuhi::{name::*, service::*};
use uwuhi_async::service::discovery::AsyncDiscoverer;
fn main() {
    let (a, rx) = server(vec![vec![], vec![]]);
    futures_lite::future::block_on(async {
        let s = Service::new(Label::new("_s"), ServiceTransport::TCP);
        let mut d = AsyncDiscoverer::new(a, DomainName::from_str("local").unwrap()).await.unwrap();
        d.set_discovery_timeout(Duration::from_millis(100)).unwrap();
        d.set_retransmit_timeout(Duration::from_millis(100)).unwrap();
        futures_lite::future::or(async { let _ = d.discover_instances(&s, |_| ControlFlow::Continue(())).await; }, async {
            for _ in 0..3 { futures_lite::future::yield_now().await; }
        }).await;
        let _ = d.discover_instances(&s, |_| ControlFlow::Continue(())).await;
    });
    let (p, q) = (rx.recv().unwrap(), rx.recv().unwrap());
    assert_eq!(p, q);
}
''', "a discovery that is dropped before its end", "The discoverer has no domain any more and asks for other names.", ASYNC)

seed("C21-taken", "C21", {AA: [("    adv: Advertiser,\n    sock", "    adv: Option<Advertiser>,\n    sock"), ("            adv,\n", "            adv: Some(adv),\n"), ("        self.adv.add_name(", "        self.adv_mut().add_name("), ("        self.adv.add_instance(", "        self.adv_mut().add_instance("), ("    /// Listens for and", "    fn adv_mut(&mut self) -> &mut Advertiser {\n        self.adv.as_mut().expect(\"advertiser is listening\")\n    }\n\n    /// Listens for and"), ("    pub async fn listen(&mut self) -> io::Result<()> {\n", "    pub async fn listen(&mut self) -> io::Result<()> {\n        // The loop works on an advertiser of its own, so that the socket can be used next to it.\n        let mut adv = self.adv.take().expect(\"advertiser is listening\");\n        let res = self.serve(&mut adv).await;\n        self.adv = Some(adv);\n        res\n    }\n\n    async fn serve(&mut self, adv: &mut Advertiser) -> io::Result<()> {\n"), ("match self.adv.handle_packet", "match adv.handle_packet")]}, '''
use uwuhi::{name::Label, MDNS_BUFFER_SIZE};
use uwuhi_async::service::advertising::AsyncAdvertiser;
fn main() {
    let _ = MDNS_BUFFER_SIZE;
    futures_lite::future::block_on(async {
        let mut a = AsyncAdvertiser::new(Label::new("h"), "10.0.0.1".parse().unwrap()).unwrap();
        for _ in 0..2 {
            futures_lite::future::or(async { let _ = a.listen().await; }, futures_lite::future::yield_now()).await;
        }
        a.add_name(Label::new("i"), "10.0.0.2".parse().unwrap());
    });
}
''', "listening that is dropped, as in a select, and started again", "Nothing can be registered or answered any more: it panics.", ASYNC)
