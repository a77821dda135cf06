//! Setting sockets up when the operating system refuses some step.
use crate::adv::{labels, name_of};
use crate::disc::group;
use crate::net::*;
use crate::res::{from, good, server};
use crate::rt::*;
use std::io;
use std::net::{IpAddr, SocketAddr};
use std::time::Duration;
use uwuhi::name::Label;
use uwuhi::resolver::SyncResolver;
use uwuhi::service::advertising::SyncAdvertiser;
use uwuhi::service::discovery::SyncDiscoverer;
use uwuhi::tap::SyncTap;
use uwuhi_async::resolver::AsyncResolver;
use uwuhi_async::service::advertising::AsyncAdvertiser;
use uwuhi_async::service::discovery::AsyncDiscoverer;

/// Any error number that the kernel may give.
fn any_error() -> i32 {
    let e = u8_() as i32;
    assume((e > 0) & (e < 134));
    e
}

/// What is made, dropped again when it could be made.
fn make(what: usize) -> io::Result<()> {
    let v6 = SocketAddr::new(IpAddr::from([0x20u8, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1]), 53);
    let local = || name_of(&labels(&[b"local"]));
    let (h, a) = (Label::new("h"), IpAddr::from([10, 0, 0, 1]));
    match what {
        0 => SyncResolver::new(server()).map(drop),
        1 => SyncResolver::new(v6).map(drop),
        2 => SyncResolver::new_multicast_v4().map(drop),
        3 => SyncResolver::new_multicast_v6().map(drop),
        4 => SyncDiscoverer::new(v6, local()).map(drop),
        5 => SyncDiscoverer::new(group(), local()).map(drop),
        6 => SyncDiscoverer::new_multicast_v4().map(drop),
        7 => run(AsyncResolver::new(server())).map(drop),
        8 => run(AsyncResolver::new(v6)).map(drop),
        9 => run(AsyncResolver::new_multicast_v4()).map(drop),
        10 => run(AsyncResolver::new_multicast_v6()).map(drop),
        11 => run(AsyncDiscoverer::new(v6, local())).map(drop),
        12 => run(AsyncDiscoverer::new_multicast_v4()).map(drop),
        // these listen until their socket fails
        13 => SyncAdvertiser::new(h, a).and_then(|mut a| a.listen_blocking()),
        14 => AsyncAdvertiser::new(h, a).and_then(|mut a| run(a.listen())),
        _ => SyncTap::new().and_then(|t| t.listen()),
    }
}

fn closed() {
    for s in &net().socks {
        check(!s.open, "no socket is left open");
    }
}

/// The error that ends listening.
const LAST: i32 = 1000;

harness! {
    /// Each step of making each thing fails, in any way.
    fn su_make() {
        let what = choose(16);
        let e = any_error();
        script(vec![fail(LAST)]);
        net().broken = Some((choose(6), e));
        let r = make(what);
        if net().broke {
            match r {
                Ok(()) => check(false, "a failed step is reported"),
                Err(x) => check(x.raw_os_error() == Some(e), "error of the failed step"),
            }
            reach("failed");
            check(net().waits.is_empty(), "nothing is received with a socket that is not set up");
        } else {
            match r {
                Ok(()) => check(what < 13, "listening ends with its socket only"),
                Err(x) => check(what >= 13 && x.raw_os_error() == Some(LAST), "what can be set up is"),
            }
            check(net().socks.len() == 1, "one socket is used");
            if what < 13 {
                match net().socks[0].bound {
                    Some(b) => {
                        check(b.port == 0, "the system chooses the port");
                        for x in b.ip {
                            check(x == 0, "every interface is used");
                        }
                    }
                    None => {}
                }
            }
            reach("made");
        }
        check(net().sent.is_empty(), "nothing is sent");
        closed();
    }

    /// A timeout that the system refuses is reported, and the one before stays in force.
    fn su_timeout() {
        let old: u64 = 250_000;
        let refused = choose(2) == 1;
        let e = any_error();
        script(vec![quiet()]);
        let t = Duration::from_micros(if refused { 77_000 } else { 0 });
        let bad = |r: io::Result<()>| match r {
            Ok(()) => check(false, "a refused timeout is reported"),
            Err(x) if refused => check(x.raw_os_error() == Some(e), "error of the failed step"),
            Err(_) => {}
        };
        if choose(2) == 0 {
            let mut r = match SyncResolver::new(server()) {
                Ok(r) => r,
                Err(_) => return check(false, "a resolver can be made"),
            };
            check(r.set_timeout(Duration::from_micros(old)).is_ok(), "a timeout can be set");
            if refused {
                net().broken = Some((net().steps, e));
            }
            bad(r.set_timeout(t));
            check(r.resolve_domain(&name_of(&labels(&[b"a"]))).map(|i| i.count()).is_err(), "the lookup times out");
        } else {
            let mut d = match SyncDiscoverer::new_multicast_v4() {
                Ok(d) => d,
                Err(_) => return check(false, "a discoverer can be made"),
            };
            check(d.set_retransmit_timeout(Duration::from_micros(old)).is_ok(), "a timeout can be set");
            if refused {
                net().broken = Some((net().steps, e));
            }
            bad(d.set_retransmit_timeout(t));
            check(d.set_discovery_timeout(Duration::from_micros(1)).is_ok(), "a timeout can be set");
            check(d.discover_service_types(|_| core::ops::ControlFlow::Continue(())).is_ok(), "browsing ends");
        }
        for w in &net().waits {
            check(*w == old, "the timeout stays");
        }
        check(!net().waits.is_empty(), "something is awaited");
        closed();
        reach("refused");
    }

    /// Sockets are closed with what they belong to, also after a call.
    fn su_drop() {
        script(vec![data(good(), from()), fail(LAST)]);
        let what = choose(4);
        let n = name_of(&labels(&[b"a"]));
        let go = |_: &uwuhi::service::Service| core::ops::ControlFlow::Continue(());
        match what {
            0 => drop(SyncResolver::new(server()).map(|mut r| r.resolve_domain(&n).map(|i| i.count()).is_ok())),
            1 => drop(run(AsyncResolver::new(server())).map(|mut r| run(r.resolve_domain(&n)).map(|i| i.count()).is_ok())),
            2 => drop(SyncDiscoverer::new_multicast_v4().map(|mut d| d.discover_service_types(go).is_ok())),
            _ => drop(run(AsyncDiscoverer::new_multicast_v4()).map(|mut d| run(d.discover_service_types(go)).is_ok())),
        }
        check(net().sent.len() >= 1, "something was asked");
        closed();
        reach("closed");
    }
}
