//! N01: where a request is sent follows from the URI and the DNS as RFC 3263 says.
use h_dns::*;
use hickory_resolver::config::{ConnectionConfig, NameServerConfig, ResolveHosts, ResolverConfig, ResolverOpts};
use sip_core::SipUri;
use sip_dns::{DnsTarget, Resolver, SipResolver, Transport};
use std::cell::RefCell;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::time::{Duration, Instant};
use vmon::{Ctx, Rec, Rng};

struct World {
    server: Server,
    rt: tokio::runtime::Runtime,
    with: SipResolver,
    without: SipResolver,
    next: u64,
}

fn resolver(s: &Server, cache: u64, retry: Duration) -> SipResolver {
    let mut udp = ConnectionConfig::udp();
    udp.port = s.addr.port();
    let mut ns = NameServerConfig::udp(s.addr.ip());
    ns.connections = vec![udp];
    let mut c = ResolverConfig::udp_and_tcp(&hickory_resolver::config::GOOGLE);
    c.name_servers = vec![ns];
    let mut o = ResolverOpts::default();
    o.use_hosts_file = ResolveHosts::Never;
    o.cache_size = cache;
    o.timeout = retry;
    o.attempts = 8;
    SipResolver::with_config(c, o).unwrap()
}

impl World {
    fn new() -> World {
        let server = serve();
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let _g = rt.enter();
        let long = Duration::from_secs(60);
        let with = resolver(&server, 64, Duration::from_secs(3)).with_query_timeout(long);
        let without = resolver(&server, 64, Duration::from_secs(3)).disable_naptr().with_query_timeout(long);
        drop(_g);
        World { server, rt, with, without, next: 0 }
    }
}

thread_local! {
    static W: RefCell<Option<World>> = const { RefCell::new(None) };
}

fn world<T>(f: impl FnOnce(&mut World) -> T) -> T {
    W.with(|w| f(w.borrow_mut().get_or_insert_with(World::new)))
}

fn transport(s: &str) -> Transport {
    match s {
        "tcp" => Transport::Tcp,
        "tls" => Transport::Tls,
        "ws" => Transport::Ws,
        "wss" => Transport::Wss,
        "sctp" => Transport::Sctp,
        "tls-sctp" => Transport::TlsSctp,
        _ => Transport::Udp,
    }
}

/// The owner name of the SRV records for a transport.
fn owner(t: Transport, host: &str) -> String {
    let p = match t {
        Transport::Udp => "_sip._udp",
        Transport::Tcp => "_sip._tcp",
        Transport::Tls => "_sips._tcp",
        Transport::Sctp => "_sip._sctp",
        Transport::TlsSctp => "_sips._sctp",
        Transport::Ws => "_sip._ws",
        Transport::Wss => "_sips._wss",
    };
    format!("{p}.{host}")
}

type Out = (String, u16, Transport, u16, Option<String>);

fn out(t: &DnsTarget) -> Out {
    (t.host().to_string(), t.port(), t.transport(), t.priority(), t.tls_name().map(|s| s.to_string()))
}

fn ip4(r: &mut Rng) -> Ipv4Addr {
    Ipv4Addr::from(r.u32() & 0x7fff_ffff | 0x0100_0000)
}
fn ip6(r: &mut Rng) -> Ipv6Addr {
    Ipv6Addr::new(0x2001, 0xdb8, r.u32() as u16, 0, 0, 0, r.u32() as u16, r.u32() as u16 | 1)
}

fn srvs(r: &mut Rng, z: &mut Zone, name: &str, hi: usize, dots: bool) -> Vec<Rr> {
    let mut v = vec![];
    for _ in 0..r.below(hi + 1) {
        let target = if dots && r.chance(1, 12) { ".".to_string() } else { format!("s{}.example.net", r.below(1000)) };
        let rr = Rr::Srv { prio: *r.pick(&[0, 1, 10, 10, 20, 65535]), weight: *r.pick(&[0, 0, 1, 10, 100, 65535]), port: *r.pick(&[5060, 5061, 0, 65535, 5070]), target };
        if v.contains(&rr) {
            continue;
        }
        z.add(name, rr.clone());
        v.push(rr);
    }
    v
}

/// `got` begins with the records of one SRV set in an order RFC 2782 allows;
/// returns how many they are.
fn srv_block(got: &[Out], set: &[Rr], t: Transport) -> Result<usize, String> {
    let mut want: Vec<Out> = set
        .iter()
        .filter_map(|r| match r {
            Rr::Srv { prio, port, target, .. } if target != "." => Some((target.clone(), *port, t, *prio, None)),
            _ => None,
        })
        .collect();
    if got.len() < want.len() {
        return Err(format!("too few: {} for {}", got.len(), want.len()));
    }
    let n = want.len();
    let part = &got[..n];
    if part.windows(2).any(|w| w[0].3 > w[1].3) {
        return Err(format!("priorities out of order: {part:?}"));
    }
    let mut have = part.to_vec();
    have.sort();
    want.sort();
    if have != want {
        return Err(format!("got {have:?} want {want:?}"));
    }
    Ok(n)
}

fn uris(r: &mut Rng, rec: &mut Rec) {
    world(|w| uri(r, rec, w));
}

fn uri(r: &mut Rng, rec: &mut Rec, w: &mut World) {
    w.next += 1;
    let id = w.next;
    let sips = r.chance(1, 3);
    let scheme = if sips { "sips" } else { "sip" };
    let param = match r.below(10) {
        0..=3 => None,
        4 => Some("udp"),
        5 => Some("tcp"),
        6 => Some("tls"),
        7 => Some("sctp"),
        8 => Some("tls-sctp"),
        _ => Some(*r.pick(&["ws", "wss"])),
    };
    let web = matches!(param, Some("ws") | Some("wss"));
    let up = r.coin();
    let ptext = param.map(|p| format!(";transport={}", if up { p.to_uppercase() } else { p.into() })).unwrap_or_default();
    let port = if r.chance(1, 4) { Some(*r.pick(&[5060u16, 5061, 5080, 1, 65535])) } else { None };
    let numeric = r.chance(1, 6);
    let v6 = numeric && r.coin();
    let host = if v6 {
        ip6(r).to_string()
    } else if numeric {
        ip4(r).to_string()
    } else {
        format!("{}h{id}.example.org", if r.coin() { "Sub." } else { "" })
    };
    let user = if r.coin() { "alice@" } else { "" };
    let pt = port.map(|p| format!(":{p}")).unwrap_or_default();
    let text = format!("{scheme}:{user}{}{pt}{ptext}{}", if v6 { format!("[{host}]") } else { host.clone() }, if r.coin() { ";lr" } else { "" });
    let u = match SipUri::parse(&text) {
        Ok(u) => u,
        Err(e) => {
            rec.violate("URI refused", format!("{text}: {e}"));
            return;
        }
    };
    let host = host.to_ascii_lowercase();
    let own = if sips { Transport::Tls } else { param.map(transport).unwrap_or(Transport::Udp) };
    let default_port = if matches!(own, Transport::Tls | Transport::TlsSctp) { 5061 } else { 5060 };
    // What the DNS holds.
    let mut z = w.server.zone.lock().unwrap();
    *z = Zone::default();
    let mut ips: Vec<IpAddr> = vec![];
    for _ in 0..*r.pick(&[0usize, 1, 1, 2, 5]) {
        let a = ip4(r);
        z.add(&host, Rr::A(a));
        ips.push(a.into());
    }
    for _ in 0..*r.pick(&[0usize, 0, 1, 2, 4]) {
        let a = ip6(r);
        z.add(&host, Rr::Aaaa(a));
        ips.push(a.into());
    }
    ips.sort();
    ips.dedup();
    let mut sets: Vec<(String, Vec<Rr>)> = vec![];
    let mut dots = false;
    let big = r.chance(1, 40);
    for t in [Transport::Udp, Transport::Tcp, Transport::Tls, Transport::Sctp, Transport::TlsSctp] {
        if r.chance(3, 5) {
            let n = owner(t, &host);
            let some_dots = r.chance(1, 6);
            let v = srvs(r, &mut z, &n, if big { 26 } else { 6 }, some_dots);
            dots |= v.iter().any(|x| matches!(x, Rr::Srv { target, .. } if target == "."));
            sets.push((n, v));
        }
    }
    // Elsewhere: what a NAPTR record may point to.
    let elsewhere = format!("_sip._udp.other{id}.example.com");
    let v = srvs(r, &mut z, &elsewhere, 5, false);
    sets.push((elsewhere.clone(), v));
    for t in [Transport::Udp, Transport::Tcp, Transport::Tls, Transport::Sctp, Transport::TlsSctp] {
        if r.chance(1, 3) {
            let n = owner(t, &format!("plain{id}.example.com"));
            let v = srvs(r, &mut z, &n, 4, false);
            sets.push((n, v));
        }
    }
    let mut naptr: Vec<(u16, u16, Transport, String)> = vec![];
    let mut used = std::collections::HashSet::new();
    for _ in 0..if r.chance(2, 5) { 0 } else { r.below(7) } {
        let (order, pref) = (*r.pick(&[0u16, 1, 10, 50, 65535]), *r.pick(&[0u16, 1, 10, 50, 65535]));
        if !used.insert((order, pref)) {
            continue;
        }
        let (service, t) = match r.below(9) {
            0 => ("SIP+D2U", Some(Transport::Udp)),
            1 => ("SIP+D2T", Some(Transport::Tcp)),
            2 => ("SIPS+D2T", Some(Transport::Tls)),
            3 => ("SIP+D2S", Some(Transport::Sctp)),
            4 => ("SIPS+D2S", Some(Transport::TlsSctp)),
            5 => ("sip+d2u", Some(Transport::Udp)),
            6 => ("sips+d2t", Some(Transport::Tls)),
            _ => (*r.pick(&["E2U+sip", "AAA+D2T", "", "SIP+D2X", "E2U+h323"]), None),
        };
        let replacement = match r.below(8) {
            0 => ".".to_string(),
            1 => elsewhere.clone(),
            // A plain name: the service's own set at that name.
            2 => format!("plain{id}.example.com"),
            _ => t.map(|t| owner(t, &host)).unwrap_or(elsewhere.clone()),
        };
        z.add(&host, Rr::Naptr { order, pref, flags: r.pick(&["s", "S"]).to_string(), service: service.into(), regexp: "".into(), replacement: replacement.clone() });
        if let Some(t) = t {
            naptr.push((order, pref, t, replacement));
        }
    }
    let trouble = match r.below(8) {
        0 => Trouble::NxDomain,
        1 => Trouble::ServFail,
        2 => Trouble::Refused,
        _ => Trouble::None,
    };
    // A failing NAPTR query is the same as none there.
    let broken = r.coin() && trouble != Trouble::None;
    if broken {
        z.trouble.insert((host.clone(), NAPTR), trouble);
    }
    drop(z);
    let use_naptr = r.chance(4, 5);
    let desc = || format!("{text} naptr({use_naptr},{broken}) {naptr:?} srv {sets:?} addresses {ips:?}");
    rec.eval(Some(&desc()));
    let res = if use_naptr { &w.with } else { &w.without };
    let got = match vmon::catch(|| w.rt.block_on(res.resolve(&u))) {
        Ok(g) => g,
        Err(p) => {
            rec.violate("panic:resolve", format!("{} {}", p.msg, desc()));
            return;
        }
    };
    let asked = std::mem::take(&mut w.server.zone.lock().unwrap().asked);
    let got: Result<Vec<Out>, String> = got.map(|v| v.iter().map(out).collect()).map_err(|e| e.to_string());
    rec.sample(|| format!("{text} -> {got:?}"));
    let ctx = || format!("got {got:?}\nasked {asked:?}\n{}", desc());
    if numeric {
        rec.count("numeric hosts", 1);
        rec.check(got == Ok(vec![(host.clone(), port.unwrap_or(default_port), own, 0, None)]), "numeric host", ctx);
        rec.check(asked.is_empty(), "asked about a number", ctx);
        return;
    }
    let by_address = |got: &Result<Vec<Out>, String>, p: u16| -> bool {
        let Ok(v) = got else { return ips.is_empty() };
        let mut h: Vec<IpAddr> = v.iter().filter_map(|t| t.0.parse().ok()).collect();
        h.sort();
        // IPv6 is preferred, and the families take turns.
        let six = v.iter().filter(|t| t.0.contains(':')).count();
        let both = six.min(v.len() - six);
        let turns = v.iter().take(2 * both).enumerate().all(|(i, t)| t.0.contains(':') == (i % 2 == 0));
        turns && !ips.is_empty() && h == ips && v.len() == ips.len() && v.iter().all(|t| t.1 == p && t.2 == own && t.3 == 0 && t.4.as_deref() == Some(host.as_str()))
    };
    if let Some(p) = port {
        rec.count("explicit ports", 1);
        rec.check(by_address(&got, p), "explicit port", ctx);
        rec.check(asked.iter().all(|(n, t)| *n == host && (*t == A || *t == AAAA)), "asked for services in spite of a port", ctx);
        return;
    }
    if web {
        rec.count("web sockets (only the fall-back is judged)", 1);
        return;
    }
    let allowed = if sips { Some(Transport::Tls) } else { param.map(transport) };
    let mut usable: Vec<_> = naptr.iter().filter(|n| n.3 != "." && allowed.map(|a| a == n.2).unwrap_or(true)).cloned().collect();
    usable.sort_by_key(|n| (n.0, n.1));
    if !use_naptr || broken {
        usable.clear();
    }
    rec.check(use_naptr || asked.iter().all(|a| a.1 != NAPTR), "NAPTR asked though disabled", ctx);
    let find = |n: &str| sets.iter().find(|s| s.0 == n).map(|s| s.1.clone()).unwrap_or_default();
    let blocks: Vec<(Transport, Vec<Rr>)> = if !usable.is_empty() {
        usable.iter().map(|n| (n.2, find(&if n.3.starts_with('_') { n.3.clone() } else { owner(n.2, &n.3) }))).collect()
    } else {
        match allowed {
            Some(t) => vec![(t, find(&owner(t, &host)))],
            None => {
                // Which comes first is the client's choice.
                let (t, u) = (find(&owner(Transport::Tcp, &host)), find(&owner(Transport::Udp, &host)));
                let first = got.as_ref().ok().and_then(|v| v.first()).map(|t| t.2);
                if first == Some(Transport::Udp) {
                    vec![(Transport::Udp, u), (Transport::Tcp, t)]
                } else {
                    vec![(Transport::Tcp, t), (Transport::Udp, u)]
                }
            }
        }
    };
    let total: usize = blocks.iter().map(|b| b.1.iter().filter(|r| !matches!(r, Rr::Srv { target, .. } if target == ".")).count()).sum();
    if total == 0 {
        if dots {
            rec.count("service said not to be there (not judged)", 1);
            return;
        }
        rec.count(if ips.is_empty() { "nothing found" } else { "fall back to addresses" }, 1);
        rec.check(by_address(&got, default_port), "fall back", ctx);
        return;
    }
    if total > 100 {
        rec.count("too many targets", 1);
        rec.check(got.is_err(), "too many targets", ctx);
        return;
    }
    rec.count(if usable.is_empty() { "services without NAPTR" } else { "services by NAPTR" }, 1);
    let Ok(v) = &got else {
        rec.violate("services not found", ctx());
        return;
    };
    let mut at = 0;
    for (t, b) in &blocks {
        match srv_block(&v[at..], b, *t) {
            Ok(n) => at += n,
            Err(e) => {
                rec.violate("services", format!("{e}\n{}", ctx()));
                return;
            }
        }
    }
    rec.check(at == v.len(), "more than there is", ctx);
}

/// A hundred targets are as many as there may be.
fn many(r: &mut Rng, rec: &mut Rec) {
    world(|w| {
        w.next += 1;
        let host = format!("m{}.example.org", w.next);
        let total = r.range(97, 104) as usize;
        let sets = r.range(4, 6) as usize;
        {
            let mut z = w.server.zone.lock().unwrap();
            *z = Zone::default();
            for k in 0..sets {
                let n = format!("_sip._udp.{k}.{host}");
                z.add(&host, Rr::Naptr { order: k as u16, pref: 1, flags: "s".into(), service: "SIP+D2U".into(), regexp: "".into(), replacement: n.clone() });
                for i in (0..total).filter(|i| i % sets == k) {
                    z.add(&n, Rr::Srv { prio: 1, weight: 1, port: 1000 + i as u16, target: "t.example.net".into() });
                }
            }
        }
        rec.eval(Some(&(total, sets)));
        let got = w.rt.block_on(w.with.resolve(&SipUri::parse(&format!("sip:{host}")).unwrap()));
        let n = got.as_ref().ok().map(|v| v.len());
        rec.check(n == if total <= 100 { Some(total) } else { None }, "as many as there may be", || format!("{total} targets in {sets} sets: {n:?}"));
        rec.count("full answers", 1);
    })
}

/// How often each server of one priority comes first, by weight.
fn weights(r: &mut Rng, rec: &mut Rec) {
    world(|w| {
        w.next += 1;
        let host = format!("w{}.example.org", w.next);
        let n = r.range(2, 5) as usize;
        let mut ws: Vec<u16> = (0..n).map(|_| *r.pick(&[0u16, 1, 1, 2, 5, 10, 50, 100, 1000, 65535])).collect();
        if r.chance(1, 8) {
            ws.fill(0);
        }
        let later = r.coin();
        {
            let mut z = w.server.zone.lock().unwrap();
            *z = Zone::default();
            for (i, x) in ws.iter().enumerate() {
                z.add(&format!("_sip._udp.{host}"), Rr::Srv { prio: 5, weight: *x, port: 1000 + i as u16, target: format!("t{i}.example.net") });
            }
            if later {
                z.add(&format!("_sip._udp.{host}"), Rr::Srv { prio: 6, weight: 65535, port: 99, target: "later.example.net".into() });
            }
        }
        let u = SipUri::parse(&format!("sip:{host};transport=udp")).unwrap();
        let rounds = 1500u64;
        let mut first = vec![0u64; n];
        let mut last = vec![0u64; n];
        for _ in 0..rounds {
            let Ok(v) = w.rt.block_on(w.without.resolve(&u)) else {
                rec.violate("not found", host.clone());
                return;
            };
            if !rec.check(v.len() == n + later as usize && (!later || v[n].port() == 99), "set", || format!("{v:?}")) {
                return;
            }
            first[(v[0].port() - 1000) as usize] += 1;
            last[(v[n - 1].port() - 1000) as usize] += 1;
        }
        rec.eval(Some(&(&ws, later, &first)));
        rec.count("weighted choices", rounds);
        rec.sample(|| format!("weights {ws:?} chosen first {first:?} of {rounds}"));
        let total: u64 = ws.iter().map(|x| *x as u64).sum();
        for (i, x) in ws.iter().enumerate() {
            // Zero weights: equal chances among themselves, next to none beside others.
            let p = if total == 0 { 1.0 / n as f64 } else { *x as f64 / total as f64 };
            let mean = p * rounds as f64;
            let sd = (rounds as f64 * p * (1.0 - p)).sqrt();
            let slack = 7.0 * sd + 5.0 + if *x == 0 && total > 0 { rounds as f64 * 0.05 } else { rounds as f64 * 0.02 };
            rec.check((first[i] as f64 - mean).abs() <= slack, "weights", || format!("{ws:?}: server {i} first {} of {rounds}, expected about {mean:.0}", first[i]));
            // Every server gets its turn in the end.
            let _ = &last;
        }
    })
}

/// Name servers that keep silent: bounded waiting, and what is known is used.
fn silence(r: &mut Rng, rec: &mut Rec) {
    world(|w| {
        w.next += 1;
        let host = format!("q{}.example.org", w.next);
        let (n, t, u, a) = (r.coin(), r.coin(), r.coin(), r.chance(1, 3));
        {
            let mut z = w.server.zone.lock().unwrap();
            *z = Zone::default();
            for (on, k) in [(n, (host.clone(), NAPTR)), (t, (format!("_sip._tcp.{host}"), SRV)), (u, (format!("_sip._udp.{host}"), SRV)), (a, (host.clone(), A)), (a, (host.clone(), AAAA))] {
                if on {
                    z.trouble.insert(k, Trouble::Silence);
                }
            }
            z.add(&format!("_sip._udp.{host}"), Rr::Srv { prio: 5, weight: 1, port: 1234, target: "t.example.net".into() });
            z.add(&host, Rr::A(Ipv4Addr::new(192, 0, 2, 1)));
        }
        let _g = w.rt.enter();
        let wait = Duration::from_millis(300);
        let res = resolver(&w.server, 0, Duration::from_secs(5)).with_query_timeout(wait);
        drop(_g);
        let uri = SipUri::parse(&format!("sip:{host}")).unwrap();
        let start = Instant::now();
        let got = w.rt.block_on(res.resolve(&uri));
        let took = start.elapsed();
        rec.eval(Some(&(n, t, u, a)));
        rec.count("silent queries", n as u64 + t as u64 + u as u64 + a as u64);
        let got: Result<Vec<Out>, String> = got.map(|v| v.iter().map(out).collect()).map_err(|e| e.to_string());
        let ctx = || format!("silent: naptr {n} tcp {t} udp {u} address {a}; got {got:?} in {took:?}");
        let want = if !u {
            Some(("t.example.net".to_string(), 1234, Transport::Udp, 5, None))
        } else if !a {
            Some(("192.0.2.1".to_string(), 5060, Transport::Udp, 0, Some(host.clone())))
        } else {
            None
        };
        // A busy machine may lose an answer to the short wait: only then may something be missing.
        let quick = took < wait * (n as u32 + t as u32 + u as u32 + (a && u) as u32) + Duration::from_millis(250);
        if quick {
            rec.check(got.as_ref().ok().map(|v| v.clone()) == want.map(|x| vec![x]), "in spite of silence", ctx);
        } else {
            rec.count("slow runs (result not judged)", 1);
        }
        rec.check(took < Duration::from_secs(20), "waited too long", ctx);
    })
}

fn main() {
    let mut c = Ctx::new("N01", "a request goes where the URI and the DNS say: numbers as they are, ports without services, services by NAPTR and SRV order, else addresses");
    let n = c.n(20_000, 250_000);
    c.run("uris", n, uris);
    let n = c.n(100, 2_000);
    c.run("weights", n, weights);
    let n = c.n(60, 2_000);
    c.run("many", n, many);
    let n = c.n(48, 400);
    c.run("silence", n, silence);
    c.assume("the resolver library caches and parses DNS answers correctly");
    c.finish()
}
