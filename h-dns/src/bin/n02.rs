//! N02: servers named by DHCP and numbers mapped by ENUM are understood as sent,
//! tried in the order given, and nothing that is no server is made into one.
use anyhow::anyhow;
use sip_core::{SipUri, TelUri};
use sip_dns::*;
use std::net::Ipv4Addr;
use std::sync::{Arc, Mutex};
use vmon::{Ctx, Rec, Rng};

// ---- option data -------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
enum Srv {
    Name(Vec<Vec<u8>>),
    Ip([u8; 4]),
}

/// RFC 3361: an encoding byte, then whole names or whole addresses.
fn option_120(d: &[u8]) -> Option<Vec<Srv>> {
    let (enc, rest) = d.split_first()?;
    let mut out = vec![];
    match enc {
        1 => {
            if rest.len() % 4 != 0 {
                return None;
            }
            out.extend(rest.chunks(4).map(|c| Srv::Ip([c[0], c[1], c[2], c[3]])));
        }
        0 => {
            let mut it = rest.iter();
            let mut labels = vec![];
            let mut open = false;
            while let Some(&n) = it.next() {
                open = true;
                if n == 0 {
                    if labels.is_empty() {
                        return None;
                    }
                    out.push(Srv::Name(std::mem::take(&mut labels)));
                    open = false;
                    continue;
                }
                if n > 63 {
                    return None;
                }
                let l: Vec<u8> = it.by_ref().take(n as usize).copied().collect();
                if l.len() < n as usize {
                    return None;
                }
                labels.push(l);
            }
            if open {
                return None;
            }
        }
        _ => return None,
    }
    if out.is_empty() {
        None
    } else {
        Some(out)
    }
}

fn same(got: &[DhcpSipServer], want: &[Srv]) -> bool {
    got.len() == want.len()
        && got.iter().zip(want).all(|(g, w)| match (g, w) {
            (DhcpSipServer::Ipv4(a), Srv::Ip(o)) => a.octets() == *o && g.as_str() == format!("{}.{}.{}.{}", o[0], o[1], o[2], o[3]),
            (DhcpSipServer::Domain(n), Srv::Name(l)) => {
                let text: Vec<String> = l.iter().map(|l| String::from_utf8_lossy(l).into_owned()).collect();
                n.as_str() == text.join(".") && g.as_str() == n.as_str()
            }
            _ => false,
        })
}

fn label(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[1usize, 2, 3, 7, 12, 62, 63]);
    (0..n).map(|_| b"abcdefghijklmnopqrstuvwxyz0123456789-"[r.below(37)]).collect()
}

fn data(r: &mut Rng) -> Vec<u8> {
    let mut d = vec![];
    match r.below(10) {
        0 => return { let n = r.below(30); r.bytes(n, n) },
        1 => {
            d.push(*r.pick(&[2u8, 3, 47, 128, 255]));
            let n = 4 * r.below(5);
            d.extend(r.bytes(n, n));
        }
        2..=4 => {
            d.push(1);
            let n = 4 * r.below(8);
            d.extend(r.bytes(n, n));
        }
        _ => {
            d.push(0);
            for _ in 0..r.below(5) {
                for _ in 0..1 + r.below(5) {
                    let l = label(r);
                    d.push(l.len() as u8);
                    d.extend(l);
                }
                d.push(0);
            }
        }
    }
    if r.chance(1, 3) {
        match r.below(5) {
            0 => { let n = r.below(d.len() + 1); d.truncate(n) }
            1 => d.push(r.u32() as u8),
            2 => { let i = r.below(d.len() + 1); d.insert(i, *r.pick(&[0u8, 1, 63, 64, 0x80, 0xc0, 0xff])) }
            3 => { let n = r.below(4); r.mutate(&mut d, n) }
            _ => { if !d.is_empty() { let i = r.below(d.len()); d[i] = *r.pick(&[0u8, 1, 64, 0xc0, 0xff]) } }
        }
    }
    d
}

fn parse(r: &mut Rng, rec: &mut Rec) {
    let d = data(r);
    let want = option_120(&d);
    let Some(got) = rec.guard("option-120", &|| format!("{d:02x?}"), || parse_dhcp_option_120(&d)) else { return };
    let fine = match (&got, &want) {
        (Ok(g), Some(w)) => same(g, w),
        (Err(_), None) => true,
        _ => false,
    };
    rec.check(fine, "option-120", || format!("{d:02x?} read as {:?}, is {want:?}", got.as_ref().map_err(|e| e.to_string())));
    rec.eval(Some(&format!("opt120 enc={:?} n={:?}", d.first().map(|b| (*b).min(2)), want.as_ref().map(Vec::len))));
    rec.sample(|| format!("option 120 {d:02x?}: {want:?}"));

    // the TFTP options
    let n = r.below(20);
    let d = r.bytes(n, n);
    let Some(got) = rec.guard("option-150", &|| format!("{d:02x?}"), || parse_dhcp_option_150(&d)) else { return };
    let want: Option<Vec<Ipv4Addr>> = (!d.is_empty() && d.len() % 4 == 0).then(|| d.chunks(4).map(|c| Ipv4Addr::new(c[0], c[1], c[2], c[3])).collect());
    rec.check(got.as_ref().ok() == want.as_ref(), "option-150", || format!("{d:02x?} read as {got:?}, is {want:?}"));
    rec.eval(Some(&format!("opt150 n={:?}", want.map(|w| w.len()))));
    let t = r.string("abcdefgh.-0123456789", 0, 40);
    let Some(got) = rec.guard("option-66", &|| t.clone(), || parse_dhcp_option_66(t.as_bytes())) else { return };
    let fine = match &got {
        Ok(s) => !t.is_empty() && s.as_str() == t,
        Err(_) => t.is_empty(),
    };
    rec.check(fine, "option-66", || format!("{t:?} read as {got:?}"));
    let _ = rec.guard("option-66", &|| format!("{d:02x?}"), || parse_dhcp_option_66(&d).map(|s| s.as_str().len()));
    rec.eval(Some("opt66"));
}

// ---- discovery through DHCP ---------------------------------------------

struct Dhcp(Option<Option<Vec<DhcpSipServer>>>);
#[async_trait::async_trait]
impl DhcpProvider for Dhcp {
    async fn query_sip_servers(&self) -> anyhow::Result<Option<Vec<DhcpSipServer>>> {
        match &self.0 {
            None => Err(anyhow!("the lease is gone")),
            Some(x) => Ok(x.clone()),
        }
    }
}

type Answer = Option<Vec<DnsTarget>>;
#[derive(Clone)]
struct Dns {
    table: Arc<Vec<(String, Answer)>>,
    asked: Arc<Mutex<Vec<SipUri>>>,
}
#[async_trait::async_trait]
impl Resolver for Dns {
    async fn resolve(&self, uri: &SipUri) -> anyhow::Result<Vec<DnsTarget>> {
        self.asked.lock().unwrap().push(uri.clone());
        tokio::task::yield_now().await;
        self.table
            .iter()
            .find(|(h, _)| h == uri.host())
            .and_then(|(_, a)| a.clone())
            .ok_or_else(|| anyhow!("no such name"))
    }
}

fn proto(s: &str) -> Transport {
    match s {
        "tcp" => Transport::Tcp,
        "tls" => Transport::Tls,
        "ws" => Transport::Ws,
        "wss" => Transport::Wss,
        "sctp" => Transport::Sctp,
        "tls-sctp" => Transport::TlsSctp,
        _ => Transport::Udp,
    }
}

fn discover(r: &mut Rng, rec: &mut Rec) {
    let names = ["a.example", "b.example", "c.example", "deep.sub.d.example"];
    let most = *r.pick(&[2usize, 2, 4, 30, 60]);
    let table: Vec<(String, Answer)> = names
        .iter()
        .map(|n| {
            let a = match r.below(5) {
                0 => None,
                1 => Some(vec![]),
                _ => Some(
                    (0..1 + r.below(most))
                        .map(|i| {
                            DnsTarget::unchecked_new(format!("10.1.{i}.{}", n.as_bytes()[0]), 5060 + r.below(9) as u16, *r.pick(&[Transport::Udp, Transport::Tcp, Transport::Tls]))
                                .with_priority(r.below(5) as u16)
                                .with_tls_name(n.to_string())
                        })
                        .collect(),
                ),
            };
            (n.to_string(), a)
        })
        .collect();
    let scheme = *r.pick(&["sip", "sip", "sips"]);
    let tp = if r.coin() { None } else { Some(*r.pick(&["udp", "tcp", "tls", "TCP", "ws", "wss", "sctp"])) };
    let mut text = format!("{scheme}:{}{}", if r.coin() { "u@" } else { "" }, r.pick(&["dest.example", "a.example", "192.0.2.9"]));
    if r.chance(1, 3) {
        text += &format!(":{}", 1024 + r.below(60000));
    }
    if let Some(t) = tp {
        text += &format!(";transport={t}");
    }
    if r.chance(1, 4) {
        text += ";x=y;lr";
    }
    let Ok(uri) = SipUri::parse(&text) else {
        rec.violate("uri", &format!("{text} does not parse"));
        return;
    };
    let mut servers = vec![];
    for _ in 0..r.below(6) {
        servers.push(match r.below(7) {
            0 | 1 => DhcpSipServer::Ipv4(Ipv4Addr::new(10, r.below(256) as u8, r.below(256) as u8, r.below(256) as u8)),
            2 => DhcpSipServer::Domain(r.pick(&["", "two words", "a\r\nb", "x@y", "caf\u{e9}.example"]).to_string().into()),
            3 => DhcpSipServer::Domain(r.pick(&["A.Example", "UNKNOWN.example"]).to_string().into()),
            _ => DhcpSipServer::Domain(r.pick(&names).to_string().into()),
        });
    }
    if r.chance(1, 40) {
        servers = (0..98 + r.below(5)).map(|i| DhcpSipServer::Ipv4(Ipv4Addr::new(10, 0, 0, i as u8))).collect();
    }
    let lease = match r.below(8) {
        0 => None,
        1 => Some(None),
        _ => Some(Some(servers.clone())),
    };

    // what discovery has to come to
    let low = |t: Option<&str>| t.map(|t| t.to_ascii_lowercase());
    let transport = match low(tp).as_deref() {
        Some(t) => proto(t),
        None if scheme == "sips" => Transport::Tls,
        None => Transport::Udp,
    };
    let transport = match (scheme, transport) {
        ("sips", Transport::Udp | Transport::Tcp) => None, // not judged
        ("sips", Transport::Ws) => None,
        ("sips", Transport::Sctp) => None,
        (_, t) => Some(t),
    };
    let secure = scheme == "sips" || matches!(transport, Some(Transport::Tls | Transport::TlsSctp));
    // web sockets have ports of their own: left to the other check
    let web = matches!(transport, Some(Transport::Ws | Transport::Wss));
    let mut want: Vec<DnsTarget> = vec![];
    let mut names_asked = vec![];
    let mut ip_seen = false;
    if let Some(Some(s)) = &lease {
        for s in s {
            match s {
                DhcpSipServer::Ipv4(a) => {
                    ip_seen = true;
                    want.push(DnsTarget::unchecked_new(a.to_string(), if secure { 5061 } else { 5060 }, transport.unwrap_or(Transport::Tls)));
                }
                DhcpSipServer::Domain(n) => {
                    let n = n.to_ascii_lowercase();
                    if n.is_empty() || n.contains([' ', '\r', '@']) || !n.is_ascii() {
                        continue;
                    }
                    names_asked.push(n.clone());
                    if let Some((_, Some(t))) = table.iter().find(|(h, _)| *h == n) {
                        want.extend(t.clone());
                    }
                }
            }
        }
    }
    if ip_seen && (transport.is_none() || web) {
        rec.eval(Some("not judged"));
        return;
    }
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    for hybrid in [false, true] {
        let asked = Arc::new(Mutex::new(vec![]));
        let dns = Dns { table: Arc::new(table.clone()), asked: asked.clone() };
        let dhcp = Dhcp(lease.clone());
        let what = || format!("hybrid={hybrid} {text} lease={lease:?} table={table:?}");
        let Some(got) = rec.guard("discover", &what, || {
            if hybrid {
                rt.block_on(HybridResolver::new(dhcp, dns).resolve(&uri))
            } else {
                rt.block_on(DhcpResolver::new(dhcp, dns).resolve(&uri))
            }
        }) else {
            return;
        };
        let mut expect_asked: Vec<String> = names_asked.clone();
        let expect: Option<Vec<DnsTarget>> = if !want.is_empty() {
            (want.len() <= 100).then(|| want.clone())
        } else if hybrid {
            expect_asked.push(uri.host().to_string());
            table.iter().find(|(h, _)| h == uri.host()).and_then(|(_, a)| a.clone())
        } else {
            None
        };
        rec.check(got.as_ref().ok() == expect.as_ref(), "targets", || format!("{}: gives {got:?}, should give {expect:?}", what()));
        let a = asked.lock().unwrap();
        let hosts: Vec<String> = a.iter().map(|u| u.host().to_string()).collect();
        rec.check(hosts == expect_asked, "names-asked", || format!("{}: asked for {hosts:?}, should ask {expect_asked:?}", what()));
        for (i, u) in a.iter().enumerate() {
            let own = hybrid && want.is_empty() && i + 1 == a.len();
            let port = if own { uri.port() } else { None };
            rec.check(u.port() == port && u.is_sips() == uri.is_sips() && u.params() == uri.params() && u.user() == uri.user(), "uri-asked", || format!("{}: asked for {u:?}", what()));
        }
        rec.eval(Some(&format!("hybrid={hybrid} lease={} names={} targets={}", match &lease { None => "err", Some(None) => "none", Some(Some(s)) if s.is_empty() => "empty", _ => "some" }, names_asked.len(), got.as_ref().map_or(-1, |g| (g.len().min(10)) as i32))));
        rec.sample(|| format!("{} -> {:?}", what(), got.as_ref().map(|g| g.len())));
    }
}

// ---- ENUM ----------------------------------------------------------------

fn enumerate(r: &mut Rng, rec: &mut Rec) {
    let digits = r.string("0123456789", 0, 18);
    let t = match r.below(8) {
        0 => digits.clone(),
        1 => format!("+{digits}{}", r.pick(&["a", ".", "-", " ", "+", "\u{0663}", "*"])),
        2 => r.nasty(0, 20),
        _ => format!("+{digits}"),
    };
    let want = match t.strip_prefix('+') {
        Some(d) if !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit()) => {
            let mut o = String::new();
            for c in d.chars().rev() {
                o.push(c);
                o.push('.');
            }
            Some(o + "e164.arpa")
        }
        _ => None,
    };
    let Some(got) = rec.guard("enum-domain", &|| t.clone(), || enum_to_domain(&t)) else { return };
    rec.check(got == want, "enum-domain", || format!("{t:?} asked as {got:?}, should be {want:?}"));
    rec.eval(Some(&format!("domain {}", want.is_some())));
    // as a tel URI, with visual separators
    if !digits.is_empty() {
        let mut s = String::from("tel:");
        let global = r.chance(3, 4);
        if global {
            s.push('+');
        }
        for (i, c) in digits.chars().enumerate() {
            if i > 0 && r.chance(1, 4) {
                s.push(*r.pick(&['-', '.', '(', ')']));
            }
            s.push(c);
        }
        if !global {
            s += ";phone-context=example.com";
        }
        if let Ok(u) = TelUri::parse(&s) {
            let Some(got) = rec.guard("enum-tel", &|| s.clone(), || tel_uri_to_enum_domain(&u)) else { return };
            let want = global.then(|| digits.chars().rev().map(|c| format!("{c}.")).collect::<String>() + "e164.arpa");
            rec.check(got == want, "enum-tel", || format!("{s:?} asked as {got:?}, should be {want:?}"));
            rec.eval(Some(&format!("tel global={global}")));
        }
    }

    // choosing among the records
    let n = r.below(12);
    let recs: Vec<EnumNaptrRecord> = (0..n)
        .map(|i| {
            EnumNaptrRecord::new(
                r.below(3) as u16 * 100,
                r.below(4) as u16,
                *r.pick(&["u", "U", "u", "", "s", "a", "su", "pU"]),
                *r.pick(&["E2U+sip", "e2u+SIP", "E2U+mailto", "E2U+sips", "sip", "E2U+sip:x", ""]),
                format!("!^.*$!sip:{i}@example.com!"),
                "",
            )
        })
        .collect();
    let is_sip = |s: &str| s.to_ascii_lowercase() == "e2u+sip";
    let mine: Vec<EnumNaptrRecord> = recs.iter().filter(|x| is_sip(&x.service)).cloned().collect();
    let show = || format!("{recs:?}");
    let Some((f, sorted, best)) = rec.guard("enum-choose", &show, || {
        let mut s = recs.clone();
        sort_enum_records(&mut s);
        (filter_sip_records(&recs), s, select_best_sip_record(&recs))
    }) else {
        return;
    };
    rec.check(f == mine, "enum-filter", || format!("{}: kept {f:?}", show()));
    let key = |x: &EnumNaptrRecord| (x.order, x.preference);
    let mut left = recs.clone();
    for x in &sorted {
        match left.iter().position(|y| y == x) {
            Some(i) => drop(left.remove(i)),
            None => rec.violate("enum-sort", &format!("{}: sorted to {sorted:?}", show())),
        }
    }
    rec.check(left.is_empty() && sorted.windows(2).all(|w| key(&w[0]) <= key(&w[1])), "enum-sort", || format!("{}: sorted to {sorted:?}", show()));
    let fine = match &best {
        None => mine.is_empty(),
        Some(b) => mine.contains(b) && mine.iter().all(|m| key(b) <= key(m)),
    };
    rec.check(fine, "enum-best", || format!("{}: chose {best:?}", show()));
    for x in &recs {
        rec.check(x.is_sip_service() == is_sip(&x.service) && x.is_terminal() == x.flags.to_ascii_lowercase().contains('u'), "enum-kind", || format!("{x:?}"));
    }
    rec.eval(Some(&format!("choose n={n} sip={}", mine.len())));
    rec.sample(|| format!("chose {best:?} of {n}"));

    // the URI in the substitution
    let d = *r.pick(&['!', '/', '|', '#', '~', '%', '\u{a7}']);
    let clean = |s: String| s.chars().filter(|c| *c != d && *c != '\\').collect::<String>();
    let pat = clean(r.string("^.*$+0123456789()[]", 0, 12));
    let uri = clean(match r.below(4) {
        0 => String::new(),
        1 => r.nasty(0, 20).trim().to_string(),
        _ => format!("sip:{}@{}", r.token(1, 8), r.pick(&["example.com", "[2001:db8::1]:5070;transport=tcp"])),
    });
    let (pat2, uri2) = if r.chance(1, 4) { (format!("{pat}\\{d}"), if uri.is_empty() { uri.clone() } else { format!("{uri}\\1") }) } else { (pat, uri.clone()) };
    let x = format!("{d}{pat2}{d}{uri2}{d}{}", r.pick(&["", "i"]));
    let e = EnumNaptrRecord::new(1, 1, "u", "E2U+sip", x.clone(), "");
    let Some(got) = rec.guard("enum-uri", &|| x.clone(), || e.extract_uri()) else { return };
    let want = (!uri2.is_empty()).then(|| uri2.clone());
    rec.check(got == want, "enum-uri", || format!("{x:?} gives {got:?}, should give {want:?}"));
    rec.eval(Some(&format!("uri delim={d} {}", want.is_some())));
    let wild = r.nasty(0, 30);
    let e = EnumNaptrRecord::new(1, 1, "u", "E2U+sip", wild.clone(), "");
    let Some(got) = rec.guard("enum-uri", &|| wild.clone(), || e.extract_uri()) else { return };
    rec.check(got.as_ref().is_none_or(|g| !g.is_empty() && wild.contains(g.as_str())), "enum-uri", || format!("{wild:?} gives {got:?}"));
    rec.eval(Some("uri wild"));
}

// ---- targets -------------------------------------------------------------

fn target(r: &mut Rng, rec: &mut Rec) {
    let h = match r.below(5) {
        0 => r.nasty(0, 30),
        1 => { let n = 250 + r.below(8); "a".repeat(n) }
        2 => { let mut h = r.string("abc.-", 1, 20); let i = r.below(h.len() + 1); h.insert(i, *r.pick(&['\r', '\n', '\0', '\t', '\u{7f}', '\u{85}'])); h }
        3 => String::new(),
        _ => r.string("abcdefgh.-:0123456789", 1, 40),
    };
    let t = *r.pick(&[Transport::Udp, Transport::Tcp, Transport::Tls, Transport::Ws, Transport::Wss, Transport::Sctp, Transport::TlsSctp]);
    let p = r.u32() as u16;
    let Some(got) = rec.guard("target", &|| h.clone(), || DnsTarget::new(h.clone(), p, t)) else { return };
    let bad = h.is_empty() || h.len() > 253 || h.chars().any(|c| c.is_control());
    let fine = match &got {
        Ok(d) => !bad && d.host() == h && d.port() == p && d.transport() == t && d.sni() == h,
        Err(_) => bad,
    };
    rec.check(fine, "target", || format!("{h:?} {p} {t:?}: {got:?}"));
    rec.eval(Some(&format!("target {t:?} bad={bad}")));
}

fn main() {
    let mut ctx = Ctx::new("N02", "DHCP and ENUM data mean what their formats say");
    ctx.run("option-data", ctx.n(120_000, 3_000_000), parse);
    ctx.run("discovery", ctx.n(60_000, 1_500_000), discover);
    ctx.run("numbers", ctx.n(60_000, 1_500_000), enumerate);
    ctx.run("targets", ctx.n(40_000, 500_000), target);
    ctx.finish();
}
