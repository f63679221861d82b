//! C04: URIs, name-addrs' URI part, tel URIs: component fidelity, editing, print/parse identity.
use h_core::*;
use sip_core::{SipUri, TelUri, Uri};
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Debug)]
struct Parts {
    sips: bool,
    user: Option<String>,
    host: String,
    port: Option<u16>,
    params: BTreeMap<String, Option<String>>,
    headers: BTreeMap<String, String>,
}
fn parts(u: &SipUri) -> Parts {
    Parts {
        sips: u.is_sips(),
        user: u.user().map(|s| s.to_string()),
        host: u.host().to_string(),
        port: u.port(),
        params: u.params().iter().map(|(k, v)| (k.to_string(), v.as_ref().map(|s| s.to_string()))).collect(),
        headers: u.headers().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
    }
}
fn of(m: &UriModel) -> Parts {
    Parts { sips: m.sips, user: m.user.clone(), host: m.host.clone(), port: m.port, params: m.params.clone(), headers: m.headers.clone() }
}
fn reparse(u: &SipUri, rec: &mut Rec, what: &str, want: &Parts) {
    let text = u.as_str();
    rec.check(parts(u) == *want, &format!("edit:{what}"), || format!("{what}: components {:?}, wanted {want:?}", parts(u)));
    match SipUri::parse(text) {
        Ok(v) => {
            rec.check(parts(&v) == *want, &format!("reparse:{what}"), || format!("{what}: text {text:?} parses to {:?}, wanted {want:?}", parts(&v)));
        }
        Err(e) => rec.violate(&format!("reparse:{what}"), format!("{what}: text {text:?} does not parse ({e}); components {want:?}")),
    }
    rec.check(!text.contains(['<', '>', '"', ' ', '\r', '\n']), &format!("text:{what}"), || format!("{what}: text {text:?} holds a delimiter that ends a name-addr"));
}

/// A printable character that is none of these.
fn odd(r: &mut Rng, but: &str) -> char {
    loop {
        let c = r.ur(0x21, 0x7e) as u8 as char;
        if !but.contains(c) {
            return c;
        }
    }
}

fn main() {
    let mut ctx = Ctx::new("C04", "SIP/tel URIs generated with a component model, edited through the API and re-parsed; hostile strings; distinct by text");
    let n = ctx.n(150_000, 6_000_000);
    ctx.run("sip-uri", n, |r, rec| {
        let m = gen_sip_uri(r);
        rec.eval(Some(&m.wire));
        rec.sample(|| m.wire.clone());
        let u = match SipUri::parse(&m.wire) {
            Ok(u) => u,
            Err(e) => return rec.violate("refused", format!("valid URI {:?} refused: {e}", m.wire)),
        };
        rec.check(parts(&u) == of(&m), "components", || format!("{:?} parsed as {:?}, wanted {:?}", m.wire, parts(&u), of(&m)));
        rec.check(u.as_str() == m.wire, "text", || format!("{:?} printed as {:?}", m.wire, u.as_str()));
        match Uri::parse(&m.wire) {
            Ok(Uri::Sip(v)) => {
                rec.check(v == u, "uri-eq", || format!("Uri::parse and SipUri::parse differ on {:?}", m.wire));
            }
            x => rec.violate("uri-kind", format!("Uri::parse({:?}) = {x:?}", m.wire)),
        }
        // scheme is case-insensitive
        let up = if m.sips { m.wire.replacen("sips", "SIPS", 1) } else { m.wire.replacen("sip", "SiP", 1) };
        match Uri::parse(&up) {
            Ok(Uri::Sip(v)) => {
                rec.check(parts(&v) == of(&m), "scheme-case", || format!("{up:?} parsed as {:?}", parts(&v)));
            }
            x => rec.violate("scheme-case", format!("Uri::parse({up:?}) = {x:?}")),
        }
        // Editing.
        let mut u = u;
        let mut want = of(&m);
        for _ in 0..r.range(1, 4) {
            match r.below(6) {
                0 => {
                    let (_, d) = gen_user(r);
                    match u.clone().with_user(d.clone()) {
                        Ok(v) => {
                            u = v;
                            want.user = Some(d);
                            reparse(&u, rec, "with_user", &want);
                        }
                        Err(e) => rec.violate("with_user-refused", format!("with_user({d:?}): {e}")),
                    }
                }
                1 => {
                    let (_, h) = gen_host(r);
                    match u.clone().with_host(h.clone()) {
                        Ok(v) => {
                            u = v;
                            want.host = h;
                            reparse(&u, rec, "with_host", &want);
                        }
                        Err(e) => rec.violate("with_host-refused", format!("with_host({h:?}): {e}")),
                    }
                }
                2 => {
                    let p = r.range(0, 65535) as u16;
                    match u.clone().with_port(p) {
                        Ok(v) => {
                            rec.check(p != 0, "port-zero", || "with_port(0) accepted".into());
                            u = v;
                            want.port = Some(p);
                            reparse(&u, rec, "with_port", &want);
                        }
                        Err(e) => {
                            rec.check(p == 0, "with_port-refused", || format!("with_port({p}): {e}"));
                        }
                    }
                }
                3 => {
                    u = u.without_port();
                    want.port = None;
                    reparse(&u, rec, "without_port", &want);
                }
                4 => {
                    let n = r.string("abcdefghijklmnopqrstuvwxyzABC0123456789-.", 1, 8);
                    let v = r.coin().then(|| r.string("abcABC0123456789-_.!~*'()[]/:&+$", 1, 10));
                    match u.clone().with_param(n.clone(), v.clone()) {
                        Ok(x) => {
                            u = x;
                            want.params.insert(n.to_ascii_lowercase(), v);
                            reparse(&u, rec, "with_param", &want);
                        }
                        Err(e) => rec.violate("with_param-refused", format!("with_param({n:?},{v:?}): {e}")),
                    }
                }
                _ => {
                    u = u.without_uri_headers();
                    want.headers.clear();
                    if parts(&u) != want || !m.wire.contains('?') {
                        rec.check(parts(&u) == want, "edit:without_uri_headers", || format!("components {:?}, wanted {want:?}", parts(&u)));
                    } else {
                        reparse(&u, rec, "without_uri_headers", &want);
                    }
                }
            }
            rec.count("edits", 1);
        }
    });
    // Hostile text through every builder: refuse, or mean exactly what was asked.
    let n = ctx.n(100_000, 5_000_000);
    ctx.run("hostile-edit", n, |r, rec| {
        let s = match r.below(3) {
            0 => r.nasty(1, 5),
            1 => r.string("ab;?=&@:%<>\"[]/#,\\ 1.", 1, 6),
            _ => {
                let k = r.range(250, 260) as usize;
                "a".repeat(k)
            }
        };
        rec.eval(Some(&s));
        let m = gen_sip_uri(r);
        let Ok(u) = SipUri::parse(&m.wire) else { return };
        let base = of(&m);
        let show = || format!("{s:?}");
        if let Some(Ok(v)) = rec.guard("with_user", &show, || u.clone().with_user(s.clone())) {
            let mut w = base.clone();
            w.user = Some(s.clone());
            reparse(&v, rec, "with_user(hostile)", &w);
        }
        if let Some(Ok(v)) = rec.guard("with_host", &show, || u.clone().with_host(s.clone())) {
            let mut w = base.clone();
            w.host = s.to_ascii_lowercase();
            reparse(&v, rec, "with_host(hostile)", &w);
        }
        if let Some(Ok(v)) = rec.guard("with_param", &show, || u.clone().with_param("zz", Some(s.clone()))) {
            let mut w = base.clone();
            w.params.insert("zz".into(), Some(s.clone()));
            reparse(&v, rec, "with_param(hostile)", &w);
        }
        if let Some(Ok(v)) = rec.guard("with_param", &show, || u.clone().with_param(s.clone(), None::<String>)) {
            let mut w = base.clone();
            w.params.insert(s.to_ascii_lowercase(), None);
            reparse(&v, rec, "with_param-name(hostile)", &w);
        }
        if let Some(Ok(v)) = rec.guard("SipUri::new", &show, || SipUri::new(s.clone())) {
            let w = Parts { sips: false, user: None, host: s.to_ascii_lowercase(), port: None, params: Default::default(), headers: Default::default() };
            reparse(&v, rec, "new(hostile)", &w);
        }
    });
    let n = ctx.n(20_000, 400_000);
    ctx.run("new-host", n, |r, rec| {
        let (_, h) = gen_host(r);
        rec.eval(Some(&h));
        match SipUri::new(h.clone()) {
            Ok(u) => {
                let w = Parts { sips: false, user: None, host: h.clone(), port: None, params: Default::default(), headers: Default::default() };
                reparse(&u, rec, "new", &w)
            }
            Err(e) => rec.violate("new-refused", format!("SipUri::new({h:?}): {e}")),
        }
    });
    // Arbitrary text: no panic; anything accepted is bounded and prints what was parsed.
    let n = ctx.n(150_000, 8_000_000);
    ctx.run("hostile-parse", n, |r, rec| {
        let mut w = match r.below(4) {
            0 => gen_tel(r).into_bytes(),
            1 => r.nasty(0, 10).into_bytes(),
            _ => gen_sip_uri(r).wire.into_bytes(),
        };
        let k = r.below(5);
        r.mutate(&mut w, k);
        let s = String::from_utf8_lossy(&w).to_string();
        let show = || format!("{s:?}");
        let mut any = false;
        if let Some(Ok(u)) = rec.guard("Uri::parse", &show, || Uri::parse(&s)) {
            any = true;
            rec.check(!u.as_str().chars().any(|c| c.is_control()) && u.as_str().len() <= 2048, "bounds", || format!("Uri::parse accepted {s:?}"));
            rec.check(s != s.trim() || Uri::parse(u.as_str()).as_ref() == Ok(&u), "stable", || format!("{s:?} -> {:?} does not re-parse to itself", u.as_str()));
            if let Uri::Sip(v) = &u {
                rec.check(v.port() != Some(0) && !v.host().is_empty() && v.host().len() <= 256 && v.params().len() <= 50 && v.headers().len() <= 50, "limits", || format!("{s:?} accepted with {:?}", parts(v)));
                rec.check(!v.host().contains(['@', '[', ']', ' ', ';', '?', '/', '%']), "host", || format!("{s:?} accepted with host {:?}", v.host()));
                if let Some(user) = v.user() {
                    rec.check(!user.is_empty() && user.len() <= 256 && !user.chars().any(|c| c.is_control()) && !user.contains(['@', ';', '?', '/', '#', '[', ']']), "user", || format!("{s:?} accepted with user {user:?}"));
                }
                // nothing after the closing bracket but a port
                if let Some(i) = s.find('[') {
                    if !s[..i].contains([';', '?']) {
                        let rest = &s[s[i..].find(']').map(|x| i + x + 1).unwrap_or(s.len())..];
                        let rest = rest.split([';', '?']).next().unwrap().trim();
                        let ok = rest.is_empty() || (rest.starts_with(':') && rest.len() > 1 && rest[1..].bytes().all(|b| b.is_ascii_digit() || b == b'+'));
                        rec.check(ok, "ipv6-tail", || format!("{s:?} accepted although {rest:?} follows the IPv6 literal"));
                    }
                }
                let e = v.clone().without_port();
                let mut w = parts(v);
                w.port = None;
                if w.params.values().flatten().all(|x| !x.contains(['<', '>', '"', ' '])) && w.headers.is_empty() && !w.params.values().flatten().any(|x| x != x.trim()) {
                    reparse(&e, rec, "rebuild(hostile)", &w);
                    rec.count("rebuilt", 1);
                }
            }
        }
        rec.guard("TelUri::parse", &show, || TelUri::parse(&s).is_ok());
        rec.guard("SipUri::parse", &show, || SipUri::parse(&s).is_ok());
        rec.eval(if any { Some(&s) } else { None });
    });
    let n = ctx.n(60_000, 2_000_000);
    ctx.run("odd-ports", 40_000, |r, rec| {
        let host = *r.pick(&["h", "h.example.com", "10.0.0.1", "[::1]", "[2001:db8::2]"]);
        let odd = match r.below(4) {
            0 => (*r.pick(&["", "0", "00", "65536", "99999", "123456", "-1", "+5060", " 5060", "5 060", "0x10", "5060.", "5060a", "a", "5060:5060", "4294967376", "\u{0663}"])).to_string(),
            1 => format!("{}{}", r.pick(&["+", "-", ".", " ", "x"]), r.range(1, 65_535)),
            2 => format!("{}{}", r.range(1, 65_535), r.pick(&["+", "-", ".", "x", "]", "[", ":"])),
            _ => r.range(65_536, 1 << 40).to_string(),
        };
        let user = if r.coin() { "u@" } else { "" };
        let tail = *r.pick(&["", ";p", ";p=v", "?h=v"]);
        let s = format!("sip:{user}{host}:{odd}{tail}");
        rec.eval(Some(&s));
        if let Ok(u) = SipUri::parse(&s) {
            rec.violate("odd-port", format!("{s:?} accepted with {:?}", parts(&u)));
        }
        let port = r.range(1, 65_535);
        let s = format!("sip:{user}{host}:{port}{tail}");
        rec.check(SipUri::parse(&s).is_ok_and(|u| u.port().map(i64::from) == Some(port)), "port", || s.clone());
    });
    ctx.run("tel-uri", n, |r, rec| {
        let global = r.coin();
        let digits = r.string("0123456789", 1, 14);
        let mut shown = String::new();
        for c in digits.chars() {
            shown.push(c);
            if r.chance(1, 5) {
                shown.push(*r.pick(&['-', '.', '(', ')']));
            }
        }
        if !global && r.chance(1, 4) {
            shown.push(*r.pick(&['*', '#']));
        }
        let mut params: BTreeMap<String, Option<String>> = BTreeMap::new();
        let ctxv = if r.coin() { format!("+{}", r.string("0123456789", 1, 4)) } else { gen_domain(r) };
        if !global {
            params.insert("phone-context".into(), Some(ctxv.clone()));
        }
        for _ in 0..r.below(3) {
            params.insert(r.lower(1, 6), r.coin().then(|| r.alnum(1, 6)));
        }
        let mut s = format!("tel:{}{}", if global { "+" } else { "" }, shown);
        let mut order: Vec<_> = params.iter().collect();
        r.shuffle(&mut order);
        for (k, v) in order {
            s.push_str(&format!(";{k}"));
            if let Some(v) = v {
                s.push_str(&format!("={v}"));
            }
        }
        rec.eval(Some(&s));
        rec.sample(|| s.clone());
        let u = match TelUri::parse(&s) {
            Ok(u) => u,
            Err(e) => return rec.violate("tel-refused", format!("valid {s:?} refused: {e}")),
        };
        let want_num = if global { format!("+{digits}") } else { shown.clone() };
        let got: BTreeMap<String, Option<String>> = u.parameters().iter().map(|(k, v)| (k.to_string(), v.as_ref().map(|x| x.to_string()))).collect();
        rec.check(u.number() == want_num && u.is_global() == global && got == params && u.phone_context() == (!global).then_some(ctxv.as_str()), "tel-components", || format!("{s:?} parsed as {u:?}"));
        rec.check(u.to_string() == s, "tel-text", || format!("{s:?} printed as {u}"));
        let scheme = *r.pick(&["tel", "TEL", "Tel", "tEL"]);
        let cased = format!("{scheme}{}", &s[3..]);
        let ok = matches!(Uri::parse(&cased), Ok(Uri::Tel(x)) if x.number() == u.number() && x.parameters() == u.parameters());
        rec.check(ok, "tel-scheme-case", || format!("{cased:?} read as {:?}", Uri::parse(&cased)));
        let (k, v) = (r.lower(1, 6), r.coin().then(|| r.alnum(1, 6)));
        if k != "phone-context" {
            match u.clone().with_parameter(k.clone(), v.clone()) {
                Ok(x) => {
                    let mut want = params.clone();
                    want.insert(k.clone(), v.clone());
                    let y = TelUri::parse(x.as_str());
                    let ok = y.as_ref().map(|y| {
                        let g: BTreeMap<String, Option<String>> = y.parameters().iter().map(|(k, v)| (k.to_string(), v.as_ref().map(|x| x.to_string()))).collect();
                        y.number() == u.number() && g == want && y.phone_context() == u.phone_context()
                    });
                    rec.check(ok == Ok(true), "tel-edit", || format!("{s:?} with {k}={v:?} became {:?}", x.as_str()));
                }
                Err(e) => rec.violate("tel-edit-refused", format!("with_parameter({k:?},{v:?}): {e}")),
            }
        }
        let hostile = r.nasty(1, 4);
        if let Ok(x) = u.clone().with_parameter("q", Some(hostile.clone())) {
            let y = TelUri::parse(x.as_str());
            let ok = y.as_ref().map(|y| y.parameters().get("q").map(|v| v.as_deref() == Some(hostile.as_str())) == Some(true) && y.parameters().len() == x.parameters().len());
            rec.check(ok == Ok(true), "tel-param-injection", || format!("with_parameter(q, {hostile:?}) prints {:?}", x.as_str()));
        }
        let bad = if global { format!("tel:+{digits};{}={ctxv}", r.pick(&["phone-context", "Phone-Context"])) } else { format!("tel:{digits}") };
        // a number given with blanks between its groups
        let given: String = format!("{}{shown}", if global { "+" } else { "" }).replacen(&digits[..1], &format!("{} ", &digits[..1]), 1);
        if let Ok(x) = TelUri::new(given.as_str(), global) {
            let want = if global { want_num.clone() } else { given.trim().to_string() };
            rec.check(x.number() == want && x.is_global() == global, "tel-given", || format!("{given:?} kept as {:?}", x.number()));
        }
        rec.check(TelUri::new(given.as_str(), !global).is_err(), "tel-given-kind", || format!("{given:?} accepted as the other kind"));
        rec.check(TelUri::parse(&bad).is_err(), "tel-context-rule", || format!("{bad:?} accepted"));
    });
    // a parameter name appears once, in whatever letter case it is repeated
    let n = ctx.n(40_000, 600_000);
    ctx.run("repeats", n, |r, rec| {
        let tel = r.coin();
        let global = r.coin();
        let mut w = match (tel, global) {
            (true, true) => format!("tel:+{}", r.string("0123456789", 1, 12)),
            (true, false) => format!("tel:{}", r.string("0123456789", 1, 12)),
            _ => format!("{}:{}@{}", if global { "sip" } else { "sips" }, r.lower(1, 6), gen_domain(r)),
        };
        let mut ps: Vec<(String, Option<String>)> = vec![];
        if tel && !global {
            ps.push(("phone-context".into(), Some(gen_domain(r))));
        }
        for _ in 0..r.range(1, 5) {
            let k = if tel || r.coin() { r.lower(1, 4) } else { r.pick(&["lr", "transport", "maddr", "ttl", "method", "user"]).to_string() };
            if ps.iter().all(|p| p.0 != k) {
                ps.push((k, r.chance(2, 3).then(|| r.alnum(1, 5))));
            }
        }
        r.shuffle(&mut ps);
        let names: Vec<String> = ps.iter().map(|p| p.0.clone()).collect();
        let again = if r.coin() { Some(r.pick(&names).clone()) } else { None };
        if let Some(k) = &again {
            let v = match r.below(3) {
                0 => None,
                1 if tel && !global && k == "phone-context" => Some("+1".to_string()),
                _ => Some(r.alnum(1, 5)),
            };
            let at = r.below(ps.len() + 1);
            ps.insert(at, (k.clone(), v));
        }
        for (k, v) in &ps {
            let k: String = k.chars().map(|c| if r.chance(1, 4) { c.to_ascii_uppercase() } else { c }).collect();
            w.push_str(&format!(";{k}"));
            if let Some(v) = v {
                w.push_str(&format!("={v}"));
            }
        }
        rec.eval(Some(&w));
        rec.sample(|| w.clone());
        rec.count(if again.is_some() { "repeated" } else { "once each" }, 1);
        let got = rec.guard("uri", &|| w.clone(), || Uri::parse(&w));
        let Some(got) = got else { return };
        if again.is_some() {
            rec.check(got.is_err(), "repeated-parameter", || format!("{w:?} was read"));
            return;
        }
        let Ok(u) = got else { return rec.violate("single-parameters-refused", format!("{w:?}: {got:?}")) };
        let want: BTreeMap<String, Option<String>> = ps.iter().cloned().collect();
        let have: BTreeMap<String, Option<String>> = match (u.as_tel(), u.as_sip()) {
            (Some(t), _) => t.parameters().iter().map(|(k, v)| (k.to_string(), v.as_ref().map(|x| x.to_string()))).collect(),
            (_, Some(t)) => t.params().iter().map(|(k, v)| (k.to_string(), v.as_ref().map(|x| x.to_string()))).collect(),
            _ => BTreeMap::new(),
        };
        rec.check(have == want, "parameters-read", || format!("{w:?} read as {have:?}"));
        // a context without a value is none
        if tel {
            let bad = format!("tel:{}5{};{}", if global { "+" } else { "" }, if global || r.coin() { String::new() } else { ";x=1".to_string() }, r.pick(&["phone-context", "Phone-Context", "phone-context="]));
            rec.check(TelUri::parse(&bad).is_err(), "empty-context", || format!("{bad:?} accepted"));
        }
    });
    // header fields in a URI, some of one name: all outlive edits, in order
    let n = ctx.n(30_000, 400_000);
    ctx.run("repeated-headers", n, |r, rec| {
        let hs: Vec<(String, String)> = (0..r.range(1, 5)).map(|_| (r.pick(&["Route", "route", "Subject", "X-a", "Priority"]).to_string(), r.string("abcXYZ019-._~%41", 0, 8).replace('%', "%20"))).collect();
        let pairs: Vec<String> = hs.iter().map(|(k, v)| format!("{k}={v}")).collect();
        let s = format!("{}:{}{}{}?{}", r.pick(&["sip", "sips"]), r.pick(&["", "a@", "al%3fice@"]), gen_domain(r), r.pick(&["", ";lr", ";transport=tcp;x"]), pairs.join("&"));
        rec.eval(Some(&s));
        rec.sample(|| s.clone());
        let Ok(mut u) = SipUri::parse(&s) else { return };
        rec.count("read", 1);
        for _ in 0..r.range(1, 3) {
            let next = match r.below(3) {
                0 => u.clone().with_port(r.ur(1, 65535) as u16).map_err(|e| e.to_string()),
                1 => u.clone().with_user("bob").map_err(|e| e.to_string()),
                _ => u.clone().with_param("z", Some(r.alnum(1, 4))).map_err(|e| e.to_string()),
            };
            match next {
                Ok(n) => u = n,
                Err(e) => rec.violate("edit-refused", format!("{s}: {e}")),
            }
        }
        let text = u.as_str().to_string();
        let got: Vec<(String, String)> = text.split_once('?').map(|x| x.1).unwrap_or_default().split('&').filter_map(|p| p.split_once('=')).map(|(k, v)| (k.to_ascii_lowercase(), v.to_string())).collect();
        let want: Vec<(String, String)> = hs.iter().map(|(k, v)| (k.to_ascii_lowercase(), v.clone())).collect();
        // (the order of different names is free)
        let by = |l: &[(String, String)]| -> BTreeMap<String, Vec<String>> {
            let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
            l.iter().for_each(|(k, v)| m.entry(k.clone()).or_default().push(v.clone()));
            m
        };
        rec.check(by(&got) == by(&want), "repeated-uri-header", || format!("{s} edited became {text}"));
        let bare = u.without_uri_headers();
        rec.check(!bare.as_str().contains('?') && bare.headers().is_empty(), "headers-stripped", || format!("{s} stripped is {}", bare.as_str()));
        if let Ok(b) = bare.with_port(5099) {
            rec.check(!b.as_str().contains('?'), "headers-return", || format!("{s} stripped and edited is {}", b.as_str()));
        }
    });
    let n = ctx.n(60_000, 1_000_000);
    ctx.run("tel-strict", n, |r, rec| {
        // one thing wrong with a good number or context
        let digits = r.string("0123456789", 1, 12);
        let domain = gen_domain(r);
        let which = r.below(7);
        let s = match which {
            0 => {
                let mut t: Vec<char> = format!("{digits}").chars().collect();
                let at = r.below(t.len() + 1);
                let c = *r.pick(&['\u{e9}', '\u{7}', '\u{661}', '\0']);
                t.insert(at, if r.chance(1, 6) { c } else { odd(r, "0123456789-.() ;?>") });
                format!("tel:+{}", t.into_iter().collect::<String>())
            }
            1 => {
                let mut t: Vec<char> = digits.chars().collect();
                let at = 1 + r.below(t.len());
                let c = *r.pick(&['\u{e9}', '\u{7}', '\u{661}', '\0']);
                t.insert(at, if r.chance(1, 6) { c } else { odd(r, "0123456789-.() ;?>*#ABCDabcd") });
                format!("tel:{};phone-context={domain}", t.into_iter().collect::<String>())
            }
            2 => format!("tel:+{}", r.pick(&["", "-", "()", ".", "-.-"])),
            3 => format!("tel:{digits};phone-context={}", r.pick(&["", "+", "+-", "+a1", "+1a", "+1+2", "-", "."])),
            4 => {
                let l: Vec<String> = domain.split('.').map(String::from).collect();
                let mut l = l;
                let i = r.below(l.len());
                l[i] = match r.below(6) {
                    0 => String::new(),
                    1 => format!("-{}", l[i]),
                    2 => format!("{}-", l[i]),
                    3 => r.lower(64, 70),
                    4 => format!("{}{}x", l[i], r.pick(&["_", "%", "!", "*", "\u{e9}"])),
                    _ => format!("{}.", l[i]),
                };
                let d = l.join(".");
                // an empty only label or a trailing dot alone is covered above
                format!("tel:{digits};phone-context={d}")
            }
            5 => format!("{}:+{digits}", r.pick(&["te", "tell", "", "tel ", "t\u{e9}l"])),
            _ => format!("tel:+{digits};{}", r.pick(&["=", "=x", "a b", "a=b c", "a\u{7}", "a=\u{7}"])),
        };
        rec.eval(Some(&s));
        rec.sample(|| s.clone());
        let got = rec.guard("tel", &|| s.clone(), || TelUri::parse(&s).map(|u| format!("{u:?}")));
        if let Some(Ok(u)) = got {
            rec.violate(&format!("tel-accepted/{which}"), format!("{s:?} read as {u}"));
        }
        // the letter case of a context does not matter to its validity
        let c: String = domain.chars().map(|c| if r.coin() { c.to_ascii_uppercase() } else { c }).collect();
        let s = format!("tel:{digits};phone-context={c}");
        rec.check(TelUri::parse(&s).map(|u| u.phone_context() == Some(c.as_str())) == Ok(true), "tel-context-case", || s.clone());
    });
    ctx.run("other-schemes", n, |r, rec| {
        let scheme = format!("x{}", r.string("abcXYZ019+-.", 0, 8));
        let rest = r.string("abc019:/?#[]@!$&'()*+,;=-._~", 1, 24);
        let good = format!("{scheme}:{rest}");
        rec.eval(Some(&good));
        rec.sample(|| good.clone());
        match rec.guard("uri", &|| good.clone(), || Uri::parse(&good)) {
            Some(Ok(u)) => {
                rec.check(u.as_str() == good && u.to_string() == good && u.as_sip().is_none() && u.as_tel().is_none(), "other-kept", || format!("{good:?} read as {u:?}"));
            }
            Some(Err(e)) => rec.violate("other-refused", format!("{good:?}: {e}")),
            None => return,
        }
        let bad = match r.below(6) {
            0 => format!("{}{scheme}:{rest}", r.pick(&["1", "+", "-", ".", ":", "_"])),
            1 => {
                let mut t: Vec<char> = scheme.chars().collect();
                let at = 1 + r.below(t.len());
                t.insert(at, *r.pick(&['_', '%', '/', ' ', '@', '\u{e9}', '\u{7}', '<', '*', '~']));
                format!("{}:{rest}", t.into_iter().collect::<String>())
            }
            2 => format!("{scheme}:"),
            3 => scheme.clone(),
            4 => {
                let mut t: Vec<char> = rest.chars().collect();
                let at = r.below(t.len());
                t.insert(at, *r.pick(&['\r', '\n', '\0', '\u{7}', '\u{7f}']));
                format!("{scheme}:{}", t.into_iter().collect::<String>())
            }
            _ => String::new(),
        };
        if let Some(Ok(u)) = rec.guard("uri", &|| bad.clone(), || Uri::parse(&bad)) {
            rec.violate("other-accepted", format!("{bad:?} read as {u:?}"));
        }
    });
    ctx.finish()
}
