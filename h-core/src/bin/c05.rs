//! C05: address and routing header values keep their parts.
use h_core::*;
use sip_core::*;
use smol_str::SmolStr;
use std::collections::BTreeMap;

type Params = BTreeMap<String, Option<String>>;

#[derive(Debug, Clone)]
struct Na {
    wire: String,
    display: Option<String>,
    uri: String,
    params: Params,
}

/// (wire, parsed) parameter value
fn gen_val(r: &mut Rng) -> (String, String) {
    match r.below(6) {
        0 => {
            let (w, d) = gen_quoted(r, 0, 8);
            (format!("\"{w}\""), d)
        }
        1 => {
            let v = format!("<urn:uuid:{}>", r.alnum(1, 10));
            (format!("\"{v}\""), v)
        }
        _ => {
            let v = r.token(1, 10);
            (v.clone(), v)
        }
    }
}
fn gen_params(r: &mut Rng, max: usize, allow_quoted: bool) -> (String, Params) {
    let mut w = String::new();
    let mut p = Params::new();
    for _ in 0..r.below(max + 1) {
        let n = if r.chance(1, 4) { r.pick(&["tag", "expires", "q", "lr", "+sip.instance"]).to_string() } else { r.token(1, 10) };
        if p.contains_key(&n.to_ascii_lowercase()) {
            continue;
        }
        let sp = if r.chance(1, 6) { " " } else { "" };
        w.push_str(sp);
        w.push(';');
        w.push_str(sp);
        w.push_str(&n);
        if r.chance(3, 4) {
            let (vw, vd) = if allow_quoted {
                gen_val(r)
            } else {
                let v = r.token(1, 10);
                (v.clone(), v)
            };
            w.push_str(sp);
            w.push('=');
            w.push_str(sp);
            w.push_str(&vw);
            p.insert(n.to_ascii_lowercase(), Some(vd));
        } else {
            p.insert(n.to_ascii_lowercase(), None);
        }
    }
    (w, p)
}
fn plain_uri(r: &mut Rng) -> String {
    if r.chance(1, 8) {
        return gen_tel(r);
    }
    let mut u = gen_sip_uri(r);
    if !u.headers.is_empty() {
        u.wire = u.wire.rsplit_once('?').unwrap().0.to_string();
    }
    u.wire
}
/// name-addr (or, when `bare`, possibly an addr-spec without parameters inside the URI)
fn gen_na(r: &mut Rng, bare: bool, quoted_params: bool) -> Na {
    if bare && r.chance(1, 6) {
        let host = gen_domain(r);
        let uri = format!("sip:{}@{}", r.alnum(1, 6), host);
        let (w, p) = gen_params(r, 3, quoted_params);
        return Na { wire: format!("{uri}{w}"), display: None, uri, params: p };
    }
    let uri = plain_uri(r);
    let (dw, display) = match r.below(5) {
        0 | 1 => (String::new(), None),
        2 => {
            let n = r.range(1, 3);
            let v = (0..n).map(|_| r.token(1, 8)).collect::<Vec<_>>().join(" ");
            (format!("{v} "), Some(v))
        }
        3 => {
            let v = format!("{}, {} <x>;tag=9", r.alnum(1, 6), r.alnum(1, 6));
            (format!("\"{v}\" "), Some(v))
        }
        _ => {
            let (w, d) = gen_quoted(r, 1, 12);
            (format!("\"{w}\"{}", if r.coin() { " " } else { "" }), Some(d))
        }
    };
    let (w, p) = gen_params(r, 4, quoted_params);
    Na { wire: format!("{dw}<{uri}>{w}"), display, uri, params: p }
}
fn show_params<'a>(it: impl Iterator<Item = (&'a SmolStr, &'a Option<SmolStr>)>) -> Params {
    it.map(|(k, v)| (k.to_string(), v.as_ref().map(|x| x.to_string()))).collect()
}
/// Compare a parsed name-addr with the model (case of the host part is folded by URI parsing).
fn same(na: &NameAddr, m: &Na) -> Result<(), String> {
    let want_uri = Uri::parse(&m.uri).map_err(|e| format!("harness uri {e:?}"))?;
    if na.uri() != &want_uri {
        return Err(format!("uri {:?} instead of {:?}", na.uri().as_str(), m.uri));
    }
    if na.display_name().map(|s| s.to_string()) != m.display {
        return Err(format!("display name {:?} instead of {:?}", na.display_name(), m.display));
    }
    let p = show_params(na.params());
    if p != m.params {
        return Err(format!("parameters {p:?} instead of {:?}", m.params));
    }
    Ok(())
}
fn hostile_text(r: &mut Rng, base: String) -> String {
    let mut w = base.into_bytes();
    let k = r.below(5);
    r.mutate(&mut w, k);
    String::from_utf8_lossy(&w).to_string()
}
fn one_line(s: &str) -> bool {
    !s.contains(['\r', '\n', '\0'])
}

fn main() {
    let mut ctx = Ctx::new("C05", "address and routing header values generated with a component model, printed and re-parsed; hostile texts; distinct by text");
    let n = ctx.n(120_000, 5_000_000);
    ctx.run("name-addr", n, |r, rec| {
        let m = gen_na(r, true, true);
        if m.display.as_deref() == Some("") {
            return;
        }
        rec.eval(Some(&m.wire));
        rec.sample(|| m.wire.clone());
        let v = SmolStr::new(&m.wire);
        let show = || m.wire.clone();
        let mut got: Vec<(&str, Option<NameAddr>)> = Vec::new();
        got.push(("Contact", rec.guard("contact", &show, || sip_parse::parse_contact_header(&v)).flatten().map(|x| x.inner().clone())));
        got.push(("From", rec.guard("from", &show, || sip_parse::parse_from_header(&v)).flatten().map(|x| x.inner().clone())));
        got.push(("To", rec.guard("to", &show, || sip_parse::parse_to_header(&v)).flatten().map(|x| x.inner().clone())));
        got.push(("Route", rec.guard("route", &show, || sip_parse::parse_route_header(&v)).flatten().map(|x| x.inner().clone())));
        got.push(("RouteHeader", rec.guard("routeheader", &show, || RouteHeader::parse(&m.wire).ok()).flatten().map(|x| x.inner().clone())));
        for (what, na) in &got {
            match na {
                None => rec.violate(&format!("refused:{what}"), format!("{what}: {} refused", m.wire)),
                Some(na) => {
                    if let Err(e) = same(na, &m) {
                        rec.violate(&format!("parts:{what}"), format!("{what}: {} gave {e}", m.wire));
                    }
                }
            }
        }
        // printing
        if let Some(Some(na)) = got.iter().find(|g| g.0 == "Route").map(|g| g.1.clone()) {
            let p = RouteHeader::new(na.clone()).to_string();
            rec.check(one_line(&p), "line", || format!("{p:?}"));
            let back = RouteHeader::parse(&p).ok().map(|x| x.inner().clone());
            rec.check(back.as_ref() == Some(&na), "print-route", || format!("{} printed as {p} which reads as {back:?}", m.wire));
        }
        // lookups ignore case
        if let Some(f) = sip_parse::parse_from_header(&v) {
            let want = m.params.get("tag").cloned().flatten();
            rec.check(f.tag().map(|s| s.to_string()) == want, "tag", || format!("From tag {:?} for {}", f.tag(), m.wire));
            for (k, val) in &m.params {
                let up = k.to_ascii_uppercase();
                let got = f.inner().get_param(&up).cloned().map(|x| x.map(|s| s.to_string()));
                rec.check(got.as_ref() == Some(val), "param-case", || format!("{up} -> {got:?} in {}", m.wire));
            }
        }
        if let Ok(rt) = RouteHeader::parse(&m.wire) {
            let lr = m.params.contains_key("lr") || Uri::parse(&m.uri).ok().and_then(|u| u.as_sip().map(|s| s.params().contains_key("lr"))).unwrap_or(false);
            for (k, val) in &m.params {
                let up = k.to_ascii_uppercase();
                let got = rt.get_param(&up).cloned().map(|x| x.map(|s| s.to_string()));
                rec.check(got.as_ref() == Some(val), "route-param-case", || format!("{up} -> {got:?} in {}", m.wire));
            }
            rec.check(rt.param_count() == m.params.len(), "route-param-count", || format!("{} for {}", rt.param_count(), m.wire));
            rec.check(rt.has_lr() == lr, "lr", || format!("has_lr {} for {}", rt.has_lr(), m.wire));
        }
    });
    // lists: Path, Service-Route, P-Asserted-Identity, History-Info
    let n = ctx.n(60_000, 2_500_000);
    ctx.run("lists", n, |r, rec| {
        let k = r.range(1, 5) as usize;
        let name = *r.pick(&["Path", "Service-Route", "History-Info", "P-Asserted-Identity", "P-Preferred-Identity"]);
        let items: Vec<Na> = (0..k).map(|_| gen_na(r, false, !name.starts_with("P-"))).filter(|m| m.display.as_deref() != Some("")).collect();
        if items.is_empty() {
            return;
        }
        // spread over several header lines
        let mut lines: Vec<String> = vec![];
        for m in &items {
            if lines.is_empty() || r.chance(1, 3) {
                lines.push(m.wire.clone());
            } else {
                let l = lines.last_mut().unwrap();
                l.push_str(*r.pick(&[",", ", ", " , "]));
                l.push_str(&m.wire);
            }
        }
        let mut h = Headers::new();
        for l in &lines {
            if h.push(name, l.as_str()).is_err() {
                return;
            }
        }
        rec.eval(Some(&(name, lines.clone())));
        rec.sample(|| format!("{name}: {}", lines.join(" | ")));
        rec.count(name, 1);
        let show = || format!("{name}: {lines:?}");
        let cmp = |got: Vec<NameAddr>, rec: &mut Rec, what: &str| {
            if got.len() != items.len() {
                rec.violate(&format!("list-len:{what}"), format!("{what}: {} entries instead of {} for {lines:?}", got.len(), items.len()));
                return;
            }
            for (g, m) in got.iter().zip(&items) {
                if let Err(e) = same(g, m) {
                    rec.violate(&format!("list-parts:{what}"), format!("{what}: {e} in {lines:?}"));
                }
            }
        };
        match name {
            "Path" => match rec.guard("path", &show, || sip_parse::parse_path(&h)) {
                Some(Ok(p)) => {
                    cmp(p.routes().to_vec(), rec, "Path");
                    let s = p.to_string();
                    let mut h2 = Headers::new();
                    if h2.push("Path", s.as_str()).is_ok() {
                        let b = sip_parse::parse_path(&h2);
                        rec.check(b.as_ref() == Ok(&p), "print:Path", || format!("{lines:?} printed as {s}, read back as {b:?}"));
                    }
                    let all = items.iter().all(|m| m.params.contains_key("lr") || Uri::parse(&m.uri).ok().and_then(|u| u.as_sip().map(|s| s.params().contains_key("lr"))).unwrap_or(false));
                    rec.check(p.all_loose_routing() == all, "all-lr", || format!("{lines:?}"));
                }
                Some(Err(e)) => rec.violate("refused:Path", format!("{lines:?}: {e}")),
                None => {}
            },
            "Service-Route" => match rec.guard("service-route", &show, || sip_parse::parse_service_route(&h)) {
                Some(Ok(p)) => {
                    cmp(p.routes().to_vec(), rec, "Service-Route");
                    let s = p.to_string();
                    let mut h2 = Headers::new();
                    if h2.push("Service-Route", s.as_str()).is_ok() {
                        let b = sip_parse::parse_service_route(&h2);
                        rec.check(b.as_ref() == Ok(&p), "print:Service-Route", || format!("{lines:?} printed as {s}, read back as {b:?}"));
                    }
                }
                Some(Err(e)) => rec.violate("refused:Service-Route", format!("{lines:?}: {e}")),
                None => {}
            },
            "History-Info" => match rec.guard("history", &show, || sip_parse::parse_history_info(&h)) {
                Some(Ok(p)) => {
                    let got: Vec<(String, Params)> = p.entries().map(|e| (e.uri().as_str().to_string(), e.params().map(|(k, v)| (k.to_string(), v.map(|s| s.to_string()))).collect())).collect();
                    let want: Vec<(String, Params)> = items.iter().map(|m| (Uri::parse(&m.uri).unwrap().as_str().to_string(), m.params.clone())).collect();
                    rec.check(got == want, "list-parts:History-Info", || format!("{lines:?} gave {got:?}"));
                }
                Some(Err(_)) => {} // entry parameter rules are stricter than name-addr ones
                None => {}
            },
            _ => {
                let (got, printed) = if name == "P-Asserted-Identity" {
                    match rec.guard("pai", &show, || sip_parse::parse_p_asserted_identity(&h)) {
                        Some(Ok(Some(p))) => (p.identities().cloned().collect::<Vec<_>>(), p.to_string()),
                        _ => return, // identity rules (count, parameters) are stricter
                    }
                } else {
                    match rec.guard("ppi", &show, || sip_parse::parse_p_preferred_identity(&h)) {
                        Some(Ok(Some(p))) => (p.identities().cloned().collect::<Vec<_>>(), p.to_string()),
                        _ => return,
                    }
                };
                rec.count("p-identity accepted", 1);
                let g: Vec<(Option<String>, String, Params)> = got.iter().map(|i| (i.display_name().map(|s| s.to_string()), i.uri().as_str().to_string(), i.params().map(|(k, v)| (k.to_string(), v.map(|s| s.to_string()))).collect())).collect();
                let w: Vec<(Option<String>, String, Params)> = items.iter().map(|m| (m.display.clone(), Uri::parse(&m.uri).unwrap().as_str().to_string(), m.params.clone())).collect();
                rec.check(g == w, "list-parts:P-Identity", || format!("{lines:?} gave {g:?}"));
                let mut h2 = Headers::new();
                if h2.push("P-Asserted-Identity", printed.as_str()).is_ok() {
                    let b = sip_parse::parse_p_asserted_identity(&h2).ok().flatten().map(|p| p.identities().cloned().collect::<Vec<_>>());
                    rec.check(b.as_ref() == Some(&got), "print:P-Identity", || format!("{lines:?} printed as {printed}, read back as {b:?}"));
                }
            }
        }
    });
    // History-Info and Geolocation lists of plain parameters must be accepted
    let n = ctx.n(30_000, 600_000);
    ctx.run("entries", n, |r, rec| {
        let geo = r.coin();
        let name = if geo { "Geolocation" } else { "History-Info" };
        let plain = |r: &mut Rng| r.string("abcXYZ0189-.!%*_+'~", 1, 8);
        let mut ix: Vec<String> = vec!["1".into(), "1.1".into(), "1.1.1".into(), "1.2".into(), "1.10".into(), "2".into(), "01".into()];
        r.shuffle(&mut ix);
        let k = r.range(1, 5) as usize;
        let mut items: Vec<(String, Params)> = vec![];
        let mut lines: Vec<String> = vec![];
        for i in 0..k {
            let uri = plain_uri(r);
            let mut p = Params::new();
            let mut w = String::new();
            for _ in 0..r.below(5) {
                let (n, v) = match r.below(5) {
                    0 if !geo => ("index".to_string(), Some(ix[i].clone())),
                    1 if !geo => (r.pick(&["rc", "mp", "np"]).to_string(), r.chance(3, 4).then(|| ix[(i + 1) % 7].clone())),
                    2 if geo => ("inserted-by".to_string(), Some(gen_domain(r))),
                    _ => (plain(r), r.chance(2, 3).then(|| plain(r))),
                };
                if p.contains_key(&n.to_ascii_lowercase()) {
                    continue;
                }
                let spelt: String = n.chars().map(|c| if r.chance(1, 4) { c.to_ascii_uppercase() } else { c }).collect();
                w.push_str(r.pick(&[";", "; ", " ;"]));
                w.push_str(&spelt);
                if let Some(v) = &v {
                    w.push_str(r.pick(&["=", " = "]));
                    w.push_str(v);
                }
                p.insert(n.to_ascii_lowercase(), v);
            }
            let d = match r.below(3) {
                0 => format!("\"{}, <x>;index=9\" ", r.alnum(1, 5)),
                _ => String::new(),
            };
            let e = format!("{d}<{uri}>{w}");
            if lines.is_empty() || r.chance(1, 3) {
                lines.push(e);
            } else {
                let l = lines.last_mut().unwrap();
                l.push_str(*r.pick(&[",", ", ", " , "]));
                l.push_str(&e);
            }
            items.push((Uri::parse(&uri).unwrap().as_str().to_string(), p));
        }
        // now and then one entry is spoilt: the list is refused, not shortened
        let flaw = r.below(6);
        if flaw < 3 {
            let l = r.pick(&lines).clone();
            let i = lines.iter().position(|x| *x == l).unwrap();
            lines[i] = match flaw {
                0 => format!("{l}, <{}", plain_uri(r)),
                1 => format!("{l};zz=1;{}={}", r.pick(&["zz", "ZZ", "Zz"]), r.below(3)),
                _ => format!("{l};z=a\u{1}b"),
            };
        }
        rec.eval(Some(&(name, &lines)));
        rec.sample(|| format!("{name}: {}", lines.join(" | ")));
        let mut h = Headers::new();
        for l in &lines {
            if h.push(name, l.as_str()).is_err() {
                return;
            }
        }
        rec.count(name, 1);
        let show = || format!("{name}: {lines:?}");
        type Got = Result<Vec<(String, Params)>, String>;
        let own = |k: &str, v: Option<&str>| (k.to_string(), v.map(|s| s.to_string()));
        let got: Option<Got> = if geo {
            rec.guard("geolocation", &show, || {
                sip_parse::parse_geolocation_header(&h).map_err(|e| format!("{e:?}")).map(|g| g.values().map(|e| (e.uri().as_str().to_string(), e.params().map(|(k, v)| own(k, v)).collect())).collect())
            })
        } else {
            rec.guard("history", &show, || {
                sip_parse::parse_history_info(&h).map_err(|e| format!("{e:?}")).map(|g| g.entries().map(|e| (e.uri().as_str().to_string(), e.params().map(|(k, v)| own(k, v)).collect())).collect())
            })
        };
        let Some(got) = got else { return };
        if flaw < 3 {
            rec.check(got.is_err(), &format!("spoilt:{name}"), || format!("{lines:?} read as {got:?}"));
            return;
        }
        rec.check(got.as_ref() == Ok(&items), &format!("entries:{name}"), || format!("{lines:?} gave {got:?}, not {items:?}"));
        if let (false, Ok(g)) = (geo, sip_parse::parse_history_info(&h)) {
            for want in ["1", "1.1", "1.1.1", "1.10", "01", "10", "", "1."] {
                let m = items.iter().position(|(_, p)| p.get("index") == Some(&Some(want.to_string())));
                let f = g.find_by_index(want).and_then(|e| g.as_slice().iter().position(|x| std::ptr::eq(x, e)));
                rec.check(f == m, "find-index", || format!("{lines:?}: index {want} is entry {f:?}, not {m:?}"));
            }
            for (e, (_, p)) in g.entries().zip(&items) {
                rec.check(e.index() == p.get("index").and_then(|v| v.as_deref()) && e.reason_code() == p.get("rc").and_then(|v| v.as_deref()) && e.param_count() == p.len(), "history-fields", || format!("{lines:?}: {e:?}"));
            }
            rec.check(g.len() == k && g.first() == g.get(0) && g.last() == g.get(k - 1) && g.get(k).is_none(), "history-ends", || format!("{lines:?}"));
        }
    });
    // an address that repeats a parameter is refused wherever it is read
    let n = ctx.n(20_000, 400_000);
    ctx.run("repeated", n, |r, rec| {
        let m = gen_na(r, true, true);
        let Some(k) = m.params.keys().next().cloned() else { return };
        let again: String = k.chars().map(|c| if r.coin() { c.to_ascii_uppercase() } else { c }).collect();
        let w = format!("{};{again}{}", m.wire, if r.coin() { format!("={}", r.token(1, 6)) } else { String::new() });
        rec.eval(Some(&w));
        let v = SmolStr::new(&w);
        let show = || w.clone();
        let list = |name: &str, with: bool| {
            let mut h = Headers::new();
            let _ = h.push(name, if with { format!("<sip:a@b.example>, {w}, <sip:c@d.example>") } else { w.clone() }.as_str());
            h
        };
        let with = r.coin() && m.wire.contains('<');
        let read: [(&str, Option<bool>); 9] = [
            ("Contact", rec.guard("contact", &show, || sip_parse::parse_contact_header(&v).is_some())),
            ("From", rec.guard("from", &show, || sip_parse::parse_from_header(&v).is_some())),
            ("To", rec.guard("to", &show, || sip_parse::parse_to_header(&v).is_some())),
            ("Route", rec.guard("route", &show, || sip_parse::parse_route_header(&v).is_some())),
            ("RouteHeader", rec.guard("route", &show, || RouteHeader::parse(&w).is_ok())),
            ("Path", rec.guard("path", &show, || sip_parse::parse_path(&list("Path", with)).is_ok())),
            ("Service-Route", rec.guard("service-route", &show, || sip_parse::parse_service_route(&list("Service-Route", with)).is_ok())),
            ("History-Info", rec.guard("history", &show, || sip_parse::parse_history_info(&list("History-Info", with)).is_ok())),
            ("P-Asserted-Identity", rec.guard("pai", &show, || sip_parse::parse_p_asserted_identity(&list("P-Asserted-Identity", false)).is_ok_and(|x| x.is_some()))),
        ];
        for (what, ok) in read {
            rec.check(ok != Some(true), &format!("repeated:{what}"), || format!("{what} accepts {w:?}"));
        }
    });
    // simple P-identities must be accepted
    let n = ctx.n(15_000, 300_000);
    ctx.run("p-identity", n, |r, rec| {
        let sip = plain_uri(r);
        let tel = gen_tel(r);
        let d = r.alnum(1, 10);
        let which = r.below(3);
        let w = match which {
            0 => format!("\"{d}\" <{sip}>"),
            1 => format!("<{sip}>"),
            _ => format!("\"{d}\" <{sip}>, <{tel}>"),
        };
        if which == 2 && sip.starts_with("tel") {
            return;
        }
        rec.eval(Some(&w));
        let mut h = Headers::new();
        if h.push("P-Asserted-Identity", w.as_str()).is_err() {
            return;
        }
        match sip_parse::parse_p_asserted_identity(&h) {
            Ok(Some(p)) => {
                rec.check(p.len() == if which == 2 { 2 } else { 1 }, "pai-len", || w.clone());
                if sip.starts_with("sip") {
                    rec.check(p.sip_identity() == Some(Uri::parse(&sip).unwrap().as_str()), "pai-sip", || format!("{w}: {:?}", p.sip_identity()));
                }
                if which == 2 {
                    rec.check(p.tel_identity() == Some(Uri::parse(&tel).unwrap().as_str()), "pai-tel", || format!("{w}: {:?}", p.tel_identity()));
                }
            }
            e => rec.violate("pai-refused", format!("{w}: {e:?}")),
        }
        // any mixture of identities, by text and built: the first of each kind
        let uris: Vec<String> = (0..r.range(1, 10)).map(|_| if r.chance(2, 5) { gen_tel(r) } else { plain_uri(r) }).collect();
        let line = uris.iter().map(|u| format!("<{u}>")).collect::<Vec<_>>().join(", ");
        let parsed: Vec<Uri> = uris.iter().map(|u| Uri::parse(u).expect("own uri")).collect();
        let first = |f: fn(&Uri) -> bool| parsed.iter().find(|u| f(u)).map(|u| u.as_str().to_string());
        let (ws, wt) = (first(Uri::is_sip), first(Uri::is_tel));
        let want = (uris.len(), ws.is_some(), wt.is_some(), ws, wt);
        let mut h = Headers::new();
        if h.push("P-Asserted-Identity", line.as_str()).is_ok() && h.push("P-Preferred-Identity", line.as_str()).is_ok() {
            let own = |s: Option<&str>| s.map(String::from);
            let a = sip_parse::parse_p_asserted_identity(&h).ok().flatten();
            let b = sip_parse::parse_p_preferred_identity(&h).ok().flatten();
            let c = PAssertedIdentityHeader::new(parsed.iter().cloned().map(PIdentity::from_uri).collect()).ok();
            let d = PPreferredIdentityHeader::new(parsed.iter().cloned().map(PIdentity::from_uri).collect()).ok();
            let got = [
                a.map(|p| (p.len(), p.has_sip_identity(), p.has_tel_identity(), own(p.sip_identity()), own(p.tel_identity()))),
                b.map(|p| (p.len(), p.has_sip_identity(), p.has_tel_identity(), own(p.sip_identity()), own(p.tel_identity()))),
                c.map(|p| (p.len(), p.has_sip_identity(), p.has_tel_identity(), own(p.sip_identity()), own(p.tel_identity()))),
                d.map(|p| (p.len(), p.has_sip_identity(), p.has_tel_identity(), own(p.sip_identity()), own(p.tel_identity()))),
            ];
            for (what, g) in ["asserted read", "preferred read", "asserted built", "preferred built"].iter().zip(got) {
                rec.check(g.as_ref() == Some(&want), "identity-first", || format!("{what} {line}: {g:?}, not {want:?}"));
            }
        }
        // the shorthand constructors, with and without the scheme
        let host = if sip.starts_with("sip") { SipUri::parse(&sip).ok() } else { None };
        let bare = tel.trim_start_matches("tel:").to_string();
        for number in [tel.clone(), bare] {
            let built: [(&str, Result<Vec<String>, String>); 2] = [
                (
                    "asserted",
                    PAssertedIdentityHeader::single_tel(&number).map_err(|e| format!("{e:?}")).and_then(|a| {
                        let mut v: Vec<String> = a.identities().map(|i| i.uri().to_string()).collect();
                        if let Some(s) = &host {
                            let b = PAssertedIdentityHeader::sip_and_tel(s.clone(), &number).map_err(|e| format!("{e:?}"))?;
                            v.push(format!("{:?}/{:?}", b.sip_identity(), b.tel_identity()));
                        }
                        Ok(v)
                    }),
                ),
                (
                    "preferred",
                    PPreferredIdentityHeader::single_tel(&number).map_err(|e| format!("{e:?}")).and_then(|a| {
                        let mut v: Vec<String> = a.identities().map(|i| i.uri().to_string()).collect();
                        if let Some(s) = &host {
                            let b = PPreferredIdentityHeader::sip_and_tel(s.clone(), &number).map_err(|e| format!("{e:?}"))?;
                            v.push(format!("{:?}/{:?}", b.sip_identity(), b.tel_identity()));
                        }
                        Ok(v)
                    }),
                ),
            ];
            let mut want = vec![tel.clone()];
            if let Some(s) = &host {
                want.push(format!("{:?}/{:?}", Some(s.as_str()), Some(tel.as_str())));
            }
            for (what, got) in built {
                rec.check(got.as_ref() == Ok(&want), "identity-constructor", || format!("{what} {number:?} with {sip}: {got:?}, not {want:?}"));
            }
        }
    });
    // Via
    let n = ctx.n(100_000, 4_000_000);
    ctx.run("via", n, |r, rec| {
        let tr = if r.chance(4, 5) { r.pick(&["UDP", "TCP", "TLS", "WS", "WSS", "SCTP", "TLS-SCTP"]).to_string() } else { r.token(1, 8) };
        let (hw, _) = gen_host(r);
        let sb = if r.coin() { format!("{hw}:{}", r.range(1, 65535)) } else { hw };
        let sp = if r.chance(1, 5) { "  " } else { " " };
        let (pw, p) = {
            let (mut w, mut p) = gen_params(r, 4, false);
            if !p.contains_key("branch") {
                let b = gen_branch(r);
                w.push_str(&format!(";{}={b}", r.pick(&["branch", "Branch"])));
                p.insert("branch".into(), Some(b));
            }
            if r.chance(1, 3) && !p.contains_key("rport") {
                w.push_str(";rport");
                p.insert("rport".into(), None);
            }
            if r.chance(1, 3) && !p.contains_key("received") {
                let v = if r.coin() { gen_ipv4(r) } else { gen_ipv6(r) };
                w.push_str(&format!(";received={v}"));
                p.insert("received".into(), Some(v));
            }
            (w, p)
        };
        let w = format!("{}/2.0/{tr}{sp}{sb}{pw}", r.pick(&["SIP", "SIP", "sip"]));
        rec.eval(Some(&w));
        rec.sample(|| w.clone());
        match ViaHeader::parse(&w) {
            Err(e) => rec.violate("via-refused", format!("{w}: {e}")),
            Ok(v) => {
                let gp = show_params(v.params().iter());
                rec.check(v.transport() == tr && v.sent_by() == sb && gp == p, "via-parts", || format!("{w}: {v:?}"));
                let s = v.to_string();
                rec.check(ViaHeader::parse(&s).as_ref() == Ok(&v), "via-print", || format!("{w} printed as {s}"));
                rec.check(sip_parse::parse_via_header(&SmolStr::new(&w)).as_ref() == Some(&v), "via-same", || w.clone());
                for (k, val) in &p {
                    let g = v.param(&k.to_ascii_uppercase()).cloned().map(|x| x.map(|s| s.to_string()));
                    rec.check(g.as_ref() == Some(val), "via-param", || format!("{k} in {w}: {g:?}"));
                }
                // edits
                let mut e = v.clone();
                let (k, nv) = (r.pick(&["received", "rport", "branch", "X-New"]).to_string(), r.token(1, 8));
                let had = p.contains_key(&k.to_ascii_lowercase());
                let add = e.add_param(k.as_str(), Some(nv.as_str()));
                rec.check(add.is_ok() != had, "via-add", || format!("add_param({k}) on {w}: {add:?}"));
                if had {
                    rec.check(e == v, "via-add-changed", || format!("refused add_param changed {w}"));
                    rec.check(v.clone().with_param(k.as_str(), Some(nv.as_str())).is_err(), "via-with", || w.clone());
                }
                rec.check(e.set_param(k.as_str(), Some(nv.as_str())).is_ok(), "via-set", || w.clone());
                let mut want = p.clone();
                want.insert(k.to_ascii_lowercase(), Some(nv.clone()));
                let y = ViaHeader::parse(&e.to_string());
                let ok = y.as_ref().map(|y| show_params(y.params().iter()) == want && y.transport() == tr && y.sent_by() == sb);
                rec.check(ok == Ok(true), "via-edit", || format!("{w} with {k}={nv}: {e}"));
                // a hostile value never becomes further parameters or lines
                let hv = r.nasty(1, 4);
                let mut e = v.clone();
                if e.set_param("x-h", Some(hv.as_str())).is_ok() {
                    let s = e.to_string();
                    let y = ViaHeader::parse(&s);
                    rec.check(one_line(&s) && y.as_ref() == Ok(&e), "via-inject", || format!("value {hv:?} printed {s:?}"));
                }
                let hs = hostile_text(r, sb.clone());
                if let Ok(x) = ViaHeader::new(tr.as_str(), hs.as_str()) {
                    let s = x.to_string();
                    rec.check(ViaHeader::parse(&s).as_ref() == Ok(&x), "via-sentby", || format!("sent-by {hs:?} printed {s:?}"));
                }
            }
        }
        // malformed
        let blank = *r.pick(&["\t", " \t", "\t "]);
        let tabbed = format!("SIP/2.0/{tr}{blank}{sb}{blank};a=b{blank};c");
        rec.check(ViaHeader::parse(&tabbed).is_ok_and(|x| x.sent_by() == sb && x.params().len() == 2 && x.param("c") == Some(&None)), "via-tabs", || format!("{tabbed:?}"));
        let bad = match r.below(13) {
            7 => format!("SIP/2.0/{tr}/{} {sb}", r.token(1, 4)),
            8 => format!("SIP/{}/{tr} {sb}", r.pick(&["2.00", "2.0x", "2.0.1", "02.0", "2", "", "2.", "3.0", "20"])),
            9 => format!("SIP/2.0/{tr} {sb};{}", r.pick(&["rport;rport", "a;A", "rport;RPORT=5", "x=1;y;X"])),
            10 => format!("SIP/2.0/{tr} a{}b", r.pick(&[",", "@", "<", ">", "\"", "(", "?", "=", "&", "$", "%"])),
            11 => format!("{}/2.0/{tr} {sb}", r.pick(&["SIPS", "HTTP", "SI", ""])),
            12 => format!("SIP/2.0/{tr} [::1{}", r.pick(&["", "]x", "]5060", "]:", "]:0", "]]", "%eth0]", "]:+5060"])),
            0 => format!("SIP/1.0/{tr} {sb}"),
            1 => format!("SIP/2.0 {sb}"),
            2 => format!("SIP/2.0/{tr}"),
            3 => format!("SIP/2.0/{tr} {sb} x"),
            4 => format!("SIP/2.0/{tr} h:{}", r.pick(&["0", "65536", "", "x", "-1", "99999999999"])),
            5 => format!("SIP/2.0/{tr} {sb};branch=a;Branch=b"),
            _ => format!("SIP/2.0/{tr} {sb};a\r\nX: y"),
        };
        rec.check(ViaHeader::parse(&bad).is_err(), "via-lenient", || format!("{bad:?} accepted"));
    });
    // Referred-By
    let n = ctx.n(40_000, 1_500_000);
    ctx.run("referred-by", n, |r, rec| {
        let m = Na { params: Params::new(), ..gen_na(r, false, false) };
        let uri = plain_uri(r);
        if m.display.as_deref() == Some("") {
            return;
        }
        let base = m.wire[..m.wire.rfind('>').unwrap() + 1].to_string();
        let _ = uri;
        let mut w = base;
        let cid = if r.coin() { Some(format!("{}@{}", r.alnum(1, 8), gen_domain(r))) } else { None };
        let mut p: BTreeMap<String, String> = BTreeMap::new();
        if let Some(c) = &cid {
            w.push_str(&format!(";{}=\"{c}\"", r.pick(&["cid", "CID"])));
        }
        for _ in 0..r.below(3) {
            let (k, v) = (r.token(1, 6), r.token(1, 6));
            if k.eq_ignore_ascii_case("cid") || p.insert(k.to_ascii_lowercase(), v.clone()).is_some() {
                return;
            }
            w.push_str(&format!(";{k}={v}"));
        }
        rec.eval(Some(&w));
        rec.sample(|| w.clone());
        match rec.guard("referred-by", &|| w.clone(), || ReferredByHeader::parse(&w)) {
            Some(Ok(h)) => {
                if let Err(e) = same(h.name_addr(), &m) {
                    rec.violate("referred-by-parts", format!("{w}: {e}"));
                }
                let gp: BTreeMap<String, String> = h.params().map(|(k, v)| (k.to_string(), v.to_string())).collect();
                rec.check(h.get_cid() == cid.as_deref() && h.has_signature() == cid.is_some() && gp == p, "referred-by-params", || format!("{w}: {h:?}"));
                let s = h.to_string();
                rec.check(ReferredByHeader::parse(&s).as_ref() == Ok(&h), "referred-by-print", || format!("{w} printed {s}"));
            }
            Some(Err(e)) => rec.violate("referred-by-refused", format!("{w}: {e}")),
            None => {}
        }
        // one value for each parameter
        if let Some(name) = p.keys().map(String::as_str).chain(cid.as_ref().map(|_| "cid")).next() {
            let bad = format!("{w};{}={}", if r.coin() { name.to_string() } else { name.to_ascii_uppercase() }, r.pick(&["\"other\"", "other"]));
            rec.check(ReferredByHeader::parse(&bad).is_err(), "referred-by-lenient", || format!("{bad} accepted"));
        }
    });
    // built through the interface with arbitrary display text and parameters
    let n = ctx.n(60_000, 2_000_000);
    ctx.run("built", n, |r, rec| {
        let uri = Uri::parse(&plain_uri(r)).expect("generated uri");
        let disp = if r.chance(2, 3) { Some(if r.coin() { r.nasty(1, 8) } else { gen_quoted(r, 1, 10).1 }) } else { None };
        let mut params: BTreeMap<SmolStr, Option<SmolStr>> = BTreeMap::new();
        for _ in 0..r.below(3) {
            let v = if r.chance(1, 4) { None } else { Some(SmolStr::new(if r.coin() { r.nasty(1, 6) } else { r.token(1, 8) })) };
            params.insert(SmolStr::new(r.token(1, 6).to_ascii_lowercase()), v);
        }
        let key = format!("{disp:?} {uri} {params:?}");
        rec.eval(Some(&key));
        let Ok(na) = NameAddr::new(disp.as_deref().map(SmolStr::new), uri, params) else { return };
        rec.count("built", 1);
        let s = RouteHeader::new(na.clone()).to_string();
        rec.check(one_line(&s), "built-line", || format!("{key}: {s:?}"));
        let trimmed_ok = na.display_name().map(|d| !d.is_empty()).unwrap_or(true);
        if trimmed_ok && s.len() <= 2048 {
            let b = RouteHeader::parse(&s).ok().map(|x| x.into_inner());
            rec.check(b.as_ref() == Some(&na), "built-print", || format!("{key} printed {s:?}, read back {b:?}"));
            let b = sip_parse::parse_from_header(&SmolStr::new(&s)).map(|x| x.inner().clone());
            rec.check(b.as_ref() == Some(&na), "built-print-parse", || format!("{key} printed {s:?}, read back {b:?}"));
        }
    });
    // hostile text
    let n = ctx.n(150_000, 6_000_000);
    ctx.run("hostile", n, |r, rec| {
        let base = match r.below(4) {
            0 => gen_via(r),
            1 => r.nasty(0, 12),
            2 => {
                let m = gen_na(r, true, true);
                format!("{},{}", m.wire, gen_na(r, false, true).wire)
            }
            _ => gen_na(r, true, true).wire,
        };
        let s = hostile_text(r, base);
        rec.eval(Some(&s));
        let v = SmolStr::new(&s);
        let show = || format!("{s:?}");
        let nas: [Option<NameAddr>; 4] = [
            rec.guard("contact", &show, || sip_parse::parse_contact_header(&v).map(|x| x.inner().clone())).flatten(),
            rec.guard("to", &show, || sip_parse::parse_to_header(&v).map(|x| x.inner().clone())).flatten(),
            rec.guard("route", &show, || RouteHeader::parse(&s).ok().map(|x| x.into_inner())).flatten(),
            rec.guard("call-info", &show, || sip_parse::parse_call_info_header(&v).map(|x| x.inner().clone())).flatten(),
        ];
        for na in nas.iter().flatten() {
            rec.count("hostile accepted", 1);
            let p = RouteHeader::new(na.clone()).to_string();
            rec.check(one_line(&p), "hostile-line", || format!("{s:?} printed {p:?}"));
            rec.check(na.params_map().len() <= NameAddr::MAX_PARAM_COUNT, "limit", || format!("{s:?}"));
        }
        if let Some(Ok(x)) = rec.guard("ViaHeader::parse", &show, || ViaHeader::parse(&s)) {
            let p = x.to_string();
            rec.check(one_line(&p) && x.params().len() <= 20 && ViaHeader::parse(&p).as_ref() == Ok(&x), "hostile-via", || format!("{s:?} printed {p:?}"));
        }
        if let Some(Ok(x)) = rec.guard("ReferredBy", &show, || ReferredByHeader::parse(&s)) {
            let p = x.to_string();
            rec.check(one_line(&p), "hostile-line", || format!("{s:?} printed {p:?}"));
        }
        let mut h = Headers::new();
        let name = *r.pick(&["Path", "Service-Route", "History-Info", "P-Asserted-Identity", "Geolocation", "Call-Info", "Route"]);
        if h.push(name, s.as_str()).is_ok() {
            rec.guard("list", &show, || {
                let _ = sip_parse::parse_path(&h).map(|p| p.to_string());
                let _ = sip_parse::parse_service_route(&h).map(|p| p.to_string());
                let _ = sip_parse::parse_history_info(&h);
                let _ = sip_parse::parse_p_asserted_identity(&h).map(|p| p.map(|p| p.to_string()));
                let _ = sip_parse::parse_geolocation_header(&h);
                let _ = sip_parse::parse_call_info_headers(&h);
                let _ = sip_parse::parse_route_headers(&h, "Route");
            });
        }
    });
    ctx.finish()
}
