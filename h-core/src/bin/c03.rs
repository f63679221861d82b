//! C03: header collection behaves as a bounded ordered multimap; no API input
//! can add lines to a serialised message.
use bytes::Bytes;
use h_core::*;
use sip_core::{Header, Headers, Method, Request, RequestLine, Response, SipUri, StatusLine, Uri, ViaHeader};

fn tok(c: char) -> bool {
    c.is_ascii_alphanumeric() || "!%'*+-.^_`|~".contains(c)
}
fn name_ok(n: &str) -> bool {
    !n.is_empty() && n.len() <= 128 && n.chars().all(tok)
}
fn value_ok(v: &str) -> bool {
    v.len() <= 8192 && !v.contains(['\r', '\n', '\0'])
}
fn gen_name(r: &mut Rng) -> String {
    match r.below(12) {
        0 => r.nasty(0, 4),
        1 => "n".repeat(r.range(126, 131) as usize),
        2 => format!("{}{}", r.token(1, 4), r.pick(&[" ", ":", "\r\n", "\n", "\0", "é", "(", "@", "\t", ""])),
        _ => {
            let n = *r.pick(&["Via", "via", "VIA", "Route", "route", "To", "X-a", "x-A", "X-b", "Contact", "CONTACT"]);
            n.to_string()
        }
    }
}
fn gen_value(r: &mut Rng) -> String {
    match r.below(12) {
        0 => r.nasty(0, 8),
        1 => "v".repeat(r.range(8190, 8194) as usize),
        2 => format!("{}{}{}", r.alnum(0, 4), r.pick(&["\r\n", "\r", "\n", "\0", "\r\nX: y", "\u{85}", "\u{2028}"]), r.alnum(0, 4)),
        _ => r.alnum(0, 6),
    }
}
type Model = Vec<(String, String)>;
fn snapshot(h: &Headers) -> Model {
    h.iter().map(|x| (x.name().to_string(), x.value().to_string())).collect()
}
fn serial_lines(h: &Headers) -> Vec<Vec<u8>> {
    let q = Request::new(RequestLine::new(Method::Options, Uri::parse("sip:a@b").unwrap()), h.clone(), Bytes::from_static(b"BODY")).unwrap();
    let a = sip_parse::serialize_request(&q);
    let q = Response::new(StatusLine::new(200, "OK").unwrap(), h.clone(), Bytes::from_static(b"BODY")).unwrap();
    let b = sip_parse::serialize_response(&q);
    vec![a.to_vec(), b.to_vec()]
}
/// The head must have exactly start line + expected header lines (+CL, +MF) and no stray CR/LF/NUL.
fn shape(bytes: &[u8], h: &Headers, rec: &mut Rec, what: &str) {
    let p = bytes.windows(4).position(|w| w == b"\r\n\r\n").unwrap_or(bytes.len());
    let head = &bytes[..p];
    let mut crlf = 0;
    let mut i = 0;
    while i < head.len() {
        match head[i] {
            b'\r' if head.get(i + 1) == Some(&b'\n') => {
                crlf += 1;
                i += 1;
            }
            b'\r' | b'\n' | 0 => {
                rec.violate("stray-ctl", format!("{what}: stray control byte in {}", esc(bytes)));
                return;
            }
            _ => {}
        }
        i += 1;
    }
    let is_cl = |n: &str| n.eq_ignore_ascii_case("content-length") || n.eq_ignore_ascii_case("l");
    let mut want = h.iter().filter(|x| !is_cl(x.name())).count() + 1;
    if !bytes.starts_with(b"SIP/2.0") && !h.contains("Max-Forwards") {
        want += 1;
    }
    rec.check(crlf == want && bytes[p..].ends_with(b"BODY") && bytes.len() == p + 8, "extra-lines", || format!("{what}: {crlf} header lines instead of {want}: {}", esc(bytes)));
}

fn main() {
    let mut ctx = Ctx::new("C03", "operation sequences on a header collection checked step by step against a list model, and hostile strings given to every constructor that feeds a message; distinct by operation sequence");
    let n = ctx.n(12_000, 600_000);
    ctx.run("multimap", n, |r, rec| {
        let mut h = Headers::new();
        let mut m: Model = vec![];
        let mut log = String::new();
        let long = r.chance(1, 30);
        let steps = if long { 230 } else { r.range(1, 30) };
        for _ in 0..steps {
            let (n, v) = (gen_name(r), gen_value(r));
            let ok = name_ok(&n) && value_ok(&v);
            let op = if long { r.below(2) * 5 } else { r.below(11) };
            log.push_str(&format!("{op}:{n:?}={:?};", if v.len() > 20 { &v[..v.char_indices().nth(5).map(|x| x.0).unwrap_or(0)] } else { &v }));
            let before = m.clone();
            match op {
                0 | 1 => {
                    let res = h.push(&n, &v).is_ok();
                    let want = ok && m.len() < 200;
                    if want {
                        m.push((n.clone(), v.clone()));
                    }
                    rec.check(res == want, "push", || format!("push({n:?}, {} bytes) ok={res}, wanted {want}", v.len()));
                }
                2 => {
                    let pos = m.iter().position(|x| x.0.eq_ignore_ascii_case(&n));
                    let res = h.set_or_push(&n, &v).is_ok();
                    let want = ok && (pos.is_some() || m.len() < 200);
                    if want {
                        match pos {
                            Some(p) => m[p].1 = v.clone(),
                            None => m.push((n.clone(), v.clone())),
                        }
                    }
                    rec.check(res == want, "set_or_push", || format!("set_or_push({n:?}) ok={res}, wanted {want}; {log}"));
                }
                3 => {
                    let pos = m.iter().position(|x| x.0.eq_ignore_ascii_case(&n));
                    let res = h.replace_first(&n, &v);
                    if value_ok(&v) {
                        if let Some(p) = pos {
                            m[p].1 = v.clone();
                        }
                        rec.check(res == Ok(pos.is_some()), "replace_first", || format!("replace_first({n:?}) = {res:?}; {log}"));
                    } else {
                        rec.check(res.is_err(), "replace_first", || format!("replace_first accepted a bad value {v:?}"));
                    }
                }
                4 => {
                    let k = m.iter().filter(|x| x.0.eq_ignore_ascii_case(&n)).count();
                    m.retain(|x| !x.0.eq_ignore_ascii_case(&n));
                    let res = h.remove(&n);
                    rec.check(res == k, "remove", || format!("remove({n:?}) = {res}, wanted {k}; {log}"));
                }
                5 => {
                    let x = Header::new(&n, &v);
                    rec.check(x.is_ok() == ok, "Header::new", || format!("Header::new({n:?}, {v:?}) ok={}", x.is_ok()));
                    if let Ok(x) = x {
                        let res = h.push_header(x).is_ok();
                        let want = m.len() < 200;
                        if want {
                            m.push((n.clone(), v.clone()));
                        }
                        rec.check(res == want, "push_header", || format!("push_header ok={res}, {} held", before.len()));
                    }
                }
                6 if !m.is_empty() => {
                    let i = r.below(m.len());
                    let x = h.remove_at(i);
                    let w = m.remove(i);
                    rec.check((x.name(), x.value()) == (w.0.as_str(), w.1.as_str()), "remove_at", || format!("remove_at({i}) = {x:?}, wanted {w:?}; {log}"));
                }
                7 => {
                    let c = *r.pick(&['a', 'b', '1', 'X']);
                    h.retain(|x| !x.value().contains(c));
                    m.retain(|x| !x.1.contains(c));
                }
                8 => {
                    let got: Vec<&str> = h.get_all(&n).collect();
                    let want: Vec<&str> = m.iter().filter(|x| x.0.eq_ignore_ascii_case(&n)).map(|x| x.1.as_str()).collect();
                    rec.check(got == want && h.get(&n) == want.first().copied() && h.contains(&n) == !want.is_empty() && h.count(&n) == want.len(), "lookup", || {
                        format!("lookup {n:?}: {got:?}, wanted {want:?}; {log}")
                    });
                    let got: Vec<&str> = h.get_all_headers(&n).map(|x| x.value()).collect();
                    rec.check(got == want, "lookup-headers", || format!("get_all_headers {n:?}: {got:?}; {log}"));
                    let got: Vec<&str> = h.get_all_smol(&n).map(|x| x.as_str()).collect();
                    rec.check(got == want && h.get_smol(&n).map(|x| x.as_str()) == want.first().copied(), "lookup-smol", || format!("get_all_smol {n:?}: {got:?}; {log}"));
                }
                9 => {
                    let k = if r.chance(1, 5) { r.range(195, 205) as usize } else { r.below(5) };
                    let all: Vec<Header> = m.iter().cloned().chain((0..k).map(|i| ("X-e".to_string(), i.to_string()))).map(|x| Header::new(x.0, x.1).unwrap()).collect();
                    let res = Headers::from_vec(all.clone());
                    rec.check(res.is_ok() == (all.len() <= 200), "from_vec", || format!("from_vec of {} headers ok={}", all.len(), res.is_ok()));
                    let col: Headers = all.iter().cloned().collect();
                    rec.check(col.len() == all.len().min(200), "collect", || format!("collect of {} headers holds {}", all.len(), col.len()));
                    if let Ok(x) = res {
                        h = x;
                        m.extend((0..k).map(|i| ("X-e".to_string(), i.to_string())));
                    }
                }
                10 => h.reserve(r.below(300)),
                _ => {}
            }
            if !rec.check(snapshot(&h) == m && h.len() == m.len() && h.is_empty() == m.is_empty(), "state", || format!("collection is {:?}, model {m:?} after {log}", snapshot(&h))) {
                return;
            }
        }
        rec.eval(Some(&log));
        rec.sample(|| log.clone());
        for b in serial_lines(&h) {
            shape(&b, &h, rec, "multimap");
        }
    });
    let n = ctx.n(40_000, 2_000_000);
    ctx.run("injection", n, |r, rec| {
        let s = match r.below(4) {
            0 => format!("{}{}{}", r.alnum(0, 4), r.pick(&["\r\n", "\r", "\n", "\0", "\r\n\r\n", "\r\nX-Evil: 1", "\n\n"]), r.alnum(0, 4)),
            1 => {
                let k = r.range(60, 300) as usize;
                "a".repeat(k)
            }
            _ => r.nasty(1, 6),
        };
        rec.eval(Some(&s));
        let has_ctl = s.contains(['\r', '\n', '\0']);
        let show = || format!("{s:?}");
        let base = Headers::new();
        let mut uris: Vec<Uri> = vec![];
        let mut checked = 0u64;
        rec.guard("uri builders", &show, || {
            uris.extend(Uri::parse(&format!("sip:{s}@host")));
            uris.extend(Uri::parse(&s));
            uris.extend(Uri::parse(&format!("sip:{s}")));
            uris.extend(Uri::parse(&format!("tel:{s}")));
            uris.extend(SipUri::new(s.clone()).map(Uri::from));
            let b = SipUri::parse("sip:u@h.example;x=1").unwrap();
            uris.extend(b.clone().with_user(s.clone()).map(Uri::from));
            uris.extend(b.clone().with_host(s.clone()).map(Uri::from));
            uris.extend(b.clone().with_param("p", Some(s.clone())).map(Uri::from));
            uris.extend(b.clone().with_param(s.clone(), None::<String>).map(Uri::from));
        });
        for u in uris {
            let q = Request::new(RequestLine::new(Method::Invite, u.clone()), base.clone(), Bytes::from_static(b"BODY")).unwrap();
            let b = sip_parse::serialize_request(&q);
            shape(&b, &base, rec, "uri");
            rec.check(!u.as_str().contains(['\r', '\n', '\0']), "uri-ctl", || format!("URI {:?} built from {s:?}", u.as_str()));
            checked += 1;
        }
        let m = Method::from_token(&s);
        if let Ok(m) = m {
            let q = Request::new(RequestLine::new(m.clone(), Uri::parse("sip:a@b").unwrap()), base.clone(), Bytes::from_static(b"BODY")).unwrap();
            let b = sip_parse::serialize_request(&q);
            shape(&b, &base, rec, "method");
            rec.check(!m.as_str().contains([' ', '\r', '\n', '\0', ':', '\t']), "method-token", || format!("method {:?} accepted", m.as_str()));
            checked += 1;
        }
        let code = r.range(0, 1200) as u16;
        match StatusLine::new(code, &s) {
            Ok(l) => {
                rec.check((100..700).contains(&code) && s.len() <= 256 && !has_ctl, "status-line", || format!("StatusLine::new({code}, {s:?}) accepted"));
                let q = Response::new(l, base.clone(), Bytes::from_static(b"BODY")).unwrap();
                shape(&sip_parse::serialize_response(&q), &base, rec, "reason");
                checked += 1;
            }
            Err(_) => {
                rec.check(!((100..700).contains(&code) && s.len() <= 256 && !s.chars().any(|c| c.is_control())), "status-line-refused", || format!("StatusLine::new({code}, {s:?}) refused"));
            }
        }
        rec.guard("via", &show, || ()).unwrap();
        let mut vias = vec![];
        vias.extend(ViaHeader::new("UDP", s.clone()));
        vias.extend(ViaHeader::new(s.clone(), "h:5060"));
        vias.extend(ViaHeader::new("UDP", "h").unwrap().with_param("p", Some(s.clone())));
        vias.extend(ViaHeader::new("UDP", "h").unwrap().with_param(s.clone(), None::<String>));
        let mut v = ViaHeader::new("UDP", "h").unwrap();
        let _ = v.set_param("branch", Some(s.clone()));
        let _ = v.add_param("q", Some(s.clone()));
        vias.push(v);
        for v in vias {
            let t = v.to_string();
            rec.check(!t.contains(['\r', '\n', '\0']), "via-ctl", || format!("Via {t:?} built from {s:?}"));
            checked += 1;
        }
        rec.count("constructed_from_hostile_input", checked);
    });
    ctx.finish()
}
