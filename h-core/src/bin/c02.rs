//! C02: messages survive parse and serialise unchanged.
use bytes::Bytes;
use h_core::*;
use sip_core::{Headers, Method, Request, RequestLine, Response, StatusLine, Uri};

fn same_headers(h: &Headers, m: &MsgModel, rec: &mut Rec, what: &str, w: &[u8], ignore: &[&str]) {
    let got: Vec<(String, String)> = h.iter().filter(|x| !ignore.iter().any(|i| x.name().eq_ignore_ascii_case(i))).map(|x| (x.name().to_string(), x.value().to_string())).collect();
    let want: Vec<(&str, &str)> = m.headers.iter().filter(|x| !ignore.iter().any(|i| x.0.eq_ignore_ascii_case(i))).map(|x| (x.0.as_str(), x.2.as_str())).collect();
    let ok = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.0.eq_ignore_ascii_case(w.0) && g.1 == w.1);
    rec.check(ok, &format!("headers:{what}"), || format!("{what}: headers {got:?} instead of {want:?} for {}", esc(w)));
}
fn mf(h: &Headers) -> usize {
    h.count("Max-Forwards")
}
/// Lines of the head of a serialised message.
fn check_wire_shape(b: &[u8], body: &[u8], rec: &mut Rec, what: &str) {
    let Some(p) = b.windows(4).position(|w| w == b"\r\n\r\n") else {
        rec.violate("shape", format!("{what}: no blank line in {}", esc(b)));
        return;
    };
    rec.check(&b[p + 4..] == body, "shape-body", || format!("{what}: body altered in {}", esc(b)));
    let head = String::from_utf8_lossy(&b[..p]).to_string();
    let cl: Vec<&str> = head.split("\r\n").skip(1).filter(|l| {
        let n = l.split(':').next().unwrap_or("").trim().to_ascii_lowercase();
        n == "content-length" || n == "l"
    }).collect();
    rec.check(cl.len() == 1 && cl[0].split_once(':').map(|x| x.1.trim().to_string()) == Some(body.len().to_string()), "shape-cl", || {
        format!("{what}: Content-Length lines {cl:?} for a body of {} bytes", body.len())
    });
}

fn main() {
    let mut ctx = Ctx::new("C02", "well-formed messages with a known model (method, URI, ordered headers, body) in random wire spellings; distinct by wire bytes");
    let n = ctx.n(80_000, 4_000_000);
    ctx.run("fidelity", n, |r, rec| {
        let m = MsgModel::gen(r);
        let w = m.wire(r);
        let b = Bytes::from(w.clone());
        rec.eval(Some(&w));
        rec.sample(|| esc(&w));
        let cl = if m.content_length { 1 } else { 0 };
        if m.request {
            let strict = m.content_length && r.coin();
            let q = if strict { sip_parse::parse_request_strict(&b) } else { sip_parse::parse_request(&b) };
            let Some(q) = q else {
                rec.violate("refused", format!("well-formed request refused (strict={strict}): {}", esc(&w)));
                return;
            };
            rec.check(q.method().as_str() == m.method, "method", || format!("method {:?} for {}", q.method().as_str(), esc(&w)));
            rec.check(q.uri().as_str() == m.uri, "uri", || format!("uri {:?} for {}", q.uri().as_str(), esc(&w)));
            rec.check(q.body().as_ref() == m.body.as_slice(), "body", || format!("body {:?} for {}", q.body(), esc(&w)));
            rec.check(q.headers().count("Content-Length") == cl, "cl", || format!("Content-Length headers: {}", esc(&w)));
            same_headers(q.headers(), &m, rec, "parse", &w, &["Content-Length"]);
            for (long, _, v) in &m.headers {
                let first = m.headers.iter().find(|h| h.0.eq_ignore_ascii_case(long)).map(|h| h.2.as_str());
                let got = sip_parse::header(q.headers(), long).map(|s| s.as_str());
                rec.check(got == first, "lookup", || format!("header lookup {long} gives {got:?}, wanted {first:?} ({v})"));
                if let Some((_, c)) = COMPACT.iter().find(|c| c.0 == long) {
                    let got = sip_parse::header(q.headers(), c).map(|s| s.as_str());
                    rec.check(got == first, "lookup-compact", || format!("compact lookup {c} gives {got:?}, wanted {first:?}"));
                }
            }
            let s = sip_parse::serialize_request(&q);
            check_wire_shape(&s, &m.body, rec, "request");
            for strict in [true, false] {
                let q2 = if strict { sip_parse::parse_request_strict(&s) } else { sip_parse::parse_request(&s) };
                let Some(q2) = q2 else {
                    rec.violate("reparse", format!("serialised request does not parse (strict={strict}): {}", esc(&s)));
                    return;
                };
                rec.check(q2.method() == q.method() && q2.uri() == q.uri() && q2.body() == q.body(), "roundtrip", || format!("round trip differs: {}", esc(&s)));
                let ign: &[&str] = if mf(q.headers()) == 0 { &["Content-Length", "Max-Forwards"] } else { &["Content-Length"] };
                same_headers(q2.headers(), &m, rec, "reparse", &s, ign);
                if mf(q.headers()) == 0 {
                    rec.check(q2.headers().get("Max-Forwards") == Some("70") && mf(q2.headers()) == 1, "max-forwards", || format!("Max-Forwards: {}", esc(&s)));
                }
                rec.check(sip_parse::serialize_request(&q2) == s, "fixpoint", || format!("serialise is not stable: {}", esc(&s)));
            }
            rec.check(sip_parse::parse_response(&b).is_none(), "kind", || "request accepted as a response".into());
        } else {
            let strict = m.content_length && r.coin();
            let q = if strict { sip_parse::parse_response_strict(&b) } else { sip_parse::parse_response(&b) };
            let Some(q) = q else {
                rec.violate("refused", format!("well-formed response refused (strict={strict}): {}", esc(&w)));
                return;
            };
            rec.check(q.code() == m.code, "code", || format!("code {} for {}", q.code(), esc(&w)));
            rec.check(q.reason() == m.reason, "reason", || format!("reason {:?} for {}", q.reason(), esc(&w)));
            rec.check(q.body().as_ref() == m.body.as_slice(), "body", || format!("body {:?} for {}", q.body(), esc(&w)));
            same_headers(q.headers(), &m, rec, "parse", &w, &["Content-Length"]);
            let cls = [q.is_informational(), q.is_success(), q.is_redirection(), q.is_client_error(), q.is_server_error(), q.is_global_failure()];
            rec.check(cls.iter().filter(|x| **x).count() == 1 && cls[(m.code / 100 - 1) as usize] && q.is_error() == (m.code >= 400), "class", || format!("class of {}", m.code));
            let s = sip_parse::serialize_response(&q);
            check_wire_shape(&s, &m.body, rec, "response");
            for strict in [true, false] {
                let q2 = if strict { sip_parse::parse_response_strict(&s) } else { sip_parse::parse_response(&s) };
                let Some(q2) = q2 else {
                    rec.violate("reparse", format!("serialised response does not parse (strict={strict}): {}", esc(&s)));
                    return;
                };
                rec.check(q2.code() == q.code() && q2.reason() == q.reason() && q2.body() == q.body(), "roundtrip", || format!("round trip differs: {}", esc(&s)));
                same_headers(q2.headers(), &m, rec, "reparse", &s, &["Content-Length"]);
                rec.check(sip_parse::serialize_response(&q2) == s, "fixpoint", || format!("serialise is not stable: {}", esc(&s)));
            }
            rec.check(sip_parse::parse_request(&b).is_none(), "kind", || "response accepted as a request".into());
        }
    });
    // Messages assembled through the API (any header order, empty reason, extension methods).
    let n = ctx.n(40_000, 2_000_000);
    ctx.run("assembled", n, |r, rec| {
        let m = MsgModel::gen(r);
        let mut h = Headers::new();
        for (n, _, v) in &m.headers {
            h.push(n, v).expect("header");
        }
        if r.chance(1, 4) {
            // a stale Content-Length must not survive
            h.push(*r.pick(&["Content-Length", "l", "L", "CONTENT-LENGTH", "content-length"]), "9").expect("cl");
        }
        rec.eval(Some(&format!("{m:?}")));
        let s = if m.request {
            let q = Request::new(RequestLine::new(Method::from_token(&m.method).expect("method"), Uri::parse(&m.uri).expect("uri")), h, Bytes::from(m.body.clone())).expect("request");
            let s = sip_parse::serialize_request(&q);
            let Some(q2) = sip_parse::parse_request_strict(&s) else {
                rec.violate("assembled", format!("assembled request does not parse: {}", esc(&s)));
                return;
            };
            rec.check(q2.method() == q.method() && q2.uri() == q.uri() && q2.body() == q.body(), "assembled-eq", || format!("assembled request differs: {}", esc(&s)));
            let ign: &[&str] = if mf(q.headers()) == 0 { &["Content-Length", "l", "Max-Forwards"] } else { &["Content-Length", "l"] };
            same_headers(q2.headers(), &m, rec, "assembled", &s, ign);
            s
        } else {
            let reason = if r.chance(1, 5) { String::new() } else { m.reason.clone() };
            let q = Response::new(StatusLine::new(m.code, &reason).expect("status"), h, Bytes::from(m.body.clone())).expect("response");
            let s = sip_parse::serialize_response(&q);
            let Some(q2) = sip_parse::parse_response_strict(&s) else {
                rec.violate(if reason.is_empty() { "empty-reason" } else { "assembled" }, format!("assembled response does not parse: {}", esc(&s)));
                return;
            };
            rec.check(q2.code() == q.code() && q2.reason() == reason && q2.body() == q.body(), "assembled-eq", || format!("assembled response differs: {}", esc(&s)));
            same_headers(q2.headers(), &m, rec, "assembled", &s, &["Content-Length", "l"]);
            s
        };
        check_wire_shape(&s, &m.body, rec, "assembled");
    });
    // Several values in one Via header field are legal.
    let n = ctx.n(5_000, 200_000);
    ctx.run("via-list", n, |r, rec| {
        let mut m = MsgModel::gen(r);
        m.request = true;
        let k = r.range(2, 4);
        let list: Vec<String> = (0..k).map(|_| gen_via(r)).collect();
        m.headers.retain(|h| h.0 != "Via");
        let mut list = list;
        if r.coin() {
            // Only the topmost value's branch has to be one of RFC 3261's.
            list.push(format!("SIP/2.0/UDP h;branch={}", *r.pick(&["1", "old.2543", "z9hG4b", ""])));
        }
        if r.chance(1, 3) {
            list[0] = format!("SIP/2.0/UDP h;x=\"a,b;branch=1\"; branch={}", gen_branch(r));
        }
        m.headers.insert(0, ("Via".into(), "Via".into(), list.join(*r.pick(&[", ", ",", " , "]))));
        let w = m.wire(r);
        rec.eval(Some(&w));
        rec.check(sip_parse::parse_request(&Bytes::from(w.clone())).is_some(), "via-list", || format!("request with a comma-separated Via refused: {}", esc(&w)));
    });
    // Test-kit builders.
    let n = ctx.n(3_000, 100_000);
    ctx.run("testkit", n, |r, rec| {
        let uri = gen_sip_uri(r).wire;
        let uri = uri.split('?').next().unwrap().to_string();
        let c = gen_sip_uri(r).wire;
        let (br, id) = (gen_branch(r), r.alnum(1, 20));
        let seq = r.range(1, 2147483647) as u32;
        rec.eval(Some(&(uri.clone(), c.clone())));
        let q = match r.below(4) {
            0 => sip_testkit::build_options(&uri),
            1 => sip_testkit::build_invite(&uri, &br, &id),
            2 => sip_testkit::build_register(&uri, &format!("<{c}>")),
            _ => sip_testkit::build_prack(&uri, "1 1 INVITE", &id, seq),
        };
        let s = sip_testkit::as_bytes(&q);
        let q2 = sip_parse::parse_request_strict(&s);
        rec.check(q2.as_ref().map(|q2| q2.uri() == q.uri() && q2.method() == q.method() && q2.uri().as_str() == uri).unwrap_or(false), "testkit", || format!("test-kit request does not survive: {}", esc(&s)));
    });
    ctx.finish()
}
