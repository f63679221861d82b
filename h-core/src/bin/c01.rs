//! C01: message parsing is total, bounded and strict.
use bytes::Bytes;
use h_core::*;
use sip_core::{Headers, Request, Response};

fn hdr_ok(h: &Headers, rec: &mut Rec, what: &str, inp: &[u8]) {
    rec.check(h.len() <= 200, "limit:headers", || format!("{what}: {} headers accepted from {}", h.len(), esc(inp)));
    for x in h.iter() {
        let bad = |s: &str| s.contains(['\r', '\n', '\0']);
        rec.check(!bad(x.name()) && !bad(x.value()), "ctl-in-header", || format!("{what}: header {:?} holds CR/LF/NUL: {}", x.name(), esc(inp)));
        rec.check(!x.name().is_empty() && x.name().len() <= 128 && x.value().len() <= 8192, "limit:header-size", || {
            format!("{what}: header {:?} of {} bytes accepted", x.name(), x.value().len())
        });
        rec.check(x.name().is_ascii() && !x.name().contains([' ', ':', '\t']), "header-name", || format!("{what}: header name {:?} accepted", x.name()));
    }
    for n in ["Call-ID", "CSeq", "From", "To", "Max-Forwards"] {
        rec.check(h.count(n) <= 1, "dup-singleton", || format!("{what}: {} copies of {n} accepted: {}", h.count(n), esc(inp)));
    }
}
fn cseq(h: &Headers) -> Option<(u64, String)> {
    let v = h.get("CSeq")?;
    let mut it = v.split_whitespace();
    let (a, b, c) = (it.next(), it.next(), it.next());
    match (a, b, c) {
        (Some(a), Some(b), None) if !a.is_empty() && a.bytes().all(|x| x.is_ascii_digit()) => Some((a.parse().unwrap_or(u64::MAX), b.into())),
        _ => Some((0, v.into())),
    }
}
fn body_ok(h: &Headers, body: &[u8], strict: bool, inp: &[u8], rec: &mut Rec, what: &str) {
    let avail = inp.windows(4).position(|w| w == b"\r\n\r\n").map(|p| &inp[p + 4..]).unwrap_or(&[]);
    rec.check(avail.starts_with(body), "body-prefix", || format!("{what}: body is not a prefix of the bytes after the blank line: {}", esc(inp)));
    let cls: Vec<&str> = h.get_all("Content-Length").map(|s| s.trim()).collect();
    let nums: Vec<Option<u64>> = cls.iter().map(|s| if !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) { s.parse().ok() } else { None }).collect();
    let valid: Vec<u64> = nums.iter().flatten().copied().collect();
    if let Some(n) = valid.first() {
        rec.check(valid.iter().all(|m| m == n), "cl-conflict", || format!("{what}: conflicting Content-Length accepted: {}", esc(inp)));
        rec.check(body.len() as u64 == *n, "cl-mismatch", || format!("{what}: body {} bytes with Content-Length {n}: {}", body.len(), esc(inp)));
        rec.count("accepted_with_content_length", 1);
    }
    if strict {
        rec.check(valid.len() == cls.len(), "cl-malformed-strict", || format!("{what}: malformed Content-Length {cls:?} accepted in strict mode: {}", esc(inp)));
        rec.check(body.len() == avail.len(), "strict-tail", || format!("{what}: {} trailing bytes ignored in strict mode: {}", avail.len() - body.len(), esc(inp)));
        rec.check(!cls.is_empty() || body.is_empty(), "strict-nolength", || format!("{what}: body without Content-Length in strict mode: {}", esc(inp)));
    }
}
fn chk_req(q: &Request, strict: bool, inp: &[u8], rec: &mut Rec, what: &str) {
    rec.count("accepted_requests", 1);
    hdr_ok(q.headers(), rec, what, inp);
    if let Some((n, m)) = cseq(q.headers()) {
        rec.check((1..=2147483647).contains(&n), "cseq-range", || format!("{what}: CSeq number {n} accepted: {}", esc(inp)));
        rec.check(m.eq_ignore_ascii_case(q.method().as_str()), "cseq-method", || format!("{what}: CSeq method {m} on {}: {}", q.method().as_str(), esc(inp)));
    }
    let u = q.uri().as_str();
    rec.check(!u.contains(char::is_whitespace) && !u.chars().any(|c| c.is_control()) && u.len() <= 2048, "uri", || format!("{what}: request URI {u:?} accepted"));
    body_ok(q.headers(), q.body(), strict, inp, rec, what);
}
fn chk_res(q: &Response, strict: bool, inp: &[u8], rec: &mut Rec, what: &str) {
    rec.count("accepted_responses", 1);
    hdr_ok(q.headers(), rec, what, inp);
    rec.check((100..700).contains(&q.code()), "status-range", || format!("{what}: status {} accepted", q.code()));
    rec.check(q.reason().len() <= 256 && !q.reason().contains(['\r', '\n', '\0']), "reason", || format!("{what}: reason {:?} accepted", q.reason()));
    if let Some((n, _)) = cseq(q.headers()) {
        rec.check((1..=2147483647).contains(&n), "cseq-range", || format!("{what}: CSeq number {n} accepted: {}", esc(inp)));
    }
    body_ok(q.headers(), q.body(), strict, inp, rec, what);
}
/// Feed the bytes to every entry point; returns which of the four accepted.
fn feed(inp: &[u8], rec: &mut Rec) -> [bool; 4] {
    let b = Bytes::copy_from_slice(inp);
    let show = || esc(inp);
    let mut acc = [false; 4];
    let too_big = inp.len() > 65536;
    if let Some(Some(q)) = rec.guard("parse_request", &show, || sip_parse::parse_request(&b)) {
        chk_req(&q, false, inp, rec, "request");
        acc[0] = true;
    }
    if let Some(Some(q)) = rec.guard("parse_request_strict", &show, || sip_parse::parse_request_strict(&b)) {
        chk_req(&q, true, inp, rec, "request(strict)");
        acc[1] = true;
    }
    if let Some(Some(q)) = rec.guard("parse_response", &show, || sip_parse::parse_response(&b)) {
        chk_res(&q, false, inp, rec, "response");
        acc[2] = true;
    }
    if let Some(Some(q)) = rec.guard("parse_response_strict", &show, || sip_parse::parse_response_strict(&b)) {
        chk_res(&q, true, inp, rec, "response(strict)");
        acc[3] = true;
    }
    rec.check(!(too_big && acc.iter().any(|a| *a)), "limit:message", || format!("message of {} bytes accepted", inp.len()));
    rec.check((!acc[1] || acc[0]) && (!acc[3] || acc[2]), "strict-subset", || format!("strict accepted what lenient refused: {}", esc(inp)));
    acc
}

/// The version as the RFC writes it.
fn normal(m: &MsgModel, w: &[u8]) -> Vec<u8> {
    let mut o = m.start_line().into_bytes();
    let n = o.len();
    o.extend_from_slice(&w[n..]);
    o
}

fn main() {
    let mut ctx = Ctx::new(
        "C01",
        "generated, mutated and hostile byte strings given to all message parsers; non-trivial = at least one parser accepted it, or it is a single-fault variant of an accepted message",
    );
    let n = ctx.n(60_000, 3_000_000);
    ctx.run("mutated", n, |r, rec| {
        let m = MsgModel::gen(r);
        let mut w = m.wire(r);
        let k = r.below(5);
        r.mutate(&mut w, k);
        let acc = feed(&w, rec);
        rec.eval(if acc.iter().any(|a| *a) { Some(&w) } else { None });
        rec.sample(|| esc(&w));
    });
    let n = ctx.n(30_000, 1_500_000);
    ctx.run("hostile", n, |r, rec| {
        let mut w = Vec::new();
        if r.coin() {
            w.extend_from_slice(format!("{} {} SIP/2.0\r\n", r.nasty(0, 3), r.nasty(0, 6)).as_bytes());
        } else if r.coin() {
            w.extend_from_slice(b"INVITE sip:a@b SIP/2.0\r\n");
        } else {
            w.extend_from_slice(format!("SIP/2.0 {} {}\r\n", r.range(0, 70000), r.nasty(0, 4)).as_bytes());
        }
        for _ in 0..r.below(6) {
            let name = if r.coin() { r.pick(&["Via", "CSeq", "l", "Content-Length", "From", "f", "i", "Contact"]).to_string() } else { r.nasty(0, 3) };
            w.extend_from_slice(format!("{name}:{}\r\n", r.nasty(0, 8)).as_bytes());
        }
        if r.coin() {
            w.extend_from_slice(b"\r\n");
        }
        w.extend_from_slice(&r.bytes(0, 12));
        let acc = feed(&w, rec);
        rec.eval(if acc.iter().any(|a| *a) { Some(&w) } else { None });
    });
    // Single faults: a valid message with exactly one defect must be refused by both variants
    // (or by the strict one only, where the lenient one documents tolerance).
    let n = ctx.n(60_000, 3_000_000);
    ctx.run("single-fault", n, |r, rec| {
        let mut m = MsgModel::gen(r);
        let base = m.wire(&mut r.clone());
        let acc = feed(&base, rec);
        let (l, s) = if m.request { (0, 1) } else { (2, 3) };
        if !rec.check(acc[l], "valid-refused", || format!("valid message refused: {}", esc(&base))) {
            return;
        }
        if m.content_length || m.body.is_empty() {
            rec.check(acc[s], "valid-refused-strict", || format!("valid message refused in strict mode: {}", esc(&base)));
        }
        let ci = m.headers.iter().position(|h| h.0 == "CSeq").unwrap();
        let kind = r.below(30);
        let mut strict_only = false;
        let mut bytes: Option<Vec<u8>> = None;
        let name: &str = match kind {
            0 => {
                let i = r.below(m.headers.len());
                m.headers[i].2.push_str("\r\n folded");
                "folded continuation line"
            }
            1 => {
                let i = r.below(m.headers.len());
                m.headers[i].2.push_str("\r\n\tfolded");
                "folded continuation line (tab)"
            }
            2 => {
                let i = r.below(m.headers.len());
                m.headers[i].2.push_str(&format!("\r\n{}", r.alnum(1, 6)));
                "line without colon"
            }
            24 => {
                let w = String::from_utf8_lossy(&m.wire(&mut r.clone())).to_string();
                bytes = Some(w.replacen("\r\n", r.pick(&["\r\n X: y\r\n", "\r\n\tX: y\r\n"]), 1).into_bytes());
                if !m.body.is_ascii() {
                    return;
                }
                "blank-led line after the start line"
            }
            25 => {
                let i = r.below(m.headers.len());
                m.headers[i].2.push('\u{1}');
                let mut w = m.wire(&mut r.clone());
                let at = w.iter().position(|b| *b == 1).unwrap();
                w[at] = *r.pick(&[0x80u8, 0xff, 0xc3, 0xfe, 0xc0]);
                if std::str::from_utf8(&w[..w.windows(4).position(|x| x == b"\r\n\r\n").unwrap_or(w.len())]).is_ok() {
                    return;
                }
                bytes = Some(w);
                "header that is not UTF-8"
            }
            26 if !m.request => {
                let w = normal(&m, &m.wire(&mut r.clone()));
                let from = format!("SIP/2.0 {} ", m.code);
                let to = match r.below(4) {
                    0 => format!("SIP/2.0 {}x ", m.code),
                    1 => format!("SIP/2.0 {}OK ", m.code),
                    2 => format!("SIP/2.0 x{} ", m.code),
                    _ => format!("SIP/2.0{} ", m.code),
                };
                let mut o = to.into_bytes();
                o.extend_from_slice(&w[from.len()..]);
                bytes = Some(o);
                "status code run together with something"
            }
            26 | 27 if m.request => {
                let mut vias: Vec<String> = (0..r.below(3)).map(|_| gen_via(r)).collect();
                let bad = format!(
                    "SIP/2.0/UDP h.example.com{}{}branch{}{}",
                    *r.pick(&[";", ";rport;", " ; "]),
                    *r.pick(&["", " "]),
                    "=",
                    match r.below(5) {
                        0 => format!("z9hG4bX{}", r.alnum(1, 9)),
                        1 => "z9hG4bK".into(),
                        2 => format!("z9hG4bK{}", "x".repeat(300)),
                        3 => format!("z9hG4bK{}{}x", r.alnum(1, 4), *r.pick(&["/", "@", "(", "\u{e9}", "{", "?", ":"])),
                        _ => String::new(),
                    }
                );
                vias.insert(0, bad);
                m.headers.retain(|h| h.0 != "Via");
                m.headers.insert(0, ("Via".into(), "Via".into(), vias.join(",")));
                "branch of the topmost Via not one of RFC 3261's"
            }
            28 => {
                m.content_length = false;
                let v = match r.below(4) {
                    0 => format!("{}", (1u128 << 64) + m.body.len() as u128),
                    1 => format!("{}", (1u128 << 32) + m.body.len() as u128),
                    2 => "99999999999999999999".into(),
                    _ => "9".repeat(r.range(20, 60) as usize),
                };
                m.headers.push(("Content-Length".into(), r.pick(&["l", "Content-Length"]).to_string(), v.clone()));
                if r.coin() {
                    let w = if r.coin() { format!("{}", m.body.len()) } else { v };
                    m.headers.push(("Content-Length".into(), "Content-Length".into(), w));
                }
                r.shuffle(&mut m.headers);
                "Content-Length of enormous size"
            }
            29 => {
                m.headers[ci].2 = format!("{} {}", r.pick(&[(1u128 << 31), (1 << 32) + 5, (1 << 48) + 7, (1 << 63) + 1, (1 << 64) + 3, (1 << 33) + 1]), m.method);
                "CSeq number far out of range"
            }
            3 | 4 => {
                let n = *r.pick(&["Call-ID", "CSeq", "From", "To", "Max-Forwards"]);
                if n == "Max-Forwards" && !m.headers.iter().any(|h| h.0 == n) {
                    m.headers.push((n.into(), n.into(), "70".into()));
                }
                let mut h = m.headers.iter().find(|h| h.0 == n).unwrap().clone();
                h.1 = match COMPACT.iter().find(|c| c.0 == n) {
                    Some((_, c)) if r.coin() => c.to_string(),
                    _ if r.coin() => n.to_ascii_lowercase(),
                    _ => n.to_ascii_uppercase(),
                };
                for _ in 0..*r.pick(&[1, 1, 2, 3]) {
                    let i = r.below(m.headers.len() + 1);
                    m.headers.insert(i, h.clone());
                }
                "duplicate single-instance header"
            }
            5 => {
                m.headers[ci].2 = format!("{} {}", r.pick(&["0", "2147483648", "4294967295", "4294967296", "99999999999999999999"]), m.method);
                "CSeq number out of range"
            }
            6 => {
                m.headers[ci].2 = format!("{}{} {}", r.pick(&["+", "-", "0x", "1.", "a"]), r.range(1, 99), m.method);
                "CSeq number malformed"
            }
            7 if m.request => {
                m.headers[ci].2 = format!("7 {}", if m.method == "BYE" { "INVITE" } else { "BYE" });
                "CSeq method mismatch"
            }
            8 => {
                m.headers[ci].2 = format!("7 {} x", m.method);
                "CSeq extra token"
            }
            9 => {
                m.headers[ci].2 = r.pick(&["", "7", "INVITE"]).to_string();
                "CSeq incomplete"
            }
            10 | 11 => {
                m.content_length = false;
                let extra = r.range(1, 50) as usize;
                m.headers.push(("Content-Length".into(), r.pick(&["Content-Length", "l"]).to_string(), format!("{}", m.body.len() + extra)));
                "Content-Length beyond the data"
            }
            12 => {
                m.content_length = false;
                m.headers.push(("Content-Length".into(), "Content-Length".into(), format!("{}", m.body.len())));
                m.headers.push(("Content-Length".into(), r.pick(&["l", "CONTENT-LENGTH"]).to_string(), format!("{}", m.body.len() + 1)));
                r.shuffle(&mut m.headers);
                if r.coin() {
                    m.body.push(b'x');
                }
                "conflicting Content-Length"
            }
            13 if !m.body.is_empty() => {
                m.content_length = false;
                m.headers.push(("Content-Length".into(), "Content-Length".into(), format!("{}", r.below(m.body.len()))));
                strict_only = true;
                "trailing bytes"
            }
            14 if !m.body.is_empty() => {
                m.content_length = false;
                strict_only = true;
                "body without Content-Length"
            }
            15 => {
                m.content_length = false;
                let v = format!("{}{}", r.pick(&["x", "-", "+", "0x", "1 "]), m.body.len());
                m.headers.push(("Content-Length".into(), "Content-Length".into(), v));
                strict_only = true;
                "malformed Content-Length"
            }
            16 => {
                m.content_length = false;
                m.headers.push(("Content-Length".into(), "Content-Length".into(), r.pick(&["67108865", "4294967296", "18446744073709551615"]).to_string()));
                "oversized Content-Length"
            }
            17 => {
                let i = r.below(m.headers.len());
                m.headers[i].1 = format!("{}{}{}", r.alnum(1, 3), r.pick(&["(", ")", "<", "@", ",", ";", "/", "[", "?", "{", "é", " x"]), r.alnum(1, 3));
                "illegal header name"
            }
            18 => {
                m.headers.push(("X".into(), "X-Big".into(), "v".repeat(8193 + r.below(100))));
                "header value over 8192"
            }
            19 => {
                m.headers.push(("X".into(), "X".repeat(129 + r.below(50)), "v".into()));
                "header name over 128"
            }
            20 => {
                while m.headers.len() < 201 + m.content_length as usize {
                    m.headers.push(("X".into(), "X".into(), "1".into()));
                }
                "more than 200 headers"
            }
            21 => {
                let w = m.wire(&mut r.clone());
                let s = String::from_utf8_lossy(&normal(&m, &w)).to_string();
                let bad = *r.pick(&["SIP/3.0", "SIP/1.0", "SIP/2.1", "HTTP/1.1", "SIP2.0", "sip/2", "SIP/2.0x"]);
                bytes = Some(s.replacen("SIP/2.0", bad, 1).into_bytes());
                if m.uri.contains("SIP/2.0") {
                    return;
                }
                "wrong protocol version"
            }
            22 => {
                let i = r.below(m.headers.len());
                let c = *r.pick(&["\0", "\r", "\n"]);
                m.headers[i].2 = format!("a{c}b");
                if m.headers[i].0 == "CSeq" {
                    return;
                }
                "control character in header value"
            }
            _ => {
                let pad = 65537 + r.below(1000);
                m.content_length = true;
                m.body = vec![b'x'; pad];
                "message over 64 KiB"
            }
        };
        let w = bytes.unwrap_or_else(|| m.wire(r));
        let acc = feed(&w, rec);
        rec.eval(Some(&w));
        rec.count(&format!("fault: {name}"), 1);
        rec.check(!acc[s], &format!("accepted-strict:{name}"), || format!("strict parser accepted a message with {name}: {}", esc(&w)));
        if !strict_only {
            rec.check(!acc[l], &format!("accepted:{name}"), || format!("parser accepted a message with {name}: {}", esc(&w)));
        }
        rec.sample(|| format!("{name}: {}", esc(&w)));
    });
    // Caller-supplied size limit.
    let n = ctx.n(5_000, 100_000);
    ctx.run("limit", n, |r, rec| {
        let mut m = MsgModel::gen(r);
        m.request = true;
        let w = m.wire(r);
        let b = Bytes::from(w.clone());
        let d = r.range(-3, 3);
        let lim = (w.len() as i64 + d) as usize;
        let a = sip_parse::parse_request_with_limit(&b, lim).is_some();
        rec.check(a == (d >= 0), "with-limit", || format!("message of {} bytes, limit {lim}: accepted={a}", w.len()));
        let a = sip_parse::parse_request_with_limit_strict(&b, lim).is_some();
        rec.check(!a || d >= 0, "with-limit-strict", || format!("message of {} bytes, limit {lim}: accepted={a}", w.len()));
        rec.eval(Some(&(w, d)));
    });
    ctx.finish()
}
