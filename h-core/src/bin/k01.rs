//! K01: messages made by the test kit are complete, well-formed SIP and carry
//! what was asked for.
use h_core::*;
use sip_testkit as kit;

struct Text {
    first: String,
    heads: Vec<(String, String)>,
    body: String,
}
/// splits the wire text without the library's parser
fn split(b: &[u8]) -> Result<Text, String> {
    let s = std::str::from_utf8(b).map_err(|e| e.to_string())?;
    let (head, body) = s.split_once("\r\n\r\n").ok_or("no end of headers")?;
    let mut l = head.split("\r\n");
    let first = l.next().unwrap_or("").to_string();
    let mut heads = Vec::new();
    for x in l {
        let (n, v) = x.split_once(':').ok_or_else(|| format!("line {x:?}"))?;
        heads.push((n.trim().to_ascii_lowercase(), v.trim().to_string()));
    }
    Ok(Text { first, heads, body: body.into() })
}
impl Text {
    fn one(&self, n: &str) -> Result<&str, String> {
        let v: Vec<&str> = self.heads.iter().filter(|h| h.0 == n).map(|h| h.1.as_str()).collect();
        match v[..] {
            [x] => Ok(x),
            _ => Err(format!("{} {n} headers", v.len())),
        }
    }
    fn is(&self, n: &str, want: &str) -> Result<(), String> {
        let g = self.one(n)?;
        if g == want {
            Ok(())
        } else {
            Err(format!("{n} is {g:?}, not {want:?}"))
        }
    }
}
fn addr_ok(n: &str, v: &str) -> Result<(), String> {
    let ok = v.matches('<').count() == 1 && v.matches('>').count() == 1 && v.contains("<sip");
    if ok {
        Ok(())
    } else {
        Err(format!("{n} is {v:?}"))
    }
}
/// what every message needs (RFC 3261 8.1.1, 8.2.6)
fn common(t: &Text, method: &str, request: bool) -> Result<(), String> {
    let via = t.one("via")?;
    let branch = via.split(";branch=").nth(1).unwrap_or("").split(';').next().unwrap_or("");
    if !via.starts_with("SIP/2.0/") || !branch.starts_with("z9hG4bK") || branch.len() < 8 {
        return Err(format!("via {via:?}"));
    }
    addr_ok("from", t.one("from")?)?;
    addr_ok("to", t.one("to")?)?;
    if !t.one("from")?.contains(";tag=") {
        return Err("no From tag".into());
    }
    if t.one("call-id")?.is_empty() {
        return Err("empty Call-ID".into());
    }
    let c = t.one("cseq")?;
    let (n, m) = c.split_once(' ').ok_or("cseq")?;
    if n.parse::<u32>().is_err() || (request && m != method) {
        return Err(format!("cseq {c:?}"));
    }
    if request && !matches!(t.one("max-forwards")?.parse::<u8>(), Ok(1..)) {
        return Err("max-forwards".into());
    }
    if t.one("content-length")? != t.body.len().to_string() {
        return Err("content-length".into());
    }
    Ok(())
}
fn request(q: &sip_core::Request, method: &str, uri: &str) -> Result<Text, String> {
    let b = kit::as_bytes(q);
    let t = split(&b)?;
    if t.first != format!("{method} {uri} SIP/2.0") {
        return Err(format!("first line {:?}", t.first));
    }
    common(&t, method, true)?;
    match sip_parse::parse_request(&b) {
        Some(p) if sip_parse::serialize_request(&p) == b => Ok(t),
        p => Err(format!("read back: {}", p.is_some())),
    }
}
fn response(p: &sip_core::Response, code: u16, reason: &str) -> Result<Text, String> {
    let b = kit::response_as_bytes(p);
    let t = split(&b)?;
    if t.first.trim_end() != format!("SIP/2.0 {code} {reason}").trim_end() {
        return Err(format!("first line {:?}", t.first));
    }
    common(&t, "", false)?;
    match sip_parse::parse_response(&b) {
        Some(x) if sip_parse::serialize_response(&x) == b => Ok(t),
        x => Err(format!("read back: {}", x.is_some())),
    }
}
fn uri(r: &mut Rng) -> String {
    let mut s = format!("{}:", r.pick(&["sip", "sips"]));
    if r.coin() {
        s += &format!("{}@", r.alnum(1, 8));
    }
    s += &format!("{}.example.{}", r.lower(1, 8), r.pick(&["com", "net"]));
    if r.coin() {
        s += &format!(":{}", 1 + r.below(65535));
    }
    if r.chance(1, 3) {
        s += &format!(";transport={}", r.pick(&["tcp", "udp", "tls"]));
    }
    s
}

fn main() {
    let mut ctx = Ctx::new(
        "K01",
        "each builder is called with random arguments; the wire text is split by the harness, checked for the mandatory headers and the arguments, and read back by the parser",
    );
    let n = ctx.n(40_000, 800_000);
    ctx.run("kit", n, |r, rec| {
        let u = uri(r);
        let other = uri(r);
        let angled = format!("<{other}>");
        let (branch, cid, seq) = (format!("z9hG4bK{}", r.alnum(1, 12)), format!("{}@{}", r.alnum(1, 9), r.lower(1, 5)), r.u32() >> 1);
        let code = 100 + r.below(600) as u16;
        let reason = r.pick(&["OK", "Ringing", "Not Found", "Busy Here", "x"]).to_string();
        let rack = format!("{} {} INVITE", r.u32(), r.u32());
        let realm = r.alnum(1, 10);
        let which = r.below(11);
        let input = || format!("{which} {u} {other} {branch} {cid} {seq} {code} {reason} {rack} {realm}");
        rec.eval(Some(&input()));
        rec.sample(input);
        let out = rec.guard("test kit", &input, || -> Result<(), String> {
            match which {
                0 => request(&kit::build_options(&u), "OPTIONS", &u).map(|_| ()),
                1 => {
                    let t = request(&kit::build_invite(&u, &branch, &cid), "INVITE", &u)?;
                    t.is("call-id", &cid)?;
                    addr_ok("contact", t.one("contact")?)?;
                    if !t.one("via")?.ends_with(&format!(";branch={branch}")) {
                        return Err("branch".into());
                    }
                    Ok(())
                }
                2 => {
                    let t = request(&kit::build_prack(&u, &rack, &cid, seq), "PRACK", &u)?;
                    t.is("call-id", &cid)?;
                    t.is("rack", &rack)?;
                    t.is("cseq", &format!("{seq} PRACK"))
                }
                3 => {
                    let t = request(&kit::build_refer(&u, &angled, &cid, seq), "REFER", &u)?;
                    t.is("call-id", &cid)?;
                    t.is("refer-to", &angled)?;
                    t.is("cseq", &format!("{seq} REFER"))
                }
                4 => {
                    let t = response(&kit::build_provisional_with_rseq(180, &reason, seq), 180, &reason)?;
                    t.is("require", "100rel")?;
                    t.is("rseq", &seq.to_string())
                }
                5 => {
                    let t = request(&kit::build_register(&u, &angled), "REGISTER", &u)?;
                    t.is("contact", &angled)
                }
                6 => response(&kit::build_response(code, &reason), code, &reason).map(|_| ()),
                7 => {
                    let (i, p, k) = kit::scenario_invite_prack(&u);
                    let i = request(&i, "INVITE", &u)?;
                    let k = request(&k, "PRACK", &u)?;
                    let p = response(&p, 180, "Ringing")?;
                    k.is("call-id", i.one("call-id")?)?;
                    k.is("rack", &format!("{} {}", p.one("rseq")?, i.one("cseq")?))
                }
                8 => {
                    let t = request(&kit::scenario_refer(&u, &angled), "REFER", &u)?;
                    t.is("refer-to", &angled)
                }
                9 => {
                    let (q, a, k) = kit::scenario_refer_with_notify(&u, &angled);
                    let q = request(&q, "REFER", &u)?;
                    response(&a, 202, "Accepted")?;
                    let k = request(&k, "NOTIFY", &other)?;
                    k.is("call-id", q.one("call-id")?)?;
                    k.is("event", "refer")?;
                    k.is("subscription-state", "active;expires=300")?;
                    if k.one("to")?.starts_with(&angled) && k.one("to")?.contains(";tag=") {
                        Ok(())
                    } else {
                        Err(format!("to {:?}", k.one("to")))
                    }
                }
                _ => {
                    let (a, c, b) = kit::scenario_register_with_auth(&u, &angled, &realm);
                    let a = request(&a, "REGISTER", &u)?;
                    let c = response(&c, 401, "Unauthorized")?;
                    let b = request(&b, "REGISTER", &u)?;
                    a.is("contact", &angled)?;
                    b.is("contact", &angled)?;
                    let part = format!("realm=\"{realm}\"");
                    let nonce = |t: &Text, n: &str| {
                        t.one(n).map(|v| v.split("nonce=\"").nth(1).unwrap_or("").split('"').next().unwrap_or("").to_string())
                    };
                    if !c.one("www-authenticate")?.contains(&part) || !b.one("authorization")?.contains(&part) {
                        return Err(format!("realm {realm} challenged {:?} answered {:?}", c.one("www-authenticate"), b.one("authorization")));
                    }
                    if nonce(&c, "www-authenticate")? != nonce(&b, "authorization")? {
                        return Err("nonce".into());
                    }
                    Ok(())
                }
            }
        });
        if let Some(Err(e)) = out {
            rec.violate(&format!("builder {which}"), &format!("{} -> {e}", input()));
        }
    });
    ctx.finish();
}
