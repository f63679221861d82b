//! Registrar model and request generator shared by the registrar monitors.
use bytes::Bytes;
use sip_core::{Headers, Method, Request, RequestLine, Response, Uri};
use smol_str::SmolStr;
use std::collections::BTreeMap;
use vmon::Rng;

pub const SEC: i64 = 1_000_000_000;

#[derive(Clone, Debug, PartialEq)]
pub struct Bind {
    pub contact: String,
    pub call_id: String,
    pub cseq: u32,
    pub q: f32,
    pub expires_at: i64,
    pub ua: Option<String>,
    pub path: Vec<String>,
    pub instance: Option<String>,
    pub reg_id: Option<u32>,
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub aors: BTreeMap<String, Vec<Bind>>,
}
impl Model {
    pub fn purge(&mut self, now: i64) -> usize {
        let mut n = 0;
        for l in self.aors.values_mut() {
            let b = l.len();
            l.retain(|x| x.expires_at > now);
            n += b - l.len();
        }
        n
    }
}

/// An address-of-record with several spellings.
#[derive(Clone, Debug)]
pub struct Aor {
    pub key: String,
    pub user: Option<String>,
    pub forms: Vec<String>,
}

pub fn aor_pool(r: &mut Rng, n: usize) -> Vec<Aor> {
    let mut v: Vec<Aor> = vec![];
    while v.len() < n {
        let a = match r.below(8) {
            0 => {
                let num = format!("+1555{}", r.string("0123456789", 4, 7));
                let dashed = format!("{}-{}", &num[..5], &num[5..]);
                let dots = format!("{}.{}", &num[..5], &num[5..]);
                Aor { key: format!("tel:{num}"), user: Some(num.clone()), forms: vec![format!("tel:{num}"), format!("tel:{dashed}"), format!("tel:{dots}"), format!("TEL:{num}"), format!("tel:+1({}){}", &num[2..5], &num[5..])] }
            }
            1 if r.chance(1, 3) => {
                let num = format!("+44{}", r.string("0123456789", 4, 7));
                let (x, y) = (r.range(1, 3), r.range(1, 3));
                Aor {
                    key: format!("tel:{num};ext={x};isub={y}"),
                    user: Some(num.clone()),
                    forms: vec![format!("tel:{num};ext={x};isub={y}"), format!("tel:{num};isub={y};ext={x}"), format!("tel:{num};EXT={x};Isub={y}")],
                }
            }
            _ if !v.is_empty() && r.chance(1, 3) => {
                // an address that looks much like another but is not the same
                let k = r.pick(&v).key.clone();
                let (k2, user): (String, Option<String>) = if let Some(num) = k.strip_prefix("tel:") {
                    if num.contains(';') || !num.starts_with('+') {
                        continue;
                    }
                    match r.below(2) {
                        0 => (format!("tel:{num};isub=7"), Some(num.to_string())),
                        _ => (format!("tel:{num}0"), Some(format!("{num}0"))),
                    }
                } else {
                    let (scheme, rest) = k.split_once(':').unwrap();
                    let (user, host) = match rest.split_once('@') {
                        Some((u, h)) => (Some(u.to_string()), h.to_string()),
                        None => (None, rest.to_string()),
                    };
                    match (r.below(5), user) {
                        (0, Some(u)) => {
                            let w: String = u.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
                            (format!("{scheme}:{w}@{host}"), Some(w))
                        }
                        (1, Some(u)) if !host.contains(':') => {
                            let port = if scheme == "sips" { 5061 } else { 5060 };
                            (format!("{scheme}:{u}@{host}:{port}"), Some(u))
                        }
                        (2, Some(u)) => (format!("{}:{u}@{host}", if scheme == "sips" { "sip" } else { "sips" }), Some(u)),
                        (3, Some(u)) => (format!("{scheme}:{u}@sub.{host}"), Some(u)),
                        (4, Some(u)) => (format!("{scheme}:{u}x@{host}"), Some(format!("{u}x"))),
                        _ => continue,
                    }
                };
                Aor { forms: vec![k2.clone()], key: k2, user }
            }
            1 => {
                let num = r.string("0123456789", 3, 6);
                if r.chance(1, 3) {
                    let c = r.string("0123456789", 3, 4);
                    v.retain(|x| !x.key.starts_with(&format!("tel:{num};")));
                    v.push(Aor {
                        key: format!("tel:{num};phone-context=+1555{c}"),
                        user: Some(num.clone()),
                        forms: vec![format!("tel:{num};phone-context=+1555{c}"), format!("tel:{num};phone-context=+1-(555)-{c}"), format!("tel:{num};phone-context=+1.555.{c}"), format!("tel:{num};Phone-Context=+1555{c}")],
                    });
                    continue;
                }
                Aor { key: format!("tel:{num};phone-context=example.com"), user: Some(num.clone()), forms: vec![format!("tel:{num};phone-context=example.com"), format!("tel:{num};phone-context=EXAMPLE.com")] }
            }
            2 => Aor { key: "sip:example.com".into(), user: None, forms: vec!["sip:example.com".into(), "sip:EXAMPLE.com".into(), "SIP:Example.Com".into()] },
            k => {
                let user = format!("{}{}", r.string("abcXYZ", 1, 3), r.string("0123456789.-_", 0, 3));
                let host = r.pick(&["example.com", "a.example.org", "10.0.0.1"]).to_string();
                let s = if k == 3 { "sips" } else { "sip" };
                let port = if r.chance(1, 4) { format!(":{}", r.range(1024, 65535)) } else { String::new() };
                let first = user.chars().next().unwrap();
                let esc = format!("%{:02x}{}", first as u32, &user[1..]);
                Aor {
                    key: format!("{s}:{user}@{host}{port}"),
                    user: Some(user.clone()),
                    forms: vec![
                        format!("{s}:{user}@{host}{port}"),
                        format!("{s}:{user}@{}{port}", host.to_uppercase()),
                        format!("{}:{user}@{host}{port}", s.to_uppercase()),
                        format!("{s}:{user}@{host}{port};transport=tcp"),
                        format!("{s}:{esc}@{host}{port}"),
                    ],
                }
            }
        };
        if v.iter().all(|x| x.key != a.key) {
            v.push(a);
        }
    }
    v
}

pub fn contact_pool(r: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    while v.len() < n {
        let c = match r.below(8) {
            // Differs from an earlier one in the letter case of the user part only.
            7 if v.iter().any(|c| c.contains('@')) => {
                let c = v.iter().find(|c| c.contains('@')).unwrap();
                let (s, rest) = c.split_once(':').unwrap();
                let (u, h) = rest.split_once('@').unwrap();
                format!("{s}:{}@{h}", u.to_uppercase())
            }
            0 => format!("sip:{}.example.net", r.lower(2, 6)),
            1 => format!("sip:{}@10.0.0.{}:{};transport=tcp", r.lower(1, 5), r.range(1, 254), r.range(1024, 65535)),
            2 => format!("sips:{}@host.example.net;lr;ob", r.lower(1, 5)),
            3 => format!("sip:{},x@h.example.net", r.lower(1, 5)),
            4 => format!("sip:{}@[2001:db8::{}]:5060", r.lower(1, 5), r.range(1, 9999)),
            5 => format!("sip:{};isub=1@h.example.net?Subject={}", r.lower(1, 5), r.lower(1, 5)),
            _ => format!("sip:{}@{}.example.net", r.lower(1, 5), r.lower(1, 5)),
        };
        if !v.contains(&c) {
            v.push(c);
        }
    }
    v
}

#[derive(Clone, Debug)]
pub struct ContactSpec {
    pub uri: String,
    pub text: String,
    pub expires: Option<Result<u64, ()>>,
    pub q: Result<f32, ()>,
    pub instance: Option<String>,
    pub reg_id: Option<Result<u32, ()>>,
    pub bad: bool,
}

pub fn contact_spec(r: &mut Rng, uri: &str, refuse: bool) -> ContactSpec {
    let mut params: Vec<String> = vec![];
    let name = |r: &mut Rng, n: &str| if r.chance(1, 4) { n.to_uppercase() } else { n.to_string() };
    let eq = |r: &mut Rng| if r.chance(1, 8) { " = " } else { "=" };
    let mut expires = None;
    if r.chance(2, 3) {
        let (t, v): (String, Result<u64, ()>) = if refuse && r.chance(1, 4) {
            match r.below(3) {
                0 => {
                    let t = r.pick(&["abc", "-1", "1.5", "99999999999999999999", "0x10"]).to_string();
                    (t, Err(()))
                }
                1 => {
                    let n = r.range(1, 59) as u64;
                    (n.to_string(), Ok(n))
                }
                _ => {
                    let n = r.range(86_401, 4_000_000_000) as u64;
                    (n.to_string(), Ok(n))
                }
            }
        } else {
            let n = *r.pick(&[0u64, 0, 60, 61, 120, 3600, 86_399, 86_400, 600]);
            (n.to_string(), Ok(n))
        };
        params.push(format!("{}{}{t}", name(r, "expires"), eq(r)));
        expires = Some(v);
    }
    let mut q = Ok(1.0);
    if r.chance(1, 3) {
        let (t, v): (&str, Result<f32, ()>) = if refuse && r.chance(1, 6) {
            (*r.pick(&["1.5", "-0.1", "abc", "2", "NaN"]), Err(()))
        } else {
            *r.pick(&[("0", Ok(0.0f32)), ("0.0", Ok(0.0)), ("0.5", Ok(0.5)), ("1", Ok(1.0)), ("1.000", Ok(1.0)), ("0.123", Ok(0.123)), ("0.7", Ok(0.7))])
        };
        params.push(format!("{}{}{t}", name(r, "q"), eq(r)));
        q = v;
    }
    let mut instance = None;
    if r.chance(1, 4) {
        let v = match r.below(3) {
            0 => "\"<urn:uuid:f81d4fae-7dec-11d0-a765-00a0c91e6bf6>\"".to_string(),
            1 => format!("\"<urn:x:{};{}>\"", r.lower(1, 4), r.lower(1, 4)),
            _ => format!("\"<urn:x:{},{}>\"", r.lower(1, 4), r.lower(1, 4)),
        };
        params.push(format!("{}={v}", name(r, "+sip.instance")));
        instance = Some(v);
    }
    let mut reg_id = None;
    if r.chance(1, 5) {
        let (t, v): (String, Result<u32, ()>) = if refuse && r.chance(1, 5) {
            (r.pick(&["abc", "-1", "99999999999"]).to_string(), Err(()))
        } else {
            let n = r.range(1, 1000) as u32;
            (n.to_string(), Ok(n))
        };
        params.push(format!("reg-id={t}"));
        reg_id = Some(v);
    }
    if r.chance(1, 4) {
        params.push(r.pick(&["foo", "methods=\"INVITE,BYE;q=0.1\"", "x=\"a;expires=1\"", "audio"]).to_string());
    }
    r.shuffle(&mut params);
    let needs_brackets = uri.contains([',', ';', '?']);
    let mut text = String::new();
    if needs_brackets || r.chance(3, 4) {
        match r.below(6) {
            0 => text.push_str("\"Bob, \\\"the <b>\\\"; x\" "),
            1 => text.push_str("\"a <sip:evil@example.com>;expires=1\" "),
            2 => text.push_str("Bob "),
            3 => text.push_str("\"\""),
            _ => {}
        }
        text.push('<');
        text.push_str(uri);
        text.push('>');
    } else {
        text.push_str(uri);
    }
    for p in params {
        text.push_str(*r.pick(&[";", ";", " ; ", "; "]));
        text.push_str(&p);
    }
    let mut bad = false;
    let mut uri = uri.to_string();
    if refuse && r.chance(1, 30) {
        bad = true;
        let (t, u) = *r.pick(&[("<sip:a@b", "x"), ("<>", ""), ("<mailto:a@example.com>", "m"), ("<tel:+15551234567>", "t"), ("<http://example.com>", "h"), ("<sip:>", "e"), ("<sip:a@b:99999>", "p")]);
        text = t.to_string();
        uri = u.to_string();
    }
    ContactSpec { uri, text, expires, q, instance, reg_id, bad }
}

#[derive(Clone, Debug)]
pub struct Reg {
    pub headers: Vec<(String, String)>,
    pub aor: String,
    pub call_id: String,
    pub cseq: u32,
    pub contacts: Vec<ContactSpec>,
    pub star: bool,
    /// Expires header: None absent, Err malformed.
    pub expires: Option<Result<u64, ()>>,
    pub ua: Option<String>,
    pub path: Vec<String>,
    /// Something else makes the request unacceptable.
    pub malformed: bool,
    pub vias: Vec<String>,
    pub to: String,
    pub to_tag: Option<String>,
    pub from: String,
}

impl Reg {
    pub fn request(&self) -> Request {
        let mut h = Headers::new();
        for (n, v) in &self.headers {
            h.push(SmolStr::new(n), SmolStr::new(v)).expect("header");
        }
        Request::new(RequestLine::new(Method::Register, Uri::parse("sip:example.com").expect("uri")), h, Bytes::new()).expect("request")
    }
}

pub struct Cfg {
    pub default: u64,
    pub min: u64,
    pub max: u64,
}

/// What the registrar must do with a request: the bindings after it and the
/// admissible refusal codes (empty: accepted).  `Some(500)` stands for any refusal.
pub fn expected(m: &Model, g: &Reg, cfg: &Cfg, now: i64) -> (Vec<Bind>, Vec<u16>) {
    let old: Vec<Bind> = m.aors.get(&g.aor).cloned().unwrap_or_default().into_iter().filter(|b| b.expires_at > now).collect();
    let mut codes: Vec<u16> = vec![];
    if g.malformed {
        codes.push(400);
    }
    let outdated = |b: &Bind| b.call_id == g.call_id && g.cseq <= b.cseq;
    if g.star {
        if g.contacts.len() > 0 || g.expires != Some(Ok(0)) || old.iter().any(outdated) {
            codes.push(400);
        }
        return if codes.is_empty() { (vec![], codes) } else { (old, codes) };
    }
    if g.contacts.is_empty() {
        codes.push(400);
    }
    if matches!(g.expires, Some(Err(()))) {
        codes.push(400);
    }
    let mut new = old.clone();
    for c in &g.contacts {
        if c.bad || c.q.is_err() || matches!(c.reg_id, Some(Err(()))) || matches!(c.expires, Some(Err(()))) {
            codes.push(400);
        }
        let e = match (c.expires, g.expires) {
            (Some(Ok(e)), _) => e,
            (None, Some(Ok(e))) => e,
            (None, None) => cfg.default,
            _ => 0,
        };
        if e != 0 && e < cfg.min {
            codes.push(423);
        }
        if e > cfg.max {
            codes.push(400);
        }
        if old.iter().any(|b| b.contact == c.uri && outdated(b)) {
            codes.push(400);
        }
        new.retain(|b| b.contact != c.uri);
        if e != 0 {
            if new.len() >= 20 {
                codes.push(500);
            }
            new.push(Bind {
                contact: c.uri.clone(),
                call_id: g.call_id.clone(),
                cseq: g.cseq,
                q: c.q.unwrap_or(0.0),
                expires_at: now + e as i64 * SEC,
                ua: g.ua.clone(),
                path: g.path.clone(),
                instance: c.instance.clone(),
                reg_id: c.reg_id.and_then(|x| x.ok()),
            });
        }
    }
    if codes.is_empty() {
        (new, codes)
    } else {
        (old, codes)
    }
}

pub struct Shape {
    pub call_ids: Vec<String>,
    pub refuse: bool,
}

pub fn reg(r: &mut Rng, aor: &Aor, contacts: &[String], s: &Shape, cseq: u32) -> Reg {
    let refuse = s.refuse;
    let call_id = r.pick(&s.call_ids).clone();
    let mut headers: Vec<(String, String)> = vec![];
    let vias: Vec<String> = (0..r.range(1, 3)).map(|i| format!("SIP/2.0/UDP p{i}.example.com:{};branch=z9hG4bK{}", r.range(1024, 65535), r.alnum(4, 8))).collect();
    if vias.len() > 1 && r.chance(1, 3) {
        headers.push(("Via".into(), vias.join(", ")));
    } else {
        for v in &vias {
            headers.push(("Via".into(), v.clone()));
        }
    }
    let from = format!("<{}>;tag={}", aor.forms[0], r.alnum(3, 6));
    headers.push(("From".into(), from.clone()));
    let form = r.pick(&aor.forms).clone();
    let mut to = match r.below(5) {
        0 => format!("\"Al <x>; tag=1, \\\" y\" <{form}>"),
        1 => format!("Al Ice <{form}>"),
        2 if !form.contains([';', ',', '?']) => form.clone(),
        _ => format!("<{form}>"),
    };
    let mut to_tag = None;
    if r.chance(1, 4) {
        let t = r.alnum(3, 8);
        to.push_str(&format!("{}{t}", r.pick(&[";tag=", "; tag=", ";Tag="])));
        to_tag = Some(t);
    }
    headers.push(("To".into(), to.clone()));
    headers.push(("Call-ID".into(), call_id.clone()));
    let mut malformed = false;
    let mut cs = format!("{cseq}{}REGISTER", r.pick(&[" ", "  ", "\t"]));
    if refuse && r.chance(1, 60) {
        cs = r.pick(&["x REGISTER", "1 INVITE", "1", "99999999999 REGISTER", "-1 REGISTER"]).to_string();
        malformed = true;
    }
    headers.push(("CSeq".into(), cs));
    let mut expires = None;
    if r.chance(1, 3) {
        let (t, v): (String, Result<u64, ()>) = if refuse && r.chance(1, 6) {
            match r.below(3) {
                0 => (r.pick(&["abc", "-5", "1e3", "99999999999999999999999"]).to_string(), Err(())),
                1 => ("30".into(), Ok(30)),
                _ => ("100000".into(), Ok(100_000)),
            }
        } else {
            let n = *r.pick(&[0u64, 60, 90, 7200, 86_400]);
            (n.to_string(), Ok(n))
        };
        headers.push(("Expires".into(), t));
        expires = Some(v);
    }
    let mut ua = None;
    if r.chance(1, 2) {
        let n = if r.chance(1, 20) { 256 } else { r.range(1, 40) as usize };
        let v: String = r.string("abcdefgh /1.0", n, n).trim().to_string();
        if !v.is_empty() {
            headers.push(("User-Agent".into(), v.clone()));
            ua = Some(v);
        }
    }
    let mut path = vec![];
    if r.chance(1, 4) {
        for _ in 0..r.range(1, 3) {
            path.push(format!("<sip:{}.proxy.example.com;lr>", r.lower(2, 4)));
        }
        if r.coin() {
            headers.push(("Path".into(), path.join(", ")));
        } else {
            for p in &path {
                headers.push(("Path".into(), p.clone()));
            }
        }
    }
    let star = r.chance(1, 16);
    let mut specs = vec![];
    let n = if star {
        if refuse && r.chance(1, 6) { 1 } else { 0 }
    } else if refuse && r.chance(1, 30) {
        0
    } else {
        *r.pick(&[1usize, 1, 1, 2, 2, 3, 5])
    };
    let mut pool: Vec<String> = contacts.to_vec();
    r.shuffle(&mut pool);
    for u in pool.into_iter().take(n) {
        specs.push(contact_spec(r, &u, refuse));
    }
    // No stray comma ambiguity: each value is separately well-formed.
    let mut texts: Vec<String> = specs.iter().map(|s| s.text.clone()).collect();
    if star {
        texts.push("*".into());
        if expires.is_none() && !(refuse && r.chance(1, 4)) {
            headers.push(("Expires".into(), "0".into()));
            expires = Some(Ok(0));
        }
    }
    // An unterminated bracket would swallow what follows it in a combined value.
    let joinable = specs.iter().all(|s| !s.bad);
    if joinable && texts.len() > 1 && r.coin() {
        headers.push(("Contact".into(), texts.join(*r.pick(&[",", ", ", " , "]))));
    } else {
        for t in texts {
            headers.push(("Contact".into(), t));
        }
    }
    if refuse && r.chance(1, 60) {
        let k = *r.pick(&["Via", "From", "Call-ID", "CSeq", "To"]);
        headers.retain(|(n, _)| n != k);
        malformed = true;
    }
    Reg { headers, aor: aor.key.clone(), call_id, cseq, contacts: specs, star, expires, ua, path, malformed, vias, to, to_tag, from }
}

/// Independent reader of one `<uri>;name=value` contact.
pub fn read_contact(v: &str) -> Option<(String, BTreeMap<String, String>)> {
    let v = v.trim();
    let rest = v.strip_prefix('<')?;
    let (u, p) = rest.split_once('>')?;
    let mut m = BTreeMap::new();
    for x in p.split(';').filter(|x| !x.is_empty()) {
        let (a, b) = x.split_once('=')?;
        if m.insert(a.to_ascii_lowercase(), b.to_string()).is_some() {
            return None;
        }
    }
    Some((u.to_string(), m))
}

pub fn values(resp: &Response, name: &str) -> Vec<String> {
    resp.headers().get_all(name).map(|s| s.to_string()).collect()
}
