//! Generators with models for URIs, header values and whole messages.
use std::collections::BTreeMap;
pub use vmon::{catch, Ctx, Rec, Rng};

pub const UNRES: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!~*'()";
pub const TOKEN: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-.!%*_+`'~";

pub fn gen_domain(r: &mut Rng) -> String {
    let n = r.range(1, 4);
    let mut v: Vec<String> = (0..n)
        .map(|_| {
            let mut s = r.string("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789", 1, 1);
            s.push_str(&r.string("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-", 0, 8));
            if s.ends_with('-') {
                s.push('a');
            }
            s
        })
        .collect();
    // top label starts with a letter
    let last = v.len() - 1;
    v[last] = format!("{}{}", r.lower(1, 1), v[last]);
    v.join(".")
}
pub fn gen_ipv4(r: &mut Rng) -> String {
    format!("{}.{}.{}.{}", r.below(256), r.below(256), r.below(256), r.below(256))
}
pub fn gen_ipv6(r: &mut Rng) -> String {
    let mut seg = [0u16; 8];
    for s in seg.iter_mut() {
        if r.chance(2, 3) {
            *s = r.u32() as u16;
        }
    }
    std::net::Ipv6Addr::from(seg).to_string()
}
/// (wire form in a URI, value reported by host())
pub fn gen_host(r: &mut Rng) -> (String, String) {
    match r.below(5) {
        0 => {
            let h = gen_ipv4(r);
            (h.clone(), h)
        }
        1 => {
            let h = gen_ipv6(r);
            (format!("[{h}]"), h)
        }
        _ => {
            let h = gen_domain(r);
            (h.clone(), h.to_ascii_lowercase())
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct UriModel {
    pub wire: String,
    pub sips: bool,
    pub user: Option<String>,
    pub host: String,
    pub port: Option<u16>,
    pub params: BTreeMap<String, Option<String>>,
    pub headers: BTreeMap<String, String>,
}

/// User part: returns (wire, decoded).
pub fn gen_user(r: &mut Rng) -> (String, String) {
    let n = r.range(1, 12);
    let mut w = String::new();
    let mut d = String::new();
    for _ in 0..n {
        match r.below(12) {
            0 => {
                let c = *r.pick(&['&', '=', '+', '$', ',']);
                w.push(c);
                d.push(c);
            }
            1 => {
                // percent-escaped: anything decodable that the library documents as allowed
                let c = *r.pick(&[' ', '"', '<', '>', '%', '\\', '^', '{', 'A', 'é', '中', ':', '&', '|']);
                let mut b = [0u8; 4];
                for x in c.encode_utf8(&mut b).bytes() {
                    if r.coin() {
                        w.push_str(&format!("%{x:02X}"));
                    } else {
                        w.push_str(&format!("%{x:02x}"));
                    }
                }
                d.push(c);
            }
            _ => {
                let c = r.string(UNRES, 1, 1);
                w.push_str(&c);
                d.push_str(&c);
            }
        }
    }
    (w, d)
}
pub fn gen_sip_uri(r: &mut Rng) -> UriModel {
    let sips = r.chance(1, 5);
    let mut wire = String::from(if sips { "sips:" } else { "sip:" });
    let user = if r.chance(3, 4) {
        let (w, d) = gen_user(r);
        wire.push_str(&w);
        wire.push('@');
        Some(d)
    } else {
        None
    };
    let (hw, host) = gen_host(r);
    wire.push_str(&hw);
    let port = if r.chance(1, 2) {
        let p = r.range(1, 65535) as u16;
        wire.push_str(&format!(":{p}"));
        Some(p)
    } else {
        None
    };
    let mut params = BTreeMap::new();
    for _ in 0..r.below(5) {
        let name = match r.below(8) {
            0 => "transport".into(),
            1 => "lr".into(),
            2 => "maddr".into(),
            3 => "ttl".into(),
            4 => "user".into(),
            _ => r.string("abcdefghijklmnopqrstuvwxyzABC0123456789-.", 1, 8),
        };
        if params.contains_key(&name.to_ascii_lowercase()) {
            continue;
        }
        wire.push(';');
        wire.push_str(&name);
        let val = if r.chance(2, 3) {
            let v = r.string("abcdefghijklmnopqrstuvwxyzABC0123456789-_.!~*'()[]/:&+$", 1, 10);
            wire.push('=');
            wire.push_str(&v);
            Some(v)
        } else {
            None
        };
        params.insert(name.to_ascii_lowercase(), val);
    }
    let mut headers = BTreeMap::new();
    if r.chance(1, 4) {
        let mut first = true;
        for _ in 0..r.range(1, 3) {
            let name = r.string("abcdefghijklmnopqrstuvwxyzABC0123456789-", 1, 8);
            if headers.contains_key(&name.to_ascii_lowercase()) {
                continue;
            }
            wire.push(if first { '?' } else { '&' });
            first = false;
            let v = r.string("abcdefghijklmnopqrstuvwxyzABC0123456789-_.!~*'()[]/:+$%20", 0, 10);
            wire.push_str(&format!("{name}={v}"));
            headers.insert(name.to_ascii_lowercase(), v);
        }
    }
    UriModel { wire, sips, user, host, port, params, headers }
}
pub fn gen_tel(r: &mut Rng) -> String {
    if r.coin() {
        format!("tel:+{}", r.string("0123456789", 3, 14))
    } else {
        format!("tel:{};phone-context={}", r.string("0123456789", 3, 8), gen_domain(r).to_ascii_lowercase())
    }
}
/// A syntactically valid URI of any supported kind, as text.
pub fn gen_uri(r: &mut Rng) -> String {
    match r.below(8) {
        0 => gen_tel(r),
        1 => format!("{}:{}", *r.pick(&["http", "https", "urn", "im", "pres"]), r.string("abcdefghijklmnopqrstuvwxyz0123456789:/.-_", 1, 20)),
        _ => gen_sip_uri(r).wire,
    }
}
/// quoted-string text: (wire inside the quotes, meaning)
pub fn gen_quoted(r: &mut Rng, lo: usize, hi: usize) -> (String, String) {
    let n = r.range(lo as i64, hi as i64);
    let mut w = String::new();
    let mut d = String::new();
    for _ in 0..n {
        match r.below(10) {
            0 => {
                let c = *r.pick(&['"', '\\']);
                w.push('\\');
                w.push(c);
                d.push(c);
            }
            1 | 2 => {
                let c = *r.pick(&[';', ',', '<', '>', '=', '@', ':', '?', ' ', 'é', '中', '(', ')']);
                w.push(c);
                d.push(c);
            }
            _ => {
                let c = r.alnum(1, 1);
                w.push_str(&c);
                d.push_str(&c);
            }
        }
    }
    (w, d)
}
/// name-addr value without quotes trickery, e.g. `"Bob; x" <sip:..>;tag=abc`.
pub fn gen_name_addr(r: &mut Rng, tag: Option<&str>) -> String {
    let uri = gen_sip_uri(r).wire;
    let mut s = match r.below(4) {
        0 => format!("<{uri}>"),
        1 => format!("{} <{uri}>", r.alnum(1, 8)),
        2 => {
            let (q, _) = gen_quoted(r, 0, 10);
            format!("\"{q}\" <{uri}>")
        }
        _ => format!("\"{}\" <{uri}>", r.alnum(1, 8)),
    };
    if let Some(t) = tag {
        s.push_str(";tag=");
        s.push_str(t);
    }
    s
}
pub fn gen_branch(r: &mut Rng) -> String {
    format!("z9hG4bK{}", r.string("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-.", 1, 20))
}
pub fn gen_via(r: &mut Rng) -> String {
    let (hw, _) = gen_host(r);
    let mut s = format!("SIP/2.0/{} {}", *r.pick(&["UDP", "TCP", "TLS", "WS", "WSS", "SCTP"]), hw);
    if r.coin() {
        s.push_str(&format!(":{}", r.range(1, 65535)));
    }
    s.push_str(&format!(";branch={}", gen_branch(r)));
    match r.below(4) {
        0 => s.push_str(";rport"),
        1 => s.push_str(&format!(";received={}", gen_ipv4(r))),
        _ => {}
    }
    s
}
pub const METHODS: &[&str] = &[
    "INVITE", "ACK", "BYE", "CANCEL", "REGISTER", "OPTIONS", "INFO", "UPDATE", "MESSAGE", "PRACK", "REFER", "SUBSCRIBE", "NOTIFY", "PUBLISH",
];
pub fn gen_method(r: &mut Rng) -> String {
    if r.chance(1, 10) {
        format!("X{}", r.string("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-.!%*_+`'~", 1, 8))
    } else {
        r.pick(METHODS).to_string()
    }
}

pub const COMPACT: &[(&str, &str)] = &[
    ("Call-ID", "i"),
    ("From", "f"),
    ("To", "t"),
    ("Contact", "m"),
    ("Subject", "s"),
    ("Supported", "k"),
    ("Event", "o"),
    ("Content-Encoding", "e"),
    ("Content-Type", "c"),
    ("Via", "v"),
    ("Refer-To", "r"),
    ("Referred-By", "b"),
    ("Request-Disposition", "d"),
    ("Session-Expires", "x"),
    ("Accept-Contact", "a"),
    ("Allow-Events", "u"),
];

#[derive(Clone, Debug)]
pub struct MsgModel {
    pub request: bool,
    pub method: String,
    pub uri: String,
    pub code: u16,
    pub reason: String,
    /// canonical (long) name, wire name, value
    pub headers: Vec<(String, String, String)>,
    pub body: Vec<u8>,
    pub content_length: bool,
}
fn recase(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_ascii_lowercase(),
        1 => s.to_ascii_uppercase(),
        _ => s.to_string(),
    }
}
pub fn gen_text(r: &mut Rng, lo: usize, hi: usize) -> String {
    let s = r.string("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -_.;,=<>@:/?\"()\\é中", lo, hi);
    s.trim().to_string()
}
impl MsgModel {
    pub fn gen(r: &mut Rng) -> MsgModel {
        let request = r.chance(3, 5);
        let method = gen_method(r);
        let uri = gen_uri(r);
        let code = match r.below(3) {
            0 => *r.pick(&[100, 180, 183, 200, 202, 302, 401, 407, 404, 486, 487, 500, 503, 600, 699]),
            _ => r.range(100, 699) as u16,
        };
        let reason = gen_text(r, 1, 20);
        let reason = if reason.is_empty() { "OK".into() } else { reason };
        let mut h: Vec<(String, String)> = vec![];
        for _ in 0..r.range(1, 3) {
            h.push(("Via".into(), gen_via(r)));
        }
        let (ta, tb) = (r.alnum(1, 10), r.alnum(1, 10));
        h.push(("From".into(), gen_name_addr(r, Some(&ta))));
        let with_to_tag = r.coin();
        h.push(("To".into(), gen_name_addr(r, with_to_tag.then_some(tb.as_str()))));
        h.push(("Call-ID".into(), format!("{}@{}", r.alnum(1, 20), gen_domain(r))));
        let n = match r.below(4) {
            0 => 1,
            1 => 2147483647,
            _ => r.range(1, 2147483647),
        };
        h.push(("CSeq".into(), format!("{n} {method}")));
        if r.chance(2, 3) {
            h.push(("Max-Forwards".into(), format!("{}", r.below(256))));
        }
        for _ in 0..r.below(8) {
            match r.below(10) {
                0 => h.push(("Contact".into(), gen_name_addr(r, None))),
                1 => h.push(("Route".into(), format!("<{};lr>", gen_sip_uri(r).wire.split('?').next().unwrap()))),
                2 => h.push(("Record-Route".into(), format!("<{};lr>", gen_sip_uri(r).wire.split('?').next().unwrap()))),
                3 => h.push(("Supported".into(), "100rel, timer".into())),
                4 => h.push(("Subject".into(), gen_text(r, 0, 30))),
                5 => h.push(("Event".into(), "presence".into())),
                6 => {
                    let (n, _) = *r.pick(COMPACT);
                    if !["Via", "From", "To", "Call-ID"].contains(&n) {
                        h.push((n.into(), gen_text(r, 0, 20)))
                    }
                }
                _ => h.push((format!("X-{}", r.string("abcdefghijklmnopqrstuvwxyzABC0123456789-_.!%*+`'~^|", 1, 12)), gen_text(r, 0, 40))),
            }
        }
        if r.chance(1, 3) {
            r.shuffle(&mut h);
        }
        let body = match r.below(4) {
            0 => vec![],
            1 => b"v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=-\r\nt=0 0\r\n".to_vec(),
            2 => r.bytes(1, 60),
            _ => gen_text(r, 1, 40).into_bytes(),
        };
        let headers = h
            .into_iter()
            .map(|(n, v)| {
                let wire = match COMPACT.iter().find(|(l, _)| *l == n) {
                    Some((_, c)) if r.chance(1, 3) => recase(r, c),
                    _ => recase(r, &n),
                };
                (n, wire, v)
            })
            .collect();
        let content_length = !body.is_empty() || r.coin();
        MsgModel { request, method, uri, code, reason, headers, body, content_length }
    }
    pub fn start_line(&self) -> String {
        self.start_as("SIP/2.0")
    }
    fn start_as(&self, version: &str) -> String {
        if self.request {
            format!("{} {} {version}", self.method, self.uri)
        } else {
            format!("{version} {} {}", self.code, self.reason)
        }
    }
    /// Wire bytes; `r` chooses permitted white space.
    pub fn wire(&self, r: &mut Rng) -> Vec<u8> {
        // RFC 3261 7.1: the version's case does not matter.
        let mut s = self.start_as(*r.pick(&["SIP/2.0", "SIP/2.0", "SIP/2.0", "SIP/2.0", "sip/2.0", "Sip/2.0"]));
        s.push_str("\r\n");
        let mut lines: Vec<String> = self
            .headers
            .iter()
            .map(|(_, w, v)| {
                let a = *r.pick(&["", "", "", " ", "\t"]);
                let b = *r.pick(&["", " ", " ", "  ", "\t"]);
                let c = *r.pick(&["", "", "", " "]);
                format!("{w}{a}:{b}{v}{c}\r\n")
            })
            .collect();
        if self.content_length {
            let name = *r.pick(&["Content-Length", "content-length", "l", "L"]);
            let i = r.below(lines.len() + 1);
            lines.insert(i, format!("{name}: {}\r\n", self.body.len()));
        }
        s.push_str(&lines.concat());
        s.push_str("\r\n");
        let mut v = s.into_bytes();
        v.extend_from_slice(&self.body);
        v
    }
    pub fn show(&self) -> String {
        format!("{} | {} headers | body {}", self.start_line(), self.headers.len(), self.body.len())
    }
}
pub fn esc(b: &[u8]) -> String {
    let mut s = String::new();
    for c in String::from_utf8_lossy(b).chars() {
        if c == '\r' {
            s.push_str("\\r");
        } else if c == '\n' {
            s.push_str("\\n");
        } else if c == '\0' {
            s.push_str("\\0");
        } else {
            s.push(c);
        }
        if s.len() > 900 {
            s.push_str("...");
            break;
        }
    }
    s
}
