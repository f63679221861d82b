//! Reference digest computation (RFC 7616) and request building, independent of the stack's own.
use bytes::Bytes;
use sha2::Digest;
use sip_auth::{DigestAlgorithm, Qop};
use sip_core::{Headers, Method, Request, RequestLine, Uri};
use smol_str::SmolStr;
use std::collections::BTreeMap;
use vmon::Rng;

pub const ALGS: [(DigestAlgorithm, &str); 8] = [
    (DigestAlgorithm::Md5, "MD5"),
    (DigestAlgorithm::Md5Sess, "MD5-sess"),
    (DigestAlgorithm::Sha256, "SHA-256"),
    (DigestAlgorithm::Sha256Sess, "SHA-256-sess"),
    (DigestAlgorithm::Sha512, "SHA-512"),
    (DigestAlgorithm::Sha512Sess, "SHA-512-sess"),
    (DigestAlgorithm::Sha512_256, "SHA-512-256"),
    (DigestAlgorithm::Sha512_256Sess, "SHA-512-256-sess"),
];

pub fn h(alg: &str, data: &[u8]) -> String {
    match alg.trim_end_matches("-sess") {
        "MD5" => format!("{:x}", md5::compute(data)),
        "SHA-256" => hex::encode(sha2::Sha256::digest(data)),
        "SHA-512" => hex::encode(sha2::Sha512::digest(data)),
        "SHA-512-256" => hex::encode(sha2::Sha512_256::digest(data)),
        x => panic!("{x}"),
    }
}

#[derive(Clone, Debug)]
pub struct D {
    pub alg: &'static str,
    pub user: String,
    pub realm: String,
    pub pass: String,
    pub method: String,
    pub uri: String,
    pub nonce: String,
    pub nc: String,
    pub cnonce: String,
    pub qop: String,
    pub body: Vec<u8>,
}

impl D {
    pub fn ha1(&self) -> String {
        let a = h(self.alg, format!("{}:{}:{}", self.user, self.realm, self.pass).as_bytes());
        if self.alg.ends_with("-sess") {
            h(self.alg, format!("{a}:{}:{}", self.nonce, self.cnonce).as_bytes())
        } else {
            a
        }
    }
    fn kd(&self, method: &str) -> String {
        let a2 = if self.qop == "auth-int" {
            format!("{method}:{}:{}", self.uri, h(self.alg, &self.body))
        } else {
            format!("{method}:{}", self.uri)
        };
        let ha2 = h(self.alg, a2.as_bytes());
        if self.qop.is_empty() {
            h(self.alg, format!("{}:{}:{ha2}", self.ha1(), self.nonce).as_bytes())
        } else {
            h(self.alg, format!("{}:{}:{}:{}:{}:{ha2}", self.ha1(), self.nonce, self.nc, self.cnonce, self.qop).as_bytes())
        }
    }
    pub fn response(&self) -> String {
        self.kd(&self.method)
    }
    /// Response-auth digest: same computation with an empty method.
    pub fn rspauth(&self) -> String {
        self.kd("")
    }
}

pub const METHODS: [&str; 12] = [
    "REGISTER", "INVITE", "BYE", "OPTIONS", "MESSAGE", "SUBSCRIBE", "NOTIFY", "REFER", "PUBLISH", "INFO", "UPDATE", "PRACK",
];

pub fn uri(r: &mut Rng) -> String {
    let mut u = String::new();
    if r.chance(1, 8) {
        return format!("tel:+{}", r.string("0123456789", 3, 12));
    }
    u.push_str(if r.coin() { "sip:" } else { "sips:" });
    if r.chance(3, 4) {
        u.push_str(&r.string("abcdefghijklmnopqrstuvwxyz0123456789-_.!~*'()", 1, 10));
        u.push('@');
    }
    u.push_str(&match r.below(3) {
        0 => "10.0.0.1".to_string(),
        1 => "[2001:db8::1]".to_string(),
        _ => format!("{}.example.com", r.lower(1, 8)),
    });
    if r.chance(1, 3) {
        u.push_str(&format!(":{}", r.range(1, 65535)));
    }
    if r.chance(1, 3) {
        u.push_str(r.pick(&[";transport=tcp", ";lr", ";transport=TLS;user=phone", ";maddr=224.0.0.1;ttl=5"]));
    }
    u
}

pub fn request(method: &str, uri: &str, hs: &[(&str, &str)], body: &[u8]) -> Request {
    let mut h = Headers::new();
    for (n, v) in hs {
        h.push(SmolStr::new(n), SmolStr::new(v)).expect("header");
    }
    let m: Method = method.parse().unwrap_or_else(|_| panic!("method {method}"));
    Request::new(RequestLine::new(m, Uri::parse(uri).expect("uri")), h, Bytes::copy_from_slice(body)).expect("request")
}

pub fn base_headers<'a>() -> Vec<(&'a str, &'a str)> {
    vec![
        ("Via", "SIP/2.0/UDP client.example.com:5060;branch=z9hG4bKabc"),
        ("From", "<sip:alice@example.com>;tag=1"),
        ("To", "<sip:bob@example.com>"),
        ("Call-ID", "c1@example.com"),
        ("CSeq", "7 REGISTER"),
        ("Max-Forwards", "70"),
    ]
}

/// Reference reader of `Digest name=value, name="value"...`.
pub fn params(v: &str) -> Option<(String, BTreeMap<String, String>)> {
    let (scheme, rest) = v.trim().split_once(' ')?;
    let mut out = BTreeMap::new();
    let cs: Vec<char> = rest.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        while i < cs.len() && (cs[i] == ' ' || cs[i] == ',') {
            i += 1;
        }
        let mut k = String::new();
        while i < cs.len() && cs[i] != '=' {
            k.push(cs[i]);
            i += 1;
        }
        i += 1;
        let mut val = String::new();
        if i < cs.len() && cs[i] == '"' {
            i += 1;
            while i < cs.len() && cs[i] != '"' {
                if cs[i] == '\\' {
                    i += 1;
                }
                val.push(*cs.get(i)?);
                i += 1;
            }
            if i >= cs.len() {
                return None;
            }
            i += 1;
        } else {
            while i < cs.len() && cs[i] != ',' {
                val.push(cs[i]);
                i += 1;
            }
        }
        if k.trim().is_empty() {
            return None;
        }
        if out.insert(k.trim().to_ascii_lowercase(), val.trim().to_string()).is_some() {
            return None;
        }
    }
    Some((scheme.to_string(), out))
}

pub fn qop_of(s: &str) -> Option<Qop> {
    match s {
        "auth" => Some(Qop::Auth),
        "auth-int" => Some(Qop::AuthInt),
        _ => None,
    }
}

pub fn self_test() {
    assert_eq!(h("MD5", b""), "d41d8cd98f00b204e9800998ecf8427e");
    // RFC 7616 section 3.9.1
    let mut d = D {
        alg: "SHA-256",
        user: "Mufasa".into(),
        realm: "http-auth@example.org".into(),
        pass: "Circle of Life".into(),
        method: "GET".into(),
        uri: "/dir/index.html".into(),
        nonce: "7ypf/xlj9XXwfDPEoM4URrv/xwf94BcCAzFZH4GiTo0v".into(),
        nc: "00000001".into(),
        cnonce: "f2/wE4q74E6zIJEtWaHKaf5wv/H5QzzpXusqGemxURZJ".into(),
        qop: "auth".into(),
        body: vec![],
    };
    assert_eq!(d.response(), "753927fa0e85d155564e2e272a28d1802ca10daf4496794697cf8db5856cb6c1");
    d.alg = "MD5";
    assert_eq!(d.response(), "8ca523f5e9506fed4657c9700eebdbec");
    // FIPS 180-4 SHA-512/256("abc")
    assert_eq!(h("SHA-512-256", b"abc"), "53048e2681941ef99b2e29b76b4c7dabe4c2d0c634fc6d46e0e2f13107e7af23");
}
