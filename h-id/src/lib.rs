//! Keys, tokens and an independent base64url and JSON writer.
use ring::rand::SystemRandom;
use ring::signature::{EcdsaKeyPair, KeyPair, ECDSA_P256_SHA256_FIXED_SIGNING};
use std::sync::OnceLock;
use vmon::Rng;

pub struct Key {
    pub pair: EcdsaKeyPair,
    pub public: Vec<u8>,
}

pub fn rng() -> &'static SystemRandom {
    static R: OnceLock<SystemRandom> = OnceLock::new();
    R.get_or_init(SystemRandom::new)
}

pub fn key_from(pkcs8: &[u8]) -> Key {
    let pair = EcdsaKeyPair::from_pkcs8(&ECDSA_P256_SHA256_FIXED_SIGNING, pkcs8, rng()).unwrap();
    let public = pair.public_key().as_ref().to_vec();
    Key { pair, public }
}

pub fn new_key() -> Key {
    let d = EcdsaKeyPair::generate_pkcs8(&ECDSA_P256_SHA256_FIXED_SIGNING, rng()).unwrap();
    key_from(d.as_ref())
}

pub fn keys() -> &'static Vec<Key> {
    static K: OnceLock<Vec<Key>> = OnceLock::new();
    K.get_or_init(|| (0..12).map(|_| new_key()).collect())
}

const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

pub fn enc(b: &[u8]) -> String {
    let mut o = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..c.len() + 1 {
            o.push(B64[(n >> (18 - 6 * i)) as usize & 63] as char);
        }
    }
    o
}

pub fn dec(s: &str) -> Option<Vec<u8>> {
    let mut o = vec![];
    for c in s.as_bytes().chunks(4) {
        if c.len() == 1 {
            return None;
        }
        let mut n = 0u32;
        for i in 0..4 {
            let v = match c.get(i) {
                Some(x) => B64.iter().position(|y| y == x)? as u32,
                None => 0,
            };
            n = n << 6 | v;
        }
        let b = [(n >> 16) as u8, (n >> 8) as u8, n as u8];
        o.extend_from_slice(&b[..c.len() - 1]);
    }
    Some(o)
}

/// A JSON string literal; `wide` escapes everything that may be escaped.
pub fn quote(s: &str, wide: bool) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 0x20 || (wide && !c.is_ascii_alphanumeric()) => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o += &format!("\\u{u:04x}");
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn sign_raw(k: &Key, header: &str, claims: &str) -> String {
    let input = format!("{}.{}", enc(header.as_bytes()), enc(claims.as_bytes()));
    let s = k.pair.sign(rng(), input.as_bytes()).unwrap();
    format!("{input}.{}", enc(s.as_ref()))
}

pub fn tn(r: &mut Rng) -> String {
    match r.below(8) {
        0 => r.nasty(1, 12),
        1 => "caf\u{e9}\u{1f600}\u{0}\"\\/".into(),
        2 => "*#0".into(),
        _ => format!("+1{}", r.ur(2_000_000_000, 9_999_999_999)),
    }
}

/// A URI as it may stand between angle brackets.
pub fn uri(r: &mut Rng) -> String {
    match r.below(8) {
        0 => "https://cert.example.org/a;v=1/c.crt".into(),
        1 => "https://c.example/x.pem?a=b;c=d&alg=none;info=x".into(),
        2 => "https://c.example/,x=y".into(),
        3 => format!("https://h/{}", r.string("abc;=,?&%:@!$'()*+~-._/", 1, 40)),
        4 => format!("https://c.example/{}", r.alnum(100, 600)),
        _ => format!("https://cert.example.org/{}.crt", r.alnum(1, 10)),
    }
}
