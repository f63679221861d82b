//! Message builders for the dialog monitors: every message is written as wire
//! text and read back with the stack's own parser.
use bytes::Bytes;
use sip_core::{Request, Response, SipUri};
use vmon::Rng;

pub fn u(s: &str) -> SipUri {
    SipUri::parse(s).unwrap_or_else(|e| panic!("harness uri {s}: {e:?}"))
}

/// A SIP URI the dialog limits allow.
pub fn uri(r: &mut Rng) -> String {
    if r.chance(1, 3) {
        loop {
            let m = h_core::gen_sip_uri(r);
            if m.wire.len() < 400 && SipUri::parse(&m.wire).is_ok() {
                return m.wire;
            }
        }
    }
    let scheme = if r.chance(1, 8) { "sips" } else { "sip" };
    let port = if r.coin() { format!(":{}", r.range(1, 65535)) } else { String::new() };
    let par = *r.pick(&["", "", ";lr", ";transport=tcp", ";lr;tag=inuri", ";transport=tls;x=y"]);
    format!("{scheme}:{}@{}.example.com{port}{par}", r.alnum(1, 8), r.lower(1, 6))
}

/// Display names that try to look like other parts of the header.
pub fn display(r: &mut Rng) -> String {
    match r.below(12) {
        0 => "\"a;tag=fake\" ".into(),
        1 => "\"<sip:evil@evil.example>;tag=fake\" ".into(),
        2 => "\"q\\\"<sip:evil@evil.example>;tag=fake\\\"\" ".into(),
        3 => "\"comma, <sip:evil@evil.example>\" ".into(),
        4 => "\"back\\\\\" ".into(),
        5 => "\"\\\", <sip:evil@evil.example>, \\\"\" ".into(),
        6 => "\"caf\u{e9} \u{4e2d}\u{6587};\u{e9}\u{e9}\u{e9}\" ".into(),
        7 => "Alice Bob ".into(),
        8 => "\"\"".into(),
        _ => String::new(),
    }
}

/// Parameters that must not be taken for the tag.
fn noise(r: &mut Rng) -> String {
    match r.below(10) {
        0 => ";x=\"a;tag=fake\"".into(),
        1 => ";mytag=no".into(),
        2 => ";tagged".into(),
        3 => ";x=y".into(),
        4 => ";lr ; q=0.3".into(),
        5 => ";x=\"\\\";tag=fake\"".into(),
        6 => ";tags=9".into(),
        _ => String::new(),
    }
}

/// A From/To value with the given URI and tag.
pub fn party(r: &mut Rng, uri: &str, tag: Option<&str>) -> String {
    let plain = !uri.contains([';', '?', ',']);
    let mut s = if plain && r.chance(1, 6) { uri.to_string() } else { format!("{}<{uri}>", display(r)) };
    s.push_str(&noise(r));
    if let Some(t) = tag {
        s.push_str(r.pick(&[";tag=", ";tag=", ";tag=", ";TAG=", "; tag=", ";Tag = "]));
        s.push_str(t);
    }
    s.push_str(&noise(r));
    s
}

/// A single name-addr for Contact.
pub fn contact(r: &mut Rng, uri: &str) -> String {
    let plain = !uri.contains([';', '?', ',']);
    let mut s = if plain && r.chance(1, 6) { uri.to_string() } else { format!("{}<{uri}>", display(r)) };
    s.push_str(r.pick(&["", "", ";expires=60", ";q=0.5", ";+sip.instance=\"<urn:uuid:0>\"", ";x=\"<sip:evil@evil.example>\""]));
    s
}

/// Record-Route header lines holding the URIs in order.
pub fn record_routes(r: &mut Rng, uris: &[String]) -> Vec<(String, String)> {
    let mut out = vec![];
    let mut i = 0;
    while i < uris.len() {
        let k = if r.coin() { 1 } else { r.range(1, 6) as usize }.min(uris.len() - i);
        let v: Vec<String> = uris[i..i + k].iter().map(|u| format!("{}<{u}>{}", display(r), r.pick(&["", ";x=y", ";x=\"a,b\""]))).collect();
        let sep = *r.pick(&[",", ", ", " , "]);
        out.push(("Record-Route".into(), v.join(sep)));
        i += k;
    }
    out
}

#[derive(Clone, Debug, Default)]
pub struct Msg {
    pub first: String,
    pub from: String,
    pub to: String,
    pub call_id: String,
    pub cseq: String,
    pub rest: Vec<(String, String)>,
}
impl Msg {
    pub fn text(&self, r: &mut Rng) -> String {
        let mut h: Vec<(String, String)> = vec![
            ("Via".into(), "SIP/2.0/UDP h.example.net;branch=z9hG4bKabc".into()),
            ("From".into(), self.from.clone()),
            ("To".into(), self.to.clone()),
            ("Call-ID".into(), self.call_id.clone()),
            ("CSeq".into(), self.cseq.clone()),
            ("Max-Forwards".into(), "70".into()),
        ];
        h.extend(self.rest.iter().cloned());
        // Order among different names is free; keep repeated names in order.
        if r.chance(1, 3) {
            h.rotate_left(r.below(6));
        }
        let mut s = format!("{}\r\n", self.first);
        for (n, v) in h {
            if v.is_empty() && n != "Subject" {
                continue;
            }
            let n = match r.below(8) {
                0 => match n.as_str() {
                    "From" => "f".into(),
                    "To" => "t".into(),
                    "Call-ID" => "i".into(),
                    "Contact" => "m".into(),
                    "Event" => "o".into(),
                    "Session-Expires" => "x".into(),
                    _ => n.clone(),
                },
                1 => n.to_ascii_lowercase(),
                2 => n.to_ascii_uppercase(),
                _ => n.clone(),
            };
            s.push_str(&format!("{n}: {v}\r\n"));
        }
        s.push_str("Content-Length: 0\r\n\r\n");
        s
    }
    pub fn request(&self, r: &mut Rng) -> Request {
        let t = self.text(r);
        sip_parse::parse_request(&Bytes::from(t.clone())).unwrap_or_else(|| panic!("harness request refused: {t}"))
    }
    pub fn response(&self, r: &mut Rng) -> Response {
        let t = self.text(r);
        sip_parse::parse_response(&Bytes::from(t.clone())).unwrap_or_else(|| panic!("harness response refused: {t}"))
    }
}

pub const METHODS: [&str; 14] = [
    "INVITE", "ACK", "BYE", "UPDATE", "INFO", "PRACK", "MESSAGE", "OPTIONS", "REFER", "SUBSCRIBE", "NOTIFY", "PUBLISH", "FOO", "CANCEL",
];
/// RFC 5057 section 5.2.
pub fn refreshes(m: &str) -> bool {
    ["INVITE", "UPDATE", "SUBSCRIBE", "NOTIFY", "REFER"].contains(&m)
}
pub fn tag(r: &mut Rng) -> String {
    let (lo, hi) = *r.pick(&[(1, 12), (1, 12), (1, 12), (1, 1), (64, 128)]);
    r.string("abcdefghijklmnopqrstuvwxyzABCDEF0123456789-.!%*_+`'~", lo, hi)
}
/// The same text with the case of one letter changed: another text.
pub fn flip(r: &mut Rng, s: &str) -> String {
    let at: Vec<usize> = s.bytes().enumerate().filter(|(_, b)| b.is_ascii_alphabetic()).map(|(i, _)| i).collect();
    if at.is_empty() {
        return format!("{s}x");
    }
    let mut v = s.as_bytes().to_vec();
    v[*r.pick(&at)] ^= 0x20;
    String::from_utf8(v).unwrap()
}
/// Adds near doubles to a pool of names.
pub fn doubles(r: &mut Rng, v: &mut Vec<String>) {
    if r.chance(1, 2) {
        let x = r.pick(v).clone();
        v.push(flip(r, &x));
    }
}
pub fn call_id(r: &mut Rng) -> String {
    match r.below(3) {
        0 => format!("{}@{}", r.alnum(4, 20), r.lower(1, 10)),
        1 => r.string("abcdefghijklmnopqrstuvwxyzABCDEF0123456789-.!%*_+`'~()<>:\\/[]?{}", 1, 30),
        _ => r.alnum(8, 40),
    }
}
