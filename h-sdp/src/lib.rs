//! A model of SDP documents, independent of the code under test: generated,
//! written as text, and compared field by field with what was read.
use vmon::Rng;

pub mod core;
pub mod sdp;

pub type Attr = (String, Option<String>);

#[derive(Clone, Debug, PartialEq)]
pub struct Med {
    pub kind: String,
    pub port: u16,
    pub nports: Option<u16>,
    pub proto: String,
    pub fmts: Vec<String>,
    pub title: Option<String>,
    pub conn: Option<(bool, String)>,
    pub bw: Vec<(String, u32)>,
    pub key: Option<String>,
    pub attrs: Vec<Attr>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Time {
    pub start: u64,
    pub stop: u64,
    pub repeats: Vec<Vec<String>>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Doc {
    pub user: String,
    pub sid: String,
    pub sver: String,
    pub v6: bool,
    pub addr: String,
    pub name: String,
    pub info: Option<String>,
    pub uri: Option<String>,
    pub emails: Vec<String>,
    pub phones: Vec<String>,
    pub conn: Option<(bool, String)>,
    pub bw: Vec<(String, u32)>,
    pub times: Vec<Time>,
    pub zones: Vec<(u64, String)>,
    pub key: Option<String>,
    pub attrs: Vec<Attr>,
    pub media: Vec<Med>,
}

pub const RTP: &[&str] = &["RTP/AVP", "RTP/SAVP", "RTP/SAVPF", "UDP/TLS/RTP/SAVPF", "TCP/TLS/RTP/SAVPF"];
pub const OTHER_PROTO: &[&str] = &[
    "UDP", "TCP", "RTP/AVPF", "TCP/MSRP", "TCP/TLS/MSRP", "UDP/DTLS/SCTP", "TCP/DTLS/SCTP", "UDPTL", "udptl", "TCP/BFCP", "RTP/SAVPX", "UDP/TLS/RTP/SAVP", "rtp/avp", "TCP/TLS", "UDP/TLS/UDPTL",
];
pub const KINDS: &[&str] = &["audio", "video", "text", "application", "message", "image", "Audio", "audio2", "x-data", "control"];

/// Free text as a line may carry it: no line breaks, no blanks at the ends.
pub fn text(r: &mut Rng, hi: usize) -> String {
    let s = match r.below(12) {
        0 => "m=audio 1 RTP/AVP 0".to_string(),
        1 => "v=0 o=x s=y t=0 0".into(),
        2 => "caf\u{e9} \u{4e2d}\u{6587} \u{1f600}".into(),
        3 => "a:b:c;d=\"e\" <f>, g".into(),
        4 => "\\r\\n%0d%0a&#13;".into(),
        5 => "=".into(),
        6 => ":".into(),
        7 => "-".into(),
        8 => r.string("abc =:;,/\\\"'<>@%\u{e9}\u{7f8e}", 1, hi),
        _ => r.alnum(1, hi),
    };
    let t: String = s.trim().chars().take(hi).collect();
    let t = t.trim().to_string();
    if t.is_empty() {
        "-".into()
    } else {
        t
    }
}

/// A word: no blanks.
pub fn word(r: &mut Rng, hi: usize) -> String {
    match r.below(8) {
        0 => "-".into(),
        1 => r.string("abcXYZ019-._~!$&'()*+,;=:@/?%\u{e9}", 1, hi),
        _ => r.alnum(1, hi),
    }
}

pub fn addr(r: &mut Rng) -> (bool, String) {
    match r.below(6) {
        0 => (true, "2001:db8::1".into()),
        1 => (true, "::ffff:192.0.2.1".into()),
        2 => (false, "224.2.1.1/127/3".into()),
        3 => (false, format!("{}.example.com", r.lower(1, 8))),
        _ => (false, format!("192.0.2.{}", r.below(256))),
    }
}

fn bw(r: &mut Rng) -> (String, u32) {
    let t = r.pick(&["AS", "CT", "RS", "RR", "TIAS", "X-YZ"]).to_string();
    let v = *r.pick(&[0u32, 1, 64, 128, 9_999_999, 10_000_000]);
    (t, v)
}

pub fn codec(r: &mut Rng) -> (String, u32, Option<String>) {
    let (n, c, p) = *r.pick(&[
        ("PCMU", 8000u32, None),
        ("pcmu", 8000, None),
        ("PCMA", 8000, None),
        ("PCMU", 8000, Some("1")),
        ("opus", 48000, Some("2")),
        ("OPUS", 48000, Some("2")),
        ("opus", 48000, None),
        ("opus", 16000, Some("2")),
        ("telephone-event", 8000, None),
        ("telephone-event", 48000, None),
        ("H264", 90000, None),
        ("VP8", 90000, None),
        ("G722", 8000, None),
        ("L16", 44100, Some("2")),
        ("iLBC", 8000, None),
        ("speex", 16000, None),
    ]);
    (n.to_string(), c, p.map(|s| s.to_string()))
}

pub fn rtpmap(pt: &str, c: &(String, u32, Option<String>)) -> Attr {
    let v = match &c.2 {
        Some(p) => format!("{pt} {}/{}/{p}", c.0, c.1),
        None => format!("{pt} {}/{}", c.0, c.1),
    };
    ("rtpmap".into(), Some(v))
}

pub fn candidate(r: &mut Rng) -> String {
    let mut s = format!(
        "{} {} {} {} {} {} typ {}",
        r.alnum(1, 6),
        r.range(1, 256),
        *r.pick(&["udp", "udp", "tcp", "sctp", "UDP", "TCP", "Udp"]),
        r.u32(),
        *r.pick(&["192.0.2.7", "2001:db8::7", "host.example"]),
        r.below(65536),
        *r.pick(&["host", "srflx", "prflx", "relay", "other"])
    );
    if r.coin() {
        s += &format!(" raddr 10.0.0.{} rport {}", r.below(256), r.below(65536));
    }
    for _ in 0..r.below(3) {
        s += &format!(" {} {}", *r.pick(&["generation", "ufrag", "network-id"]), r.alnum(1, 5));
    }
    s
}

pub const DIRS: &[&str] = &["sendrecv", "sendonly", "recvonly", "inactive"];

pub fn attr(r: &mut Rng, fmts: &[String]) -> Attr {
    let pt = |r: &mut Rng| if fmts.is_empty() || r.chance(1, 8) { format!("{}", r.below(128)) } else { r.pick(fmts).clone() };
    match r.below(24) {
        // Names that merely begin like ones with a meaning, or differ in case.
        22 => {
            let n = *r.pick(&["ptime-x", "ptimes", "setup2", "mid-x", "midi", "ssrc-group", "candidate-x", "rtpmap2", "fmtp-x", "maxptime2", "fingerprints", "Ptime", "SETUP", "Mid"]);
            (n.into(), Some(r.pick(&["20", "0 x/8000", "active", "FID 1 2"]).to_string()))
        }
        23 => (r.pick(&["sendrecvx", "Sendonly", "inactive2", "send"]).to_string(), None),
        // A meaningful blank at the front, and a value with nothing in it.
        20 => (format!("x-{}", r.lower(1, 12)), Some(format!("{}{}", *r.pick(&[" ", "  ", "\t"]), text(r, 20)))),
        21 => (format!("x-{}", r.lower(1, 12)), Some(String::new())),
        0 | 1 => {
            let p = pt(r);
            rtpmap(&p, &codec(r))
        }
        2 | 3 => {
            let p = pt(r);
            ("fmtp".into(), Some(format!("{p} {}", *r.pick(&["0-16", "minptime=10;useinbandfec=1", "profile-level-id=42e01f; packetization-mode=1", "x"]))))
        }
        4 | 5 => (r.pick(DIRS).to_string(), None),
        6 => ("ptime".into(), Some(format!("{}", r.range(0, 200)))),
        7 => ("maxptime".into(), Some(format!("{}", r.range(0, 200)))),
        8 => ("candidate".into(), Some(candidate(r))),
        9 => ("fingerprint".into(), Some(format!("{} {}", *r.pick(&["sha-256", "SHA-256", "sha-1"]), r.pick(&["AB:CD:", "ab:cd:", "Ef:0a:"]).repeat(r.range(1, 5) as usize)))),
        10 => ("setup".into(), Some(r.pick(&["active", "passive", "actpass", "holdconn", "bogus"]).to_string())),
        11 => ("ssrc".into(), Some(match r.below(4) {
            0 => format!("{} msid:{} {}:{}", r.u32(), r.alnum(1, 8), r.alnum(1, 4), r.alnum(0, 4)),
            1 => format!("{} {}", r.u32(), r.alnum(1, 8)),
            _ => format!("{} cname:{}", r.u32(), r.alnum(1, 8)),
        })),
        12 => (r.pick(&["rtcp-mux", "ice-lite", "end-of-candidates"]).to_string(), None),
        13 => ("crypto".into(), Some(format!("1 AES_CM_128_HMAC_SHA1_80 inline:{}", r.alnum(20, 40)))),
        14 => (r.pick(DIRS).to_string(), Some("withvalue".into())),
        15 => ("label".into(), Some(text(r, 40))),
        16 => (format!("x-{}", r.lower(1, 10)), None),
        _ => (format!("x-{}", r.lower(1, 10)), Some(text(r, 60))),
    }
}

pub fn med(r: &mut Rng) -> Med {
    let rtp = r.chance(3, 4);
    let proto = if rtp { *r.pick(RTP) } else { *r.pick(OTHER_PROTO) }.to_string();
    let mut fmts: Vec<String> = vec![];
    for _ in 0..r.range(1, 7) {
        fmts.push(if rtp {
            format!("{}", *r.pick(&[0u32, 3, 8, 9, 18, 34, 72, 95, 96, 97, 101, 111, 126, 127]))
        } else {
            r.pick(&["t38", "*", "webrtc-datachannel", "5000", "wb", "0", "8"]).to_string()
        });
    }
    fmts.sort();
    fmts.dedup();
    r.shuffle(&mut fmts);
    let mut attrs = vec![];
    if rtp {
        for f in &fmts {
            if r.chance(2, 3) {
                attrs.push(rtpmap(f, &codec(r)));
            }
        }
    }
    for _ in 0..r.below(8) {
        attrs.push(attr(r, &fmts));
    }
    if r.coin() {
        r.shuffle(&mut attrs);
    }
    Med {
        kind: r.pick(KINDS).to_string(),
        port: if r.chance(1, 8) { 0 } else { r.below(65536) as u16 },
        nports: if r.chance(1, 6) { Some(r.range(1, 9) as u16) } else { None },
        proto,
        fmts,
        title: if r.chance(1, 6) { Some(text(r, 60)) } else { None },
        conn: if r.chance(1, 3) { Some(addr(r)) } else { None },
        bw: (0..r.below(3)).map(|_| bw(r)).collect(),
        key: if r.chance(1, 10) { Some(format!("{}:{}", *r.pick(&["clear", "base64", "uri"]), r.alnum(1, 20))) } else { None },
        attrs,
    }
}

pub fn doc(r: &mut Rng) -> Doc {
    let (v6, a) = addr(r);
    let conn = if r.chance(4, 5) { Some(addr(r)) } else { None };
    let many = r.chance(1, 20);
    let mut media: Vec<Med> = (0..if many { r.below(20) } else { r.below(5) }).map(|_| med(r)).collect();
    if conn.is_none() {
        for m in &mut media {
            if m.conn.is_none() {
                m.conn = Some(addr(r));
            }
        }
    }
    Doc {
        user: word(r, 30),
        sid: format!("{}", r.u64()),
        sver: format!("{}", if r.chance(1, 10) { u64::MAX } else { r.u64() }),
        v6,
        addr: a,
        name: text(r, 80),
        info: if r.chance(1, 4) { Some(text(r, 80)) } else { None },
        uri: if r.chance(1, 4) { Some("http://www.example.com/a?b=c:d".into()) } else { None },
        emails: if r.chance(1, 4) { vec!["Jane <jane@example.com>".into()] } else { vec![] },
        phones: if r.chance(1, 4) { vec!["+1 617 555-6011".into()] } else { vec![] },
        conn,
        bw: (0..r.below(3)).map(|_| bw(r)).collect(),
        times: (0..r.range(1, 4))
            .map(|_| Time {
                start: *r.pick(&[0, 1, 2873397496, u64::MAX]),
                stop: *r.pick(&[0, 2873404696, u64::MAX]),
                repeats: (0..if r.chance(1, 3) { r.below(3) } else { 0 })
                    .map(|_| (0..if r.chance(1, 8) { r.range(6, 14) } else { r.range(3, 6) }).map(|_| r.pick(&["0", "25h", "604800", "3600", "7d", "90000"]).to_string()).collect())
                    .collect(),
            })
            .collect(),
        zones: (0..if r.chance(1, 5) { r.range(1, 4) } else if r.chance(1, 20) { r.range(4, 16) } else { 0 }).map(|i| (2882844526 + i as u64, r.pick(&["-1h", "0", "3600"]).to_string())).collect(),
        key: if r.chance(1, 10) { Some("prompt".into()) } else { None },
        attrs: (0..r.below(5)).map(|_| attr(r, &[])).collect(),
        media,
    }
}

fn fam(v6: bool) -> &'static str {
    if v6 {
        "IP6"
    } else {
        "IP4"
    }
}

/// The document's lines in the order RFC 4566 gives.
pub fn lines(d: &Doc) -> Vec<String> {
    let mut o = vec!["v=0".to_string(), format!("o={} {} {} IN {} {}", d.user, d.sid, d.sver, fam(d.v6), d.addr), format!("s={}", d.name)];
    let opt = |o: &mut Vec<String>, k: char, v: &Option<String>| {
        if let Some(v) = v {
            o.push(format!("{k}={v}"));
        }
    };
    let conn = |o: &mut Vec<String>, c: &Option<(bool, String)>| {
        if let Some((v6, a)) = c {
            o.push(format!("c=IN {} {a}", fam(*v6)));
        }
    };
    let attrs = |o: &mut Vec<String>, v: &[Attr]| {
        for (n, v) in v {
            o.push(match v {
                Some(v) => format!("a={n}:{v}"),
                None => format!("a={n}"),
            });
        }
    };
    opt(&mut o, 'i', &d.info);
    opt(&mut o, 'u', &d.uri);
    for e in &d.emails {
        o.push(format!("e={e}"));
    }
    for e in &d.phones {
        o.push(format!("p={e}"));
    }
    conn(&mut o, &d.conn);
    for (t, b) in &d.bw {
        o.push(format!("b={t}:{b}"));
    }
    for t in &d.times {
        o.push(format!("t={} {}", t.start, t.stop));
        for p in &t.repeats {
            o.push(format!("r={}", p.join(" ")));
        }
    }
    if !d.zones.is_empty() {
        o.push(format!("z={}", d.zones.iter().map(|(a, b)| format!("{a} {b}")).collect::<Vec<_>>().join(" ")));
    }
    opt(&mut o, 'k', &d.key);
    attrs(&mut o, &d.attrs);
    for m in &d.media {
        let np = m.nports.map(|n| format!("/{n}")).unwrap_or_default();
        o.push(format!("m={} {}{np} {} {}", m.kind, m.port, m.proto, m.fmts.join(" ")));
        opt(&mut o, 'i', &m.title);
        conn(&mut o, &m.conn);
        for (t, b) in &m.bw {
            o.push(format!("b={t}:{b}"));
        }
        opt(&mut o, 'k', &m.key);
        attrs(&mut o, &m.attrs);
    }
    o
}

pub fn join(l: &[String], eol: &str) -> String {
    let mut s = l.join(eol);
    s.push_str(eol);
    s
}

pub fn render(d: &Doc) -> String {
    join(&lines(d), "\r\n")
}

/// The text of the direction in force among attributes.
pub fn own_dir(a: &[Attr]) -> Option<&str> {
    a.iter().find(|(n, v)| v.is_none() && DIRS.contains(&n.as_str())).map(|(n, _)| n.as_str())
}

pub fn value<'a>(a: &'a [Attr], key: &str) -> Option<&'a str> {
    a.iter().find(|(n, v)| n == key && v.is_some()).and_then(|(_, v)| v.as_deref())
}

/// A change that makes a correct document wrong; `strict` adds the ones only
/// the dedicated SDP library promises to refuse.
pub fn spoil(r: &mut Rng, d: &Doc, strict: bool) -> (String, String) {
    let mut l = lines(d);
    let pos = |l: &[String], p: &str| l.iter().position(|x| x.starts_with(p)).unwrap();
    let what;
    loop {
        match r.below(if strict { 24 } else { 13 }) {
            0 => {
                let p = *r.pick(&["v=", "o=", "s="]);
                let i = pos(&l, p);
                l.remove(i);
                what = format!("missing {p}");
            }
            1 => {
                l.retain(|x| !x.starts_with("t=") && !x.starts_with("r="));
                what = "missing t=".into();
            }
            2 => {
                let i = pos(&l, "v=");
                l[i] = r.pick(&["v=", "v=x", "v=-1", "v=99999999999"]).to_string();
                what = "bad version".into();
            }
            3 => {
                let i = pos(&l, "t=");
                l[i] = r.pick(&["t=", "t=0", "t=x 0", "t=0 x", "t=-1 0", "t=99999999999999999999 0"]).to_string();
                what = "bad time".into();
            }
            4 => {
                let i = pos(&l, "o=");
                l[i] = r.pick(&["o=", "o=a", "o=a 1 2", "o=a 1 2 IN", "o=a 1 2 IN IP4"]).to_string();
                what = "short origin".into();
            }
            5 => {
                let i = pos(&l, "t=");
                l.insert(i, r.pick(&["b=AS", "b=AS:", "b=AS:x", "b=AS:-1", "b=:x", "b=128", "b=AS:99999999999999999999999"]).to_string());
                what = "bad bandwidth".into();
            }
            6 => {
                let i = pos(&l, "t=");
                l.insert(i, r.pick(&["c=", "c=IN", "c=IN IP4"]).to_string());
                what = "bad connection".into();
            }
            7 => {
                l.push(r.pick(&["m=", "m=audio", "m=audio 1", "m=audio 1 RTP/AVP", "m=audio 65536 RTP/AVP 0", "m=audio x RTP/AVP 0", "m=audio -1 RTP/AVP 0", "m=audio 1/x RTP/AVP 0", "m=audio 1/65536 RTP/AVP 0"]).to_string());
                what = "bad media".into();
            }
            8 => {
                l.push(r.pick(&["garbage", "a", "=x", "a x=y", "hello world"]).to_string());
                what = "garbage line".into();
            }
            9 => {
                // A repeat before any time description.
                let i = pos(&l, "t=");
                l.insert(i, "r=604800 3600 0".into());
                what = "repeat before time".into();
            }
            10 => {
                let i = pos(&l, "t=");
                l.insert(i + 1, r.pick(&["r=", "r=604800", "r= "]).to_string());
                what = "short repeat".into();
            }
            11 => {
                let i = l.iter().rposition(|x| x.starts_with("t=") || x.starts_with("r=")).unwrap();
                l.insert(i + 1, r.pick(&["z=1", "z=1 0 2"]).to_string());
                what = "odd time zones".into();
            }
            12 => {
                if strict {
                    continue;
                }
                let i = pos(&l, "o=");
                l.swap(i, i + 1);
                what = "o= and s= swapped".into();
            }
            13 => {
                l.push(format!("m=audio 1 {} {}", *r.pick(RTP), *r.pick(&["128", "x", "0 256", "-1", "0 8 opus", "65536"])));
                what = "bad payload type".into();
            }
            14 => {
                let i = pos(&l, "v=");
                l[i] = format!("v={}", r.range(1, 255));
                what = "version not zero".into();
            }
            15 => {
                let i = pos(&l, "v=");
                l[i] = r.pick(&["v=0 x", "v=0s=y", "v=0a=b"]).to_string();
                what = "text after version".into();
            }
            16 => {
                let i = pos(&l, "t=");
                l[i] = r.pick(&["t=0 0 0", "t=0 0x", "t=0 0a=b"]).to_string();
                what = "text after time".into();
            }
            17 => {
                let i = pos(&l, "t=");
                l.insert(i, r.pick(&["b=AS:128x", "b=AS:128 x", "b=AS:128:1", "b=AS:1a=b"]).to_string());
                what = "text after bandwidth".into();
            }
            18 => {
                // The rest of the origin on the next line.
                let i = pos(&l, "o=");
                let (a, b) = l[i].split_once(' ').map(|(a, b)| (a.to_string(), b.to_string())).unwrap();
                l[i] = a;
                l.insert(i + 1, b);
                what = "origin over two lines".into();
            }
            19 => {
                let i = pos(&l, "t=");
                l[i] = "b=AS".into();
                l.insert(i + 1, "a=x:64".into());
                l.push("t=0 0".into());
                what = "bandwidth over two lines".into();
            }
            20 => {
                let i = pos(&l, "o=");
                l[i] = r.pick(&["o=a 1 2 XX IP4 h", "o=a 1 2 IN IP5 h", "o=a 1 2 IN IP44 h", "o=a 1 2 INX IP4 h"]).to_string();
                what = "unknown network".into();
            }
            21 => {
                l.push("m=audio 1 RTP/AVP 0 ".into());
                what = "empty format".into();
            }
            22 => {
                l.push(r.pick(&["q=1", "x=y", "V=0", "A=b", "n=1"]).to_string());
                what = "unknown line".into();
            }
            _ => {
                l.push("m= 1 RTP/AVP 0".into());
                what = "empty media type".into();
            }
        }
        break;
    }
    (join(&l, "\r\n"), what)
}
