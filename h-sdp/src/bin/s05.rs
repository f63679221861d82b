//! S05: offers made from media profiles say exactly what the profile lists, the
//! direction algebra and the RTP/AVP table are those of the RFCs.
use sip_core::rtp_avp;
use sip_sdp::negotiate::Direction;
use sip_sdp::profiles::{self, MediaProfileBuilder, SdpProfile};
use sip_sdp::{Attribute, MediaDescription, SessionDescription};
use vmon::{Ctx, Rec, Rng};

type Codec = (u8, String, u32);
/// one m= section as its text says
#[derive(Debug, Default, PartialEq)]
struct Section {
    kind: String,
    port: String,
    proto: String,
    fmts: Vec<String>,
    attrs: Vec<String>,
    other: Vec<String>,
}
fn read(text: &str) -> (Vec<String>, Vec<Section>) {
    let mut head = Vec::new();
    let mut secs: Vec<Section> = Vec::new();
    for l in text.split("\r\n").filter(|l| !l.is_empty()) {
        if let Some(m) = l.strip_prefix("m=") {
            let mut p = m.split(' ').map(String::from);
            secs.push(Section {
                kind: p.next().unwrap_or_default(),
                port: p.next().unwrap_or_default(),
                proto: p.next().unwrap_or_default(),
                fmts: p.collect(),
                ..Section::default()
            });
        } else if let Some(s) = secs.last_mut() {
            match l.strip_prefix("a=") {
                Some(a) => s.attrs.push(a.into()),
                None => s.other.push(l.into()),
            }
        } else {
            head.push(l.to_string());
        }
    }
    (head, secs)
}
fn video_port(audio: u16, given: Option<u16>) -> u16 {
    match given {
        Some(v) => v,
        None if audio as u32 + 2 <= 65535 => audio + 2,
        None => audio - 2,
    }
}
fn section(kind: &str, port: u16, codecs: &[Codec], te: bool, dir: &str, mux: bool) -> Section {
    let mut s = Section { kind: kind.into(), port: port.to_string(), proto: "RTP/AVP".into(), ..Section::default() };
    for (pt, n, rate) in codecs {
        s.fmts.push(pt.to_string());
        s.attrs.push(format!("rtpmap:{pt} {n}/{rate}"));
    }
    if te {
        s.fmts.push("101".into());
        s.attrs.push("rtpmap:101 telephone-event/8000".into());
        s.attrs.push("fmtp:101 0-16".into());
    }
    s.attrs.push(dir.into());
    if mux {
        s.attrs.push("rtcp-mux".into());
    }
    s.attrs.sort();
    s
}
fn head_ok(head: &[String], user: &str, addr: &str) -> Result<(), String> {
    let fam = if addr.contains(':') { "IP6" } else { "IP4" };
    let one = |k: &str| {
        let v: Vec<&String> = head.iter().filter(|l| l.starts_with(k)).collect();
        if v.len() == 1 {
            Ok(v[0][2..].to_string())
        } else {
            Err(format!("{} {k} lines", v.len()))
        }
    };
    if one("v=")? != "0" || one("t=")? != "0 0" || one("c=")? != format!("IN {fam} {addr}") || one("s=")?.is_empty() {
        return Err(format!("session lines {head:?}"));
    }
    let o = one("o=")?;
    let p: Vec<&str> = o.split(' ').collect();
    let num = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    if p.len() != 6 || p[0] != user || !num(p[1]) || !num(p[2]) || p[3] != "IN" || p[4] != fam || p[5] != addr {
        return Err(format!("origin {o}"));
    }
    if head.len() != 5 {
        return Err(format!("more session lines {head:?}"));
    }
    Ok(())
}
fn codecs(r: &mut Rng, used: &mut Vec<u8>, n: usize) -> Vec<Codec> {
    let mut out = Vec::new();
    for _ in 0..n {
        let pt = r.below(128) as u8;
        if pt == 101 || used.contains(&pt) {
            continue;
        }
        used.push(pt);
        let rate = *r.pick(&[8000u32, 16000, 44100, 48000, 90000, 11025, 8001]);
        out.push((pt, r.alnum(1, 12), rate));
    }
    out
}
fn user_addr(r: &mut Rng) -> (String, String) {
    let user = if r.coin() { "-".into() } else { r.alnum(1, 12) };
    let addr = match r.below(3) {
        0 => format!("2001:db8::{:x}", r.below(65536)),
        1 => format!("{}.example.com", r.lower(1, 8)),
        _ => format!("192.0.2.{}", r.below(256)),
    };
    (user, addr)
}
fn port(r: &mut Rng) -> u16 {
    match r.below(5) {
        0 => *r.pick(&[2u16, 3, 65533, 65534, 65535, 65532]),
        _ => r.range(2, 65535) as u16,
    }
}

fn profile(r: &mut Rng, rec: &mut Rec) {
    let (user, addr) = user_addr(r);
    let ap = port(r);
    let vp = if r.coin() { Some(port(r)) } else { None };
    let with_video = r.coin();
    let mut used = vec![0, 8];
    let mut audio: Vec<Codec> = vec![(0, "PCMU".into(), 8000), (8, "PCMA".into(), 8000)];
    let mut video: Vec<Codec> = Vec::new();
    let mut enable = with_video;
    let mut b = if with_video {
        used.extend([96, 97]);
        video = vec![(96, "H264".into(), 90000), (97, "VP8".into(), 90000)];
        MediaProfileBuilder::audio_video()
    } else {
        MediaProfileBuilder::audio_only()
    };
    let (mut te, mut dir, mut mux) = (true, "sendrecv", true);
    let mut log = vec![format!("video {with_video}")];
    for _ in 0..r.below(7) {
        match r.below(5) {
            0 => {
                let nc = 1 + r.below(2);
                for c in codecs(r, &mut used, nc) {
                    log.push(format!("audio {c:?}"));
                    b = b.add_audio_codec(c.0, c.1.clone(), c.2);
                    audio.push(c);
                }
            }
            1 => {
                let nc = 1 + r.below(2);
                for c in codecs(r, &mut used, nc) {
                    log.push(format!("video {c:?}"));
                    b = b.add_video_codec(c.0, c.1.clone(), c.2);
                    video.push(c);
                    enable = true;
                }
            }
            2 => {
                dir = *r.pick(&["sendrecv", "sendonly", "recvonly", "inactive"]);
                log.push(dir.into());
                b = b.direction(dir);
            }
            3 => {
                te = r.coin();
                log.push(format!("telephone-event {te}"));
                b = b.telephone_event(te);
            }
            _ => {
                mux = r.coin();
                log.push(format!("rtcp-mux {mux}"));
                b = b.rtcp_mux(mux);
            }
        }
    }
    let input = || format!("[{}] user {user} addr {addr} ports {ap} {vp:?}", log.join(", "));
    rec.eval(Some(&format!("{with_video}{enable}{te}{dir}{mux}/{}/{}", audio.len(), video.len())));
    rec.sample(input);
    let Some((text, again)) = rec.guard("profile offer", &input, || {
        let s = b.build(&user, &addr, ap, vp);
        let t = s.serialize();
        let again = SessionDescription::parse(&t).map(|p| p.serialize() == t);
        (t, again)
    }) else {
        return;
    };
    let (head, mut secs) = read(&text);
    if let Err(x) = head_ok(&head, &user, &addr) {
        rec.violate("profile session part", &format!("{} -> {x}", input()));
    }
    secs.iter_mut().for_each(|s| s.attrs.sort());
    let mut want = vec![section("audio", ap, &audio, te, dir, mux)];
    if enable {
        want.push(section("video", video_port(ap, vp), &video, false, dir, mux));
    }
    rec.check(secs == want, "profile offer", || format!("{} -> {secs:?}, not {want:?}", input()));
    rec.check(matches!(again, Ok(true)), "profile offer read back", || format!("{} -> {again:?}", input()));
}

fn preset(r: &mut Rng, rec: &mut Rec) {
    let (user, addr) = user_addr(r);
    let ap = port(r);
    let vp = if r.coin() { Some(port(r)) } else { None };
    let which = r.below(3);
    let input = || format!("preset {which} user {user} addr {addr} ports {ap} {vp:?}");
    rec.eval(Some(&format!("preset {which} {}", vp.is_some())));
    rec.sample(input);
    let kind = match which {
        0 => SdpProfile::AudioOnly,
        1 => SdpProfile::AudioVideo,
        _ => SdpProfile::Custom,
    };
    let Some(text) = rec.guard("preset", &input, || profiles::create_from_profile(kind, &user, &addr, ap, vp).serialize())
    else {
        return;
    };
    let (head, mut secs) = read(&text);
    if let Err(x) = head_ok(&head, &user, &addr) {
        rec.violate("preset session part", &format!("{} -> {x}", input()));
    }
    for s in &mut secs {
        // feedback lines are free as long as they speak of an offered format
        let fb: Vec<String> = s.attrs.iter().filter_map(|a| a.strip_prefix("rtcp-fb:").map(String::from)).collect();
        for f in fb {
            let pt = f.split(' ').next().unwrap_or("").to_string();
            rec.check(pt == "*" || s.fmts.contains(&pt), "preset feedback", || format!("{} -> {f}", input()));
        }
        s.attrs.retain(|a| !a.starts_with("rtcp-fb:") && a != "rtcp-mux");
        s.attrs.sort();
    }
    let a: Vec<Codec> = vec![(0, "PCMU".into(), 8000), (8, "PCMA".into(), 8000)];
    let mut want = vec![section("audio", ap, &a, true, "sendrecv", false)];
    if which == 1 {
        let v: Vec<Codec> = vec![(96, "H264".into(), 90000), (97, "VP8".into(), 90000)];
        want.push(section("video", video_port(ap, vp), &v, false, "sendrecv", false));
    }
    rec.check(secs == want, "preset", || format!("{} -> {secs:?}, not {want:?}", input()));
}

const DIRS: [(&str, bool, bool); 4] =
    [("sendrecv", true, true), ("sendonly", true, false), ("recvonly", false, true), ("inactive", false, false)];
fn dir(name: &str) -> Option<Direction> {
    Direction::from_attribute(&Attribute::Property(name.into()))
}
fn name(d: Direction) -> usize {
    match d {
        Direction::SendRecv => 0,
        Direction::SendOnly => 1,
        Direction::RecvOnly => 2,
        Direction::Inactive => 3,
    }
}
fn directions(r: &mut Rng, rec: &mut Rec) {
    let (i, j) = (r.below(4), r.below(4));
    let input = || format!("{} with {}", DIRS[i].0, DIRS[j].0);
    rec.eval(Some(&input()));
    rec.sample(input);
    let Some((a, b)) = dir(DIRS[i].0).zip(dir(DIRS[j].0)) else {
        rec.violate("direction unread", &input());
        return;
    };
    rec.check(name(a) == i && name(b) == j, "direction read", input);
    let (_, s1, r1) = DIRS[i];
    let (_, s2, r2) = DIRS[j];
    // seen from the other end sending and receiving change places
    let rev = DIRS[name(a.reverse())];
    rec.check(rev.1 == r1 && rev.2 == s1, "reversed", input);
    // media can flow some way, or both sides agree on none
    let flow = (s1 && r2) || (r1 && s2);
    let compat = flow || (!s1 && !r1 && !s2 && !r2);
    rec.check(a.is_compatible_with(&b) == compat, "compatible", input);
    rec.check(b.is_compatible_with(&a) == compat, "compatible the other way", input);
    match a.negotiate(&b) {
        Err(_) => {
            rec.check(!compat, "negotiation refused", input);
        }
        Ok(n) => {
            rec.check(compat, "negotiation accepted", input);
            // the narrower of the two descriptions when one side is open
            let want = if i == 0 {
                j
            } else {
                i
            };
            rec.check(name(n) == want, "negotiated direction", || format!("{} -> {}", input(), DIRS[name(n)].0));
        }
    }
    let odd = r.pick(&["sendrec", "", "rtcp-mux", "both", "sendrecv "]).to_string();
    rec.check(dir(&odd).is_none(), "not a direction", || odd.clone());
    let v = Attribute::Value { name: DIRS[i].0.into(), value: "x".into() };
    rec.check(Direction::from_attribute(&v).is_none(), "a valued attribute is no direction", input);
}

/// RFC 3551 tables 4 and 5 (channels: None where the table leaves them open)
const AVP: [(u8, &str, u32, Option<u8>, &str); 24] = [
    (0, "PCMU", 8000, Some(1), "audio"),
    (3, "GSM", 8000, Some(1), "audio"),
    (4, "G723", 8000, Some(1), "audio"),
    (5, "DVI4", 8000, Some(1), "audio"),
    (6, "DVI4", 16000, Some(1), "audio"),
    (7, "LPC", 8000, Some(1), "audio"),
    (8, "PCMA", 8000, Some(1), "audio"),
    (9, "G722", 8000, Some(1), "audio"),
    (10, "L16", 44100, Some(2), "audio"),
    (11, "L16", 44100, Some(1), "audio"),
    (12, "QCELP", 8000, Some(1), "audio"),
    (13, "CN", 8000, Some(1), "audio"),
    (14, "MPA", 90000, None, "audio"),
    (15, "G728", 8000, Some(1), "audio"),
    (16, "DVI4", 11025, Some(1), "audio"),
    (17, "DVI4", 22050, Some(1), "audio"),
    (18, "G729", 8000, Some(1), "audio"),
    (25, "CelB", 90000, None, "video"),
    (26, "JPEG", 90000, None, "video"),
    (28, "nv", 90000, None, "video"),
    (31, "H261", 90000, None, "video"),
    (32, "MPV", 90000, None, "video"),
    (33, "MP2T", 90000, None, "video"),
    (34, "H263", 90000, None, "video"),
];
fn avp(r: &mut Rng, rec: &mut Rec) {
    let pt = r.below(256) as u8;
    let input = || format!("payload type {pt}");
    rec.eval(Some(&input()));
    rec.sample(input);
    let want = AVP.iter().find(|x| x.0 == pt);
    let got = rec.guard("static payload type", &input, || rtp_avp::get_static_payload_type(pt)).flatten();
    let ok = match (want, got) {
        (None, None) => true,
        (Some(w), Some(g)) => {
            g.payload_type() == w.0
                && g.encoding_name().eq_ignore_ascii_case(w.1)
                && g.clock_rate() == w.2
                && (w.3.is_none() || g.channels() == w.3)
                && (w.0 == 33 || g.media_type() == w.4)
        }
        _ => false,
    };
    rec.check(ok, "static payload type", || format!("{} -> {got:?}", input()));
    rec.check(rtp_avp::is_static_range(pt) == (pt <= 95), "static range", input);
    rec.check(rtp_avp::is_dynamic_range(pt) == (96..=127).contains(&pt), "dynamic range", input);
    rec.check(rtp_avp::is_reserved(pt) == (72..=76).contains(&pt), "reserved", input);
    // by name and by name and rate, whatever the letter case
    let known = r.chance(4, 5);
    let base = if known { r.pick(&AVP).1.to_string() } else { r.alnum(1, 40) };
    let q: String = base.chars().map(|c| if r.coin() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
    let rate = *r.pick(&[8000u32, 16000, 11025, 22050, 44100, 90000, 48000, 0]);
    let first = AVP.iter().find(|x| x.1.eq_ignore_ascii_case(&q)).map(|x| x.0);
    let rated = AVP.iter().find(|x| x.1.eq_ignore_ascii_case(&q) && x.2 == rate).map(|x| x.0);
    let same = |a: Option<u8>, b: Option<u8>, with: bool| match (a, b) {
        (None, None) => true,
        // any number with that name (and rate) would be an answer
        (Some(a), Some(_)) => AVP.iter().any(|x| x.0 == a && x.1.eq_ignore_ascii_case(&q) && (!with || x.2 == rate)),
        _ => false,
    };
    let (g1, g2) = (rtp_avp::get_payload_type(&q), rtp_avp::get_payload_type_with_rate(&q, rate));
    rec.check(same(g1, first, false), "payload type by name", || format!("{q} -> {g1:?}"));
    rec.check(same(g2, rated, true), "payload type by name and rate", || format!("{q}/{rate} -> {g2:?}"));
}

fn builder_calls(r: &mut Rng, rec: &mut Rec) {
    // a media section built call by call says what the calls say
    let video = r.coin();
    let p = port(r);
    let mut m = if video { MediaDescription::video(p) } else { MediaDescription::audio(p) };
    let mut w = Section {
        kind: if video { "video" } else { "audio" }.into(),
        port: p.to_string(),
        proto: "RTP/AVP".into(),
        ..Section::default()
    };
    let mut log = Vec::new();
    let steps = r.below(8);
    for _ in 0..steps {
        match r.below(6) {
            0 => {
                let pt = r.below(140) as u8;
                log.push(format!("format {pt}"));
                match m.clone().add_format(pt) {
                    Ok(x) if pt < 128 => {
                        m = x;
                        w.fmts.push(pt.to_string());
                    }
                    Err(_) if pt >= 128 => {}
                    x => {
                        rec.violate("payload type range", &format!("{log:?} {}", x.is_ok()));
                        return;
                    }
                }
            }
            1 => {
                let pt = r.below(128) as u8;
                let n = r.alnum(1, 8);
                let ch = if r.chance(1, 3) { Some(r.below(6).to_string()) } else { None };
                log.push(format!("rtpmap {pt} {n} {ch:?}"));
                let Ok(x) = m.clone().add_rtpmap(pt, &n, 8000, ch.as_deref()) else {
                    rec.violate("rtpmap refused", &format!("{log:?}"));
                    return;
                };
                m = x;
                let pre = format!("rtpmap:{pt} ");
                w.attrs.retain(|a| !a.starts_with(&pre));
                w.attrs.push(format!("{pre}{n}/8000{}", ch.map(|c| format!("/{c}")).unwrap_or_default()));
            }
            2 => {
                let n = r.lower(1, 8);
                log.push(format!("property {n}"));
                m = m.add_property(&n).unwrap_or_else(|e| panic!("{e:?}"));
                w.attrs.push(n);
            }
            3 => {
                let n = format!("x-{}", r.lower(1, 8));
                let v = r.alnum(1, 20);
                log.push(format!("attribute {n}:{v}"));
                m = m.add_attribute(&n, &v).unwrap_or_else(|e| panic!("{e:?}"));
                w.attrs.push(format!("{n}:{v}"));
            }
            4 => {
                let (_, a) = user_addr(r);
                log.push(format!("connection {a}"));
                m = m.connection(&a).unwrap_or_else(|e| panic!("{e:?}"));
                w.other = vec![format!("c=IN {} {a}", if a.contains(':') { "IP6" } else { "IP4" })];
            }
            _ => {
                let t = r.alnum(1, 10);
                log.push(format!("token {t}"));
                m = m.add_format_token(&t).unwrap_or_else(|e| panic!("{e:?}"));
                w.fmts.push(t);
            }
        }
    }
    let input = || format!("{log:?}");
    rec.eval(Some(&format!("calls {}", log.len())));
    rec.sample(input);
    let built = SessionDescription::builder()
        .origin("-", "1", "192.0.2.1")
        .and_then(|b| b.session_name("s"))
        .and_then(|b| b.connection("192.0.2.1"))
        .and_then(|b| b.time(0, 0).media(m));
    let Ok(b) = built else {
        rec.violate("media refused", &input());
        return;
    };
    let text = b.build().serialize();
    let (head, mut secs) = read(&text);
    if let Err(x) = head_ok(&head, "-", "192.0.2.1") {
        rec.violate("built session part", &format!("{} -> {x}", input()));
    }
    // where a replaced rtpmap line goes is free
    w.attrs.sort();
    secs.iter_mut().for_each(|s| s.attrs.sort());
    // a section without formats is written with some placeholder
    if w.fmts.is_empty() && secs.len() == 1 {
        w.fmts = secs[0].fmts.clone();
    }
    rec.check(secs == vec![w], "built media", || format!("{} -> {text}", input()));
}

fn main() {
    let mut ctx = Ctx::new(
        "S05",
        "the text of descriptions made from random profiles and builder calls is read by a line scanner and compared with what was asked for; directions are compared with send/receive flags, payload types with the RFC 3551 tables",
    );
    let n = ctx.n(40_000, 1_000_000);
    ctx.run("profiles", n, profile);
    ctx.run("presets", n / 4, preset);
    ctx.run("calls", n, |r, rec| {
        let input = || "builder calls".to_string();
        let mut sub = Rec::default();
        rec.guard("builder calls", &input, || builder_calls(r, &mut sub));
        rec.merge(sub);
    });
    ctx.run("directions", n / 8, directions);
    ctx.run("avp", n / 2, avp);
    ctx.finish();
}
