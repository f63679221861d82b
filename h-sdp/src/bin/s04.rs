//! S04: the SIP core's answers take up every offered stream in its place, with
//! codecs both sides have, and hold and resume change directions only.
use h_sdp::core::*;
use h_sdp::*;
use sip_core::sdp::{Direction, PreconditionDirection, SdpSession};
use sip_core::sdp_offer_answer::{AnswerOptions, CodecInfo, OfferAnswerEngine};
use vmon::{Ctx, Rec, Rng};

fn esc(s: &str) -> String {
    format!("{:?}", s.chars().take(2500).collect::<String>())
}

type Codec = (String, u32, Option<u16>);

#[derive(Clone, Debug)]
struct Opt {
    addr: String,
    port: u16,
    audio: Vec<Codec>,
    video: Vec<Codec>,
    dir: Option<&'static str>,
    reject: Vec<usize>,
    user: String,
    sid: String,
    local: Option<&'static str>,
    remote: Option<&'static str>,
    upgrade: bool,
}

fn locals(r: &mut Rng, video: bool) -> Vec<Codec> {
    let all: &[(&str, u32, Option<u16>)] = if video {
        &[("H264", 90000, None), ("VP8", 90000, None), ("vp8", 90000, None), ("H265", 90000, None), ("VP8", 8000, None)]
    } else {
        &[
            ("PCMU", 8000, Some(1)),
            ("pcmu", 8000, None),
            ("PCMA", 8000, Some(1)),
            ("opus", 48000, Some(2)),
            ("Opus", 48000, None),
            ("opus", 48000, Some(1)),
            ("telephone-event", 8000, Some(1)),
            ("telephone-event", 48000, Some(1)),
            ("G722", 8000, Some(1)),
            ("G729", 8000, Some(1)),
            ("GSM", 8000, None),
            ("L16", 44100, Some(2)),
            ("L16", 44100, Some(1)),
            ("speex", 8000, Some(1)),
        ]
    };
    (0..r.below(7)).map(|_| { let (n, c, p) = *r.pick(all); (n.to_string(), c, p) }).collect()
}

fn options(r: &mut Rng, media: usize) -> Opt {
    let pd = |r: &mut Rng| if r.coin() { Some(*r.pick(&["send", "recv", "sendrecv", "none"])) } else { None };
    Opt {
        addr: r.pick(&["192.0.2.5", "2001:db8::5", "answer.example.com", "::1"]).to_string(),
        port: *r.pick(&[1u16, 1024, 49170, 50000, 65500, 65529, 65530, 65531, 65532, 65533, 65534, 65535]),
        audio: locals(r, false),
        video: locals(r, true),
        dir: if r.chance(1, 4) { Some(*r.pick(DIRS)) } else { None },
        reject: (0..if r.chance(1, 3) { r.below(4) } else { 0 }).map(|_| r.below(media + 2)).collect(),
        user: word(r, 30),
        sid: format!("{}", r.u64()),
        local: pd(r),
        remote: pd(r),
        upgrade: r.coin(),
    }
}

fn pdir(s: &str) -> PreconditionDirection {
    match s {
        "send" => PreconditionDirection::Send,
        "recv" => PreconditionDirection::Recv,
        "sendrecv" => PreconditionDirection::SendRecv,
        _ => PreconditionDirection::None,
    }
}

fn build(o: &Opt) -> AnswerOptions {
    let c = |v: &[Codec]| v.iter().map(|(n, r, c)| CodecInfo::new(n, *r, *c).unwrap()).collect::<Vec<_>>();
    let mut b = AnswerOptions::new()
        .with_local_address(&o.addr)
        .unwrap()
        .with_base_port(o.port)
        .with_audio_codecs(c(&o.audio))
        .unwrap()
        .with_video_codecs(c(&o.video))
        .unwrap()
        .with_reject_media(o.reject.clone())
        .unwrap()
        .with_username(&o.user)
        .unwrap()
        .with_session_id(&o.sid)
        .unwrap()
        .with_upgrade_preconditions(o.upgrade);
    if let Some(d) = o.dir {
        b = b.with_direction_override(Direction::parse(d).unwrap());
    }
    if let Some(d) = o.local {
        b = b.with_qos_local_status(pdir(d));
    }
    if let Some(d) = o.remote {
        b = b.with_qos_remote_status(pdir(d));
    }
    b
}

/// An offer whose meaning is beyond argument.
fn offer(r: &mut Rng) -> Doc {
    let mut d = doc(r);
    enrich(r, &mut d);
    for m in &mut d.media {
        let rtp = RTP.contains(&m.proto.as_str());
        m.kind = if rtp { *r.pick(&["audio", "audio", "audio", "video", "video", "text", "application"]) } else { *r.pick(&["message", "image", "application"]) }.into();
        if r.chance(1, 8) {
            let k = r.below(m.fmts.len());
            let f = m.fmts[k].clone();
            m.fmts.push(f);
        }
        // One mapping and one set of parameters for each payload type.
        let mut seen = std::collections::HashSet::new();
        m.attrs.retain(|(n, v)| {
            if n != "rtpmap" && n != "fmtp" {
                return true;
            }
            let pt = v.as_deref().unwrap_or("").split(' ').next().unwrap_or("").to_string();
            seen.insert((n.clone(), pt))
        });
        if r.chance(1, 4) {
            // a stream with preconditions of one kind only
            let only = *r.pick(&["curr", "des", "conf"]);
            m.attrs.retain(|(n, _)| n == only || !["curr", "des", "conf"].contains(&n.as_str()));
        }
        if m.attrs.len() > 100 {
            m.attrs.truncate(100);
        }
    }
    d.attrs.truncate(100);
    d
}

fn effective<'a>(d: &'a Doc, m: &'a Med) -> &'a str {
    own_dir(&m.attrs).or(own_dir(&d.attrs)).unwrap_or("sendrecv")
}

fn reversed(s: &str) -> &'static str {
    match s {
        "sendonly" => "recvonly",
        "recvonly" => "sendonly",
        "inactive" => "inactive",
        _ => "sendrecv",
    }
}

fn find(m: &Med, key: &str, pt: &str) -> Option<String> {
    m.attrs.iter().filter(|x| x.0 == key).filter_map(|x| x.1.clone()).find(|v| v.split(' ').next() == Some(pt))
}

/// What payload type `pt` stands for, as the value of its rtpmap line.
fn mapping(m: &Med, pt: &str) -> Option<String> {
    find(m, "rtpmap", pt).or_else(|| {
        let n = match pt {
            "0" => "PCMU",
            "3" => "GSM",
            "4" => "G723",
            "8" => "PCMA",
            "9" => "G722",
            "18" => "G729",
            _ => return None,
        };
        Some(format!("{pt} {n}/8000"))
    })
}

/// `None`: not judged.
fn same(l: &Codec, value: &str) -> Option<bool> {
    let p: Vec<&str> = value.split_once(' ').unwrap().1.split('/').collect();
    if !l.0.eq_ignore_ascii_case(p[0]) || p[1] != l.1.to_string() {
        return Some(false);
    }
    let ch = |x: Option<&str>| x.map(|c| c.parse::<u16>().unwrap());
    match (l.2, ch(p.get(2).copied())) {
        (None, Some(1)) => None,
        (None, Some(_)) => Some(false),
        (None, None) => Some(true),
        (Some(a), b) => Some(a == b.unwrap_or(1)),
    }
}

fn inverted(d: &str) -> &str {
    match d {
        "send" => "recv",
        "recv" => "send",
        "local" => "remote",
        "remote" => "local",
        o => o,
    }
}

fn preconditions(m: &Med, o: &Opt) -> Vec<Attr> {
    let mut out = vec![];
    for k in ["curr", "des", "conf"] {
        for v in m.attrs.iter().filter(|x| x.0 == k).filter_map(|x| x.1.as_ref()) {
            let v = v.to_lowercase();
            let p: Vec<&str> = v.split(' ').collect();
            if p[0] != "qos" {
                continue;
            }
            let s = match k {
                "curr" => {
                    let st = inverted(p[1]);
                    let d = match st {
                        "local" => o.local.unwrap_or("none"),
                        "remote" => o.remote.unwrap_or("none"),
                        _ => inverted(p[2]),
                    };
                    format!("qos {st} {d}")
                }
                "des" => {
                    let strength = if o.upgrade && p[1] == "optional" { "mandatory" } else { p[1] };
                    format!("qos {strength} {} {}", inverted(p[2]), inverted(p[3]))
                }
                _ => format!("qos {} {}", inverted(p[1]), inverted(p[2])),
            };
            out.push(a(k, s));
        }
    }
    out
}

/// The answer the offer deserves; `None` where something is not judged.
fn expected(d: &Doc, o: &Opt, rec: &mut Rec) -> Option<Doc> {
    let v6 = o.addr.contains(':');
    let mut next = Some(o.port);
    let mut media = vec![];
    for (i, m) in d.media.iter().enumerate() {
        let lead: Vec<Attr> = {
            let all = order(&m.attrs, false);
            all.into_iter().filter(|x| ["mid", "sqn", "cdsc", "cpar", "cparmin", "cparmax"].contains(&x.0.as_str())).collect()
        };
        let mut g = Med { kind: m.kind.clone(), port: 0, nports: None, proto: m.proto.clone(), fmts: m.fmts.clone(), title: None, conn: None, bw: vec![], key: None, attrs: lead };
        let locals: &[Codec] = match m.kind.as_str() {
            "audio" => &o.audio,
            "video" => &o.video,
            _ => &[],
        };
        let mut common: Vec<(String, String)> = vec![];
        for pt in &m.fmts {
            if common.iter().any(|c| c.0 == *pt) {
                continue;
            }
            if let Some(v) = mapping(m, pt) {
                let mut hit = false;
                let mut unsure = false;
                for l in locals {
                    match same(l, &v) {
                        Some(x) => hit |= x,
                        None => unsure = true,
                    }
                }
                if unsure && !hit {
                    return None;
                }
                if hit {
                    common.push((pt.clone(), v));
                }
            }
        }
        let why = if o.reject.contains(&i) {
            "on request"
        } else if m.port == 0 {
            "offered with port zero"
        } else if common.is_empty() {
            "no common codec"
        } else if next.is_none() {
            "no port left"
        } else {
            ""
        };
        if !why.is_empty() {
            rec.count(&format!("streams refused: {why}"), 1);
            media.push(g);
            continue;
        }
        rec.count("streams accepted", 1);
        g.port = next.unwrap();
        next = g.port.checked_add(2);
        g.fmts = common.iter().map(|c| c.0.clone()).collect();
        for (pt, v) in common {
            g.attrs.push(a("rtpmap", v));
            if let Some(f) = find(m, "fmtp", &pt) {
                g.attrs.push(a("fmtp", f));
            }
        }
        g.attrs.push((o.dir.unwrap_or(reversed(effective(d, m))).into(), None));
        let p = preconditions(m, o);
        rec.count("preconditions answered", p.len() as u64);
        g.attrs.extend(p);
        media.push(g);
    }
    Some(Doc {
        user: o.user.clone(),
        sid: o.sid.clone(),
        sver: "0".into(),
        v6,
        addr: o.addr.clone(),
        name: d.name.clone(),
        info: None,
        uri: None,
        emails: vec![],
        phones: vec![],
        conn: Some((v6, o.addr.clone())),
        bw: vec![],
        times: d.times.iter().map(|t| Time { start: t.start, stop: t.stop, repeats: vec![] }).collect(),
        zones: vec![],
        key: None,
        attrs: vec![],
        media,
    })
}

fn answers(r: &mut Rng, rec: &mut Rec) {
    let d = offer(r);
    let o = options(r, d.media.len());
    let given = render(&d);
    rec.eval(Some(&(&given, format!("{o:?}"))));
    let s = match SdpSession::parse(&given) {
        Ok(s) => s,
        Err(e) => {
            rec.violate("offer refused", format!("{e} {}", esc(&given)));
            return;
        }
    };
    let ctx = |x: &str| format!("{x}\noffer {}\noptions {o:?}", esc(&given));
    let got = rec.guard("answer", &|| ctx(""), || OfferAnswerEngine::new().generate_answer(&s, build(&o)));
    let got = match got {
        Some(Ok(g)) => {
            if d.media.len() > 20 {
                rec.violate("more streams than the bound answered", ctx(""));
                return;
            }
            g
        }
        Some(Err(e)) => {
            rec.check(d.media.len() > 20, "no answer", || ctx(&format!("{e}")));
            return;
        }
        None => return,
    };
    let Some(w) = expected(&d, &o, rec) else {
        rec.count("answers not judged", 1);
        return;
    };
    rec.count("answers", 1);
    let text = got.to_string();
    rec.sample(|| text.clone());
    rec.check(text == render(&w), "answer", || ctx(&format!("answer {}\nwant   {}", esc(&text), esc(&render(&w)))));
    rec.check(SdpSession::parse(&text).ok().as_ref() == Some(&got), "answer rereads differently", || ctx(&esc(&text)));
    rec.check(s.to_string() == SdpSession::parse(&given).unwrap().to_string(), "offer changed", || ctx(""));
}

/// Hold and resume offers in a row over one session.
fn holds(r: &mut Rng, rec: &mut Rec) {
    let d = offer(r);
    let given = render(&d);
    let mut s = match SdpSession::parse(&given) {
        Ok(s) => s,
        Err(e) => {
            rec.violate("offer refused", format!("{e} {}", esc(&given)));
            return;
        }
    };
    let mut w = d.clone();
    // Writing puts some attributes first.
    w.attrs = order(&w.attrs, true);
    for m in &mut w.media {
        m.attrs = order(&m.attrs, false);
    }
    let mut steps = String::new();
    for _ in 0..r.range(1, 5) {
        let hold = r.coin();
        steps.push(if hold { 'h' } else { 'r' });
        let e = OfferAnswerEngine::new();
        let Some(n) = rec.guard("hold", &|| esc(&given), || if hold { e.create_hold_offer(&s) } else { e.create_resume_offer(&s) }) else { return };
        w.sver = (w.sver.parse::<u128>().unwrap() + 1).to_string();
        let snap = w.clone();
        for m in &mut w.media {
            let dir = match (hold, effective(&snap, m)) {
                (true, "sendrecv" | "sendonly") => "sendonly",
                (true, _) => "inactive",
                (false, "sendonly" | "sendrecv") => "sendrecv",
                (false, _) => "recvonly",
            };
            m.attrs.retain(|(n, v)| v.is_some() || !DIRS.contains(&n.as_str()));
            m.attrs.push((dir.into(), None));
        }
        let text = n.to_string();
        rec.check(text == render(&w), "hold or resume", || format!("{steps} from {}\ngot  {}\nwant {}", esc(&given), esc(&text), esc(&render(&w))));
        rec.check(SdpSession::parse(&text).ok().as_ref() == Some(&n), "hold or resume rereads differently", || esc(&text));
        s = n;
    }
    rec.eval(Some(&(&given, &steps)));
    rec.count("holds and resumes", steps.len() as u64);
    rec.sample(|| format!("{steps}: {}", s.to_string()));
}

/// Offers with anything in them: an answer, a hold and a resume come without a panic,
/// and the answer has the offered streams and nothing that was not offered.
fn damaged(r: &mut Rng, rec: &mut Rec) {
    let mut d = doc(r);
    enrich(r, &mut d);
    for m in &mut d.media {
        if r.coin() {
            m.kind = r.pick(&["audio", "video"]).to_string();
        }
        for _ in 0..r.below(4) {
            let v = r.pick(&["0 PCMU/8000", "0 PCMA/8000", "0 PCMU/8000/1/2", "0 PCMU", "999 PCMU/8000", "0 PCMU/99999999999", "0 /8000", "0  PCMU/8000", "96 opus/48000/99999", "8 PCMA/8000/x"]).to_string();
            m.attrs.push(a("rtpmap", v));
        }
        for _ in 0..r.below(3) {
            let k = *r.pick(&["curr", "des", "conf"]);
            let v = r.pick(&["qos", "qos e2e", "qos local send x", "qos mandatory remote sendrecv", "x y z", "", "qos e2e none", "sec local send"]).to_string();
            m.attrs.push(a(k, v));
        }
    }
    let mut b = render(&d).into_bytes();
    if r.coin() {
        let k = r.range(1, 8) as usize;
        r.mutate(&mut b, k);
    }
    let t = String::from_utf8_lossy(&b).into_owned();
    let Ok(s) = SdpSession::parse(&t) else {
        rec.count("damaged refused", 1);
        return;
    };
    rec.eval(Some(&t));
    rec.count("damaged answered", 1);
    let o = options(r, s.media().len());
    let e = OfferAnswerEngine::new();
    let ctx = || format!("offer {}\noptions {o:?}", esc(&t));
    if let Some(h) = rec.guard("hold", &ctx, || (e.create_hold_offer(&s), e.create_resume_offer(&s))) {
        for h in [h.0, h.1] {
            let x = h.to_string();
            let y = SdpSession::parse(&x).ok();
            rec.check(s.time_zones().len() > 50 || y.as_ref() == Some(&h) || h.media().iter().any(|m| m.attributes().len() > 100), "hold or resume rereads differently", || format!("{} {}", esc(&x), ctx()));
        }
    }
    let Some(Ok(g)) = rec.guard("answer", &ctx, || e.generate_answer(&s, build(&o))) else { return };
    let x = g.to_string();
    rec.check(SdpSession::parse(&x).ok().as_ref() == Some(&g), "answer rereads differently", || format!("{} {}", esc(&x), ctx()));
    rec.check(g.media().len() == s.media().len(), "stream count", || format!("{} {}", esc(&x), ctx()));
    let mut ports = std::collections::HashSet::new();
    for (i, (m, p)) in g.media().iter().zip(s.media()).enumerate() {
        rec.check(m.media() == p.media() && m.proto() == p.proto() && m.mid() == p.mid(), "stream identity", || format!("{} {}", esc(&x), ctx()));
        rec.check(m.fmt().iter().all(|f| p.fmt().contains(f)) && !m.fmt().is_empty(), "format not offered", || format!("{} {}", esc(&x), ctx()));
        rec.check((p.port() != 0 && !o.reject.contains(&i)) || m.port() == 0, "stream brought back", || format!("{} {}", esc(&x), ctx()));
        rec.check(m.port() == 0 || ports.insert(m.port()), "port used twice", || format!("{} {}", esc(&x), ctx()));
        let mut seen = std::collections::HashSet::new();
        rec.check(m.port() == 0 || m.fmt().iter().all(|f| seen.insert(f.clone())), "format repeated", || format!("{} {}", esc(&x), ctx()));
    }
}

/// Whatever texts are taken for an answer's origin are what its reader finds there.
fn given(r: &mut Rng, rec: &mut Rec) {
    let odd = |r: &mut Rng| match r.below(4) {
        0 => r.token(1, 8),
        1 => r.nasty(0, 3),
        _ => r.string("ab 1.:\t\r\n\u{7f}\u{e9}/", 0, 6),
    };
    let (u, s, a) = (odd(r), odd(r), odd(r));
    rec.eval(Some(&(&u, &s, &a)));
    let offer = "v=0\r\no=- 1 1 IN IP4 h\r\ns=-\r\nc=IN IP4 h\r\nt=0 0\r\nm=audio 9 RTP/AVP 0\r\n";
    let mut o = AnswerOptions::new();
    let mut want = ("-".to_string(), "0".to_string(), "0.0.0.0".to_string());
    if let Ok(x) = o.clone().with_username(&u) {
        o = x;
        want.0 = u.clone();
    }
    if let Ok(x) = o.clone().with_session_id(&s) {
        o = x;
        want.1 = s.clone();
    }
    if let Ok(x) = o.clone().with_local_address(&a) {
        o = x;
        want.2 = a.clone();
    }
    rec.count("texts taken", (want.0 == u) as u64 + (want.1 == s) as u64 + (want.2 == a) as u64);
    let Ok(ans) = OfferAnswerEngine::new().generate_answer(&SdpSession::parse(offer).unwrap(), o) else {
        rec.violate("plain offer refused", format!("{want:?}"));
        return;
    };
    let t = ans.to_string();
    let line = |k: &str| t.split("\r\n").filter(|l| l.starts_with(k)).map(|l| l[2..].split(' ').map(str::to_string).collect::<Vec<_>>()).collect::<Vec<_>>();
    let (o, c) = (line("o="), line("c="));
    let good = o.len() == 1 && c.len() == 1 && o[0].len() == 6 && c[0].len() == 3 && o[0][0] == want.0 && o[0][1] == want.1 && o[0][5] == want.2 && c[0][2] == want.2;
    rec.check(good && SdpSession::parse(&t).is_ok(), "texts given", || format!("{want:?}: {}", esc(&t)));
}

fn limits(r: &mut Rng, rec: &mut Rec) {
    let over = r.coin();
    let e = over as usize;
    let x = |n: usize| "x".repeat(n + e);
    let k = r.below(8);
    rec.eval(Some(&(k, over)));
    let n = AnswerOptions::new();
    let cs = |n: usize| (0..n + e).map(|_| CodecInfo::new("x", 1, None).unwrap()).collect::<Vec<_>>();
    let ok = match k {
        0 => n.with_local_address(x(256)).is_ok(),
        1 => n.with_username(x(128)).is_ok(),
        2 => n.with_session_id(x(128)).is_ok(),
        3 => n.with_audio_codecs(cs(50)).is_ok(),
        4 => n.with_video_codecs(cs(50)).is_ok(),
        5 => n.with_reject_media(vec![0; 20 + e]).is_ok(),
        6 => CodecInfo::new(x(64), 1, None).is_ok(),
        _ => CodecInfo::new("x", 1, None).unwrap().with_fmtp(x(256)).is_ok(),
    };
    rec.check(ok != over, "bound", || format!("{k} over={over}"));
    let c = format!("a{}b", *r.pick(&["\r\nm=audio 1 RTP/AVP 0", "\n", "\0", "\u{7f}", "\r"]));
    let ok = match k {
        0 => AnswerOptions::new().with_local_address(&c).is_ok() || AnswerOptions::new().with_local_address("").is_ok(),
        1 => AnswerOptions::new().with_username(&c).is_ok(),
        2 => AnswerOptions::new().with_session_id(&c).is_ok() || AnswerOptions::new().with_session_id("").is_ok(),
        3 | 4 | 6 => CodecInfo::new(&c, 1, None).is_ok() || CodecInfo::new("", 1, None).is_ok(),
        _ => CodecInfo::new("x", 1, None).unwrap().with_fmtp(&c).is_ok(),
    };
    rec.check(!ok, "control character accepted", || format!("{k} {c:?}"));
    // The number of streams answered is bounded.
    let m = r.range(18, 23) as usize;
    let t = format!("v=0\r\no=- 1 1 IN IP4 h\r\ns=-\r\nc=IN IP4 h\r\nt=0 0\r\n{}", "m=audio 9 RTP/AVP 0\r\n".repeat(m));
    let got = OfferAnswerEngine::new().generate_answer(&SdpSession::parse(&t).unwrap(), AnswerOptions::new());
    rec.check(got.is_ok() == (m <= 20), "stream bound", || format!("{m} streams"));
    // Without any choice made, an ordinary call is answered.
    let got = OfferAnswerEngine::new().generate_answer(&SdpSession::parse(&t.replace("m=audio 9 RTP/AVP 0\r\n", "")).unwrap(), AnswerOptions::new());
    rec.check(got.map(|g| g.media().is_empty()).unwrap_or(false), "offer without streams", || "".into());
}

fn main() {
    let mut c = Ctx::new("S04", "an answer has each offered stream in its place with common codecs, its own ports and the mirrored direction; hold and resume change directions only");
    let n = c.n(60_000, 1_200_000);
    c.run("answers", n, answers);
    c.run("holds", n / 2, holds);
    c.run("damaged", n, damaged);
    let n = c.n(20_000, 200_000);
    c.run("given", n, given);
    let n = c.n(2_000, 20_000);
    c.run("bounds", n, limits);
    c.finish()
}
