//! S02: an answer made by the SDP library matches the offer line by line.
use h_sdp::*;
use sip_sdp::negotiate::negotiate_answer;
use sip_sdp::profiles::{self, MediaProfileBuilder, SdpProfile};
use sip_sdp::*;
use vmon::{Ctx, Rec, Rng};

fn esc(s: &str) -> String {
    s.chars().take(2500).collect::<String>().replace("\r\n", "\n")
}

/// A local description with plenty in common with the offer.
fn local(r: &mut Rng, offer: &Doc) -> Doc {
    let mut d = doc(r);
    if r.chance(4, 5) {
        d.media.clear();
        let mut from = offer.media.clone();
        r.shuffle(&mut from);
        for mut m in from {
            if r.chance(1, 6) {
                continue;
            }
            if r.chance(1, 8) {
                m.proto = r.pick(RTP).to_string();
            }
            match r.below(4) {
                // Same codecs under other numbers.
                0 => {
                    let mut free: Vec<u32> = (96..128).collect();
                    r.shuffle(&mut free);
                    let table: Vec<(String, String)> = m
                        .fmts
                        .iter()
                        .filter(|f| f.parse::<u32>().map(|n| n >= 96).unwrap_or(false))
                        .zip(&free)
                        .map(|(f, n)| (f.clone(), n.to_string()))
                        .collect();
                    let to = |s: &str| table.iter().find(|t| t.0 == s).map(|t| t.1.clone()).unwrap_or(s.to_string());
                    for f in &mut m.fmts {
                        *f = to(f);
                    }
                    for (n, v) in &mut m.attrs {
                        if let (true, Some(v)) = (n == "rtpmap" || n == "fmtp", v.as_mut()) {
                            if let Some((a, b)) = v.clone().split_once(' ') {
                                *v = format!("{} {b}", to(a));
                            }
                        }
                    }
                }
                1 => {
                    let k = r.range(1, m.fmts.len() as i64 + 1) as usize;
                    m.fmts.truncate(k);
                }
                2 => m.attrs = med(r).attrs,
                _ => {}
            }
            // Codec names differ only in case.
            for (n, v) in &mut m.attrs {
                if n == "rtpmap" && r.chance(1, 4) {
                    *v = v.as_ref().map(|v| if r.coin() { v.to_uppercase() } else { v.to_lowercase() });
                }
            }
            r.shuffle(&mut m.fmts);
            m.nports = None;
            d.media.push(m);
        }
    }
    for m in &mut d.media {
        m.port = m.port.max(1);
        if r.chance(2, 3) {
            m.attrs.retain(|(n, _)| !DIRS.contains(&n.as_str()));
            if r.coin() {
                m.attrs.push((r.pick(DIRS).to_string(), None));
            }
        }
    }
    d
}

type Codec = (u8, String, u32, Option<String>);

fn codec_of(m: &Med, pt: u8) -> Option<Codec> {
    sdp::codecs(&m.attrs).into_iter().filter(|c| c.0 == pt).last()
}
fn same(a: &Codec, b: &Codec) -> bool {
    a.1.eq_ignore_ascii_case(&b.1) && a.2 == b.2 && a.3 == b.3
}
fn fmtp_of(m: &Med, pt: u8) -> Option<String> {
    m.attrs.iter().filter(|(n, v)| n == "fmtp" && v.is_some()).filter_map(|(_, v)| v.as_ref()?.split_once(' ')).find(|(p, _)| p.parse() == Ok(pt)).map(|(_, v)| v.trim().to_string())
}

/// Formats both sides support: the offered token, the codec the answer names,
/// and its parameters.
fn common(o: &Med, l: &Med) -> Vec<(String, Option<Codec>, Option<String>)> {
    let mut out = vec![];
    for f in &o.fmts {
        if !RTP.contains(&o.proto.as_str()) {
            if l.fmts.contains(f) {
                let p = f.parse().ok().filter(|n: &u8| *n < 128).and_then(|n| fmtp_of(o, n));
                out.push((f.clone(), None, p));
            }
            continue;
        }
        let pt: u8 = f.parse().unwrap();
        if pt < 96 {
            let clash = matches!((codec_of(o, pt), codec_of(l, pt)), (Some(a), Some(b)) if !same(&a, &b));
            if l.fmts.contains(f) && !clash {
                out.push((f.clone(), codec_of(l, pt), fmtp_of(l, pt).or_else(|| fmtp_of(o, pt))));
            }
        } else if let Some(c) = codec_of(o, pt) {
            let hit = l.fmts.iter().filter_map(|f| f.parse::<u8>().ok()).filter_map(|p| codec_of(l, p)).find(|x| same(&c, x));
            if let Some(x) = hit {
                let p = fmtp_of(l, x.0).or_else(|| fmtp_of(o, pt));
                out.push((f.clone(), Some((pt, x.1, x.2, x.3)), p));
            }
        }
    }
    out
}

fn sends(d: &str) -> bool {
    d == "sendrecv" || d == "sendonly"
}
fn receives(d: &str) -> bool {
    d == "sendrecv" || d == "recvonly"
}

fn answers(r: &mut Rng, rec: &mut Rec) {
    let mut o = doc(r);
    if r.chance(1, 60) {
        while o.media.len() < 22 {
            o.media.push(med(r));
            if o.conn.is_none() {
                o.media.last_mut().unwrap().conn = Some(addr(r));
            }
        }
        let k = r.range(19, 23) as usize;
        o.media.truncate(k);
    }
    let mut l = local(r, &o);
    if r.chance(1, 80) && !o.media.is_empty() {
        // More formats in common than a description may list.
        let k = r.range(48, 54) as usize;
        for m in [&mut o.media[0]].into_iter() {
            m.proto = "RTP/AVP".into();
            m.port = m.port.max(1);
            m.fmts = (0..k).map(|i| i.to_string()).collect();
            m.attrs.retain(|a| a.0 != "rtpmap");
        }
        l.media.insert(0, o.media[0].clone());
    }
    let (at, lt) = (render(&o), render(&l));
    rec.eval(Some(&(&at, &lt)));
    let (so, sl) = match (SessionDescription::parse(&at), SessionDescription::parse(&lt)) {
        (Ok(a), Ok(b)) => (a, b),
        _ => {
            rec.count("unreadable", 1);
            return;
        }
    };
    let (_, me) = addr(r);
    let ctx = || format!("offer:\n{}\nlocal:\n{}", esc(&at), esc(&lt));
    let got = match rec.guard("negotiate", &ctx, || negotiate_answer(&so, &me, &sl)) {
        Some(x) => x,
        None => return,
    };
    // What the answer must be.
    struct Want<'a> {
        o: &'a Med,
        l: Option<(&'a Med, Vec<(String, Option<Codec>, Option<String>)>)>,
    }
    let mut want: Vec<Want> = vec![];
    let mut taken: Vec<&str> = vec![];
    let mut too_big = o.media.len() > 20;
    for m in &o.media {
        let lm = l.media.iter().find(|x| x.kind == m.kind);
        let mut acc = None;
        if m.port != 0 && !taken.contains(&m.kind.as_str()) {
            if let Some(lm) = lm {
                let c = common(m, lm);
                if lm.proto == m.proto && !c.is_empty() {
                    taken.push(&m.kind);
                    too_big |= c.len() > 50;
                    acc = Some((lm, c));
                }
            }
        }
        want.push(Want { o: m, l: acc });
    }
    let a = match got {
        Ok(a) => a,
        Err(e) => {
            rec.check(too_big, "no answer", || format!("{e:?}\n{}", ctx()));
            rec.count("over limits", 1);
            return;
        }
    };
    rec.check(!too_big, "limit ignored", ctx);
    let txt = a.serialize();
    let ctx = || format!("offer:\n{}\nlocal:\n{}\nanswer:\n{}", esc(&at), esc(&lt), esc(&txt));
    if !rec.check(a.media.len() == o.media.len(), "one media line per offered one", ctx) {
        return;
    }
    rec.check(a.origin.unicast_address == me && a.connection.as_ref().map(|c| c.connection_address.to_string()) == Some(me.clone()), "address", ctx);
    let v6 = me.contains(':');
    rec.check((a.origin.addr_type == AddrType::IPv6) == v6 && a.connection.as_ref().map(|c| (c.addr_type == AddrType::IPv6) == v6).unwrap_or(false), "address type", ctx);
    for (i, (w, g)) in want.iter().zip(&a.media).enumerate() {
        let ctx = || format!("media {i}\noffer:\n{}\nlocal:\n{}\nanswer:\n{}", esc(&at), esc(&lt), esc(&txt));
        rec.check(g.media_type == sdp::kind(&w.o.kind) && g.protocol == sdp::proto(&w.o.proto), "type and protocol", ctx);
        let fmts: Vec<String> = g.formats.iter().map(|f| f.to_string()).collect();
        match &w.l {
            None => {
                rec.count("media refused", 1);
                rec.check(g.port == 0, "refused media with a port", ctx);
                rec.check(fmts == w.o.fmts, "refused media formats", ctx);
            }
            Some((lm, c)) => {
                rec.count("media accepted", 1);
                rec.check(g.port == lm.port, "port", ctx);
                rec.check(fmts == c.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), "formats", ctx);
                let maps: Vec<Codec> = g.rtpmaps_iter().map(|p| (p.payload_type, p.encoding_name.to_string(), p.clock_rate, p.encoding_params.map(|s| s.to_string()))).collect();
                rec.check(maps == c.iter().filter_map(|x| x.1.clone()).collect::<Vec<_>>(), "codecs", ctx);
                rec.check(g.rtpmaps.len() == maps.len() && maps.iter().all(|m| g.rtpmaps.get(&m.0).map(|x| x.encoding_name == m.1).unwrap_or(false)), "codec table", ctx);
                for (f, _, p) in c {
                    if let Some(pt) = f.parse::<u8>().ok().filter(|n| *n < 128) {
                        rec.check(g.fmtp_for(pt).map(|f| f.params.to_string()) == *p, "parameters", || format!("{pt} want {p:?} {}", ctx()));
                        if p.is_some() {
                            rec.count("format parameters", 1);
                        }
                    }
                }
                rec.check(g.fmtp_iter().all(|f| fmts.contains(&f.payload_type.to_string())), "parameters of unlisted formats", ctx);
                let num = |m: &Med| value(&m.attrs, "ptime").and_then(|v| v.parse::<u32>().ok());
                rec.check(g.ptime() == num(lm).or(num(w.o)), "packet time", ctx);
                let od = own_dir(&w.o.attrs).or(own_dir(&o.attrs)).unwrap_or("sendrecv");
                let ld = own_dir(&lm.attrs).or(own_dir(&l.attrs)).unwrap_or("sendrecv");
                let (s, v) = (sends(ld) && receives(od), receives(ld) && sends(od));
                let wd = match (s, v) {
                    (true, true) => "sendrecv",
                    (true, false) => "sendonly",
                    (false, true) => "recvonly",
                    _ => "inactive",
                };
                rec.check(g.direction().map(|d| d.as_token()) == Some(wd), "direction", || format!("offered {od} local {ld} want {wd}\n{}", ctx()));
                rec.count(&format!("direction {od}/{ld}"), 1);
                rec.check(g.connection == sdp::med(lm).connection, "media address", ctx);
            }
        }
    }
    rec.sample(|| format!("{}", esc(&txt)));
    match SessionDescription::parse(&txt) {
        Ok(x) => {
            rec.check(x == a, "answer reads differently", ctx);
        }
        Err(e) => rec.violate("answer unreadable", format!("{e} {}", ctx())),
    }
    // The same inputs give the same answer.
    for _ in 0..2 {
        if let Ok(mut b) = negotiate_answer(&so, &me, &sl) {
            b.origin.session_id = a.origin.session_id.clone();
            rec.check(b == a, "answers differ", || format!("{}\nagain:\n{}", ctx(), b));
        }
    }
}

fn hostile(r: &mut Rng, rec: &mut Rec) {
    let o = doc(r);
    let l = local(r, &o);
    let mut b = render(&o).into_bytes();
    let k = r.range(1, 5) as usize;
    r.mutate(&mut b, k);
    let t = String::from_utf8_lossy(&b).into_owned();
    rec.eval(Some(&t));
    let so = match vmon::catch(|| SessionDescription::parse(&t)) {
        Ok(Ok(s)) => s,
        _ => return,
    };
    let lt = render(&l);
    let sl = SessionDescription::parse(&lt).unwrap_or_default();
    let ctx = || format!("offer:\n{}\nlocal:\n{}", esc(&t), esc(&lt));
    if let Some(Ok(a)) = rec.guard("negotiate", &ctx, || negotiate_answer(&so, "192.0.2.1", &sl)) {
        rec.count("damaged offers answered", 1);
        rec.check(a.media.len() == so.media.len(), "media lines", ctx);
        let x = SessionDescription::parse(&a.serialize());
        rec.check(x.as_ref().ok() == Some(&a), "answer reads differently", || format!("{} {a}", ctx()));
        for (g, m) in a.media.iter().zip(&so.media) {
            rec.check(m.port != 0 || g.port == 0, "refused media accepted", ctx);
            rec.check(g.formats.iter().all(|f| m.formats.contains(f)), "format never offered", ctx);
        }
    }
    let p = if r.coin() { MediaProfileBuilder::audio_video() } else { MediaProfileBuilder::audio_only() };
    let _ = rec.guard("profile", &ctx, || profiles::negotiate_answer(&so, &p, "-", "192.0.2.1", 4000, None));
}

fn profile(r: &mut Rng, rec: &mut Rec) {
    let mut o = doc(r);
    o.media.truncate(4);
    for m in &mut o.media {
        if r.chance(3, 4) {
            m.kind = r.pick(&["audio", "video"]).to_string();
            m.proto = "RTP/AVP".into();
            m.fmts = vec![];
            m.attrs.retain(|a| a.0 != "rtpmap");
            for _ in 0..r.range(1, 6) {
                let f = r.pick(&["0", "8", "9", "96", "97", "101", "18"]).to_string();
                if !m.fmts.contains(&f) {
                    if r.coin() {
                        m.attrs.push(rtpmap(&f, &codec(r)));
                    }
                    m.fmts.push(f);
                }
            }
        }
    }
    let t = render(&o);
    let so = match SessionDescription::parse(&t) {
        Ok(s) => s,
        Err(_) => return,
    };
    let mut audio: Vec<(u8, String, u32)> = vec![(0, "PCMU".into(), 8000), (8, "PCMA".into(), 8000)];
    let mut video: Vec<(u8, String, u32)> = vec![];
    let mut p = if r.coin() {
        video = vec![(96, "H264".into(), 90000), (97, "VP8".into(), 90000)];
        MediaProfileBuilder::audio_video()
    } else {
        MediaProfileBuilder::audio_only()
    };
    for (pt, n, c) in [(96u8, "opus", 48000u32), (97, "G722", 8000), (18, "G729", 8000)] {
        if r.chance(1, 3) {
            p = p.add_audio_codec(pt, n, c);
            audio.push((pt, n.into(), c));
        }
    }
    let te = r.coin();
    p = p.telephone_event(te);
    let ap = if r.chance(1, 6) { *r.pick(&[65535u16, 65534, 65533, 1]) } else { r.range(1, 65536) as u16 };
    let vp = if r.coin() { Some(r.range(1, 65536) as u16) } else { None };
    rec.eval(Some(&(&t, ap, vp, te)));
    let ctx = || format!("{}\nprofile audio {audio:?} video {video:?} telephone-event {te}", esc(&t));
    let a = match rec.guard("profile answer", &ctx, || profiles::negotiate_answer(&so, &p, "alice", "192.0.2.1", ap, vp)) {
        Some(a) => a,
        None => return,
    };
    let ctx = || format!("{}\nprofile audio {audio:?} video {video:?} telephone-event {te}\nanswer:\n{}", esc(&t), esc(&a.serialize()));
    let pick = |kind: &str, codecs: &[(u8, String, u32)]| -> Vec<u8> {
        let mut out = vec![];
        for m in o.media.iter().filter(|m| m.kind == kind) {
            for f in &m.fmts {
                let Some(pt) = f.parse::<u8>().ok().filter(|n| *n < 128) else { continue };
                let ours = codecs.iter().any(|c| {
                    c.0 == pt
                        && match codec_of(m, pt) {
                            Some(x) => x.1.eq_ignore_ascii_case(&c.1) && x.2 == c.2,
                            None => pt < 96,
                        }
                });
                if ours && !out.contains(&pt) {
                    out.push(pt);
                }
            }
        }
        out
    };
    let tele = te && o.media.iter().filter(|m| m.kind == "audio").any(|m| m.fmts.iter().any(|f| f == "101") && codec_of(m, 101).map(|c| c.1.eq_ignore_ascii_case("telephone-event")).unwrap_or(true));
    let wa = pick("audio", &audio);
    let wv = pick("video", &video);
    let nums = |m: &MediaDescription| m.formats.iter().filter_map(|f| f.parse::<u8>().ok()).collect::<Vec<_>>();
    let ga = a.find_media(MediaType::Audio);
    match ga {
        None => {
            rec.violate("no audio line", ctx());
        }
        Some(m) => {
            let mut w = wa.clone();
            if tele && !w.contains(&101) {
                w.push(101);
            }
            rec.check(nums(m) == w, "audio formats", || format!("want {w:?} {}", ctx()));
            rec.check(m.port == if wa.is_empty() { 0 } else { ap }, "audio port", ctx);
            rec.check(m.rtpmaps_iter().all(|c| c.payload_type == 101 || audio.iter().any(|k| k.0 == c.payload_type && k.2 == c.clock_rate && c.encoding_name == k.1.as_str())), "audio codecs", ctx);
        }
    }
    match a.find_media(MediaType::Video) {
        None => {
            rec.check(wv.is_empty(), "no video line", ctx);
        }
        Some(m) => {
            rec.check(!wv.is_empty() && nums(m) == wv, "video formats", || format!("want {wv:?} {}", ctx()));
            rec.check(vp.map(|v| v == m.port).unwrap_or(m.port != 0 && m.port != ap), "video port", ctx);
        }
    }
    rec.check(SessionDescription::parse(&a.serialize()).ok().map(|b| b.media.len()) == Some(a.media.len()), "profile answer unreadable", ctx);
    rec.count("profile answers", 1);
    // Offers made from a profile.
    let k = *r.pick(&[SdpProfile::AudioOnly, SdpProfile::AudioVideo, SdpProfile::Custom]);
    if let Some(s) = rec.guard("profile offer", &|| format!("{k:?} {ap} {vp:?}"), || profiles::create_from_profile(k, "alice", "192.0.2.1", ap, vp)) {
        let ports: Vec<u16> = s.media.iter().map(|m| m.port).collect();
        rec.check(ports[0] == ap, "offer audio port", || format!("{ports:?} {ap} {vp:?}"));
        rec.check(ports.len() == if k == SdpProfile::AudioVideo { 2 } else { 1 }, "offer media", || format!("{ports:?}"));
        if let Some(x) = ports.get(1) {
            rec.check(vp.map(|v| v == *x).unwrap_or(*x != ap && *x != 0), "offer video port", || format!("{ports:?} {ap} {vp:?}"));
        }
        rec.check(SessionDescription::parse(&s.serialize()).ok().as_ref() == Some(&s), "offer reads differently", || s.serialize());
    }
}

fn main() {
    let mut c = Ctx::new("S02", "an answer has one media line per offered one, in order, and accepts only what both sides named");
    let n = c.n(50_000, 900_000);
    c.run("answers", n, answers);
    c.run("hostile offers", n, hostile);
    c.run("profiles", n, profile);
    c.finish()
}
