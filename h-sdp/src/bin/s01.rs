//! S01: the SDP library reads what a document says, writes it back unchanged,
//! and never accepts what it would write differently.
use h_sdp::*;
use sip_sdp::parse::{parse_sdp_with_limits, ParseLimits};
use sip_sdp::*;
use vmon::{Ctx, Rec, Rng};

fn esc(s: &str) -> String {
    format!("{:?}", s.chars().take(1500).collect::<String>())
}

fn document(r: &mut Rng, rec: &mut Rec) {
    let d = doc(r);
    let text = render(&d);
    rec.eval(Some(&text));
    let want = sdp::doc(&d);
    let eol = *r.pick(&["\r\n", "\n"]);
    let mut given = join(&lines(&d), eol);
    let cut = r.chance(1, 5);
    if cut {
        given.truncate(given.len() - eol.len());
    }
    if r.chance(1, 8) {
        given.push_str(eol);
    }
    let got = match rec.guard("parse", &|| esc(&given), || SessionDescription::parse(&given)) {
        Some(Ok(x)) => x,
        Some(Err(e)) => {
            rec.violate("refused", format!("{e}: {}", esc(&given)));
            return;
        }
        None => return,
    };
    if d.emails.len() <= 1 && d.phones.len() <= 1 {
        if !rec.check(got == want, "fields", || format!("read {got:?}\nwant {want:?}\nfrom {}", esc(&given))) {
            return;
        }
        let out = got.serialize();
        rec.check(out == text, "written", || format!("wrote {}\nread  {}", esc(&out), esc(&text)));
        rec.check(got.to_string() == out, "display", || esc(&out));
        rec.check(SessionDescription::parse(&out).ok().as_ref() == Some(&got), "reread", || esc(&out));
        rec.sample(|| esc(&out));
        rec.count("documents", 1);
        rec.count("media lines", d.media.len() as u64);
        rec.count("attributes", d.attrs.len() as u64 + d.media.iter().map(|m| m.attrs.len() as u64).sum::<u64>());
    }
    let k = sdp::kind(*r.pick(KINDS));
    let all: Vec<usize> = (0..d.media.len()).filter(|i| sdp::kind(&d.media[*i].kind) == k).collect();
    rec.check(got.find_all_media(k.clone()) == all.iter().map(|i| &got.media[*i]).collect::<Vec<_>>(), "find all", || text.clone());
    rec.check(got.find_media(k) == all.first().map(|i| &got.media[*i]), "find", || text.clone());
    rec.check(got.direction().map(|d| d.as_token()) == own_dir(&d.attrs), "session direction", || text.clone());
    for (m, g) in d.media.iter().zip(&got.media) {
        views(m, g, rec);
    }
    if !d.media.is_empty() {
        let i = r.below(d.media.len());
        edits(d.media[i].clone(), got.media[i].clone(), r, rec);
    }
}

fn opt_eq(a: Option<&str>, b: Option<&str>) -> bool {
    a == b
}

/// What the typed readers say against the attributes' text.
fn views(m: &Med, g: &MediaDescription, rec: &mut Rec) {
    let ctx = || format!("{:?}\n{:?}", m.attrs, g);
    rec.check(g.direction().map(|d| d.as_token()) == own_dir(&m.attrs), "direction", ctx);
    let maps: Vec<_> = g.rtpmaps_iter().map(|p| (p.payload_type, p.encoding_name.to_string(), p.clock_rate, p.encoding_params.map(|s| s.to_string()))).collect();
    rec.check(maps == sdp::codecs(&m.attrs), "rtpmaps", ctx);
    let mut h = g.clone();
    h.rtpmaps.clear();
    h.rebuild_rtpmaps();
    rec.check(h.rtpmaps == sdp::rtpmaps(&m.attrs), "rtpmap cache", ctx);
    let values = |key: &str| -> Vec<String> { m.attrs.iter().filter(|(n, v)| n == key && v.is_some()).filter_map(|(_, v)| v.clone()).collect() };
    let fm: Vec<(u8, String)> = values("fmtp").iter().filter_map(|v| v.split_once(' ').and_then(|(a, b)| Some((a.parse().ok()?, b.trim().to_string())))).collect();
    rec.check(g.fmtp_iter().map(|f| (f.payload_type, f.params.to_string())).collect::<Vec<_>>() == fm, "fmtp", ctx);
    for pt in [0u8, 8, 96, 97, 101, 111] {
        rec.check(g.fmtp_for(pt).map(|f| f.params.to_string()) == fm.iter().find(|f| f.0 == pt).map(|f| f.1.clone()), "fmtp for", ctx);
    }
    rec.check(g.ptime() == value(&m.attrs, "ptime").and_then(|v| v.parse().ok()), "ptime", ctx);
    rec.check(g.maxptime() == value(&m.attrs, "maxptime").and_then(|v| v.parse().ok()), "maxptime", ctx);
    rec.check(g.mid().map(|s| s.to_string()) == value(&m.attrs, "mid").map(|s| s.to_string()), "mid", ctx);
    let setup = value(&m.attrs, "setup").filter(|v| ["active", "passive", "actpass", "holdconn"].contains(v));
    rec.check(opt_eq(g.setup().map(|s| s.as_token()), setup), "setup", ctx);
    let fp: Vec<(String, String)> = values("fingerprint").iter().filter_map(|v| v.split_once(' ').map(|(a, b)| (a.to_string(), b.to_string()))).collect();
    rec.check(g.fingerprints().map(|f| (f.hash_function.to_string(), f.fingerprint.to_string())).collect::<Vec<_>>() == fp, "fingerprints", ctx);
    rec.check(g.fingerprint().map(|f| f.fingerprint.to_string()) == fp.first().map(|f| f.1.clone()), "fingerprint", ctx);
    let ss: Vec<String> = values("ssrc");
    let gs: Vec<String> = g
        .ssrc_iter()
        .map(|s| match s.value {
            Some(v) => format!("{} {}:{}", s.ssrc_id, s.attribute, v),
            None => format!("{} {}", s.ssrc_id, s.attribute),
        })
        .collect();
    rec.check(gs == ss, "ssrc", ctx);
    let whole = g.ssrc_iter().zip(&ss).all(|(s, t)| s.attribute.as_str() == t.split_once(' ').map(|x| x.1.split_once(':').map(|y| y.0).unwrap_or(x.1)).unwrap_or(""));
    rec.check(whole, "ssrc parts", ctx);
    // Transports compare whatever their case.
    let ca: Vec<String> = values("candidate")
        .iter()
        .map(|v| {
            let mut w: Vec<String> = v.split(' ').map(|s| s.to_string()).collect();
            w[2] = w[2].to_lowercase();
            w.join(" ")
        })
        .collect();
    let gc: Vec<Candidate> = g.candidates().collect();
    rec.check(gc.iter().map(|c| c.to_attr_value()).collect::<Vec<_>>() == ca, "candidates", || format!("{gc:?}\n{ca:?}"));
    for (c, t) in gc.iter().zip(&ca) {
        let w: Vec<&str> = t.split(' ').collect();
        let at = |k: &str| w.iter().skip(8).step_by(2).position(|x| *x == k).map(|i| w[8 + 2 * i + 1].to_string());
        let ok = c.foundation == w[0] && c.component.to_string() == w[1] && c.priority.to_string() == w[3] && c.connection_address == w[4] && c.port.to_string() == w[5];
        let ok = ok && c.raddr.as_ref().map(|s| s.to_string()) == at("raddr") && c.rport.map(|p| p.to_string()) == at("rport");
        let ok = ok
            && match w[7] {
                "host" => c.typ == CandidateType::Host,
                "srflx" => c.typ == CandidateType::ServerReflexive,
                "prflx" => c.typ == CandidateType::PeerReflexive,
                "relay" => c.typ == CandidateType::Relay,
                o => c.typ == CandidateType::Other(o.into()),
            };
        rec.check(ok, "candidate fields", || format!("{c:?} {t}"));
    }
    rec.count("views", 1);
}

/// Edits made through the API against the same edits made to the model.
fn edits(mut m: Med, mut g: MediaDescription, r: &mut Rng, rec: &mut Rec) {
    let set = |a: &mut Vec<Attr>, k: &str, v: String| {
        a.retain(|(n, x)| !(n == k && x.is_some()));
        a.push((k.into(), Some(v)));
    };
    // `a=rtpmap:` of one payload type, as the library recognises it.
    let of = |a: &Attr, key: &str, pt: u8| a.0 == key && a.1.as_ref().map(|v| v.split_whitespace().next() == Some(pt.to_string().as_str())).unwrap_or(false);
    let mut log = vec![];
    for _ in 0..r.range(1, 9) {
        let before = g.clone();
        match r.below(13) {
            0 => {
                let d = *r.pick(&[Direction::SendRecv, Direction::SendOnly, Direction::RecvOnly, Direction::Inactive]);
                log.push(format!("direction {d:?}"));
                g.set_direction(d);
                m.attrs.retain(|(n, v)| !(v.is_none() && DIRS.contains(&n.as_str())));
                m.attrs.push((d.as_token().into(), None));
            }
            1 => {
                log.push("clear direction".into());
                g.clear_direction();
                m.attrs.retain(|(n, v)| !(v.is_none() && DIRS.contains(&n.as_str())));
            }
            2 => {
                let v = r.u32();
                log.push(format!("ptime {v}"));
                g.set_ptime(v);
                set(&mut m.attrs, "ptime", v.to_string());
            }
            3 => {
                let v = r.u32();
                log.push(format!("maxptime {v}"));
                g.set_maxptime(v);
                set(&mut m.attrs, "maxptime", v.to_string());
            }
            4 => {
                log.push("clear ptimes".into());
                g.clear_ptime();
                g.clear_maxptime();
                m.attrs.retain(|(n, x)| !(x.is_some() && (n == "ptime" || n == "maxptime")));
            }
            5 => {
                let pt = r.below(128) as u8;
                let pt = if r.coin() { m.fmts[0].parse().unwrap_or(pt) } else { pt };
                log.push(format!("fmtp {pt}"));
                g.set_fmtp(pt, " a=1;b=2 ");
                m.attrs.retain(|a| !of(a, "fmtp", pt));
                m.attrs.push(("fmtp".into(), Some(format!("{pt} a=1;b=2"))));
            }
            6 | 7 => {
                let pt = if r.coin() { m.fmts[0].parse().unwrap_or(9) } else { r.below(140) as u8 };
                let (n, c, p) = match r.below(6) {
                    0 => (r.pick(&["", "a\r\nb", "x\ny", "z\0"]).to_string(), 8000, None),
                    1 => ("opus".to_string(), *r.pick(&[0u32, 1, 999, 1_000_000_001, u32::MAX]), None),
                    2 => ("opus".into(), 48000, Some(r.pick(&["2\r\na=x", "\n", "1\r"]).to_string())),
                    3 => ("n".repeat(r.range(62, 67) as usize), 8000, None),
                    _ => {
                        let (n, c, p) = codec(r);
                        (n, c, p)
                    }
                };
                let ctl = |s: &str| s.chars().any(|c| c.is_ascii_control());
                let bad = pt > 127 || n.is_empty() || ctl(&n) || n.len() > 64 || !(1000..=1_000_000_000).contains(&c) || p.as_deref().map(|p| ctl(p)).unwrap_or(false);
                log.push(format!("rtpmap {pt} {n:?} {c} {p:?}"));
                let res = g.set_rtpmap(pt, &n, c, p.as_deref());
                let kept = m.attrs.iter().filter(|a| !of(a, "rtpmap", pt)).count();
                if n.is_empty() && res.is_ok() {
                    return; // not promised either way
                }
                let full = kept >= 50 || m.attrs.iter().filter(|a| a.0 == "rtpmap").count() >= 50;
                if !full {
                    rec.check(res.is_ok() != bad, "rtpmap accepted", || format!("{log:?} -> {res:?}"));
                }
                rec.count(if res.is_ok() { "codec edits" } else { "codec edits refused" }, 1);
                if res.is_err() {
                    rec.check(g == before, "refused edit changed the media", || format!("{log:?}\n{before:?}\n{g:?}"));
                } else {
                    m.attrs.retain(|a| !of(a, "rtpmap", pt));
                    m.attrs.push(rtpmap(&pt.to_string(), &(n, c, p)));
                }
            }
            8 => {
                let pt: u8 = if r.coin() { m.fmts[0].parse().unwrap_or(0) } else { r.below(128) as u8 };
                log.push(format!("remove rtpmap {pt}"));
                let had = m.attrs.iter().any(|a| of(a, "rtpmap", pt));
                let did = g.remove_rtpmap(pt);
                m.attrs.retain(|a| !of(a, "rtpmap", pt));
                rec.check(did == had, "rtpmap removal reported", || format!("{log:?} {did} {had}"));
            }
            9 => {
                let c: Candidate = match SessionDescription::parse(&format!("v=0\r\no=- 1 1 IN IP4 h\r\ns=-\r\nt=0 0\r\nm=x 1 UDP y\r\na=candidate:{}\r\n", candidate(r))) {
                    Ok(s) => match s.media[0].candidates().next() {
                        Some(c) => c,
                        None => {
                            rec.violate("candidate unread", format!("{s:?}"));
                            return;
                        }
                    },
                    Err(e) => {
                        rec.violate("candidate refused", format!("{e}"));
                        return;
                    }
                };
                log.push("candidate".into());
                g.add_candidate(&c);
                rec.check(g.candidates().last().as_ref() == Some(&c), "candidate added", || format!("{c:?}"));
                m.attrs.push(("candidate".into(), Some(c.to_attr_value())));
            }
            10 => {
                log.push("clear candidates".into());
                g.clear_candidates();
                m.attrs.retain(|(n, x)| !(x.is_some() && n == "candidate"));
            }
            11 => {
                let s = *r.pick(&[Setup::Active, Setup::Passive, Setup::ActPass, Setup::HoldConn]);
                log.push(format!("setup {s:?}"));
                g.set_setup(s);
                set(&mut m.attrs, "setup", s.as_token().into());
            }
            _ => {
                let s = r.alnum(1, 8);
                log.push(format!("mid {s}"));
                g.set_mid(&s);
                set(&mut m.attrs, "mid", s);
            }
        }
        let want = sdp::attrs(&m.attrs);
        if !rec.check(g.attributes == want, "edit", || format!("{log:?}\ngot  {:?}\nwant {want:?}", g.attributes)) {
            return;
        }
        // Editing touches nothing but attributes and the codec table.
        let mut rest = g.clone();
        rest.attributes = before.attributes.clone();
        rest.rtpmaps = before.rtpmaps.clone();
        rec.check(rest == before, "edit reaches too far", || format!("{log:?}\n{before:?}\n{g:?}"));
        let uniq = sdp::rtpmaps(&m.attrs);
        rec.check(g.rtpmaps == uniq, "codec table out of step", || format!("{log:?}\n{:?}\n{uniq:?}", g.rtpmaps));
        rec.count("edits", 1);
    }
}

fn canonical(given: &str, rec: &mut Rec) {
    let got = match rec.guard("parse", &|| esc(given), || SessionDescription::parse(given)) {
        Some(Ok(x)) => x,
        Some(Err(_)) => {
            rec.count("damaged refused", 1);
            return;
        }
        None => return,
    };
    rec.count("damaged accepted", 1);
    let bad = sdp::strings(&got).into_iter().find(|s| s.contains(['\r', '\n']));
    rec.check(bad.is_none(), "line break in a field", || format!("{bad:?} from {}", esc(given)));
    let out = got.serialize();
    // A document whose canonical text is over a limit need not be readable.
    let l = ParseLimits::default();
    if out.len() > l.max_bytes || out.lines().any(|x| x.len() > l.max_line_length) || out.lines().count() > l.max_lines {
        return;
    }
    match SessionDescription::parse(&out) {
        Ok(again) => {
            rec.check(again == got, "reread differs", || format!("{again:?}\n{got:?}\nfrom {}", esc(given)));
        }
        Err(e) => rec.violate("own text refused", format!("{e}: {} from {}", esc(&out), esc(given))),
    }
}

fn damaged(r: &mut Rng, rec: &mut Rec) {
    let d = doc(r);
    let mut b = render(&d).into_bytes();
    match r.below(4) {
        0 => {
            // Whole lines moved, dropped or repeated.
            let mut l = lines(&d);
            for _ in 0..r.range(1, 4) {
                let (i, j) = (r.below(l.len()), r.below(l.len()));
                match r.below(3) {
                    0 => l.swap(i, j),
                    1 => {
                        let x = l[i].clone();
                        l.insert(j, x);
                    }
                    _ => {
                        if l.len() > 1 {
                            l.remove(i);
                        }
                    }
                }
            }
            b = join(&l, "\r\n").into_bytes();
        }
        1 => {
            let mut l = lines(&d);
            for _ in 0..r.range(1, 4) {
                let i = r.below(l.len());
                let at = r.below(l[i].chars().count() + 1);
                let ins = *r.pick(&["\r", "\n", " ", "\t", "\0", "\u{85}", "\u{2028}", "\u{a0}", ":", "/", "=", "\r\n", "  ", "0", "99999999999999999999"]);
                let s: String = l[i].chars().take(at).chain(ins.chars()).chain(l[i].chars().skip(at)).collect();
                l[i] = s;
            }
            b = join(&l, *r.pick(&["\r\n", "\n", "\r"])).into_bytes();
        }
        2 => {
            let k = r.range(1, 6) as usize;
            r.mutate(&mut b, k);
        }
        _ => b = r.nasty(0, 200).into_bytes(),
    }
    let s = String::from_utf8_lossy(&b).into_owned();
    rec.eval(Some(&s));
    canonical(&s, rec);
}

fn spoiled(r: &mut Rng, rec: &mut Rec) {
    let d = doc(r);
    let (t, what) = spoil(r, &d, true);
    rec.eval(Some(&t));
    rec.count(&format!("refused: {what}"), 1);
    if let Some(x) = rec.guard("parse", &|| esc(&t), || SessionDescription::parse(&t)) {
        rec.check(x.is_err(), "wrong document accepted", || format!("{what}: {}", esc(&t)));
    }
}

const HEAD: &str = "v=0\r\no=- 1 1 IN IP4 h\r\ns=-\r\nt=0 0\r\n";

fn limits(r: &mut Rng, rec: &mut Rec) {
    let l = if r.coin() {
        ParseLimits::default()
    } else {
        ParseLimits { max_bytes: r.range(200, 2000) as usize, max_lines: r.range(8, 40) as usize, max_line_length: r.range(30, 200) as usize, max_attributes_per_section: r.range(0, 20) as usize }
    };
    let slack = r.range(-2, 3);
    let near = |n: usize| (n as i64 + slack).max(0) as usize;
    let mut s = HEAD.to_string();
    let media = r.coin();
    if media {
        s.push_str("m=audio 1 RTP/AVP 0\r\n");
    }
    let head = s.lines().count();
    let which = r.below(4);
    match which {
        0 => {
            // Bytes, spread over several lines.
            let want = near(l.max_bytes);
            while s.len() + 14 < want {
                let n = (want - s.len() - 14).min(l.max_line_length.min(2000) - 8).max(1);
                s.push_str(&format!("s={}\r\n", "x".repeat(n)));
            }
            while s.len() < want {
                s.push('\n');
            }
        }
        1 => {
            for _ in head..near(l.max_lines).max(head) {
                s.push_str("i=x\r\n");
            }
        }
        2 => {
            // Lengths are bytes: some of the letters take two.
            let n = near(l.max_line_length).max(2) - 2;
            let wide = if r.coin() { r.below(n / 2 + 1) } else { 0 };
            s.push_str(&format!("i={}{}\r\n", "\u{e9}".repeat(wide), "x".repeat(n - 2 * wide)));
        }
        _ => {
            for _ in 0..near(l.max_attributes_per_section) {
                s.push_str("a=x\r\n");
            }
        }
    }
    let over = s.len() > l.max_bytes
        || s.lines().filter(|x| !x.is_empty()).count() > l.max_lines
        || s.lines().any(|x| x.len() > l.max_line_length)
        || s.lines().filter(|x| x.starts_with("a=")).count() > l.max_attributes_per_section;
    rec.eval(Some(&(s.len(), s.lines().count(), which, media, l.max_bytes, l.max_lines)));
    let got = parse_sdp_with_limits(&s, l);
    rec.count(if over { "over a limit" } else { "within limits" }, 1);
    rec.check(got.is_err() == over, "limit", || format!("{l:?} bytes {} lines {} attrs: {:?}", s.len(), s.lines().count(), got.as_ref().err()));
    if l.max_bytes == ParseLimits::default().max_bytes {
        rec.check(SessionDescription::parse(&s).is_err() == over, "default limit", || format!("{}", s.len()));
    }
}

type Op = (usize, String, bool, u8);

/// One call on the document's builder.
fn on_session(b: builder::SessionDescriptionBuilder, o: &Op) -> Result<builder::SessionDescriptionBuilder, SdpError> {
    let t = o.1.as_str();
    match o.0 {
        0 => b.session_name(t),
        1 => b.session_info(t),
        2 => b.connection(t),
        3 if o.2 => b.attribute("x", Some(t)),
        3 => b.attribute(t, None),
        4 => b.encryption_key(t),
        5 => b.time_zone_adjustment(t, "1h"),
        6 => b.add_time(1, 2),
        7 => b.origin(t, "1", "h"),
        8 => b.origin("-", t, "h"),
        _ => b.origin("-", "1", t),
    }
}

/// One call on the media description's builder.
fn on_media(m: MediaDescription, o: &Op) -> Result<MediaDescription, SdpError> {
    let t = o.1.as_str();
    match o.0 {
        20 => m.add_format_token(t),
        21 if o.2 => m.add_attribute("x", t),
        21 => m.add_property(t),
        22 if o.2 => m.add_rtpmap(o.3 % 128, "x", 8000, Some(t)),
        22 => m.add_rtpmap(o.3 % 128, t, 8000, None),
        23 => m.connection(t),
        _ => m.add_format(o.3),
    }
}

/// Text an application hands over never adds lines, however it is spelled.
fn built(r: &mut Rng, rec: &mut Rec) {
    let hostile = |r: &mut Rng| -> String {
        match r.below(6) {
            5 => format!("{}{}{}", r.alnum(0, 3), r.pick(&[" ", ":", "/", "=", " :", ";", "\"", "0"]), r.alnum(0, 3)),
            0 => format!("{}{}{}", r.alnum(0, 5), r.pick(&["\r\n", "\r", "\n", "\r\na=evil", "\nm=audio 9 RTP/AVP 0", "\0"]), r.alnum(0, 5)),
            1 => "x".repeat(*r.pick(&[64usize, 65, 128, 129, 256, 257, 512, 513, 1024, 1025])),
            2 => r.nasty(0, 10),
            _ => r.alnum(1, 10),
        }
    };
    let mut m0 = if r.coin() { MediaDescription::audio(4000) } else { MediaDescription::video(4000) };
    // an RTP profile takes numbers only
    m0.protocol = Protocol::Other("udptl".into());
    let mut m = m0.clone();
    let mut done: Vec<Op> = vec![];
    let rebuild = |ops: &[Op]| ops.iter().filter(|o| o.0 < 20).try_fold(SessionDescription::builder(), on_session);
    let long = r.chance(1, 4);
    let kinds = [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 20, 21, 22, 23, 24];
    let focus = *r.pick(&kinds);
    let mut fed = vec![];
    for _ in 0..if long { r.range(40, 80) } else { r.range(1, 12) } {
        let k = if long && r.chance(5, 6) { focus } else { *r.pick(&kinds) };
        let t = if long && r.chance(9, 10) { r.alnum(1, 6) } else { hostile(r) };
        let t = t.trim_matches(|c: char| c != '\r' && c != '\n' && c.is_whitespace()).to_string(); // blanks at the ends are dropped when read
        let o: Op = (k, t, r.coin(), if long { r.below(128) as u8 } else { r.below(256) as u8 });
        fed.push(o.clone());
        let at = |k: usize| done.iter().filter(|o| o.0 == k).count();
        let mut maps: Vec<u8> = done.iter().filter(|o| o.0 == 22).map(|o| o.3 % 128).collect();
        maps.sort();
        maps.dedup();
        let mattrs = at(21) + maps.len();
        let res = match vmon::catch(|| if k < 20 { rebuild(&done).and_then(|b| on_session(b, &o)).map(|_| None) } else { on_media(m.clone(), &o).map(Some) }) {
            Ok(x) => x,
            Err(p) => {
                rec.violate("panic", format!("{} at {}: {fed:?}", p.msg, p.loc));
                return;
            }
        };
        let max = match o.0 {
            0 | 1 => 512,
            3 | 21 if o.2 => 1024,
            3 | 5 | 21 => 128,
            4 => 1024,
            20 | 22 => 64,
            _ => 256,
        };
        let texty = k != 6 && k != 24;
        let full = match k {
            3 => at(3) >= 50,
            5 => at(5) >= 10,
            6 => at(6) + 1 >= 10,
            20 | 24 => at(20) + at(24) >= 50,
            21 => mattrs >= 50,
            22 => mattrs - maps.contains(&(o.3 % 128)) as usize >= 50,
            _ => false,
        };
        let clean = !o.1.contains(['\r', '\n', '\0']);
        let plain = !o.1.is_empty() && o.1.chars().all(|c| c.is_ascii_alphanumeric());
        let wrong = full || (k == 24 && o.3 > 127) || (texty && (!clean || o.1.len() > max));
        if res.is_ok() {
            rec.check(!wrong, "accepted", || format!("{o:?} after {fed:?}"));
        } else {
            rec.check(wrong || (texty && !plain), "refused", || format!("{o:?} {res:?} after {fed:?}"));
        }
        rec.count(if res.is_ok() { "builder calls accepted" } else { "builder calls refused" }, 1);
        if let Ok(x) = res {
            if let Some(x) = x {
                m = x;
            }
            done.push(o);
        }
    }
    rec.eval(Some(&fed));
    let s = match rebuild(&done).and_then(|b| b.media(m)).map(|b| b.build()) {
        Ok(s) => s,
        Err(e) => {
            rec.violate("media refused", format!("{e} {fed:?}"));
            return;
        }
    };
    let out = s.serialize();
    let has = |k: usize| done.iter().any(|o| o.0 == k) as usize;
    let at = |k: usize| done.iter().filter(|o| o.0 == k).count();
    let mut maps: Vec<u8> = done.iter().filter(|o| o.0 == 22).map(|o| o.3 % 128).collect();
    maps.sort();
    maps.dedup();
    let n = 3 + has(1) + has(2) + 1 + at(6) + has(5) + has(4) + at(3) + 1 + has(23) + at(21) + maps.len();
    rec.check(out.split("\r\n").count() == n + 1 && out.matches('\n').count() == n && out.matches('\r').count() == n, "line count", || format!("want {n}: {}", esc(&out)));
    let back = match vmon::catch(|| SessionDescription::parse(&out)) {
        Ok(x) => x,
        Err(p) => {
            rec.violate("panic", format!("{} at {}: {fed:?}", p.msg, p.loc));
            return;
        }
    };
    match back {
        Ok(b) => {
            let mut want = s.clone();
            for m in want.media.iter_mut().filter(|m| m.formats.is_empty()) {
                m.formats.push("0".into()); // a media line names at least one
            }
            rec.check(b == want, "built reads back", || {
                let (x, y) = (format!("{b:?}"), format!("{want:?}"));
                let i = x.bytes().zip(y.bytes()).take_while(|(a, b)| a == b).count().saturating_sub(40);
                format!("reads as ..{:.160}, not ..{:.160} from {}", x.get(i..).unwrap_or(&x), y.get(i..).unwrap_or(&y), esc(&out))
            });
        }
        Err(e) => rec.violate("built reads back", format!("refused: {e} {} {done:?}", esc(&out))),
    }
    rec.count("built documents", 1);
}

fn main() {
    let mut c = Ctx::new("S01", "reading a session description gives exactly what its text says, writing it gives that text back, and nothing else is accepted");
    let n = c.n(60_000, 1_200_000);
    c.run("documents", n, document);
    c.run("damaged", n * 2, damaged);
    c.run("spoiled", n / 2, spoiled);
    let n = c.n(6_000, 100_000);
    c.run("limits", n, limits);
    c.run("built", n * 2, built);
    c.finish()
}
