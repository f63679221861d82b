//! S03: the SIP core's session descriptions say what their text says and are
//! written back the same.
use h_sdp::core::*;
use h_sdp::*;
use sip_core::sdp::SdpSession;
use vmon::{Ctx, Rec, Rng};

fn esc(s: &str) -> String {
    format!("{:?}", s.chars().take(1500).collect::<String>())
}

fn show<T: ToString>(v: &[T]) -> Vec<String> {
    v.iter().map(|x| x.to_string()).collect()
}
fn alines(at: &[Attr], without: &[&str]) -> Vec<String> {
    at.iter().filter(|x| !without.contains(&x.0.as_str())).map(|(n, v)| if let Some(v) = v { format!("a={n}:{v}") } else { format!("a={n}") }).collect()
}
fn conn(c: &Option<(bool, String)>) -> Option<String> {
    c.as_ref().map(|(v6, x)| format!("c=IN {} {x}", if *v6 { "IP6" } else { "IP4" }))
}
fn bws(b: &[(String, u32)]) -> Vec<String> {
    b.iter().map(|(t, v)| format!("b={t}:{v}")).collect()
}
const CAPS: &[&str] = &["sqn", "cdsc", "cpar", "cparmin", "cparmax"];

fn document(r: &mut Rng, rec: &mut Rec) {
    let mut d = doc(r);
    enrich(r, &mut d);
    if d.attrs.len() > 100 || d.media.iter().any(|m| m.attrs.len() > 100) {
        return;
    }
    let mut w = d.clone();
    w.attrs = order(&d.attrs, true);
    for m in &mut w.media {
        m.attrs = order(&m.attrs, false);
    }
    let eol = *r.pick(&["\r\n", "\n"]);
    let given = join(&lines(&d), eol);
    rec.eval(Some(&given));
    let s = match rec.guard("parse", &|| esc(&given), || SdpSession::parse(&given)) {
        Some(Ok(s)) => s,
        Some(Err(e)) => {
            rec.violate("refused", format!("{e}: {}", esc(&given)));
            return;
        }
        None => return,
    };
    rec.count("documents", 1);
    let ctx = || esc(&given);
    let o = s.origin();
    rec.check(
        s.version() == 0
            && o.username() == d.user
            && o.sess_id() == d.sid
            && o.sess_version() == d.sver
            && o.nettype() == "IN"
            && o.addrtype() == if d.v6 { "IP6" } else { "IP4" }
            && o.unicast_address() == d.addr,
        "origin",
        ctx,
    );
    rec.check(s.session_name() == d.name && s.session_info() == d.info.as_deref() && s.uri() == d.uri.as_deref(), "session text", ctx);
    rec.check(s.emails() == d.emails && s.phones() == d.phones, "emails and phones", ctx);
    rec.check(s.connection().map(|c| c.to_string()) == conn(&d.conn), "connection", ctx);
    rec.check(show(s.bandwidth()) == bws(&d.bw), "bandwidth", ctx);
    rec.check(show(s.timing()) == d.times.iter().map(|t| format!("t={} {}", t.start, t.stop)).collect::<Vec<_>>(), "times", ctx);
    let reps: Vec<String> = d.times.iter().flat_map(|t| &t.repeats).map(|p| format!("r={}", p.join(" "))).collect();
    rec.check(show(s.repeat_times()) == reps, "repeats", ctx);
    rec.check(s.time_zones().len() == d.zones.len(), "zones", ctx);
    rec.check(s.encryption_key().map(|k| k.to_string()) == d.key.as_ref().map(|k| format!("k={k}")), "key", ctx);
    rec.check(show(s.attributes()) == alines(&d.attrs, &["group", "sqn", "cdsc", "cpar", "cparmin", "cparmax"]), "attributes", ctx);
    rec.check(show(s.groups()) == d.attrs.iter().filter(|x| x.0 == "group").map(|x| x.1.clone().unwrap()).collect::<Vec<_>>(), "groups", ctx);
    rec.check(s.capability_set().is_some() == d.attrs.iter().any(|x| x.0 == "sqn"), "capabilities", ctx);
    rec.check(s.find_direction(None).map(|x| x.as_str()) == own_dir(&d.attrs), "session direction", ctx);
    if !rec.check(s.media().len() == d.media.len(), "media count", ctx) {
        return;
    }
    for (i, (m, g)) in d.media.iter().zip(s.media()).enumerate() {
        rec.check(g.media() == m.kind && g.port() == m.port && g.port_count() == m.nports && g.proto() == m.proto && g.fmt() == m.fmts, "media line", ctx);
        rec.check(g.title() == m.title.as_deref() && g.connection().map(|c| c.to_string()) == conn(&m.conn) && show(g.bandwidth()) == bws(&m.bw), "media text", ctx);
        rec.check(g.encryption_key().map(|k| k.to_string()) == m.key.as_ref().map(|k| format!("k={k}")), "media key", ctx);
        let last = |k: &str| m.attrs.iter().filter(|x| x.0 == k).last().and_then(|x| x.1.clone());
        rec.check(g.mid().map(|s| s.to_string()) == last("mid"), "mid", ctx);
        rec.check(g.rtcp().map(|s| s.to_string()) == last("rtcp"), "rtcp", ctx);
        rec.check(g.capability_set().is_some() == last("sqn").is_some(), "media capabilities", ctx);
        let mut without = CAPS.to_vec();
        without.extend(["mid", "rtcp"]);
        rec.check(show(g.attributes()) == alines(&m.attrs, &without), "media attributes", ctx);
        rec.check(s.find_direction(Some(i)).map(|x| x.as_str()) == own_dir(&m.attrs), "direction", ctx);
        let vals = |k: &str| m.attrs.iter().filter(|x| x.0 == k).filter_map(|x| x.1.clone()).collect::<Vec<_>>();
        rec.check(s.find_rtpmaps(i).iter().map(|x| x.to_value()).collect::<Vec<_>>() == vals("rtpmap").into_iter().filter(|v| v.split(' ').next().map(|p| p.parse::<u8>().is_ok()).unwrap_or(false)).collect::<Vec<_>>(), "rtpmaps", ctx);
        let maps: Vec<_> = s.find_rtpmaps(i).iter().map(|p| (p.payload_type(), p.encoding_name().to_string(), p.clock_rate(), p.encoding_params().map(|s| s.to_string()))).collect();
        rec.check(maps == sdp::codecs(&m.attrs), "codecs", ctx);
        rec.check(s.find_fmtps(i).iter().map(|x| format!("{} {}", x.format(), x.params())).collect::<Vec<_>>() == vals("fmtp").into_iter().filter(|v| v.split(' ').next().map(|p| p.len() <= 16).unwrap_or(false)).collect::<Vec<_>>(), "fmtps", ctx);
        let low = |k: &str| vals(k).iter().map(|v| v.to_lowercase()).collect::<Vec<_>>();
        rec.check(show(&s.find_current_status(i)) == low("curr"), "current status", ctx);
        rec.check(show(&s.find_desired_status(i)) == low("des"), "desired status", ctx);
        rec.check(show(&s.find_confirm_status(i)) == low("conf"), "confirm status", ctx);
        met(&s, i, &low("curr"), &low("des"), rec);
        rec.count("media", 1);
    }
    rec.check(s.find_rtpmaps(d.media.len()).is_empty() && s.find_direction(Some(d.media.len())).is_none(), "media past the end", ctx);
    let out = s.to_string();
    rec.sample(|| out.clone());
    rec.check(out == render(&w), "written", || format!("wrote {}\nwant  {}", esc(&out), esc(&render(&w))));
    rec.check(SdpSession::parse(&out).ok().as_ref() == Some(&s), "reread", || esc(&out));
}

/// Every mandatory precondition has reached what it asks for.
fn met(s: &SdpSession, i: usize, curr: &[String], des: &[String], rec: &mut Rec) {
    let bits = |d: &str| match d {
        "send" => 1,
        "recv" => 2,
        "sendrecv" => 3,
        _ => 0,
    };
    let mut want = true;
    for d in des {
        let p: Vec<&str> = d.split(' ').collect();
        if p[1] != "mandatory" {
            continue;
        }
        let now = curr.iter().map(|c| c.split(' ').collect::<Vec<_>>()).find(|c| c[0] == p[0] && c[1] == p[2]);
        match now {
            Some(c) => want &= bits(c[2]) & bits(p[3]) == bits(p[3]),
            // No matching current status: not met, whatever is asked.
            None => want = false,
        }
    }
    if !des.is_empty() {
        rec.count(if want { "preconditions met" } else { "preconditions unmet" }, 1);
    }
    rec.check(s.are_preconditions_met(i) == want, "preconditions", || format!("{curr:?} {des:?}"));
}

fn spoiled(r: &mut Rng, rec: &mut Rec) {
    let d = doc(r);
    let (t, what) = spoil(r, &d, false);
    rec.eval(Some(&t));
    rec.count(&format!("refused: {what}"), 1);
    if let Some(x) = rec.guard("parse", &|| esc(&t), || SdpSession::parse(&t)) {
        rec.check(x.is_err(), "wrong document accepted", || format!("{what}: {}", esc(&t)));
    }
}

/// Lines that say something this reader interprets, spoiled in one place of
/// an otherwise proper description.
fn bad_lines(r: &mut Rng, rec: &mut Rec) {
    let mut d = doc(r);
    if r.chance(1, 3) {
        enrich(r, &mut d);
    }
    if d.media.is_empty() || d.attrs.len() > 90 || d.media.iter().any(|m| m.attrs.len() > 90) {
        return;
    }
    d.attrs.retain(|x| !CAPS.contains(&x.0.as_str()));
    let good = join(&lines(&d), "\r\n");
    // Whether it is rightly refused is for the other streams to say.
    if SdpSession::parse(&good).is_err() {
        rec.count("not a base for spoiling", 1);
        return;
    }
    if r.chance(1, 15) {
        // Neither the session nor one of the media says where to.
        let mut w = d.clone();
        w.conn = None;
        let k = r.below(w.media.len());
        w.media[k].conn = None;
        if r.coin() {
            w.media[k].port = 0;
        }
        let t = join(&lines(&w), "\r\n");
        rec.eval(Some(&t));
        rec.count("no connection", 1);
        if let Some(x) = rec.guard("parse", &|| esc(&t), || SdpSession::parse(&t)) {
            rec.check(x.is_err(), "accepted without a connection", || format!("medium {k} of {}", esc(&t)));
        }
        return;
    }
    let mut l = lines(&d);
    let first_m = l.iter().position(|x| x.starts_with("m=")).unwrap_or(l.len());
    let n = r.range(1, 99);
    // (line, anywhere, in the session's part, in a medium's part)
    let (line, at): (String, u8) = match r.below(25) {
        0 => (r.pick(&["a=group", "a=group:", "a=group:LS", "a=group: "]).to_string(), 0),
        1 => ("a=mid".into(), 1),
        2 => (format!("a={}", r.pick(&["rtcp", "rtcp:", "rtcp:x", "rtcp:65536", "rtcp:-1", "rtcp:1 IN", "rtcp:1 IN IP4", "rtcp:1 IN IP4 h x", "rtcp: "])), 1),
        3 => (format!("a={}", r.pick(&["sqn", "sqn:", "sqn:x", "sqn:256", "sqn:-1", "sqn:1 2", "sqn:1x"])), 2),
        4 => (format!("a={}", r.pick(&["cdsc", "cpar", "cparmin", "cparmax"])), 3),
        5 => (format!("a=cdsc:{}", r.pick(&["", "1", "1 audio", "1 audio RTP/AVP", "0 audio RTP/AVP 0", "256 audio RTP/AVP 0", "x audio RTP/AVP 0", "-1 audio RTP/AVP 0"])), 3),
        // Capabilities need a sequence number.
        6 => (format!("a=cdsc:{n} audio RTP/AVP 0"), 4),
        7 => (format!("a={}:a=fmtp:{n} x", r.pick(&["cpar", "cparmin", "cparmax"])), 4),
        8 => (format!("c={}", r.pick(&["IN IP4 h x", "IN IP4 h 127 1", "IN IP4", "IN", ""])), 2),
        9 => (format!("b={}", r.pick(&["AS:1:2", "AS:", "AS", ":", "AS:+", "AS:1 ", "AS:0x1", "AS:10000001", "AS:-1"])), 2),
        10 => (format!("t={}", r.pick(&["0 0 0", "0 ", "", "0 x", "x 0", "0 -1"])), 0),
        11 => (format!("z={}", r.pick(&["1", "1 0 2", "x 0", "-1 0"])), 0),
        12 => (format!("m=audio {} RTP/AVP 0", r.pick(&["1/2/3", "1/2/", "/1", "1/", "1/x", "1/65536", "1/-1", "65536", "", "1 2"]).replace("1 2", "1/2/2")), 5),
        13 => (format!("m={}", r.pick(&["", "audio", "audio 1", "audio 1 UDP", "audio x UDP 1"])), 5),
        14 => (format!("{}=x", r.pick(&["e", "p", "u", "s", "o", "v", "t", "r", "z", "x", "A"])), 1),
        15 => (r.pick(&["a", "ab", "a:b", "-", "=", "==", "a ="]).to_string(), 2),
        16 => (format!("a={}", "x".repeat(129)), 2),
        17 => (format!("a={}:y", "x".repeat(129)), 2),
        18 => (format!("k={}:x", "x".repeat(65)), 2),
        19 => (format!("a=curr:{}", r.pick(&["", "qos", "qos local", "qos local none x", "qos x none", "qos local x", "qos localnone", "qos local none sendrecv"])), 1),
        20 => (format!("a=des:{}", r.pick(&["", "qos mandatory local", "qos mandatory local none x", "qos x local none", "qos mandatory x none", "qos mandatory local x", "qos local none", "qos none"])), 1),
        21 => (format!("a=conf:{}", r.pick(&["", "qos remote", "qos remote recv x", "qos x recv", "qos remote x"])), 1),
        23 => (r.pick(&["R=604800 3600 0", "T=0 0", "Z=0 0", "C=IN IP4 h", "B=AS:1", "K=clear:x", "I=x", "A=sendrecv", "M=audio 1 UDP 1"]).to_string(), 2),
        22 => (format!("a={}", r.pick(&["curr", "des", "conf"])), 1),
        _ => (format!("i={}", "x".repeat(2049)), 2),
    };
    let into_media = match at {
        0 => false,
        1 | 5 => true,
        _ => r.coin(),
    };
    if line == "==" || line == "=" && into_media {
        return;
    }
    let at_m: Vec<usize> = (0..l.len()).filter(|&i| l[i].starts_with("m=")).collect();
    let i = if at == 5 {
        *r.pick(&at_m) // another medium before this one
    } else if into_media {
        let k = r.below(at_m.len());
        r.range(at_m[k] as i64 + 1, at_m.get(k + 1).copied().unwrap_or(l.len()) as i64) as usize
    } else {
        // After the time lines: there is no order among the others.
        let from = l.iter().rposition(|x| x.starts_with("t=") || x.starts_with("r=")).unwrap();
        r.range(from as i64 + 1, first_m as i64) as usize
    };
    if at == 3 || at == 4 {
        // The part may have no number of its own for this to be a fault.
        let (from, to) = if into_media {
            let k = at_m.iter().rposition(|&m| m < i).unwrap();
            (at_m[k], at_m.get(k + 1).copied().unwrap_or(l.len()))
        } else {
            (0, first_m)
        };
        let has = l[from..to].iter().any(|x| x.starts_with("a=sqn:"));
        if at == 4 && has {
            return;
        }
        if at == 3 && !has {
            l.insert(i, format!("a=sqn:{n}"));
        }
    }
    l.insert(i, line.clone());
    let t = join(&l, "\r\n");
    rec.eval(Some(&t));
    rec.count("spoiled lines", 1);
    if let Some(x) = rec.guard("parse", &|| esc(&t), || SdpSession::parse(&t)) {
        if ["a=curr", "a=des", "a=conf"].iter().any(|x| line.starts_with(x)) {
            // Read on request only; a wrong one says nothing.
            let (Ok(x), Ok(y)) = (x, SdpSession::parse(&good)) else { return };
            for i in 0..y.media().len() {
                let v = |s: &SdpSession| (s.find_current_status(i), s.find_desired_status(i), s.find_confirm_status(i));
                rec.check(v(&x) == v(&y), "wrong status line read", || format!("{line:?} gives {:?} not {:?}", v(&x), v(&y)));
            }
            return;
        }
        if line.as_bytes().first().map_or(false, |b| b.is_ascii_uppercase()) {
            // A type nobody knows: the description is refused, or says the same.
            if let Ok(x) = x {
                rec.check(SdpSession::parse(&good).as_ref() == Ok(&x), "unknown line read", || format!("{line:?} in {}", esc(&t)));
            }
            return;
        }
        rec.check(x.is_err(), "wrong line accepted", || format!("{line:?} in {}", esc(&t)));
    }
}

fn damaged(r: &mut Rng, rec: &mut Rec) {
    let mut d = doc(r);
    enrich(r, &mut d);
    let mut b = render(&d).into_bytes();
    match r.below(4) {
        0 => {
            let mut l = lines(&d);
            for _ in 0..r.range(1, 4) {
                let (i, j) = (r.below(l.len()), r.below(l.len()));
                match r.below(3) {
                    0 => l.swap(i, j),
                    1 => {
                        let x = l[i].clone();
                        l.insert(j, x);
                    }
                    _ => {
                        if l.len() > 1 {
                            l.remove(i);
                        }
                    }
                }
            }
            b = join(&l, "\r\n").into_bytes();
        }
        1 => {
            let mut l = lines(&d);
            for _ in 0..r.range(1, 4) {
                let i = r.below(l.len());
                let at = r.below(l[i].chars().count() + 1);
                let ins = *r.pick(&["\r", "\n", " ", "\t", "\0", "\u{85}", "\u{2028}", "\u{a0}", ":", "/", "=", "\r\n", "\u{e9}", "0", "99999999999999999999"]);
                let s: String = l[i].chars().take(at).chain(ins.chars()).chain(l[i].chars().skip(at)).collect();
                l[i] = s;
            }
            b = join(&l, *r.pick(&["\r\n", "\n", "\r"])).into_bytes();
        }
        2 => {
            let k = r.range(1, 6) as usize;
            r.mutate(&mut b, k);
        }
        _ => b = r.nasty(0, 200).into_bytes(),
    }
    let t = String::from_utf8_lossy(&b).into_owned();
    rec.eval(Some(&t));
    let s = match rec.guard("parse", &|| esc(&t), || SdpSession::parse(&t)) {
        Some(Ok(s)) => s,
        _ => {
            rec.count("damaged refused", 1);
            return;
        }
    };
    rec.count("damaged accepted", 1);
    let out = s.to_string();
    for i in 0..s.media().len() {
        let _ = rec.guard("views", &|| esc(&t), || (s.find_rtpmaps(i), s.find_fmtps(i), s.are_preconditions_met(i), s.find_confirm_status(i)));
    }
    // Written text has one line per field and no stray controls.
    let bad = out.replace("\r\n", "").chars().find(|c| c.is_control() && *c != '\t');
    rec.check(bad.is_none(), "control character written", || format!("{bad:?} {} from {}", esc(&out), esc(&t)));
    match SdpSession::parse(&out) {
        Ok(x) => {
            rec.check(x == s, "reread differs", || format!("{} from {}", esc(&out), esc(&t)));
        }
        Err(e) => rec.violate("own text refused", format!("{e} {} from {}", esc(&out), esc(&t))),
    }
}

/// One more than each documented bound is refused; the bound itself is not.
fn limits(r: &mut Rng, rec: &mut Rec) {
    let over = r.coin();
    let extra = over as usize;
    let x = |n: usize| "x".repeat(n + extra);
    let head = |name: &str| format!("v=0\r\no=- 1 1 IN IP4 h\r\ns={name}\r\n");
    let rep = |l: &str, n: usize| l.repeat(n + extra);
    let med = "m=audio 1 RTP/AVP 0\r\n";
    let c = "c=IN IP4 h\r\n";
    let k = r.below(48);
    let mut z = Vec::new();
    let mut left = 50 + extra;
    while left > 0 {
        let n = r.range(1, left as i64) as usize;
        z.push(format!("z={}\r\n", "1 2 ".repeat(n).trim()));
        left -= n;
    }
    let mut reps = String::new();
    for i in 0..10 + extra {
        if i == 0 || r.chance(1, 3) && reps.matches("t=").count() < 9 {
            reps += "t=0 0\r\n";
        }
        reps += "r=1 2 3\r\n";
    }
    let (what, t) = match k {
        0 => ("user", format!("v=0\r\no={} 1 1 IN IP4 h\r\ns=-\r\nt=0 0\r\n", x(255))),
        1 => ("session id", format!("v=0\r\no=- {} 1 IN IP4 h\r\ns=-\r\nt=0 0\r\n", x(64))),
        2 => ("session version", format!("v=0\r\no=- 1 {} IN IP4 h\r\ns=-\r\nt=0 0\r\n", x(64))),
        3 => ("network", format!("v=0\r\no=- 1 1 {} IP4 h\r\ns=-\r\nt=0 0\r\n", x(16))),
        4 => ("address type", format!("v=0\r\no=- 1 1 IN {} h\r\ns=-\r\nt=0 0\r\n", x(16))),
        5 => ("address", format!("v=0\r\no=- 1 1 IN IP4 {}\r\ns=-\r\nt=0 0\r\n", x(255))),
        6 => ("name", format!("{}t=0 0\r\n", head(&x(1024)))),
        7 => ("information", format!("{}i={}\r\nt=0 0\r\n", head("-"), x(2048))),
        8 => ("uri", format!("{}u={}\r\nt=0 0\r\n", head("-"), x(2048))),
        9 => ("email", format!("{}e={}\r\nt=0 0\r\n", head("-"), x(320))),
        10 => ("phone", format!("{}p={}\r\nt=0 0\r\n", head("-"), x(32))),
        11 => ("emails", format!("{}{}t=0 0\r\n", head("-"), rep("e=a\r\n", 10))),
        12 => ("phones", format!("{}{}t=0 0\r\n", head("-"), rep("p=a\r\n", 10))),
        13 => ("bandwidths", format!("{}{}t=0 0\r\n", head("-"), rep("b=AS:1\r\n", 20))),
        14 => ("times", format!("{}{}", head("-"), rep("t=0 0\r\n", 10))),
        15 => ("repeats", format!("{}t=0 0\r\n{}", head("-"), rep("r=1 2 3\r\n", 10))),
        16 => ("zones", format!("{}t=0 0\r\nz={}\r\n", head("-"), rep("1 2 ", 50).trim())),
        17 => ("attributes", format!("{}t=0 0\r\n{}", head("-"), rep("a=x\r\n", 100))),
        18 => ("media attributes", format!("{}{c}t=0 0\r\n{med}{}", head("-"), rep("a=x\r\n", 100))),
        19 => ("media", format!("{}{c}t=0 0\r\n{}", head("-"), rep(med, 50))),
        20 => ("formats", format!("{}{c}t=0 0\r\nm=audio 1 RTP/AVP{}\r\n", head("-"), rep(" 0", 128))),
        21 => ("format", format!("{}{c}t=0 0\r\nm=audio 1 UDP {}\r\n", head("-"), x(16))),
        22 => ("media type", format!("{}{c}t=0 0\r\nm={} 1 UDP x\r\n", head("-"), x(32))),
        23 => ("protocol", format!("{}{c}t=0 0\r\nm=audio 1 {} x\r\n", head("-"), x(64))),
        24 => ("groups", format!("{}t=0 0\r\n{}", head("-"), rep("a=group:LS 1\r\n", 20))),
        25 => ("mids", format!("{}t=0 0\r\na=group:LS{}\r\n", head("-"), rep(" 1", 50))),
        26 => ("mid", format!("{}t=0 0\r\na=group:LS {}\r\n", head("-"), x(64))),
        27 => ("attribute name", format!("{}t=0 0\r\na={}\r\n", head("-"), x(128))),
        28 => ("attribute value", format!("{}t=0 0\r\na=x:{}\r\n", head("-"), x(4096))),
        29 => ("key", format!("{}t=0 0\r\nk=clear:{}\r\n", head("-"), x(1024))),
        30 => ("bandwidth", format!("{}b=AS:{}\r\nt=0 0\r\n", head("-"), 10_000_000 + extra)),
        31 => ("bandwidth type", format!("{}b={}:1\r\nt=0 0\r\n", head("-"), x(32))),
        32 => ("media bandwidths", format!("{}{c}t=0 0\r\n{med}{}", head("-"), rep("b=AS:1\r\n", 20))),
        33 => ("offsets", format!("{}t=0 0\r\nr=1 2{}\r\n", head("-"), rep(" 3", 50))),
        34 => ("capabilities", format!("{}t=0 0\r\na=sqn:1\r\n{}", head("-"), rep("a=cdsc:1 audio RTP/AVP 0\r\n", 50))),
        36 => ("zones over lines", format!("{}t=0 0\r\n{}", head("-"), z.concat())),
        37 => ("repeats over times", format!("{}{reps}", head("-"))),
        38 => ("groups and attributes", format!("{}t=0 0
a=group:LS 1
{}", head("-"), rep("a=x
", 99))),
        39 => ("media capabilities", format!("{}{c}t=0 0\r\n{med}a=sqn:1\r\n{}", head("-"), rep("a=cdsc:1 audio RTP/AVP 0\r\n", 50))),
        40 => ("capability formats", format!("{}t=0 0\r\na=sqn:1\r\na=cdsc:1 audio RTP/AVP{}\r\n", head("-"), rep(" 0", 128))),
        41 => ("capability format", format!("{}t=0 0\r\na=sqn:1\r\na=cdsc:1 audio RTP/AVP {}\r\n", head("-"), x(16))),
        42 => ("capability medium", format!("{}t=0 0\r\na=sqn:1\r\na=cdsc:1 {} RTP/AVP 0\r\n", head("-"), x(32))),
        43 => ("connection address", format!("{}c=IN IP4 {}\r\nt=0 0\r\n", head("-"), x(255))),
        44 => ("key method", format!("{}t=0 0\r\nk={}\r\n", head("-"), x(64))),
        45 => ("repeat interval", format!("{}t=0 0\r\nr={} 2 3\r\n", head("-"), x(16))),
        46 => ("repeat offset", format!("{}t=0 0\r\nr=1 2 3 {}\r\n", head("-"), x(16))),
        47 => ("zone offset", format!("{}t=0 0\r\nz=1 {}\r\n", head("-"), x(16))),
        _ => ("media title", format!("{}{c}t=0 0\r\n{med}i={}\r\n", head("-"), x(2048))),
    };
    rec.eval(Some(&(k, over)));
    rec.count(&format!("bound: {what}"), 1);
    let got = SdpSession::parse(&t);
    rec.check(got.is_err() == over, "bound", || format!("{what} over={over} -> {:?}", got.as_ref().err()));
    // Control characters are refused wherever text goes.
    let ctl = *r.pick(&["\0", "\r", "\u{1}", "\u{7f}", "\u{1b}", "\u{8}"]);
    let (w, t) = match r.below(9) {
        0 => ("name", format!("{}t=0 0\r\n", head(&format!("a{ctl}b")))),
        1 => ("information", format!("{}i=a{ctl}b\r\nt=0 0\r\n", head("-"))),
        2 => ("uri", format!("{}u=a{ctl}b\r\nt=0 0\r\n", head("-"))),
        3 => ("email", format!("{}e=a{ctl}b\r\nt=0 0\r\n", head("-"))),
        4 => ("attribute", format!("{}t=0 0\r\na=a{ctl}b\r\n", head("-"))),
        5 => ("attribute value", format!("{}t=0 0\r\na=a:a{ctl}b\r\n", head("-"))),
        6 => ("key", format!("{}t=0 0\r\nk=a{ctl}b\r\n", head("-"))),
        7 => ("title", format!("{}{c}t=0 0\r\n{med}i=a{ctl}b\r\n", head("-"))),
        _ => ("phone", format!("{}p=a{ctl}b\r\nt=0 0\r\n", head("-"))),
    };
    rec.check(SdpSession::parse(&t).is_err(), "control character accepted", || format!("{w} {}", esc(&t)));
    // An address is needed for the session or for every medium.
    let n = r.range(1, 6) as usize;
    let miss = r.below(n + 1);
    let at_session = r.coin();
    let mut t = format!("{}{}t=0 0\r\n", head("-"), if at_session { c } else { "" });
    for i in 0..n {
        t += med;
        if i != miss {
            t += c;
        }
    }
    rec.check(SdpSession::parse(&t).is_ok() == (at_session || miss == n), "address requirement", || esc(&t));
}

fn main() {
    let mut c = Ctx::new("S03", "a session description holds exactly what its text says and is written back as that text");
    let n = c.n(50_000, 1_000_000);
    c.run("documents", n, document);
    c.run("damaged", n * 2, damaged);
    c.run("spoiled", n / 2, spoiled);
    c.run("spoiled lines", n / 2, bad_lines);
    let n = c.n(10_000, 100_000);
    c.run("bounds", n, limits);
    c.finish()
}
