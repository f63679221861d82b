//! What only the SIP core's SDP reader knows about.
use crate::*;

pub fn a(n: &str, v: String) -> Attr {
    (n.into(), Some(v))
}

fn caps(r: &mut Rng, at: &mut Vec<Attr>) {
    at.push(a("sqn", format!("{}", r.below(256))));
    for i in 0..r.below(4) {
        at.push(a("cdsc", format!("{} {} {} {}", i + 1, r.pick(&["audio", "video", "image"]), r.pick(&["RTP/AVP", "udptl"]), r.pick(&["0", "0 8 96", "t38"]))));
    }
    for _ in 0..r.below(4) {
        at.push(a(*r.pick(&["cpar", "cparmin", "cparmax"]), format!("a={}", text(r, 30))));
    }
}

/// Adds what only this reader knows about.
pub fn enrich(r: &mut Rng, d: &mut Doc) {
    if r.chance(1, 3) {
        d.emails = (0..r.below(11)).map(|i| format!("j{i}@example.com (J {i})")).collect();
        d.phones = (0..r.below(11)).map(|i| format!("+1 617 555-60{i}")).collect();
    }
    for _ in 0..if r.chance(1, 4) { r.below(21) } else { r.below(3) } {
        let sem = *r.pick(&["LS", "FID", "SRF", "BUNDLE", "X-a"]);
        let mids: Vec<String> = (0..r.range(1, 5)).map(|_| r.alnum(1, 6)).collect();
        d.attrs.push(a("group", format!("{sem} {}", mids.join(" "))));
    }
    if r.chance(1, 4) {
        caps(r, &mut d.attrs);
    }
    if r.coin() {
        r.shuffle(&mut d.attrs);
    }
    for m in &mut d.media {
        // Format tokens are bounded at 16 characters here.
        for f in &mut m.fmts {
            f.truncate(16);
        }
        if r.coin() {
            for _ in 0..r.range(1, 3) {
                m.attrs.push(a("mid", r.alnum(1, 6)));
            }
        }
        if r.coin() {
            m.attrs.push(a("rtcp", if r.coin() { format!("{}", r.below(65536)) } else { format!("{} IN IP4 192.0.2.9", r.below(65536)) }));
        }
        if r.chance(1, 5) {
            caps(r, &mut m.attrs);
        }
        if r.chance(1, 3) {
            preconditions(r, m);
        }
        if r.coin() {
            r.shuffle(&mut m.attrs);
        }
    }
}

fn case(r: &mut Rng, s: &str) -> String {
    if r.chance(1, 10) {
        s.to_uppercase()
    } else {
        s.into()
    }
}

const PDIR: &[&str] = &["send", "recv", "sendrecv", "none"];

fn preconditions(r: &mut Rng, m: &mut Med) {
    for t in ["qos", "sec"] {
        for s in ["e2e", "local", "remote"] {
            if r.chance(2, 3) {
                m.attrs.push(a("curr", format!("{} {} {}", t, case(r, s), case(r, r_dir(m)))));
                let k = m.attrs.len() - 1;
                let d = *r.pick(PDIR);
                m.attrs[k].1 = Some(format!("{t} {} {}", case(r, s), case(r, d)));
            }
            if r.chance(1, 3) {
                let st = *r.pick(&["mandatory", "optional", "none", "failure", "unknown"]);
                let d = *r.pick(PDIR);
                m.attrs.push(a("des", format!("{t} {} {} {}", case(r, st), case(r, s), case(r, d))));
            }
            if r.chance(1, 6) {
                let d = *r.pick(PDIR);
                m.attrs.push(a("conf", format!("{t} {s} {d}")));
            }
        }
    }
}
fn r_dir(_m: &Med) -> &'static str {
    "none"
}

/// Attributes in the order the writer gives them.
pub fn order(at: &[Attr], session: bool) -> Vec<Attr> {
    let last = |k: &str| at.iter().filter(|x| x.0 == k).last().cloned();
    let all = |k: &[&str]| at.iter().filter(|x| k.contains(&x.0.as_str())).cloned().collect::<Vec<_>>();
    let mut special = vec!["sqn", "cdsc", "cpar", "cparmin", "cparmax"];
    let mut c: Vec<Attr> = last("sqn").into_iter().collect();
    c.extend(all(&["cdsc"]));
    c.extend(all(&["cpar", "cparmin", "cparmax"]));
    let mut o = vec![];
    if session {
        special.push("group");
    } else {
        special.extend(["mid", "rtcp"]);
        o.extend(last("mid"));
        o.extend(last("rtcp"));
        o.extend(c.clone());
    }
    o.extend(at.iter().filter(|x| !special.contains(&x.0.as_str())).cloned());
    if session {
        o.extend(c);
        o.extend(all(&["group"]));
    }
    o
}
