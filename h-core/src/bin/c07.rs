//! C07: enforcing a caller's privacy request removes what identifies the
//! caller and leaves the rest of the message alone.
use h_core::*;
use sip_core::*;

const KNOWN: [&str; 6] = ["none", "header", "session", "user", "id", "critical"];
const REMOVED: [&str; 7] = ["Subject", "Call-Info", "Organization", "User-Agent", "Reply-To", "In-Reply-To", "Server"];

fn secret(r: &mut Rng) -> String {
    format!("zq{}qz", r.string("abcdefghijklmnopqrstuvwxyz0123456789", 3, 8))
}
/// what is not secret has no 'z'
fn noz(s: String) -> String {
    s.replace('z', "y")
}
fn case(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_ascii_lowercase(),
        1 => s.to_ascii_uppercase(),
        _ => s.to_string(),
    }
}
/// an address whose display name, user and host all carry the secret
fn addr(r: &mut Rng, params: &str, addr_spec_ok: bool) -> String {
    let (a, b, c) = (secret(r), secret(r), secret(r));
    let scheme = if r.chance(1, 4) { "sips" } else { "sip" };
    let up = match r.below(4) {
        0 => format!(";transport={a}"),
        1 => format!(";user={a}?Subject={b}"),
        _ => String::new(),
    };
    match r.below(6) {
        0 if addr_spec_ok => format!("{scheme}:{a}@{b}.example{params}"),
        1 => format!("<{scheme}:{a}:{c}@{b}.example{up}>{params}"),
        2 => format!("{a} {c} <{scheme}:{a}@{b}.example{up}>{params}"),
        3 => format!("\"{a};tag=1 <{b}>, \\\"{c}\\\\\" <{scheme}:{a}@{b}.example{up}>{params}"),
        4 if r.coin() => format!("\"<{a}>;tag={c}>, {b}\" <{scheme}:{a}@{b}.example{up}>{params}"),
        4 => format!("\"{a}\\\";tag=x\" <tel:+1555{b}>{params}"),
        _ => format!("\"{a}\" <{scheme}:{a}@{b}.example{up}>{params}"),
    }
}
fn params(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(4) {
        let n = noz(r.token(1, 6));
        s.push_str(match r.below(3) {
            0 => " ;",
            _ => ";",
        });
        s.push_str(&n);
        match r.below(4) {
            0 => {}
            1 => s.push_str("=\"a;b,<c>\\\"d\""),
            _ => {
                s.push('=');
                s.push_str(&noz(r.token(1, 8)));
            }
        }
    }
    s
}

#[derive(Clone, Debug)]
struct Row {
    canon: &'static str,
    name: String,
    short: String,
    value: String,
    params: String,
}
fn row(r: &mut Rng, canon: &'static str, value: String, params: String) -> Row {
    // short names are expanded by the parser, so only the wire form has them
    let compact = match canon {
        "From" => Some("f"),
        "Contact" => Some("m"),
        "Subject" => Some("s"),
        "To" => Some("t"),
        "Via" => Some("v"),
        "Call-ID" => Some("i"),
        _ => None,
    };
    let name = case(r, canon);
    let short = match (compact, r.below(3)) {
        (Some(c), 0) => case(r, c),
        _ => name.clone(),
    };
    Row { canon, name, short, value, params }
}

fn gen_rows(r: &mut Rng) -> Vec<Row> {
    let mut v = vec![];
    for _ in 0..r.range(1, 3) {
        let h = format!("SIP/2.0/UDP h{}.example;branch=z9hG4bK{}", r.below(99), noz(r.alnum(4, 9)));
        v.push(row(r, "Via", h, String::new()));
    }
    if r.chance(39, 40) {
        let mut p = params(r);
        p.push_str(&format!(";tag={}", noz(r.alnum(1, 10))));
        let a = addr(r, &p, true);
        v.push(row(r, "From", a, p));
    }
    let t = format!("<sip:callee{}@other.example>", r.below(99));
    v.push(row(r, "To", t, String::new()));
    let c = noz(r.alnum(3, 12));
    v.push(row(r, "Call-ID", c, String::new()));
    v.push(row(r, "CSeq", "1 INVITE".into(), String::new()));
    for _ in 0..r.below(3) {
        let p = params(r);
        let mut a = addr(r, &p, true);
        // several contacts on one line
        for _ in 0..[0, 0, 1, 2][r.below(4)] {
            let q = params(r);
            a.push_str(if r.coin() { ", " } else { "," });
            a.push_str(&addr(r, &q, true));
        }
        v.push(row(r, "Contact", a, p));
    }
    for h in REMOVED {
        for _ in 0..[0, 1, 1, 2][r.below(4)] {
            let s = match h {
                "Reply-To" => addr(r, "", true),
                _ => secret(r),
            };
            v.push(row(r, h, s, String::new()));
        }
    }
    for h in ["P-Asserted-Identity", "P-Preferred-Identity"] {
        for _ in 0..[0, 1, 1, 2][r.below(4)] {
            let s = addr(r, "", true);
            v.push(row(r, h, s, String::new()));
        }
    }
    for _ in 0..r.below(4) {
        let h = *r.pick(&["Max-Forwards", "X-Subject", "Supported", "Route", "Record-Route", "Allow", "Privacy", "Content-Type", "Contact-Info", "Froms"]);
        let s = match h {
            "Max-Forwards" => "70".to_string(),
            "Content-Type" => "text/plain".to_string(),
            "Route" | "Record-Route" => "<sip:p1.example;lr>".to_string(),
            "Privacy" => "id".to_string(),
            _ => noz(r.token(1, 8)),
        };
        if ["Max-Forwards", "Content-Type"].contains(&h) && v.iter().any(|w: &Row| w.canon == h) {
            continue;
        }
        v.push(row(r, h, s, String::new()));
    }
    if r.coin() {
        r.shuffle(&mut v);
    }
    v
}

fn gen_privacy(r: &mut Rng) -> (Vec<&'static str>, String) {
    let mut vals: Vec<&'static str> = vec![];
    if r.chance(1, 8) {
        vals.push("none");
    } else {
        let most = *r.pick(&[4, 4, 9]);
        for _ in 0..r.range(1, most) {
            vals.push(KNOWN[r.range(1, 5) as usize]);
        }
    }
    let text = vals
        .iter()
        .map(|v| {
            let w = case(r, v);
            match r.below(4) {
                0 => format!(" {w} "),
                _ => w,
            }
        })
        .collect::<Vec<_>>()
        .join(";");
    (vals, text)
}

/// Split at a comma outside quotes and angle brackets.
fn commas(s: &str) -> usize {
    let (mut q, mut a, mut e, mut n) = (false, false, false, 0);
    for c in s.chars() {
        if e {
            e = false;
            continue;
        }
        match c {
            '\\' if q => e = true,
            '"' => q = !q,
            '<' if !q => a = true,
            '>' if !q => a = false,
            ',' if !q && !a => n += 1,
            _ => {}
        }
    }
    n
}
/// header parameters in an anonymous address, blanks around ';' dropped
fn after_angle(s: &str) -> Option<String> {
    let i = s.find("<sip:anonymous@anonymous.invalid>")?;
    Some(s[i + "<sip:anonymous@anonymous.invalid>".len()..].to_string())
}

fn main() {
    let mut c = Ctx::new("C07", "enforce_privacy on generated messages: every identity-bearing part carries a secret marker that must be gone afterwards, everything else must be as it was; privacy values against a model of the header");
    c.assume("From and Contact values of at most 1024 bytes; header parameters of From and Contact are not secret; unquoted display names hold no ';'");
    c.run("enforce", c.n(150_000, 2_000_000), |r, rec| {
        let rows = gen_rows(r);
        let (vals, text) = gen_privacy(r);
        let mut h = Headers::new();
        let wire = r.coin();
        if wire {
            // the way a proxy gets them
            let mut m = String::from("INVITE sip:callee@other.example SIP/2.0\r\n");
            for w in &rows {
                m.push_str(&format!("{}: {}\r\n", w.short, w.value));
            }
            m.push_str("Content-Length: 0\r\n\r\n");
            let Some(q) = sip_parse::parse_request(&bytes::Bytes::from(m.clone())) else {
                rec.eval(Some("refused by the parser"));
                return;
            };
            h = q.headers().clone();
            h.remove("Content-Length");
        } else {
            for w in &rows {
                if h.push(&w.name, &w.value).is_err() {
                    rec.violate("push", format!("{w:?}"));
                    return;
                }
            }
        }
        let Ok(p) = PrivacyHeader::parse(&text) else {
            rec.violate("parse-refused", text);
            return;
        };
        let input = format!("{text:?} {rows:?}");
        let has = |x: &str| vals.contains(&x);
        let (hdr, ident) = (has("header") || has("user"), has("id") || has("user"));
        rec.check(p.requires_header_privacy() == hdr && p.requires_identity_anonymization() == ident && p.requires_session_privacy() == (has("session") || has("user")) && p.is_critical() == has("critical") && p.is_none() == has("none"), "flags", || input.clone());
        let long = rows.iter().any(|w| w.value.len() > 1024);
        let Some(res) = rec.guard("enforce", &|| input.clone(), || enforce_privacy(&mut h, &p)) else { return };
        if let Err(e) = &res {
            rec.check(long, "enforce-refused", || format!("{e} for {input}"));
            return;
        }
        let out: Vec<(String, String)> = h.iter().map(|x| (x.name().to_string(), x.value().to_string())).collect();
        rec.eval(Some(&input));
        rec.sample(|| format!("{input} -> {out:?}"));
        // untouched rows, in order
        let touched = |canon: &str| {
            (hdr && REMOVED.contains(&canon)) || (ident && ["From", "Contact", "P-Asserted-Identity", "P-Preferred-Identity"].contains(&canon))
        };
        let want: Vec<(String, String)> = rows.iter().filter(|w| !touched(w.canon)).map(|w| (w.name.clone(), w.value.trim().to_string())).collect();
        let is_anon = |n: &str| ident && ["from", "contact"].contains(&n.to_ascii_lowercase().as_str());
        let got: Vec<(String, String)> = out.iter().filter(|(n, _)| !is_anon(n)).cloned().collect();
        rec.check(got.iter().map(|x| (x.0.to_ascii_lowercase(), &x.1)).collect::<Vec<_>>() == want.iter().map(|x| (x.0.to_ascii_lowercase(), &x.1)).collect::<Vec<_>>(), "rest-changed", || format!("{input}: rest is {got:?}, want {want:?}"));
        if ident {
            for canon in ["From", "Contact"] {
                let before: Vec<&Row> = rows.iter().filter(|w| w.canon == canon).collect();
                let after: Vec<&String> = out.iter().filter(|(n, _)| n.eq_ignore_ascii_case(canon)).map(|x| &x.1).collect();
                rec.check(before.is_empty() == after.is_empty(), "presence", || format!("{canon}: {input} -> {out:?}"));
                for v in &after {
                    rec.check(!v.contains('z'), "identity-left", || format!("{canon}: {v:?} from {input}"));
                    let Some(ps) = after_angle(v) else {
                        rec.violate("not-anonymous", format!("{canon}: {v:?} from {input}"));
                        continue;
                    };
                    if before.len() == 1 && commas(&before[0].value) == 0 {
                        rec.check(ps.trim() == before[0].params.trim(), "params-lost", || format!("{canon}: {v:?} from {input}"));
                    }
                }
            }
            // doing it again changes nothing
            let mut h2 = h.clone();
            if enforce_privacy(&mut h2, &p).is_ok() {
                let mut a: Vec<String> = h2.iter().map(|x| format!("{}:{}", x.name(), x.value())).collect();
                let mut b: Vec<String> = h.iter().map(|x| format!("{}:{}", x.name(), x.value())).collect();
                a.sort();
                b.sort();
                rec.check(a == b, "not-stable", || input.clone());
            }
        }
        // whatever was to go is nowhere in the message
        for w in rows.iter().filter(|w| touched(w.canon)) {
            for part in w.value.split(|c: char| !c.is_ascii_alphanumeric()) {
                if part.len() >= 7 && part.starts_with("zq") && part.ends_with("qz") {
                    let kept = rows.iter().any(|x| !touched(x.canon) && x.value.contains(part));
                    rec.check(kept || !out.iter().any(|(_, v)| v.contains(part)), "secret-left", || format!("{part} of {} in {out:?} from {input}", w.canon));
                }
            }
        }
    });
    c.run("values", c.n(150_000, 2_000_000), |r, rec| {
        let mut parts: Vec<String> = vec![];
        for _ in 0..[1, 1, 2, 3, 5, 12][r.below(6)] {
            parts.push(match r.below(12) {
                0 => String::new(),
                1 => r.token(1, 8),
                2 => r.nasty(0, 5),
                _ => {
                    let k = *r.pick(&KNOWN);
                    let w = case(r, k);
                    match r.below(3) {
                        0 => format!(" {w}\t"),
                        _ => w,
                    }
                }
            });
        }
        let mut text = parts.join(";");
        if r.chance(1, 30) {
            text.push_str(&" ".repeat(r.below(300)));
        }
        let Some(got) = rec.guard("parse", &|| text.clone(), || PrivacyHeader::parse(&text)) else { return };
        let toks: Vec<String> = text.split(';').map(|x| x.trim().to_lowercase()).filter(|x| !x.is_empty()).collect();
        let known = toks.iter().all(|t| KNOWN.contains(&t.as_str()));
        let valid = text.len() <= 256 && known && !toks.is_empty() && toks.len() <= 10 && (toks.len() == 1 || !toks.iter().any(|t| t == "none"));
        rec.eval(Some(&text));
        rec.check(got.is_ok() == valid, "accepts", || format!("{text:?}: {got:?}, want ok={valid}"));
        let mut h = Headers::new();
        if h.push("Privacy", &text).is_ok() {
            let want = valid && toks[0] != "none";
            rec.check(requires_privacy_enforcement(&h) == want, "requires", || format!("{text:?}"));
        }
        if let Ok(p) = got {
            let vs: Vec<String> = p.values().map(|v| v.as_str().to_string()).collect();
            rec.check(vs == toks, "values", || format!("{text:?}: {vs:?}"));
            let again = PrivacyHeader::parse(&p.to_string());
            rec.check(again.as_ref() == Ok(&p), "roundtrip", || format!("{text:?}: {p}"));
        }
    });
    c.finish()
}
