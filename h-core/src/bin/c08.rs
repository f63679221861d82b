//! C08: text bodies (CPIM messages, message-waiting summaries, message
//! fragments) say on the wire what was put in and read back as it.
use h_core::*;
use sip_core::*;
use std::collections::BTreeMap;

/// no blanks at either end
fn tight(s: String) -> String {
    s.trim().to_string()
}
/// free text; `ctl` allows control characters
fn text(r: &mut Rng, lo: usize, hi: usize, ctl: bool) -> String {
    let n = r.range(lo as i64, hi as i64);
    (0..n)
        .map(|_| match r.below(14) {
            0 => *r.pick(&['é', '中', '😀', '\u{a0}', 'ß']),
            1 => *r.pick(&['"', '\\', ';', ':', '=', ',', '<', '>', '\'', '/', '(', ')']),
            2 if ctl => *r.pick(&['\n', '\r', '\t', '\x08', '\0', '\x1b', '\x7f', '\u{85}', '\u{9f}']),
            3 => ' ',
            _ => r.alnum(1, 1).chars().next().unwrap(),
        })
        .collect()
}
fn one_line(r: &mut Rng, lo: usize, hi: usize) -> String {
    tight(text(r, lo, hi, false))
}

#[derive(Clone, Debug, PartialEq, Default)]
struct Cpim {
    /// name -> values in order, each with its parameters
    headers: BTreeMap<String, Vec<(String, BTreeMap<String, String>)>>,
    ctype: String,
    content: BTreeMap<String, String>,
    body: String,
}
const NAME: &str = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-._!";
fn param_value(r: &mut Rng) -> String {
    r.string("abcdefghijklmnopqrstuvwxyzABC0123456789-_.<>/:@,'", 0, 8)
}
fn body(r: &mut Rng) -> String {
    let mut b = String::new();
    for _ in 0..r.below(6) {
        match r.below(7) {
            0 => b.push_str("\r\n\r\n"),
            1 => b.push_str("\n\n"),
            2 => b.push_str(r.pick(&["\r\n", "\n", "\r", " ", "\t"])),
            3 => b.push_str("Content-type: text/html\r\n\r\n"),
            _ => b.push_str(&text(r, 0, 20, true)),
        }
    }
    b
}
fn gen_cpim(r: &mut Rng, ctl: bool) -> Cpim {
    let mut m = Cpim { ctype: r.pick(&["text/plain", "text/plain; charset=utf-8", "text/xml", "multipart/mixed; boundary=\"a b\""]).to_string(), ..Default::default() };
    for _ in 0..r.below(7) {
        let n = if r.chance(2, 3) { r.pick(&["From", "To", "cc", "DateTime", "Subject", "NS", "Require", "MyFeatures.Vip"]).to_string() } else { r.string(NAME, 1, 10) };
        let v = tight(text(r, 0, 20, ctl));
        let mut p = BTreeMap::new();
        for _ in 0..[0, 0, 1, 3][r.below(4)] {
            p.insert(r.string(NAME, 1, 6), param_value(r));
        }
        m.headers.entry(n).or_default().push((v, p));
    }
    for _ in 0..r.below(3) {
        let n = if r.coin() { r.pick(&["Content-ID", "Content-Disposition", "Content-Transfer-Encoding"]).to_string() } else { r.string(NAME, 1, 8) };
        if !n.eq_ignore_ascii_case("content-type") {
            m.content.insert(n, one_line(r, 0, 16));
        }
    }
    m.body = body(r);
    m
}
fn read_cpim(m: &CpimMessage) -> Cpim {
    Cpim {
        headers: m
            .headers()
            .iter()
            .map(|(n, v)| (n.to_string(), v.iter().map(|h| (h.value().to_string(), h.params().iter().map(|(a, b)| (a.to_string(), b.to_string())).collect())).collect()))
            .collect(),
        ctype: m.content_type().to_string(),
        content: m.content_headers().iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(),
        body: String::from_utf8_lossy(m.body()).into_owned(),
    }
}
/// RFC 3862 escapes
fn cpim_escape(r: &mut Rng, v: &str) -> String {
    let mut o = String::new();
    for c in v.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '"' => o.push_str(if r.coin() { "\\\"" } else { "\"" }),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            '\x08' => o.push_str("\\b"),
            c if c.is_control() || ((c as u32) < 0xd800 && r.chance(1, 20)) => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
fn cpim_wire(r: &mut Rng, m: &Cpim) -> String {
    let nl = if r.chance(2, 3) { "\r\n" } else { "\n" };
    let mut o = String::new();
    o.push_str(r.pick(&["Content-type: Message/CPIM", "Content-Type: message/cpim", "CONTENT-TYPE:Message/CPIM"]));
    o.push_str(nl);
    if r.chance(1, 4) {
        o.push_str("Content-ID: <1@x>");
        o.push_str(nl);
    }
    o.push_str(nl);
    let mut rows: Vec<(String, String, BTreeMap<String, String>)> = vec![];
    // names may come in any order, the values of one name in theirs
    let mut left: Vec<(String, std::collections::VecDeque<(String, BTreeMap<String, String>)>)> = m.headers.iter().map(|(n, v)| (n.clone(), v.iter().cloned().collect())).collect();
    while !left.is_empty() {
        let i = r.below(left.len());
        let (v, p) = left[i].1.pop_front().unwrap();
        rows.push((left[i].0.clone(), v, p));
        if left[i].1.is_empty() {
            left.remove(i);
        }
    }
    for (n, v, p) in rows {
        let ps: String = p.iter().map(|(a, b)| format!(";{a}={b}")).collect();
        let v = cpim_escape(r, &v);
        if ps.is_empty() || !p.values().all(|x| !x.contains(':')) || r.coin() {
            o.push_str(&format!("{n}:{ps} {v}"));
        } else {
            o.push_str(&format!("{n}{ps}: {v}"));
        }
        o.push_str(nl);
    }
    o.push_str(nl);
    let mut lines = vec![format!("{}:{}{}", r.pick(&["Content-type", "Content-Type", "content-type"]), r.pick(&[" ", "", "  "]), m.ctype)];
    lines.extend(m.content.iter().map(|(a, b)| format!("{a}: {b}")));
    r.shuffle(&mut lines);
    for l in lines {
        o.push_str(&l);
        o.push_str(nl);
    }
    o.push_str(nl);
    o.push_str(&m.body);
    o
}

#[derive(Clone, Debug, PartialEq, Default)]
struct Mwi {
    waiting: bool,
    account: Option<String>,
    /// index into CLASS -> new, old, urgent new, urgent old
    counts: BTreeMap<usize, [u32; 4]>,
    headers: Vec<BTreeMap<usize, String>>,
}
const CLASS: [(MessageContextClass, &str); 6] = [
    (MessageContextClass::Voice, "Voice-Message"),
    (MessageContextClass::Fax, "Fax-Message"),
    (MessageContextClass::Pager, "Pager-Message"),
    (MessageContextClass::Multimedia, "Multimedia-Message"),
    (MessageContextClass::Text, "Text-Message"),
    (MessageContextClass::None, "None-Message"),
];
const FIELD: [&str; 7] = ["To", "From", "Subject", "Date", "Priority", "Message-ID", "Message-Context"];
fn gen_mwi(r: &mut Rng) -> Mwi {
    let mut m = Mwi { waiting: r.coin(), ..Default::default() };
    if r.coin() {
        m.account = Some(one_line(r, 0, 20));
    }
    let n = |r: &mut Rng| match r.below(6) {
        0 => u32::MAX,
        1 => r.u32(),
        2 => 0,
        _ => r.below(20) as u32,
    };
    for _ in 0..r.below(5) {
        let u = if r.coin() { [n(r), n(r)] } else { [0, 0] };
        m.counts.insert(r.below(6), [n(r), n(r), u[0], u[1]]);
    }
    for _ in 0..[0, 0, 1, 2, 4][r.below(5)] {
        let mut h = BTreeMap::new();
        for _ in 0..r.range(1, 7) {
            h.insert(r.below(7), one_line(r, 0, 16));
        }
        m.headers.push(h);
    }
    m
}
fn build_mwi(m: &Mwi) -> MessageSummary {
    let mut s = MessageSummary::new(m.waiting);
    if let Some(a) = &m.account {
        s.set_account(a).unwrap();
    }
    for (i, c) in &m.counts {
        s.add_message_class(CLASS[*i].0, MessageCounts::new(c[0], c[1]).with_urgent(c[2], c[3])).unwrap();
    }
    for h in &m.headers {
        let mut x = MessageHeader::new();
        for (i, v) in h {
            x = match i {
                0 => x.with_to(v),
                1 => x.with_from(v),
                2 => x.with_subject(v),
                3 => x.with_date(v),
                4 => x.with_priority(v),
                5 => x.with_message_id(v),
                _ => x.with_message_context(v),
            }
            .unwrap();
        }
        s.add_message_header(x).unwrap();
    }
    s
}
fn read_mwi(s: &MessageSummary) -> Mwi {
    Mwi {
        waiting: s.messages_waiting(),
        account: s.account().map(|x| x.to_string()),
        counts: s.messages().map(|(k, c)| (CLASS.iter().position(|x| x.0 == *k).unwrap(), [c.new_count(), c.old_count(), c.urgent_new(), c.urgent_old()])).collect(),
        headers: s
            .message_headers()
            .map(|h| [h.to(), h.from(), h.subject(), h.date(), h.priority(), h.message_id(), h.message_context()].iter().enumerate().filter_map(|(i, v)| v.map(|v| (i, v.to_string()))).collect())
            .collect(),
    }
}
fn anycase(r: &mut Rng, s: &str) -> String {
    match r.below(3) {
        0 => s.to_ascii_lowercase(),
        1 => s.to_ascii_uppercase(),
        _ => s.to_string(),
    }
}
fn mwi_wire(r: &mut Rng, m: &Mwi) -> String {
    let nl = if r.chance(2, 3) { "\r\n" } else { "\n" };
    let colon = *r.pick(&[": ", ":", " : ", ":  "]);
    let mut o = format!("{}{colon}{}{nl}", anycase(r, "Messages-Waiting"), { let y = if m.waiting { "yes" } else { "no" }; anycase(r, y) });
    if let Some(a) = &m.account {
        o.push_str(&format!("{}{colon}{a}{nl}", anycase(r, "Message-Account")));
    }
    for (i, c) in &m.counts {
        let (s, l, p, q) = (*r.pick(&["/", "/", " / ", "/ "]), *r.pick(&[" (", "(", " ( "]), *r.pick(&["/", "/", " / "]), *r.pick(&[")", ")", " )"]));
        o.push_str(&format!("{}{colon}{}{s}{}", anycase(r, CLASS[*i].1), c[0], c[1]));
        if c[2] > 0 || c[3] > 0 || r.chance(1, 5) {
            o.push_str(&format!("{l}{}{p}{}{q}", c[2], c[3]));
        }
        o.push_str(nl);
    }
    if r.chance(1, 4) {
        o.push_str(&format!("Hologram-Message: 1/2{nl}"));
    }
    for h in &m.headers {
        o.push_str(nl);
        let mut f: Vec<(usize, String)> = h.iter().map(|(a, b)| (*a, b.clone())).collect();
        r.shuffle(&mut f);
        for (i, v) in f {
            o.push_str(&format!("{}{colon}{v}{nl}", anycase(r, FIELD[i])));
        }
        if r.chance(1, 4) {
            o.push_str(&format!("X-Other: y{nl}"));
        }
    }
    o
}

fn main() {
    let mut c = Ctx::new("C08", "CPIM messages, message-waiting summaries and message fragments built from a model, printed and read back, and read from an independent writer's layouts; totals against wide arithmetic; mutated text must not make reading fail abnormally");
    c.assume("values carry no blanks at their ends, CPIM bodies are text when compared");
    c.run("cpim-roundtrip", c.n(100_000, 2_000_000), |r, rec| {
        let m = gen_cpim(r, true);
        let Some(built) = rec.guard("cpim-build", &|| format!("{m:?}"), || {
            let mut x = CpimMessage::new(&m.ctype, m.body.clone().into_bytes())?;
            for (n, vs) in &m.headers {
                for (v, ps) in vs {
                    let mut h = CpimHeader::new(v)?;
                    for (a, b) in ps {
                        h = h.with_param(a, b)?;
                    }
                    x.add_header_obj(n, h)?;
                }
            }
            for (a, b) in &m.content {
                x.add_content_header(a, b)?;
            }
            Ok::<_, sip_core::cpim::CpimError>(x)
        }) else { return };
        let Ok(x) = built else {
            rec.violate("cpim-refused", format!("{m:?}: {built:?}"));
            return;
        };
        let Ok(s) = x.to_string() else {
            rec.violate("cpim-unprintable", format!("{m:?}"));
            return;
        };
        rec.eval(Some(&format!("{m:?}")));
        rec.sample(|| s.clone());
        let Some(back) = rec.guard("cpim-parse", &|| s.clone(), || parse_cpim(&s)) else { return };
        match back {
            Ok(b) => {
                let g = read_cpim(&b);
                rec.check(g == m, "cpim-roundtrip", || format!("{m:?}\n printed {s:?}\n read {g:?}"));
            }
            Err(e) => rec.violate("cpim-unreadable", format!("{e}: {m:?}\n printed {s:?}")),
        }
    });
    // whatever names and values the interface takes mean the same when read
    c.run("cpim-given", c.n(60_000, 1_000_000), |r, rec| {
        let odd = |r: &mut Rng, hi: usize| if r.coin() { r.string("ab :;=,<>\\\"\t\r\n\u{7f}\u{e9}", 0, hi) } else { r.nasty(0, 3) };
        let name = if r.coin() { "Subject".to_string() } else { odd(r, 5) };
        let value = odd(r, 6).trim().to_string();
        let params: Vec<(String, String)> = (0..r.below(3)).map(|_| (if r.coin() { r.lower(1, 4) } else { odd(r, 4) }, if r.coin() { r.token(1, 5) } else { odd(r, 5) })).collect();
        let body = odd(r, 8);
        let given = format!("{name:?}: {params:?} {value:?} body {body:?}");
        rec.eval(Some(&given));
        let built = rec.guard("cpim-given", &|| given.clone(), || {
            let mut h = CpimHeader::new(&value)?;
            for (a, b) in &params {
                h = h.with_param(a, b)?;
            }
            let mut x = CpimMessage::new("text/plain", body.clone().into_bytes())?;
            x.add_header_obj(&name, h)?;
            let s = x.to_string()?;
            Ok::<_, sip_core::cpim::CpimError>((x, s))
        });
        let Some(Ok((x, s))) = built else { return };
        rec.count("taken", 1);
        // blanks around names, and none but blanks in them, are not promised
        if name.trim() != name || name.contains(char::is_whitespace) || params.iter().any(|p| p.0.trim() != p.0 || p.1.trim() != p.1) {
            return;
        }
        rec.count("compared", 1);
        match parse_cpim(&s) {
            Ok(b) => {
                rec.check(read_cpim(&b) == read_cpim(&x), "cpim-given", || format!("{given} printed {s:?} reads {:?}", read_cpim(&b)));
            }
            Err(e) => rec.violate("cpim-given-unreadable", format!("{e}: {given} printed {s:?}")),
        }
    });
    // a message built step by step says at every step what was put in
    c.run("cpim-history", c.n(20_000, 400_000), |r, rec| {
        let mut m = Cpim { ctype: "text/plain".into(), ..Default::default() };
        let mut x = CpimMessage::new("text/plain", vec![]).unwrap();
        let mut log = String::new();
        let many = r.chance(1, 6);
        let total = |m: &Cpim| m.headers.values().map(|v| v.len()).sum::<usize>();
        for _ in 0..if many { r.range(45, 75) } else { r.range(1, 12) } {
            let v = tight(text(r, 1, 8, false)).replace(['<', '>'], "_");
            let none = BTreeMap::new();
            let any = if many { format!("H{}", r.below(90)) } else { r.pick(&["From", "To", "cc", "DateTime", "Subject", "NS", "Require", "X.y"]).to_string() };
            let old = x.clone();
            // (name, value, parameters, whether it takes the place of the others)
            let (name, val, pars, takes, got): (&str, String, _, bool, Result<CpimMessage, sip_core::cpim::CpimError>) = match r.below(if many { 2 } else { 12 }) {
                0 => (&any, v.clone(), none, true, x.set_header(&any, &v).map(|_| x.clone())),
                1 => (&any, v.clone(), none, false, x.add_header(&any, &v).map(|_| x.clone())),
                2 => ("From", v.clone(), none, true, x.clone().with_from(&v)),
                3 => ("To", v.clone(), none, false, x.clone().with_to(&v)),
                4 => ("DateTime", v.clone(), none, true, x.clone().with_datetime(&v)),
                5 => ("cc", v.clone(), none, false, x.clone().with_cc(&v)),
                6 => ("Require", v.clone(), none, false, x.clone().with_require(&v)),
                7 => {
                    let l = r.lower(2, 3);
                    let p = BTreeMap::from([("lang".to_string(), l.clone())]);
                    ("Subject", v.clone(), p, false, x.clone().with_subject_lang(&v, &l))
                }
                8 => {
                    let q = r.lower(1, 4);
                    ("NS", format!("{q} <mid:{v}@x>"), none, false, x.clone().with_ns(&q, &format!("mid:{v}@x")))
                }
                9 => {
                    if m.content.len() < 15 {
                        m.content.insert(any.clone(), v.clone());
                        match x.clone().with_content_header(&any, &v) {
                            Ok(y) => x = y,
                            Err(e) => rec.violate("cpim-step", format!("content header {any} {v:?}: {e} after {log}")),
                        }
                    }
                    continue;
                }
                10 => {
                    m.body = body(r);
                    x.set_body(m.body.clone().into_bytes()).unwrap();
                    rec.check(x.body_as_str() == Ok(m.body.as_str()) && x.body_as_string().as_deref() == Some(m.body.as_str()), "cpim-body", || format!("{:?}", m.body));
                    continue;
                }
                _ => {
                    let bad = vec![0xff, 0xfe, b'a'];
                    let mut y = x.clone();
                    y.set_body(bad.clone()).unwrap();
                    rec.check(y.body() == bad && y.body_as_str().is_err() && y.body_as_string().is_none(), "cpim-body", || "bytes".into());
                    continue;
                }
            };
            log.push_str(&format!("{name}:{val}({takes}) "));
            let there = if takes { m.headers.get(name).map_or(0, |v| v.len()) } else { 0 };
            let fits = total(&m) - there + 1 <= 50;
            rec.check(got.is_ok() == fits, "cpim-step", || format!("{:?} with {} headers after {log}", got.as_ref().err(), total(&m)));
            match got {
                Ok(y) => {
                    x = y;
                    let e = m.headers.entry(name.to_string()).or_default();
                    if takes {
                        e.clear();
                    }
                    e.push((val, pars));
                }
                Err(_) => x = old,
            }
            let name = name.to_string();
            let want: Vec<&str> = m.headers.get(&name).map(|v| v.iter().map(|y| y.0.as_str()).collect()).unwrap_or_default();
            rec.check(x.get_header(&name) == want.first().copied() && x.get_header_values(&name) == want, "cpim-look-up", || format!("{name}: {:?} not {want:?} after {log}", x.get_header_values(&name)));
        }
        rec.eval(Some(&log));
        m.headers.retain(|_, v| !v.is_empty());
        rec.check(read_cpim(&x) == m, "cpim-history", || format!("{:?}\nnot {m:?}\nafter {log}", read_cpim(&x)));
        if let Some(Ok(s)) = rec.guard("cpim-history", &|| log.clone(), || x.to_string()) {
            match parse_cpim(&s) {
                Ok(b) => {
                    rec.check(read_cpim(&b) == m, "cpim-history-read", || format!("{s:?} reads {:?}", read_cpim(&b)));
                }
                Err(e) => rec.violate("cpim-history-read", format!("{e}: {s:?}")),
            }
        }
    });
    c.run("cpim-wire", c.n(100_000, 2_000_000), |r, rec| {
        let m = gen_cpim(r, true);
        let mut s = cpim_wire(r, &m);
        rec.eval(Some(&format!("wire {m:?}")));
        let Some(back) = rec.guard("cpim-parse", &|| s.clone(), || parse_cpim(&s)) else { return };
        match back {
            Ok(b) => {
                let g = read_cpim(&b);
                rec.check(g == m, "cpim-read", || format!("{s:?}: read {g:?}, want {m:?}"));
            }
            Err(e) => rec.violate("cpim-unreadable", format!("{e}: {s:?}")),
        }
        // damage
        let mut b = std::mem::take(&mut s).into_bytes();
        let edits = r.range(1, 6) as usize;
        r.mutate(&mut b, edits);
        let t = String::from_utf8_lossy(&b).into_owned();
        if let Some(Ok(x)) = rec.guard("cpim-hostile", &|| t.clone(), || parse_cpim(&t)) {
            rec.guard("cpim-print", &|| t.clone(), || x.to_string().map(|s| s.len()));
        }
    });
    c.run("summary", c.n(100_000, 2_000_000), |r, rec| {
        let m = gen_mwi(r);
        let s = build_mwi(&m);
        rec.eval(Some(&format!("{m:?}")));
        let tot = |i: usize| m.counts.values().map(|c| c[i] as u64).sum::<u64>().min(u32::MAX as u64) as u32;
        let Some(got) = rec.guard("totals", &|| format!("{m:?}"), || (s.total_new(), s.total_old(), s.has_urgent(), s.messages().map(|(_, c)| (c.total(), c.total_urgent())).collect::<Vec<_>>())) else { return };
        let want = (
            tot(0),
            tot(1),
            m.counts.values().any(|c| c[2] > 0 || c[3] > 0),
            m.counts.values().map(|c| (c[0].saturating_add(c[1]), c[2].saturating_add(c[3]))).collect::<Vec<_>>(),
        );
        rec.check(got == want, "totals", || format!("{got:?}, want {want:?}: {m:?}"));
        let each: Vec<(bool, bool)> = s.messages().map(|(_, c)| (c.has_new(), c.has_urgent())).collect();
        let each_want: Vec<(bool, bool)> = m.counts.values().map(|c| (c[0] > 0, c[2] > 0 || c[3] > 0)).collect();
        rec.check(each == each_want, "counts-flags", || format!("{each:?}, want {each_want:?}: {m:?}"));
        let p = s.to_string();
        rec.sample(|| p.clone());
        let Some(back) = rec.guard("summary-parse", &|| p.clone(), || parse_message_summary(&p)) else { return };
        match back {
            Ok(b) => {
                let g = read_mwi(&b);
                rec.check(g == m, "summary-roundtrip", || format!("{m:?}\n printed {p:?}\n read {g:?}"));
            }
            Err(e) => rec.violate("summary-unreadable", format!("{e}: {p:?}")),
        }
        let w = mwi_wire(r, &m);
        let Some(back) = rec.guard("summary-parse", &|| w.clone(), || parse_message_summary(&w)) else { return };
        match back {
            Ok(b) => {
                let g = read_mwi(&b);
                rec.check(g == m, "summary-read", || format!("{w:?}: read {g:?}, want {m:?}"));
            }
            Err(e) => rec.violate("summary-unreadable", format!("{e}: {w:?}")),
        }
        let mut b = w.into_bytes();
        let edits = r.range(1, 6) as usize;
        r.mutate(&mut b, edits);
        let t = String::from_utf8_lossy(&b).into_owned();
        if let Some(Ok(x)) = rec.guard("summary-hostile", &|| t.clone(), || parse_message_summary(&t)) {
            // what was accepted is a summary like any other
            let g = read_mwi(&x);
            let p = x.to_string();
            let again = parse_message_summary(&p).map(|y| read_mwi(&y));
            rec.check(again.as_ref().is_ok_and(|a| *a == g), "summary-stable", || format!("{t:?}: {g:?} -> {p:?} -> {again:?}"));
        }
    });
    c.run("fragment", c.n(60_000, 1_000_000), |r, rec| {
        let mut want = String::new();
        let (mut code_, mut req_) = (None, None);
        let mut f = match r.below(5) {
            0 => SipFrag::empty(),
            4 => {
                // taken from a whole response, or only its headers
                let mut h = sip_core::Headers::new();
                for _ in 0..r.below(4) {
                    let (n, v) = (r.token(1, 8), one_line(r, 0, 12));
                    if n.eq_ignore_ascii_case("content-length") || n.eq_ignore_ascii_case("content-type") || h.push(n.as_str(), v.as_str()).is_err() {
                        continue;
                    }
                    want.push_str(&format!("{n}: {v}\r\n"));
                }
                if r.coin() {
                    SipFrag::headers_only(h)
                } else {
                    let code = r.range(100, 699) as u16;
                    let reason = one_line(r, 0, 12);
                    let Ok(sl) = sip_core::StatusLine::new(code, reason.as_str()) else { return };
                    let Ok(resp) = sip_core::Response::new(sl, h, Default::default()) else { return };
                    want = format!("SIP/2.0 {code} {reason}\r\n{want}");
                    code_ = Some(code);
                    let k = resp.body_len();
                    rec.check(k == 0, "response-body-len", || format!("{k}"));
                    match SipFrag::from_response(resp) {
                        Ok(f) => f,
                        Err(e) => return rec.violate("fragment-from-response", format!("{e}: {want:?}")),
                    }
                }
            }
            1 => {
                let u = gen_uri(r);
                let Ok(uri) = Uri::parse(&u) else { return };
                let m = gen_method(r);
                let Ok(meth) = Method::from_token(&m) else { return };
                let l = RequestLine::new(meth, uri.clone());
                want = format!("{m} {uri} SIP/2.0\r\n");
                req_ = Some((m.clone(), uri.clone()));
                SipFrag::request(l).unwrap()
            }
            _ => {
                let code = r.range(100, 699) as u16;
                let reason = one_line(r, 0, 12);
                match SipFrag::status_only(code, reason.as_str().into()) {
                    Ok(f) => {
                        want = format!("SIP/2.0 {code} {reason}\r\n");
                        code_ = Some(code);
                        f
                    }
                    Err(_) => return,
                }
            }
        };
        for _ in 0..r.below(4) {
            let (n, v) = (r.token(1, 8), one_line(r, 0, 12));
            if n.eq_ignore_ascii_case("content-length") || n.eq_ignore_ascii_case("content-type") || f.add_header(n.as_str(), v.as_str()).is_err() {
                continue;
            }
            want.push_str(&format!("{n}: {v}\r\n"));
        }
        if r.coin() {
            let (n, v) = (r.token(1, 8), one_line(r, 0, 12));
            let before = f.to_string();
            match f.clone().with_header(n.as_str(), v.as_str()) {
                Ok(g) if !n.eq_ignore_ascii_case("content-length") && !n.eq_ignore_ascii_case("content-type") => {
                    want.push_str(&format!("{n}: {v}\r\n"));
                    f = g;
                }
                _ => {}
            }
            let _ = before;
        }
        let got = (f.is_request(), f.is_response(), f.status_code(), f.method().map(|m| m.as_str().to_string()), f.request_uri().cloned());
        let exp = (req_.is_some(), code_.is_some(), code_, req_.as_ref().map(|x| x.0.clone()), req_.as_ref().map(|x| x.1.clone()));
        rec.check(got == exp, "fragment-start", || format!("{got:?}, want {exp:?}: {want:?}"));
        let body = match r.below(4) {
            0 => vec![],
            1 => r.bytes(1, 30),
            _ => text(r, 1, 30, true).into_bytes(),
        };
        let (ct, cl) = (r.chance(7, 8), *r.pick(&[0i64, 0, 0, 0, 1, -1]));
        let declared = body.len() as i64 + cl;
        if ct {
            f.add_header("Content-Type", "text/plain").unwrap();
            want.push_str("Content-Type: text/plain\r\n");
        }
        if declared >= 0 {
            f.add_header("Content-Length", declared.to_string()).unwrap();
            want.push_str(&format!("Content-Length: {declared}\r\n"));
        }
        let by_value = r.coin();
        let Some(set) = rec.guard("fragment-body", &|| format!("{body:?}"), || {
            if by_value {
                f.clone().with_body(body.clone()).map(|g| f = g)
            } else {
                f.set_body(body.clone())
            }
        }) else { return };
        let kept: &[u8] = if set.is_ok() { &body } else { &[] };
        rec.check(f.body().as_ref() == kept, "fragment-body-kept", || format!("{:?}, want {kept:?}", f.body()));
        let fits = body.is_empty() || (ct && declared == body.len() as i64);
        rec.eval(Some(&(&want, &body)));
        rec.check(set.is_ok() == fits, "fragment-body", || format!("{set:?}, want ok={fits}: {want:?} {body:?}"));
        if set.is_ok() && !body.is_empty() {
            want.push_str("\r\n");
        }
        let Some(p) = rec.guard("fragment-print", &|| format!("{want:?} {body:?}"), || f.to_string()) else { return };
        if set.is_ok() {
            match std::str::from_utf8(&body) {
                Ok(b) => rec.check(p == format!("{want}{b}"), "fragment-text", || format!("{p:?}, want {want:?} + {b:?}")),
                Err(_) => rec.check(p.starts_with(&want), "fragment-text", || format!("{p:?}, want {want:?}...")),
            };
        }
    });
    c.finish()
}
