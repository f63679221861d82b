//! C09: caller preferences (RFC 3840/3841) choose and order contacts as the
//! predicates say, and capabilities survive the trip through parameters.
use h_core::*;
use sip_core::*;
use smol_str::SmolStr;
use std::collections::BTreeMap;

const TAGS: [FeatureTag; 19] = [
    FeatureTag::Audio, FeatureTag::Video, FeatureTag::Application, FeatureTag::Data, FeatureTag::Control, FeatureTag::Text, FeatureTag::Automata,
    FeatureTag::Class, FeatureTag::Duplex, FeatureTag::Mobility, FeatureTag::Description, FeatureTag::Events, FeatureTag::Priority,
    FeatureTag::Methods, FeatureTag::Schemes, FeatureTag::Extensions, FeatureTag::IsFocus, FeatureTag::Actor, FeatureTag::Language,
];
const NAMES: [&str; 19] = [
    "audio", "video", "application", "data", "control", "text", "automata", "class", "duplex", "mobility", "description", "events", "priority", "methods",
    "schemes", "extensions", "isfocus", "actor", "language",
];
fn list_tag(i: usize) -> bool {
    (11..=15).contains(&i)
}

#[derive(Clone, Debug, PartialEq)]
enum V {
    B(bool),
    T(String),
    L(Vec<String>),
    S(String),
    N(f64),
}
fn to_value(v: &V) -> FeatureValue {
    match v {
        V::B(b) => FeatureValue::Boolean(*b),
        V::T(t) => FeatureValue::Token(SmolStr::new(t)),
        V::L(l) => FeatureValue::TokenList(l.iter().map(SmolStr::new).collect()),
        V::S(s) => FeatureValue::String(SmolStr::new(s)),
        V::N(n) => FeatureValue::Numeric(*n),
    }
}
fn small_token(r: &mut Rng) -> String {
    let t = r.pick(&["business", "personal", "full", "half", "INVITE", "invite", "Bye", "sip", "fixed", "en", "a", "b", "busi", "fixed2"]).to_string();
    if r.chance(1, 6) {
        t.to_ascii_uppercase()
    } else {
        t
    }
}
fn gen_v(r: &mut Rng, i: usize, wide: bool) -> V {
    if list_tag(i) && (wide || r.chance(5, 6)) {
        return V::L((0..r.range(1, 4)).map(|_| if wide && r.coin() { r.token(1, 12) } else { small_token(r) }).collect());
    }
    match r.below(8) {
        0 => V::B(false),
        1..=3 => V::B(true),
        4 | 5 => {
            let t = if wide && r.coin() { r.token(1, 12) } else { small_token(r) };
            if t.parse::<f64>().is_ok() {
                V::T("tok".into())
            } else {
                V::T(t)
            }
        }
        6 => V::S(if wide { (0..r.below(12)).map(|_| *r.pick(&['a', 'B', ' ', ',', ';', '<', '>', '=', '\\', 'é', '@', '1'])).collect() } else { r.pick(&["PC", "pc", "PC", "Mobile phone", "PC2", "P"]).to_string() }),
        _ => V::N(if wide { *r.pick(&[0.0, 1.0, -1.0, 0.5, 1e9, -2.25, 1e-3, 123456789.125]) } else { if r.chance(2, 3) { *r.pick(&[1.0, 2.0]) } else { *r.pick(&[1.25, 1.001, 2.0000001, -1.0, 10.0, 0.0]) } }),
    }
}
type Set = BTreeMap<usize, V>;
fn gen_set(r: &mut Rng, max: usize, wide: bool) -> Set {
    let mut s = Set::new();
    let span = if wide { 19 } else { *r.pick(&[4, 14, 19]) };
    for _ in 0..r.below(max + 1) {
        let i = if wide { r.below(19) } else { *r.pick(&[0usize, 1, 7, 8, 10, 13, 11, 16, 18]) % span };
        let v = gen_v(r, i, wide);
        s.insert(i, v);
    }
    s
}
fn caps(s: &Set) -> CapabilitySet {
    let mut c = CapabilitySet::new();
    for (i, v) in s {
        let t = TAGS[*i];
        if i % 2 == 0 {
            c.add(Capability::new(t, to_value(v)).expect("valid")).expect("add");
        } else {
            match v {
                V::B(b) => c.add_boolean(t, *b),
                V::T(x) => c.add_token(t, x.as_str()),
                V::L(l) => c.add_token_list(t, l.iter().map(SmolStr::new).collect()),
                V::S(x) => c.add_string(t, x.as_str()),
                V::N(n) => c.add_numeric(t, *n),
            }
            .expect("add");
        }
        // what is in it is what was put in, and nothing else
        let g = c.get(t).expect("there");
        let same = match v {
            V::B(b) => g.is_true() == *b && g.is_false() != *b,
            V::T(x) => g.as_token().map(|z| z.as_str()) == Some(x.as_str()) && g.as_string().is_none(),
            V::L(l) => g.as_token_list().is_some_and(|y| y.iter().map(|z| z.as_str()).eq(l.iter().map(|z| z.as_str()))),
            V::S(x) => g.as_string().map(|z| z.as_str()) == Some(x.as_str()) && g.as_token().is_none(),
            V::N(n) => g.as_numeric() == Some(*n),
        };
        if !same {
            return CapabilitySet::new();
        }
    }
    c
}
fn vmatch(req: &V, have: &V) -> bool {
    match (req, have) {
        (V::B(a), V::B(b)) => a == b,
        (V::T(a), V::T(b)) => a.eq_ignore_ascii_case(b),
        (V::L(a), V::L(b)) => a.iter().all(|x| b.iter().any(|y| x.eq_ignore_ascii_case(y))),
        (V::S(a), V::S(b)) => a == b,
        (V::N(a), V::N(b)) => a == b,
        _ => false,
    }
}
fn n_match(req: &Set, have: &Set) -> usize {
    req.iter().filter(|(i, v)| have.get(i).is_some_and(|h| vmatch(v, h))).count()
}

#[derive(Clone, Debug)]
struct Accept {
    f: Set,
    require: bool,
    explicit: bool,
}
impl Accept {
    fn score(&self, have: &Set, has_explicit: bool) -> f64 {
        if self.f.is_empty() {
            return 1.0;
        }
        if self.explicit && !has_explicit {
            return 0.0;
        }
        let m = n_match(&self.f, have);
        if self.require && m < self.f.len() {
            return 0.0;
        }
        m as f64 / self.f.len() as f64
    }
}

/// A well-formed quoted string and nothing else?
fn quoted_ok(s: &str) -> bool {
    let Some(b) = s.strip_prefix('"') else { return false };
    let mut it = b.chars();
    loop {
        match it.next() {
            None => return false,
            Some('\\') => {
                if it.next().is_none() {
                    return false;
                }
            }
            Some('"') => return it.next().is_none(),
            _ => {}
        }
    }
}

fn main() {
    let mut c = Ctx::new("C09", "score_contacts, Accept-/Reject-Contact predicates, capability sets and Request-Disposition against a model of the matching rules, on generated predicates, capabilities and q values");
    c.assume("boolean, token, list, string and numeric values; RFC 3840 numeric ranges and the quoted TRUE/FALSE form are not part of the library's syntax; conflicting directives in one Request-Disposition may resolve either way");

    c.run("score", c.n(300_000, 5_000_000), |r, rec| {
        let n = if r.chance(1, 30) { r.range(20, 60) as usize } else { r.below(7) };
        let sets: Vec<Set> = (0..n).map(|_| gen_set(r, 5, false)).collect();
        let expl: Vec<bool> = (0..n).map(|_| r.chance(3, 4)).collect();
        let qs: Vec<f64> = (0..n).map(|_| *r.pick(&[0.0, 0.1, 0.5, 0.5, 0.7, 1.0, 1.0, 2.0, -1.0])).collect();
        let acc: Vec<Accept> = (0..[0, 1, 1, 2, 3][r.below(5)])
            .map(|_| {
                // predicates often copy part of a contact's set
                let mut f = gen_set(r, 3, false);
                if !sets.is_empty() && r.coin() {
                    f = sets[r.below(sets.len())].clone();
                    while f.len() > 1 && r.coin() {
                        let k = *f.keys().nth(r.below(f.len())).unwrap();
                        f.remove(&k);
                    }
                    if r.chance(1, 3) {
                        for v in f.values_mut() {
                            match v {
                                V::T(t) => *t = t.to_ascii_uppercase(),
                                V::L(l) => l.reverse(),
                                _ => {}
                            }
                        }
                    }
                }
                Accept { f, require: r.chance(1, 3), explicit: r.chance(1, 4) }
            })
            .collect();
        let rejs = if r.chance(1, 20) { r.below(33) } else { [0, 0, 1, 2][r.below(4)] };
        let rej: Vec<Set> = (0..rejs)
            .map(|_| if !sets.is_empty() && r.chance(1, 3) {
                // a contact's features up to one thing
                let mut f = sets[r.below(sets.len())].clone();
                let other = gen_set(r, 5, false);
                match r.below(3) {
                    0 => f.extend(other.into_iter().take(1)),
                    1 => for (k, v) in other { if f.len() < 9 { f.entry(k).or_insert(v); } },
                    _ => { let k = f.keys().nth(r.below(f.len().max(1))).copied(); if let Some(k) = k { f.remove(&k); } }
                }
                f
            } else if !sets.is_empty() && r.coin() { let mut f = sets[r.below(sets.len())].clone(); while f.len() > 2 { let k = *f.keys().next().unwrap(); f.remove(&k); } f } else { gen_set(r, 2, false) })
            .collect();
        let input = format!("sets {sets:?} explicit {expl:?} q {qs:?} accept {acc:?} reject {rej:?}");
        let contacts: Vec<ScoredContact> = (0..n).map(|i| ScoredContact::new(format!("sip:c{i}@h"), qs[i]).unwrap().with_explicit_features(expl[i])).collect();
        let accs: Vec<AcceptContact> = acc
            .iter()
            .map(|a| {
                let mut x = AcceptContact::new();
                for (i, v) in &a.f {
                    x = x.with_feature(TAGS[*i], to_value(v)).unwrap();
                }
                if a.require {
                    x = x.with_require();
                }
                if a.explicit {
                    x = x.with_explicit();
                }
                x
            })
            .collect();
        let rejs: Vec<RejectContact> = rej
            .iter()
            .map(|a| {
                let mut x = RejectContact::new();
                for (i, v) in a {
                    x.add_feature(TAGS[*i], to_value(v)).unwrap();
                }
                x
            })
            .collect();
        let cs: Vec<CapabilitySet> = sets.iter().map(caps).collect();
        // single predicates
        for i in 0..n {
            for (a, m) in accs.iter().zip(&acc) {
                let (g, w) = (a.matches(&cs[i], expl[i]), m.score(&sets[i], expl[i]));
                rec.check((g - w).abs() < 1e-9, "accept-score", || format!("contact {i}: {g} want {w}; {m:?} on {:?} {}", sets[i], expl[i]));
            }
            for (a, m) in rejs.iter().zip(&rej) {
                let w = !m.is_empty() && expl[i] && n_match(m, &sets[i]) == m.len();
                rec.check(a.matches(&cs[i], expl[i]) == w, "reject-match", || format!("contact {i}: want {w}; {m:?} on {:?} {}", sets[i], expl[i]));
            }
            for j in 0..n {
                let w = n_match(&sets[j], &sets[i]) == sets[j].len();
                rec.check(cs[i].matches(&cs[j]) == w, "set-match", || format!("{:?} against {:?}: want {w}", sets[i], sets[j]));
            }
        }
        let Some(out) = rec.guard("score_contacts", &|| input.clone(), || score_contacts(contacts, &accs, &rejs, &cs)) else { return };
        let Ok(out) = out else {
            rec.violate("score-refused", input);
            return;
        };
        let mut want: Vec<(usize, f64, f64)> = vec![];
        for i in 0..n {
            if rej.iter().any(|m| !m.is_empty() && expl[i] && n_match(m, &sets[i]) == m.len()) {
                continue;
            }
            let sc: Vec<f64> = acc.iter().map(|a| a.score(&sets[i], expl[i])).collect();
            if acc.iter().zip(&sc).any(|(a, s)| a.require && *s == 0.0) {
                continue;
            }
            let qa = if sc.is_empty() { 1.0 } else { sc.iter().sum::<f64>() / sc.len() as f64 };
            want.push((i, qs[i].clamp(0.0, 1.0), qa));
        }
        let got: Vec<(String, f64, f64)> = out.iter().map(|s| (s.uri().to_string(), s.callee_q(), s.caller_qa())).collect();
        rec.eval(Some(&input));
        rec.sample(|| format!("{input} -> {got:?}"));
        let mut a: Vec<&str> = got.iter().map(|g| g.0.as_str()).collect();
        a.sort();
        let mut b: Vec<String> = want.iter().map(|w| format!("sip:c{}@h", w.0)).collect();
        b.sort();
        rec.check(a == b, "kept", || format!("{got:?}, want {want:?}: {input}"));
        for g in &got {
            let w = want.iter().find(|w| format!("sip:c{}@h", w.0) == g.0);
            rec.check(w.is_none_or(|w| w.1 == g.1 && (w.2 - g.2).abs() < 1e-9), "scores", || format!("{got:?}, want {want:?}: {input}"));
        }
        rec.check(got.windows(2).all(|w| w[0].1 > w[1].1 || (w[0].1 == w[1].1 && w[0].2 >= w[1].2 - 1e-12)), "order", || format!("{got:?}: {input}"));
        // contacts nothing tells apart stay in the order given
        let idx = |u: &str| u.trim_start_matches("sip:c").trim_end_matches("@h").parse::<usize>().unwrap_or(99);
        rec.check(got.windows(2).all(|w| w[0].1 != w[1].1 || w[0].2 != w[1].2 || idx(&w[0].0) < idx(&w[1].0)), "tie-order", || format!("{got:?}: {input}"));
    });

    c.run("params", c.n(300_000, 6_000_000), |r, rec| {
        let set = gen_set(r, 8, true);
        let cs = caps(&set);
        let Some(Ok(p)) = rec.guard("to_params", &|| format!("{set:?}"), || cs.to_params()) else {
            rec.violate("to-params", format!("{set:?}"));
            return;
        };
        let want: Set = set.iter().filter(|(_, v)| **v != V::B(false)).map(|(i, v)| (*i, v.clone())).collect();
        rec.eval(Some(&format!("{set:?}")));
        rec.check(p.keys().map(|k| k.as_str()).eq({ let mut w: Vec<&str> = want.keys().map(|i| NAMES[*i]).collect(); w.sort(); w }), "names", || format!("{set:?} -> {p:?}"));
        for (k, v) in &p {
            if let Some(v) = v {
                rec.check(quoted_ok(v) || (!v.is_empty() && v.chars().all(|c| TOKEN.contains(c))), "malformed-value", || format!("{k}={v} from {set:?}"));
            }
        }
        // parameter names in any case, unknown ones ignored
        let mut q: BTreeMap<SmolStr, Option<SmolStr>> = p.iter().map(|(k, v)| (if r.chance(1, 4) { SmolStr::new(k.to_ascii_uppercase()) } else { k.clone() }, v.clone())).collect();
        if r.coin() {
            q.insert("expires".into(), Some("3600".into()));
            q.insert("x-unknown".into(), None);
        }
        let Some(back) = rec.guard("from_params", &|| format!("{q:?}"), || CapabilitySet::from_params(&q)) else { return };
        let Ok(back) = back else {
            rec.violate("from-params", format!("{q:?} from {set:?}: {back:?}"));
            return;
        };
        let same = back.len() == want.len() && want.iter().all(|(i, v)| back.get(TAGS[*i]) == Some(&to_value(v)));
        rec.check(same, "params-roundtrip", || format!("{set:?} -> {q:?} -> {back:?}"));
        // hostile values
        let i = r.below(19);
        let s = if r.coin() { r.nasty(0, 12) } else { (0..r.below(8)).map(|_| *r.pick(&['"', '\\', ',', 'a', ' ', '1', '.', '-', 'e'])).collect() };
        if let Some(Ok(v)) = rec.guard("from_param_value", &|| format!("{} {s:?}", NAMES[i]), || FeatureValue::from_param_value(TAGS[i], Some(&s))) {
            rec.check(v.validate().is_ok(), "invalid-accepted", || format!("{} {s:?}: {v:?}", NAMES[i]));
            if let Ok(Some(w)) = v.to_param_value() {
                let v2 = FeatureValue::from_param_value(TAGS[i], Some(&w));
                rec.check(v2.as_ref() == Ok(&v), "value-roundtrip", || format!("{} {s:?}: {v:?} -> {w} -> {v2:?}", NAMES[i]));
            }
        }
    });

    // Parameters as others write them.
    c.run("read", c.n(200_000, 3_000_000), |r, rec| {
        let i = r.below(19);
        let odd = |r: &mut Rng| *r.pick(&['/', '@', ':', ' ', '"', '(', 'é', '=', '\t', '<', ';', '?', '\u{7f}', '{', '&']);
        let tok_char = |c: char| c.is_ascii_alphanumeric() || "-.!%*_+`'~".contains(c);
        let word = |r: &mut Rng| {
            let mut s: Vec<char> = r.token(1, 8).chars().collect();
            if r.chance(1, 12) {
                let at = r.below(s.len() + 1);
                s.insert(at, odd(r));
            }
            s.into_iter().collect::<String>()
        };
        let (text, want): (String, Option<V>) = if list_tag(i) {
            let n = r.range(1, 5) as usize;
            let words: Vec<String> = (0..n).map(|_| word(r)).collect();
            let sp = |r: &mut Rng| *r.pick(&["", "", " ", "\t", "  "]);
            let mut s = String::new();
            for (k, w) in words.iter().enumerate() {
                if k > 0 {
                    s.push(',');
                    if r.chance(1, 10) {
                        s.push_str(",");
                    }
                }
                s += &format!("{}{w}{}", sp(r), sp(r));
            }
            let quoted = n > 1 || r.coin();
            // Blanks around an element are none of it.
            let words: Vec<String> = words.iter().map(|w| w.trim().to_string()).filter(|w| !w.is_empty()).collect();
            if words.iter().any(|w| w.contains('"')) {
                return; // quotes within: judged by the round trip only
            }
            let ok = words.iter().all(|w| w.chars().all(tok_char));
            (if quoted { format!("\"{s}\"") } else { s }, ok.then(|| V::L(words)))
        } else {
            match r.below(4) {
                // Any character may be escaped inside quotes.
                0 | 1 => {
                    let plain: String = (0..r.below(10)).map(|_| *r.pick(&['a', 'Z', '9', ' ', '\\', ',', ';', '<', 'é', '/', '1'])).collect();
                    let mut s = String::new();
                    for c in plain.chars() {
                        if c == '\\' || r.chance(1, 6) {
                            s.push('\\');
                        }
                        s.push(c);
                    }
                    if r.chance(1, 12) {
                        (format!("\"{s}\\\""), None)
                    } else if r.chance(1, 12) {
                        (format!("\"{s}"), None)
                    } else {
                        (format!("\"{s}\""), Some(V::S(plain)))
                    }
                }
                2 => {
                    let v = match r.below(3) {
                        0 => r.range(-1000, 1000) as f64,
                        1 => r.range(-100_000, 100_000) as f64 / 1000.0,
                        _ => 0.5,
                    };
                    (format!("{v}"), Some(V::N(v)))
                }
                _ => {
                    let w = word(r);
                    if w.trim() != w || w.parse::<f64>().is_ok() {
                        return;
                    }
                    let ok = w.chars().all(tok_char);
                    (w.clone(), ok.then(|| V::T(w)))
                }
            }
        };
        let text = if r.chance(1, 8) { format!(" {text} ") } else { text };
        rec.eval(Some(&(i, text.clone())));
        let Some(got) = rec.guard("from_param_value", &|| format!("{} {text:?}", NAMES[i]), || FeatureValue::from_param_value(TAGS[i], Some(&text))) else { return };
        rec.count(if want.is_some() { "parameter read" } else { "parameter refused" }, 1);
        rec.check(got.as_ref().ok() == want.as_ref().map(to_value).as_ref(), "read", || format!("{}={text:?}: {got:?}, want {want:?}", NAMES[i]));
        // Only the names of the tags are names of tags.
        let mut name = NAMES[i].to_string();
        match r.below(4) {
            0 => { name.pop(); }
            1 => name.push(*r.pick(&['s', 'x', ' '])),
            2 => name = format!("sip.{name}"),
            _ => name = name.to_ascii_uppercase(),
        }
        let at = NAMES.iter().position(|n| n.eq_ignore_ascii_case(&name));
        rec.check(FeatureTag::from_param_name(&name) == at.map(|k| TAGS[k]), "tag name", || name.clone());
    });

    // Sizes at and one over what is configured.
    c.run("sizes", c.n(400, 4_000), |r, rec| {
        let over = r.below(2);
        let at = |n: usize| n + over;
        let k = r.below(9);
        rec.eval(Some(&(k, over)));
        let one = |i: usize| ScoredContact::new(format!("sip:{i}@h"), (i % 7) as f64 / 7.0).unwrap();
        let x = |n: usize| "x".repeat(n);
        let list = |n: usize| (0..n).map(|i| SmolStr::new(format!("t{i}"))).collect::<Vec<_>>();
        let tok = r.below(6);
        let (what, ok) = match k {
            0 => ("contacts", score_contacts((0..at(1024)).map(one).collect(), &[], &[], &vec![CapabilitySet::new(); at(1024)]).is_ok()),
            1 => ("accept headers", score_contacts(vec![one(1)], &vec![AcceptContact::new(); at(32)], &[], &[CapabilitySet::new()]).is_ok()),
            2 => ("reject headers", score_contacts(vec![one(1)], &[], &vec![RejectContact::new(); at(32)], &[CapabilitySet::new()]).is_ok()),
            3 => ("token", FeatureValue::new_token(x(at(64))).is_ok()),
            4 => ("token list", FeatureValue::new_token_list(list(at(20))).is_ok()),
            5 => ("token in a list", FeatureValue::new_token_list(vec!["a".into(), x(at(64)).into()]).is_ok()),
            6 => ("string", FeatureValue::new_string(x(at(256))).is_ok()),
            7 => ("token list read", FeatureValue::from_param_value(FeatureTag::Methods, Some(&format!("\"{}\"", list(at(20)).join(",")))).is_ok()),
            _ => match tok {
                0 => ("token in a list read", FeatureValue::from_param_value(FeatureTag::Methods, Some(&format!("\"a,{}\"", x(at(64))))).is_ok()),
                1 => ("token read", FeatureValue::from_param_value(FeatureTag::Mobility, Some(&x(at(64)))).is_ok()),
                2 => ("string read", FeatureValue::from_param_value(FeatureTag::Description, Some(&format!("\"{}\"", x(at(256))))).is_ok()),
                3 => ("value of a predicate", AcceptContact::new().with_feature(FeatureTag::Mobility, FeatureValue::Token(x(at(64)).into())).is_ok()),
                4 => ("list of a predicate", RejectContact::new().with_feature(FeatureTag::Methods, FeatureValue::TokenList(list(at(20)))).is_ok()),
                _ => ("string of a predicate", AcceptContact::new().with_feature(FeatureTag::Description, FeatureValue::String(x(at(256)).into())).is_ok()),
            },
        };
        rec.count(&format!("size: {what}"), 1);
        rec.check(ok == (over == 0), "size", || format!("{what}, {over} over"));
        // Not a number is no preference, and the two lists belong together.
        let bad = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        rec.check(ScoredContact::new("sip:a@h", bad).is_err() && one(1).with_caller_qa(bad).is_err() && AcceptContact::new().with_q(bad).is_err() && FeatureValue::new_numeric(bad).is_err(), "not a number accepted", || format!("{bad}"));
        let (n, m) = (r.below(4), r.below(4));
        let got = score_contacts((0..n).map(one).collect(), &[], &[], &vec![CapabilitySet::new(); m]);
        rec.check(got.is_ok() == (n == m), "lists of different lengths", || format!("{n} {m} {got:?}"));
    });

    c.run("disposition", c.n(60_000, 2_000_000), |r, rec| {
        let words = ["proxy", "redirect", "fork", "no-fork", "cancel", "no-cancel", "recurse", "no-recurse", "parallel", "sequential", "queue", "no-queue"];
        let picks: Vec<usize> = (0..r.below(6)).map(|_| r.below(14)).collect();
        let text = picks
            .iter()
            .map(|i| {
                let w = if *i < 12 { words[*i].to_string() } else { r.token(1, 6) };
                match r.below(4) {
                    0 => w.to_ascii_uppercase(),
                    1 => format!(" {w} "),
                    _ => w,
                }
            })
            .collect::<Vec<_>>()
            .join(",");
        let known: Vec<usize> = picks.iter().filter(|i| **i < 12).copied().collect();
        let Some(got) = rec.guard("disposition", &|| text.clone(), || RequestDisposition::parse(&text)) else { return };
        rec.eval(Some(&text));
        let coincidence = picks.iter().any(|i| *i >= 12) && text.split(',').zip(&picks).any(|(t, i)| *i >= 12 && words.contains(&t.trim().to_ascii_lowercase().as_str()));
        if coincidence {
            return;
        }
        rec.check(got.is_some() == !known.is_empty(), "disposition-read", || format!("{text:?}: {got:?}"));
        let Some(d) = got else { return };
        let is: [Option<&str>; 6] = [
            d.proxy().map(|x| match x { ProxyDirective::Proxy => "proxy", ProxyDirective::Redirect => "redirect" }),
            d.fork().map(|x| match x { ForkDirective::Fork => "fork", ForkDirective::NoFork => "no-fork" }),
            d.cancel().map(|x| match x { CancelDirective::Cancel => "cancel", CancelDirective::NoCancel => "no-cancel" }),
            d.recurse().map(|x| match x { RecurseDirective::Recurse => "recurse", RecurseDirective::NoRecurse => "no-recurse" }),
            d.parallel().map(|x| match x { ParallelDirective::Parallel => "parallel", ParallelDirective::Sequential => "sequential" }),
            d.queue().map(|x| match x { QueueDirective::Queue => "queue", QueueDirective::NoQueue => "no-queue" }),
        ];
        for (g, v) in is.iter().enumerate() {
            let given: Vec<&str> = known.iter().filter(|i| **i / 2 == g).map(|i| words[*i]).collect();
            let ok = match v {
                None => given.is_empty(),
                Some(w) => given.contains(w),
            };
            rec.check(ok, "disposition-value", || format!("{text:?}: {d:?}"));
        }
        // the same choices made through the interface, in any order
        let mut b = RequestDisposition::new();
        rec.check(b.is_empty() && !d.is_empty(), "disposition-empty", || format!("{b:?} {d:?}"));
        let mut order = [0, 1, 2, 3, 4, 5];
        r.shuffle(&mut order);
        for k in order {
            b = match k {
                0 => d.proxy().map_or(b.clone(), |x| b.clone().with_proxy(x)),
                1 => d.fork().map_or(b.clone(), |x| b.clone().with_fork(x)),
                2 => d.cancel().map_or(b.clone(), |x| b.clone().with_cancel(x)),
                3 => d.recurse().map_or(b.clone(), |x| b.clone().with_recurse(x)),
                4 => d.parallel().map_or(b.clone(), |x| b.clone().with_parallel(x)),
                _ => d.queue().map_or(b.clone(), |x| b.clone().with_queue(x)),
            };
        }
        rec.check(b == d && b.to_string() == d.to_string(), "disposition-built", || format!("{text:?}: {d:?}, built {b:?}"));
        let again = RequestDisposition::parse(&d.to_string());
        rec.check(again.as_ref() == Some(&d), "disposition-roundtrip", || format!("{text:?}: {d}"));
    });
    c.finish()
}
