//! C13: security agreement (RFC 3329): lists keep their entries and order,
//! ranking and choice follow the preferences, verification finds the agreed one.
use h_core::*;
use sip_core::*;

#[derive(Clone, Debug, PartialEq)]
struct Item {
    mech: String,
    q: Option<u32>, // thousandths
    params: Vec<(String, Option<String>)>,
}
const MECHS: [&str; 5] = ["tls", "digest", "ipsec-ike", "ipsec-man", "ipsec-3gpp"];
fn mech(r: &mut Rng) -> String {
    if r.chance(1, 6) {
        format!("x{}", r.lower(1, 2))
    } else {
        r.pick(&MECHS).to_string()
    }
}
fn items(r: &mut Rng, lo: usize, hi: usize) -> Vec<Item> {
    let n = lo + r.below(hi - lo + 1);
    let few = r.coin();
    (0..n)
        .map(|_| Item {
            mech: mech(r),
            q: if r.chance(1, 4) {
                None
            } else if few {
                Some(*r.pick(&[0u32, 1, 2, 500, 1000]))
            } else {
                Some(r.below(1001) as u32)
            },
            params: (0..r.below(3))
                .map(|i| {
                    let v = match r.below(4) {
                        0 => None,
                        1 => Some(format!("\"{}\"", r.string("ab;,= ", 1, 5).trim())),
                        _ => Some(r.alnum(1, 6)),
                    };
                    (format!("p{i}{}", r.lower(0, 3)), v)
                })
                .collect(),
        })
        .collect()
}
fn qtext(r: &mut Rng, q: u32) -> String {
    let full = if q == 1000 { "1.000".to_string() } else { format!("0.{q:03}") };
    if r.coin() {
        full
    } else {
        let t = full.trim_end_matches('0').trim_end_matches('.').to_string();
        if t.is_empty() {
            "0".into()
        } else {
            t
        }
    }
}
fn scramble(r: &mut Rng, s: &str) -> String {
    s.chars().map(|c| if r.chance(1, 3) { c.to_ascii_uppercase() } else { c }).collect()
}
/// the header value spelled some way
fn spell(r: &mut Rng, l: &[Item]) -> String {
    let mut out = String::new();
    for (i, it) in l.iter().enumerate() {
        if i > 0 {
            out.push_str(*r.pick(&[",", ", ", " , "]));
        }
        out.push_str(&scramble(r, &it.mech));
        let mut ps: Vec<String> = it
            .params
            .iter()
            .map(|(k, v)| match v {
                Some(v) => format!("{}={}", scramble(r, k), v),
                None => scramble(r, k),
            })
            .collect();
        if let Some(q) = it.q {
            let at = r.below(ps.len() + 1);
            let t = qtext(r, q);
            ps.insert(at, format!("{}={t}", r.pick(&["q", "Q"])));
        }
        for p in ps {
            out.push_str(*r.pick(&[";", "; ", " ;"]));
            out.push_str(&p);
        }
    }
    out
}
fn built(l: &[Item]) -> Result<Vec<SecurityEntry>, security::SecurityError> {
    l.iter()
        .map(|it| {
            let mut x = SecurityEntry::new(SecurityMechanism::parse(&it.mech)?);
            for (k, v) in &it.params {
                x.set_param(k, v.as_deref())?;
            }
            if let Some(q) = it.q {
                x.set_preference(q as f32 / 1000.0)?;
            }
            Ok(x)
        })
        .collect()
}
/// what an entry says
fn read(x: &SecurityEntry) -> Item {
    let q = x.preference().map(|q| (q * 1000.0).round() as u32);
    let mut params: Vec<(String, Option<String>)> = x
        .params()
        .iter()
        .filter(|(k, _)| !k.eq_ignore_ascii_case("q"))
        .map(|(k, v)| (k.to_ascii_lowercase(), v.as_ref().map(|v| v.to_string())))
        .collect();
    params.sort();
    Item { mech: x.mechanism().as_str().to_ascii_lowercase(), q, params }
}
fn want(it: &Item) -> Item {
    let mut it = it.clone();
    it.params.sort();
    it
}
fn rank(q: Option<u32>) -> u32 {
    q.unwrap_or(1)
}

fn main() {
    let mut ctx = Ctx::new(
        "C13",
        "mechanism lists in many spellings and built through the interface are compared entry by entry with what they were made from; ranking, best common mechanism and verification are compared with a reference computed on exact thousandths",
    );
    let n = ctx.n(240_000, 3_000_000);
    ctx.run("lists", n, |r, rec| {
        let server = items(r, 1, 5);
        let client = items(r, 1, 5);
        let ss = spell(r, &server);
        let cs = spell(r, &client);
        let verify = items(r, 1, 3);
        let vs = spell(r, &verify);
        let input = || format!("server [{ss}] client [{cs}] verify [{vs}]");
        rec.eval(Some(&input()));
        rec.sample(input);
        type Out = (Vec<Item>, Vec<Item>, Vec<Item>, Vec<Item>, Vec<Item>, Option<usize>, Vec<bool>, bool);
        let built_it = r.chance(1, 3);
        let out = rec.guard("security agreement", &input, || -> Result<Out, String> {
            let es = |x: security::SecurityError| format!("{x:?}");
            let (s, c, v) = if built_it {
                (
                    SecurityServerHeader::new(built(&server).map_err(es)?).map_err(es)?,
                    SecurityClientHeader::new(built(&client).map_err(es)?).map_err(es)?,
                    SecurityVerifyHeader::new(built(&verify).map_err(es)?).map_err(es)?,
                )
            } else {
                (
                    security::parse_security_server(&ss).map_err(es)?,
                    security::parse_security_client(&cs).map_err(es)?,
                    security::parse_security_verify(&vs).map_err(es)?,
                )
            };
            let best = s.find_best_match(&c).map(|b| s.entries().iter().position(|e| std::ptr::eq(e, b)).unwrap_or(99));
            let again = security::parse_security_server(&s.to_string()).map_err(es)? == s
                && security::parse_security_client(&c.to_string()).map_err(es)? == c
                && security::parse_security_verify(&v.to_string()).map_err(es)? == v
                && s.len() == s.entries().len()
                && c.len() == c.entries().len()
                && v.len() == v.entries().len()
                && !s.is_empty()
                && !c.is_empty()
                && !v.is_empty();
            Ok((
                s.entries().iter().map(read).collect(),
                c.entries().iter().map(read).collect(),
                v.entries().iter().map(read).collect(),
                s.sorted_by_preference().into_iter().map(read).collect(),
                c.sorted_by_preference().into_iter().map(read).collect(),
                best,
                s.entries().iter().map(|e| v.matches(e)).collect(),
                again,
            ))
        });
        let Some(out) = out else { return };
        let (s, c, v, s_sorted, c_sorted, best, matches, again) = match out {
            Ok(x) => x,
            Err(x) => {
                rec.violate("list refused", &format!("{} -> {x}", input()));
                return;
            }
        };
        let ws: Vec<Item> = server.iter().map(want).collect();
        let wc: Vec<Item> = client.iter().map(want).collect();
        let wv: Vec<Item> = verify.iter().map(want).collect();
        rec.check(s == ws && c == wc && v == wv, "entries", || format!("{} reads {s:?} / {c:?} / {v:?}", input()));
        rec.check(again, "written form", input);
        for (got, from, who) in [(&s_sorted, &ws, "server"), (&c_sorted, &wc, "client")] {
            let mut w = from.clone();
            // stable: equal preferences keep the order they came in
            w.sort_by(|a, b| rank(b.q).cmp(&rank(a.q)));
            rec.check(*got == w, "ranking", || format!("{} {who} ranked {got:?}", input()));
        }
        // highest product of the two preferences, the earlier server entry on a tie
        let mut w: Option<(usize, u32)> = None;
        for (i, e) in ws.iter().enumerate() {
            if let Some(ce) = wc.iter().find(|c| c.mech == e.mech) {
                let p = rank(e.q) * rank(ce.q);
                if w.is_none_or(|(_, b)| p > b) {
                    w = Some((i, p));
                }
            }
        }
        // products that differ by less than a millionth of the range are a tie in
        // single precision: any of them may win
        let ok = match (best, w) {
            (None, None) => true,
            (Some(g), Some((i, p))) => {
                g == i || {
                    ws.get(g).is_some_and(|e| {
                        wc.iter().find(|c| c.mech == e.mech).is_some_and(|ce| {
                            let gp = rank(e.q) * rank(ce.q);
                            p.abs_diff(gp) <= 1 && !(p == gp && rank(e.q) == rank(ws[i].q))
                        })
                    })
                }
            }
            _ => false,
        };
        rec.check(ok, "best match", || format!("{} picked {best:?}, expected {w:?}", input()));
        for (i, e) in ws.iter().enumerate() {
            let m = wv.iter().any(|x| x.mech == e.mech);
            rec.check(matches[i] == m, "verify", || format!("{} entry {i} matches={}", input(), matches[i]));
        }
    });
    ctx.run("preferences", n / 4, |r, rec| {
        let q = match r.below(5) {
            0 => r.below(1001) as f32 / 1000.0,
            1 => -(r.below(1000) as f32 + 1.0) / 1000.0,
            2 => 1.0 + (r.below(1000) as f32 + 1.0) / 1000.0,
            3 => *r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 0.0, 1.0, 0.9996, 0.0004]),
            _ => r.below(1_000_001) as f32 / 1_000_000.0,
        };
        let input = || format!("preference {q}");
        rec.eval(Some(&input()));
        rec.sample(input);
        let out = rec.guard("set_preference", &input, || {
            let mut x = SecurityEntry::tls();
            let ok = x.set_preference(q).is_ok();
            (ok, x.preference(), security::parse_security_client(&x.to_string()).ok().and_then(|h| h.entries()[0].preference()))
        });
        if let Some((ok, got, again)) = out {
            let good = (0.0..=1.0).contains(&q);
            rec.check(ok == good, "preference range", input);
            if ok && good {
                let near = |g: Option<f32>| g.is_some_and(|g| (g - q).abs() <= 0.000_51);
                rec.check(near(got) && near(again), "preference value", || format!("{} reads {got:?}, {again:?}", input()));
            } else if !ok {
                rec.check(got.is_none() && again.is_none(), "refused preference kept", input);
            }
        }
    });
    ctx.finish();
}
