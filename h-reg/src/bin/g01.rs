//! G01: the location service equals a model after every REGISTER.
use h_reg::*;
use sip_auth::{DigestAuthenticator, MemoryCredentialStore};
use sip_registrar::{BasicRegistrar, Binding, MemoryLocationStore, Registrar};
use smol_str::SmolStr;
use std::time::Duration;
use vmon::{clock, Ctx, Rec, Rng};

type R = BasicRegistrar<MemoryLocationStore, DigestAuthenticator<MemoryCredentialStore>>;

fn to_bind(b: &Binding, now: i64) -> Bind {
    Bind {
        contact: b.contact().into(),
        call_id: b.call_id().into(),
        cseq: b.cseq(),
        q: b.q_value(),
        expires_at: now + b.expires().as_nanos() as i64,
        ua: b.user_agent().map(|s| s.into()),
        path: b.path().map(|p| p.to_string().split(", ").map(|s| s.to_string()).collect()).unwrap_or_default(),
        instance: b.instance_id().map(|s| s.into()),
        reg_id: b.reg_id(),
    }
}
fn sorted(mut v: Vec<Bind>) -> Vec<Bind> {
    v.sort_by(|a, b| a.contact.cmp(&b.contact));
    v
}

fn history(r: &mut Rng, rec: &mut Rec) {
    clock::rewind();
    let min = *r.pick(&[60u64, 60, 61, 120]);
    let max = *r.pick(&[86_400u64, 86_400, 7200]);
    let default = *r.pick(&[3600u64, 120, 7200]);
    let cfg = Cfg { default, min, max };
    let mk = |s: &MemoryLocationStore| -> R {
        BasicRegistrar::new(s.clone(), None)
            .with_default_expires(Duration::from_secs(default))
            .with_min_expires(Duration::from_secs(min))
            .with_max_expires(Duration::from_secs(max))
    };
    let (s1, s2) = (MemoryLocationStore::new(), MemoryLocationStore::new());
    let advertise = r.chance(1, 4);
    let (g1, g2) = (mk(&s1).with_advertise_outbound_and_path(advertise), mk(&s2).with_advertise_outbound_and_path(advertise));
    let rt = tokio::runtime::Builder::new_current_thread().build().expect("rt");
    let na = r.range(1, 4) as usize;
    let aors = aor_pool(r, na);
    let crowd = r.chance(1, 8);
    let nc = if crowd { 26 } else { r.range(2, 8) as usize };
    let contacts = contact_pool(r, nc);
    let shape = Shape { call_ids: (0..r.range(1, 4)).map(|i| format!("c{i}@x")).collect(), refuse: r.chance(3, 4) };
    let mut m = Model::default();
    let mut cseq = 1u32;
    let mut trace: Vec<String> = vec![];
    for _ in 0..if crowd { 60 } else { r.range(3, 40) } {
        if r.chance(1, 3) {
            let d = match r.below(6) {
                0 => 60 * SEC,
                1 => 60 * SEC - 1,
                2 => r.range(1, 30) * SEC,
                3 => r.range(1, 4000) * SEC,
                4 => 500_000_000,
                _ => r.range(1, 90_000) * SEC,
            };
            clock::advance_ns(d);
            trace.push(format!("+{d}ns"));
        }
        let now = clock::offset_ns();
        if r.chance(1, 20) {
            let want = m.purge(now);
            // Reads may already have dropped expired bindings, so the count is an upper bound.
            for s in [&s1, &s2] {
                let got = s.cleanup_expired().expect("cleanup");
                rec.check(got <= want + 1000, "cleanup-count", || format!("{got} vs {want}"));
            }
            trace.push("cleanup".into());
        }
        let aor = r.pick(&aors).clone();
        let cs = match r.below(6) {
            0 => cseq,
            1 => cseq.saturating_sub(1).max(1),
            _ => {
                cseq += r.range(1, 3) as u32;
                cseq
            }
        };
        let g = reg(r, &aor, &contacts, &shape, cs);
        let (want, codes) = expected(&m, &g, &cfg, now);
        let req = g.request();
        let show = || format!("{:?}\nafter {:?}", g.headers, &trace[trace.len().saturating_sub(12)..]);
        let a = rec.guard("handle_register", &show, || g1.handle_register(&req));
        let b = rec.guard("handle_register_async", &show, || rt.block_on(g2.handle_register_async(&req)));
        let (Some(a), Some(b)) = (a, b) else { return };
        for (which, res, st) in [("sync", &a, &s1), ("async", &b, &s2)] {
            let code = res.as_ref().map(|x| x.code()).unwrap_or(500);
            if codes.is_empty() {
                if !rec.check(code == 200, "refused", || format!("{which}: answered {code} {:?} to an acceptable request {}", res.as_ref().map(|x| x.reason().to_string()), show())) {
                    return;
                }
            } else {
                rec.check(code >= 400 && (codes.contains(&code) || (codes.contains(&500) && code >= 400)), "wrong-refusal", || format!("{which}: answered {code}, expected one of {codes:?}: {}", show()));
            }
            for x in &aors {
                let w: Vec<Bind> = if x.key == g.aor { want.clone() } else { m.aors.get(&x.key).cloned().unwrap_or_default().into_iter().filter(|b| b.expires_at > now).collect() };
                let got = sorted(st.lookup(&x.key).expect("lookup").iter().map(|b| to_bind(b, now)).collect());
                rec.check(got == sorted(w.clone()), "bindings", || format!("{which}: bindings of {} are {got:#?}\nexpected {:#?}\nafter {code} to {}", x.key, sorted(w.clone()), show()));
            }
            if let Ok(resp) = res {
                respond(rec, which, resp, &g, &want, codes.is_empty(), now, min, advertise, &show);
            }
            rec.count(if code == 200 { "accepted" } else { "refused" }, 1);
        }
        m.aors.insert(g.aor.clone(), want);
        trace.push(format!("{} cseq {cs} {} -> {codes:?}", g.aor, g.headers.iter().filter(|h| h.0 == "Contact" || h.0 == "Expires").map(|h| h.1.as_str()).collect::<Vec<_>>().join(" | ")));
        rec.count("requests", 1);
    }
    rec.sample(|| trace.iter().take(6).cloned().collect::<Vec<_>>().join(" / "));
    rec.eval(Some(&trace));
}

#[allow(clippy::too_many_arguments)]
fn respond(rec: &mut Rec, which: &str, resp: &sip_core::Response, g: &Reg, want: &[Bind], ok: bool, now: i64, min: u64, advertise: bool, show: &dyn Fn() -> String) {
    let has = |n: &str| g.headers.iter().any(|h| h.0 == n);
    let copied = |n: &str| g.headers.iter().filter(|h| h.0 == n).map(|h| h.1.clone()).collect::<Vec<_>>();
    for n in ["Via", "From", "Call-ID", "CSeq"] {
        rec.check(values(resp, n) == copied(n), "response-copy", || format!("{which}: {n} of the response is {:?}: {}", values(resp, n), show()));
    }
    if has("To") {
        let to = values(resp, "To");
        let good = to.len() == 1
            && match &g.to_tag {
                Some(_) => to[0] == g.to,
                None => to[0].strip_prefix(&g.to).and_then(|t| t.strip_prefix(";tag=")).is_some_and(|t| t.len() >= 4 && t.chars().all(|c| c.is_ascii_alphanumeric())),
            };
        rec.check(good, "response-to", || format!("{which}: To {to:?} for {}", g.to));
    }
    rec.check(values(resp, "Content-Length") == ["0"], "response-length", || format!("{:?}", values(resp, "Content-Length")));
    if resp.code() == 423 {
        rec.check(values(resp, "Min-Expires") == [min.to_string()], "min-expires", || format!("{which}: Min-Expires {:?}", values(resp, "Min-Expires")));
    }
    if !ok {
        rec.check(!values(resp, "Contact").iter().any(|c| c != "*"), "refusal-lists-bindings", || show());
        return;
    }
    if g.star {
        return;
    }
    let mut got: Vec<(String, String, f32)> = vec![];
    for v in values(resp, "Contact") {
        match read_contact(&v) {
            Some((u, p)) => got.push((u, p.get("expires").cloned().unwrap_or_default(), p.get("q").and_then(|q| q.parse().ok()).unwrap_or(-1.0))),
            None => rec.violate("response-contact", format!("{which}: unreadable Contact {v:?}: {}", show())),
        }
    }
    got.sort_by(|a, b| a.0.cmp(&b.0));
    let w: Vec<(String, String, f32)> = sorted(want.to_vec()).into_iter().map(|b| (b.contact, ((b.expires_at - now) / SEC).to_string(), if b.expires_at - now < SEC { -1.0 } else { b.q })).collect();
    rec.check(got == w, "response-bindings", || format!("{which}: response lists {got:?}, bound {w:?}: {}", show()));
    let mut p: Vec<String> = values(resp, "Path");
    p.sort();
    let mut wp: Vec<String> = want.iter().filter(|b| !b.path.is_empty()).map(|b| b.path.join(", ")).collect();
    wp.sort();
    wp.dedup();
    rec.check(p == wp, "response-path", || format!("{which}: Path {p:?}, expected {wp:?}: {}", show()));
    let sup = values(resp, "Supported");
    rec.check(advertise == sup.iter().any(|s| s.contains("outbound") && s.contains("path")), "response-supported", || format!("{sup:?}"));
    let d = values(resp, "Date");
    rec.check(d.len() == 1 && d[0].ends_with(" GMT") && d[0].len() == 29, "response-date", || format!("{which}: Date {d:?}"));
}

/// The store itself: limits, refreshes at the limits, expiry.
fn store(r: &mut Rng, rec: &mut Rec) {
    clock::rewind();
    let s = MemoryLocationStore::new();
    let b = |aor: &str, c: &str, e: u64| Binding::new(SmolStr::new(aor), SmolStr::new(c), Duration::from_secs(e));
    let aor = "sip:a@example.com";
    let n = 20;
    for i in 0..n {
        let e = if i < 5 { 60 } else { 3600 };
        rec.check(s.upsert(b(aor, &format!("sip:c{i}@x"), e).unwrap()).is_ok(), "store-refuses", || format!("binding {i} refused"));
    }
    rec.check(s.upsert(b(aor, "sip:new@x", 60).unwrap()).is_err(), "store-limit", || "21st binding accepted".into());
    let k = r.below(n);
    rec.check(s.upsert(b(aor, &format!("sip:c{k}@x"), 3600).unwrap().with_flow_token(SmolStr::new("f1"))).is_ok(), "store-refresh-at-limit", || format!("refresh of binding {k} refused at the limit"));
    rec.check(s.lookup(aor).unwrap().iter().any(|b| b.flow_token() == Some("f1")), "store-flow", || "flow token lost".into());
    rec.check(s.upsert(b("sip:other@example.com", "sip:new@x", 60).unwrap()).is_ok(), "store-cross-aor", || "other AOR affected".into());
    clock::advance_ns(60 * SEC);
    let short = 5 - (k < 5) as usize;
    if r.coin() {
        rec.check(s.lookup(aor).unwrap().len() == n - short, "store-expiry", || format!("{} bindings left", s.lookup(aor).unwrap().len()));
    }
    for i in 0..short {
        rec.check(s.upsert(b(aor, &format!("sip:n{i}@x"), 60).unwrap()).is_ok(), "store-expired-count", || format!("expired bindings count towards the limit ({i} of {short})"));
    }
    rec.check(s.upsert(b(aor, "sip:new@x", 60).unwrap()).is_err(), "store-limit", || "21st binding accepted".into());
    s.remove(aor, "sip:n0@x").unwrap();
    rec.check(s.lookup(aor).unwrap().len() == n - 1, "store-remove", || "remove".into());
    clock::advance_ns(3600 * SEC);
    let got = s.cleanup_expired().unwrap();
    rec.check(s.lookup(aor).unwrap().is_empty() && got <= n + 1, "store-cleanup", || format!("cleanup {got}"));
    s.remove_all(aor).unwrap();
    rec.check(s.lookup(aor).unwrap().is_empty(), "store-remove-all", || "remove_all".into());
    // field limits
    for (e, ok) in [(59, false), (60, true), (86_400, true), (86_401, false)] {
        rec.check(b(aor, "sip:c@x", e).is_ok() == ok, "binding-limits", || format!("expires {e}"));
    }
    for (len, ok) in [(512, true), (513, false)] {
        rec.check(b(&"a".repeat(len), "sip:c@x", 60).is_ok() == ok && b(aor, &"c".repeat(len), 60).is_ok() == ok, "binding-limits", || format!("length {len}"));
    }
    for c in ["\r", "\n", "\0", "\u{7f}"] {
        let t = format!("sip:a{c}b@x");
        rec.check(b(&t, "sip:c@x", 60).is_err() && b(aor, &t, 60).is_err(), "binding-controls", || format!("{t:?}"));
        let x = || b(aor, "sip:c@x", 60).unwrap();
        rec.check(x().with_call_id(SmolStr::new(&t)).is_err() && x().with_user_agent(SmolStr::new(&t)).is_err(), "binding-controls", || format!("{t:?}"));
    }
    rec.eval(Some(&(k, short)));
}

/// The total limit: nothing beyond it, refreshes and freed room still served.
fn total(r: &mut Rng, rec: &mut Rec) {
    clock::rewind();
    let s = MemoryLocationStore::new();
    let b = |a: usize, c: usize, e: u64| Binding::new(SmolStr::new(format!("sip:u{a}@x")), SmolStr::new(format!("sip:c{c}@x")), Duration::from_secs(e)).unwrap();
    for a in 0..5000 {
        for c in 0..20 {
            if s.upsert(b(a, c, if a == 7 { 60 } else { 86_400 })).is_err() {
                rec.violate("total-early", format!("refused at {}", a * 20 + c));
                return;
            }
        }
    }
    rec.check(s.upsert(b(5000, 0, 60)).is_err(), "total-limit", || "binding 100001 accepted".into());
    let (a, c) = (r.below(5000), r.below(20));
    rec.check(s.upsert(b(a, c, 86_400)).is_ok(), "total-refresh", || format!("refresh of u{a}/c{c} refused at the total limit"));
    clock::advance_ns(61 * SEC);
    rec.check(s.upsert(b(5000, 0, 60)).is_ok(), "total-expired", || "expired bindings count towards the total limit".into());
    rec.eval(Some(&(a, c)));
    rec.count("bindings_stored", 100_000);
}

/// AOR normalisation: equal spellings share one key, different users never do.
fn keys(r: &mut Rng, rec: &mut Rec) {
    let v = aor_pool(r, 3);
    for a in &v {
        for f in &a.forms {
            let u = match sip_core::Uri::parse(f) {
                Ok(u) => u,
                Err(e) => {
                    rec.violate("aor-parse", format!("{f}: {e:?}"));
                    continue;
                }
            };
            let k = sip_registrar::normalize_aor(&u);
            rec.check(k.as_deref() == Ok(a.key.as_str()), "aor-key", || format!("{f} -> {k:?}, expected {}", a.key));
            rec.eval(Some(f));
        }
    }
    for bad in ["mailto:a@example.com", "http://example.com", "urn:service:sos"] {
        if let Ok(u) = sip_core::Uri::parse(bad) {
            rec.check(sip_registrar::normalize_aor(&u).is_err(), "aor-scheme", || bad.into());
        }
    }
}

fn main() {
    let mut cx = Ctx::new("G01", "distinct histories of REGISTER requests and clock advances (text of every request), store scenarios and address spellings");
    if !clock::works() {
        std::process::exit(3);
    }
    clock::freeze();
    cx.assume("refusals may use any of the codes that apply when several things are wrong with a request");
    let n = cx.n(4000, 80_000);
    cx.run_seq("histories", n, history);
    let n = cx.n(400, 4000);
    cx.run_seq("store", n, store);
    let n = cx.n(1, 4);
    cx.run_seq("total", n, total);
    let n = cx.n(20_000, 200_000);
    cx.run("keys", n, keys);
    cx.finish()
}
