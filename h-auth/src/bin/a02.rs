//! A02: nonces live exactly as long as configured and no request is authenticated twice.
use h_auth::*;
use sip_auth::*;
use sip_core::Method;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Barrier};
use std::time::Duration;
use vmon::{clock, Ctx, Rng};

const JUMP: u32 = 1000;
const NC_MAX: u32 = 1_000_000;

#[derive(Clone, Debug)]
struct M {
    value: String,
    born: i64,
    last_nc: u32,
    last_req: Option<(String, String, Vec<u8>)>,
    used: i64,
}

fn header(d: &D, opaque: &str) -> String {
    format!(
        "Digest username=\"{}\", realm=\"{}\", nonce=\"{}\", uri=\"{}\", response=\"{}\", opaque=\"{opaque}\", qop={}, nc={}, cnonce=\"{}\", algorithm={}",
        d.user, d.realm, d.nonce, d.uri, d.response(), d.qop, d.nc, d.cnonce, d.alg
    )
}

fn req(d: &D, opaque: &str) -> sip_core::Request {
    let w = header(d, opaque);
    let mut hs = base_headers();
    hs.push(("Authorization", &w));
    request(&d.method, &d.uri, &hs, &d.body)
}

fn main() {
    self_test();
    let mut ctx = Ctx::new("A02", "operation history (hash of every operation and result) or concurrent contest outcome");
    if !clock::works() {
        eprintln!("virtual clock is not effective");
        std::process::exit(3);
    }
    ctx.assume("time is read through clock_gettime, which the harness interposes; exact-instant expiry boundaries are not sampled");
    clock::freeze();

    // 1. sequential histories against a model of the documented rules
    let n = ctx.n(4_000, 150_000);
    ctx.run_seq("history", n, |r, rec| {
        let ttl = *r.pick(&[5i64, 30, 60, 300]) * 1_000_000_000;
        let age = *r.pick(&[1i64, 10, 40, 1000]) * 1_000_000_000;
        let qop = *r.pick(&["auth", "auth-int"]);
        let srv = DigestAuthenticator::new("r", MemoryCredentialStore::with(vec![Credentials::new("bob", "pw", "r")]))
            .with_qop(qop_of(qop).unwrap());
        // both orders of configuring must mean the same
        let srv = if r.coin() {
            srv.with_nonce_ttl(Duration::from_nanos(ttl as u64)).with_max_request_age(Duration::from_nanos(age as u64))
        } else {
            srv.with_max_request_age(Duration::from_nanos(age as u64)).with_nonce_ttl(Duration::from_nanos(ttl as u64))
        };
        let mut ms: Vec<M> = vec![];
        let mut log: Vec<String> = vec![];
        let mut now = 0i64;
        let mut seen: HashMap<(String, u32), (String, String, Vec<u8>)> = HashMap::new();
        let q0 = request("REGISTER", "sip:r", &base_headers(), b"");
        for _ in 0..r.range(5, 40) {
            match r.below(10) {
                0 | 1 if ms.len() < 4 => {
                    let ch = if r.coin() { Authenticator::challenge(&srv, &q0) } else { srv.challenge_stale(&q0) }.unwrap();
                    let (_, p) = params(ch.headers().get("WWW-Authenticate").unwrap()).unwrap();
                    ms.push(M { value: p["nonce"].clone(), born: now, last_nc: 0, last_req: None, used: now });
                    log.push(format!("t={now} challenge -> #{}", ms.len() - 1));
                }
                2 | 3 => {
                    let d = match r.below(4) {
                        0 => r.range(1, 900_000_000),
                        1 => age + r.range(-400_000_000, 400_000_000),
                        2 => ttl + r.range(-400_000_000, 400_000_000),
                        _ => r.range(1, 5_000_000_000),
                    }
                    .max(1);
                    clock::advance_ns(d);
                    now += d;
                    log.push(format!("advance {d}"));
                }
                _ if !ms.is_empty() => {
                    let i = r.below(ms.len());
                    let bad = r.chance(1, 4);
                    let m = ms[i].clone();
                    let nc = match r.below(8) {
                        0 => m.last_nc,
                        1 => m.last_nc.saturating_sub(1),
                        2 => m.last_nc + JUMP,
                        3 => m.last_nc + JUMP + 1,
                        4 => m.last_nc + r.range(1, 999) as u32,
                        5 => *r.pick(&[NC_MAX, NC_MAX + 1, u32::MAX, 1]),
                        _ => m.last_nc + 1,
                    };
                    if nc == 0 {
                        continue;
                    }
                    let again = nc == m.last_nc && r.chance(2, 3);
                    let mut d = D {
                        alg: "SHA-256",
                        user: "bob".into(),
                        realm: "r".into(),
                        pass: if bad { "wrong".into() } else { "pw".into() },
                        method: r.pick(&["REGISTER", "INVITE", "BYE"]).to_string(),
                        uri: r.pick(&["sip:r", "sip:a@r", "sip:b@r"]).to_string(),
                        nonce: m.value.clone(),
                        nc: format!("{nc:08x}"),
                        cnonce: "c".into(),
                        qop: qop.into(),
                        body: if r.coin() { vec![] } else { r.bytes(1, 2) },
                    };
                    if again {
                        if let Some((a, b, c)) = &m.last_req {
                            d.method = a.clone();
                            d.uri = b.clone();
                            d.body = c.clone();
                        }
                    }
                    let fresh = now - m.born < ttl;
                    let window = m.last_nc == 0 || now - m.used < age;
                    let this = (d.method.clone(), d.uri.clone(), d.body.clone());
                    let nc_ok = nc <= NC_MAX
                        && nc <= m.last_nc.saturating_add(JUMP)
                        && (nc > m.last_nc || (nc == m.last_nc && m.last_req.as_ref() == Some(&this)));
                    let want = !bad && fresh && window && nc_ok;
                    let q = req(&d, srv.opaque());
                    // what the server will tell the client about this nonce
                    let stale = srv.nonce_is_stale(&q);
                    let reuse = srv.nonce_reuse_expired(&q);
                    rec.check(srv.is_nonce_stale(&m.value) == stale && srv.is_nonce_reuse_expired(&m.value) == reuse, "flags-agree", || format!("{log:?}: nonce #{i}"));
                    let other = format!("{}x", m.value);
                    rec.check(!srv.is_nonce_stale(&other) && !srv.is_nonce_reuse_expired(&other), "unknown-flags", || other.clone());
                    rec.check(stale != fresh, "stale-flag", || format!("{log:?}: nonce #{i} fresh={fresh} but stale={stale}"));
                    let want_reuse = fresh && m.last_nc > 0 && !window;
                    rec.check(reuse == want_reuse, "reuse-flag", || format!("{log:?}: nonce #{i} reuse flag {reuse}, expected {want_reuse}"));
                    let got = srv.verify(&q, q.headers()).map_err(|e| e.to_string());
                    log.push(format!("t={now} #{i} nc={nc} {} {} body={:?} bad={bad} -> {got:?}", d.method, d.uri, d.body));
                    rec.count(if want { "expected accept" } else { "expected refuse" }, 1);
                    let key = match (want, &got) {
                        (true, Ok(true)) => None,
                        (true, _) => Some("refused"),
                        (false, Ok(true)) if bad => Some("accepted-bad-password"),
                        (false, Ok(true)) if !fresh => Some("accepted-expired"),
                        (false, Ok(true)) if !window => Some("accepted-idle"),
                        (false, Ok(true)) => Some("accepted-replay"),
                        _ => None,
                    };
                    if let Some(k) = key {
                        rec.violate(k, format!("ttl={ttl} age={age} qop={qop} model {m:?}: {}", log.join("; ")));
                        return;
                    }
                    if got == Ok(true) {
                        let m = &mut ms[i];
                        m.last_nc = nc;
                        m.last_req = Some(this.clone());
                        m.used = now;
                        if let Some(before) = seen.insert((m.value.clone(), nc), this.clone()) {
                            rec.check(before == this, "two-requests-one-nc", || log.join("; "));
                        }
                        // authentication info for an accepted request must not open a second use
                        if r.chance(1, 4) {
                            let info = srv.build_auth_info(&q, b"", None).ok().flatten();
                            rec.check(info.is_some(), "auth-info-missing", || log.join("; "));
                        }
                    }
                }
                _ => {
                    let q = req(
                        &D {
                            alg: "SHA-256",
                            user: "bob".into(),
                            realm: "r".into(),
                            pass: "pw".into(),
                            method: "REGISTER".into(),
                            uri: "sip:r".into(),
                            nonce: r.alnum(32, 32),
                            nc: "00000001".into(),
                            cnonce: "c".into(),
                            qop: qop.into(),
                            body: vec![],
                        },
                        srv.opaque(),
                    );
                    rec.check(srv.verify(&q, q.headers()).map_err(|e| e.to_string()) != Ok(true), "accepted-foreign", || log.join("; "));
                    rec.check(!srv.nonce_is_stale(&q) && !srv.nonce_reuse_expired(&q), "foreign-stale", || log.join("; "));
                    // a request without credentials has no nonce to be stale
                    rec.check(!srv.nonce_is_stale(&q0) && !srv.nonce_reuse_expired(&q0) && srv.verify(&q0, q0.headers()).map_err(|e| e.to_string()) != Ok(true), "nothing-stale", || log.join("; "));
                }
            }
        }
        rec.eval(Some(&log.join(";")));
        rec.sample(|| log.join("; "));
    });

    // 2. the nonce store: bounded, expired first, then oldest first
    let n = ctx.n(1_500, 40_000);
    ctx.run_seq("store", n, |r, rec| {
        let cap = *r.pick(&[1usize, 2, 3, 5, 9, 10, 20, 50]);
        let ttl = 60_000i64;
        let nm = NonceManager::new(Duration::from_millis(ttl as u64)).with_max_nonces(cap);
        let mut live: Vec<(String, i64)> = vec![];
        let mut now = 0i64;
        let mut h = String::new();
        let mut nc = 0u32;
        for _ in 0..r.range(10, 120) {
            if r.chance(1, 5) {
                let d = *r.pick(&[7i64, 1_003, 20_011, 59_001, 61_007]);
                clock::advance_ms(d);
                now += d;
                h.push_str(&format!("+{d} "));
            }
            if r.chance(1, 12) {
                nm.cleanup();
                live.retain(|x| now - x.1 < ttl);
                rec.check(live.iter().all(|x| nm.verify(&x.0)), "cleanup-live", || h.clone());
            }
            // using a nonce does not make it younger
            if !live.is_empty() && r.chance(1, 3) {
                let (v, b) = r.pick(&live).clone();
                nc += 1;
                let ok = nm.verify_with_nc(&v, nc, &sip_core::Method::Register, "sip:r", b"");
                if now - b >= ttl {
                    rec.check(!ok, "expired-used", || h.clone());
                } else if ok {
                    rec.count("used", 1);
                }
                h.push('u');
            }
            let before = nm.count();
            let nonce = nm.generate();
            h.push('g');
            // distinct instants keep "oldest" well defined
            clock::advance_ns(1000);
            live.push((nonce.value().to_string(), now));
            rec.check(nm.verify(nonce.value()), "new-nonce-unknown", || h.clone());
            rec.check(nm.count() <= cap, "over-cap", || format!("cap {cap}: {} nonces held; {h}", nm.count()));
            if before < cap {
                rec.check(live.iter().all(|x| now - x.1 >= ttl || nm.verify(&x.0)), "evicted-early", || format!("cap {cap} {h}"));
            } else {
                // whatever was dropped was expired or older than everything kept
                let kept: Vec<bool> = live.iter().map(|x| now - x.1 < ttl && nm.verify(&x.0)).collect();
                let firstk = kept.iter().position(|k| *k).unwrap_or(0);
                rec.check(kept[firstk..].iter().all(|k| *k), "evicted-younger", || format!("cap {cap} {h} {kept:?}"));
                rec.count("evictions", 1);
                live = live.iter().zip(&kept).filter(|(_, k)| **k).map(|(x, _)| x.clone()).collect();
                if cap >= 10 {
                    // making room must not throw away most of the valid nonces
                    rec.check(live.len() * 2 >= cap || before > live.len() + cap / 2, "evicted-most", || format!("cap {cap} kept {} {h}", live.len()));
                }
            }
            for (v, b) in &live {
                if now - b > ttl {
                    rec.check(!nm.verify(v), "expired-valid", || h.clone());
                }
            }
        }
        rec.eval(Some(&(cap, &h)));
    });

    // 3. contests: concurrent requests under one nonce
    let n = ctx.n(700, 20_000);
    ctx.run_seq("contest", n, |r, rec| {
        let t = *r.pick(&[2usize, 4, 8]);
        let srv = Arc::new(DigestAuthenticator::new("r", MemoryCredentialStore::with(vec![Credentials::new("bob", "pw", "r")])));
        let q0 = request("REGISTER", "sip:r", &base_headers(), b"");
        let ch = Authenticator::challenge(&*srv, &q0).unwrap();
        let (_, p) = params(ch.headers().get("WWW-Authenticate").unwrap()).unwrap();
        let mode = r.below(3);
        let per = r.range(1, 6) as usize;
        let mk = |k: usize, j: usize, r: &mut Rng| {
            let d = D {
                alg: "SHA-256",
                user: "bob".into(),
                realm: "r".into(),
                pass: "pw".into(),
                method: "INVITE".into(),
                uri: match mode {
                    0 => format!("sip:t{k}@r"),       // different requests, same counts
                    1 => "sip:same@r".to_string(),     // one request retransmitted on every thread
                    _ => format!("sip:u{}@r", r.below(2)), // mixed
                },
                nonce: p["nonce"].clone(),
                nc: format!("{:08x}", if mode == 1 { 1 } else { 1 + j }),
                cnonce: "c".into(),
                qop: "auth".into(),
                body: vec![],
            };
            (d.clone(), req(&d, srv.opaque()))
        };
        let mut work: Vec<Vec<(D, sip_core::Request)>> = (0..t).map(|k| (0..per).map(|j| mk(k, j, r)).collect()).collect();
        for w in work.iter_mut() {
            if r.coin() {
                r.shuffle(w);
            }
        }
        let bar = Arc::new(Barrier::new(t));
        let hs: Vec<_> = work
            .into_iter()
            .map(|w| {
                let (srv, bar) = (srv.clone(), bar.clone());
                std::thread::spawn(move || {
                    bar.wait();
                    w.into_iter().map(|(d, q)| (d.nc.clone(), d.uri.clone(), srv.verify(&q, q.headers()).unwrap_or(false))).collect::<Vec<_>>()
                })
            })
            .collect();
        let mut by: BTreeMap<String, Vec<(String, bool)>> = BTreeMap::new();
        let mut per_thread = vec![];
        for h in hs {
            let v = h.join().expect("thread");
            per_thread.push(v.clone());
            for (nc, u, ok) in v {
                by.entry(nc).or_default().push((u, ok));
            }
        }
        let show = || format!("mode {mode} threads {t}: {per_thread:?}");
        for (nc, v) in &by {
            let mut us: Vec<&String> = v.iter().filter(|x| x.1).map(|x| &x.0).collect();
            us.sort();
            us.dedup();
            rec.check(us.len() <= 1, "one-count-two-requests", || format!("nc {nc}: {}", show()));
        }
        if mode == 1 {
            rec.check(per_thread.iter().flatten().all(|x| x.2), "retransmission-refused", show);
        }
        // the highest count presented always wins for exactly one request
        let top = by.iter().next_back().unwrap();
        rec.check(top.1.iter().any(|x| x.1), "highest-refused", show);
        rec.eval(Some(&format!("{mode} {per_thread:?}")));
        rec.count(&format!("mode {mode}"), 1);
        rec.count("accepted", per_thread.iter().flatten().filter(|x| x.2).count() as u64);
        rec.sample(show);
    });

    // 4. concurrent challenges: bounded and distinct
    let n = ctx.n(60, 1_500);
    ctx.run_seq("issue", n, |r, rec| {
        let cap = r.range(1, 64) as usize;
        let nm = Arc::new(NonceManager::new(Duration::from_secs(60)).with_max_nonces(cap));
        let t = 8;
        let per = 60;
        let bar = Arc::new(Barrier::new(t));
        let hs: Vec<_> = (0..t)
            .map(|_| {
                let (nm, bar) = (nm.clone(), bar.clone());
                std::thread::spawn(move || {
                    bar.wait();
                    let mut worst = 0;
                    let mut out = vec![];
                    for k in 0..per {
                        out.push(nm.generate().value().to_string());
                        if k % 5 == 4 {
                            // count while nobody inserts: a sum over shards is only true then
                            bar.wait();
                            worst = worst.max(nm.count());
                            bar.wait();
                        }
                    }
                    (worst, out)
                })
            })
            .collect();
        let mut all = vec![];
        let mut worst = 0;
        for h in hs {
            let (w, o) = h.join().expect("thread");
            worst = worst.max(w);
            all.extend(o);
        }
        let total = all.len();
        all.sort();
        all.dedup();
        rec.check(all.len() == total, "duplicate-nonce", || format!("{} of {total} distinct", all.len()));
        rec.check(all.iter().all(|x| x.len() >= 20 && x.chars().all(|c| c.is_ascii_alphanumeric() || "+/=._-".contains(c))), "weak-nonce", || format!("{:?}", all[0]));
        rec.check(worst <= cap, "over-cap-concurrent", || format!("cap {cap}: {worst} nonces held by {t} threads"));
        let _ = nm.verify_with_nc(&all[0], 1, &Method::Register, "sip:r", b"");
        rec.eval(Some(&(cap, worst, &all[0])));
    });

    // 5. under one count only the very same request passes again
    let n = ctx.n(20_000, 400_000);
    ctx.run_seq("same-request", n, |r, rec| {
        clock::rewind();
        let nm = NonceManager::new(Duration::from_secs(60));
        let nonce = nm.generate();
        let abc = *r.pick(&["ab:1", "abcdefghijklmnop:;=,0123456789", ":", "\r\n :a"]);
        let method = r.pick(&["MESSAGE", "INFO", "PUBLISH", "REGISTER", "X", "XA"]).to_string();
        let long = r.chance(1, 10);
        let ulen = r.range(0, if long { 300 } else { 12 }) as usize;
        let uri = format!("sip:{}", r.string(abc, ulen, ulen));
        let blen = if r.chance(1, 4) { 0 } else { r.range(0, if long { 5000 } else { 16 }) as usize };
        let body = r.string(abc, blen, blen);
        let (mut m2, mut u2, mut b2) = (method.clone(), uri.clone(), body.clone());
        let how = r.below(6);
        let edit = |r: &mut Rng, s: &str| -> String {
            let mut v: Vec<char> = s.chars().collect();
            let i = r.below(v.len() + 1);
            match r.below(3) {
                0 => v.insert(i, 'z'),
                1 if i < v.len() => v[i] = if v[i] == 'q' { 'w' } else { 'q' },
                _ if i < v.len() => {
                    v.remove(i);
                }
                _ => v.push('y'),
            }
            v.into_iter().collect()
        };
        match how {
            0 => u2 = edit(r, &uri),
            1 => b2 = edit(r, &body),
            2 => m2 = format!("{method}A"),
            // The same text split elsewhere, with and without separators between.
            3 | 4 => {
                let sep = *r.pick(&["", ":", "::"]);
                let all: Vec<char> = format!("{uri}{sep}{body}").chars().collect();
                let k = r.below(all.len() + 1);
                u2 = all[..k].iter().collect();
                b2 = all[k..].iter().collect();
                if let (true, Some(t)) = (r.coin(), b2.strip_prefix(':')) {
                    b2 = t.to_string();
                }
            }
            _ => {}
        }
        let same = (&m2, &u2, &b2) == (&method, &uri, &body);
        let m = |x: &str| x.parse::<Method>().expect("method");
        let nc = *r.pick(&[1u32, 1, 2, 9]);
        let first = nm.verify_with_nc(nonce.value(), nc, &m(&method), &uri, body.as_bytes());
        let again = nm.verify_with_nc(nonce.value(), nc, &m(&m2), &u2, b2.as_bytes());
        let third = nm.verify_with_nc(nonce.value(), nc, &m(&method), &uri, body.as_bytes());
        let show = || format!("nc {nc}: {method} {uri:?} {body:?} -> {first}; {m2} {u2:?} {b2:?} -> {again}; the first again -> {third}");
        rec.check(first && third && again == same, "same-request", show);
        rec.count(if same { "retransmissions" } else { "different" }, 1);
        rec.eval(Some(&(method, uri, body, m2, u2, b2)));
    });

    // 6. many nonces are all different and unpredictable prefixes
    ctx.run_seq("unique", 1, |_, rec| {
        let nm = NonceManager::new(Duration::from_secs(60));
        let mut v: Vec<String> = (0..20_000).map(|_| nm.generate().value().to_string()).collect();
        v.sort();
        let n = v.len();
        v.dedup();
        rec.check(v.len() == n, "duplicate-nonce", || "repeat among 20000".into());
        let pre: std::collections::HashSet<&str> = v.iter().map(|x| &x[..8.min(x.len())]).collect();
        let suf: std::collections::HashSet<&str> = v.iter().map(|x| &x[x.len().saturating_sub(8)..]).collect();
        rec.check(pre.len() * 100 > n * 99 && suf.len() * 100 > n * 99, "predictable", || format!("{} prefixes, {} suffixes of {n}", pre.len(), suf.len()));
        rec.eval(Some("unique"));
    });
    ctx.finish()
}
