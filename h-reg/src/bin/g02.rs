//! G02: only the authenticated owner of an address changes its registrations,
//! and rate limited sources change nothing.
use h_auth::{params, D};
use h_reg::values;
use sip_auth::{Credentials, DigestAlgorithm, DigestAuthenticator, MemoryCredentialStore, Qop};
use sip_core::{Request, Response};
use sip_ratelimit::{RateLimitConfig, RateLimiter};
use sip_registrar::{BasicRegistrar, MemoryLocationStore, Registrar};
use smol_str::SmolStr;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use vmon::{clock, Ctx, Rec, Rng};

type R = BasicRegistrar<MemoryLocationStore, DigestAuthenticator<MemoryCredentialStore>>;

/// (identity, user name as stored)
const USERS: [(&str, &str); 12] = [
    ("alice", "alice"),
    ("alice", "ALICE"),
    ("bob", "bob"),
    ("cafe", "caf\u{e9}"),
    ("cafe", "cafe\u{301}"),
    ("cyr", "\u{430}lice"),
    ("at", "a@b"),
    ("a", "a"),
    ("b", "b"),
    ("tel", "+15551234567"),
    ("loc", "5551234"),
    ("evil", "alice@evil.com"),
];
/// (identity that owns it, To URI, key in the location service)
const AORS: [(&str, &str, &str); 18] = [
    ("alice", "sip:alice@example.com", "sip:alice@example.com"),
    ("alice", "sip:Alice@example.com", "sip:Alice@example.com"),
    ("alice", "sip:%61lice@EXAMPLE.com", "sip:alice@example.com"),
    ("alice", "sips:alice@example.com", "sips:alice@example.com"),
    // Encoded delimiters in a user part: nobody's address.
    ("", "sip:alice%40example.com@example.com", "sip:alice@example.com"),
    ("", "sip:alice%40evil.com@example.com", "sip:alice@evil.com@example.com"),
    ("bob", "sip:bob@example.com;transport=tcp", "sip:bob@example.com"),
    ("bob", "sip:bob@example.com:5061", "sip:bob@example.com:5061"),
    ("cafe", "sip:caf%C3%A9@example.com", "sip:caf\u{e9}@example.com"),
    ("cafe", "sip:cafe%CC%81@example.com", "sip:cafe\u{301}@example.com"),
    ("cyr", "sip:%D0%B0lice@example.com", "sip:\u{430}lice@example.com"),
    ("", "sip:a%40b@example.com", "sip:a@b@example.com"),
    ("a", "sip:a@example.com", "sip:a@example.com"),
    ("b", "sip:b@example.com", "sip:b@example.com"),
    ("tel", "tel:+1-555-123-4567", "tel:+15551234567"),
    ("tel", "tel:+15551234567;ext=9", "tel:+15551234567;ext=9"),
    ("loc", "tel:5551234;phone-context=example.com", "tel:5551234;phone-context=example.com"),
    ("", "sip:example.com", "sip:example.com"),
];

struct Side {
    reg: R,
    store: MemoryLocationStore,
    /// Keys bound, per the model, with their contact sets.
    bound: BTreeMap<&'static str, BTreeSet<String>>,
    used: BTreeMap<String, u32>,
}

fn build(hs: &[(String, String)]) -> Request {
    let hs: Vec<(&str, &str)> = hs.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    h_auth::request("REGISTER", "sip:example.com", &hs, b"")
}

/// Credentials text for one header value.
fn cred(d: &D, opaque: Option<&str>, r: &mut Rng) -> String {
    let mut p = vec![
        format!("username=\"{}\"", d.user.replace('\\', "\\\\").replace('"', "\\\"")),
        format!("realm=\"{}\"", d.realm),
        format!("nonce=\"{}\"", d.nonce),
        format!("uri=\"{}\"", d.uri),
        format!("response=\"{}\"", d.response()),
        format!("algorithm={}", d.alg),
        format!("cnonce=\"{}\"", d.cnonce),
        format!("nc={}", d.nc),
        format!("qop={}", d.qop),
    ];
    if let Some(o) = opaque {
        p.push(format!("opaque=\"{o}\""));
    }
    r.shuffle(&mut p);
    format!("Digest {}", p.join(", "))
}

fn history(r: &mut Rng, rec: &mut Rec) {
    clock::rewind();
    let proxy = r.chance(1, 5);
    let (alg, alg_name) = *r.pick(&[(DigestAlgorithm::Md5, "MD5"), (DigestAlgorithm::Sha256, "SHA-256")]);
    let limited = r.chance(1, 3);
    let burst = r.range(3, 9) as u32;
    let rt = tokio::runtime::Builder::new_current_thread().build().expect("rt");
    let with_store: Vec<(usize, String)> = (0..USERS.len()).filter_map(|i| r.chance(4, 5).then(|| (i, r.alnum(4, 8)))).collect();
    let mk = |_: ()| {
        let store = MemoryLocationStore::new();
        let mut cs = MemoryCredentialStore::new();
        for (i, p) in &with_store {
            cs.add(Credentials::new(USERS[*i].1, p, "example.com"));
        }
        let auth = DigestAuthenticator::new("example.com", cs).with_algorithm(alg).with_qop(Qop::Auth).with_proxy_auth(proxy);
        let mut reg = BasicRegistrar::new(store.clone(), Some(auth));
        if limited {
            let cfg = RateLimitConfig::new(burst, 3600).expect("cfg");
            reg = reg.with_rate_limiter_key_fn(RateLimiter::new(cfg), Arc::new(|q: &Request| q.headers().get("X-Source").map(SmolStr::new)));
        }
        Side { reg, store, bound: BTreeMap::new(), used: BTreeMap::new() }
    };
    let mut sides = [mk(()), mk(())];
    let mut cseq = 0;
    let mut trace: Vec<String> = vec![];
    for _ in 0..r.range(3, 16) {
        let source = if r.chance(1, 6) { None } else { Some(format!("10.0.0.{}", r.range(1, 3))) };
        let (owner, to, key) = *r.pick(&AORS);
        let victim = USERS.iter().find(|u| u.0 == owner).map(|u| u.1).unwrap_or("alice");
        // Who authenticates: the owner, or someone else.
        let actor = if r.chance(1, 2) { with_store.iter().filter(|(i, _)| USERS[*i].0 == owner).cloned().collect::<Vec<_>>() } else { with_store.clone() };
        let actor = if actor.is_empty() { None } else { Some(r.pick(&actor).clone()) };
        let how = r.below(10);
        cseq += 1;
        let contact = format!("sip:c{}@h.example.net", r.below(4));
        let drop_all = r.chance(1, 8);
        let remove = r.chance(1, 6);
        let text = |extra: &[(String, String)]| {
            let mut h: Vec<(String, String)> = vec![
                ("Via".into(), "SIP/2.0/UDP c.example.com;branch=z9hG4bKx".into()),
                ("From".into(), format!("<{to}>;tag=1")),
                ("To".into(), format!("<{to}>")),
                ("Call-ID".into(), "c1".into()),
                ("CSeq".into(), format!("{cseq} REGISTER")),
            ];
            if let Some(s) = &source {
                h.push(("X-Source".into(), s.clone()));
            }
            if drop_all {
                h.push(("Contact".into(), "*".into()));
                h.push(("Expires".into(), "0".into()));
            } else {
                h.push(("Contact".into(), format!("<{contact}>{}", if remove { ";expires=0" } else { "" })));
            }
            h.extend(extra.iter().cloned());
            h
        };
        let seed = r.u64();
        let mut line = String::new();
        for (si, s) in sides.iter_mut().enumerate() {
            let mut r = Rng::new(seed);
            let r = &mut r;
            let which = ["sync", "async"][si];
            let send = |s: &Side, rec: &mut Rec, q: &Request| -> Option<Option<Response>> {
                let show = || format!("{:?}", q.headers().iter().map(|h| h.value().to_string()).collect::<Vec<_>>());
                if si == 0 {
                    rec.guard("handle_register", &show, || s.reg.handle_register(q).ok())
                } else {
                    rec.guard("handle_register_async", &show, || rt.block_on(s.reg.handle_register_async(q)).ok())
                }
            };
            let step = |s: &mut Side, rec: &mut Rec, q: &Request, granted: &BTreeSet<&str>, must: bool, label: &str| -> Option<Option<Response>> {
                let over = limited
                    && source.as_ref().is_some_and(|k| {
                        let n = s.used.entry(k.clone()).or_default();
                        *n += 1;
                        *n > burst
                    });
                let resp = send(s, rec, q)?;
                let code = resp.as_ref().map(|x| x.code()).unwrap_or(500);
                let challenge = if proxy { 407 } else { 401 };
                let detail = || format!("{which}: {label}: answered {code} for {key} (owner {owner:?}), may act as {granted:?}\n{:?}\nafter {trace:?}", q.headers().iter().map(|h| format!("{}: {}", h.name(), h.value())).collect::<Vec<_>>());
                let may = !owner.is_empty() && granted.contains(owner);
                if over {
                    rec.check(code == 503, "rate-limit-ignored", detail);
                    rec.count("rate_limited", 1);
                } else if granted.is_empty() {
                    rec.check(code == challenge, "unauthenticated", detail);
                    rec.count("challenged", 1);
                } else if !may {
                    rec.check(code == 403 || (code == 400 && to.contains("%40")) || (!must && code == challenge), "not-the-owner", detail);
                    rec.count("forbidden", 1);
                } else {
                    rec.check(code == 200 || (!must && (code == challenge || code == 403)), "owner-refused", detail);
                    rec.count("owner", 1);
                }
                if code == 200 {
                    rec.check(may && !over, "granted", detail);
                    if may && !over {
                        let b = s.bound.entry(key).or_default();
                        if drop_all {
                            b.clear();
                        } else if remove {
                            b.remove(&contact);
                        } else {
                            b.insert(contact.clone());
                        }
                    }
                }
                for (_, _, k) in AORS {
                    let got: BTreeSet<String> = s.store.lookup(k).expect("lookup").iter().map(|b| b.contact().to_string()).collect();
                    let want = s.bound.get(k).cloned().unwrap_or_default();
                    if got != want {
                        rec.violate("bindings", format!("{k}: {got:?}, expected {want:?}; {}", detail()));
                        s.bound.insert(k, got);
                    }
                }
                Some(resp)
            };
            let none = BTreeSet::new();
            let Some(resp) = step(s, rec, &build(&text(&[])), &none, true, "no credentials") else { return };
            let hname = if proxy { "Proxy-Authenticate" } else { "WWW-Authenticate" };
            let aname = if proxy { "Proxy-Authorization" } else { "Authorization" };
            let other = if proxy { "Authorization" } else { "Proxy-Authorization" };
            let Some(ch) = resp.as_ref().and_then(|x| values(x, hname).first().cloned()) else { continue };
            let Some((_, p)) = params(&ch) else {
                rec.violate("challenge", ch);
                continue;
            };
            let opaque = p.get("opaque").cloned();
            let mut n = 0;
            let mut mkd = |user: &str, pass: &str, realm: &str, r: &mut Rng| {
                n += 1;
                D { alg: alg_name, user: user.into(), realm: realm.into(), pass: pass.into(), method: "REGISTER".into(), uri: "sip:example.com".into(), nonce: p["nonce"].clone(), nc: format!("{n:08x}"), cnonce: r.alnum(8, 12), qop: "auth".into(), body: vec![] }
            };
            let op = opaque.as_deref();
            let good = actor.as_ref().map(|(i, pw)| (USERS[*i].0, cred(&mkd(USERS[*i].1, pw, "example.com", r), op, r)));
            let granted: BTreeSet<&str> = good.iter().map(|g| g.0).collect();
            let forged = cred(&mkd(victim, "guess", "example.com", r), op, r);
            let foreign = cred(&mkd(victim, "guess", *r.pick(&["other.example.org", "example.org", ""]), r), op, r);
            let ok = good.as_ref().map(|g| g.1.clone()).unwrap_or_else(|| forged.clone());
            let h = |n: &str, v: &str| (n.to_string(), v.to_string());
            // The label, the headers, and whether the outcome is certain.
            let (label, extra, must): (&str, Vec<(String, String)>, bool) = match how {
                0..=2 => ("own credentials", vec![h(aname, &ok)], true),
                3 => ("foreign realm for the owner first", vec![h(aname, &foreign), h(aname, &ok)], true),
                4 => ("foreign realm for the owner last", vec![h(aname, &ok), h(aname, &foreign)], true),
                5 => ("forged owner first", vec![h(aname, &forged), h(aname, &ok)], false),
                6 => ("forged owner last", vec![h(aname, &ok), h(aname, &forged)], false),
                7 => ("forged owner in the other header", vec![h(other, &forged), h(aname, &ok)], true),
                8 => {
                    let v = ok.replacen("Digest ", &format!("Digest username=\"{victim}\", "), 1);
                    ("username twice", vec![h(aname, &v)], false)
                }
                _ => {
                    // Credentials made for somebody else with the owner's name put in.
                    let me = actor.as_ref().map(|(i, _)| USERS[*i].1).unwrap_or("alice");
                    let same = me == victim;
                    let v = ok.replace(&format!("username=\"{me}\""), &format!("username=\"{victim}\""));
                    if same {
                        ("own credentials", vec![h(aname, &v)], true)
                    } else {
                        ("name replaced", vec![h(aname, &v)], false)
                    }
                }
            };
            let granted = if label == "name replaced" { none.clone() } else { granted };
            let must = must || granted.is_empty();
            line = format!("{label} as {actor:?} for {to}");
            if step(s, rec, &build(&text(&extra)), &granted, must, label).is_none() {
                return;
            }
            // The same credentials under another request must not be taken again.
            if r.chance(1, 3) {
                let mut t = text(&extra);
                for x in t.iter_mut() {
                    if x.0 == "Call-ID" {
                        x.1 = "c2".into();
                    }
                    if x.0 == "CSeq" {
                        x.1 = "1 REGISTER".into();
                    }
                    if x.0 == "To" {
                        x.1 = "<sip:example.com>".into();
                    }
                }
                if limited {
                    if let Some(k) = &source {
                        *s.used.entry(k.clone()).or_default() += 1;
                    }
                }
                if let Some(Some(x)) = send(s, rec, &build(&t)) {
                    rec.check(x.code() != 200, "reused", || format!("{which}: host-only address registered: {t:?}"));
                }
            }
        }
        trace.push(line);
    }
    rec.sample(|| trace.join(" / "));
    rec.eval(Some(&trace));
}

fn main() {
    let mut cx = Ctx::new("G02", "distinct histories of registrations by owners, other users and forgers (credential forms, addresses, sources)");
    if !clock::works() {
        std::process::exit(3);
    }
    clock::freeze();
    h_auth::self_test();
    cx.assume("when several credentials for the server's own realm are offered, refusing them is as good as honouring the correct one");
    let n = cx.n(4000, 80_000);
    cx.run_seq("histories", n, history);
    cx.finish()
}
