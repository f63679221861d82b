//! A03: challenges are complete, and client and server agree (both directions).
use h_auth::*;
use sip_auth::*;
use sip_ratelimit::{RateLimitConfig, RateLimiter};
use std::collections::HashSet;
use std::sync::Mutex;
use vmon::{clock, Ctx};

fn main() {
    self_test();
    let mut ctx = Ctx::new("A03", "challenged request, configuration and exchange");
    ctx.assume("user names and realms without double quotes or backslashes");
    let nonces: Mutex<HashSet<String>> = Mutex::new(HashSet::new());

    let n = ctx.n(20_000, 800_000);
    ctx.run("exchange", n, |r, rec| {
        let (alg, algn) = *r.pick(&ALGS);
        let qopn = *r.pick(&["auth", "auth-int"]);
        let qop = qop_of(qopn).unwrap();
        let proxy = r.coin();
        let realm = r.pick(&["example.com", "A Realm, Ltd.", "r=1"]).to_string();
        let user = if r.coin() { r.lower(1, 10) } else { r.string("abc:,;= é", 1, 10).trim().to_string() + "q" };
        let pass = r.string("abc:\"\\;=,é日 09", 0, 16);
        let srv = DigestAuthenticator::new(&realm, MemoryCredentialStore::with(vec![Credentials::new(user.as_str(), pass.as_str(), realm.as_str())]))
            .with_algorithm(alg)
            .with_qop(qop)
            .with_proxy_auth(proxy);
        // request as it arrives
        let method = *r.pick(&METHODS);
        let u = uri(r);
        let body = if r.coin() { r.bytes(0, 40) } else { vec![] };
        let mut hs: Vec<(String, String)> = vec![];
        for i in 0..r.range(1, 5) {
            let mut v = format!("SIP/2.0/{} h{i}.example.com:{};branch=z9hG4bK{}", r.pick(&["UDP", "TCP", "TLS"]), r.range(1, 65535), r.alnum(3, 10));
            if r.chance(1, 4) {
                v.push_str(&format!(", SIP/2.0/UDP x{i}.example.com;branch=z9hG4bK{}", r.alnum(3, 10)));
            }
            hs.push((r.pick(&["Via", "Via", "VIA", "via"]).to_string(), v));
        }
        let from = format!("\"A <b>; tag=9\" <sip:alice@example.com;x=y>;tag={}", r.alnum(1, 8));
        let (to, has_tag) = match r.below(9) {
            0 => ("<sip:bob@example.com>".to_string(), false),
            1 => ("sip:bob@example.com".to_string(), false),
            2 => (format!("<sip:bob@example.com>;tag={}", r.alnum(1, 8)), true),
            3 => (format!("Bob <sip:bob@example.com> ; tag = {}", r.alnum(1, 8)), true),
            4 => (format!("<sip:bob@example.com>;TAG={}", r.alnum(1, 8)), true),
            5 => ("<sip:bob@example.com;tag=inside>".to_string(), false),
            6 => ("\"quoted;tag=zz\" <sip:bob@example.com>".to_string(), false),
            7 => (format!("<sip:bob@example.com>;x=y; tag={};z", r.alnum(1, 8)), true),
            _ => ("<sip:bob@example.com>;x=y".to_string(), false),
        };
        let cid = format!("{}@h", r.alnum(1, 12));
        let cseq = format!("{} {method}", r.range(0, i32::MAX as i64));
        for (k, v) in [("From", &from), ("To", &to), ("Call-ID", &cid), ("CSeq", &cseq)] {
            let at = r.below(hs.len() + 1);
            hs.insert(at, (k.to_string(), v.clone()));
        }
        let vias: Vec<String> = hs.iter().filter(|x| x.0.eq_ignore_ascii_case("via")).map(|x| x.1.clone()).collect();
        let refs: Vec<(&str, &str)> = hs.iter().map(|x| (x.0.as_str(), x.1.as_str())).collect();
        let q = request(method, &u, &refs, &body);
        let stale = r.coin();
        let ch = if stale { srv.challenge_stale(&q).unwrap() } else { Authenticator::challenge(&srv, &q).unwrap() };
        let show = |x: &str| format!("{x}: {algn} {qopn} proxy={proxy} {method} {u} {hs:?} -> {} {:?}", ch.code(), ch.headers());
        rec.sample(|| show("challenge"));
        rec.check(ch.code() == if proxy { 407 } else { 401 }, "status", || show("status"));
        rec.check(ch.reason() == if proxy { "Proxy Authentication Required" } else { "Unauthorized" }, "reason", || show("reason"));
        let hn = if proxy { "Proxy-Authenticate" } else { "WWW-Authenticate" };
        rec.check(ch.headers().count(hn) == 1 && ch.headers().count(if proxy { "WWW-Authenticate" } else { "Proxy-Authenticate" }) == 0, "challenge-header", || show("header"));
        let got: Vec<&str> = ch.headers().get_all("Via").collect();
        rec.check(got == vias.iter().map(|x| x.as_str()).collect::<Vec<_>>(), "via", || show("Via"));
        rec.check(ch.headers().get("From") == Some(from.as_str()) && ch.headers().get("Call-ID") == Some(cid.as_str()) && ch.headers().get("CSeq") == Some(cseq.as_str()), "copied", || show("copied"));
        let rto = ch.headers().get("To").unwrap_or("").to_string();
        let tags_ok = if has_tag {
            rto == to
        } else {
            rto.strip_prefix(to.as_str()).and_then(|t| t.strip_prefix(";tag=")).is_some_and(|t| !t.is_empty() && t.chars().all(|c| c.is_ascii_alphanumeric()))
        };
        rec.check(tags_ok, "to-tag", || show(&format!("To {to:?} became {rto:?}")));
        let v = ch.headers().get(hn).unwrap_or("").to_string();
        let Some((scheme, p)) = params(&v) else {
            rec.violate("unreadable", show("challenge"));
            return;
        };
        let g = |k: &str| p.get(k).cloned().unwrap_or_default();
        rec.check(scheme == "Digest" && g("realm") == realm && g("algorithm") == algn && g("qop") == qopn && !g("opaque").is_empty() && !g("nonce").is_empty(), "challenge-params", || show("params"));
        rec.check((g("stale").eq_ignore_ascii_case("true")) == stale, "stale-param", || show("stale"));
        if !nonces.lock().unwrap().insert(g("nonce")) {
            rec.violate("nonce-repeated", show("nonce"));
        }

        // the stack's own client answers
        let mut client = DigestClient::new(&user, &pass);
        let du = q.uri().as_str().to_string();
        let rounds = if r.chance(1, 40) { r.range(9, 40) } else { r.range(1, 4) };
        let mut last = 0;
        for k in 0..rounds {
            let b = if k == 0 { body.clone() } else { r.bytes(0, 30) };
            let mm: sip_core::Method = method.parse().unwrap();
            let a = client.generate_authorization(&mm, &du, &realm, &g("nonce"), alg, Some(qop), Some(&g("opaque")), &b);
            let Some((_, ap)) = params(&a) else {
                rec.violate("client-unreadable", a);
                return;
            };
            let nc = u32::from_str_radix(ap.get("nc").map(|x| x.as_str()).unwrap_or(""), 16).unwrap_or(0);
            rec.check(nc == last + 1 && ap["nc"].len() == 8, "client-nc", || format!("{a} after nc {last}"));
            last = nc;
            let d = D {
                alg: algn,
                user: user.clone(),
                realm: realm.clone(),
                pass: pass.clone(),
                method: method.into(),
                uri: du.clone(),
                nonce: g("nonce"),
                nc: ap["nc"].clone(),
                cnonce: ap.get("cnonce").cloned().unwrap_or_default(),
                qop: qopn.into(),
                body: b.clone(),
            };
            let fields_ok = ap["username"] == user && ap["realm"] == realm && ap["nonce"] == d.nonce && ap["uri"] == du && ap["qop"] == qopn && ap.get("opaque") == Some(&g("opaque")) && !d.cnonce.is_empty();
            rec.check(fields_ok, "client-fields", || a.clone());
            rec.check(ap["response"] == d.response(), "client-response", || format!("{algn} {qopn}: {a}; expected {}", d.response()));
            let mut hs2 = refs.clone();
            hs2.push((if proxy { "Proxy-Authorization" } else { "Authorization" }, &a));
            let q2 = request(method, &u, &hs2, &b);
            let ok = srv.verify(&q2, q2.headers()).map_err(|e| e.to_string());
            rec.check(ok == Ok(true), "interop", || format!("round {k}: {a}: {ok:?}"));
            // mutual authentication
            let rb = r.bytes(0, 30);
            let next = if r.coin() { Some(r.alnum(8, 20)) } else { None };
            match srv.build_auth_info(&q2, &rb, next.as_deref()).map_err(|e| e.to_string()) {
                Ok(Some(info)) => {
                    let mut dr = d.clone();
                    dr.body = rb.clone();
                    rec.check(info.rspauth == dr.rspauth(), "rspauth", || format!("{algn} {qopn} {info:?} expected {}", dr.rspauth()));
                    let text = info.to_header_value();
                    let back = AuthInfo::parse(&text);
                    rec.check(back.as_ref() == Some(&info), "auth-info-parse", || format!("{text} -> {back:?}"));
                    let see = client.verify_auth_info(&info, &realm, &du, &d.nonce, alg, &rb).map_err(|e| e.to_string());
                    rec.check(see.as_ref().ok().map(|x| x.as_ref().map(|y| y.to_string())) == Some(next.clone()), "auth-info-refused", || format!("{text}: {see:?}"));
                    // a forged answer is never believed
                    for kind in 0..6 {
                        let mut bad = info.clone();
                        let (mut rl, mut uu, mut no, mut bb) = (realm.clone(), du.clone(), d.nonce.clone(), rb.clone());
                        match kind {
                            0 => {
                                let mut x: Vec<u8> = bad.rspauth.bytes().collect();
                                let i = r.below(x.len());
                                x[i] = if x[i] == b'a' { b'b' } else { b'a' };
                                bad.rspauth = String::from_utf8(x).unwrap().into();
                            }
                            1 => rl.push('x'),
                            2 => uu.push('x'),
                            3 => no.push('x'),
                            4 if qopn == "auth-int" => bb.push(b'x'),
                            4 => bad.rspauth = d.response().into(), // request digest reflected
                            _ => match r.below(4) {
                                0 => bad.nc = Some("00000fff".into()),
                                1 => bad.cnonce = None,
                                2 => bad.qop = None,
                                _ => bad.rspauth = "".into(),
                            },
                        }
                        let got = client.verify_auth_info(&bad, &rl, &uu, &no, alg, &bb).is_ok();
                        rec.check(!got, &format!("forged-auth-info-{kind}"), || format!("{bad:?}"));
                    }
                    let wrong = DigestClient::new(&user, &format!("{pass}x"));
                    rec.check(wrong.verify_auth_info(&info, &realm, &du, &d.nonce, alg, &rb).is_err(), "server-without-password", || format!("{info:?}"));
                    rec.count("mutual", 1);
                }
                e => {
                    rec.violate("auth-info", format!("{a}: {e:?}"));
                }
            }
            rec.eval(Some(&(algn, qopn, &a)));
            rec.count(&format!("{algn} {qopn}"), 1);
        }
        // a client told no qop answers the old way
        if r.chance(1, 5) {
            let mm: sip_core::Method = method.parse().unwrap();
            let a = DigestClient::new(&user, &pass).generate_authorization(&mm, &du, &realm, "nn", alg, None, None, &body);
            let d = D {
                alg: algn,
                user: user.clone(),
                realm: realm.clone(),
                pass: pass.clone(),
                method: method.into(),
                uri: du.clone(),
                nonce: "nn".into(),
                nc: String::new(),
                cnonce: String::new(),
                qop: String::new(),
                body: vec![],
            };
            if !algn.ends_with("-sess") {
                rec.check(params(&a).map(|x| x.1["response"].clone()) == Some(d.response()), "client-legacy", || a.clone());
            }
        }
        // Authentication-Info in other permitted layouts
        {
            let cn = r.string("abc,;= \"", 0, 12).replace('"', "");
            let nn = r.string("ab,;=", 1, 12);
            let rs = r.string("0123456789abcdef", 0, 64);
            let nc = format!("{:08x}", r.range(1, 5000));
            let mut fs: Vec<(&str, &str, bool)> = vec![("rspauth", &rs, true), ("cnonce", &cn, true), ("nc", &nc, r.coin()), ("qop", qopn, r.coin()), ("nextnonce", &nn, true), ("x-ext", "a, nc=00000077, \\\", cnonce=1", true)];
            r.shuffle(&mut fs);
            let mut text = String::new();
            for (k, (n, v, q)) in fs.iter().enumerate() {
                if k > 0 {
                    text.push_str(r.pick(&[", ", ",", " ,  ", ",,"]));
                }
                let n = if r.chance(1, 4) { n.to_ascii_uppercase() } else { n.to_string() };
                let eq = r.pick(&["=", " = ", "= "]);
                if *q { text.push_str(&format!("{n}{eq}\"{v}\"")) } else { text.push_str(&format!("{n}{eq}{v}")) }
            }
            let want = AuthInfo { qop: Some(qop), rspauth: rs.as_str().into(), cnonce: Some(cn.as_str().into()), nc: Some(nc.as_str().into()), nextnonce: Some(nn.as_str().into()) };
            let got = AuthInfo::parse(&text);
            rec.check(got.as_ref() == Some(&want), "auth-info-layout", || format!("{text} read as {got:?}"));
        }
        // secrets never show in diagnostics
        if pass.len() > 6 {
            let dbg = format!("{client:?} {:?}", Credentials::new(user.as_str(), pass.as_str(), realm.as_str()));
            rec.check(!dbg.contains(&pass), "secret-in-debug", || dbg.clone());
        }
    });

    // brute force: attempts per source are limited before any credential is looked at
    clock::freeze();
    let n = ctx.n(1_500, 30_000);
    ctx.run_seq("brute", n, |r, rec| {
        let max = r.range(1, 12) as u32;
        let win = r.range(1, 60) as u64;
        let srv = DigestAuthenticator::new("r", MemoryCredentialStore::with(vec![Credentials::new("bob", "pw", "r")]))
            .with_rate_limiter(RateLimiter::new(RateLimitConfig::new(max, win).unwrap()));
        let q0 = request("REGISTER", "sip:r", &base_headers(), b"");
        let ch = Authenticator::challenge(&srv, &q0).unwrap();
        let (_, p) = params(ch.headers().get("WWW-Authenticate").unwrap()).unwrap();
        let srcs = ["10.0.0.1", "10.0.0.2", "[2001:db8::1]", "h.example.com"];
        let mut used = std::collections::BTreeMap::new();
        let mut nc = 0u32;
        for k in 0..r.range(5, 60) {
            let s = *r.pick(&srcs);
            let via = match r.below(3) {
                0 => format!("SIP/2.0/UDP {s}:{};branch=z9hG4bKx{k}", r.range(1, 65535)),
                1 => format!("SIP/2.0/TCP {s};branch=z9hG4bKx{k}"),
                _ => format!("SIP/2.0/UDP private.invalid:5060;branch=z9hG4bKx{k};received={}", s.trim_matches(|c| c == '[' || c == ']')),
            };
            let bad = r.chance(2, 3);
            nc += 1;
            let d = D {
                alg: "SHA-256",
                user: "bob".into(),
                realm: "r".into(),
                pass: if bad { format!("guess{k}") } else { "pw".into() },
                method: "REGISTER".into(),
                uri: "sip:r".into(),
                nonce: p["nonce"].clone(),
                nc: format!("{nc:08x}"),
                cnonce: "c".into(),
                qop: "auth".into(),
                body: vec![],
            };
            let w = format!(
                "Digest username=\"bob\", realm=\"r\", nonce=\"{}\", uri=\"sip:r\", response=\"{}\", opaque=\"{}\", qop=auth, nc={}, cnonce=\"c\", algorithm=SHA-256",
                d.nonce, d.response(), srv.opaque(), d.nc
            );
            let mut hs = base_headers();
            hs[0] = ("Via", &via);
            hs.push(("Authorization", &w));
            let q = request("REGISTER", "sip:r", &hs, b"");
            let got = srv.verify(&q, q.headers()).map_err(|e| e.to_string());
            let c = used.entry(s).or_insert(0u32);
            *c += 1;
            let show = || format!("limit {max}: attempt {c} from {via}: bad={bad} -> {got:?}");
            if *c > max {
                rec.check(got.is_err(), "limit-bypassed", show);
                rec.count("limited", 1);
            } else {
                rec.check(got == Ok(!bad), "limit-early", show);
                rec.count("within limit", 1);
            }
            rec.eval(Some(&(max, k, &via, bad)));
        }
    });
    ctx.finish()
}
