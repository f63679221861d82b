//! I01: a caller identity token says what was signed, and nothing else passes.
use h_id::*;
use sip_identity::{sign, AttestationLevel, IdentityError, IdentityHeader, Passport, PassportParams, SignError, VerifyError};
use vmon::{Ctx, Rec, Rng};

fn esc(s: &str) -> String {
    format!("{:?}", s.chars().take(1500).collect::<String>())
}

fn params(r: &mut Rng) -> PassportParams {
    PassportParams {
        x5u: uri(r),
        attest: *r.pick(&[AttestationLevel::A, AttestationLevel::B, AttestationLevel::C]),
        orig_tn: tn(r),
        dest_tns: (0..if r.chance(1, 12) { r.range(10, 70) } else { r.range(1, 6) }).map(|_| tn(r)).collect(),
        iat: *r.pick(&[0, 1443208345, -1, i64::MAX, i64::MIN, 1 << 53, 4294967296]),
        origid: if r.coin() { Some(if r.coin() { tn(r) } else { "123e4567-e89b-12d3-a456-426655440000".into() }) } else { None },
    }
}

/// The canonical texts (RFC 8225 section 9): members sorted, no blanks.
fn texts(p: &PassportParams) -> (String, String) {
    let h = format!("{{\"alg\":\"ES256\",\"ppt\":\"shaken\",\"typ\":\"passport\",\"x5u\":{}}}", quote(&p.x5u, false));
    let d: Vec<String> = p.dest_tns.iter().map(|t| quote(t, false)).collect();
    let mut c = format!(
        "{{\"attest\":\"{}\",\"dest\":{{\"tn\":[{}]}},\"iat\":{},\"orig\":{{\"tn\":{}}}",
        match p.attest {
            AttestationLevel::A => "A",
            AttestationLevel::B => "B",
            AttestationLevel::C => "C",
        },
        d.join(","),
        p.iat,
        quote(&p.orig_tn, false)
    );
    if let Some(o) = &p.origid {
        c += &format!(",\"origid\":{}", quote(o, false));
    }
    c.push('}');
    (h, c)
}

fn json(s: &[u8]) -> Option<serde_json::Value> {
    serde_json::from_slice(s).ok()
}

fn holds(p: &Passport, want: &PassportParams) -> bool {
    p.header.alg == "ES256"
        && p.header.typ.as_deref() == Some("passport")
        && p.header.ppt.as_deref() == Some("shaken")
        && p.header.x5u == want.x5u
        && p.claims.attest == Some(want.attest)
        && p.claims.orig_tn.as_deref() == Some(&want.orig_tn)
        && p.claims.dest_tns == want.dest_tns
        && p.claims.iat == Some(want.iat)
        && p.claims.origid == want.origid
}

fn signed(r: &mut Rng, rec: &mut Rec) {
    let mut p = params(r);
    let k = r.pick(keys());
    match r.below(12) {
        0 => {
            p.dest_tns.clear();
            rec.check(matches!(sign(&p, &k.pair, rng()), Err(SignError::MissingField(_))), "signed without a destination", || format!("{p:?}"));
            return;
        }
        1 => {
            p.orig_tn.clear();
            rec.check(matches!(sign(&p, &k.pair, rng()), Err(SignError::MissingField(_))), "signed without an origin", || format!("{p:?}"));
            return;
        }
        _ => {}
    }
    rec.eval(Some(&format!("{p:?}")));
    let ctx = || format!("{p:?}");
    let s = match rec.guard("sign", &ctx, || sign(&p, &k.pair, rng())) {
        Some(Ok(s)) => s,
        Some(Err(e)) => {
            rec.violate("not signed", format!("{e} {p:?}"));
            return;
        }
        None => return,
    };
    rec.count("tokens signed", 1);
    rec.sample(|| s.token.clone());
    let parts: Vec<&str> = s.token.split('.').collect();
    if !rec.check(parts.len() == 3 && s.x5u == p.x5u, "shape", ctx) {
        return;
    }
    // The text is the canonical one, up to how a string is escaped.
    let (h, c) = texts(&p);
    for (part, want) in [(parts[0], &h), (parts[1], &c)] {
        let got = dec(part).unwrap_or_default();
        let plain = want.is_ascii() && !want.contains('\\');
        let gs = String::from_utf8_lossy(&got).into_owned();
        rec.check(if plain { gs == *want } else { json(&got).is_some() && json(&got) == json(want.as_bytes()) }, "text", || format!("{} want {}", esc(&gs), esc(want)));
    }
    let d = match Passport::decode(&s.token) {
        Ok(d) => d,
        Err(e) => {
            rec.violate("own token refused", format!("{e} {p:?}"));
            return;
        }
    };
    rec.check(holds(&d, &p), "claims", || format!("{d:?} want {p:?}"));
    rec.check(d.signing_input == format!("{}.{}", parts[0], parts[1]).as_bytes(), "signed part", ctx);
    rec.check(Some(&d.signature) == dec(parts[2]).as_ref() && d.signature.len() == 64, "signature bytes", ctx);
    rec.check(d.verify_signature(&k.public) == Ok(()), "own signature refused", ctx);
    let other = r.pick(keys());
    if other.public != k.public {
        rec.check(d.verify_signature(&other.public) == Err(VerifyError::SignatureInvalid), "another key accepted", ctx);
    }
    bad_keys(r, &d, &k.public, rec);
    header(r, &s.token, &s.identity_header_value(), &p, rec);
}

fn bad_keys(r: &mut Rng, d: &Passport, public: &[u8], rec: &mut Rec) {
    let mut k = public.to_vec();
    let malformed = match r.below(7) {
        0 => {
            k.pop();
            true
        }
        1 => {
            k.push(0);
            true
        }
        2 => {
            k[0] = *r.pick(&[0u8, 2, 3, 5, 6, 7]);
            true
        }
        3 => {
            k.clear();
            true
        }
        4 => {
            k.remove(0);
            true
        }
        _ => {
            let i = 1 + r.below(64);
            k[i] ^= 1 << r.below(8);
            false
        }
    };
    let got = vmon::catch(|| d.verify_signature(&k));
    match got {
        Ok(g) => {
            let ok = if malformed { matches!(g, Err(VerifyError::MalformedKey { len }) if len == k.len()) } else { g == Err(VerifyError::SignatureInvalid) };
            rec.check(ok, "damaged key", || format!("{g:?} for {k:02x?}"));
        }
        Err(p) => rec.violate("panic:key", format!("{} {k:02x?}", p.msg)),
    }
    rec.count("damaged keys", 1);
}

/// The header carrying the token, as written here and as others write it.
fn header(r: &mut Rng, token: &str, own: &str, p: &PassportParams, rec: &mut Rec) {
    let mut ps: Vec<String> = vec![
        format!("{}={}<{}{}>", r.pick(&["info", "Info", "INFO"]), *r.pick(&["", " "]), p.x5u, *r.pick(&["", " "])),
        r.pick(&["alg=ES256", "Alg=ES256", "alg=\"ES256\"", "alg = ES256"]).to_string(),
        r.pick(&["ppt=shaken", "PPT=shaken", "ppt=\"shaken\"", "ppt= shaken"]).to_string(),
    ];
    let gone = if r.chance(1, 4) { Some(ps.remove(r.below(3))) } else { None };
    for _ in 0..r.below(3) {
        ps.push(r.pick(&["x", "x=y", "x=\"a;b\"", "x=\"info=<http://evil>;alg=none\"", "x=\"a\\\";alg=none\"", "", " ", "algx=none", "x=\"<\"", "xalg=\"none\"", "y=<a;alg=none>"]).to_string());
    }
    r.shuffle(&mut ps);
    let mut v = format!("{}{token}{}", *r.pick(&["", " ", "\t"]), *r.pick(&["", " "]));
    for x in &ps {
        v += &format!(";{}{x}{}", *r.pick(&["", " "]), *r.pick(&["", " "]));
    }
    for (v, full) in [(own, true), (v.as_str(), false)] {
        rec.count("headers", 1);
        let h = match rec.guard("header", &|| esc(v), || IdentityHeader::parse(v)) {
            Some(Ok(h)) => h,
            Some(Err(e)) => {
                rec.check(v.len() > 8192, "header refused", || format!("{e} {v:?}"));
                continue;
            }
            None => continue,
        };
        rec.check(v.len() <= 8192, "header over the bound accepted", || format!("{}", v.len()));
        let has = |k: &str| full || !gone.as_ref().map(|g| g.to_lowercase().starts_with(k)).unwrap_or(false);
        rec.check(h.raw_token == token && Passport::decode(token).as_ref() == Ok(&h.passport), "header token", || esc(v));
        let u = p.x5u.as_str();
        rec.check(h.info.as_deref() == has("info").then_some(u), "info", || format!("{:?} in {v:?}", h.info));
        rec.check(h.alg.as_deref() == has("alg").then_some("ES256"), "alg", || format!("{:?} in {v:?}", h.alg));
        rec.check(h.ppt.as_deref() == has("ppt").then_some("shaken"), "ppt", || format!("{:?} in {v:?}", h.ppt));
    }
}

/// Whatever is done to a token, it no longer passes.
fn tampered(r: &mut Rng, rec: &mut Rec) {
    let k = r.pick(keys());
    let p = params(r);
    let t = sign(&p, &k.pair, rng()).unwrap().token;
    let mut b = t.clone().into_bytes();
    let other = sign(&params(r), &k.pair, rng()).unwrap().token;
    let what = r.below(10);
    match what {
        0..=2 => {
            let i = r.below(b.len());
            let x = *r.pick(b"ABCXYZabcxyz0189-_.=+/ ");
            if b[i] == x {
                return;
            }
            b[i] = x;
        }
        3 => {
            b.remove(r.below(b.len()));
        }
        4 => {
            let i = r.below(b.len() + 1);
            b.insert(i, *r.pick(b"Aa0-_.= \r\n\t"));
        }
        5 => {
            // Parts of two tokens of one signer.
            let o = &other;
            let (x, y): (Vec<&str>, Vec<&str>) = (t.split('.').collect(), o.split('.').collect());
            let m = 1 + r.below(6);
            let part = |i: usize| if m >> i & 1 == 1 { y[i] } else { x[i] };
            b = format!("{}.{}.{}", part(0), part(1), part(2)).into_bytes();
        }
        6 => {
            // A claim changed, everything else as it was.
            let x: Vec<&str> = t.split('.').collect();
            let mut q = p.clone();
            match r.below(5) {
                0 => q.attest = if q.attest == AttestationLevel::A { AttestationLevel::B } else { AttestationLevel::A },
                1 => q.orig_tn.push('1'),
                2 => q.dest_tns.push("+1".into()),
                3 => q.iat = q.iat.wrapping_add(1),
                _ => q.x5u.push('x'),
            }
            let (h, c) = texts(&q);
            b = format!("{}.{}.{}", enc(h.as_bytes()), enc(c.as_bytes()), x[2]).into_bytes();
        }
        7 => {
            // The same claims in another spelling.
            let x: Vec<&str> = t.split('.').collect();
            let (h, c) = texts(&p);
            b = format!("{}.{}.{}", enc(h.replacen(':', ": ", 1).as_bytes()), enc(c.as_bytes()), x[2]).into_bytes();
        }
        8 => {
            // Another signature.
            let (i, s) = t.rsplit_once('.').unwrap();
            let mut s = dec(s).unwrap();
            match r.below(7) {
                0 => s.clear(),
                1 => s.truncate(63),
                2 => s.push(0),
                3 => s.iter_mut().for_each(|x| *x = 0),
                4 => s[..32].iter_mut().for_each(|x| *x = 0),
                5 => s.rotate_left(32),
                _ => {
                    let j = r.below(64);
                    s[j] ^= 1 << r.below(8);
                }
            }
            b = format!("{i}.{}", enc(&s)).into_bytes();
        }
        _ => {
            let e = r.range(1, 6) as usize;
            r.mutate(&mut b, e);
        }
    }
    let m = String::from_utf8_lossy(&b).into_owned();
    if m == t || m == other || (what == 9 && m.trim() == t) {
        return;
    }
    rec.eval(Some(&m));
    match rec.guard("decode", &|| esc(&m), || Passport::decode(&m)) {
        Some(Ok(d)) => {
            rec.count("tampered tokens that decode", 1);
            rec.check(d.verify_signature(&k.public).is_err(), "tampered token accepted", || format!("{m:?} from {t:?}"));
        }
        Some(Err(e)) => {
            rec.count("tampered tokens refused at once", 1);
            let n = m.split('.').count();
            let ok = match e {
                IdentityError::MalformedJws { parts } => n != 3 && parts == n,
                _ => n == 3,
            };
            rec.check(ok, "reason", || format!("{e:?} {m:?}"));
        }
        None => {}
    }
    if let Some(Ok(h)) = rec.guard("header", &|| esc(&m), || IdentityHeader::parse(&m)) {
        rec.check(m.trim().split(';').next().unwrap().trim() == t || h.passport.verify_signature(&k.public).is_err(), "tampered token accepted in a header", || format!("{m:?} from {t:?}"));
    }
}

/// Tokens of other signers: any JSON, correctly signed.
fn foreign(r: &mut Rng, rec: &mut Rec) {
    let k = r.pick(keys());
    let wide = r.coin();
    let q = |s: &str| quote(s, wide);
    let sp = if r.coin() { " " } else { "" };
    // (text of the member, value it must have)
    let alg = r.pick(&["ES256", "ES256", "ES256", "none", "es256", "HS256", "RS256", "ES384", "", "ES256 ", "ES2567"]).to_string();
    let mut h: Vec<String> = vec![format!("\"alg\":{sp}{}", q(&alg))];
    let mut bad = false;
    let opt = |r: &mut Rng, v: &mut Vec<String>, name: &str, val: String, bad: &mut bool| -> Option<String> {
        match r.below(10) {
            0 => None,
            1 => {
                v.push(format!("\"{name}\":null"));
                None
            }
            2 if r.chance(1, 6) => {
                v.push(format!("\"{name}\":{}", *r.pick(&["1", "true", "[]", "{}", "[\"x\"]"])));
                *bad = true;
                None
            }
            _ => {
                v.push(format!("\"{name}\":{sp}{}", q(&val)));
                Some(val)
            }
        }
    };
    let typ = opt(r, &mut h, "typ", "passport".into(), &mut bad);
    let v = r_ppt(r);
    let ppt = opt(r, &mut h, "ppt", v, &mut bad);
    let v = uri(r);
    let x5u = opt(r, &mut h, "x5u", v, &mut bad);
    if x5u.is_none() {
        bad = true;
    }
    let mut c: Vec<String> = vec![];
    let v = r.pick(&["A", "B", "C", "A", "B", "C", "D", "a", "", "AB", "A ", "F"]).to_string();
    let attest = opt(r, &mut c, "attest", v, &mut bad);
    if let Some(x) = &attest {
        bad |= !["A", "B", "C"].contains(&x.as_str());
    }
    let v = tn(r);
    let origid = opt(r, &mut c, "origid", v, &mut bad);
    let mut orig = None;
    match r.below(8) {
        0 => {}
        1 => c.push("\"orig\":{}".into()),
        2 => c.push("\"orig\":null".into()),
        3 => c.push("\"orig\":{\"uri\":\"sip:x@y\",\"tn\":null}".into()),
        _ => {
            let t = tn(r);
            c.push(format!("\"orig\":{{{sp}\"tn\":{}{sp},\"x\":[1,{{}}]}}", quote(&t, wide)));
            orig = Some(t);
        }
    }
    let mut dest = vec![];
    match r.below(8) {
        0 => {}
        1 => c.push("\"dest\":{\"uri\":[\"sip:a@b\"]}".into()),
        2 => c.push("\"dest\":{\"tn\":[]}".into()),
        3 if r.chance(1, 4) => {
            c.push("\"dest\":{\"tn\":\"+1\"}".into());
            bad = true;
        }
        _ => {
            dest = (0..if r.chance(1, 12) { r.range(10, 70) } else { r.range(1, 5) }).map(|_| tn(r)).collect();
            let l: Vec<String> = dest.iter().map(|t| quote(t, wide)).collect();
            c.push(format!("\"dest\":{{\"tn\":[{}]}}", l.join(if wide { " , " } else { "," })));
        }
    }
    let mut iat = None;
    match r.below(8) {
        0 => {}
        1 if r.chance(1, 3) => {
            c.push(format!("\"iat\":{}", *r.pick(&["1.5", "\"1\"", "99999999999999999999", "true", "9223372036854775808"])));
            bad = true;
        }
        _ => {
            let i = *r.pick(&[0i64, 1443208345, -5, i64::MAX, i64::MIN]);
            c.push(format!("\"iat\":{sp}{i}"));
            iat = Some(i);
        }
    }
    for v in [&mut h, &mut c] {
        for _ in 0..r.below(3) {
            v.push(format!("\"x-{}\":{}", r.lower(1, 5), *r.pick(&["1", "null", "\"alg\"", "{\"alg\":\"none\",\"attest\":\"A\"}", "[[],{}]", "1e5"])));
        }
        r.shuffle(v);
    }
    let join = |v: &[String]| format!("{{{sp}{}{sp}}}", v.join(&format!("{sp},{sp}")));
    let (mut ht, mut ct) = (join(&h), join(&c));
    if r.chance(1, 15) {
        let t = if r.coin() { &mut ht } else { &mut ct };
        *t = r.pick(&["", "{", "null", "\"x\"", "1", "{}x", "{}{}", "[1]", "{\"alg\"}"]).to_string();
        bad = true;
    }
    let t = sign_raw(k, &ht, &ct);
    rec.eval(Some(&(&ht, &ct)));
    let ctx = || format!("{ht} {ct}");
    match rec.guard("decode", &ctx, || Passport::decode(&t)) {
        Some(Ok(d)) => {
            if !rec.check(!bad, "faulty token decoded", ctx) {
                return;
            }
            rec.count("foreign tokens", 1);
            let w = d.header.alg == alg
                && d.header.typ == typ
                && d.header.ppt == ppt
                && Some(&d.header.x5u) == x5u.as_ref()
                && d.claims.attest.map(|a| a.as_str().to_string()) == attest
                && d.claims.orig_tn == orig
                && d.claims.dest_tns == dest
                && d.claims.iat == iat
                && d.claims.origid == origid;
            rec.check(w, "foreign claims", || format!("{d:?} from {}", ctx()));
            let v = d.verify_signature(&k.public);
            let want = if alg == "ES256" { Ok(()) } else { Err(VerifyError::UnsupportedAlg(alg.clone())) };
            rec.check(v == want, "foreign signature", || format!("{v:?} {}", ctx()));
        }
        Some(Err(e)) => {
            rec.check(bad, "foreign token refused", || format!("{e} {}", ctx()));
            rec.count("faulty tokens refused", 1);
        }
        None => {}
    }
}

fn r_ppt(r: &mut Rng) -> String {
    r.pick(&["shaken", "div", "rph", "", "SHAKEN"]).to_string()
}

fn faulty_headers(r: &mut Rng, rec: &mut Rec) {
    let k = r.pick(keys());
    let t = sign(&params(r), &k.pair, rng()).unwrap().token;
    let ok = "info=<https://h/c>";
    let v = match r.below(7) {
        0 => format!(";{ok}"),
        1 => "".into(),
        2 => format!("{t};info=https://h/c"),
        3 => format!("{t};info=<https://h/c;alg=ES256"),
        4 => format!("{t};info=\"<https://h/c>\""),
        5 => format!("{t};info="),
        _ => format!(" \t;{t}"),
    };
    rec.eval(Some(&v));
    if let Some(x) = rec.guard("header", &|| esc(&v), || IdentityHeader::parse(&v)) {
        rec.check(x.is_err(), "faulty header accepted", || format!("{v:?}"));
    }
    // Exactly at the bound and one past it.
    let room = 8192 - t.len() - 3;
    let e = r.below(2);
    let v = format!("{t};x={}", "y".repeat(room + e));
    let g = IdentityHeader::parse(&v);
    let over = matches!(g, Err(IdentityError::HeaderTooLong { max: 8192, actual }) if actual == v.len());
    rec.check(if e == 0 { g.is_ok() } else { over }, "bound", || format!("{} {:?}", v.len(), g.as_ref().err()));
    let n = r.nasty(0, 80);
    let _ = rec.guard("header", &|| esc(&n), || IdentityHeader::parse(&n).is_ok());
    let v = format!("{t};{n}");
    if let Some(Ok(h)) = rec.guard("header", &|| esc(&v), || IdentityHeader::parse(&v)) {
        rec.check(h.raw_token == t, "token", || esc(&v));
    }
}

fn main() {
    let mut c = Ctx::new("I01", "a caller identity token says exactly what was signed; nothing altered, mixed or signed otherwise passes");
    let n = c.n(20_000, 300_000);
    c.run("signed", n, signed);
    c.run("tampered", n * 2, tampered);
    c.run("foreign", n * 2, foreign);
    c.run("headers", n / 4, faulty_headers);
    c.finish()
}
