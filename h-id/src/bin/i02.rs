//! I02: a caller identity is vouched for only by a certificate path to a trust anchor.
use h_id::*;
use rcgen::{BasicConstraints, Certificate, CertificateParams, CustomExtension, DnType, ExtendedKeyUsagePurpose, IsCa, KeyPair, KeyUsagePurpose, PKCS_ECDSA_P256_SHA256, PKCS_ECDSA_P384_SHA384, PKCS_ED25519};
use rustls_pki_types::UnixTime;
use sip_identity::{Passport, VerifyError};
use std::sync::OnceLock;
use std::time::Duration;
use time::OffsetDateTime;
use vmon::{Ctx, Rec, Rng};

const NOW: i64 = 1_750_000_000;

fn at(s: i64) -> UnixTime {
    UnixTime::since_unix_epoch(Duration::from_secs(s as u64))
}

fn pool() -> &'static Vec<(KeyPair, Key)> {
    static P: OnceLock<Vec<(KeyPair, Key)>> = OnceLock::new();
    P.get_or_init(|| {
        (0..8)
            .map(|_| {
                let k = KeyPair::generate_for(&PKCS_ECDSA_P256_SHA256).unwrap();
                let s = key_from(&k.serialize_der());
                (k, s)
            })
            .collect()
    })
}

/// One certificate of a path and what is wrong with it, if anything.
struct Made {
    cert: Certificate,
    nb: i64,
    na: i64,
    ca: bool,
    pathlen: Option<u8>,
    sign_ok: bool,
}

struct Spec {
    name: String,
    nb: i64,
    na: i64,
    is_ca: IsCa,
    usages: Vec<KeyUsagePurpose>,
    eku: Vec<ExtendedKeyUsagePurpose>,
    critical: bool,
}

fn make(s: &Spec, key: &KeyPair, issuer: Option<(&Certificate, &KeyPair)>) -> Made {
    let mut p = CertificateParams::new(vec![]).unwrap();
    p.distinguished_name = rcgen::DistinguishedName::new();
    p.distinguished_name.push(DnType::CommonName, s.name.clone());
    p.not_before = OffsetDateTime::from_unix_timestamp(s.nb).unwrap();
    p.not_after = OffsetDateTime::from_unix_timestamp(s.na).unwrap();
    p.is_ca = s.is_ca.clone();
    p.key_usages = s.usages.clone();
    p.extended_key_usages = s.eku.clone();
    if s.critical {
        let mut e = CustomExtension::from_oid_content(&[1, 3, 6, 1, 4, 1, 99999, 1], vec![5, 0]);
        e.set_criticality(true);
        p.custom_extensions.push(e);
    }
    let cert = match issuer {
        Some((c, k)) => p.signed_by(key, c, k).unwrap(),
        None => p.self_signed(key).unwrap(),
    };
    let (ca, pathlen) = match &s.is_ca {
        IsCa::Ca(BasicConstraints::Constrained(n)) => (true, Some(*n)),
        IsCa::Ca(_) => (true, None),
        _ => (false, None),
    };
    Made { cert, nb: s.nb, na: s.na, ca, pathlen, sign_ok: !s.critical }
}

fn window(r: &mut Rng) -> (i64, i64) {
    match r.below(14) {
        0 => (NOW, NOW + 1000),
        1 => (NOW - 1000, NOW),
        2 => (NOW + 1, NOW + 1000),
        3 => (NOW - 1000, NOW - 1),
        4 => (NOW - 2_000_000, NOW - 86_400),
        5 => (NOW, NOW),
        _ => (NOW - r.range(2, 10_000_000), NOW + r.range(2, 10_000_000)),
    }
}

fn token(r: &mut Rng, k: &Key) -> String {
    let h = format!("{{\"alg\":\"ES256\",\"ppt\":\"shaken\",\"typ\":\"passport\",\"x5u\":{}}}", quote(&uri(r), false));
    let c = format!("{{\"attest\":\"A\",\"dest\":{{\"tn\":[\"+1{}\"]}},\"iat\":{NOW},\"orig\":{{\"tn\":\"+1\"}}}}", r.u32());
    sign_raw(k, &h, &c)
}

fn kind(v: &Result<(), VerifyError>) -> &'static str {
    match v {
        Ok(()) => "accepted",
        Err(VerifyError::ChainInvalid(_)) => "chain",
        Err(VerifyError::SignatureInvalid) => "signature",
        Err(VerifyError::CertParse(_)) => "certificate",
        Err(VerifyError::UnsupportedAlg(_)) => "algorithm",
        Err(VerifyError::MalformedKey { .. }) => "key",
    }
}

fn paths(r: &mut Rng, rec: &mut Rec) {
    let p = pool();
    let depth = r.below(4); // certificates between leaf and anchor
    let plain = r.chance(1, 4);
    let ca_spec = |r: &mut Rng, name: String, anchor: bool| {
        let (nb, na) = if anchor || plain { (NOW - 20_000_000, NOW + 20_000_000) } else if r.chance(1, 3) { window(r) } else { (NOW - 500, NOW + 500) };
        Spec {
            name,
            nb,
            na,
            is_ca: if anchor || plain {
                IsCa::Ca(BasicConstraints::Unconstrained)
            } else {
                match r.below(14) {
                    0 => IsCa::NoCa,
                    1 => IsCa::ExplicitNoCa,
                    2..=4 => IsCa::Ca(BasicConstraints::Constrained(r.below(4) as u8)),
                    _ => IsCa::Ca(BasicConstraints::Unconstrained),
                }
            },
            usages: if r.coin() { vec![] } else { vec![KeyUsagePurpose::KeyCertSign, KeyUsagePurpose::CrlSign] },
            eku: vec![],
            critical: !anchor && !plain && r.chance(1, 16),
        }
    };
    let tag = r.u64();
    let ak = &p[0].0;
    let anchor = make(&ca_spec(r, format!("Root {tag}"), true), ak, None);
    let mut mids: Vec<Made> = vec![];
    for i in 0..depth {
        let s = ca_spec(r, format!("Issuing {tag} {i}"), false);
        let (ic, ik) = if i == 0 { (&anchor.cert, ak) } else { (&mids[i - 1].cert, &p[i].0) };
        let m = make(&s, &p[i + 1].0, Some((ic, ik)));
        mids.push(m);
    }
    let lk = 5 + r.below(3);
    let (nb, na) = if plain { (NOW - 1, NOW + 1) } else { window(r) };
    let leaf_ca = !plain && r.chance(1, 20);
    let ls = Spec {
        name: format!("Caller {tag}"),
        nb,
        na,
        is_ca: if leaf_ca { IsCa::Ca(BasicConstraints::Unconstrained) } else if r.coin() { IsCa::NoCa } else { IsCa::ExplicitNoCa },
        usages: if r.coin() { vec![] } else { vec![KeyUsagePurpose::DigitalSignature] },
        eku: match r.below(4) {
            0 => vec![ExtendedKeyUsagePurpose::ClientAuth],
            1 => vec![ExtendedKeyUsagePurpose::Other(vec![1, 3, 6, 1, 5, 5, 7, 3, 30])],
            _ => vec![],
        },
        critical: !plain && r.chance(1, 16),
    };
    let (ic, ik) = if depth == 0 { (&anchor.cert, ak) } else { (&mids[depth - 1].cert, &p[depth].0) };
    let leaf = make(&ls, &p[lk].0, Some((ic, ik)));
    // What the verifier is given.
    let mut given: Vec<Vec<u8>> = mids.iter().map(|m| m.cert.der().to_vec()).collect();
    let mut missing = false;
    if !given.is_empty() && r.chance(1, 6) {
        given.remove(r.below(given.len()));
        missing = true;
        if r.coin() {
            // A certificate of the same name by someone else.
            let s = Spec { name: format!("Issuing {tag} {}", depth - 1), nb: NOW - 5, na: NOW + 5, is_ca: IsCa::Ca(BasicConstraints::Unconstrained), usages: vec![], eku: vec![], critical: false };
            given.push(make(&s, &p[7].0, None).cert.der().to_vec());
        }
    }
    for _ in 0..r.below(3) {
        let s = Spec { name: r.pick(&[format!("Issuing {tag} x"), format!("Other {tag}")]).clone(), nb: NOW - 5, na: NOW + 5, is_ca: IsCa::Ca(BasicConstraints::Unconstrained), usages: vec![], eku: vec![], critical: false };
        given.push(make(&s, &p[r.below(8)].0, None).cert.der().to_vec());
    }
    r.shuffle(&mut given);
    let mut anchors: Vec<Vec<u8>> = vec![];
    let trusted = plain || !r.chance(1, 6);
    if trusted {
        anchors.push(anchor.cert.der().to_vec());
    }
    for _ in 0..r.below(3) {
        // Same name, another key; or simply another authority.
        let name = if r.coin() { format!("Root {tag}") } else { format!("Elsewhere {tag}") };
        let s = Spec { name, nb: NOW - 5, na: NOW + 5, is_ca: IsCa::Ca(BasicConstraints::Unconstrained), usages: vec![], eku: vec![], critical: false };
        anchors.push(make(&s, &p[r.range(5, 7) as usize].0, None).cert.der().to_vec());
    }
    r.shuffle(&mut anchors);
    let valid = |m: &Made| m.nb <= NOW && NOW <= m.na && m.sign_ok;
    let mut why = "";
    if !trusted {
        why = "no anchor";
    } else if missing {
        why = "missing link";
    } else if leaf_ca {
        why = "authority as caller";
    } else if !valid(&leaf) {
        why = "leaf";
    }
    for (i, m) in mids.iter().enumerate() {
        // Certificates between this one and the leaf.
        let below = (depth - 1 - i) as u8;
        if why.is_empty() && !valid(m) {
            why = "intermediate";
        }
        if why.is_empty() && !m.ca {
            why = "not an authority";
        }
        if why.is_empty() && m.pathlen.map(|n| below > n).unwrap_or(false) {
            why = "path too long";
        }
    }
    let signer = if r.chance(1, 6) { r.below(8) } else { lk };
    let t = token(r, &p[signer].1);
    let pass = Passport::decode(&t).unwrap();
    let gi: Vec<&[u8]> = given.iter().map(|v| &v[..]).collect();
    let ga: Vec<&[u8]> = anchors.iter().map(|v| &v[..]).collect();
    let desc = || format!("depth {depth} why {why:?} signer {} leaf {}..{} given {} anchors {} (now {NOW}) cas {:?}", signer == lk, leaf.nb - NOW, leaf.na - NOW, gi.len(), ga.len(), mids.iter().map(|m| (m.ca, m.pathlen, m.nb - NOW, m.na - NOW, m.sign_ok)).collect::<Vec<_>>());
    rec.eval(Some(&(tag, depth, signer)));
    let Some(got) = rec.guard("verify", &desc, || pass.verify_with_chain(leaf.cert.der(), &gi, &ga, at(NOW))) else { return };
    let want = if !why.is_empty() {
        "chain"
    } else if signer != lk {
        "signature"
    } else {
        "accepted"
    };
    rec.count(&format!("paths: {}", if why.is_empty() { want } else { why }), 1);
    rec.sample(&desc);
    rec.check(kind(&got) == want || (want == "chain" && kind(&got) == "certificate"), "verdict", || format!("{got:?}, want {want}: {}", desc()));
    // The bare signature is judged the same.
    let bare = pass.verify_signature(&p[lk].1.public);
    rec.check(bare.is_ok() == (signer == lk), "bare signature", desc);
    // At another moment only the windows matter.
    if why.is_empty() || ["leaf", "intermediate"].contains(&why) {
        let all: Vec<&Made> = mids.iter().chain([&leaf]).collect();
        let t = *r.pick(&[leaf.nb - 1, leaf.nb, leaf.na, leaf.na + 1, all[0].nb - 1, all[0].nb, all[0].na, all[0].na + 1]);
        let ok = all.iter().all(|m| m.nb <= t && t <= m.na && m.sign_ok);
        let structural = mids.iter().enumerate().all(|(i, m)| m.ca && m.pathlen.map(|n| (depth - 1 - i) as u8 <= n).unwrap_or(true));
        if structural && signer == lk {
            if let Some(g) = rec.guard("verify", &desc, || pass.verify_with_chain(leaf.cert.der(), &gi, &ga, at(t))) {
                rec.check(g.is_ok() == ok, "validity window", || format!("{g:?} at {} want {ok}: {}", t - NOW, desc()));
                rec.count(if ok { "moments inside" } else { "moments outside" }, 1);
            }
        }
    }
}

/// Many signatures under one path: both ways of checking agree on each.
fn signatures(r: &mut Rng, rec: &mut Rec) {
    static C: OnceLock<(Vec<u8>, Vec<u8>)> = OnceLock::new();
    let p = pool();
    let (ca, leaf) = C.get_or_init(|| {
        let s = |n: &str, ca: bool| Spec { name: n.into(), nb: NOW - 5, na: NOW + 5, is_ca: if ca { IsCa::Ca(BasicConstraints::Unconstrained) } else { IsCa::NoCa }, usages: vec![], eku: vec![], critical: false };
        let a = make(&s("A", true), &p[0].0, None);
        let l = make(&s("L", false), &p[1].0, Some((&a.cert, &p[0].0)));
        (a.cert.der().to_vec(), l.cert.der().to_vec())
    });
    let mut pass = Passport::decode(&token(r, &p[1].1)).unwrap();
    if r.chance(1, 8) {
        // Damaged, short, long, zero or out of range.
        let s = &mut pass.signature;
        match r.below(9) {
            0 => {
                s.pop();
            }
            1 => s.push(0),
            2 => s.clear(),
            3 => s.iter_mut().for_each(|x| *x = 0),
            4 => s[..32].fill(0),
            5 => s[32..].fill(0),
            6 => s[..32].fill(0xff),
            7 => s.insert(0, 0),
            _ => {
                let i = r.below(64);
                s[i] ^= 1 << r.below(8);
            }
        }
        rec.count("faulty signatures", 1);
    } else {
        let s = &pass.signature;
        rec.count("signatures", 1);
        for h in [&s[..32], &s[32..]] {
            if h[0] == 0 {
                rec.count(if h[1] & 0x80 != 0 { "halves with a leading zero, then a high bit" } else { "halves with a leading zero" }, 1);
            } else if h[0] & 0x80 != 0 {
                rec.count("halves with a high bit", 1);
            }
        }
    }
    rec.eval(Some(&pass.signature));
    let ctx = || format!("{:02x?}", pass.signature);
    let Some(bare) = rec.guard("bare", &ctx, || pass.verify_signature(&p[1].1.public)) else { return };
    let Some(chain) = rec.guard("chain", &ctx, || pass.verify_with_chain(leaf, &[], &[ca], at(NOW))) else { return };
    rec.check(bare == chain, "verdicts differ", || format!("{bare:?} {chain:?} {}", ctx()));
}

/// Damaged certificates, wrong algorithms and nonsense never pass.
fn damaged(r: &mut Rng, rec: &mut Rec) {
    let p = pool();
    let s = |n: &str, ca: bool| Spec { name: n.into(), nb: NOW - 5, na: NOW + 5, is_ca: if ca { IsCa::Ca(BasicConstraints::Unconstrained) } else { IsCa::NoCa }, usages: vec![], eku: vec![], critical: false };
    let a = make(&s("A", true), &p[0].0, None);
    let m = make(&s("M", true), &p[1].0, Some((&a.cert, &p[0].0)));
    let l = make(&s("L", false), &p[2].0, Some((&m.cert, &p[1].0)));
    let mut pass = Passport::decode(&token(r, &p[2].1)).unwrap();
    let (mut ad, mut md, mut ld) = (a.cert.der().to_vec(), m.cert.der().to_vec(), l.cert.der().to_vec());
    rec.check(pass.verify_with_chain(&ld, &[&md], &[&ad], at(NOW)) == Ok(()), "good path refused", || "".into());
    let what = r.below(9);
    let label;
    match what {
        0 | 1 => {
            let v = if what == 0 { &mut ld } else { &mut md };
            let i = r.below(v.len());
            v[i] ^= 1 << r.below(8);
            label = "flipped bit";
        }
        2 => {
            let v = if r.coin() { &mut ld } else { &mut md };
            let k = r.range(1, 5) as usize;
            let was = v.clone();
            r.mutate(v, k);
            if *v == was {
                return;
            }
            label = "damaged certificate";
        }
        3 => {
            ad = r.bytes(0, 300);
            label = "anchor is noise";
        }
        4 => {
            ld = r.bytes(0, 300);
            label = "leaf is noise";
        }
        5 => {
            pass.header.alg = r.pick(&["none", "es256", "RS256", "ES384", "", "HS256"]).to_string();
            label = "other algorithm";
        }
        6 => {
            // A key of another kind.
            let k = KeyPair::generate_for(if r.coin() { &PKCS_ECDSA_P384_SHA384 } else { &PKCS_ED25519 }).unwrap();
            ld = make(&s("L", false), &k, Some((&m.cert, &p[1].0))).cert.der().to_vec();
            label = "key of another kind";
        }
        7 => {
            // Vouching for itself.
            ld = make(&s("L", false), &p[2].0, None).cert.der().to_vec();
            label = "self-signed";
        }
        _ => {
            ad.clear();
            label = "empty anchor";
        }
    }
    rec.eval(Some(&(&ld, &md, &ad, what)));
    rec.count(label, 1);
    let Some(g) = rec.guard("verify", &|| label.to_string(), || pass.verify_with_chain(&ld, &[&md], &[&ad], at(NOW))) else { return };
    rec.check(g.is_err(), "accepted", || format!("{label}: leaf {ld:02x?} mid {md:02x?}"));
    let want = match what {
        5 => Some("algorithm"),
        6 => Some("signature"),
        7 => Some("chain"),
        3 | 4 | 8 => Some("certificate"),
        _ => None,
    };
    if let Some(w) = want {
        rec.check(kind(&g) == w, "reason", || format!("{label}: {g:?}"));
    }
    let g = pass.verify_with_chain(l.cert.der(), &[m.cert.der()], &[], at(NOW));
    rec.check(g.is_err(), "accepted without an anchor", || format!("{g:?}"));
}

fn main() {
    let mut c = Ctx::new("I02", "a caller identity is accepted only when its certificate leads, valid at that moment, to a trust anchor and its key made the signature");
    let n = c.n(12_000, 200_000);
    c.run("paths", n, paths);
    c.run("signatures", n * 3, signatures);
    c.run("damaged", n / 2, damaged);
    c.finish()
}
