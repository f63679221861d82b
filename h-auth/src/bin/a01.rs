//! A01: digest verification accepts exactly the requests whose digest is right.
use h_auth::*;
use sip_auth::*;
use smol_str::SmolStr;
use vmon::{Ctx, Rng};

struct AsyncStore(MemoryCredentialStore, bool);
#[async_trait::async_trait]
impl AsyncCredentialStore for AsyncStore {
    async fn fetch(&self, u: &str, realm: &str) -> Option<Credentials> {
        if self.1 {
            tokio::task::yield_now().await;
        }
        self.0.fetch(u, realm)
    }
}
enum Srv {
    S(DigestAuthenticator<MemoryCredentialStore>),
    A(DigestAuthenticator<AsyncStore>, tokio::runtime::Runtime),
}
impl Srv {
    fn challenge(&self, q: &sip_core::Request) -> sip_core::Response {
        match self {
            Srv::S(a) => Authenticator::challenge(a, q).unwrap(),
            Srv::A(a, _) => a.challenge_stale(q).unwrap(),
        }
    }
    /// The user the server says the request comes from (only the synchronous interface offers this).
    fn username(&self, q: &sip_core::Request) -> Option<Option<SmolStr>> {
        match self {
            Srv::S(a) => Some(a.authenticated_username(q)),
            Srv::A(..) => None,
        }
    }
    fn verify(&self, q: &sip_core::Request) -> Result<bool, String> {
        match self {
            Srv::S(a) => a.verify(q, q.headers()).map_err(|e| e.to_string()),
            Srv::A(a, rt) => rt.block_on(a.verify_async(q, q.headers())).map_err(|e| e.to_string()),
        }
    }
}

#[derive(Clone)]
struct Field(String, String, bool);

fn write(r: &mut Rng, scheme: &str, fs: &[Field]) -> String {
    let mut fs: Vec<Field> = fs.to_vec();
    r.shuffle(&mut fs);
    let sep = *r.pick(&[", ", ",", " , "]);
    let v: Vec<String> = fs
        .iter()
        .map(|Field(k, v, q)| {
            let k = if r.chance(1, 6) { k.to_ascii_uppercase() } else { k.clone() };
            if *q {
                format!("{k}=\"{v}\"")
            } else {
                format!("{k}={v}")
            }
        })
        .collect();
    format!("{scheme} {}", v.join(sep))
}

fn fields(d: &D, opaque: &str, alg_shown: bool) -> Vec<Field> {
    let f = |k: &str, v: &str, q: bool| Field(k.into(), v.into(), q);
    let mut o = vec![
        f("username", &d.user, true),
        f("realm", &d.realm, true),
        f("nonce", &d.nonce, true),
        f("uri", &d.uri, true),
        f("response", &d.response(), true),
        f("opaque", opaque, true),
        f("qop", &d.qop, false),
        f("nc", &d.nc, false),
        f("cnonce", &d.cnonce, true),
    ];
    if alg_shown {
        o.push(f("algorithm", d.alg, false));
    }
    o
}

fn main() {
    self_test();
    let mut ctx = Ctx::new("A01", "configuration, request and credential tuple of an evaluated verification; mutants counted with their kind");
    ctx.assume("user names, realms and URIs without double quotes or backslashes; hash primitives of the sha2/md5 crates checked against published vectors");
    let n = ctx.n(30_000, 600_000);
    ctx.run("verify", n, |r, rec| {
        let (alg, algn) = *r.pick(&ALGS);
        let qop = *r.pick(&["auth", "auth-int"]);
        let proxy = r.coin();
        let realm = r.pick(&["example.com", "Realm With, Commas; and = signs", "r", "bücher.example"]).to_string();
        let name = |r: &mut Rng| match r.below(4) {
            0 => r.string("abc:;=,<>@ 'é", 1, 12).trim().to_string() + "u",
            1 => r.lower(1, 200),
            _ => r.lower(1, 10),
        };
        let pw = |r: &mut Rng| match r.below(3) {
            0 => String::new(),
            1 => r.string("abc:\"\\;=,éß日 ", 1, 20),
            _ => r.alnum(1, 30),
        };
        let (u1, mut u2) = (name(r), name(r));
        if u2 == u1 {
            u2.push('x');
        }
        let p1 = pw(r);
        let mut p2 = pw(r);
        while p2 == p1 {
            p2 = r.alnum(4, 9);
        }
        let mut p3 = pw(r);
        while p3 == p1 {
            p3 = r.alnum(4, 9);
        }
        let mut creds = vec![
            Credentials::new(u1.as_str(), p1.as_str(), realm.as_str()),
            Credentials::new(u2.as_str(), p2.as_str(), realm.as_str()),
            Credentials::new(u1.as_str(), p3.as_str(), "other.realm"),
        ];
        r.shuffle(&mut creds);
        let asy = r.chance(1, 4);
        let store = MemoryCredentialStore::with(creds);
        macro_rules! conf {
            ($s:expr) => {
                DigestAuthenticator::new(&realm, $s).with_algorithm(alg).with_qop(qop_of(qop).unwrap()).with_proxy_auth(proxy)
            };
        }
        let srv = if asy {
            Srv::A(conf!(AsyncStore(store, r.coin())), tokio::runtime::Builder::new_current_thread().build().unwrap())
        } else {
            Srv::S(conf!(store))
        };
        let hname = if proxy { "Proxy-Authorization" } else { "Authorization" };
        let method = *r.pick(&METHODS);
        let u = uri(r);
        let body = if r.coin() { r.bytes(0, 60) } else { vec![] };
        let q0 = request(method, &u, &base_headers(), &body);
        let ch = srv.challenge(&q0);
        let chv = ch.headers().get(if proxy { "Proxy-Authenticate" } else { "WWW-Authenticate" }).unwrap_or("").to_string();
        let Some((_, cp)) = params(&chv) else {
            rec.violate("challenge", format!("unreadable challenge {chv:?}"));
            return;
        };
        let g = |k: &str| cp.get(k).cloned().unwrap_or_default();
        let opaque = g("opaque");
        let good = D {
            alg: algn,
            user: u1.clone(),
            realm: realm.clone(),
            pass: p1.clone(),
            method: method.into(),
            uri: q0.uri().as_str().to_string(),
            nonce: g("nonce"),
            nc: format!("{:08x}", r.range(1, 1000)),
            cnonce: r.alnum(1, 40),
            qop: qop.into(),
            body: body.clone(),
        };
        let tag = format!("{algn} {qop} proxy={proxy} async={asy} {method}");
        let send = |r: &mut Rng, d: &D, fs: &[Field], m: &str, uri: &str, b: &[u8], scheme: &str, hn: &str| {
            let _ = d;
            let w = write(r, scheme, fs);
            let mut hs = base_headers();
            hs.push((hn, &w));
            let q = request(m, uri, &hs, b);
            (srv.verify(&q), w)
        };
        // everything that is wrong must be refused, whatever order it comes in ...
        let k = r.range(2, 6);
        for _ in 0..k {
            let mut d = good.clone();
            let mut m = method.to_string();
            let mut ru = u.clone();
            let mut b = body.clone();
            let mut scheme = "Digest".to_string();
            let mut hn = hname;
            let mut post: Option<(&str, Option<String>)> = None;
            let kind = r.below(34);
            match kind {
                0 => d.pass = p2.clone(),
                1 => d.pass = p3.clone(),
                2 => d.pass.push('x'),
                3 => {
                    d.user = u2.clone(); // right user name of someone else, own password
                }
                4 => {
                    d.user = format!("{u1}zz");
                    d.pass = String::new();
                }
                5 => m = METHODS.iter().find(|x| **x != method).unwrap().to_string(),
                6 => ru = format!("sip:elsewhere-{}@example.net", r.lower(1, 5)),
                7 => d.uri = format!("{}x", d.uri),
                8 => {
                    d.uri = "sip:elsewhere@example.net".into();
                    post = Some(("uri", Some(good.uri.clone())));
                }
                9 => {
                    if qop == "auth-int" {
                        b.push(b'!');
                    } else {
                        d.nonce = r.alnum(32, 32);
                    }
                }
                10 => d.nonce = r.alnum(32, 32),
                11 => {
                    d.nonce = good.nonce[..good.nonce.len() - 1].to_string();
                }
                12 => d.realm = "other.realm".into(),
                13 => {
                    // digest made for another realm, header claims ours
                    d.realm = "other.realm".into();
                    d.pass = p3.clone();
                    post = Some(("realm", Some(realm.clone())));
                }
                14 => {
                    d.realm = "other.realm".into();
                    d.pass = p3.clone();
                }
                15 => {
                    let (_, other) = *r.pick(&ALGS);
                    if other == algn {
                        d.pass = p2.clone();
                    } else {
                        d.alg = other;
                    }
                }
                16 => {
                    // legacy downgrade: no qop at all
                    d.qop = String::new();
                    post = Some(("qop", None));
                }
                17 => d.qop = if qop == "auth" { "auth-int".into() } else { "auth".into() },
                18 => post = Some(("cnonce", Some(format!("{}z", good.cnonce)))),
                19 => {
                    let v = (u32::from_str_radix(&good.nc, 16).unwrap() + 1).to_string();
                    post = Some(("nc", Some(format!("{v:0>8}"))));
                    d.pass.push('#');
                }
                20 => {
                    let v = u32::from_str_radix(&good.nc, 16).unwrap() % 1000 + 1;
                    post = if format!("{v:08x}") == good.nc { Some(("nc", None)) } else { Some(("nc", Some(format!("{v:08x}")))) };
                }
                21 => post = Some(("opaque", if r.coin() { None } else { Some(r.alnum(32, 32)) })),
                22 => {
                    let f = *r.pick(&["username", "realm", "nonce", "uri", "response", "qop", "nc", "cnonce", "opaque"]);
                    post = Some((f, None));
                }
                23 => {
                    let mut x: Vec<u8> = good.response().into_bytes();
                    let i = r.below(x.len());
                    x[i] = if x[i] == b'0' { b'1' } else { b'0' };
                    post = Some(("response", Some(String::from_utf8(x).unwrap())));
                }
                24 => {
                    let x = good.response();
                    let cut = r.below(x.len());
                    post = Some(("response", Some(if r.coin() { x[..cut].to_string() } else { format!("{x}0") })));
                }
                25 => scheme = r.pick(&["Basic", "Digestx", "Bearer", "NTLM"]).to_string(),
                28 => {
                    // part of the opaque value, or more than it
                    let cut = r.below(opaque.len());
                    post = Some(("opaque", Some(if r.coin() { opaque[..cut].to_string() } else { format!("{opaque}0") })));
                }
                29 => {
                    // another user's name that differs in letter case only
                    let up = if r.coin() { u1.to_ascii_uppercase() } else { format!("{u1} ") };
                    if up.trim() == u2 { d.pass = p2.clone() + "y" }
                    d.user = up;
                }
                30 => {
                    // digest made for another target that looks alike
                    let mut x = d.uri.clone().into_bytes();
                    let at: Vec<usize> = (0..x.len()).filter(|i| x[*i].is_ascii_alphabetic()).collect();
                    let i = *r.pick(&at);
                    x[i] ^= 0x20;
                    d.uri = String::from_utf8(x).unwrap();
                }
                31 => {
                    d.uri = match r.below(4) {
                        0 => format!("{};x=y", d.uri),
                        1 => d.uri.split(';').next().unwrap().to_string() + "?a=b",
                        2 => format!("{} ", d.uri),
                        _ => d.uri.split('@').next_back().unwrap().to_string(),
                    };
                    if d.uri == good.uri {
                        d.uri.push('x');
                    }
                }
                32 => {
                    let q = *r.pick(&["auth-conf", "auth-", "aut", "auth-int2", "auth,auth-int", "x"]);
                    post = Some(("qop", Some(q.to_string())));
                }
                33 => {
                    let a = *r.pick(&["SHA-1", "SHA", "SHA-256-", "MD", "SHA256", "SHA-512-224", "-sess"]);
                    post = Some(("algorithm", Some(a.to_string())));
                }
                26 => hn = if proxy { "Authorization" } else { "Proxy-Authorization" },
                _ => {
                    // somebody else's digest under our name
                    let mut o = good.clone();
                    o.user = u2.clone();
                    o.pass = p2.clone();
                    let x = o.response();
                    post = Some(("response", Some(x)));
                }
            }
            let mut fs = fields(&d, &opaque, kind == 15 || kind == 33 || r.coin());
            if let Some((f, v)) = &post {
                match v {
                    Some(v) => fs.iter_mut().find(|x| x.0 == *f).map(|x| x.1 = v.clone()).unwrap_or(()),
                    None => fs.retain(|x| x.0 != *f),
                }
            }
            rec.count(&format!("refused kind {kind}"), 1);
            let (got, w) = send(r, &d, &fs, &m, &ru, &b, &scheme, hn);
            rec.eval(Some(&(&tag, kind, &w)));
            rec.check(got != Ok(true), &format!("accepted-wrong-{kind}"), || format!("{tag}: {hn}: {w} (request {m} {ru}) was accepted; right password {p1:?}, right digest {}", good.response()));
        }
        // ... and must not stop the right one from being accepted
        let mut fs = fields(&good, &opaque, r.coin());
        if r.coin() {
            for f in fs.iter_mut() {
                match f.0.as_str() {
                    "qop" | "algorithm" | "nc" => f.2 = r.coin(),
                    _ => {}
                }
            }
        }
        if r.chance(1, 4) {
            for f in fs.iter_mut() {
                if f.0 == "algorithm" {
                    f.1 = if r.coin() { f.1.to_ascii_lowercase() } else { f.1.to_ascii_uppercase() };
                }
            }
        }
        if r.chance(1, 4) {
            fs.push(Field("x-ext".into(), "a, b".into(), true));
        }
        let scheme = if r.chance(1, 6) { "DIGEST" } else { "Digest" };
        let w = write(r, scheme, &fs);
        let mut hs = base_headers();
        // credentials for other protection domains may travel along
        let foreign = "Digest username=\"zed\", realm=\"elsewhere.example\", nonce=\"n\", uri=\"sip:a@b\", response=\"00\", opaque=\"o\", qop=auth, nc=00000001, cnonce=\"c\"";
        let multi = r.below(4);
        if multi == 1 {
            hs.push((hname, foreign));
        }
        hs.push((hname, &w));
        if multi == 2 {
            hs.push((hname, foreign));
        }
        if multi == 3 {
            hs.push((if proxy { "Authorization" } else { "Proxy-Authorization" }, foreign));
        }
        let q = request(method, &u, &hs, &body);
        let got = srv.verify(&q);
        rec.eval(Some(&(&tag, &w)));
        rec.count(&tag.split(' ').take(2).collect::<Vec<_>>().join(" "), 1);
        rec.sample(|| format!("{tag}: {w}"));
        rec.check(got == Ok(true), if multi == 0 { "refused-right" } else { "refused-right-multi" }, || {
            format!("{tag}: {hname}: {w} (request {method} {u}, password {p1:?}) gave {got:?}")
        });
        rec.check(srv.username(&q).is_none_or(|u| u.as_deref() == Some(u1.as_str())), "verified-user", || format!("{hs:?}: {:?}", srv.username(&q)));
        // what the helpers report is what the header says
        if multi == 0 || multi == 2 {
            let un = extract_auth_username(q.headers());
            let no = extract_auth_nonce(q.headers());
            rec.check(un.as_deref() == Some(&u1) && no.as_deref() == Some(good.nonce.as_str()), "extract", || format!("{w}: {un:?} {no:?}"));
        }
    });

    // text nobody should send: never accepted, never a crash
    let n = ctx.n(200_000, 4_000_000);
    ctx.run("hostile", n, |r, rec| {
        let store = MemoryCredentialStore::with(vec![Credentials::new("alice", "", "r"), Credentials::new("", "", "r"), Credentials::new("bob", "pw", "r")]);
        let a = DigestAuthenticator::new("r", store);
        let q0 = request("REGISTER", "sip:r", &base_headers(), b"");
        let ch = Authenticator::challenge(&a, &q0).unwrap();
        let (_, cp) = params(ch.headers().get("WWW-Authenticate").unwrap()).unwrap();
        let base = format!(
            "Digest username=\"bob\", realm=\"r\", nonce=\"{}\", uri=\"sip:r\", response=\"{}\", opaque=\"{}\", qop=auth, nc=00000001, cnonce=\"c\", algorithm=SHA-256",
            cp["nonce"],
            "0".repeat(64),
            cp["opaque"]
        );
        let mut b = base.into_bytes();
        let edits = r.range(0, 8) as usize;
        r.mutate(&mut b, edits);
        let s = String::from_utf8_lossy(&b).to_string();
        let s = match r.below(12) {
            0 => s.replace("00000001", r.pick(&["ffffffff", "100000000", "-1", "+1", "0x1", "", "é"])),
            1 => s.replace("bob", &"u".repeat(r.range(250, 300) as usize)),
            2 => s.replace("realm=\"r\"", &format!("realm=\"{}\"", "r".repeat(300))),
            3 => r.nasty(0, 30),
            _ => s,
        };
        let mut h = sip_core::Headers::new();
        if h.push(SmolStr::new("Authorization"), SmolStr::new(&s)).is_err() {
            rec.count("not a header value", 1);
            return;
        }
        rec.eval(Some(&s));
        let show = || s.clone();
        let got = rec.guard("verify", &show, || {
            let _ = extract_auth_username(&h);
            let _ = extract_auth_nonce(&h);
            a.verify(&q0, &h).map_err(|e| e.to_string())
        });
        if let Some(g) = got {
            rec.count(match &g { Ok(true) => "accepted", Ok(false) => "refused", Err(_) => "error" }, 1);
            rec.check(g != Ok(true), "hostile-accepted", show);
        }
    });
    ctx.finish()
}
