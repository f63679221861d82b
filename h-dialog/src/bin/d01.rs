//! D01: what a dialog records when it is established, and which requests belong to it.
use h_dialog::*;
use sip_core::RefresherRole;
use sip_dialog::{Dialog, DialogId, DialogManager, DialogStateType};
use std::time::Duration;
use vmon::{Ctx, Rec, Rng};

const DIGITS: [&str; 6] = ["", "+", "-", "0x", " ", "\u{661}"];

struct Call {
    call_id: String,
    from_uri: String,
    to_uri: String,
    from_tag: String,
    to_tag: String,
}
impl Call {
    fn gen(r: &mut Rng) -> Call {
        Call { call_id: call_id(r), from_uri: uri(r), to_uri: uri(r), from_tag: tag(r), to_tag: tag(r) }
    }
}

fn establish(r: &mut Rng, rec: &mut Rec, uac: bool) {
    let c = Call::gen(r);
    let method = *r.pick(&["INVITE", "INVITE", "SUBSCRIBE", "REFER"]);
    let cseq = match r.below(10) {
        0 => 0u64,
        1 => 1,
        2 => 2_147_483_647,
        3 => 2_147_483_648,
        4 => 4_294_967_296,
        _ => r.ur(1, 100_000),
    };
    let code = match r.below(12) {
        0 => *r.pick(&[300u16, 302, 404, 408, 486, 500, 603, 699]),
        1 => *r.pick(&[100u16, 199, 299]),
        2..=5 => *r.pick(&[180u16, 183, 181]),
        _ => *r.pick(&[200u16, 200, 202, 204]),
    };
    let n_rr = match r.below(16) {
        0 => 50,
        1 => 51,
        2 => r.range(45, 60) as usize,
        _ => r.below(6),
    };
    let mut rr: Vec<String> = (0..n_rr).map(|_| uri(r)).collect();
    if n_rr > 1 && r.chance(1, 4) {
        // the same proxy twice, next to each other or not (a spiral)
        let (i, j) = (r.below(n_rr), r.below(n_rr));
        rr[j] = rr[i].clone();
        if j + 1 < n_rr && r.coin() {
            rr[j + 1] = rr[j].clone();
        }
    }
    let mut req_contact = r.chance(5, 6).then(|| uri(r));
    let mut resp_contact = r.chance(5, 6).then(|| uri(r));
    // A URI longer than a dialog may hold, in a place the dialog takes.
    let big = r.chance(1, 24);
    if big {
        let x = format!("sip:{}@{}.{}.{}.{}:5060", "u".repeat(255), "a".repeat(62), "b".repeat(62), "c".repeat(62), "d".repeat(58));
        if sip_core::SipUri::parse(&x).is_err() {
            return;
        }
        match r.below(2) {
            0 if uac => resp_contact = Some(x),
            0 => req_contact = Some(x),
            _ if n_rr > 0 => {
                let i = r.below(n_rr);
                rr[i] = x
            }
            _ => return,
        }
        rec.count("oversized_uris", 1);
    }
    let to_tag = r.chance(15, 16).then_some(c.to_tag.clone());
    let from_tag = r.chance(31, 32).then_some(c.from_tag.clone());
    let se: Option<(u64, Option<&str>)> = r.chance(1, 2).then(|| {
        let v = match r.below(8) {
            0 => 89,
            1 => 90,
            2 => 86_400,
            3 => 86_401,
            4 => r.ur(0, 89),
            5 => r.ur(86_401, 4_000_000_000),
            _ => r.ur(90, 86_400),
        };
        (v, *r.pick(&[None, Some("uac"), Some("uas"), Some("UAC"), Some("Uas")]))
    });

    let mut req = Msg {
        first: format!("{method} {} SIP/2.0", "sip:target@h.example.net"),
        from: party(r, &c.from_uri, from_tag.as_deref()),
        to: party(r, &c.to_uri, None),
        call_id: c.call_id.clone(),
        cseq: format!("{cseq} {method}"),
        rest: vec![],
    };
    if let Some(x) = &req_contact {
        req.rest.push(("Contact".into(), contact(r, x)));
    }
    let other_rr: Vec<String> = (0..r.below(3)).map(|_| uri(r)).collect();
    req.rest.extend(record_routes(r, if uac { &other_rr } else { &rr }));
    let mut resp = Msg {
        first: format!("SIP/2.0 {code} Whatever"),
        from: req.from.clone(),
        to: party(r, &c.to_uri, to_tag.as_deref()),
        call_id: c.call_id.clone(),
        cseq: req.cseq.clone(),
        rest: vec![],
    };
    if let Some(x) = &resp_contact {
        resp.rest.push(("Contact".into(), contact(r, x)));
    }
    resp.rest.extend(record_routes(r, if uac { &rr } else { &other_rr }));
    if let Some((v, role)) = &se {
        let p = role.map(|x| format!(";refresher={x}")).unwrap_or_default();
        resp.rest.push(("Session-Expires".into(), format!("{v}{p}")));
    }
    let (rt, st) = (req.text(r), resp.text(r));
    // A request whose CSeq is out of range may already be refused by the parser.
    let (Some(q), Some(p)) = (sip_parse::parse_request(&rt.clone().into()), sip_parse::parse_response(&st.clone().into())) else {
        rec.check(cseq == 0 || cseq > 2_147_483_647, "harness-parse", || format!("message refused:\n{rt}\n{st}"));
        rec.count("refused_by_parser", 1);
        return;
    };
    let (local, remote) = if uac { (&c.from_uri, &c.to_uri) } else { (&c.to_uri, &c.from_uri) };
    let ctx = || format!("{}\n{rt}\n{st}", if uac { "UAC" } else { "UAS" });
    let Some(d) = rec.guard("establish", &ctx, || if uac { Dialog::new_uac(&q, &p, u(local), u(remote)) } else { Dialog::new_uas(&q, &p, u(local), u(remote)) }) else {
        return;
    };
    let se_ok = se.as_ref().is_none_or(|(v, _)| (90..=86_400).contains(v));
    let want = !big && code < 300 && to_tag.is_some() && from_tag.is_some() && n_rr <= 50 && (1..=2_147_483_647).contains(&cseq) && se_ok;
    rec.eval(Some(&(uac, code, n_rr, cseq.min(3), want, se.is_some())));
    rec.count(if want { "established" } else { "refused" }, 1);
    if d.is_some() != want {
        // Session-Expires values past what its parser takes are as good as absent.
        if !se_ok && d.as_ref().is_some_and(|d| d.session_expires().is_none()) {
            rec.count("timer_ignored", 1);
        } else {
            rec.violate("established", format!("dialog established: {} expected {want}\n{}", d.is_some(), ctx()));
            return;
        }
    }
    let Some(d) = d else { return };
    rec.sample(|| format!("code={code} routes={n_rr} cseq={cseq} -> {:?}", d.id()));
    let (lt, rtag) = if uac { (&c.from_tag, &c.to_tag) } else { (&c.to_tag, &c.from_tag) };
    rec.check(d.id().call_id() == c.call_id && d.id().local_tag() == lt && d.id().remote_tag() == rtag, "identity", || format!("{:?} expected call-id {} local {lt} remote {rtag}\n{}", d.id(), c.call_id, ctx()));
    let st_want = if code < 200 { DialogStateType::Early } else { DialogStateType::Confirmed };
    rec.check(d.state() == st_want, "state", || format!("{:?} for {code}\n{}", d.state(), ctx()));
    let target = if uac { &resp_contact } else { &req_contact }.as_ref().unwrap_or(remote);
    rec.check(d.remote_target() == &u(target), "remote-target", || format!("{:?} expected {target}\n{}", d.remote_target(), ctx()));
    let mut routes: Vec<_> = rr.iter().map(|x| u(x)).collect();
    if uac {
        routes.reverse();
    }
    rec.check(d.route_set() == &routes[..], "route-set", || format!("{:?} expected {routes:?}\n{}", d.route_set(), ctx()));
    rec.check(d.local_uri() == &u(local) && d.remote_uri() == &u(remote), "uris", ctx);
    let (lc, rc) = if uac { (cseq, 0) } else { (0, cseq) };
    rec.check(d.local_cseq() as u64 == lc && d.remote_cseq() as u64 == rc, "cseq", || format!("{} {}\n{}", d.local_cseq(), d.remote_cseq(), ctx()));
    let sips = |s: &str| s.get(..5).is_some_and(|x| x.eq_ignore_ascii_case("sips:"));
    rec.check(d.secure() == (sips(local) || sips(remote)), "secure", ctx);
    rec.check(d.is_uac() == uac, "role", ctx);
    if se_ok {
        let (e, f) = match &se {
            Some((v, role)) => (
                Some(Duration::from_secs(*v)),
                role.map(|x| if x.eq_ignore_ascii_case("uac") { RefresherRole::Uac } else { RefresherRole::Uas }),
            ),
            None => (None, None),
        };
        rec.check(d.session_expires() == e && d.refresher() == f, "session-timer", || format!("{:?} {:?} expected {e:?} {f:?}\n{}", d.session_expires(), d.refresher(), ctx()));
    }
    // Which requests belong to it.
    let mgr = DialogManager::new();
    rec.check(mgr.insert(d.clone()).is_ok(), "insert", ctx);
    for _ in 0..6 {
        let (mut f, mut t, mut cid) = (rtag.clone(), lt.clone(), c.call_id.clone());
        let how = r.below(10);
        match how {
            0 | 1 => {}
            2 => f = tag(r),
            3 => t = tag(r),
            4 => cid = call_id(r),
            7 => cid = flip(r, &cid),
            8 => f = flip(r, &f),
            9 => t = flip(r, &t),
            5 => std::mem::swap(&mut f, &mut t),
            _ => f.push('x'),
        }
        let no_to = r.chance(1, 10);
        let want = f == *rtag && t == *lt && cid == c.call_id && !no_to;
        let (fu, tu) = (uri(r), uri(r));
        let m = Msg {
            first: "BYE sip:x@h.example.net SIP/2.0".into(),
            from: party(r, &fu, Some(&f)),
            to: party(r, &tu, (!no_to).then_some(t.as_str())),
            call_id: cid,
            cseq: "7 BYE".into(),
            rest: vec![],
        };
        let text = m.text(r);
        let Some(q) = sip_parse::parse_request(&text.clone().into()) else { panic!("harness request refused: {text}") };
        let show = || format!("{:?} vs\n{text}", d.id());
        if let Some(got) = rec.guard("matches_request", &show, || d.matches_request(&q)) {
            rec.check(got == want, "matches", || format!("matches_request={got} expected {want} for {}", show()));
        }
        if let Some(got) = rec.guard("find_by_request", &show, || mgr.find_by_request(&q)) {
            rec.check(got.is_some() == want, "finds", || format!("find_by_request found {} expected {want} for {}", got.is_some(), show()));
        }
        rec.count(if want { "own_requests" } else { "foreign_requests" }, 1);
    }
}

/// Many dialogs that share Call-IDs and tags: each request finds its own.
fn crowd(r: &mut Rng, rec: &mut Rec) {
    let mgr = DialogManager::new();
    let mut cids: Vec<String> = (0..r.range(1, 3)).map(|_| call_id(r)).collect();
    let mut tags: Vec<String> = (0..r.range(2, 5)).map(|_| tag(r)).collect();
    doubles(r, &mut cids);
    doubles(r, &mut tags);
    let mut ids = std::collections::BTreeSet::new();
    for _ in 0..r.range(3, 25) {
        let (c, a, b) = (r.pick(&cids).clone(), r.pick(&tags).clone(), r.pick(&tags).clone());
        let id = DialogId::new(&c, &a, &b).expect("id");
        let d = Dialog::unchecked_new(id, DialogStateType::Confirmed, u("sip:a@a"), u("sip:b@b"), u("sip:b@b"), 1, 1, None, vec![], false, None, None, true);
        mgr.insert(d).expect("insert");
        ids.insert((c, a, b));
    }
    rec.check(mgr.count() == ids.len(), "count", || format!("{} dialogs held, {} distinct inserted", mgr.count(), ids.len()));
    for _ in 0..20 {
        let (c, f, t) = (r.pick(&cids).clone(), r.pick(&tags).clone(), r.pick(&tags).clone());
        let want = ids.contains(&(c.clone(), t.clone(), f.clone()));
        let m = Msg {
            first: "INFO sip:x@h.example.net SIP/2.0".into(),
            from: party(r, "sip:p@p.example", Some(&f)),
            to: party(r, "sip:q@q.example", Some(&t)),
            call_id: c.clone(),
            cseq: "7 INFO".into(),
            rest: vec![],
        };
        let q = m.request(r);
        let got = mgr.find_by_request(&q);
        rec.eval(Some(&(ids.len(), want)));
        rec.check(got.is_some() == want, "crowd-finds", || format!("found {:?} expected {want} for {m:?} among {ids:?}", got.as_ref().map(|d| d.id().clone())));
        if let Some(d) = got {
            rec.check(d.id().call_id() == c && d.id().local_tag() == t && d.id().remote_tag() == f, "crowd-wrong-dialog", || format!("{:?} for {m:?}", d.id()));
        }
        let any = ids.iter().any(|x| x.0 == c);
        let by = mgr.find_by_call_id(&c);
        rec.check(by.is_some() == any && by.is_none_or(|d| d.id().call_id() == c), "crowd-call-id", || format!("find_by_call_id {c}"));
    }
    let mut all: Vec<_> = mgr.all_ids().iter().map(|i| (i.call_id().to_string(), i.local_tag().to_string(), i.remote_tag().to_string())).collect();
    all.sort();
    rec.check(all == ids.iter().cloned().collect::<Vec<_>>(), "crowd-all-ids", || format!("{all:?} vs {ids:?}"));
}

/// Identifier limits, and no panic on any text.
fn limits(r: &mut Rng, rec: &mut Rec) {
    let part = |r: &mut Rng, max: usize| -> (String, bool) {
        match r.below(8) {
            0 => (String::new(), false),
            1 => ("a".repeat(max), true),
            2 => ("a".repeat(max + 1), false),
            3 => (format!("{}\u{7f}", r.alnum(1, 5)), false),
            4 => (format!("x\r\n{}", r.alnum(1, 5)), false),
            5 => ("\u{e9}".repeat(max / 2), true),
            6 => (format!("a{}", "\u{e9}".repeat(max / 2)), false),
            _ => (r.alnum(1, 20), true),
        }
    };
    let (a, x) = part(r, 256);
    let (b, y) = part(r, 128);
    let (c, z) = part(r, 128);
    let got = DialogId::new(&a, &b, &c);
    rec.eval(Some(&(x, y, z, a.len() % 257, b.len(), c.len())));
    rec.check(got.is_ok() == (x && y && z), "id-limits", || format!("DialogId::new({a:?},{b:?},{c:?}) = {got:?}"));
    let s = match r.below(3) {
        0 => r.nasty(0, 40),
        1 => {
            let mut v = party(r, "sip:a@b.example", Some("tt")).into_bytes();
            let n = r.range(1, 4) as usize;
            r.mutate(&mut v, n);
            String::from_utf8_lossy(&v).into_owned()
        }
        _ => format!("<sip:a@b>;{}{}", r.string("a\u{e9}\u{4e2d}tag=;\"\\<>", 0, 12), r.pick(DIGITS.as_slice())),
    };
    let v = smol_str::SmolStr::new(&s);
    rec.guard("extract_tag", &|| format!("{s:?}"), || sip_dialog::extract_tag(&v));
    // A mutated exchange: any outcome but a panic.
    let c = Call::gen(r);
    let mut m = Msg {
        first: "SIP/2.0 200 OK".into(),
        from: party(r, &c.from_uri, Some(&c.from_tag)),
        to: party(r, &c.to_uri, Some(&c.to_tag)),
        call_id: c.call_id.clone(),
        cseq: "1 INVITE".into(),
        rest: vec![("Contact".into(), contact(r, &c.to_uri)), ("Session-Expires".into(), "90;refresher=uas".into())],
    };
    let routes = [c.to_uri.clone()];
    m.rest.extend(record_routes(r, &routes));
    let mut t = m.text(r).into_bytes();
    let n = r.range(1, 12) as usize;
    r.mutate(&mut t, n);
    m.first = "INVITE sip:a@b SIP/2.0".into();
    let q = m.request(r);
    if let Some(p) = sip_parse::parse_response(&t.clone().into()) {
        rec.count("mutated_parsed", 1);
        rec.guard("mutated", &|| String::from_utf8_lossy(&t).into_owned(), || {
            for d in [Dialog::new_uac(&q, &p, u(&c.from_uri), u(&c.to_uri)), Dialog::new_uas(&q, &p, u(&c.to_uri), u(&c.from_uri))].into_iter().flatten() {
                let mut d = d;
                d.update_from_response(&p);
                let _ = d.update_from_request(&q);
                assert!(d.route_set().len() <= 50);
            }
        });
    }
}

fn main() {
    let mut c = Ctx::new("D01", "a dialog is established exactly by 1xx-2xx exchanges with both tags within the limits; identity, state, target, route set, CSeq, security and timer equal the generator's model; only the peer's requests match");
    c.run("uac", c.n(40_000, 600_000), |r, rec| establish(r, rec, true));
    c.run("uas", c.n(40_000, 600_000), |r, rec| establish(r, rec, false));
    c.run("crowd", c.n(4_000, 60_000), crowd);
    c.run("limits", c.n(40_000, 600_000), limits);
    c.assume("messages reach the dialog layer through the stack's own parser");
    c.finish();
}
