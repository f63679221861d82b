//! U01: what a user agent server answers: every response fits its request, dialogs and
//! subscriptions are made as answered, in-dialog requests are taken only by their dialog,
//! session timers and reliable provisional responses follow RFC 4028 and RFC 3262.
use bytes::Bytes;
use h_dialog::{call_id, display, flip, party, record_routes, tag, u, uri};
use sip_auth::{Authenticator, Credentials};
use sip_core::{Headers, Method, RefresherRole, Request, Response};
use sip_dialog::{Dialog, DialogId};
use sip_uas::{AcceptInviteOutcome, SessionTimerPolicy, UserAgentServer};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::Duration;
use vmon::{Ctx, Rec, Rng};

/// A request and what was written into it.
struct Req {
    method: String,
    vias: Vec<String>,
    rrs: Vec<String>,
    from: String,
    from_uri: String,
    from_tag: String,
    to: String,
    to_tag: Option<String>,
    call_id: String,
    cseq: u32,
    extra: Vec<(String, String)>,
}

fn via(r: &mut Rng) -> String {
    let t = *r.pick(&["UDP", "TCP", "TLS", "WS", "WSS"]);
    let h = *r.pick(&["h.example", "192.0.2.1:5062", "[2001:db8::1]:5061", "h.example:5060"]);
    format!("SIP/2.0/{t} {h};branch=z9hG4bK{}{}", r.alnum(1, 20), r.pick(&["", ";rport", ";received=192.0.2.7;rport=99", ";x=\"a, b\"", " ; lr"]))
}

impl Req {
    fn new(r: &mut Rng, method: &str) -> Req {
        let vias = (0..1 + r.below(4)).map(|_| via(r)).collect();
        let n = r.below(4);
        let us: Vec<String> = (0..n).map(|_| uri(r)).collect();
        let rrs = record_routes(r, &us).into_iter().map(|x| x.1).collect();
        let from_uri = uri(r);
        let from_tag = tag(r);
        let from = party(r, &from_uri, Some(&from_tag));
        let to_tag = r.chance(1, 3).then(|| tag(r));
        let tu = uri(r);
        let to = party(r, &tu, to_tag.as_deref());
        Req { method: method.into(), vias, rrs, from, from_uri, from_tag, to, to_tag, call_id: call_id(r), cseq: r.ur(0, 1 << 31) as u32, extra: vec![] }
    }
    /// A request inside the dialog the answer to `self` made.
    fn inside(&self, r: &mut Rng, method: &str, local_tag: &str) -> Req {
        let mut n = Req::new(r, method);
        n.from = party(r, &self.from_uri, Some(&self.from_tag));
        n.from_tag = self.from_tag.clone();
        n.to_tag = Some(local_tag.to_string());
        let tu = uri(r);
        n.to = party(r, &tu, Some(local_tag));
        n.call_id = self.call_id.clone();
        n.cseq = self.cseq.saturating_add(1);
        n
    }
    fn text(&self, r: &mut Rng) -> String {
        let mut h: Vec<(String, String)> = vec![];
        for v in &self.vias {
            h.push(("Via".into(), v.clone()));
        }
        h.push(("Max-Forwards".into(), "70".into()));
        for v in &self.rrs {
            h.push(("Record-Route".into(), v.clone()));
        }
        h.push(("From".into(), self.from.clone()));
        h.push(("To".into(), self.to.clone()));
        h.push(("Call-ID".into(), self.call_id.clone()));
        h.push(("CSeq".into(), format!("{} {}", self.cseq, self.method)));
        h.extend(self.extra.iter().cloned());
        let k = r.below(h.len());
        if r.chance(1, 3) && !self.vias.is_empty() && (k == 0 || k >= self.vias.len()) {
            // Order among different names is free.
            h.rotate_left(k);
            let rr = h.iter().filter(|x| x.0 == "Record-Route").cloned().collect::<Vec<_>>();
            if rr.iter().map(|x| &x.1).ne(self.rrs.iter()) {
                h.retain(|x| x.0 != "Record-Route");
                h.extend(self.rrs.iter().map(|x| ("Record-Route".to_string(), x.clone())));
            }
        }
        let mut s = format!("{} sip:me@example.com SIP/2.0\r\n", self.method);
        for (n, v) in h {
            let n = match r.below(8) {
                0 => match n.as_str() {
                    "From" => "f".into(),
                    "To" => "t".into(),
                    "Via" => "v".into(),
                    "Call-ID" => "i".into(),
                    "Contact" => "m".into(),
                    "Event" => "o".into(),
                    "Session-Expires" => "x".into(),
                    _ => n.clone(),
                },
                1 => n.to_ascii_lowercase(),
                2 => n.to_ascii_uppercase(),
                _ => n,
            };
            s.push_str(&format!("{n}: {v}\r\n"));
        }
        s.push_str("Content-Length: 0\r\n\r\n");
        s
    }
    fn get(&self, r: &mut Rng) -> Request {
        let t = self.text(r);
        sip_parse::parse_request(&Bytes::from(t.clone())).unwrap_or_else(|| panic!("harness request refused: {t}"))
    }
}

fn all(h: &Headers, n: &str) -> Vec<String> {
    h.get_all(n).map(|s| s.to_string()).collect()
}
fn one(h: &Headers, n: &str) -> Option<String> {
    let v = all(h, n);
    if v.len() == 1 {
        Some(v[0].clone())
    } else {
        None
    }
}
fn show(res: &Response) -> String {
    String::from_utf8_lossy(&sip_parse::serialize_response(res)).chars().take(1500).collect()
}

/// What every response owes its request. Returns the To tag.
fn fits(rec: &mut Rec, what: &str, q: &Req, req: &Request, res: &Response, code: u16, cseq_method: &str) -> Option<String> {
    let d = || format!("{what}: {q}\nresponse:\n{}", show(res), q = String::from_utf8_lossy(&sip_parse::serialize_request(req)).chars().take(2500).collect::<String>());
    let h = res.headers();
    rec.check(res.code() == code, "status", || format!("wanted {code}; {}", d()));
    rec.check(all(h, "Via") == all(req.headers(), "Via") && all(h, "Via").len() >= 1, "via", d);
    rec.check(all(h, "Via") == q.vias, "via-as-sent", d);
    rec.check(all(h, "Record-Route") == q.rrs, "record-route", d);
    rec.check(one(h, "From").as_deref() == Some(&q.from), "from", d);
    rec.check(one(h, "Call-ID").as_deref() == Some(&q.call_id), "call-id", d);
    rec.check(one(h, "CSeq") == Some(format!("{} {}", q.cseq, cseq_method)), "cseq", d);
    rec.check(one(h, "Content-Length") == Some(res.body().len().to_string()), "content-length", d);
    let to = one(h, "To").unwrap_or_default();
    let mut t = q.to_tag.clone();
    if code == 100 || q.to_tag.is_some() {
        rec.check(to == q.to, "to", d);
    } else {
        let fresh = to.strip_prefix(q.to.as_str()).and_then(|x| x.strip_prefix(";tag=")).unwrap_or_default();
        let ok = fresh.len() >= 4 && fresh.bytes().all(|b| b.is_ascii_alphanumeric());
        rec.check(ok, "to-tag", d);
        t = Some(fresh.to_string());
    }
    // The text that goes out says the same.
    let w = sip_parse::serialize_response(res);
    match sip_parse::parse_response(&w) {
        Some(b) => {
            // (Where the length stands among the headers is free.)
            let pairs = |x: &Response| x.headers().iter().filter(|h| h.name() != "Content-Length").map(|h| (h.name().to_string(), h.value().to_string())).collect::<Vec<_>>();
            rec.check(b.code() == res.code() && b.reason() == res.reason() && b.body() == res.body() && pairs(&b) == pairs(res), "wire", d);
        }
        None => {
            rec.check(false, "wire", d);
        }
    }
    t
}

/// Response-specific headers: Contact as configured, none given twice.
fn contact_is(rec: &mut Rec, res: &Response, want: &str) {
    rec.check(one(res.headers(), "Contact") == Some(format!("<{want}>")), "contact", || show(res));
}
fn no_doubles(rec: &mut Rec, res: &Response) {
    for n in ["To", "From", "Call-ID", "CSeq", "Contact", "Content-Length", "Content-Type", "Expires", "Session-Expires", "Min-SE", "RSeq", "Allow", "Accept", "SIP-ETag"] {
        rec.check(all(res.headers(), n).len() <= 1, "header-twice", || format!("{n}: {}", show(res)));
    }
}

fn uas(r: &mut Rng) -> (UserAgentServer, String, String) {
    let (l, c) = (uri(r), uri(r));
    (UserAgentServer::new(u(&l), u(&c)), u(&l).as_str().to_string(), u(&c).as_str().to_string())
}
fn body(r: &mut Rng) -> String {
    match r.below(6) {
        0 => String::new(),
        1 => r.nasty(0, 60),
        2 => "v=0\r\no=- 1 1 IN IP4 192.0.2.1\r\ns=-\r\nt=0 0\r\n".repeat(1 + r.below(30)),
        _ => "v=0\r\no=- 1 1 IN IP4 192.0.2.1\r\ns=caf\u{e9}\r\nt=0 0\r\n".into(),
    }
}
fn reason(r: &mut Rng) -> String {
    r.pick(&["OK", "Not Here", "Nope", "Caf\u{e9} closed", "", "Too - many; \"odd\" <chars>", "x"]).to_string()
}
fn with_body(rec: &mut Rec, res: &Response, b: Option<&str>) {
    rec.check(res.body().as_ref() == b.unwrap_or("").as_bytes(), "body", || show(res));
    let ct = all(res.headers(), "Content-Type");
    let want: Vec<String> = b.map(|_| "application/sdp".to_string()).into_iter().collect();
    rec.check(ct == want, "content-type", || show(res));
}

fn plain(r: &mut Rng, rec: &mut Rec) {
    let (s, _, c) = uas(r);
    let m = *r.pick(&h_dialog::METHODS);
    let mut q = Req::new(r, m);
    if r.chance(1, 8) {
        let n = 10 + r.below(80);
        q.vias = (0..n).map(|_| via(r)).collect();
        let k = r.below(60);
        q.rrs = (0..k).map(|i| format!("<sip:p{i}.example;lr>")).collect();
    }
    let req = q.get(r);
    let what = r.below(14);
    rec.eval(Some(&(what, m)));
    let why = reason(r);
    match what {
        0..=2 => {
            let code = if r.chance(1, 4) { 100 } else { r.range(101, 699) as u16 };
            let res = UserAgentServer::create_response(&req, code, &why);
            fits(rec, "create_response", &q, &req, &res, code, m);
            rec.check(res.reason() == why, "reason", || show(&res));
            with_body(rec, &res, None);
            no_doubles(rec, &res);
        }
        3 => {
            let res = UserAgentServer::create_trying(&req);
            fits(rec, "trying", &q, &req, &res, 100, m);
        }
        4 => {
            for (res, code) in [(s.create_ringing(&req), 180), (s.create_busy(&req), 486), (s.create_decline(&req), 603)] {
                fits(rec, "canned", &q, &req, &res, code, m);
                no_doubles(rec, &res);
            }
        }
        5 => {
            let b = if r.coin() { Some(body(r)) } else { None };
            match s.create_ok(&req, b.as_deref()) {
                Ok(res) => {
                    fits(rec, "ok", &q, &req, &res, 200, m);
                    contact_is(rec, &res, &c);
                    with_body(rec, &res, b.as_deref());
                    no_doubles(rec, &res);
                }
                Err(e) => {
                    rec.check(false, "ok-refused", || format!("{e:?}"));
                }
            }
            if r.chance(1, 200) {
                let big = 1_048_576 + r.below(2);
                let got = s.create_ok(&req, Some(&"x".repeat(big)));
                rec.check(got.is_ok() == (big <= 1_048_576), "body-limit", || format!("{big}"));
            }
        }
        6 => {
            let res = UserAgentServer::create_request_terminated(&req);
            fits(rec, "terminated", &q, &req, &res, 487, m);
        }
        7 => {
            let mut q = Req::new(r, "CANCEL");
            q.vias.truncate(1);
            let req = q.get(r);
            let res = UserAgentServer::create_request_terminated_from_cancel(&req);
            fits(rec, "terminated-from-cancel", &q, &req, &res, 487, "INVITE");
            match s.handle_cancel(&req) {
                Ok(res) => {
                    fits(rec, "cancel", &q, &req, &res, 200, "CANCEL");
                }
                Err(e) => {
                    rec.check(false, "cancel-refused", || e.to_string());
                }
            }
        }
        8 => {
            let code = r.range(300, 699) as u16;
            for res in [UserAgentServer::reject_invite(&req, code, &why), UserAgentServer::reject_refer(&req, code, &why), s.reject_message_publish(&req, code, &why)] {
                fits(rec, "reject", &q, &req, &res, code, m);
                rec.check(res.reason() == why, "reason", || show(&res));
            }
        }
        9 => {
            let n = r.u32();
            let res = UserAgentServer::create_session_interval_too_small(&req, n);
            fits(rec, "too-small", &q, &req, &res, 422, m);
            rec.check(one(res.headers(), "Min-SE") == Some(n.to_string()), "min-se", || show(&res));
        }
        10 => {
            let res = UserAgentServer::accept_options(&req);
            fits(rec, "options", &q, &req, &res, 200, m);
            let allow: Vec<String> = one(res.headers(), "Allow").unwrap_or_default().split(',').map(|x| x.trim().to_string()).collect();
            rec.check(["INVITE", "ACK", "BYE", "CANCEL", "OPTIONS"].iter().all(|m| allow.iter().any(|a| a == m)), "allow", || show(&res));
            rec.check(one(res.headers(), "Accept").unwrap_or_default().contains("application/sdp"), "accept", || show(&res));
        }
        11 => {
            let res = s.accept_message(&req);
            fits(rec, "message", &q, &req, &res, 200, m);
            with_body(rec, &res, None);
        }
        12 => {
            let etag = if r.coin() { Some(r.token(1, 256)) } else { None };
            match s.accept_publish(&req, etag.as_deref()) {
                Ok(res) => {
                    fits(rec, "publish", &q, &req, &res, 200, m);
                    rec.check(all(res.headers(), "SIP-ETag") == etag.clone().into_iter().collect::<Vec<_>>(), "etag", || show(&res));
                }
                Err(e) => {
                    rec.check(false, "publish-refused", || format!("{e:?} {etag:?}"));
                }
            }
            let bad = r.pick(&["a\r\nX: y", "a\nb", "\r"]).to_string();
            rec.check(s.accept_publish(&req, Some(&bad)).is_err(), "etag-injection", || format!("{bad:?}"));
        }
        _ => {
            let res = UserAgentServer::create_bad_request(&req, &why);
            fits(rec, "bad", &q, &req, &res, 400, m);
        }
    }
    // Every answer without a given tag gets a tag of its own.
    if q.to_tag.is_none() {
        let a = one(UserAgentServer::create_response(&req, 200, "OK").headers(), "To");
        let b = one(UserAgentServer::create_response(&req, 200, "OK").headers(), "To");
        rec.check(a != b, "tag-fresh", || format!("{a:?} {b:?}"));
    }
}

fn id_of(q: &Req, local: &str) -> DialogId {
    DialogId::unchecked_new(q.call_id.as_str(), local, q.from_tag.as_str())
}

struct Guard(AtomicBool);
impl Authenticator for Guard {
    fn challenge(&self, request: &Request) -> anyhow::Result<Response> {
        Ok(UserAgentServer::create_response(request, 401, "Unauthorized"))
    }
    fn verify(&self, _: &Request, _: &Headers) -> anyhow::Result<bool> {
        Ok(self.0.load(Ordering::SeqCst))
    }
    fn credentials_for(&self, _: &Method, _: &str) -> Option<Credentials> {
        None
    }
}

/// A dialog the way `accept_invite` or its session-timer sibling makes it.
fn accepted(r: &mut Rng, rec: &mut Rec, s: &UserAgentServer, lu: &str, cu: &str, q: &Req, req: &Request) -> Option<(Dialog, String)> {
    let b = if r.coin() { Some(body(r)) } else { None };
    match s.accept_invite(req, b.as_deref()) {
        Ok((res, d)) => {
            let t = fits(rec, "accept_invite", q, req, &res, 200, "INVITE")?;
            contact_is(rec, &res, cu);
            with_body(rec, &res, b.as_deref());
            no_doubles(rec, &res);
            rec.check(all(res.headers(), "Session-Expires").is_empty(), "timer-unasked", || show(&res));
            made(rec, s, lu, q, &d, &t);
            Some((d, t))
        }
        Err(e) => {
            rec.check(false, "invite-refused", || format!("{e}: {}", String::from_utf8_lossy(&sip_parse::serialize_request(req))));
            None
        }
    }
}
fn made(rec: &mut Rec, s: &UserAgentServer, lu: &str, q: &Req, d: &Dialog, t: &str) {
    let w = || format!("{:?} tag {t} from {} to {}", d.id(), q.from, q.to);
    rec.check(d.id().call_id() == q.call_id && d.id().local_tag() == t && d.id().remote_tag() == q.from_tag, "dialog-id", w);
    rec.check(d.local_uri().as_str() == lu, "dialog-local", w);
    rec.check(d.remote_uri().as_str() == u(&q.from_uri).as_str(), "dialog-remote", || format!("{} for {}", d.remote_uri().as_str(), q.from));
    rec.check(s.dialog_manager.get(d.id()).is_some(), "dialog-kept", w);
    rec.check(!d.is_uac(), "dialog-role", w);
}

fn dialogs(r: &mut Rng, rec: &mut Rec) {
    let (mut s, lu, cu) = uas(r);
    let guard = Arc::new(Guard(AtomicBool::new(true)));
    let guarded = r.chance(1, 4);
    if guarded {
        s = s.with_authenticator(guard.clone());
    }
    let mut q = Req::new(r, "INVITE");
    q.to_tag = None;
    let tu = uri(r);
    q.to = party(r, &tu, None);
    let target = uri(r);
    q.extra.push(("Contact".into(), h_dialog::contact(r, &target)));
    let req = q.get(r);
    if guarded {
        guard.0.store(false, Ordering::SeqCst);
        rec.check(s.accept_invite(&req, None).is_err(), "unauthenticated-accepted", || q.from.clone());
        rec.check(s.accept_invite_with_session_timer(&req, None, &SessionTimerPolicy::default()).is_err(), "unauthenticated-accepted", || q.from.clone());
        rec.check(s.dialog_manager.count() == 0, "unauthenticated-dialog", || q.from.clone());
        rec.check(s.verify_authentication(&req).ok() == Some(false), "verify", || String::new());
        match s.create_unauthorized(&req) {
            Ok(res) => {
                fits(rec, "challenge", &q, &req, &res, 401, "INVITE");
            }
            Err(e) => {
                rec.check(false, "challenge", || e.to_string());
            }
        }
        guard.0.store(true, Ordering::SeqCst);
    } else {
        rec.check(s.verify_authentication(&req).ok() == Some(true), "verify", || String::new());
        rec.check(s.create_unauthorized(&req).is_err(), "challenge", || String::new());
    }
    let Some((d, t)) = accepted(r, rec, &s, &lu, &cu, &q, &req) else { return };
    // Other methods make no dialog.
    let other = Req::new(r, *r.clone().pick(&["BYE", "OPTIONS", "UPDATE", "ACK"]));
    let oreq = other.get(r);
    rec.check(s.accept_invite(&oreq, None).is_err() && s.dialog_manager.count() == 1, "method", || other.method.clone());
    rec.check(s.accept_subscribe(&oreq, None).is_err() && s.handle_cancel(&oreq).is_err(), "method", || other.method.clone());
    let n = 4 + r.below(10);
    for _ in 0..n {
        let m = *r.pick(&["INFO", "REFER", "BYE", "INFO", "REFER"]);
        let mut i = q.inside(r, m, &t);
        let refer_to = format!("{}<{}>", display(r), uri(r));
        if m == "REFER" {
            i.extra.push(("Refer-To".into(), refer_to.clone()));
        }
        let wrong = r.below(12);
        let mut call = m;
        match wrong {
            0 => i.call_id = flip(r, &i.call_id),
            1 => {
                let f = flip(r, &i.from_tag);
                i.from = party(r, &q.from_uri, Some(&f));
            }
            2 => {
                let f = flip(r, &t);
                i.to = party(r, "sip:me@example.com", Some(&f));
                i.to_tag = Some(f);
            }
            3 => {
                i.to = party(r, "sip:me@example.com", None);
                i.to_tag = None;
            }
            4 => i.from = party(r, &q.from_uri, None),
            5 => {
                // Tags the wrong way round.
                i.from = party(r, &q.from_uri, Some(&t));
                i.to = party(r, "sip:me@example.com", Some(&q.from_tag));
                i.to_tag = Some(q.from_tag.clone());
            }
            6 => call = if m == "INFO" { "BYE" } else { "INFO" },
            7 if m == "REFER" => i.extra.clear(),
            _ => {}
        }
        let bad = wrong < 7 || (wrong == 7 && m == "REFER");
        let req = i.get(r);
        rec.eval(Some(&(m, wrong.min(8))));
        let got = match call {
            "BYE" => s.handle_bye(&req, &d),
            "INFO" => s.handle_info(&req, &d),
            _ => s.accept_refer(&req, &d).map(|(res, to)| {
                rec.check(to == refer_to, "refer-to", || format!("{to} for {refer_to}"));
                res
            }),
        };
        let w = || format!("{call} wrong={wrong} {}\ndialog {:?}", String::from_utf8_lossy(&sip_parse::serialize_request(&req)), d.id());
        rec.check(got.is_ok() != bad, if bad { "foreign-accepted" } else { "own-refused" }, w);
        let mut gone = false;
        if let Ok(res) = got {
            if !bad {
                let code = if call == "REFER" { 202 } else { 200 };
                fits(rec, call, &i, &req, &res, code, m);
                contact_is(rec, &res, &cu);
                no_doubles(rec, &res);
                gone = call == "BYE";
            }
        }
        rec.check(s.dialog_manager.get(d.id()).is_none() == gone, "dialog-removed", w);
        if gone {
            break;
        }
    }
    rec.sample(|| format!("{} {}", q.call_id, t));
}

fn timers(r: &mut Rng, rec: &mut Rec) {
    let (s, lu, cu) = uas(r);
    let mut q = Req::new(r, "INVITE");
    q.extra.push(("Contact".into(), "<sip:a@192.0.2.9>".into()));
    let near = |r: &mut Rng| match r.below(5) {
        0 => 90,
        1 => r.ur(60, 130),
        2 => r.ur(1, 5000),
        3 => 1800,
        _ => r.ur(85, 95),
    };
    let se = if r.chance(5, 6) { Some(near(r).max(90)) } else { None };
    let hint = *r.pick(&[None, Some("uac"), Some("uas")]);
    if let Some(n) = se {
        let v = match hint {
            None => r.pick(&[format!("{n}"), format!("{n};x=y")]).clone(),
            Some(x) => r.pick(&[format!("{n};refresher={x}"), format!("{n} ; refresher = {x}"), format!("{n};x=y;refresher={x}"), format!("{n};Refresher={}", x.to_ascii_uppercase())]).clone(),
        };
        q.extra.push(("Session-Expires".into(), v));
    }
    let peer = if r.coin() { Some(near(r).max(90)) } else { None };
    if let Some(n) = peer {
        q.extra.push(("Min-SE".into(), n.to_string()));
    }
    let policy = SessionTimerPolicy {
        min_se: Duration::from_secs(near(r).max(90)),
        preferred_se: if r.coin() { Some(Duration::from_secs(near(r))) } else { None },
        force_refresher: *r.pick(&[None, None, Some(RefresherRole::Uac), Some(RefresherRole::Uas)]),
    };
    let req = q.get(r);
    let b = if r.coin() { Some(body(r)) } else { None };
    let floor = policy.min_se.as_secs().max(peer.unwrap_or(0));
    let w = |x: &str| format!("{x}: {policy:?} {}", String::from_utf8_lossy(&sip_parse::serialize_request(&req)));
    rec.eval(Some(&(se.map(|n| (n < floor, n == floor)), hint, policy.force_refresher.map(|x| x.as_str()))));
    match s.accept_invite_with_session_timer(&req, b.as_deref(), &policy) {
        Ok(AcceptInviteOutcome::SessionIntervalTooSmall { response, required_min_se }) => {
            rec.check(se.is_some_and(|n| n < floor), "timer-refused", || w("422"));
            fits(rec, "422", &q, &req, &response, 422, "INVITE");
            rec.check(required_min_se.as_secs() == floor && one(response.headers(), "Min-SE") == Some(floor.to_string()), "timer-min", || w(&show(&response)));
            rec.check(s.dialog_manager.count() == 0, "timer-dialog", || w("422"));
        }
        Ok(AcceptInviteOutcome::Accepted { response, dialog, session_timer }) => {
            rec.check(!se.is_some_and(|n| n < floor), "timer-too-small", || w("accepted"));
            if let Some(t) = fits(rec, "timer", &q, &req, &response, 200, "INVITE") {
                made(rec, &s, &lu, &q, &dialog, &t);
            }
            contact_is(rec, &response, &cu);
            with_body(rec, &response, b.as_deref());
            no_doubles(rec, &response);
            let h = response.headers();
            match se {
                None => {
                    rec.check(session_timer.is_none() && all(h, "Session-Expires").is_empty() && all(h, "Require").is_empty(), "timer-unasked", || w(&show(&response)));
                }
                Some(n) => {
                    let want = match policy.preferred_se {
                        Some(p) => n.min(p.as_secs().max(floor)),
                        None => n,
                    };
                    let role = match (policy.force_refresher, hint) {
                        (Some(RefresherRole::Uas), _) => "uas",
                        (Some(RefresherRole::Uac), _) => "uac",
                        (None, Some(x)) => x,
                        (None, None) => "uac",
                    };
                    rec.check(one(h, "Session-Expires") == Some(format!("{want};refresher={role}")), "timer-value", || w(&show(&response)));
                    rec.check(all(h, "Require") == ["timer"], "timer-require", || w(&show(&response)));
                    let st = session_timer.map(|x| (x.session_expires.as_secs(), x.refresher.as_str().to_string()));
                    rec.check(st == Some((want, role.to_string())), "timer-outcome", || w(&format!("{st:?}")));
                    rec.check(dialog.session_expires() == Some(Duration::from_secs(want)), "timer-dialog-value", || w(&format!("{:?}", dialog.session_expires())));
                }
            }
        }
        Err(e) => {
            rec.check(false, "timer-error", || w(&e.to_string()));
        }
    }
    // The plain check.
    let min = if r.coin() { Some(policy.min_se) } else { None };
    let floor = min.map_or(90, |m| m.as_secs());
    match UserAgentServer::validate_session_timer(&req, min) {
        Ok(()) => {
            rec.check(!se.is_some_and(|n| n < floor), "check-too-small", || w("ok"));
        }
        Err(res) => {
            rec.check(se.is_some_and(|n| n < floor), "check-refused", || w("422"));
            fits(rec, "check", &q, &req, &res, 422, "INVITE");
            rec.check(one(res.headers(), "Min-SE") == Some(floor.to_string()), "timer-min", || w(&show(&res)));
        }
    }
}

fn early(q: &Req, lt: &str) -> Dialog {
    Dialog::unchecked_new(id_of(q, lt), sip_dialog::DialogStateType::Early, u("sip:me@example.com"), u(&q.from_uri), u("sip:a@192.0.2.9"), 0, q.cseq, None, vec![], false, None, None, false)
}

fn reliable(r: &mut Rng, rec: &mut Rec) {
    let (s, _, cu) = uas(r);
    let mut calls: Vec<(Req, Request, String, Dialog, Vec<(u32, bool)>)> = vec![];
    for k in 0..1 + r.below(3) {
        let mut q = Req::new(r, "INVITE");
        if k > 0 && r.coin() {
            // Another branch of the same call.
            let o: &Req = &calls[0].0;
            q.call_id = o.call_id.clone();
            if r.coin() {
                q.from = o.from.clone();
                q.from_tag = o.from_tag.clone();
                q.from_uri = o.from_uri.clone();
            }
            q.cseq = o.cseq;
        }
        let lt = tag(r);
        if r.coin() {
            // A second INVITE of an existing call names our tag already.
            let tu = uri(r);
            q.to_tag = Some(lt.clone());
            q.to = party(r, &tu, Some(&lt));
        } else if q.to_tag.is_some() {
            q.to_tag = None;
            let tu = uri(r);
            q.to = party(r, &tu, None);
        }
        if calls.iter().any(|c| id_of(&c.0, &c.2) == id_of(&q, &lt)) {
            continue;
        }
        let req = q.get(r);
        let d = early(&q, &lt);
        calls.push((q, req, lt, d, vec![]));
    }
    let n = 6 + r.below(14);
    for _ in 0..n {
        let k = r.below(calls.len());
        let others: Vec<u32> = calls.iter().flat_map(|c| c.4.iter().map(|x| x.0)).collect();
        let (q, req, lt, d, sent) = &mut calls[k];
        if sent.len() < 10 && (r.chance(2, 5) || sent.is_empty()) {
            let code = r.range(101, 199) as u16;
            let b = if r.coin() { Some(body(r)) } else { None };
            let why = reason(r);
            rec.eval(Some(&("send", sent.len().min(4), q.to_tag.is_some())));
            let Ok(res) = s.create_reliable_provisional(req, d, code, &why, b.as_deref()) else {
                rec.check(false, "reliable-refused", || why.clone());
                continue;
            };
            // The To tag is the dialog's.
            let mut z = Req { method: q.method.clone(), vias: q.vias.clone(), rrs: q.rrs.clone(), from: q.from.clone(), from_uri: q.from_uri.clone(), from_tag: q.from_tag.clone(), to: q.to.clone(), to_tag: q.to_tag.clone(), call_id: q.call_id.clone(), cseq: q.cseq, extra: vec![] };
            let to = one(res.headers(), "To").unwrap_or_default();
            let t = sip_dialog::extract_tag(&smol_str::SmolStr::new(&to));
            rec.check(t.as_deref() == Some(lt.as_str()), "reliable-tag", || format!("dialog's tag {lt}: {}", show(&res)));
            if q.to_tag.is_none() {
                rec.check(to == format!("{};tag={lt}", q.to), "reliable-to", || show(&res));
            }
            z.to = to;
            z.to_tag = Some(lt.clone());
            fits(rec, "reliable", &z, req, &res, code, "INVITE");
            no_doubles(rec, &res);
            contact_is(rec, &res, &cu);
            with_body(rec, &res, b.as_deref());
            rec.check(all(res.headers(), "Require") == ["100rel"], "reliable-require", || show(&res));
            let rs: u32 = one(res.headers(), "RSeq").and_then(|x| x.parse().ok()).unwrap_or(0);
            let want = sent.last().map(|x| x.0 + 1);
            rec.check(rs > 0 && rs < (1 << 31) + 1000 && want.map_or(true, |w| w == rs), "rseq", || format!("{rs} after {sent:?}"));
            sent.push((rs, false));
            continue;
        }
        // Acknowledge.
        let at = r.below(sent.len());
        let (rs, done) = sent[at];
        let mut i = q.inside(r, "PRACK", lt);
        let wrong = r.below(9);
        let rack = match wrong {
            0 => {
                let mut x = rs.wrapping_add(r.ur(1, 3) as u32);
                while sent.iter().any(|y| y.0 == x) || others.contains(&x) {
                    x += 1;
                }
                format!("{x} {} INVITE", q.cseq)
            }
            1 => format!("{rs} {} INVITE", q.cseq + 1),
            2 => format!("{rs} {} UPDATE", q.cseq),
            _ => format!("{rs} {} INVITE", q.cseq),
        };
        if wrong == 3 {
            i.extra.push(("RAck".into(), r.pick(&["", "1", "x y z", "1 2", "99999999999 1 INVITE", "-1 1 INVITE"]).to_string()));
        } else if wrong != 4 {
            i.extra.push(("RAck".into(), rack));
        }
        if wrong == 5 {
            let f = flip(r, lt);
            i.to = party(r, "sip:me@example.com", Some(&f));
            i.to_tag = Some(f);
        }
        let preq = i.get(r);
        let got = s.handle_prack(&preq, d);
        rec.eval(Some(&("prack", wrong, done)));
        let w = || format!("wrong={wrong} done={done} sent={sent:?}: {}", String::from_utf8_lossy(&sip_parse::serialize_request(&preq)));
        match got {
            Err(_) => {
                rec.check(wrong == 5, "prack-error", w);
            }
            Ok(res) => {
                let code = if wrong < 5 || done { 400 } else { 200 };
                rec.check(wrong != 5, "prack-foreign", w);
                if wrong != 5 {
                    rec.check(res.code() == code, "prack-answer", || format!("{} for {}", res.code(), w()));
                    fits(rec, "prack", &i, &preq, &res, res.code(), "PRACK");
                    no_doubles(rec, &res);
                }
            }
        }
        if wrong > 5 {
            sent[at].1 = true;
        }
    }
    // Nothing pending at all.
    let q = Req::new(r, "INVITE");
    let lt = tag(r);
    let d = early(&q, &lt);
    let mut i = q.inside(r, "PRACK", &lt);
    i.extra.push(("RAck".into(), format!("1 {} INVITE", q.cseq)));
    let preq = i.get(r);
    match s.handle_prack(&preq, &d) {
        Ok(res) => {
            fits(rec, "prack-none", &i, &preq, &res, 481, "PRACK");
        }
        Err(e) => {
            rec.check(false, "prack-none", || e.to_string());
        }
    }
}

fn subscriptions(r: &mut Rng, rec: &mut Rec) {
    let (s, lu, cu) = uas(r);
    let mut q = Req::new(r, "SUBSCRIBE");
    let target = uri(r);
    q.extra.push(("Contact".into(), h_dialog::contact(r, &target)));
    let ev = r.pick(&["refer", "presence", "dialog", "message-summary", "refer;id=93809824"]).to_string();
    q.extra.push(("Event".into(), ev.clone()));
    let asked = if r.coin() { Some(r.ur(0, 100_000) as u32) } else { None };
    if let Some(n) = asked {
        q.extra.push(("Expires".into(), n.to_string()));
    }
    let over = if r.chance(1, 3) { Some(r.ur(0, 7200) as u32) } else { None };
    let req = q.get(r);
    rec.eval(Some(&(ev.len(), asked.is_some(), over.is_some(), q.to_tag.is_some())));
    let (res, mut sub) = match s.accept_subscribe(&req, over) {
        Ok(x) => x,
        Err(e) => {
            rec.check(false, "subscribe-refused", || format!("{e}: {}", String::from_utf8_lossy(&sip_parse::serialize_request(&req))));
            return;
        }
    };
    let Some(t) = fits(rec, "subscribe", &q, &req, &res, 200, "SUBSCRIBE") else { return };
    contact_is(rec, &res, &cu);
    no_doubles(rec, &res);
    let secs = over.or(asked).unwrap_or(3600);
    let w = || format!("{} {:?} asked {asked:?} given {over:?}", show(&res), sub.id());
    rec.check(one(res.headers(), "Expires") == Some(secs.to_string()), "subscribe-expires", w);
    rec.check(sub.expires().as_secs() == u64::from(secs), "subscribe-duration", || format!("{:?} {}", sub.expires(), w()));
    rec.check(sub.id().call_id() == q.call_id && sub.id().from_tag() == q.from_tag && sub.id().to_tag() == t, "subscribe-id", w);
    rec.check(sub.contact().as_str() == u(&target).as_str(), "subscribe-target", || format!("{} {}", sub.contact().as_str(), target));
    rec.check(sub.remote_uri().as_str() == u(&q.from_uri).as_str() && sub.local_uri().as_str() == lu, "subscribe-uris", w);
    rec.check(s.subscription_manager.get(sub.id()).is_some(), "subscribe-kept", w);
    let mut last: Option<u64> = None;
    let mut branches = vec![];
    for _ in 0..1 + r.below(6) {
        let code = if r.coin() { *r.pick(&[100, 180, 183, 199, 200, 202, 299, 300, 302, 404, 486, 503, 603]) } else { r.range(100, 699) as u16 };
        let why = r.pick(&["Trying", "OK", "Caf\u{e9}", "", "Busy; really"]).to_string();
        let n = match s.create_notify_sipfrag(&mut sub, code, &why) {
            Ok(n) => n,
            Err(e) => {
                rec.check(false, "notify-refused", || format!("{e:?} {why:?}"));
                continue;
            }
        };
        let wire = sip_parse::serialize_request(&n);
        let Some(n) = sip_parse::parse_request(&wire) else {
            rec.check(false, "notify-wire", || String::from_utf8_lossy(&wire).to_string());
            continue;
        };
        let h = n.headers();
        let w = || String::from_utf8_lossy(&wire).to_string();
        rec.check(n.method().as_str() == "NOTIFY" && n.uri().as_str() == u(&target).as_str(), "notify-target", || format!("target {target}: {}", w()));
        rec.check(one(h, "Call-ID").as_deref() == Some(&q.call_id), "notify-call-id", w);
        rec.check(one(h, "From") == Some(format!("<{lu}>;tag={t}")), "notify-from", w);
        rec.check(one(h, "To") == Some(format!("<{}>;tag={}", u(&q.from_uri).as_str(), q.from_tag)), "notify-to", || format!("{} {}", q.from, w()));
        let cs = one(h, "CSeq").unwrap_or_default();
        let num = cs.strip_suffix(" NOTIFY").and_then(|x| x.parse::<u64>().ok());
        rec.check(num.is_some() && (last.is_none() || num == last.map(|x| x + 1)), "notify-cseq", || format!("{last:?} {}", w()));
        last = num;
        rec.check(one(h, "Contact") == Some(format!("<{cu}>")), "notify-contact", w);
        let plain = ev.split(';').next().unwrap_or_default();
        rec.check(one(h, "Event").is_some_and(|e| e == ev || e == plain), "notify-event", w);
        let st = one(h, "Subscription-State").unwrap_or_default();
        rec.check(st.split(';').next().unwrap_or_default().trim() == if code < 200 { "active" } else { "terminated" }, "notify-state", w);
        rec.check(n.body().as_ref() == format!("SIP/2.0 {code} {why}\r\n").as_bytes(), "notify-body", w);
        rec.check(one(h, "Content-Type").unwrap_or_default().starts_with("message/sipfrag") && one(h, "Max-Forwards").as_deref() == Some("70"), "notify-rest", w);
        let v = one(h, "Via").unwrap_or_default();
        let br = v.rsplit(";branch=").next().unwrap_or_default().to_string();
        let c = u(&cu);
        let tr = c.params().get("transport").and_then(|v| v.as_ref()).map_or("UDP".to_string(), |v| v.to_ascii_uppercase());
        let port = c.port().map_or(String::new(), |p| format!(":{p}"));
        rec.check(v == format!("SIP/2.0/{tr} {}{port};branch={br}", c.host()) && br.starts_with("z9hG4bK") && br.len() > 12, "notify-via", || format!("contact {cu}: {}", w()));
        rec.check(!branches.contains(&br), "notify-branch", w);
        branches.push(br);
    }
    for bad in ["a\r\nX: y", "a\nb", "a\0"] {
        rec.check(s.create_notify_sipfrag(&mut sub, 200, bad).is_err(), "notify-injection", || format!("{bad:?}"));
    }
}

/// Hostile requests: whatever parses is answered without a panic, and the answer is a message.
fn hostile(r: &mut Rng, rec: &mut Rec) {
    let m = *r.pick(&["INVITE", "BYE", "SUBSCRIBE", "REFER", "PRACK", "OPTIONS", "CANCEL"]);
    let mut q = Req::new(r, m);
    q.extra.push(("Contact".into(), "<sip:a@192.0.2.9>".into()));
    q.extra.push(("Event".into(), "refer".into()));
    q.extra.push(("RAck".into(), "1 1 INVITE".into()));
    q.extra.push(("Session-Expires".into(), r.pick(&["1800", "0", "99999999999999", "x", "4294967295;refresher=uas"]).to_string()));
    let how = r.below(4);
    if how == 0 {
        let n = 150 + r.below(48);
        let k = r.below(n);
        q.vias = (0..k).map(|i| format!("SIP/2.0/UDP h{i};branch=z9hG4bK{i}")).collect();
        q.rrs = (k..n).map(|i| format!("<sip:p{i};lr>")).collect();
    } else if how == 1 {
        let room = 8192 - r.below(24);
        q.to = format!("<sip:{}@x>", "b".repeat(room - 8));
        if r.coin() {
            q.to = format!("\"{}\" <sip:b@x>", "b".repeat(room - 12));
        }
        q.to_tag = None;
    }
    let mut w = q.text(r).into_bytes();
    if how > 1 {
        let e = 1 + r.below(8);
        r.mutate(&mut w, e);
    }
    let Some(req) = sip_parse::parse_request(&Bytes::from(w.clone())) else {
        rec.eval(Some(&("unparsed", m)));
        return;
    };
    rec.eval(Some(&("parsed", m, how)));
    let (s, _, _) = uas(r);
    let d = early(&q, "lt");
    let text = String::from_utf8_lossy(&w).to_string();
    let mut out: Vec<Response> = vec![];
    let b = if r.coin() { Some("v=0\r\n") } else { None };
    let ok = rec.guard("panic", &|| text.clone(), || {
        let mut out = vec![UserAgentServer::create_response(&req, 200, "OK"), UserAgentServer::create_trying(&req), UserAgentServer::accept_options(&req), UserAgentServer::create_request_terminated_from_cancel(&req)];
        out.push(UserAgentServer::create_session_interval_too_small(&req, 90));
        out.extend(s.create_ok(&req, b).ok());
        out.extend(s.accept_publish(&req, Some("x")).ok());
        out.extend(s.accept_invite(&req, b).ok().map(|x| x.0));
        match s.accept_invite_with_session_timer(&req, b, &SessionTimerPolicy::default()) {
            Ok(AcceptInviteOutcome::Accepted { response, .. }) | Ok(AcceptInviteOutcome::SessionIntervalTooSmall { response, .. }) => out.push(response),
            Err(_) => {}
        }
        out.extend(s.accept_refer(&req, &d).ok().map(|x| x.0));
        out.extend(s.create_reliable_provisional(&req, &d, 183, "Progress", b).ok());
        out.extend(s.handle_prack(&req, &d).ok());
        out.extend(s.handle_info(&req, &d).ok());
        out.extend(s.handle_cancel(&req).ok());
        out.extend(UserAgentServer::validate_session_timer(&req, None).err());
        out.extend(UserAgentServer::validate_invite_headers(&req).err());
        if let Ok((res, mut sub)) = s.accept_subscribe(&req, None) {
            out.push(res);
            let _ = s.create_notify_sipfrag(&mut sub, 200, "OK");
        }
        out.extend(s.handle_bye(&req, &d).ok());
        out
    });
    if let Some(v) = ok {
        out = v;
    }
    for res in &out {
        // An unmutated request reads back whole, with the sender's Via on top.
        if how < 2 {
            let back = sip_parse::parse_response(&sip_parse::serialize_response(res));
            rec.check(back.is_some(), "hostile-wire", || show(res));
            let (a, b) = (all(res.headers(), "Via"), all(req.headers(), "Via"));
            rec.check(a.first() == b.first(), "hostile-via", || show(res));
            rec.check(all(res.headers(), "CSeq").len() == 1 && all(res.headers(), "Call-ID").len() == 1, "hostile-headers", || show(res));
        }
    }
}

fn main() {
    let mut ctx = Ctx::new("U01", "responses fit their requests, and only the dialog's own requests are taken");
    ctx.run("plain", ctx.n(90_000, 2_000_000), plain);
    ctx.run("dialogs", ctx.n(36_000, 800_000), dialogs);
    ctx.run("timers", ctx.n(60_000, 1_500_000), timers);
    ctx.run("reliable", ctx.n(30_000, 600_000), reliable);
    ctx.run("subscriptions", ctx.n(45_000, 1_000_000), subscriptions);
    ctx.run("hostile", ctx.n(45_000, 1_000_000), hostile);
    ctx.finish();
}
