//! U02: what a user agent client asks: every request it builds is complete and means what was
//! asked for, requests inside a dialog fit it, registrations form one series, the service
//! route is followed, and a challenge is answered so that a server accepts the repeat.
use bytes::Bytes;
use h_auth::{params, D};
use h_dialog::{call_id, contact, party, record_routes, tag, u, uri};
use sip_core::{Headers, Request, Response, SipUri};
use sip_dialog::{Dialog, Subscription, SubscriptionState};
use sip_uac::UserAgentClient;
use std::collections::HashSet;
use std::sync::Mutex;
use vmon::{Ctx, Rec, Rng};

static SEEN: Mutex<Option<HashSet<String>>> = Mutex::new(None);
/// Branches, fresh tags and fresh Call-IDs of one client never repeat.
fn fresh(kind: &str, v: &str) -> bool {
    SEEN.lock().unwrap().get_or_insert_with(HashSet::new).insert(format!("{kind} {v}"))
}

fn text(q: &Request) -> String {
    String::from_utf8_lossy(&sip_parse::serialize_request(q)).to_string()
}
fn all(h: &Headers, n: &str) -> Vec<String> {
    h.get_all(n).map(|s| s.to_string()).collect()
}
fn one(h: &Headers, n: &str) -> String {
    let v = all(h, n);
    if v.len() == 1 {
        v[0].clone()
    } else {
        format!("<{} of {n}>", v.len())
    }
}

/// display name, URI, parameters
fn read_party(v: &str) -> Option<(Option<String>, String, Vec<(String, String)>)> {
    let mut rest = v.trim();
    let mut disp = None;
    if let Some(q) = rest.strip_prefix('"') {
        let mut out = String::new();
        let mut it = q.char_indices();
        let mut end = None;
        while let Some((i, c)) = it.next() {
            match c {
                '\\' => out.push(it.next()?.1),
                '"' => {
                    end = Some(i);
                    break;
                }
                c => out.push(c),
            }
        }
        rest = q[end? + 1..].trim();
        disp = Some(out);
    } else if let Some(k) = rest.find('<') {
        if k > 0 {
            disp = Some(rest[..k].trim().to_string());
            rest = &rest[k..];
        }
    }
    let (uri, ps) = if let Some(x) = rest.strip_prefix('<') {
        let k = x.find('>')?;
        (x[..k].to_string(), x[k + 1..].trim())
    } else {
        let k = rest.find(';').unwrap_or(rest.len());
        (rest[..k].trim().to_string(), rest[k..].trim())
    };
    let mut out = vec![];
    let (mut quoted, mut esc) = (false, false);
    let parts = ps.split(|c| {
        match c {
            _ if esc => esc = false,
            '\\' if quoted => esc = true,
            '"' => quoted = !quoted,
            _ => {}
        }
        c == ';' && !quoted
    });
    for p in parts.skip(1) {
        let (n, v) = p.split_once('=').unwrap_or((p, ""));
        out.push((n.trim().to_ascii_lowercase(), v.trim().to_string()));
    }
    if !ps.is_empty() && !ps.starts_with(';') {
        return None;
    }
    Some((disp, uri, out))
}
fn tag_of(v: &str) -> Option<String> {
    let (_, _, ps) = read_party(v)?;
    let t: Vec<_> = ps.iter().filter(|p| p.0 == "tag").collect();
    (t.len() == 1 && !t[0].1.is_empty()).then(|| t[0].1.clone())
}

struct Me {
    uac: UserAgentClient,
    local: String,
    contact: String,
    display: Option<String>,
    agent: String,
    creds: Option<(String, String)>,
}
fn some_display(r: &mut Rng) -> String {
    match r.below(6) {
        0 => "Alice \"x\" <sip:evil@evil.example>;tag=no".into(),
        1 => "back\\slash\\".into(),
        2 => "caf\u{e9}, \u{4e2d}".into(),
        3 => "a".repeat(1 + r.below(100)),
        _ => r.string("abc \"\\<>;,=@:%", 1, 20),
    }
}
fn me(r: &mut Rng) -> Me {
    let (local, contact) = (uri(r), uri(r));
    let mut uac = UserAgentClient::new(u(&local), u(&contact));
    let mut agent = uac.user_agent().to_string();
    if r.coin() {
        agent = r.string("abcXYZ/1.0 ()-", 1, 30).trim().to_string() + "x";
        uac = uac.with_user_agent(&agent).expect("harness agent");
    }
    let mut display = None;
    if r.coin() {
        let d = some_display(r);
        uac.set_display_name(&d).expect("harness display");
        display = Some(d);
    }
    let mut creds = None;
    if r.chance(3, 4) {
        let c = (r.string("abcxyz019.-_", 1, 12), r.string("abc:\";\\=,\u{e9} 09", 0, 16));
        uac = uac.with_credentials(&c.0, &c.1);
        creds = Some(c);
    }
    Me { uac, local, contact, display, agent, creds }
}

/// What is wanted of one request.
struct Want<'a> {
    method: &'a str,
    uri: String,
    from_uri: Option<String>,
    from_tag: Option<String>,
    to_uri: String,
    to_tag: Option<String>,
    call_id: Option<String>,
    cseq: Option<u32>,
    contact: bool,
    body: Option<(String, String)>,
    extra: Vec<(&'a str, String)>,
}
fn same_uri(a: &str, b: &str) -> bool {
    a == b || (SipUri::parse(a).is_ok() && SipUri::parse(a).ok().map(|x| x.as_str().to_string()) == SipUri::parse(b).ok().map(|x| x.as_str().to_string()))
}

fn complete(rec: &mut Rec, me: &Me, q: &Request, w: &Want) {
    let t = text(q);
    let d = || format!("{} {}: {}", w.method, w.uri, t.chars().take(1800).collect::<String>());
    let h = q.headers();
    let back = sip_parse::parse_request(&Bytes::from(t.clone()));
    rec.check(back.as_ref().is_some_and(|b| text(b) == t && b.body() == q.body() && b.method() == q.method() && b.uri().as_str() == q.uri().as_str()), "read-back", d);
    rec.check(q.method().as_str() == w.method, "method", d);
    rec.check(same_uri(q.uri().as_str(), &w.uri), "request-uri", || format!("wanted {}; {}", w.uri, d()));
    let via = one(h, "Via");
    let br = via.split(';').find_map(|p| p.trim().strip_prefix("branch=").map(str::to_string)).unwrap_or_default();
    rec.check(br.starts_with("z9hG4bK") && br.len() >= 7 + 8 && fresh("branch", &br), "branch", d);
    rec.check(via.starts_with("SIP/2.0/"), "via", d);
    let f = one(h, "From");
    if let Some((fd, fu, _)) = read_party(&f) {
        if let Some(x) = &w.from_uri {
            rec.check(same_uri(&fu, x), "from-uri", || format!("wanted {x}; {}", d()));
        }
        rec.check(fd.is_none() || fd == me.display, "from-display", d);
    } else {
        rec.violate("from-unreadable", d());
    }
    let ft = tag_of(&f);
    match &w.from_tag {
        Some(x) => rec.check(ft.as_ref() == Some(x), "from-tag", d),
        None => rec.check(ft.as_ref().is_some_and(|x| x.len() >= 4 && fresh("tag", x)), "from-tag-fresh", d),
    };
    let to = one(h, "To");
    if let Some((_, tu, _)) = read_party(&to) {
        rec.check(same_uri(&tu, &w.to_uri), "to-uri", || format!("wanted {}; {}", w.to_uri, d()));
    } else {
        rec.violate("to-unreadable", d());
    }
    rec.check(tag_of(&to) == w.to_tag, "to-tag", d);
    let cid = one(h, "Call-ID");
    match &w.call_id {
        Some(x) => rec.check(&cid == x, "call-id", d),
        None => rec.check(cid.len() >= 8 && !cid.starts_with('<') && fresh("call-id", &cid), "call-id-fresh", d),
    };
    let cs = one(h, "CSeq");
    let (num, m) = cs.split_once(' ').unwrap_or(("", ""));
    rec.check(m == w.method && num.parse::<u32>().is_ok_and(|n| n >= 1 && n < 1 << 31), "cseq-form", d);
    if let Some(x) = w.cseq {
        rec.check(num == x.to_string(), "cseq-number", || format!("wanted {x}; {}", d()));
    }
    rec.check(one(h, "Max-Forwards") == "70", "max-forwards", d);
    rec.check(one(h, "User-Agent") == me.agent, "user-agent", d);
    rec.check(one(h, "Content-Length") == q.body().len().to_string(), "content-length", d);
    if w.contact {
        rec.check(read_party(&one(h, "Contact")).is_some_and(|x| same_uri(&x.1, &me.contact)), "contact", d);
    }
    match &w.body {
        Some((ty, b)) => {
            rec.check(q.body().as_ref() == b.as_bytes(), "body", d);
            rec.check(&one(h, "Content-Type") == ty, "content-type", d);
        }
        None => {
            rec.check(q.body().is_empty() && h.get("Content-Type").is_none(), "no-body", d);
        }
    }
    for (n, v) in &w.extra {
        rec.check(&one(h, n) == v, &format!("header-{}", n.to_ascii_lowercase()), || format!("wanted {n}: {v}; {}", d()));
    }
}

fn some_body(r: &mut Rng) -> String {
    match r.below(5) {
        0 => "v=0\r\no=- 1 1 IN IP4 192.0.2.1\r\ns=-\r\nt=0 0\r\n".into(),
        1 => "\r\n\r\nBYE sip:x SIP/2.0\r\n\r\n".into(),
        2 => "\u{e9}\u{4e2d}\u{1f600}".repeat(1 + r.below(5)),
        3 => String::new(),
        _ => r.alnum(1, 200),
    }
}

/// A target the client calls out of the blue.
fn outside<'a>(method: &'a str, me: &Me, target: &str) -> Want<'a> {
    Want { method, uri: target.into(), from_uri: Some(me.local.clone()), from_tag: None, to_uri: target.into(), to_tag: None, call_id: None, cseq: None, contact: false, body: None, extra: vec![] }
}
fn inside<'a>(method: &'a str, dg: &Dialog, local: &str, remote: &str, target: &str, tags: (&str, &str), cid: &str, n: u32) -> Want<'a> {
    let _ = dg;
    Want {
        method,
        uri: target.into(),
        from_uri: Some(local.into()),
        from_tag: Some(tags.0.into()),
        to_uri: remote.into(),
        to_tag: Some(tags.1.into()),
        call_id: Some(cid.into()),
        cseq: Some(n),
        contact: false,
        body: None,
        extra: vec![],
    }
}

fn answer(code: u16, reason: &str, q: &Request, to: &str, extra: &[(String, String)]) -> Response {
    let mut s = format!("SIP/2.0 {code} {reason}\r\n");
    for n in ["Via", "From", "Call-ID", "CSeq"] {
        s.push_str(&format!("{n}: {}\r\n", one(q.headers(), n)));
    }
    s.push_str(&format!("To: {to}\r\n"));
    for (n, v) in extra {
        s.push_str(&format!("{n}: {v}\r\n"));
    }
    s.push_str("Content-Length: 0\r\n\r\n");
    sip_parse::parse_response(&Bytes::from(s.clone())).unwrap_or_else(|| panic!("harness response refused: {s}"))
}

/// Requests that need no dialog.
fn alone(r: &mut Rng, rec: &mut Rec) {
    let me = me(r);
    let t = uri(r);
    let tu = u(&t);
    let b = some_body(r);
    let ty = r.pick(&["text/plain", "application/sdp", "application/pidf+xml", "multipart/mixed;boundary=\"a b\""]).to_string();
    let ev = r.pick(&["presence", "message-summary", "dialog", "reg", "refer", "conference"]).to_string();
    let n = r.ur(0, 100_000) as u32;
    let k = r.below(11);
    rec.sample(|| format!("alone {k} {t}"));
    match k {
        0 => {
            let q = me.uac.create_options(&tu);
            complete(rec, &me, &q, &outside("OPTIONS", &me, &t));
        }
        1 => {
            let sdp = r.coin();
            let q = me.uac.create_invite(&tu, sdp.then_some(b.as_str()));
            let mut w = outside("INVITE", &me, &t);
            w.contact = true;
            w.body = sdp.then(|| ("application/sdp".into(), b.clone()));
            complete(rec, &me, &q, &w);
        }
        2 => {
            let o = uri(r);
            let ou = u(&o);
            let sdp = r.coin();
            let q = me.uac.create_invite_with_from(&tu, sdp.then_some(b.as_str()), Some(&ou));
            let mut w = outside("INVITE", &me, &t);
            w.from_uri = Some(o);
            w.contact = true;
            w.body = sdp.then(|| ("application/sdp".into(), b.clone()));
            complete(rec, &me, &q, &w);
        }
        3 => match me.uac.create_invite_with_body(&tu, &b, &ty) {
            Ok(q) => {
                let mut w = outside("INVITE", &me, &t);
                w.contact = true;
                w.body = Some((ty, b));
                complete(rec, &me, &q, &w);
            }
            Err(e) => rec.violate("refused", format!("invite with body: {e}")),
        },
        4 => match me.uac.create_publish(&tu, &ev, &ty, &b) {
            Ok(q) => {
                let mut w = outside("PUBLISH", &me, &t);
                w.body = Some((ty, b));
                w.extra = vec![("Event", ev)];
                complete(rec, &me, &q, &w);
            }
            Err(e) => rec.violate("refused", format!("publish: {e}")),
        },
        5 => {
            let q = me.uac.create_subscribe(&tu, &ev, n);
            let mut w = outside("SUBSCRIBE", &me, &t);
            w.contact = true;
            w.extra = vec![("Event", ev), ("Expires", n.to_string())];
            complete(rec, &me, &q, &w);
        }
        6 => {
            let q = me.uac.create_reg_subscribe(&tu, n);
            let mut w = outside("SUBSCRIBE", &me, &t);
            w.contact = true;
            w.extra = vec![("Event", "reg".into()), ("Expires", n.to_string())];
            complete(rec, &me, &q, &w);
            rec.check(q.headers().get_all("Accept").any(|a| a.contains("application/reginfo+xml")), "reg-accept", || text(&q));
        }
        7 => {
            let q = me.uac.create_message(&tu, &ty, &b);
            let mut w = outside("MESSAGE", &me, &t);
            w.body = Some((ty, b));
            complete(rec, &me, &q, &w);
        }
        8 => {
            let mut ex = Headers::new();
            ex.push("X-A", "1").unwrap();
            ex.push("Subject", "s, \"q\"").unwrap();
            let q = me.uac.create_message_with_headers(&tu, &ty, &b, ex);
            let mut w = outside("MESSAGE", &me, &t);
            w.body = Some((ty, b));
            w.extra = vec![("X-A", "1".into()), ("Subject", "s, \"q\"".into())];
            complete(rec, &me, &q, &w);
        }
        9 => {
            let q = me.uac.create_unsolicited_notify(&tu, &ev, &ty, &b);
            let mut w = outside("NOTIFY", &me, &t);
            w.body = Some((ty, b));
            w.extra = vec![("Event", ev)];
            complete(rec, &me, &q, &w);
        }
        _ => {
            let st = r.pick(&["active;expires=60", "terminated;reason=noresource", "pending"]).to_string();
            let q = me.uac.create_unsolicited_notify_with_state(&tu, &ev, &ty, &b, &st);
            let mut w = outside("NOTIFY", &me, &t);
            w.body = Some((ty, b));
            w.extra = vec![("Event", ev), ("Subscription-State", st)];
            complete(rec, &me, &q, &w);
        }
    }
    rec.eval(Some(&format!("alone-{k}")));
}

/// The value of the `Replaces` header inside a Refer-To URI, unescaped once.
fn replaces_of(refer_to: &str) -> Option<(String, String)> {
    let (_, u, _) = read_party(refer_to)?;
    let (base, hs) = u.split_once('?')?;
    let mut found = None;
    let mut others = vec![];
    for p in hs.split('&') {
        match p.split_once('=') {
            Some((n, v)) if n.eq_ignore_ascii_case("replaces") => {
                if found.is_some() || !v.bytes().all(|b| b.is_ascii_alphanumeric() || b"-_.!~*'()[]/?:+$%".contains(&b)) {
                    return None;
                }
                let mut out = vec![];
                let bs = v.as_bytes();
                let mut i = 0;
                while i < bs.len() {
                    if bs[i] == b'%' {
                        out.push(u8::from_str_radix(std::str::from_utf8(bs.get(i + 1..i + 3)?).ok()?, 16).ok()?);
                        i += 3;
                    } else {
                        out.push(bs[i]);
                        i += 1;
                    }
                }
                found = Some(String::from_utf8(out).ok()?);
            }
            _ => others.push(p.to_string()),
        }
    }
    let base = if others.is_empty() { base.to_string() } else { format!("{base}?{}", others.join("&")) };
    Some((base, found?))
}

struct Call {
    invite: Request,
    ok: Response,
    dg: Dialog,
    local: String,
    remote: String,
    target: String,
    ltag: String,
    rtag: String,
    cid: String,
    cseq: u32,
}
/// An INVITE answered by the other side, and the dialog made of it.
fn call(r: &mut Rng, rec: &mut Rec, me: &Me) -> Option<Call> {
    let t = uri(r);
    let over = r.chance(1, 3).then(|| uri(r));
    let mut invite = me.uac.create_invite_with_from(&u(&t), Some("v=0\r\n"), over.as_ref().map(|x| u(x)).as_ref());
    let cseq = if r.coin() { 1 } else { r.ur(1, (1 << 31) - 50) as u32 };
    invite.headers_mut().set_or_push("CSeq", &format!("{cseq} INVITE")).unwrap();
    let local = over.unwrap_or_else(|| me.local.clone());
    let ltag = tag_of(&one(invite.headers(), "From"))?;
    let cid = one(invite.headers(), "Call-ID");
    let (remote, target, rtag) = (uri(r), uri(r), tag(r));
    let mut extra = vec![("Contact".to_string(), contact(r, &target))];
    let k = r.below(4);
    let us: Vec<String> = (0..k).map(|_| uri(r)).collect();
    extra.extend(record_routes(r, &us));
    let reliable = r.chance(1, 3);
    if reliable {
        extra.push(("RSeq".into(), r.pick(&["1", "7", "4294967295"]).to_string()));
        extra.push(("Require".into(), "100rel".into()));
    }
    let to = party(r, &remote, Some(&rtag));
    let early = reliable || r.chance(1, 4);
    let (code, reason) = if early { (*r.pick(&[180u16, 183]), "Ringing") } else { (200, "OK") };
    let ok = answer(code, reason, &invite, &to, &extra);
    let Some(dg) = me.uac.process_invite_response(&invite, &ok) else {
        rec.violate("no-dialog", format!("{}\n{}", text(&invite), String::from_utf8_lossy(&sip_parse::serialize_response(&ok))));
        return None;
    };
    let d = || format!("dialog {dg:?} of {} / {}", text(&invite), String::from_utf8_lossy(&sip_parse::serialize_response(&ok)));
    rec.check(dg.id().call_id() == cid && dg.id().local_tag() == ltag && dg.id().remote_tag() == rtag, "dialog-id", d);
    rec.check(same_uri(dg.local_uri().as_str(), &local) && same_uri(dg.remote_uri().as_str(), &remote), "dialog-parties", d);
    rec.check(same_uri(dg.remote_target().as_str(), &target) && dg.local_cseq() == cseq, "dialog-target", d);
    let rev: Vec<&String> = us.iter().rev().collect();
    rec.check(dg.route_set().len() == rev.len() && dg.route_set().iter().zip(&rev).all(|(a, b)| same_uri(a.as_str(), b)), "dialog-routes", d);
    rec.check(me.uac.dialog_manager.get(dg.id()).is_some(), "dialog-stored", d);
    Some(Call { invite, ok, dg, local, remote, target, ltag, rtag, cid, cseq })
}

fn in_dialog(r: &mut Rng, rec: &mut Rec) {
    let me = me(r);
    let Some(mut c) = call(r, rec, &me) else { return };
    let b = some_body(r);
    let ty = r.pick(&["text/plain", "application/dtmf-relay", "application/json"]).to_string();
    for _ in 0..r.range(1, 6) {
        let mut next = c.cseq + 1;
        macro_rules! w {
            ($m:expr) => {
                inside($m, &c.dg, &c.local, &c.remote, &c.target, (&c.ltag, &c.rtag), &c.cid, next)
            };
        }
        let sdp = r.coin();
        let body = sdp.then_some(b.as_str());
        let sbody = sdp.then(|| ("application/sdp".to_string(), b.clone()));
        let k = r.below(11);
        match k {
            0 => complete(rec, &me, &me.uac.create_bye(&c.dg), &w!("BYE")),
            1 => {
                let mut w = w!("INVITE");
                (w.contact, w.body) = (true, sbody);
                complete(rec, &me, &me.uac.create_reinvite(&c.dg, body), &w)
            }
            2 => {
                let mut w = w!("UPDATE");
                (w.contact, w.body) = (true, sbody);
                complete(rec, &me, &me.uac.create_update(&c.dg, body), &w)
            }
            3 => {
                let up = r.coin();
                let se = r.ur(90, 86_400) as u32;
                let who = *r.pick(&["uac", "uas"]);
                let mut w = w!(if up { "UPDATE" } else { "INVITE" });
                (w.contact, w.body) = (true, sbody);
                let q = me.uac.create_session_refresh(&c.dg, se, who, up, body);
                let x = one(q.headers(), "Session-Expires");
                rec.check(x.split(';').map(str::trim).eq([se.to_string().as_str(), format!("refresher={who}").as_str()]), "session-expires", || text(&q));
                rec.check(q.headers().get_all("Supported").any(|s| s.split(',').any(|t| t.trim() == "timer")), "supported-timer", || text(&q));
                complete(rec, &me, &q, &w)
            }
            4 => match me.uac.create_info(&c.dg, &ty, &b) {
                Ok(q) => {
                    let mut w = w!("INFO");
                    w.body = Some((ty.clone(), b.clone()));
                    complete(rec, &me, &q, &w)
                }
                Err(e) => rec.violate("refused", format!("info: {e}")),
            },
            5 => {
                let to = uri(r);
                let mut w = w!("REFER");
                w.contact = true;
                let q = me.uac.create_refer(&c.dg, &u(&to));
                rec.check(read_party(&one(q.headers(), "Refer-To")).is_some_and(|x| same_uri(&x.1, &to)), "refer-to", || text(&q));
                complete(rec, &me, &q, &w)
            }
            6 => {
                let to = uri(r);
                let Some(o) = call(r, rec, &me) else { return };
                let mut w = w!("REFER");
                w.contact = true;
                let q = me.uac.create_refer_with_replaces(&c.dg, &u(&to), &o.dg);
                let got = replaces_of(&one(q.headers(), "Refer-To"));
                let want = format!("{};to-tag={};from-tag={}", o.cid, o.rtag, o.ltag);
                rec.check(got.as_ref().is_some_and(|g| same_uri(&g.0, &to) && (g.1 == want || g.1 == format!("{};from-tag={};to-tag={}", o.cid, o.ltag, o.rtag))), "replaces", || format!("wanted {to} and {want}, got {got:?}: {}", text(&q)));
                complete(rec, &me, &q, &w)
            }
            7 | 8 => {
                let rs = all(c.ok.headers(), "RSeq");
                let q = if k == 7 { me.uac.create_prack(&c.invite, &c.ok, &c.dg) } else { me.uac.create_prack_from_provisional(&c.ok, &c.dg) };
                match (rs.first(), q) {
                    (Some(n), Ok(q)) => {
                        let inv = one(c.invite.headers(), "CSeq");
                        let mut w = w!("PRACK");
                        w.extra = vec![("RAck", format!("{n} {inv}"))];
                        complete(rec, &me, &q, &w)
                    }
                    (None, Err(_)) => {}
                    (a, b) => rec.violate("prack", format!("RSeq {a:?}: {b:?}")),
                }
            }
            9 => {
                // The ACK of a 2xx belongs to its INVITE.
                next = all(c.invite.headers(), "CSeq")[0].split(' ').next().unwrap().parse().unwrap();
                let q = me.uac.create_ack(&c.invite, &c.ok, body);
                let mut w = w!("ACK");
                w.body = sbody;
                // Where it is sent is settled by the layer above.
                w.uri = q.uri().as_str().to_string();
                complete(rec, &me, &q, &w);
                next = c.cseq;
            }
            _ => {
                let q = me.uac.create_bye_with_reason(&c.dg, sip_core::ReasonHeader::q850(sip_core::Q850Cause::NormalCallClearing).unwrap());
                rec.check(one(q.headers(), "Reason").starts_with("Q.850"), "reason", || text(&q));
                complete(rec, &me, &q, &w!("BYE"))
            }
        }
        rec.eval(Some(&format!("in-{k}")));
        // The caller numbers its dialog as it sends.
        if next == c.cseq + 1 && r.chance(2, 3) {
            c.dg.next_local_cseq();
            c.cseq += 1;
        }
    }
}

/// Subscriptions, as subscriber and as notifier.
fn subs(r: &mut Rng, rec: &mut Rec) {
    let me = me(r);
    let t = uri(r);
    let ev = r.pick(&["presence", "dialog", "message-summary"]).to_string();
    let q = me.uac.create_subscribe(&u(&t), &ev, 300);
    let ltag = tag_of(&one(q.headers(), "From")).unwrap_or_default();
    let cid = one(q.headers(), "Call-ID");
    let (remote, target, rtag) = (uri(r), uri(r), tag(r));
    let to = party(r, &remote, Some(&rtag));
    let exp = r.ur(1, 9000);
    let ok = answer(200, "OK", &q, &to, &[("Contact".into(), contact(r, &target)), ("Expires".into(), exp.to_string())]);
    match me.uac.process_subscribe_response(&q, &ok) {
        Some(s) => {
            let d = || format!("{s:?} of {} / {to}", text(&q));
            rec.check(s.id().call_id() == cid && s.id().event() == ev && s.id().from_tag() == ltag && s.id().to_tag() == rtag, "subscription-id", d);
            rec.check(same_uri(s.contact().as_str(), &target) && same_uri(s.local_uri().as_str(), &me.local) && same_uri(s.remote_uri().as_str(), &remote), "subscription-parties", d);
            rec.check(s.expires().as_secs() == exp, "subscription-expires", d);
        }
        None => rec.violate("no-subscription", text(&q)),
    }
    // A notifier's side of another one.
    let (su, sc, st, nt) = (uri(r), uri(r), tag(r), tag(r));
    let cid = call_id(r);
    let n = r.ur(1, (1 << 31) - 10) as u32;
    let from = party(r, &su, Some(&st));
    let txt = format!(
        "SUBSCRIBE {} SIP/2.0\r\nVia: SIP/2.0/UDP h.example;branch=z9hG4bKx\r\nFrom: {from}\r\nTo: <{}>\r\nCall-ID: {cid}\r\nCSeq: {n} SUBSCRIBE\r\nMax-Forwards: 70\r\nEvent: {ev}\r\nExpires: 60\r\nContact: {}\r\nContent-Length: 0\r\n\r\n",
        me.local, me.local, contact(r, &sc)
    );
    let Some(sq) = sip_parse::parse_request(&Bytes::from(txt.clone())) else { panic!("harness SUBSCRIBE refused {txt}") };
    let ok = answer(200, "OK", &sq, &format!("<{}>;tag={nt}", me.local), &[("Contact".into(), format!("<{}>", me.contact)), ("Expires".into(), "60".into())]);
    let Some(s) = Subscription::new_notifier(&sq, &ok, u(&me.local), u(&su)) else {
        rec.violate("no-notifier-subscription", txt);
        return;
    };
    let (state, word) = *r.pick(&[(SubscriptionState::Active, "active"), (SubscriptionState::Pending, "pending"), (SubscriptionState::Terminated, "terminated")]);
    let b = some_body(r);
    let withb = r.coin();
    let q = me.uac.create_notify(&s, state, withb.then_some(b.as_str()));
    let w = Want {
        method: "NOTIFY",
        uri: sc,
        from_uri: None,
        from_tag: Some(nt),
        to_uri: su,
        to_tag: Some(st),
        call_id: Some(cid),
        cseq: None,
        contact: true,
        body: withb.then(|| ("text/plain".into(), b.clone())),
        extra: vec![("Event", ev)],
    };
    complete(rec, &me, &q, &w);
    rec.check(one(q.headers(), "Subscription-State").split(';').next() == Some(word), "subscription-state", || text(&q));
    rec.eval(Some(&format!("sub-{word}")));
}

/// One challenge header and what an answer needs of it.
#[derive(Clone)]
struct Ch {
    value: String,
    realm: String,
    nonce: String,
    opaque: Option<String>,
    alg: &'static str,
    named: bool,
    qops: Vec<&'static str>,
}
fn challenge(r: &mut Rng) -> Ch {
    let realm = r.pick(&["example.com", "A Realm, Ltd.", "r=1", "Digest realm", "nonce=\u{e9}", "a  b", "", "EXAMPLE.com", "a realm, ltd."]).to_string();
    let nonce = format!("{}{}", r.alnum(1, 30), r.pick(&["", "==", "+/", ",x=1", " y", "'"]));
    let opaque = r.coin().then(|| format!("{}{}", r.alnum(0, 10), r.pick(&["", ", realm=no", "="])));
    let (alg, named) = *r.pick(&[("MD5", false), ("MD5", true), ("SHA-256", true), ("SHA-512-256", true), ("SHA-512", true), ("MD5-sess", true), ("SHA-256-sess", true)]);
    let qops: Vec<&'static str> = match r.below(6) {
        0 if !alg.ends_with("-sess") => vec![],
        1 => vec!["auth-int"],
        2 => vec!["auth", "auth-int"],
        3 => vec!["auth-int", "auth"],
        4 => vec!["auth", "x-auth-int-not"],
        _ => vec!["auth"],
    };
    let mut ps = vec![("realm", format!("\"{realm}\"")), ("nonce", format!("\"{nonce}\""))];
    if let Some(o) = &opaque {
        ps.push(("opaque", format!("\"{o}\"")));
    }
    if named {
        let a = match r.below(4) {
            0 => alg.to_ascii_lowercase(),
            1 => format!("\"{alg}\""),
            _ => alg.to_string(),
        };
        ps.push(("algorithm", a));
    }
    if !qops.is_empty() {
        let l = qops.join(*r.pick(&[",", ", ", " , "]));
        let l = match r.below(6) {
            0 => l.to_ascii_uppercase(),
            1 => l.replace("auth", "Auth"),
            _ => l,
        };
        let bare = qops.len() == 1 && r.chance(1, 4);
        ps.push(("qop", if bare { l } else { format!("\"{l}\"") }));
    }
    for x in [("stale", "FALSE"), ("domain", "\"sip:a,sip:b\""), ("x-realm", "\"fake\""), ("charset", "UTF-8"), ("xnonce", "z")] {
        if r.chance(1, 6) {
            ps.push((x.0, x.1.to_string()));
        }
    }
    r.shuffle(&mut ps);
    let style = r.below(4);
    let l: Vec<String> = ps
        .iter()
        .map(|(n, v)| {
            let n = match style {
                0 => n.to_ascii_uppercase(),
                1 => n[..1].to_ascii_uppercase() + &n[1..],
                _ => n.to_string(),
            };
            let eq = if r.chance(1, 10) { " = " } else { "=" };
            format!("{n}{eq}{v}")
        })
        .collect();
    let scheme = *r.pick(&["Digest", "Digest", "digest", "DIGEST"]);
    let value = format!("{scheme}{}{}", r.pick(&[" ", " ", "  "]), l.join(*r.pick(&[", ", ",", " , ", ",, "])));
    Ch { value, realm, nonce, opaque, alg, named, qops }
}

fn auth(r: &mut Rng, rec: &mut Rec) {
    let mut me = me(r);
    let t = uri(r);
    let tu = u(&t);
    let b = some_body(r);
    let k = r.below(6);
    let mut q = match k {
        0 => me.uac.create_register(&tu, 300),
        1 => me.uac.create_invite(&tu, Some(&b)),
        2 => me.uac.create_message(&tu, "text/plain", &b),
        3 => me.uac.create_subscribe(&tu, "presence", 60),
        4 => me.uac.create_options(&tu),
        _ => {
            let Some(c) = call(r, rec, &me) else { return };
            me.uac.create_reinvite(&c.dg, Some(&b))
        }
    };
    if r.chance(1, 4) {
        q.headers_mut().push("Route", "<sip:p.example;lr>, <sip:q.example;lr>").unwrap();
    }
    if r.chance(1, 4) {
        q.headers_mut().push("X-Note", "Via: SIP/2.0/UDP x;branch=z9hG4bKno").unwrap();
    }
    // Header names as an application may have spelt them.
    if r.chance(1, 3) {
        let hs: Vec<(String, String)> = q.headers().iter().map(|h| (h.name().to_string(), h.value().to_string())).collect();
        let mut n = Headers::new();
        for (a, v) in hs {
            let a = match r.below(4) {
                0 => a.to_ascii_lowercase(),
                1 => a.to_ascii_uppercase(),
                _ => a,
            };
            n.push(&a, &v).unwrap();
        }
        *q.headers_mut() = n;
    }
    let mut before: Option<(bool, Ch)> = None;
    // Several challenges in a row: proxies, the server, stale nonces.
    let mut had: Vec<(bool, String)> = vec![];
    for round in 0..r.range(1, 4) {
        let mut proxy = r.coin();
        let mut ch = challenge(r);
        if let Some((p, c)) = before.clone().filter(|_| r.chance(1, 4)) {
            // asked again, with the nonce used before or a new one
            proxy = p;
            let nonce = ch.nonce;
            ch = c;
            if r.coin() {
                ch.value = ch.value.replacen(&format!("nonce=\"{}\"", ch.nonce), &format!("nonce=\"{nonce}\""), 1);
                if ch.value.contains(&format!("nonce=\"{nonce}\"")) {
                    ch.nonce = nonce;
                }
            }
        }
        before = Some((proxy, ch.clone()));
        let hn = if proxy { "Proxy-Authenticate" } else { "WWW-Authenticate" };
        let an = if proxy { "Proxy-Authorization" } else { "Authorization" };
        let mut extra = vec![];
        if r.chance(1, 5) {
            extra.push((hn.to_string(), r.pick(&["Basic realm=\"x\"", "Digest realm=\"n\", nonce=\"m\", algorithm=SHA-9000, qop=\"auth\"", "Bearer", "Negotiate abc==", "Basic realm=\"Digest realm=no, nonce=no\""]).to_string()));
        }
        extra.push((hn.to_string(), ch.value.clone()));
        if r.chance(1, 5) {
            extra.push((hn.to_string(), "Digest realm=\"second\", nonce=\"later\", qop=\"auth\"".into()));
        }
        if r.chance(1, 6) {
            let other = if proxy { "WWW-Authenticate" } else { "Proxy-Authenticate" };
            extra.insert(r.below(extra.len() + 1), (other.to_string(), "Digest realm=\"wrong header\", nonce=\"n\", qop=\"auth\"".into()));
        }
        let (code, reason) = if proxy { (407, "Proxy Authentication Required") } else { (401, "Unauthorized") };
        let tt = tag(r);
        let to = if q.headers().get("To").is_some_and(|x| tag_of(x).is_some()) { one(q.headers(), "To") } else { format!("{};tag={tt}", one(q.headers(), "To")) };
        let res = answer(code, reason, &q, &to, &extra);
        let over = r.chance(1, 3).then(|| ("other".to_string(), "pw:2".to_string()));
        let d0 = || format!("round {round} {code} {extra:?} to {}", text(&q).chars().take(900).collect::<String>());
        let got = rec.guard("answering a challenge", &d0, || me.uac.create_authenticated_request_with(&q, &res, over.clone()));
        let Some(got) = got else { return };
        let Some(cred) = over.clone().or_else(|| me.creds.clone()) else {
            rec.check(got.is_err(), "no-credentials", d0);
            return;
        };
        let a = match got {
            Ok(a) => a,
            Err(e) => {
                rec.violate("not-answered", format!("{e}: {}", d0()));
                return;
            }
        };
        let d = || format!("{}\nbecame {}", d0(), text(&a).chars().take(1500).collect::<String>());
        rec.check(sip_parse::parse_request(&Bytes::from(text(&a))).is_some_and(|b| text(&b) == text(&a)), "auth-read-back", d);
        rec.check(a.method() == q.method() && a.uri().as_str() == q.uri().as_str() && a.body() == q.body(), "auth-same-request", d);
        // Everything else stays as it was.
        let others = |x: &Request| -> Vec<(String, String)> {
            x.headers().iter().filter(|h| !["Via", "CSeq", "Authorization", "Proxy-Authorization"].iter().any(|n| n.eq_ignore_ascii_case(h.name()))).map(|h| (h.name().to_ascii_lowercase(), h.value().to_string())).collect()
        };
        rec.check(others(&a) == others(&q), "auth-headers-kept", d);
        let (o, n) = (one(q.headers(), "CSeq"), one(a.headers(), "CSeq"));
        let num = |s: &str| s.split(' ').next().and_then(|x| x.parse::<u32>().ok()).unwrap_or(0);
        rec.check(num(&n) == num(&o) + 1 && n.ends_with(&format!(" {}", q.method().as_str())), "auth-cseq", d);
        let br = |x: &Request| one(x.headers(), "Via").split(';').find_map(|p| p.trim().strip_prefix("branch=").map(str::to_string)).unwrap_or_default();
        rec.check(br(&a).starts_with("z9hG4bK") && fresh("branch", &br(&a)), "auth-branch", d);
        rec.check(one(a.headers(), "Via").replace(&br(&a), "") == one(q.headers(), "Via").replace(&br(&q), ""), "auth-via", d);
        // Credentials: exactly one for this realm, those of other realms kept.
        let mut creds: Vec<(bool, String, std::collections::BTreeMap<String, String>)> = vec![];
        for (pr, name) in [(true, "Proxy-Authorization"), (false, "Authorization")] {
            for v in a.headers().get_all(name) {
                match params(v) {
                    Some((s, p)) if s == "Digest" => creds.push((pr, p.get("realm").cloned().unwrap_or_default(), p)),
                    _ => rec.violate("credentials-unreadable", d()),
                }
            }
        }
        let mine: Vec<_> = creds.iter().filter(|c| c.0 == proxy && c.1 == ch.realm).collect();
        if !rec.check(mine.len() == 1, "one-credential", || format!("{} in {an}; {}", mine.len(), d())) {
            return;
        }
        had.retain(|x| !(x.0 == proxy && x.1 == ch.realm));
        for x in &had {
            rec.check(creds.iter().any(|c| c.0 == x.0 && c.1 == x.1), "other-credential-kept", d);
        }
        had.push((proxy, ch.realm.clone()));
        rec.check(creds.len() == had.len(), "credential-count", d);
        let p = &mine[0].2;
        let g = |k: &str| p.get(k).cloned().unwrap_or_default();
        let qop = g("qop");
        rec.check(if ch.qops.is_empty() { qop.is_empty() } else { ch.qops.contains(&qop.as_str()) && (qop == "auth" || qop == "auth-int") }, "auth-qop", d);
        rec.check(g("nonce") == ch.nonce && g("username") == cred.0 && g("uri") == q.uri().as_str() && p.get("opaque").cloned() == ch.opaque, "auth-params", d);
        rec.check(g("algorithm").eq_ignore_ascii_case(ch.alg) || (!ch.named && g("algorithm").is_empty()), "auth-algorithm", d);
        if !qop.is_empty() {
            rec.check(g("nc").len() == 8 && u32::from_str_radix(&g("nc"), 16).is_ok_and(|n| n >= 1) && !g("cnonce").is_empty(), "auth-nc", d);
        }
        let dg = D { alg: ch.alg, user: cred.0.clone(), realm: ch.realm.clone(), pass: cred.1.clone(), method: q.method().as_str().into(), uri: q.uri().as_str().into(), nonce: ch.nonce.clone(), nc: g("nc"), cnonce: g("cnonce"), qop: qop.clone(), body: q.body().to_vec() };
        rec.check(g("response") == dg.response(), "auth-response", || format!("wanted {}; {}", dg.response(), d()));
        rec.check(sip_uac::auth_utils::extract_realm(&res).as_deref() == Some(ch.realm.as_str()), "extract-realm", d);
        rec.eval(Some(&format!("auth-{k}-{}-{qop}-{proxy}", ch.alg)));
        q = a;
    }
}

/// Nothing a challenge says makes the client fall over.
fn hostile(r: &mut Rng, rec: &mut Rec) {
    let mut me = me(r);
    let t = uri(r);
    let q = me.uac.create_register(&u(&t), 60);
    let mut v = challenge(r).value.into_bytes();
    match r.below(4) {
        0 => v = r.nasty(0, 60).into_bytes(),
        1 => v = format!("Digest {}", r.string("realm=nonce\",\\ \u{e9}", 0, 40)).into_bytes(),
        _ => {
            for _ in 0..r.range(1, 6) {
                if v.is_empty() {
                    break;
                }
                let at = r.below(v.len());
                match r.below(3) {
                    0 => {
                        v.remove(at);
                    }
                    1 => v.insert(at, *r.pick(b"\"\\,= \t;")),
                    _ => v[at] = *r.pick(b"\"\\,= D"),
                }
            }
        }
    }
    let v = String::from_utf8_lossy(&v).replace(['\r', '\n', '\0'], " ");
    let Ok(mut h) = Headers::from_vec(vec![]) else { return };
    for n in ["Via", "From", "To", "Call-ID", "CSeq"] {
        h.push(n, one(q.headers(), n)).unwrap();
    }
    let (code, hn) = *r.pick(&[(401u16, "WWW-Authenticate"), (407, "Proxy-Authenticate"), (401, "Proxy-Authenticate")]);
    if h.push(hn, v.as_str()).is_err() {
        return;
    }
    let Ok(res) = Response::new(sip_core::StatusLine::new(code, "x").unwrap(), h, Bytes::new()) else { return };
    let d = || format!("{hn}: {v:?}");
    rec.sample(d);
    rec.eval(Some("hostile"));
    let a = rec.guard("hostile challenge", &d, || {
        let _ = sip_uac::auth_utils::extract_realm(&res);
        me.uac.create_authenticated_request(&q, &res)
    });
    if let Some(Ok(a)) = a {
        rec.check(sip_parse::parse_request(&Bytes::from(text(&a))).is_some_and(|b| b.headers().len() == a.headers().len()), "hostile-read-back", || format!("{}: {}", d(), text(&a)));
        rec.check(a.headers().len() == q.headers().len() + 1, "hostile-headers", || format!("{}: {}", d(), text(&a)));
    }
}

/// Registration refreshes, through challenges, and the service route they bring.
fn registers(r: &mut Rng, rec: &mut Rec) {
    let mut me = me(r);
    let regs: Vec<String> = (0..1 + r.below(3)).map(|_| uri(r)).collect();
    let mut series: Vec<Option<(String, String, u32)>> = vec![None; regs.len()];
    for step in 0..r.range(2, 12) {
        let k = r.below(regs.len());
        if regs.iter().filter(|x| **x == regs[k]).count() > 1 {
            return;
        }
        let exp = *r.pick(&[0u32, 1, 60, 3600, 86_400]);
        let mut q = me.uac.create_register(&u(&regs[k]), exp);
        let w = Want {
            method: "REGISTER",
            uri: regs[k].clone(),
            from_uri: Some(me.local.clone()),
            from_tag: series[k].as_ref().map(|s| s.0.clone()),
            to_uri: me.local.clone(),
            to_tag: None,
            call_id: series[k].as_ref().map(|s| s.1.clone()),
            cseq: None,
            contact: true,
            body: None,
            extra: vec![("Expires", exp.to_string())],
        };
        complete(rec, &me, &q, &w);
        let d = |q: &Request| format!("step {step} after {:?}: {}", series[k], text(q));
        let num = |q: &Request| one(q.headers(), "CSeq").split(' ').next().and_then(|x| x.parse::<u32>().ok()).unwrap_or(0);
        rec.check(num(&q) > series[k].as_ref().map_or(0, |s| s.2), "register-cseq", || d(&q));
        let ce: Vec<_> = read_party(&one(q.headers(), "Contact")).map(|x| x.2).unwrap_or_default();
        rec.check(ce.iter().all(|(n, v)| n != "expires" || *v == exp.to_string()), "register-contact-expires", || d(&q));
        // challenged once or more
        if me.creds.is_some() {
            for _ in 0..r.below(3) {
                let ch = challenge(r);
                let res = answer(401, "Unauthorized", &q, &format!("<{}>;tag=t", me.local), &[("WWW-Authenticate".into(), ch.value.clone())]);
                match me.uac.create_authenticated_request(&q, &res) {
                    Ok(a) => {
                        rec.check(num(&a) == num(&q) + 1, "register-auth-cseq", || d(&a));
                        q = a;
                    }
                    Err(e) => rec.violate("register-not-answered", format!("{e} {}", ch.value)),
                }
            }
        }
        series[k] = Some((tag_of(&one(q.headers(), "From")).unwrap_or_default(), one(q.headers(), "Call-ID"), num(&q)));
        // answered, with or without a service route
        let nr = *r.pick(&[0usize, 0, 1, 2, 4]);
        let us: Vec<String> = (0..nr).map(|_| format!("{};lr", uri(r).split(';').next().unwrap().split('?').next().unwrap())).collect();
        let mut extra = vec![];
        for (_, v) in record_routes(r, &us) {
            extra.push(("Service-Route".to_string(), v));
        }
        let before: Option<Vec<String>> = me.uac.get_service_route().map(|s| s.routes().iter().map(|x| x.uri().as_str().to_string()).collect());
        let (code, reason) = *r.pick(&[(200u16, "OK"), (200, "OK"), (200, "OK"), (403, "Forbidden"), (401, "Unauthorized"), (503, "x")]);
        let res = answer(code, reason, &q, &format!("<{}>;tag=t", me.local), &extra);
        me.uac.process_register_response(&res);
        let now: Option<Vec<String>> = me.uac.get_service_route().map(|s| s.routes().iter().map(|x| x.uri().as_str().to_string()).collect());
        let want = if code == 200 { (nr > 0).then(|| us.clone()) } else { before };
        let same = match (&now, &want) {
            (Some(a), Some(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_uri(x, y)),
            (None, None) => true,
            _ => false,
        };
        rec.check(same, "service-route-stored", || format!("{code} {extra:?}: {now:?} for {want:?}"));
        // and requests follow it
        let t = uri(r);
        let mut q = me.uac.create_message(&u(&t), "text/plain", "x");
        let own = r.coin();
        let mut more = vec![];
        if own {
            q.headers_mut().push(*r.pick(&["Route", "route", "ROUTE"]), *r.pick(&["<sip:own.example;lr>", "\"O, <x>\" <sip:own.example;lr>", "Own <sip:own.example;lr>;p=1"])).unwrap();
            if r.coin() {
                more.push("sip:more.example;lr".to_string());
                q.headers_mut().push("Route", "<sip:more.example;lr>").unwrap();
            }
        }
        let was = q.clone();
        me.uac.apply_service_route(&mut q);
        let mut routes = want.unwrap_or_default();
        if own {
            routes.push("sip:own.example;lr".into());
            routes.extend(more);
        }
        let got: Vec<String> = q.headers().get_all("Route").map(|v| read_party(v).map(|x| x.1).unwrap_or_default()).collect();
        rec.check(got.len() == routes.len() && got.iter().zip(&routes).all(|(a, b)| same_uri(a, b)), "service-route-applied", || format!("wanted {routes:?}: {}", text(&q)));
        let others = |x: &Request| -> Vec<(String, String)> { x.headers().iter().filter(|h| !h.name().eq_ignore_ascii_case("Route")).map(|h| (h.name().into(), h.value().into())).collect() };
        rec.check(others(&q) == others(&was) && q.uri() == was.uri() && q.body() == was.body(), "service-route-only", || text(&q));
        rec.eval(Some(&format!("register-{code}-{nr}-{own}")));
    }
}

/// A full request takes no route set beyond its limits and stays usable.
fn full(r: &mut Rng, rec: &mut Rec) {
    let mut me = me(r);
    let t = uri(r);
    let mut q = me.uac.create_message(&u(&t), "text/plain", "x");
    let reg = me.uac.create_register(&u(&t), 60);
    let res = answer(200, "OK", &reg, "<sip:a@b>;tag=t", &[("Service-Route".into(), "<sip:s.example;lr>, <sip:s2.example;lr>".into())]);
    me.uac.process_register_response(&res);
    let mut n = 0;
    while q.headers_mut().push("X-Fill", "y").is_ok() {
        n += 1;
        if n > 5000 {
            break;
        }
    }
    let keep = q.headers().len() - r.below(4);
    let v: Vec<_> = q.headers().iter().take(keep).cloned().collect();
    *q.headers_mut() = Headers::from_vec(v).unwrap();
    let d = || format!("{keep} headers");
    rec.guard("full request", &d, || me.uac.apply_service_route(&mut q));
    let ch = answer(401, "Unauthorized", &reg, "<sip:a@b>;tag=t", &[("WWW-Authenticate".into(), "Digest realm=\"a\", nonce=\"b\", qop=\"auth\"".into())]);
    rec.guard("full request challenged", &d, || {
        let _ = me.uac.create_authenticated_request(&q, &ch);
    });
    rec.eval(Some("full"));
}

fn main() {
    let mut ctx = Ctx::new("U02", "client, request asked for, dialog, challenge or answer");
    ctx.assume("user names without quotes; realms and nonces without escapes; challenges one per header line");
    let k = |n: u64| n;
    let n = ctx.n(k(30_000), 1_500_000);
    ctx.run("alone", n, alone);
    let n = ctx.n(k(20_000), 1_000_000);
    ctx.run("in-dialog", n, in_dialog);
    let n = ctx.n(k(8_000), 400_000);
    ctx.run("subscriptions", n, subs);
    let n = ctx.n(k(20_000), 1_000_000);
    ctx.run("auth", n, auth);
    let n = ctx.n(k(20_000), 2_000_000);
    ctx.run("hostile", n, hostile);
    let n = ctx.n(k(6_000), 300_000);
    ctx.run("registers", n, registers);
    let n = ctx.n(k(100), 2_000);
    ctx.run("full", n, full);
    ctx.finish();
}
