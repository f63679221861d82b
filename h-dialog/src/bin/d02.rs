//! D02: in-dialog histories against a reference dialog.
use h_dialog::*;
use sip_core::{RefresherRole, SipUri};
use sip_dialog::{Dialog, DialogId, DialogStateType as S};
use std::time::Duration;
use vmon::{Ctx, Rec, Rng};

const MAX: u64 = 2_147_483_647;

#[derive(Clone, Debug, PartialEq)]
struct Model {
    state: S,
    target: SipUri,
    routes: Vec<SipUri>,
    local: u32,
    remote: u32,
    invite: u32,
    ack: Option<u32>,
    se: Option<Duration>,
    role: Option<RefresherRole>,
}

fn seen(d: &Dialog, invite: u32) -> Model {
    Model {
        state: d.state(),
        target: d.remote_target().clone(),
        routes: d.route_set().to_vec(),
        local: d.local_cseq(),
        remote: d.remote_cseq(),
        invite,
        ack: d.last_ack_cseq(),
        se: d.session_expires(),
        role: d.refresher(),
    }
}

fn start(r: &mut Rng) -> (Dialog, Model, DialogId) {
    let (fu, tu, ft, tt, cid) = (uri(r), uri(r), tag(r), tag(r), call_id(r));
    let cs = match r.below(5) {
        0 => MAX,
        1 => MAX - r.ub(1500),
        _ => r.ur(1, 5000),
    };
    let uac = r.coin();
    let early = r.coin();
    let rr: Vec<String> = (0..r.below(4)).map(|_| uri(r)).collect();
    let ct = uri(r);
    let mut req = Msg {
        first: "INVITE sip:t@h.example.net SIP/2.0".into(),
        from: party(r, &fu, Some(&ft)),
        to: party(r, &tu, None),
        call_id: cid.clone(),
        cseq: format!("{cs} INVITE"),
        rest: vec![("Contact".into(), contact(r, &ct))],
    };
    req.rest.extend(record_routes(r, &rr));
    let mut resp = req.clone();
    resp.first = if early { "SIP/2.0 180 Ringing".into() } else { "SIP/2.0 200 OK".into() };
    resp.to = party(r, &tu, Some(&tt));
    let (q, p) = (req.request(r), resp.response(r));
    let d = if uac { Dialog::new_uac(&q, &p, u(&fu), u(&tu)) } else { Dialog::new_uas(&q, &p, u(&tu), u(&fu)) }.expect("dialog established");
    let mut routes: Vec<_> = rr.iter().map(|x| u(x)).collect();
    if uac {
        routes.reverse();
    }
    let m = Model {
        state: if early { S::Early } else { S::Confirmed },
        target: u(&ct),
        routes,
        local: if uac { cs as u32 } else { 0 },
        remote: if uac { 0 } else { cs as u32 },
        invite: if uac { 0 } else { cs as u32 },
        ack: None,
        se: None,
        role: None,
    };
    let id = d.id().clone();
    (d, m, id)
}

fn history(r: &mut Rng, rec: &mut Rec) {
    let (mut d, mut m, id) = start(r);
    let mut log: Vec<String> = vec![format!("start {m:?}")];
    if !rec.check(seen(&d, m.invite) == m, "start", || format!("{:?} expected {m:?}", seen(&d, m.invite))) {
        return;
    }
    let (lu, ru, sec, uac) = (d.local_uri().clone(), d.remote_uri().clone(), d.secure(), d.is_uac());
    let steps = r.range(3, 40);
    let mut refused = 0u32;
    let mut done = 0;
    for _ in 0..steps {
        done += 1;
        match r.below(10) {
            0..=4 => {
                // A request from the peer.
                let method = *r.pick(&METHODS);
                let ack = method == "ACK";
                let base = if ack && m.invite > 0 && r.chance(3, 4) { m.invite as i64 } else { m.remote as i64 };
                let delta = if ack {
                    *r.pick(&[0i64, 0, 0, 0, 1, -1])
                } else {
                    *r.pick(&[1i64, 1, 1, 1, 2, 3, 17, 999, 1000, 1001, 0, -1, -5, 5000, i64::from(i32::MAX), -1000])
                };
                let c = (base + delta).max(0) as u64;
                // The first request from the peer may carry any number.
                let c = if m.remote == 0 && !ack && r.coin() { r.ur(0, MAX + 1) } else { c };
                let ctext = if r.chance(1, 30) { "abc".to_string() } else { c.to_string() };
                let ct = r.chance(3, 4).then(|| uri(r));
                let mut msg = Msg {
                    first: format!("{method} sip:me@h.example.net SIP/2.0"),
                    from: party(r, "sip:p@p.example", Some(id.remote_tag())),
                    to: party(r, "sip:q@q.example", Some(id.local_tag())),
                    call_id: id.call_id().into(),
                    cseq: format!("{ctext} {method}"),
                    rest: vec![],
                };
                if let Some(x) = &ct {
                    msg.rest.push(("Contact".into(), contact(r, x)));
                }
                let rr: Vec<String> = (0..r.below(3)).map(|_| uri(r)).collect();
                msg.rest.extend(record_routes(r, &rr));
                if r.chance(1, 4) {
                    msg.rest.push(("Session-Expires".into(), "120;refresher=uac".into()));
                }
                let text = msg.text(r);
                let Some(q) = sip_parse::parse_request(&text.clone().into()) else {
                    rec.check(ctext == "abc" || c == 0 || c > MAX, "harness-parse", || format!("refused {text}"));
                    continue;
                };
                let ok = ctext != "abc"
                    && if ack {
                        c > 0 && c == m.invite as u64
                    } else {
                        c > 0 && c <= MAX && (m.remote == 0 || (c > m.remote as u64 && c - m.remote as u64 <= 1000))
                    };
                let got = rec.guard("update_from_request", &|| format!("{log:#?}\n{text}"), || d.update_from_request(&q));
                let Some(got) = got else { return };
                log.push(format!("request {method} {ctext} contact={ct:?} -> {got:?}"));
                if ok {
                    if ack {
                        m.ack = Some(c as u32);
                    } else {
                        m.remote = c as u32;
                        if method == "INVITE" {
                            m.invite = c as u32;
                        }
                    }
                    if let (true, Some(x)) = (refreshes(method), &ct) {
                        m.target = u(x);
                    }
                } else {
                    refused += 1;
                }
                rec.count(if ok { "requests_accepted" } else { "requests_refused" }, 1);
                if !rec.check(got.is_ok() == ok, "request-verdict", || format!("{got:?} expected ok={ok}; {log:#?}")) {
                    return;
                }
            }
            5..=7 => {
                // A response to one of our requests.
                let method = *r.pick(&["INVITE", "INVITE", "UPDATE", "BYE", "INFO", "OPTIONS", "PRACK", "SUBSCRIBE", "NOTIFY", "REFER", "MESSAGE"]);
                let code = *r.pick(&[180u16, 183, 200, 200, 200, 202, 299, 300, 302, 401, 408, 481, 488, 500, 603]);
                let ct = r.chance(3, 4).then(|| uri(r));
                let rr: Vec<String> = (0..r.below(4)).map(|_| uri(r)).collect();
                let se: Option<(u64, Option<&str>)> = r.chance(1, 2).then(|| {
                    let v = *r.pick(&[90u64, 120, 1800, 86_400, 86_401, 89, 1, 1_000_000]);
                    (v, *r.pick(&[None, Some("uac"), Some("uas")]))
                });
                let mut msg = Msg {
                    first: format!("SIP/2.0 {code} X"),
                    from: party(r, "sip:q@q.example", Some(id.local_tag())),
                    to: party(r, "sip:p@p.example", Some(id.remote_tag())),
                    call_id: id.call_id().into(),
                    cseq: format!("{} {method}", m.local.clamp(1, MAX as u32)),
                    rest: vec![],
                };
                if let Some(x) = &ct {
                    msg.rest.push(("Contact".into(), contact(r, x)));
                }
                msg.rest.extend(record_routes(r, &rr));
                if let Some((v, role)) = se {
                    msg.rest.push(("Session-Expires".into(), format!("{v}{}", role.map(|x| format!(";refresher={x}")).unwrap_or_default())));
                }
                let p = msg.response(r);
                if rec.guard("update_from_response", &|| format!("{log:#?}\n{msg:?}"), || d.update_from_response(&p)).is_none() {
                    return;
                }
                log.push(format!("response {code} {method} contact={ct:?} routes={rr:?} se={se:?}"));
                rec.count("responses", 1);
                if code < 300 {
                    if let (true, Some(x)) = (refreshes(method), &ct) {
                        m.target = u(x);
                    }
                    if let Some((v, role)) = se {
                        if (90..=86_400).contains(&v) {
                            m.se = Some(Duration::from_secs(v));
                            m.role = role.map(|x| if x == "uac" { RefresherRole::Uac } else { RefresherRole::Uas });
                        }
                    }
                    if code >= 200 && m.state == S::Early {
                        m.state = S::Confirmed;
                        if !rr.is_empty() {
                            m.routes = rr.iter().rev().map(|x| u(x)).collect();
                        }
                    }
                }
            }
            8 => {
                let before = m.local;
                let got = d.next_local_cseq();
                m.local = m.local.saturating_add(1);
                log.push(format!("next_local_cseq -> {got}"));
                rec.check(got == m.local && (got > before || before == u32::MAX), "local-cseq", || format!("{got} after {before}; {log:#?}"));
            }
            _ => match r.below(4) {
                0 => {
                    d.confirm();
                    if m.state == S::Early {
                        m.state = S::Confirmed;
                    }
                    log.push("confirm".into());
                }
                1 if r.chance(1, 3) => {
                    d.terminate();
                    m.state = S::Terminated;
                    log.push("terminate".into());
                }
                2 => {
                    let v = *r.pick(&[0u64, 89, 90, 91, 3600, 86_400, 86_401, 1 << 32, (1 << 32) + 100, u64::MAX, (1 << 40) + 1800]);
                    let ok = (90..=86_400).contains(&v);
                    let got = d.set_session_expires(Duration::from_secs(v));
                    log.push(format!("set_session_expires {v} -> {got:?}"));
                    if ok {
                        m.se = Some(Duration::from_secs(v));
                    }
                    rec.check(got.is_ok() == ok, "set-expires", || format!("{v}: {got:?}; {log:#?}"));
                }
                _ => {
                    let el = Duration::from_millis(r.ur(0, 200_000_000));
                    let got = rec.guard("needs_refresh", &|| format!("{el:?} {m:?}"), || d.needs_refresh(el));
                    let want = m.se.is_some_and(|s| el * 3 >= s * 2);
                    let close = m.se.is_some_and(|s| (el * 3).abs_diff(s * 2) < Duration::from_micros(1));
                    if let Some(g) = got {
                        rec.check(g == want || close, "needs-refresh", || format!("needs_refresh({el:?})={g}; {log:#?}"));
                    }
                }
            },
        }
        let now = seen(&d, m.invite);
        if !rec.check(now == m, "state-after", || format!("dialog now {now:?}\nexpected   {m:?}\n{log:#?}")) {
            return;
        }
        let fixed = d.id() == &id && d.local_uri() == &lu && d.remote_uri() == &ru && d.secure() == sec && d.is_uac() == uac;
        rec.check(fixed, "identity-fixed", || format!("identity changed: {d:?}; {log:#?}"));
    }
    rec.eval(Some(&(log.len(), format!("{:?}", m.state), m.remote, m.local, refused)));
    rec.count("steps", done);
    rec.sample(|| format!("{log:?}"));
}

fn main() {
    let mut c = Ctx::new("D02", "after every step of a random in-dialog history the dialog equals a reference dialog, and each request is accepted or refused as the reference says");
    c.run("histories", c.n(60_000, 900_000), history);
    c.assume("requests and responses reach the dialog layer through the stack's own parser; histories of up to 40 steps");
    c.finish();
}
