//! P02: what a proxy puts on a request it forwards and takes off the response, and
//! nothing else: Request-URI, Max-Forwards, Via, Record-Route, Route.
use h_net::*;
use sip_core::{Headers, Request, SipUri};
use sip_proxy::cancel_ack::{AckForwarder, AckType, CancelForwarder, RouteProcessor};
use sip_proxy::location::{group_by_q_value, Target};
use sip_proxy::stateful::forwarding;
use sip_proxy::ProxyHelpers;
use std::collections::BTreeSet;
use vmon::{Ctx, Rec, Rng};

fn list(h: &Headers, name: &str) -> Vec<String> {
    h.get_all(name).flat_map(values).collect()
}

fn rest(h: &Headers, but: &[&str]) -> Vec<(String, String)> {
    h.iter().filter(|x| !but.iter().any(|b| x.name().eq_ignore_ascii_case(b))).map(|x| (x.name().to_string(), x.value().to_string())).collect()
}

struct Msg {
    text: String,
    vias: Vec<String>,
    mf: Option<String>,
}

const HOSTS: [&str; 6] = ["proxy.example.com", "Proxy.Example.Com", "192.0.2.1", "[2001:db8::1]", "other.example", "proxy.example.com.evil.example"];

fn via(r: &mut Rng) -> String {
    let host = *r.pick(&HOSTS);
    let port = r.pick(&["", "", ":5060", ":5070"]).to_string();
    let p = *r.pick(&["UDP", "TCP", "TLS", "WSS"]);
    let branch = format!("z9hG4bK{}", r.alnum(1, 20));
    match r.below(5) {
        0 => format!("SIP/2.0/{p} {host}{port};rport=5060;branch={branch};received=192.0.2.9"),
        1 => format!("SIP/2.0/{p} {host}{port} ; branch={branch}"),
        2 => format!("SIP/2.0/{p} {host}{port};x=\"a, SIP/2.0/UDP b;branch=z9hG4bKno\";branch={branch}"),
        3 => format!("SIP/2.0/{p} {host}{port};Branch={branch}"),
        _ => format!("SIP/2.0/{p} {host}{port};branch={branch}"),
    }
}

fn route(r: &mut Rng, lr: bool) -> String {
    let u = *r.pick(&["sip:p1.example", "sip:p2.example:5070", "sips:p3.example", "sip:u@192.0.2.8", "sip:[2001:db8::2]"]);
    let lr = if lr { *r.pick(&[";lr", ";transport=tcp;lr", ";lr=on"]) } else { *r.pick(&["", ";transport=tcp"]) };
    match r.below(4) {
        0 => format!("\"A, B\" <{u}{lr}>"),
        1 => format!("<{u}{lr}>;x=y"),
        _ => format!("<{u}{lr}>"),
    }
}

fn msg(r: &mut Rng, method: &str, routes: &[String]) -> Msg {
    let vias: Vec<String> = (0..1 + r.below(4)).map(|_| via(r)).collect();
    let mut blocks = vec![];
    blocks.push(format!("From: \"O, K\" <sip:a@a.example>;tag=ft\r\nTo: <sip:b@b.example>{}\r\n", if r.coin() { ";tag=tt" } else { "" }));
    blocks.push(format!("Call-ID: {}\r\nCSeq: {} {method}\r\n", r.alnum(4, 20), r.ur(0, 1 << 31)));
    let mf = match r.below(10) {
        0 => None,
        1 => Some("0".to_string()),
        2 => Some("1".into()),
        3 => Some(r.pick(&["255", "070", "70", "69"]).to_string()),
        4 => Some(r.pick(&["-1", "x", "", "7 0", "99999999999"]).to_string()),
        _ => Some(r.ur(1, 255).to_string()),
    };
    if let Some(m) = &mf {
        blocks.push(format!("Max-Forwards: {m}\r\n"));
    }
    let rrs: Vec<String> = (0..r.below(3)).map(|_| route(r, true)).collect();
    blocks.push(lines(r, "Record-Route", &rrs));
    blocks.push(lines(r, "Route", routes));
    for i in 0..r.below(5) {
        blocks.push(format!("{}: {}\r\n", r.pick(&["X-A", "Supported", "Allow", "P-Asserted-Identity", "Subject", "Viable"]), ["a, b;c=\"d,e\"", "<sip:x@y>", "timer", "INVITE, ACK", ""][i]));
    }
    let name = if r.chance(1, 6) { "v" } else { "Via" };
    blocks.push(lines(r, name, &vias));
    r.shuffle(&mut blocks);
    let mut t = format!("{method} sip:bob@b.example;user=phone SIP/2.0\r\n{}", blocks.concat());
    // as full as can be
    if r.chance(1, 8) {
        let have = t.matches("\r\n").count() - 1;
        let want = 199 - r.below(4);
        for i in have..want {
            t += &format!("X-Fill-{i}: {}\r\n", r.below(10));
        }
    }
    let body = if r.coin() { r.alnum(0, 30) } else { String::new() };
    t += &format!("Content-Length: {}\r\n\r\n{body}", body.len());
    Msg { text: t, vias, mf }
}

fn parse(t: &str) -> Option<Request> {
    sip_parse::parse_request(&bytes::Bytes::from(t.to_string()))
}

fn forward(r: &mut Rng, rec: &mut Rec) {
    let method = *r.pick(&["INVITE", "BYE", "MESSAGE", "ACK", "CANCEL"]);
    let routes: Vec<String> = (0..r.below(3)).map(|_| route(r, true)).collect();
    let m = msg(r, method, &routes);
    let Some(req) = parse(&m.text) else {
        rec.check(false, "harness", || format!("does not parse: {}", m.text));
        return;
    };
    let target = SipUri::parse(r.pick(&["sip:t@192.0.2.50:5080;transport=tcp", "sips:t@t.example", "sip:[2001:db8::9]"])).unwrap();
    let host = *r.pick(&["proxy.example.com", "192.0.2.1:5060", "[2001:db8::1]"]);
    let own = SipUri::parse(*r.pick(&["sip:proxy.example.com", "sip:192.0.2.1:5060;lr", "sip:proxy.example.com;transport=tcp;LR", "sip:proxy.example.com:5070;transport=tcp", "sips:edge@proxy.example.com;ob"])).unwrap();
    let rr = r.coin();
    let before = req.clone();
    let show = |what: &str| format!("{what}\n{}", m.text);
    let Some(out) = rec.guard("prepare_forward", &|| m.text.clone(), || forwarding::prepare_forward(&req, &target, host, "TCP", rr, Some(&own))) else { return };
    rec.check(sip_parse::serialize_request(&req) == sip_parse::serialize_request(&before), "original", || show("the original was changed"));
    let mf = match &m.mf {
        None => Some(70),
        Some(s) if !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) => s.parse::<u32>().ok().filter(|n| *n <= 255),
        _ => None,
    };
    let full = req.headers().len() >= 197;
    let refuse = mf.is_none() || mf == Some(0);
    rec.eval(Some(&(method, m.vias.len(), mf.map(|x| x.min(2)), rr, out.is_ok(), full)));
    let (fw, branch) = match out {
        Err(e) => {
            rec.check(refuse || full, "refused", || show(&format!("refused: {e}")));
            return;
        }
        Ok(x) => x,
    };
    rec.check(!refuse, "hops", || show("forwarded though its Max-Forwards is used up or no number"));
    if refuse {
        return;
    }
    let h = fw.headers();
    let got: Option<u32> = h.get("Max-Forwards").and_then(|v| v.trim().parse().ok());
    // a missing one is made 70, before or after counting this hop
    let hop = got == mf.map(|x| x - 1) || m.mf.is_none() && got == Some(70);
    rec.check(hop && h.count("Max-Forwards") == 1, "hops", || show(&format!("Max-Forwards {got:?}")));
    rec.check(fw.uri().as_str() == target.as_str() && fw.method() == req.method() && fw.body() == req.body(), "changed", || show("request line or body"));
    let vias = list(h, "Via");
    let top = vias.first().cloned().unwrap_or_default();
    let good = vias[1..] == m.vias[..] && top.starts_with(&format!("SIP/2.0/TCP {host};")) && top.split(';').filter(|p| *p == format!("branch={branch}")).count() == 1 && branch.starts_with("z9hG4bK") && branch.len() > 12;
    rec.check(good, "via", || show(&format!("Vias {vias:?}, branch {branch}")));
    let mut want = list(req.headers(), "Record-Route");
    let rrs = list(h, "Record-Route");
    if rr {
        let lr = own.as_str().to_lowercase().contains(";lr");
        want.insert(0, if lr { format!("<{}>", own.as_str()) } else { format!("<{};lr>", own.as_str()) });
    }
    rec.check(rrs == want || full && rr && rrs[..] == want[1..], "record-route", || show(&format!("Record-Routes {rrs:?}, due {want:?}")));
    let but = ["Via", "Max-Forwards", "Record-Route"];
    rec.check(rest(h, &but) == rest(req.headers(), &but), "changed", || show(&format!("headers {:?}", rest(h, &but))));
    // no two alike, and the wire form says the same
    let again = forwarding::prepare_forward(&req, &target, host, "TCP", rr, Some(&own)).map(|x| x.1).ok();
    rec.check(again.is_some_and(|b| b != branch), "branch", || show("two forwarded requests share a branch"));
    let wire = sip_parse::parse_request(&sip_parse::serialize_request(&fw));
    rec.check(wire.is_some_and(|w| list(w.headers(), "Via") == vias && list(w.headers(), "Record-Route") == rrs && w.uri().as_str() == fw.uri().as_str()), "wire", || show("not the same on the wire"));
    // and back
    let text = format!("SIP/2.0 200 OK\r\n{}From: <sip:a@a>;tag=1\r\n{}To: <sip:b@b>;tag=2\r\nCall-ID: x\r\nCSeq: 1 {method}\r\nContent-Length: 0\r\n\r\n", lines(r, "Via", &vias), lines(r, "Record-Route", &rrs));
    let resp = response(&text);
    let back = forwarding::prepare_response(&resp);
    rec.check(list(back.headers(), "Via") == m.vias && rest(back.headers(), &["Via"]) == rest(resp.headers(), &["Via"]) && back.code() == 200, "back", || format!("response\n{text}goes back with Vias {:?}", list(back.headers(), "Via")));
    rec.sample(|| m.text.clone());
}

fn host_of(via: &str) -> String {
    let by = via.split_whitespace().nth(1).unwrap().split(';').next().unwrap().to_string();
    match by.rfind(']') {
        Some(i) => by[..=i].to_string(),
        None => by.split(':').next().unwrap().to_string(),
    }
}

fn loops(r: &mut Rng, rec: &mut Rec) {
    let m = msg(r, "INVITE", &[]);
    let Some(mut req) = parse(&m.text) else { return };
    let me = *r.pick(&["proxy.example.com", "192.0.2.1", "[2001:db8::1]", "nobody.example"]);
    let there = m.vias.iter().any(|v| host_of(v).eq_ignore_ascii_case(me));
    let show = || format!("{me}\n{}", m.text);
    let got = rec.guard("detect_loop", &show, || ProxyHelpers::detect_loop(&req, me).is_err());
    if let Some(got) = got {
        rec.check(got == there, "loop", || format!("loop found: {got}, so it is: {there}; {}", show()));
    }
    // the branch tells a loop from a spiral
    rec.check(ProxyHelpers::detect_loop_hashed(&req, me).is_ok(), "hashed loop", || format!("a loop in {}", show()));
    let room = req.headers().len() < 199;
    ProxyHelpers::add_via_with_loop_detection(&mut req, me, "UDP");
    if r.coin() && room {
        ProxyHelpers::add_via(&mut req, "elsewhere.example", "UDP"); // through somebody else
    }
    if room {
        rec.check(ProxyHelpers::detect_loop_hashed(&req, me).is_err(), "hashed loop", || format!("no loop found after our own Via, {}", show()));
        rec.check(ProxyHelpers::detect_loop_hashed(&req, "third.example").is_ok(), "hashed loop", || "found by another".into());
        // on one line, as others may rewrite it
        let vias = list(req.headers(), "Via");
        req.headers_mut().remove("Via");
        if req.headers_mut().push("Via", vias.join(", ")).is_ok() {
            rec.check(ProxyHelpers::detect_loop_hashed(&req, me).is_err(), "hashed loop", || format!("not found on one line, {}", show()));
        }
        let mut spiral = req.clone();
        spiral.set_uri(SipUri::parse("sip:elsewhere@c.example").unwrap());
        rec.check(ProxyHelpers::detect_loop_hashed(&spiral, me).is_ok(), "hashed loop", || format!("a spiral to another target taken for a loop, {}", show()));
        // what differs in any part that names the call or the target is no loop
        // and gets a branch of its own; a CANCEL of the request shares its branch
        let fresh = |q: &Request| ProxyHelpers::add_via_with_loop_detection(&mut q.clone(), me, "UDP");
        let bare = |q: &Request| {
            let mut q = q.clone();
            q.headers_mut().remove("Via");
            q
        };
        let ours = fresh(&bare(&req));
        let edit = |name: &str, f: &dyn Fn(&str) -> String| {
            let mut q = req.clone();
            let v = q.headers().get(name).unwrap_or_default().to_string();
            q.headers_mut().set_or_push(name, &f(&v)).ok()?;
            Some(q)
        };
        let k = r.below(9);
        let other = match k {
            0 => Some("sip:bob@b.example;user=ip"),
            1 => Some("sip:bob@b.example:5060;user=phone"),
            2 => Some("sip:bo@b.example;user=phone"),
            3 => Some("sips:bob@b.example;user=phone"),
            _ => None,
        };
        let changed = match (other, k) {
            (Some(u), _) => {
                let mut q = req.clone();
                q.set_uri(SipUri::parse(u).unwrap());
                Some(q)
            }
            (_, 4) => edit("Call-ID", &|v| format!("{v}x")),
            (_, 5) => edit("CSeq", &|v| v.replacen(|c: char| c.is_ascii_digit(), "1", 1).replacen(' ', "7 ", 1)),
            (_, 6) => edit("From", &|v| v.replace("tag=ft", "tag=fu")),
            (_, 7) => edit("To", &|v| format!("{v};x=1")),
            _ => edit("CSeq", &|v| v.replace("INVITE", "CANCEL")),
        };
        if let Some(q) = changed {
            let same = k == 8;
            rec.check((fresh(&bare(&q)) == ours) == same, "branch", || format!("change {k}: same branch {}, wanted {same}; {}", !same, show()));
            rec.check(ProxyHelpers::detect_loop_hashed(&q, me).is_err() == same, "hashed loop", || format!("change {k} taken for a loop: {}, {}", !same, show()));
        }
    }
    // too many hops
    let n = 60 + r.below(20);
    let vias: Vec<String> = (0..n).map(|i| format!("SIP/2.0/UDP h{i}.example;branch=z9hG4bK{i}")).collect();
    let text = format!("OPTIONS sip:a@a SIP/2.0\r\n{}From: <sip:a@a>;tag=1\r\nTo: <sip:b@b>\r\nCall-ID: x\r\nCSeq: 1 OPTIONS\r\nContent-Length: 0\r\n\r\n", lines(r, "Via", &vias));
    if let Some(q) = parse(&text) {
        rec.check(ProxyHelpers::detect_loop(&q, me).is_err() == (n > 70), "hops seen", || format!("{n} hops"));
    }
    rec.eval(Some(&(me, there, m.vias.len(), room)));
}

/// Only the first Via value goes, whatever the line it is on.
fn top_via(r: &mut Rng, rec: &mut Rec) {
    let m = msg(r, "INVITE", &[]);
    let Some(mut req) = parse(&m.text) else { return };
    let before = (list(req.headers(), "Via"), rest(req.headers(), &["Via"]));
    rec.eval(Some(&before));
    let Some(_) = rec.guard("remove_top_via", &|| m.text.clone(), || ProxyHelpers::remove_top_via(req.headers_mut())) else { return };
    let after = (list(req.headers(), "Via"), rest(req.headers(), &["Via"]));
    rec.check(after.0 == before.0[1..] && after.1 == before.1, "top via", || format!("{after:?}\nafter taking the top Via off\n{}", m.text));
}

fn routes(r: &mut Rng, rec: &mut Rec) {
    let n = 1 + r.below(4);
    let first_lr = r.coin();
    let rs: Vec<String> = (0..n).map(|i| route(r, i > 0 || first_lr)).collect();
    let uri = |v: &String| v.split('<').nth(1).unwrap().split('>').next().unwrap().to_string();
    // one a line: that much is the caller's part
    let mk = |r: &mut Rng, method: &str, joined: bool, rs: &[String]| {
        let l = if joined { lines(r, "Route", rs) } else { rs.iter().map(|v| format!("Route: {v}\r\n")).collect() };
        let text = format!("{method} sip:bob@b.example SIP/2.0\r\nVia: SIP/2.0/UDP c;branch=z9hG4bKa\r\n{l}From: <sip:a@a>;tag=1\r\nTo: <sip:b@b>;tag=2\r\nCall-ID: x\r\nCSeq: 1 {method}\r\nX-Z: 1\r\nContent-Length: 0\r\n\r\n");
        request(&text)
    };
    let req = mk(r, "BYE", false, &rs);
    let mut q = req.clone();
    let swapped = ProxyHelpers::apply_strict_routing_swap(&mut q);
    rec.check(swapped != first_lr, "strict", || format!("{rs:?}: swapped {swapped}"));
    if swapped {
        let mut want: Vec<String> = rs[1..].to_vec();
        want.push("<sip:bob@b.example>".into());
        rec.check(q.uri().as_str() == uri(&rs[0]) && list(q.headers(), "Route") == want, "strict", || format!("{rs:?}: to {} with {:?}", q.uri().as_str(), list(q.headers(), "Route")));
        // the strict router's successor undoes it
        let mut back = q.clone();
        let me = q.uri().as_str().to_string();
        let ok = ProxyHelpers::recover_strict_routed_request_uri(&mut back, |u| u.as_str() == me);
        rec.check(ok && back.uri().as_str() == "sip:bob@b.example" && list(back.headers(), "Route") == rs[1..], "strict", || format!("{rs:?}: not undone: {} {:?}", back.uri().as_str(), list(back.headers(), "Route")));
        let mut other = q.clone();
        rec.check(!ProxyHelpers::recover_strict_routed_request_uri(&mut other, |_| false) && other.uri().as_str() == q.uri().as_str(), "strict", || "undone by another".into());
        rec.check(rest(back.headers(), &["Route"]) == rest(req.headers(), &["Route"]), "strict", || "other headers".into());
    } else {
        rec.check(q.uri().as_str() == "sip:bob@b.example" && list(q.headers(), "Route") == rs, "strict", || "changed without swap".into());
    }
    // lists on one line
    let req = mk(r, "BYE", true, &rs);
    let text = String::from_utf8_lossy(&sip_parse::serialize_request(&req)).into_owned();
    let hop = RouteProcessor::get_next_hop(&req).map(|u| u.as_str().to_string()).ok();
    rec.check(hop.as_deref() == Some(&uri(&rs[0])), "next hop", || format!("{hop:?} of\n{text}"));
    let mut q = req.clone();
    let ours = [SipUri::parse("sip:bob@b.example").unwrap()];
    let got = RouteProcessor::process_route_set(&mut q, &ours).ok().flatten().map(|u| u.as_str().to_string());
    let last = uri(rs.last().unwrap());
    rec.check(got.as_deref() == Some(&last) && q.uri().as_str() == last && list(q.headers(), "Route") == rs[..n - 1] && rest(q.headers(), &["Route"]) == rest(req.headers(), &["Route"]), "route set", || format!("{got:?}, to {} with {:?} of\n{text}", q.uri().as_str(), list(q.headers(), "Route")));
    let mut q = req.clone();
    let got = RouteProcessor::process_route_set(&mut q, &[SipUri::parse("sip:else@x").unwrap()]);
    rec.check(matches!(got, Ok(None)) && list(q.headers(), "Route") == rs && q.uri().as_str() == "sip:bob@b.example", "route set", || format!("changed though not ours\n{text}"));
    // an ACK to a 2xx goes along its route to its target
    let ack = mk(r, "ACK", true, &rs);
    let out = AckForwarder::prepare_ack(&ack, AckType::For2xx).unwrap();
    let want = if first_lr { "sip:bob@b.example".to_string() } else { uri(&rs[0]) };
    rec.check(out.uri().as_str() == want && list(out.headers(), "Route") == rs[1..] && rest(out.headers(), &["Route"]) == rest(ack.headers(), &["Route"]), "ack", || format!("ACK to {} with {:?}, routes were {rs:?}", out.uri().as_str(), list(out.headers(), "Route")));
    let out = AckForwarder::prepare_ack(&ack, AckType::Non2xx).unwrap();
    rec.check(sip_parse::serialize_request(&out) == sip_parse::serialize_request(&ack), "ack", || "ACK to a failure changed".into());
    rec.eval(Some(&rs));
    rec.sample(|| text.clone());
}

fn cancels(r: &mut Rng, rec: &mut Rec) {
    let vary = |r: &mut Rng, a: &str, b: &str| if r.chance(1, 5) { b.to_string() } else { a.to_string() };
    let (uri, tag, id, seq) = (vary(r, "sip:b@b.example", "sip:c@b.example"), vary(r, "t1", "t2"), vary(r, "call", "Call"), vary(r, "7", "8"));
    let invite = request("INVITE sip:b@b.example SIP/2.0\r\nVia: SIP/2.0/UDP c;branch=z9hG4bKa\r\nFrom: <sip:a@a>;tag=t1\r\nTo: <sip:b@b>\r\nCall-ID: call\r\nCSeq: 7 INVITE\r\nContent-Length: 0\r\n\r\n");
    let cancel = request(&format!("CANCEL {uri} SIP/2.0\r\nVia: SIP/2.0/UDP c;branch=z9hG4bKa\r\nFrom: <sip:a@a>;tag={tag}\r\nTo: <sip:b@b>{}\r\nCall-ID: {id}\r\nCSeq: {seq} CANCEL\r\nContent-Length: 0\r\n\r\n", if r.coin() { ";tag=x" } else { "" }));
    let due = uri == "sip:b@b.example" && tag == "t1" && id == "call" && seq == "7";
    rec.check(CancelForwarder::matches_invite(&cancel, &invite) == due, "match", || format!("CANCEL {uri} {tag} {id} {seq} matched: {}", !due));
    // forwarded ones bear one Via, with the branch asked for
    let vias: Vec<String> = (0..1 + r.below(3)).map(|_| via(r)).collect();
    let text = format!("CANCEL sip:b@b SIP/2.0\r\n{}From: <sip:a@a>;tag=1\r\nTo: <sip:b@b>\r\nCall-ID: x\r\nCSeq: 7 CANCEL\r\nContent-Length: 0\r\n\r\n", lines(r, "Via", &vias));
    let c = request(&text);
    let Some(Ok(out)) = rec.guard("prepare_cancel", &|| text.clone(), || CancelForwarder::prepare_cancel(&c, "z9hG4bKasked")) else { return };
    let got = list(out.headers(), "Via");
    let ok = got.len() == 1 && host_of(&got[0]) == host_of(&vias[0]) && values(&got[0]).len() == 1 && sip_transaction::branch_from_via(&got[0]) == Some("z9hG4bKasked");
    rec.check(ok, "cancel", || format!("Vias {got:?} from\n{text}"));
    rec.eval(Some(&(due, vias)));
}

fn groups(r: &mut Rng, rec: &mut Rec) {
    let qs: Vec<f32> = (0..r.below(8)).map(|_| *r.pick(&[0.0f32, 0.1, 0.25, 0.5, 0.5, 1.0, 7.0, -3.0, f32::NAN])).collect();
    let ts: Vec<Target> = qs.iter().enumerate().map(|(i, q)| {
        let t = Target::new(SipUri::parse(&format!("sip:t{i}@h")).unwrap());
        if q.is_nan() { Target { q_value: f32::NAN, ..t } } else { t.with_q_value(*q) }
    }).collect();
    let q = |i: usize| if qs[i].is_nan() { 0 } else { (qs[i].clamp(0.0, 1.0) * 100.0).round() as i64 };
    let Some(got) = rec.guard("group", &|| format!("{qs:?}"), || group_by_q_value(ts)) else { return };
    let got: Vec<Vec<usize>> = got.iter().map(|g| g.iter().map(|t| t.uri.user().unwrap()[1..].parse().unwrap()).collect()).collect();
    let levels: BTreeSet<i64> = (0..qs.len()).map(q).collect();
    let want: Vec<Vec<usize>> = levels.iter().rev().map(|l| (0..qs.len()).filter(|i| q(*i) == *l).collect()).collect();
    rec.check(got == want, "groups", || format!("{qs:?} gave {got:?}"));
    rec.eval(Some(&want));
}

fn hostile(r: &mut Rng, rec: &mut Rec) {
    let rs = vec![route(r, true), route(r, false)];
    let mut bytes = msg(r, "INVITE", &rs).text.into_bytes();
    for _ in 0..r.below(4) {
        let at = r.below(bytes.len());
        let junk = r.nasty(0, 8).into_bytes();
        bytes.splice(at..at, junk);
    }
    r.mutate(&mut bytes, 6);
    let text = String::from_utf8_lossy(&bytes).into_owned();
    let Some(req) = sip_parse::parse_request(&bytes::Bytes::from(bytes)) else {
        rec.eval::<str>(None);
        return;
    };
    let t = SipUri::parse("sip:t@t").unwrap();
    rec.guard("hostile", &|| text.clone(), || {
        let _ = forwarding::prepare_forward(&req, &t, "p", "UDP", true, Some(&t));
        let _ = ProxyHelpers::detect_loop(&req, "p");
        let _ = ProxyHelpers::detect_loop_hashed(&req, "[::1]");
        let _ = RouteProcessor::get_next_hop(&req);
        for f in [true, false] {
            let mut q = req.clone();
            ProxyHelpers::recover_strict_routed_request_uri(&mut q, |_| f);
            ProxyHelpers::apply_strict_routing_swap(&mut q);
            ProxyHelpers::add_via_with_loop_detection(&mut q, "p", "UDP");
            ProxyHelpers::remove_top_via(q.headers_mut());
        }
        let _ = AckForwarder::prepare_ack(&req, AckType::For2xx);
        let _ = AckForwarder::has_sdp(&req);
        let _ = CancelForwarder::prepare_cancel(&req, "z9hG4bKx");
        let _ = CancelForwarder::matches_invite(&req, &req);
        let svc = sip_proxy::service::ProxyService::new();
        let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
        let _ = rt.block_on(svc.start_forking(req.clone(), vec![sip_proxy::stateful::ProxyTarget::new(t.clone())], "p", "UDP", true, None, sip_proxy::stateful::ForkMode::Parallel)).map(|x| x.2);
    });
    rec.eval(Some(&req.headers().iter().map(|h| h.name().to_string()).collect::<Vec<_>>()));
}

fn main() {
    let mut ctx = Ctx::new("P02", "a proxy changes on what it forwards what RFC 3261 16 has it change, and nothing else");
    let n = ctx.n(60_000, 1_500_000);
    ctx.run("forward", n, forward);
    ctx.run("loops", n / 2, loops);
    ctx.run("top-via", n / 2, top_via);
    ctx.run("routes", n, routes);
    ctx.run("cancels", n, cancels);
    ctx.run("groups", n, groups);
    ctx.run("hostile", n, hostile);
    ctx.assume("strict-route rewriting is given one Route value per line, as its documentation asks");
    ctx.finish();
}
