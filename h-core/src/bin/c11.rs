//! C11: every documented size limit holds exactly: what fits is taken, what
//! does not is refused and leaves what was there unchanged.
use bytes::Bytes;
use h_core::*;
use sip_core::*;
use smol_str::SmolStr;
use std::collections::BTreeMap;
use std::str::FromStr;

/// `n` letters
fn w(r: &mut Rng, n: usize) -> String {
    r.lower(n, n)
}
/// Adds distinct members one by one; how many were taken before a refusal.
/// Once one is refused the structure must not grow any more.
fn fill<T: PartialEq + Clone + std::fmt::Debug>(x: &mut T, n: usize, mut add: impl FnMut(&mut T, usize) -> bool) -> bool {
    for i in 0..n {
        let before = x.clone();
        if !add(x, i) {
            if *x != before {
                panic!("a refused addition changed {before:?} to {x:?}");
            }
            return false;
        }
    }
    true
}
type Probe = Box<dyn Fn(&mut Rng, usize) -> bool + Sync + Send>;
struct Limit {
    what: &'static str,
    max: usize,
    probe: Probe,
}
fn uri() -> Uri {
    Uri::parse("sip:alice@example.com").unwrap()
}
fn params(r: &mut Rng, n: usize) -> BTreeMap<SmolStr, Option<SmolStr>> {
    (0..n).map(|i| (SmolStr::new(format!("p{i}")), if r.coin() { None } else { Some(SmolStr::new(w(r, 3))) })).collect()
}
fn list(r: &mut Rng, n: usize, sep: &str, mut f: impl FnMut(&mut Rng, usize) -> String) -> String {
    (0..n).map(|i| f(r, i)).collect::<Vec<_>>().join(sep)
}

fn limits() -> Vec<Limit> {
    let mut v: Vec<Limit> = vec![];
    macro_rules! lim {
        ($what:expr, $max:expr, $f:expr) => {
            v.push(Limit { what: $what, max: $max, probe: Box::new($f) })
        };
    }
    // --- header collections and messages
    lim!("header name", 128, |r, n| Headers::new().push(w(r, n).as_str(), "x").is_ok());
    lim!("header value", 8192, |r, n| Headers::new().push("X", w(r, n).as_str()).is_ok());
    lim!("single header value", 8192, |r, n| Header::new("X", w(r, n).as_str()).is_ok());
    lim!("set header value", 8192, |r, n| { let mut h = Headers::new(); h.push("X", "a").unwrap(); h.set_or_push("X", w(r, n).as_str()).is_ok() });
    lim!("headers", 200, |r, n| { let v = w(r, 2); fill(&mut Headers::new(), n, |h, i| h.push(format!("X-{i}").as_str(), v.as_str()).is_ok()) });
    lim!("headers from a list", 200, |r, n| { let v = w(r, 2); Headers::from_vec((0..n).map(|i| Header::new(format!("X-{i}"), &v).unwrap()).collect()).is_ok() });
    lim!("reason phrase", 256, |r, n| StatusLine::new(200, w(r, n)).is_ok());
    lim!("request body", 10 * 1024 * 1024, |_r, n| Request::new(RequestLine::new(Method::Invite, uri()), Headers::new(), Bytes::from(vec![b'x'; n])).is_ok());
    lim!("response body", 10 * 1024 * 1024, |_r, n| Response::new(StatusLine::new(200, "OK").unwrap(), Headers::new(), Bytes::from(vec![b'x'; n])).is_ok());
    lim!("set request body", 10 * 1024 * 1024, |_r, n| { let mut q = Request::new(RequestLine::new(Method::Invite, uri()), Headers::new(), Bytes::new()).unwrap(); let ok = q.set_body(Bytes::from(vec![b'x'; n])).is_ok(); assert!(q.body().len() == if ok { n } else { 0 }); ok });
    lim!("set response body", 10 * 1024 * 1024, |_r, n| { let mut q = Response::new(StatusLine::new(200, "OK").unwrap(), Headers::new(), Bytes::new()).unwrap(); let ok = q.set_body(Bytes::from(vec![b'x'; n])).is_ok(); assert!(q.body().len() == if ok { n } else { 0 }); ok });
    lim!("method token", 32, |r, n| Method::from_token(&w(r, n).to_uppercase()).is_ok());
    // --- URIs
    lim!("URI user", 256, |r, n| if r.coin() { SipUri::new("h").unwrap().with_user(w(r, n)).is_ok() } else { SipUri::parse(&format!("sip:{}@h", w(r, n))).is_ok() });
    lim!("URI parameter name", 64, |r, n| if r.coin() { SipUri::new("h").unwrap().with_param(w(r, n), Some("v")).is_ok() } else { SipUri::parse(&format!("sip:a@h;{}=1", w(r, n))).is_ok() });
    lim!("URI parameter value", 256, |r, n| if r.coin() { SipUri::new("h").unwrap().with_param("p", Some(w(r, n))).is_ok() } else { SipUri::parse(&format!("sip:a@h;p={}", w(r, n))).is_ok() });
    lim!("URI parameters", 50, |r, n| if r.coin() { let mut u = SipUri::new("h").unwrap(); (0..n).all(|i| match u.clone().with_param(format!("p{i}"), Some("v")) { Ok(x) => { u = x; true } Err(_) => false }) } else { SipUri::parse(&format!("sip:a@h{}", list(r, n, "", |_, i| format!(";p{i}")))).is_ok() });
    lim!("URI header name", 64, |r, n| SipUri::parse(&format!("sip:a@h?{}=1", w(r, n))).is_ok());
    lim!("URI header value", 512, |r, n| SipUri::parse(&format!("sip:a@h?x={}", w(r, n))).is_ok());
    lim!("URI headers", 50, |r, n| SipUri::parse(&format!("sip:a@h?{}", list(r, n, "&", |_, i| format!("h{i}=1")))).is_ok());
    lim!("URI length", 2048, |r, n| { let mut s = "sip:a@h".to_string(); let mut i = 0; while s.len() + 210 < n { s.push_str(&format!(";p{i}={}", w(r, 190))); i += 1; } let k = n - s.len() - 3; s.push_str(&format!(";z={}", w(r, k))); assert_eq!(s.len(), n); SipUri::parse(&s).is_ok() });
    lim!("absolute URI length", 2048, |r, n| Uri::parse(&format!("http:{}", w(r, n - 5))).is_ok());
    lim!("telephone number", 64, |r, n| { let d = r.string("0123456789", n, n); if r.coin() { TelUri::new(format!("+{}", &d[1..]), true).is_ok() } else { TelUri::parse(&format!("tel:+{}", &d[1..])).is_ok() } });
    lim!("telephone parameters", 20, |_r, n| { let mut u = TelUri::parse("tel:+1234").unwrap(); (0..n).all(|i| match u.clone().with_parameter(format!("p{i}"), Some("v")) { Ok(x) => { u = x; true } Err(_) => false }) });
    lim!("read telephone parameters", 20, |r, n| TelUri::parse(&format!("tel:+1234{}", list(r, n, "", |_, i| format!(";p{i}=v")))).is_ok());
    lim!("telephone parameter name", 32, |r, n| if r.coin() { TelUri::parse("tel:+1").unwrap().with_parameter(w(r, n), Some("v")).is_ok() } else { TelUri::parse(&format!("tel:+1;{}=v", w(r, n))).is_ok() });
    lim!("telephone parameter value", 128, |r, n| if r.coin() { TelUri::parse("tel:+1").unwrap().with_parameter("x", Some(w(r, n))).is_ok() } else { TelUri::parse(&format!("tel:+1;x={}", w(r, n))).is_ok() });
    // --- addresses and routes
    lim!("display name", NameAddr::MAX_DISPLAY_NAME_LEN, |r, n| NameAddr::new(Some(w(r, n).into()), uri(), BTreeMap::new()).is_ok());
    lim!("address parameters", NameAddr::MAX_PARAM_COUNT, |r, n| if r.coin() { NameAddr::new(None, uri(), params(r, n)).is_ok() } else { fill(&mut NameAddr::from_uri(uri()), n, |x, i| x.insert_param(format!("p{i}").into(), None).is_ok()) });
    lim!("address parameter name", NameAddr::MAX_PARAM_NAME_LEN, |r, n| NameAddr::from_uri(uri()).insert_param(w(r, n).into(), None).is_ok());
    lim!("address parameter value", NameAddr::MAX_PARAM_VALUE_LEN, |r, n| NameAddr::from_uri(uri()).insert_param("x".into(), Some(w(r, n).into())).is_ok());
    lim!("read contact parameters", NameAddr::MAX_PARAM_COUNT, |r, n| sip_parse::parse_contact_header(&SmolStr::new(format!("<sip:a@b>{}", list(r, n, "", |_, i| format!(";p{i}=v"))))).is_some());
    lim!("route list entries", 50, |r, n| { let us = vec![uri(); n]; let na = vec![NameAddr::from_uri(uri()); n]; match r.below(5) { 0 => PathHeader::from_uris(us).is_ok(), 1 => ServiceRouteHeader::from_uris(us).is_ok(), 2 => PathHeader::new(na).is_ok(), 3 => ServiceRouteHeader::new(na).is_ok(), _ => { let mut h = Headers::new(); h.push("Path", list(r, n, ",", |_, i| format!("<sip:p{i}@h>")).as_str()).unwrap(); sip_parse::parse_path(&h).is_ok() } } });
    lim!("added route list entries", 50, |r, n| if r.coin() { let mut p = PathHeader::from_uris(vec![uri()]).unwrap(); fill(&mut p, n - 1, |p, _| p.add_route(uri()).is_ok()) } else { let mut p = ServiceRouteHeader::from_uris(vec![uri()]).unwrap(); fill(&mut p, n - 1, |p, _| p.add_route(uri()).is_ok()) });
    lim!("route text", 2048, |r, n| { let mut s = "<sip:a@h;lr>".to_string(); let mut i = 0; while s.len() + 210 < n { s.push_str(&format!(";p{i}={}", w(r, 190))); i += 1; } let k = n - s.len() - 3; s.push_str(&format!(";z={}", w(r, k))); RouteHeader::parse(&s).is_ok() });
    lim!("Via parameters", 20, |r, n| if r.coin() { fill(&mut ViaHeader::new("UDP", "h").unwrap(), n, |x, i| x.add_param(format!("p{i}"), Some("v")).is_ok()) } else { ViaHeader::parse(&format!("SIP/2.0/UDP h{}", list(r, n, "", |_, i| format!(";p{i}=v")))).is_ok() });
    lim!("set Via parameters", 20, |_r, n| fill(&mut ViaHeader::new("UDP", "h").unwrap(), n, |x, i| x.set_param(format!("p{i}"), Some("v")).is_ok()));
    lim!("Via parameter name", 64, |r, n| { let mut v = ViaHeader::new("UDP", "h").unwrap(); let p = w(r, n); match r.below(3) { 0 => v.add_param(p, None::<&str>).is_ok(), 1 => v.set_param(p, None::<&str>).is_ok(), _ => v.with_param(p, None::<&str>).is_ok() } });
    lim!("Via parameter value", 256, |r, n| { let mut v = ViaHeader::new("UDP", "h").unwrap(); let p = w(r, n); match r.below(3) { 0 => v.add_param("x", Some(p)).is_ok(), 1 => v.set_param("x", Some(p)).is_ok(), _ => v.with_param("x", Some(p)).is_ok() } });
    lim!("Via transport", 32, |r, n| ViaHeader::new(w(r, n), "h").is_ok());
    lim!("history entries", 50, |r, n| { let es = vec![HistoryInfoEntry::new(uri()); n]; match r.below(3) { 0 => HistoryInfoHeader::new(es).is_ok(), 1 => { let mut h = HistoryInfoHeader::single(es[0].clone()); fill(&mut h, n - 1, |h, _| h.push(es[0].clone()).is_ok()) } _ => { let mut h = Headers::new(); h.push("History-Info", list(r, n, ",", |_, i| format!("<sip:p{i}@h>;index={}", i + 1)).as_str()).unwrap(); sip_parse::parse_history_info(&h).is_ok() } } });
    lim!("history parameters", 20, |_r, n| fill(&mut HistoryInfoEntry::new(uri()), n, |h, i| h.add_param(&format!("p{i}"), None).is_ok()));
    lim!("history parameter name", 64, |r, n| HistoryInfoEntry::new(uri()).with_param(&w(r, n), None).is_ok());
    lim!("history parameter value", 256, |r, n| HistoryInfoEntry::new(uri()).with_param("x", Some(&w(r, n))).is_ok());
    lim!("identities", 10, |r, n| { let v = vec![PIdentity::from_uri(uri()); n]; let t = list(r, n, ", ", |_, i| format!("<sip:u{i}@h>")); match r.below(4) { 0 => PAssertedIdentityHeader::new(v).is_ok(), 1 => PPreferredIdentityHeader::new(v).is_ok(), k => { let mut h = Headers::new(); h.push(if k == 2 { "P-Asserted-Identity" } else { "P-Preferred-Identity" }, t.as_str()).unwrap(); if k == 2 { matches!(sip_parse::parse_p_asserted_identity(&h), Ok(Some(_))) } else { matches!(sip_parse::parse_p_preferred_identity(&h), Ok(Some(_))) } } } });
    lim!("identity display name", 256, |r, n| PIdentity::from_uri(uri()).with_display_name(w(r, n)).is_ok());
    lim!("identity parameters", 20, |_r, n| fill(&mut PIdentity::from_uri(uri()), n, |p, i| p.add_param(format!("p{i}"), None::<&str>).is_ok()));
    lim!("identity parameter name", 64, |r, n| PIdentity::from_uri(uri()).with_param(w(r, n), None::<&str>).is_ok());
    lim!("identity parameter value", 256, |r, n| PIdentity::from_uri(uri()).with_param("x", Some(w(r, n))).is_ok());
    lim!("access type", 64, |r, n| PAccessNetworkInfo::new(w(r, n)).is_ok());
    lim!("access parameters", 20, |_r, n| fill(&mut PAccessNetworkInfo::new("IEEE-802.11").unwrap(), n, |p, i| p.add_param(format!("p{i}"), None::<&str>).is_ok()));
    lim!("visited networks", 20, |r, n| PVisitedNetworkIdHeader::new((0..n).map(|_| w(r, 4)).collect::<Vec<_>>()).is_ok());
    lim!("visited network", 256, |r, n| PVisitedNetworkIdHeader::new(vec![w(r, n)]).is_ok());
    lim!("referred-by cid", 256, |r, n| ReferredByHeader::new("sip:a@b").unwrap().with_cid(format!("{}@h", w(r, n - 2))).is_ok());
    lim!("referred-by parameters", 20, |_r, n| fill(&mut ReferredByHeader::new("sip:a@b").unwrap(), n, |p, i| p.add_param(format!("p{i}"), "v").is_ok()));
    lim!("referred-by parameter name", 64, |r, n| ReferredByHeader::new("sip:a@b").unwrap().with_param(w(r, n), "v").is_ok());
    lim!("referred-by parameter value", 256, |r, n| ReferredByHeader::new("sip:a@b").unwrap().with_param("x", w(r, n)).is_ok());
    // --- structured values
    lim!("reason parameters", 20, |r, n| if r.coin() { ReasonHeader::new("SIP", params(r, n)).is_ok() } else { reason::parse_reason_from_string(&format!("SIP{}", list(r, n, "", |_, i| format!(";p{i}=v")))).is_ok() });
    lim!("reason protocol", 32, |r, n| ReasonHeader::new(w(r, n), BTreeMap::new()).is_ok());
    lim!("reason parameter name", 64, |r, n| ReasonHeader::new("SIP", BTreeMap::from([(w(r, n).into(), None)])).is_ok());
    lim!("reason parameter value", 256, |r, n| ReasonHeader::new("SIP", BTreeMap::from([("x".into(), Some(w(r, n).into()))])).is_ok());
    lim!("reason text", 1024, |r, n| reason::parse_reason_from_string(&{ let mut s = "SIP".to_string(); let mut i = 0; while s.len() + 210 < n { s.push_str(&format!(";p{i}={}", w(r, 190))); i += 1; } let k = n - s.len() - 3; s.push_str(&format!(";z={}", w(r, k))); s }).is_ok());
    lim!("security entries", 10, |r, n| { let es: Vec<_> = vec![SecurityEntry::new(SecurityMechanism::parse("tls").unwrap()); n]; let t = vec!["tls"; n].join(", "); match r.below(6) { 0 => SecurityClientHeader::new(es).is_ok(), 1 => SecurityServerHeader::new(es).is_ok(), 2 => SecurityVerifyHeader::new(es).is_ok(), 3 => security::parse_security_client(&t).is_ok(), 4 => security::parse_security_server(&t).is_ok(), _ => security::parse_security_verify(&t).is_ok() } });
    lim!("security mechanism", 64, |r, n| SecurityMechanism::parse(&w(r, n)).is_ok());
    lim!("security parameters", 20, |_r, n| fill(&mut SecurityEntry::new(SecurityMechanism::parse("tls").unwrap()), n, |s, i| s.set_param(&format!("p{i}"), Some("v")).is_ok()));
    lim!("security parameter name", 64, |r, n| SecurityEntry::new(SecurityMechanism::parse("tls").unwrap()).set_param(&w(r, n), None).is_ok());
    lim!("security parameter value", 256, |r, n| SecurityEntry::new(SecurityMechanism::parse("tls").unwrap()).set_param("x", Some(&w(r, n))).is_ok());
    lim!("Replaces call", 256, |r, n| ReplacesHeader::new(w(r, n), "a", "b").is_ok());
    lim!("Replaces tag", 128, |r, n| if r.coin() { ReplacesHeader::new("a", w(r, n), "b").is_ok() } else { ReplacesHeader::new("a", "b", w(r, n)).is_ok() });
    lim!("authorization parameters", 30, |r, n| match r.below(3) { 0 => AuthorizationHeader::from_raw("Digest".into(), (0..n).map(|i| (format!("p{i}").into(), "v".into())).collect()).is_ok(), 1 => fill(&mut AuthorizationHeader::new("Digest").unwrap(), n, |a, i| a.add_param(format!("p{i}"), "v").is_ok()), _ => fill(&mut AuthorizationHeader::new("Digest").unwrap(), n, |a, i| a.add_param_overwrite(format!("p{i}"), "v").is_ok()) });
    lim!("authorization scheme", 64, |r, n| AuthorizationHeader::new(w(r, n)).is_ok());
    lim!("authorization parameter name", 64, |r, n| AuthorizationHeader::new("Digest").unwrap().add_param(w(r, n), "v").is_ok());
    lim!("authorization parameter value", 256, |r, n| AuthorizationHeader::new("Digest").unwrap().add_param("x", w(r, n)).is_ok());
    lim!("tokens", 50, |r, n| { let ts: Vec<String> = (0..n).map(|i| format!("t{i}")).collect(); match r.below(3) { 0 => TokenList::from_tokens(&ts).is_ok(), 1 => TokenList::parse(&ts.join(", ")).is_ok(), _ => fill(&mut TokenList::new(), n, |t, i| t.add_token(&ts[i]).is_ok()) } });
    lim!("token", 64, |r, n| if r.coin() { TokenList::new().with_token(&w(r, n)).is_ok() } else { TokenList::parse(&w(r, n)).is_ok() });
    lim!("priorities", 10, |r, n| if r.coin() { ResourcePriorityHeader::parse(&list(r, n, ",", |_, i| format!("q735.{i}"))).is_ok() } else { fill(&mut ResourcePriorityHeader::new(), n, |h, i| h.add_value(ResourcePriorityValue::new("q735", i.to_string()).unwrap()).is_ok()) });
    lim!("priority namespace", 64, |r, n| ResourcePriorityValue::new(w(r, n), "0").is_ok());
    lim!("priority value", 64, |r, n| ResourcePriorityValue::new("q735", w(r, n)).is_ok());
    lim!("Priority", 32, |r, n| PriorityValue::parse(&w(r, n)).is_ok());
    lim!("event package", 64, |r, n| EventHeader::new(&w(r, n)).is_ok());
    lim!("event id", 256, |r, n| EventHeader::new("presence").unwrap().with_id(&w(r, n)).is_ok());
    lim!("event parameters", 20, |_r, n| fill(&mut EventHeader::new("presence").unwrap(), n, |e, i| e.add_param(&format!("p{i}"), None).is_ok()));
    lim!("event parameter name", 64, |r, n| EventHeader::new("presence").unwrap().with_param(&w(r, n), None).is_ok());
    lim!("event parameter value", 256, |r, n| EventHeader::new("presence").unwrap().with_param("x", Some(&w(r, n))).is_ok());
    lim!("subscription state", 32, |r, n| SubscriptionState::parse(&w(r, n)).is_ok());
    lim!("subscription parameters", 20, |_r, n| fill(&mut SubscriptionStateHeader::new(SubscriptionState::Active), n, |e, i| e.add_param(&format!("p{i}"), None).is_ok()));
    lim!("subject", 256, |r, n| if r.coin() { SubjectHeader::new(&w(r, n)).is_ok() } else { SubjectHeader::parse(&w(r, n)).is_ok() });
    lim!("media type", 64, |r, n| if r.coin() { MimeType::new(w(r, n), "x").is_ok() } else { MimeType::from_str(&format!("{}/x", w(r, n))).is_ok() });
    lim!("media subtype", 64, |r, n| if r.coin() { MimeType::new("x", w(r, n)).is_ok() } else { MimeType::from_str(&format!("x/{}", w(r, n))).is_ok() });
    lim!("media parameters", 20, |r, n| if r.coin() { fill(&mut MimeType::new("a", "b").unwrap(), n, |e, i| e.add_param(format!("p{i}"), "v").is_ok()) } else { MimeType::from_str(&format!("a/b{}", list(r, n, "", |_, i| format!(";p{i}=v")))).is_ok() });
    lim!("media parameter name", 64, |r, n| MimeType::new("a", "b").unwrap().with_param(w(r, n), "v").is_ok());
    lim!("media parameter value", 256, |r, n| MimeType::new("a", "b").unwrap().with_param("x", w(r, n)).is_ok());
    lim!("entity tag", 128, |r, n| match r.below(4) { 0 => SipETagHeader::new(&w(r, n)).is_ok(), 1 => SipETagHeader::parse(&w(r, n)).is_ok(), 2 => SipIfMatchHeader::new(&w(r, n)).is_ok(), _ => SipIfMatchHeader::parse(&w(r, n)).is_ok() });
    lim!("fragment body", 65536, |_r, n| { let mut h = Headers::new(); h.push("Content-Type", "text/plain").unwrap(); h.push("Content-Length", n.to_string().as_str()).unwrap(); let mut f = sipfrag::SipFrag::headers_only(h); let ok = f.set_body(vec![b'x'; n]).is_ok(); ok });
    lim!("geolocation values", 10, |r, n| if r.coin() { GeolocationHeader::new(vec![GeolocationValue::new(uri()); n]).is_ok() } else { let mut h = Headers::new(); h.push("Geolocation", list(r, n, ",", |_, i| format!("<sip:p{i}@h>")).as_str()).unwrap(); sip_parse::parse_geolocation_header(&h).is_ok() });
    lim!("geolocation parameters", 20, |_r, n| fill(&mut GeolocationValue::new(uri()), n, |e, i| e.add_param(&format!("p{i}"), None).is_ok()));
    lim!("geolocation parameter name", 64, |r, n| GeolocationValue::new(uri()).with_param(&w(r, n), None).is_ok());
    lim!("geolocation parameter value", 256, |r, n| GeolocationValue::new(uri()).with_param("x", Some(&w(r, n))).is_ok());
    lim!("geolocation error parameters", 20, |_r, n| fill(&mut GeolocationErrorHeader::new(), n, |e, i| e.add_param(&format!("p{i}"), None).is_ok()));
    lim!("geolocation routing parameters", 20, |_r, n| fill(&mut GeolocationRoutingHeader::new(), n, |e, i| e.add_param(&format!("p{i}"), None).is_ok()));
    lim!("geolocation error description", 512, |r, n| GeolocationErrorHeader::new().with_description(&w(r, n)).is_ok());
    lim!("privacy text", 256, |r, n| { let mut s = "id;user".to_string(); while s.len() < n { s.push(' '); } let _ = r; PrivacyHeader::parse(&s).is_ok() });
    // --- capabilities and preferences
    lim!("capability token", 64, |r, n| FeatureValue::new_token(w(r, n)).is_ok());
    lim!("capability string", 256, |r, n| FeatureValue::new_string(w(r, n)).is_ok());
    lim!("capability token list", 20, |_r, n| FeatureValue::new_token_list((0..n).map(|i| format!("t{i}").into()).collect()).is_ok());
    // --- bodies
    lim!("CPIM header name", 128, |r, n| cpim::CpimMessage::new("text/plain", vec![]).unwrap().add_header(&w(r, n), "v").is_ok());
    lim!("CPIM header value", 1024, |r, n| cpim::CpimMessage::new("text/plain", vec![]).unwrap().add_header("X", &w(r, n)).is_ok());
    lim!("CPIM headers", 50, |r, n| if r.coin() { fill(&mut cpim::CpimMessage::new("text/plain", vec![]).unwrap(), n, |c, i| c.add_header(if i % 3 == 0 { "X" } else { "Y" }, "v").is_ok()) } else { cpim::parse_cpim(&format!("Content-type: Message/CPIM\r\n\r\n{}\r\nContent-type: text/plain\r\n\r\nx", list(r, n, "", |_, i| format!("X{i}: v\r\n")))).is_ok() });
    lim!("CPIM content headers", 20, |r, n| if r.coin() { fill(&mut cpim::CpimMessage::new("text/plain", vec![]).unwrap(), n, |c, i| c.add_content_header(&format!("X{i}"), "v").is_ok()) } else { cpim::parse_cpim(&format!("Content-type: Message/CPIM\r\n\r\nX: v\r\n\r\n{}\r\nx", list(r, n, "", |_, i| format!("X{i}: v\r\n")))).is_ok() });
    lim!("CPIM parameters", 10, |r, n| if r.coin() { let mut h = cpim::CpimHeader::new("v").unwrap(); (0..n).all(|i| match h.clone().with_param(&format!("p{i}"), "v") { Ok(x) => { h = x; true } Err(_) => false }) } else { cpim::parse_cpim(&format!("Content-type: Message/CPIM\r\n\r\nX:{} v\r\n\r\nContent-type: text/plain\r\n\r\nx", list(r, n, "", |_, i| format!(";p{i}=v")))).is_ok() });
    lim!("CPIM body", 10 * 1024 * 1024, |_r, n| cpim::CpimMessage::new("text/plain", vec![b'x'; n]).is_ok());
    lim!("CPIM content type", 256, |r, n| cpim::CpimMessage::new(&format!("text/{}", w(r, n - 5)), vec![]).is_ok());
    lim!("summary account", 512, |r, n| MessageSummary::new(true).set_account(w(r, n)).is_ok());
    lim!("summary header value", 1024, |r, n| message_waiting::MessageHeader::new().with_subject(w(r, n)).is_ok());
    lim!("summary messages", 50, |_r, n| fill(&mut MessageSummary::new(true), n, |m, _| m.add_message_header(message_waiting::MessageHeader::new().with_to("a").unwrap()).is_ok()));
    lim!("presence entity", 512, |r, n| PresenceDocument::new(w(r, n)).is_ok());
    lim!("presence tuples", 50, |r, n| if r.coin() { fill(&mut PresenceDocument::new("e").unwrap(), n, |d, i| d.add_tuple(Tuple::new(format!("t{i}")).unwrap()).is_ok()) } else { presence::parse_pidf(&format!("<presence entity=\"e\">{}</presence>", list(r, n, "", |_, i| format!("<tuple id=\"t{i}\"></tuple>")))).is_ok() });
    lim!("presence notes", 20, |r, n| if r.coin() { fill(&mut PresenceDocument::new("e").unwrap(), n, |d, _| d.add_note("n").is_ok()) } else { presence::parse_pidf(&format!("<presence entity=\"e\">{}</presence>", "<note>n</note>".repeat(n))).is_ok() });
    lim!("tuple notes", 10, |_r, n| { let mut t = Tuple::new("t").unwrap(); (0..n).all(|_| match t.clone().with_note("n") { Ok(x) => { t = x; true } Err(_) => false }) });
    lim!("tuple id", 128, |r, n| Tuple::new(w(r, n)).is_ok());
    lim!("tuple contact", 512, |r, n| Tuple::new("t").unwrap().with_contact(w(r, n)).is_ok());
    lim!("tuple note", 512, |r, n| Tuple::new("t").unwrap().with_note(w(r, n)).is_ok());
    lim!("tuple timestamp", 64, |r, n| Tuple::new("t").unwrap().with_timestamp(w(r, n)).is_ok());
    lim!("watcher lists", 100, |_r, n| { let l = watcher_info::WatcherList::new("sip:a@b", "presence").unwrap(); fill(&mut watcher_info::WatcherinfoDocument::new(0, "full").unwrap(), n, |d, _| d.add_watcher_list(l.clone()).is_ok()) });
    lim!("watchers", 1000, |_r, n| { let x = watcher_info::Watcher::new("i", watcher_info::WatcherStatus::Active, watcher_info::WatcherEvent::Subscribe).unwrap(); let mut d = watcher_info::WatcherList::new("sip:a@b", "presence").unwrap(); (0..n).all(|_| d.add_watcher(x.clone()).is_ok()) });
    lim!("watcher id", 128, |r, n| watcher_info::Watcher::new(w(r, n), watcher_info::WatcherStatus::Active, watcher_info::WatcherEvent::Subscribe).is_ok());
    lim!("watcher display name", 256, |r, n| watcher_info::Watcher::new("i", watcher_info::WatcherStatus::Active, watcher_info::WatcherEvent::Subscribe).unwrap().with_display_name(w(r, n)).is_ok());
    lim!("watched package", 64, |r, n| watcher_info::WatcherList::new("sip:a@b", w(r, n)).is_ok());
    lim!("registrations", 100, |_r, n| fill(&mut reg_event::RegInfo::new(0, reg_event::RegInfoState::Full), n, |d, i| d.add_registration(reg_event::Registration::new("sip:a@b", format!("r{i}"), reg_event::RegistrationState::Active).unwrap()).is_ok()));
    lim!("registered contacts", 50, |_r, n| fill(&mut reg_event::Registration::new("sip:a@b", "r", reg_event::RegistrationState::Active).unwrap(), n, |d, i| d.add_contact(reg_event::Contact::new(format!("c{i}"), reg_event::ContactState::Active, "sip:a@b").unwrap()).is_ok()));
    lim!("registered address", 512, |r, n| if r.coin() { reg_event::Registration::new(w(r, n), "r", reg_event::RegistrationState::Active).is_ok() } else { reg_event::Contact::new("c", reg_event::ContactState::Active, w(r, n)).is_ok() });
    lim!("registered id", 128, |r, n| if r.coin() { reg_event::Registration::new("sip:a", w(r, n), reg_event::RegistrationState::Active).is_ok() } else { reg_event::Contact::new(w(r, n), reg_event::ContactState::Active, "sip:a").is_ok() });
    lim!("registered display name", 256, |r, n| reg_event::Contact::new("c", reg_event::ContactState::Active, "sip:a").unwrap().with_display_name(w(r, n)).is_ok());
    lim!("registered call", 256, |r, n| reg_event::Contact::new("c", reg_event::ContactState::Active, "sip:a").unwrap().with_call_id(w(r, n)).is_ok());
    v
}

fn main() {
    let mut ctx = Ctx::new("C11", "Each case picks one of the size limits of the message library (headers, bodies, URIs, parameters, list entries, text lengths, documents), builds or reads a structure of a size at, just below, just above or far from the limit with random letters, by a random one of the ways the library offers, and demands acceptance exactly up to the limit; a refused addition must leave the structure as it was. Distinct keys are (limit, side).");
    ctx.assume("the limits are those the library states now");
    let ls = limits();
    let n = ctx.n(60_000, 1_500_000);
    ctx.run("limits", n, |r, rec| {
        let l = r.pick(&ls);
        if l.max >= 1 << 20 && !r.chance(1, 40) {
            return;
        }
        let n = match r.below(7) {
            0 | 1 => l.max,
            2 | 3 => l.max + 1,
            4 => l.max - 1,
            5 => l.max + 1 + r.below(l.max.min(2000)),
            _ => l.max - r.below(l.max / 2),
        };
        // the shortest some probes can build
        let n = n.max(1);
        let side = if n <= l.max { "fits" } else { "too big" };
        rec.eval(Some(&format!("{}:{side}", l.what)));
        rec.sample(|| format!("{} of size {n} (limit {})", l.what, l.max));
        let mut q = r.clone();
        if let Some(ok) = rec.guard("limit", &|| format!("{} of size {n}", l.what), || (l.probe)(&mut q, n)) {
            rec.check(ok == (n <= l.max), &l.what.replace(' ', "-").to_string(), || format!("{} of size {n} (limit {}) was {}", l.what, l.max, if ok { "accepted" } else { "refused" }));
        }
        let _ = r.u64();
    });
    ctx.finish();
}
