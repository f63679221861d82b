//! C06: the remaining typed header values keep their parts; numeric and token rules hold.
use h_core::*;
use sip_core::*;
use smol_str::SmolStr;
use std::collections::BTreeMap;
use std::str::FromStr;
use std::time::{Duration, UNIX_EPOCH};

type P = BTreeMap<String, Option<String>>;
fn case(r: &mut Rng, s: &str) -> String {
    match r.below(3) {
        0 => s.to_string(),
        1 => s.to_ascii_uppercase(),
        _ => s.chars().map(|c| if r.coin() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}
/// token parameters: (wire, model)
fn tok_params(r: &mut Rng, max: usize, avoid: &[&str]) -> (String, P) {
    let (mut w, mut p) = (String::new(), P::new());
    for _ in 0..r.below(max + 1) {
        let n = r.token(1, 8);
        let l = n.to_ascii_lowercase();
        if p.contains_key(&l) || avoid.contains(&l.as_str()) {
            continue;
        }
        if r.chance(3, 4) {
            let v = r.token(1, 8);
            w.push_str(&format!("{}{n}={v}", r.pick(&[";", "; ", " ;"])));
            p.insert(l, Some(v));
        } else {
            w.push_str(&format!(";{n}"));
            p.insert(l, None);
        }
    }
    (w, p)
}
fn own<'a>(it: impl Iterator<Item = (&'a str, Option<&'a str>)>) -> P {
    it.map(|(k, v)| (k.to_string(), v.map(|s| s.to_string()))).collect()
}
fn edge_num(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => r.below(5) as u64,
        1 => r.pick(&[89u64, 90, 91, 1800, 2_147_483_647, 2_147_483_648, 4_294_967_295, 4_294_967_296, 86400, 7200, 255, 256, 65535, 65536, 70]).to_owned(),
        2 => r.u64(),
        _ => r.range(0, 100_000) as u64,
    }
}

/// As the standards name them.
#[rustfmt::skip]
const CAUSES: &[(u16, &str)] = &[
    (1, "Unallocated Number"), (2, "No Route to Transit Network"), (3, "No Route to Destination"), (16, "Normal Call Clearing"), (17, "User Busy"), (18, "No User Responding"), (19, "No Answer"), (20, "Subscriber Absent"), (21, "Call Rejected"), (22, "Number Changed"), (27, "Destination Out of Order"), (28, "Invalid Number Format"), (29, "Facility Rejected"), (31, "Normal Unspecified"), (34, "No Circuit Available"), (38, "Network Out of Order"), (41, "Temporary Failure"), (42, "Switching Equipment Congestion"), (47, "Resource Unavailable"), (55, "Incoming Calls Barred"), (57, "Bearer Capability Not Authorized"), (58, "Bearer Capability Not Available"), (63, "Service Not Available"), (65, "Bearer Capability Not Implemented"), (79, "Service Not Implemented"), (87, "User Not Member of CUG"), (88, "Incompatible Destination"), (102, "Recovery on Timer Expiry"), (111, "Protocol Error"), (127, "Interworking Unspecified"),
];
/// As the standards name them.
#[rustfmt::skip]
const PHRASES: &[(u16, &str)] = &[
    (100, "Trying"), (180, "Ringing"), (181, "Call Is Being Forwarded"), (182, "Queued"), (183, "Session Progress"), (200, "OK"), (202, "Accepted"), (300, "Multiple Choices"), (301, "Moved Permanently"), (302, "Moved Temporarily"), (305, "Use Proxy"), (380, "Alternative Service"), (400, "Bad Request"), (401, "Unauthorized"), (402, "Payment Required"), (403, "Forbidden"), (404, "Not Found"), (405, "Method Not Allowed"), (406, "Not Acceptable"), (407, "Proxy Authentication Required"), (408, "Request Timeout"), (410, "Gone"), (413, "Request Entity Too Large"), (414, "Request-URI Too Long"), (415, "Unsupported Media Type"), (416, "Unsupported URI Scheme"), (420, "Bad Extension"), (421, "Extension Required"), (423, "Interval Too Brief"), (480, "Temporarily Unavailable"), (481, "Call/Transaction Does Not Exist"), (482, "Loop Detected"), (483, "Too Many Hops"), (484, "Address Incomplete"), (485, "Ambiguous"), (486, "Busy Here"), (487, "Request Terminated"), (488, "Not Acceptable Here"), (491, "Request Pending"), (493, "Undecipherable"), (500, "Server Internal Error"), (501, "Not Implemented"), (502, "Bad Gateway"), (503, "Service Unavailable"), (504, "Server Time-out"), (505, "Version Not Supported"), (513, "Message Too Large"), (600, "Busy Everywhere"), (603, "Decline"), (604, "Does Not Exist Anywhere"), (606, "Not Acceptable"),
];
fn main() {
    let mut ctx = Ctx::new("C06", "typed header values generated with a component model in random spellings, printed and re-parsed; boundary numbers; hostile texts; distinct by header and text");
    let n = ctx.n(60_000, 3_000_000);
    ctx.run("numbers", n, |r, rec| {
        let v = edge_num(r);
        rec.eval(Some(&v));
        let s = v.to_string();
        let lim = 2_147_483_647u64;
        let x = RSeqHeader::parse(&s);
        rec.check(x.is_ok() == (v >= 1 && v <= lim), "rseq-range", || format!("RSeq {s}: {x:?}"));
        if let Ok(x) = &x {
            rec.check(x.sequence() as u64 == v && x.to_string() == s, "rseq", || format!("{s} {x:?}"));
            rec.check(x.next().ok().map(|n| n.sequence() as u64) == if v < lim { Some(v + 1) } else { None }, "rseq-next", || s.clone());
        }
        let c = edge_num(r);
        let m = gen_method(r);
        let w = format!("{s}{}{c}{}{m}", r.pick(&[" ", "  ", "\t"]), r.pick(&[" ", "   "]));
        let k = RAckHeader::parse(&w);
        let ok = v >= 1 && v <= lim && c >= 1 && c <= lim;
        if w.len() <= 128 {
            // CSeq 0 is legal in RFC 3261; either verdict is accepted for it
            if c != 0 {
                rec.check(k.is_ok() == ok, "rack-range", || format!("{w:?}: {k:?}"));
            }
            if let Ok(k) = &k {
                rec.check(k.rseq() as u64 == v && k.cseq_number() as u64 == c && k.cseq_method().as_str() == Method::from_token(&m).unwrap().as_str(), "rack", || format!("{w:?}: {k:?}"));
                rec.check(RAckHeader::parse(&k.to_string()).as_ref() == Ok(k), "rack-print", || w.clone());
            }
        }
        // Session-Expires / Min-SE
        let role = match r.below(3) {
            0 => None,
            1 => Some(RefresherRole::Uac),
            _ => Some(RefresherRole::Uas),
        };
        let mut w = s.clone();
        if r.chance(1, 4) {
            let look = ["refreshers", "xrefresher", "refresh", "ref"];
            w.push_str(&format!(";{}={}", if r.coin() { r.pick(&look).to_string() } else { r.lower(3, 6) }, r.pick(&["1", "uac", "uas"])));
        }
        if let Some(x) = role {
            w.push_str(&format!("{}{}{}{}", r.pick(&[";", "; ", " ; "]), case(r, "refresher"), r.pick(&["=", "=", " = "]), case(r, x.as_str())));
        }
        let e = SessionExpires::parse(&w);
        let max = SessionExpires::maximum() as u64;
        rec.check(e.is_some() == (v >= 90 && v <= max), "se-range", || format!("Session-Expires {w}: {e:?}"));
        if let Some(e) = &e {
            rec.check(e.is_valid() && role.map(|x| e.clone().with_refresher(x)).as_ref().unwrap_or(e) == e, "se-valid", || w.clone());
            rec.check(e.delta_seconds() as u64 == v && e.refresher() == role, "se", || format!("{w}: {e:?}"));
            rec.check(SessionExpires::parse(&e.to_string()).as_ref() == Some(e), "se-print", || w.clone());
            rec.check(sip_parse::parse_session_expires(&SmolStr::new(&w)).as_ref() == Some(e), "se-same", || w.clone());
        }
        if v <= u32::MAX as u64 {
            rec.check(SessionExpires::new(v as u32).is_ok() == (v >= 90 && v <= max), "se-new", || s.clone());
            rec.check(MinSessionExpires::new(v as u32).is_ok() == (v >= 90 && v <= MinSessionExpires::maximum() as u64), "minse-new", || s.clone());
        }
        let e = MinSessionExpires::parse(&s);
        rec.check(e.is_some() == (v >= 90 && v <= MinSessionExpires::maximum() as u64), "minse-range", || format!("Min-SE {s}: {e:?}"));
        if let Some(e) = &e {
            rec.check(e.delta_seconds() as u64 == v && e.to_string() == s && e.is_valid(), "minse", || s.clone());
            rec.check(sip_parse::parse_min_se(&SmolStr::new(&s)).as_ref() == Some(e), "minse-same", || s.clone());
        }
        // Max-Forwards
        let mut h = Headers::new();
        let _ = h.push("Via", "SIP/2.0/UDP a;branch=z9hG4bKx");
        let present = r.chance(4, 5);
        if present {
            h.push(case(r, "Max-Forwards").as_str(), s.as_str()).unwrap();
        }
        let _ = h.push("To", "<sip:a@b>");
        let before: Vec<(String, String)> = h.iter().map(|x| (x.name().to_string(), x.value().to_string())).collect();
        let d = max_forwards::decrement_max_forwards(&mut h);
        let after: Vec<(String, String)> = h.iter().map(|x| (x.name().to_string(), x.value().to_string())).collect();
        if !present {
            rec.check(d == Ok(69) && h.get("Max-Forwards") == Some("69"), "mf-missing", || format!("{d:?} {after:?}"));
        } else if v == 0 {
            rec.check(d == Err(max_forwards::MaxForwardsError::Exhausted) && after == before, "mf-zero", || format!("{d:?} {after:?}"));
        } else if v > 255 {
            rec.check(d == Err(max_forwards::MaxForwardsError::Invalid) && after == before, "mf-big", || format!("{s}: {d:?} {after:?}"));
        } else {
            let mut want = before.clone();
            want[1].1 = (v - 1).to_string();
            rec.check(d == Ok(v as u32 - 1) && after.iter().map(|x| &x.1).eq(want.iter().map(|x| &x.1)), "mf-dec", || format!("{s}: {d:?} {after:?}"));
        }
        let code = (v % 200) as u16;
        if let Some(q) = Q850Cause::from_code(code) {
            rec.check(q.code() == code, "q850", || format!("{code}"));
            let h = ReasonHeader::q850(q).unwrap();
            rec.check(h.as_q850_cause() == Some(q) && h.cause_code() == Some(code), "q850-header", || h.to_string());
            // a SIP status of the same number is not a Q.850 cause
            let other = ReasonHeader::sip(code, None).ok().and_then(|h| h.as_q850_cause());
            rec.check(other.is_none(), "q850-other", || format!("{code}"));
            let p: BTreeMap<SmolStr, Option<SmolStr>> = [(SmolStr::new("cause"), Some(SmolStr::new(code.to_string())))].into();
            let proto = r.pick(&["SDP", "sdp", "X", "Q.8500", "Q850"]);
            let h = ReasonHeader::new(proto, p.clone()).unwrap();
            rec.check(h.as_q850_cause().is_none() && !h.is_q850() && !h.is_sip() && h.cause_code() == Some(code), "q850-foreign", || h.to_string());
            let h = ReasonHeader::new(case(r, "q.850"), p).unwrap();
            rec.check(h.as_q850_cause() == Some(q) && h.protocol() == "Q.850", "q850-case", || h.to_string());
        }
        let named = CAUSES.iter().find(|c| c.0 == code).map(|c| c.1);
        let got = Q850Cause::from_code(code).map(|q| q.text());
        rec.check(named == got, "q850-name", || format!("{code} is {got:?}, not {named:?}"));
        let (code, phrase) = *r.pick(PHRASES);
        let h = ReasonHeader::sip(code, None);
        rec.check(h.as_ref().is_ok_and(|h| h.text().is_some_and(|t| t == phrase) && h.cause_code() == Some(code) && h.is_sip()), "sip-reason", || format!("{code} {phrase}: {h:?}"));
    });

    let n = ctx.n(100_000, 5_000_000);
    ctx.run("values", n, |r, rec| {
        let mut fail: Option<(&str, String)> = None;
        let which = r.below(16);
        let (name, w): (&str, String) = match which {
            0 => {
                let toks: Vec<String> = (0..r.range(1, 8)).map(|_| if r.coin() { gen_method(r) } else { r.token(1, 12) }).collect();
                let mut w = String::new();
                for (i, t) in toks.iter().enumerate() {
                    if i > 0 {
                        w.push_str(*r.pick(&[",", ", ", " , ", ",\t"]));
                    }
                    w.push_str(t);
                }
                match TokenList::parse(&w) {
                    Ok(l) => {
                        if !l.iter().eq(toks.iter().map(|s| s.as_str())) || l.len() != toks.len() {
                            fail = Some(("tokens", format!("{l:?}")));
                        } else if TokenList::parse(&l.to_string()).as_ref() != Ok(&l) {
                            fail = Some(("tokens-print", l.to_string()));
                        } else if !toks.iter().all(|t| l.contains(&case(r, t))) || l.contains("zz-not-there") {
                            fail = Some(("tokens-contains", format!("{l:?}")));
                        } else if sip_parse::parse_allow_header(&SmolStr::new(&w)) != l || sip_parse::parse_supported_header(&SmolStr::new(&w)) != l {
                            fail = Some(("tokens-allow", format!("{l:?}")));
                        }
                    }
                    Err(e) => fail = Some(("tokens-refused", e.to_string())),
                }
                ("Allow", w)
            }
            1 => {
                let w = r.token(1, 30);
                match SipETagHeader::parse(&w) {
                    Ok(e) => {
                        let m = SipIfMatchHeader::parse(&w).unwrap();
                        let mut other = w.clone().into_bytes();
                        let i = r.below(other.len());
                        other[i] = if other[i] == b'a' { b'b' } else { b'a' };
                        let other = String::from_utf8(other).unwrap();
                        let o = SipETagHeader::parse(&other).unwrap();
                        let long = SipETagHeader::parse(&format!("{w}x")).unwrap();
                        if e.value() != w || e.to_string() != w || m.value() != w || m.to_string() != w {
                            fail = Some(("etag", format!("{e:?}")));
                        } else if !m.matches_etag(&e) || m.matches_etag(&o) || m.matches_etag(&long) || !e.constant_time_eq(&SipETagHeader::new(&w).unwrap()) || e.constant_time_eq(&o) || e.constant_time_eq(&long) {
                            fail = Some(("etag-match", format!("{w} {other}")));
                        }
                    }
                    Err(e) => fail = Some(("etag-refused", e.to_string())),
                }
                ("SIP-ETag", w)
            }
            2 => {
                let (cid, tt, ft) = (format!("{}@{}", r.token(1, 10), gen_domain(r)), r.token(1, 10), r.token(1, 10));
                let early = r.coin();
                let mut ps = vec![format!("{}={tt}", case(r, "to-tag")), format!("{}={ft}", case(r, "from-tag"))];
                if early {
                    ps.push(case(r, "early-only"));
                }
                r.shuffle(&mut ps);
                let w = format!("{cid}{}", ps.iter().map(|p| format!("{}{p}", r.pick(&[";", "; ", " ;"]))).collect::<String>());
                match ReplacesHeader::parse(&w) {
                    Ok(h) => {
                        if h.call_id() != cid || h.to_tag() != tt || h.from_tag() != ft || h.is_early_only() != early {
                            fail = Some(("replaces", format!("{h:?}")));
                        } else if ReplacesHeader::parse(&h.to_string()).as_ref() != Ok(&h) {
                            fail = Some(("replaces-print", h.to_string()));
                        } else if ReplacesHeader::new(&cid, &tt, &ft).unwrap().with_early_only(early) != h {
                            fail = Some(("replaces-new", h.to_string()));
                        }
                    }
                    Err(e) => fail = Some(("replaces-refused", e.to_string())),
                }
                for bad in [cid.clone(), format!("{cid};to-tag={tt}"), format!("{cid};from-tag={ft}"), format!("{cid};to-tag={tt};to-tag={tt};from-tag={ft}"), format!(";to-tag={tt};from-tag={ft}")] {
                    if ReplacesHeader::parse(&bad).is_ok() {
                        fail = Some(("replaces-lenient", bad));
                    }
                }
                ("Replaces", w)
            }
            3 => {
                let b = r.coin();
                let w = case(r, if b { "true" } else { "false" });
                match ReferSubHeader::parse(&w) {
                    Some(h) if h.is_enabled() == b && h.is_suppressed() != b && ReferSubHeader::parse(&h.to_string()) == Some(h) => {}
                    e => fail = Some(("refer-sub", format!("{e:?}"))),
                }
                ("Refer-Sub", w)
            }
            4 => {
                let w = loop {
                    let s = r.string("abcXYZ019 ,;:\"'!?<>@-()", 1, 40);
                    if !s.trim().is_empty() {
                        break s;
                    }
                };
                match SubjectHeader::parse(&w) {
                    Ok(h) if h.value() == w && h.to_string() == w => {}
                    e => fail = Some(("subject", format!("{e:?}"))),
                }
                ("Subject", w)
            }
            5 => {
                let k = r.below(5);
                let base = ["emergency", "urgent", "normal", "non-urgent"].get(k).map(|s| s.to_string()).unwrap_or_else(|| format!("x-{}", r.lower(1, 8)));
                let w = case(r, &base);
                let want = match k {
                    0 => PriorityValue::Emergency,
                    1 => PriorityValue::Urgent,
                    2 => PriorityValue::Normal,
                    3 => PriorityValue::NonUrgent,
                    _ => PriorityValue::Unknown(SmolStr::new(&base)),
                };
                let g = PriorityValue::parse(&w);
                if g.as_ref() != Ok(&want) || sip_parse::parse_priority_header(&SmolStr::new(&w)) != want || PriorityValue::parse(&want.to_string()).as_ref() != Ok(&want) {
                    fail = Some(("priority", format!("{g:?}")));
                }
                if k < 4 && want.urgency_level() != Some(3 - k as u8) {
                    fail = Some(("urgency", format!("{:?}", want.urgency_level())));
                }
                ("Priority", w)
            }
            6 => {
                let secs = r.range(0, 4_102_444_799) as u64;
                let t = UNIX_EPOCH + Duration::from_secs(secs);
                let h = DateHeader::from_timestamp(t);
                let w = h.to_string();
                let b = DateHeader::new(&w);
                // independent civil-date rendering
                let days = (secs / 86400) as i64;
                let (y, m, d) = civil(days);
                let wd = ["Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"][(days % 7) as usize];
                let mon = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"][(m - 1) as usize];
                let s = secs % 86400;
                let want = format!("{wd}, {d:02} {mon} {y:04} {:02}:{:02}:{:02} GMT", s / 3600, s / 60 % 60, s % 60);
                if w != want {
                    fail = Some(("date-format", want));
                } else if b.as_ref().ok().and_then(|x| x.timestamp()) != Some(t) {
                    fail = Some(("date", format!("{b:?}")));
                }
                ("Date", w)
            }
            7 => {
                let vals: Vec<(String, String)> = (0..r.range(1, 8)).map(|_| (r.string("abcdwpsq0123-", 1, 8), r.string("abcd0123-", 1, 6))).collect();
                let w = vals.iter().enumerate().map(|(i, v)| format!("{}{}.{}", if i > 0 { *r.pick(&[",", ", ", " ,"]) } else { "" }, v.0, v.1)).collect::<String>();
                match ResourcePriorityHeader::parse(&w) {
                    Ok(h) => {
                        if h.len() != vals.len() || !h.values().iter().zip(&vals).all(|(a, b)| a.namespace() == b.0 && a.priority() == b.1) {
                            fail = Some(("rp", format!("{h:?}")));
                        } else if ResourcePriorityHeader::parse(&h.to_string()).as_ref() != Ok(&h) {
                            fail = Some(("rp-print", h.to_string()));
                        }
                    }
                    Err(e) => fail = Some(("rp-refused", e.to_string())),
                }
                // one entry spoilt: refused whole
                let odd = *r.pick(&["ab", "a", "a.", ".b", "a b.c", "a.b c", "a.\u{7}"]);
                let at = r.below(vals.len() + 1);
                let mut l: Vec<String> = vals.iter().map(|v| format!("{}.{}", v.0, v.1)).collect();
                l.insert(at, odd.to_string());
                let l = l.join(",");
                if let Ok(h) = ResourcePriorityHeader::parse(&l) {
                    rec.violate("rp-spoilt", format!("{l:?} was read as {h}"));
                }
                ("Resource-Priority", w)
            }
            8 | 9 => {
                let proto = match r.below(4) {
                    0 => "SIP".to_string(),
                    1 => "Q.850".to_string(),
                    2 => "SDP".to_string(),
                    _ => format!("X{}", r.token(1, 5)),
                };
                let wp = if r.coin() { proto.clone() } else if proto.starts_with('X') { proto.clone() } else { case(r, &proto) };
                let cause = if r.chance(3, 4) { Some(r.range(1, 699) as u16) } else { None };
                let (tw, td) = gen_quoted(r, 0, 12);
                let text = if r.chance(3, 4) { Some(td) } else { None };
                let mut w = wp;
                if let Some(c) = cause {
                    w.push_str(&format!("{}{}={c}", r.pick(&[";", " ;", "; ", " ; "]), case(r, "cause")));
                }
                if text.is_some() {
                    w.push_str(&format!("{}{}=\"{tw}\"", r.pick(&[";", " ;", "; "]), case(r, "text")));
                }
                match sip_parse::parse_reason_header(&SmolStr::new(&w)) {
                    Some(h) => {
                        if h.protocol() != proto || h.cause_code() != cause || h.text().map(|s| s.to_string()) != text || h.is_sip() != (proto == "SIP") || h.is_q850() != (proto == "Q.850") {
                            fail = Some(("reason", format!("{h:?}")));
                        } else {
                            let s = h.to_string();
                            if sip_parse::parse_reason_header(&SmolStr::new(&s)).as_ref() != Some(&h) {
                                fail = Some(("reason-print", s));
                            }
                        }
                    }
                    None => fail = Some(("reason-refused", String::new())),
                }
                ("Reason", w)
            }
            10 => {
                let pkg = format!("{}{}", r.lower(1, 8), if r.chance(1, 3) { ".winfo" } else { "" });
                let id = if r.coin() { Some(r.token(1, 8)) } else { None };
                let (pw, p) = tok_params(r, 3, &["id"]);
                let w = format!("{pkg}{}{pw}", id.as_ref().map(|i| format!(";{}={i}", case(r, "id"))).unwrap_or_default());
                match sip_parse::parse_event_header(&SmolStr::new(&w)) {
                    Some(h) => {
                        if h.package() != pkg || h.id() != id.as_deref() || own(h.params()) != p {
                            fail = Some(("event", format!("{h:?}")));
                        }
                    }
                    None => fail = Some(("event-refused", String::new())),
                }
                ("Event", w)
            }
            11 => {
                let st = *r.pick(&["active", "pending", "terminated", "x-other"]);
                let (pw, mut p) = tok_params(r, 2, &["expires", "reason"]);
                let mut w = format!("{}{pw}", if st == "x-other" { st.to_string() } else { case(r, st) });
                if r.coin() {
                    let v = r.below(4000).to_string();
                    w.push_str(&format!(";expires={v}"));
                    p.insert("expires".into(), Some(v));
                }
                match sip_parse::parse_subscription_state(&SmolStr::new(&w)) {
                    Some(h) => {
                        if h.state().as_str() != st || own(h.params()) != p {
                            fail = Some(("subscription-state", format!("{h:?}")));
                        }
                    }
                    None => fail = Some(("substate-refused", String::new())),
                }
                ("Subscription-State", w)
            }
            12 => {
                let k = r.range(1, 4) as usize;
                let mut w = String::new();
                let mut want: Vec<(String, P)> = vec![];
                for i in 0..k {
                    let m = match r.below(5) {
                        0 => "tls".to_string(),
                        1 => "digest".into(),
                        2 => "ipsec-ike".into(),
                        3 => "ipsec-man".into(),
                        _ => format!("x{}", r.lower(2, 6)),
                    };
                    let (pw, mut p) = {
                        // names are kept as written by this header
                        let (w, p) = tok_params(r, 2, &["q"]);
                        (w.to_ascii_lowercase(), p.into_iter().map(|(k, v)| (k, v.map(|x| x.to_ascii_lowercase()))).collect::<P>())
                    };
                    if i > 0 {
                        w.push_str(*r.pick(&[",", ", "]));
                    }
                    w.push_str(&format!("{}{pw}", if m.starts_with('x') { m.clone() } else { case(r, &m) }));
                    if r.chance(2, 3) {
                        let q = format!("0.{}", r.range(1, 9));
                        w.push_str(&format!(";q={q}"));
                        p.insert("q".into(), Some(q));
                    }
                    want.push((m, p));
                }
                match security::parse_security_server(&w) {
                    Ok(h) => {
                        let g: Vec<(String, P)> = h.entries().iter().map(|e| (e.mechanism().as_str().to_string(), e.params().iter().map(|(k, v)| (k.to_string(), v.as_ref().map(|s| s.to_string()))).collect())).collect();
                        if g != want {
                            fail = Some(("security", format!("{g:?}")));
                        } else if security::parse_security_server(&h.to_string()).as_ref() != Ok(&h) {
                            fail = Some(("security-print", h.to_string()));
                        } else {
                            let q = |p: &P| p.get("q").and_then(|v| v.as_ref()).and_then(|s| s.parse::<f32>().ok()).unwrap_or(0.001);
                            let mut order: Vec<usize> = (0..k).collect();
                            order.sort_by(|a, b| q(&want[*b].1).partial_cmp(&q(&want[*a].1)).unwrap());
                            let got: Vec<String> = h.sorted_by_preference().iter().map(|e| e.to_string()).collect();
                            let exp: Vec<String> = order.iter().map(|i| h.entries()[*i].to_string()).collect();
                            if got != exp {
                                fail = Some(("security-order", format!("{got:?}")));
                            }
                            let v = security::parse_security_verify(&h.to_string()).unwrap();
                            let c = security::parse_security_client(&h.to_string()).unwrap();
                            if !h.entries().iter().all(|e| v.matches(e)) || h.find_best_match(&c).is_none() {
                                fail = Some(("security-match", format!("{h:?}")));
                            }
                            let lone = security::parse_security_client("zz-none").unwrap();
                            if h.find_best_match(&lone).is_some() {
                                fail = Some(("security-nomatch", format!("{h:?}")));
                            }
                        }
                    }
                    Err(e) => fail = Some(("security-refused", e.to_string())),
                }
                ("Security-Server", w)
            }
            13 => {
                let (t, s) = (r.token(1, 8), r.token(1, 10));
                let mut w = format!("{t}/{s}");
                let mut p: BTreeMap<String, String> = BTreeMap::new();
                for _ in 0..r.below(3) {
                    let n = r.token(1, 6);
                    let (vw, vd) = if r.coin() {
                        let (q, d) = gen_quoted(r, 1, 8);
                        if !d.is_ascii() {
                            continue;
                        }
                        (format!("\"{q}\""), d)
                    } else {
                        let v = r.token(1, 8);
                        (v.clone(), v)
                    };
                    if p.contains_key(&n.to_ascii_lowercase()) {
                        continue;
                    }
                    w.push_str(&format!("{}{n}={vw}", r.pick(&[";", "; "])));
                    p.insert(n.to_ascii_lowercase(), vd);
                }
                match MimeType::from_str(&w) {
                    Ok(m) => {
                        let g: BTreeMap<String, String> = m.params().map(|(k, v)| (k.to_string(), v.to_string())).collect();
                        if m.top_level() != t.to_ascii_lowercase() || m.subtype() != s.to_ascii_lowercase() || g != p {
                            fail = Some(("mime", format!("{m:?}")));
                        } else if MimeType::from_str(&m.to_string()).as_ref() != Ok(&m) {
                            fail = Some(("mime-print", m.to_string()));
                        }
                    }
                    Err(e) => fail = Some(("mime-refused", e.to_string())),
                }
                ("Content-Type", w)
            }
            14 => {
                let scheme = if r.chance(3, 4) { "Digest".to_string() } else { r.token(2, 8) };
                let mut p: BTreeMap<String, String> = BTreeMap::new();
                let mut w = format!("{scheme} ");
                let mut escaped = false;
                let names = ["username", "realm", "nonce", "uri", "response", "opaque", "cnonce", "qop", "nc", "algorithm"];
                for i in 0..r.range(1, 8) {
                    let nm = if r.chance(5, 6) { r.pick(&names).to_string() } else { r.lower(2, 8) };
                    if p.contains_key(&nm) {
                        continue;
                    }
                    if i > 0 && !p.is_empty() {
                        w.push_str(*r.pick(&[", ", ","]));
                    }
                    let (vw, vd) = if r.chance(2, 3) {
                        let d = r.string("abcXYZ019 ,;=:/@-<>", 1, 12).trim().to_string();
                        let mut d = if d.is_empty() { "x".to_string() } else { d };
                        if r.chance(1, 6) {
                            // the stack hands the value over as it was written
                            d.push_str(r.pick(&["\\\"", "\\\\", "\\\"z", "\\\", y=\\\""]));
                            escaped = true;
                        }
                        (format!("\"{d}\""), d)
                    } else {
                        let v = r.token(1, 8);
                        (v.clone(), v)
                    };
                    w.push_str(&format!("{}={vw}", case(r, &nm)));
                    p.insert(nm, vd);
                }
                match sip_parse::parse_authorization_header(&SmolStr::new(&w)) {
                    Some(h) => {
                        let g: BTreeMap<String, String> = h.params().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
                        if h.scheme() != scheme || g != p {
                            fail = Some(("authorization", format!("{h:?}")));
                        } else if !escaped && sip_parse::parse_authorization_header(&SmolStr::new(h.to_string())).as_ref() != Some(&h) {
                            fail = Some(("authorization-print", h.to_string()));
                        } else {
                            let mut dup = w.clone();
                            let k = p.keys().next().unwrap();
                            dup.push_str(&format!(", {}=zz", k.to_ascii_uppercase()));
                            if sip_parse::parse_authorization_header(&SmolStr::new(&dup)).is_some() {
                                fail = Some(("authorization-dup", dup));
                            }
                        }
                    }
                    None => fail = Some(("authorization-refused", String::new())),
                }
                ("Authorization", w)
            }
            _ => {
                let at = r.pick(&["3GPP-UTRAN-TDD", "IEEE-802.11a", "3GPP-E-UTRAN-FDD"]).to_string();
                let (pw, p) = tok_params(r, 3, &[]);
                let w = format!("{at}{pw}");
                match sip_parse::parse_p_access_network_info(&SmolStr::new(&w)) {
                    Some(h) if h.access_type() == at && own(h.params()) == p => {}
                    e => fail = Some(("pani", format!("{e:?}"))),
                }
                ("P-Access-Network-Info", w)
            }
        };
        rec.eval(Some(&(name, &w)));
        rec.sample(|| format!("{name}: {w}"));
        rec.count(name, 1);
        if let Some((k, d)) = fail {
            rec.violate(k, format!("{name}: {w:?}: {d}"));
        }
    });

    // dates, good and bad
    let n = ctx.n(60_000, 600_000);
    ctx.run("dates", n, |r, rec| {
        const DAYS: [&str; 7] = ["Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"];
        const MONTHS: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
        let secs = match r.below(6) {
            0 => r.pick(&[0u64, 4_133_980_799, 4_102_444_800, 951_827_696, 4_107_542_399, 86_399, 86_400]).to_owned(),
            _ => r.range(0, 4_133_980_799) as u64,
        };
        let days = (secs / 86400) as i64;
        let (y, m, d) = civil(days);
        let s = secs % 86400;
        let mut p = [
            format!("{},", DAYS[(days % 7) as usize]),
            format!("{d:02}"),
            MONTHS[(m - 1) as usize].to_string(),
            format!("{y:04}"),
            format!("{:02}:{:02}:{:02}", s / 3600, s / 60 % 60, s % 60),
            "GMT".to_string(),
        ];
        let mut good = true;
        if r.coin() {
            good = false;
            let (h, mi, se) = (s / 3600, s / 60 % 60, s % 60);
            match r.below(12) {
                0 => p[0] = r.pick(&["Thu", "Thx,", ",", "thu,", "Thursday,", "Do,", ",Thu"]).to_string(),
                1 => p[1] = r.pick(&["00", "32", "99", "1", "001", "-1", "+1", "aa", "3a"]).to_string(),
                2 => p[2] = r.pick(&["jan", "JAN", "January", "Jax", "01", "Mai"]).to_string(),
                3 => p[3] = r.pick(&["1969", "2101", "99", "02000", "20a0", "+200", "0000"]).to_string(),
                4 => p[4] = format!("{}:{mi:02}:{se:02}", r.pick(&["24", "25", "99", "1", "-1", "+1", "0x", "001"])),
                5 => p[4] = format!("{h:02}:{}:{se:02}", r.pick(&["60", "61", "99", "1", "-1", "+1", "0x"])),
                6 => p[4] = format!("{h:02}:{mi:02}:{}", r.pick(&["61", "99", "1", "-1", "+1", "0x"])),
                7 => p[4] = r.pick(&["00:00", "00:00:00:00", "000000", "", "00:00:"]).to_string(),
                8 => p[5] = r.pick(&["", "0", "+0000", "G1", "G"]).to_string(),
                9 => p[r.below(6)] = String::new(),
                10 => p.swap(1, 2),
                _ => p[5] = "GMT\r\nX: y".to_string(),
            }
        }
        let w = p.join(" ");
        rec.eval(Some(&w));
        rec.sample(|| w.clone());
        rec.count(if good { "good dates" } else { "bad dates" }, 1);
        match (DateHeader::new(&w), good) {
            (Ok(x), true) => {
                rec.check(x.timestamp() == Some(UNIX_EPOCH + Duration::from_secs(secs)) && x.raw() == w && x.to_string() == w, "date", || format!("{w:?}: {x:?}"));
                let now = std::time::SystemTime::now().duration_since(UNIX_EPOCH).map_or(0, |d| d.as_secs());
                if secs + 5 < now || secs > now + 5 {
                    rec.check((x.is_past() == Some(true)) == (secs < now) && (x.is_future() == Some(true)) == (secs > now), "date-side", || format!("{w:?}: past {:?} future {:?}", x.is_past(), x.is_future()));
                }
            }
            (Err(e), true) => rec.violate("date-refused", format!("{w:?}: {e}")),
            (Ok(x), false) => rec.violate("date-lenient", format!("{w:?}: {x:?}")),
            (Err(_), false) => {}
        }
    });
    // parameters written with blanks around their signs and with quoted values
    let n = ctx.n(60_000, 600_000);
    ctx.run("quoted-params", n, |r, rec| {
        let kind = r.below(5);
        // (written, meant) of one value; only some headers take arbitrary text
        let value = |r: &mut Rng, text: bool| -> (String, String) {
            if !r.chance(2, 3) {
                let v = r.token(1, 8);
                return (v.clone(), v);
            }
            let odd = if kind == 3 { "abc ;=,<>'x/:@" } else { "abc ;=,<>\\\"'x/:@" };
            let v = if text { r.string(odd, 1, 12) } else { r.token(1, 8) };
            let mut w = String::from("\"");
            for c in v.chars() {
                if matches!(c, '"' | '\\') || r.chance(1, 12) {
                    w.push('\\');
                }
                w.push(c);
            }
            w.push('"');
            (w, v)
        };
        let text = kind == 2 || kind == 3;
        let mut p = P::new();
        let mut w = String::new();
        for _ in 0..r.below(4) {
            let n = format!("x{}", r.lower(1, 5));
            if p.contains_key(&n) {
                continue;
            }
            w.push_str(*r.pick(&[";", "; ", " ;", " ; "]));
            w.push_str(&case(r, &n));
            if r.chance(1, 5) {
                p.insert(n, None);
            } else {
                let (vw, v) = value(r, text && kind == 2);
                w.push_str(*r.pick(&["=", "=", " =", "= ", " = "]));
                w.push_str(&vw);
                p.insert(n, Some(v));
            }
        }
        let fail: Option<String>;
        let name;
        let full;
        match kind {
            0 => {
                name = "Event";
                let id = r.coin().then(|| value(r, false));
                full = format!("presence{}{w}", id.as_ref().map(|i| format!(";{}{}{}", case(r, "id"), r.pick(&["=", " = "]), i.0)).unwrap_or_default());
                fail = match sip_parse::parse_event_header(&SmolStr::new(&full)) {
                    Some(h) if h.package() == "presence" && h.id() == id.as_ref().map(|i| i.1.as_str()) && own(h.params()) == p => None,
                    x => Some(format!("{x:?}")),
                };
            }
            1 => {
                name = "Subscription-State";
                full = format!("active{w}");
                fail = match sip_parse::parse_subscription_state(&SmolStr::new(&full)) {
                    Some(h) if h.state().as_str() == "active" && own(h.params()) == p => None,
                    x => Some(format!("{x:?}")),
                };
            }
            2 => {
                name = "P-Access-Network-Info";
                full = format!("IEEE-802.11{w}");
                fail = match sip_parse::parse_p_access_network_info(&SmolStr::new(&full)) {
                    Some(h) if h.access_type() == "IEEE-802.11" && own(h.params()) == p => None,
                    x => Some(format!("{x:?}")),
                };
            }
            3 => {
                name = "Geolocation-Error";
                let code = r.range(100, 699).to_string();
                let why = r.coin().then(|| value(r, true));
                full = format!("{code}{}{w}", why.as_ref().map(|i| format!(";{}{}{}", case(r, "reason"), r.pick(&["=", " = "]), i.0)).unwrap_or_default());
                fail = match sip_parse::parse_geolocation_error(&SmolStr::new(&full)) {
                    Ok(h) => {
                        let mut got = own(h.params());
                        got.remove("reason");
                        let good = h.code() == Some(code.as_str())
                            && h.description() == why.as_ref().map(|i| i.1.as_str())
                            && got == p;
                        (!good).then(|| format!("{h:?}"))
                    }
                    x => Some(format!("{x:?}")),
                };
            }
            _ => {
                name = "Geolocation-Routing";
                full = w.trim_start().trim_start_matches(';').to_string();
                fail = match sip_parse::parse_geolocation_routing(&SmolStr::new(&full)) {
                    Ok(h) if own(h.params()) == p => None,
                    x => Some(format!("{x:?}")),
                };
            }
        }
        rec.eval(Some(&(name, &full)));
        rec.sample(|| format!("{name}: {full}"));
        rec.count(name, 1);
        if let Some(d) = fail {
            rec.violate(&format!("{name} parameters"), format!("{name}: {full:?} means {p:?}, is read as {d}"));
        }
    });

    // the parts of a Geolocation-Error: built or read, only a short plain code
    // and a short text without quotes or controls get in, and those do
    let n = ctx.n(40_000, 600_000);
    ctx.run("location-errors", n, |r, rec| {
        use sip_core::GeolocationErrorHeader as G;
        let len = *r.pick(&[1usize, 3, 15, 16, 17, 20]);
        let mut code = r.string("abcXYZ0123456789-.", len, len);
        if r.chance(1, 2) {
            let at = r.below(code.len());
            code.replace_range(at..at + 1, *r.pick(&[" ", "_", ";", "=", "\"", "\t", "\u{1}", "\r", "é", "/", ",", "+", "~"]));
        }
        let dl = *r.pick(&[0usize, 1, 20, 255, 256, 257, 510, 511, 512, 513, 600]);
        let mut text = r.string("abc XYZ,;=<>'()%/0", dl, dl);
        if !text.is_empty() && r.chance(1, 2) {
            let at = r.below(text.len());
            text.replace_range(at..at + 1, *r.pick(&["\"", "\\", "\u{0}", "\t", "\n", "\u{7f}", "é", "漢", "\u{1f}"]));
        }
        rec.eval(Some(&(&code, &text)));
        rec.sample(|| format!("code {code:?}, text of {} bytes", text.len()));
        let code_ok = !code.is_empty() && code.len() <= 16 && code.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '.');
        let text_ok = text.len() <= 512 && !text.chars().any(|c| c.is_ascii_control() || c == '"' || c == '\\');
        rec.count(&format!("code {code_ok} text {text_ok}"), 1);
        match G::new().with_code(&code) {
            Ok(g) => {
                rec.check(code_ok && g.code() == Some(code.as_str()), "location-error:code", || format!("{code:?} became {:?}", g.code()));
            }
            Err(e) => { rec.check(!code_ok, "location-error:code-refused", || format!("{code:?}: {e}")); }
        }
        match G::new().with_description(&text) {
            Ok(g) => {
                rec.check(text_ok && g.description() == Some(text.as_str()), "location-error:text", || format!("{text:?} ({} bytes) became {:?}", text.len(), g.description()));
            }
            Err(e) => { rec.check(!text_ok, "location-error:text-refused", || format!("{text:?}: {e}")); }
        }
        // read from the wire
        if let Ok(g) = sip_parse::parse_geolocation_error(&SmolStr::new(format!("{code};reason=\"{text}\""))) {
            let c = g.code().unwrap_or("");
            rec.check(c.len() <= 16 && c.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '.'), "location-error:read-code", || format!("{code:?} read as {c:?}"));
            let d = g.description().unwrap_or("");
            rec.check(d.len() <= 512 && !d.chars().any(|c| c.is_ascii_control()), "location-error:read-text", || format!("{text:?} read as {d:?}"));
            rec.count("read", 1);
        }
    });

    // tokens: methods, branches, versions
    let n = ctx.n(300_000, 2_000_000);
    ctx.run("tokens", n, |r, rec| {
        let m = match r.below(3) {
            0 => { let m = gen_method(r); case(r, &m) }
            1 => r.token(1, 20),
            _ => r.nasty(1, 8),
        };
        rec.eval(Some(&m));
        let is_tok = !m.is_empty() && m.chars().all(|c| c.is_ascii_alphanumeric() || "-.!%*_+`'~".contains(c));
        match rec.guard("method", &|| format!("{m:?}"), || Method::from_token(&m)) {
            Some(Ok(x)) => {
                rec.check(is_tok && x.as_str().eq_ignore_ascii_case(&m), "method", || format!("{m:?} became {:?}", x.as_str()));
                rec.check(Method::from_token(x.as_str()).as_ref() == Ok(&x), "method-print", || m.clone());
                rec.check(x.is_standard() != x.is_extension(), "method-kind", || m.clone());
                rec.check(x.is_standard() == METHODS.contains(&x.as_str()), "method-std", || m.clone());
            }
            Some(Err(_)) => {
                rec.check(!is_tok || m.len() > 32, "method-refused", || format!("{m:?}"));
            }
            None => {}
        }
        let b = match r.below(4) {
            0 => gen_branch(r),
            1 => format!("z9hG4bK{}", r.nasty(0, 6)),
            2 => r.token(1, 20),
            _ => format!("z9hG4bK{}", "a".repeat(r.range(245, 255) as usize)),
        };
        let want = b.starts_with("z9hG4bK") && b.len() > 7 && b.len() <= 256 && b.chars().all(|c| c.is_ascii_alphanumeric() || "-.!%*_+`'~".contains(c));
        rec.check(max_forwards::is_valid_branch(&b) == want, "branch", || format!("{b:?} judged {}", !want));
        let v = match r.below(4) {
            0 => case(r, "SIP/2.0"),
            1 => format!("SIP/{}.{}", r.below(4), r.below(3)),
            2 => format!("{}/2.0", r.token(1, 4)),
            _ => r.nasty(0, 8),
        };
        let ok = v.len() == 7 && v.eq_ignore_ascii_case("SIP/2.0");
        if let Some(x) = rec.guard("version", &|| format!("{v:?}"), || SipVersion::parse(&v)) {
            rec.check(x.is_ok() == ok || v.trim() != v, "version", || format!("{v:?}: {x:?}"));
        }
    });

    // values given to a constructor: refused, or printed so that they are read back
    let n = ctx.n(400_000, 4_000_000);
    ctx.run("given", n, |r, rec| {
        let odd = |r: &mut Rng| -> String {
            let mut s = if r.coin() { r.token(1, 6) } else { r.alnum(1, 6) };
            for _ in 0..r.below(3) {
                let at = r.below(s.len() + 1);
                let c = *r.pick(&[' ', '\t', ';', ',', '"', '\\', '<', '>', '=', '?', '@', ':', '(', ')', '[', ']', '/', '&', '%', '#', '+', '.', '-', '\r', '\n', '\0', 'é', '\u{a0}']);
                if s.is_char_boundary(at) { s.insert(at, c) }
            }
            s
        };
        let (a, b, c) = (odd(r), odd(r), odd(r));
        let mut name = if r.chance(3, 4) { r.token(1, 6) } else { odd(r) };
        if name.eq_ignore_ascii_case("q") || name.eq_ignore_ascii_case("cid") {
            name.push('q'); // a preference, and a cid, have their own rules
        }
        let show = || format!("{a:?} {b:?} {c:?} {name:?}");
        macro_rules! given {
            ($key:literal, $made:expr, $read:expr) => {{
                if let Some(Ok(h)) = rec.guard($key, &show, || $made) {
                    let text = h.to_string();
                    rec.eval(Some(&($key, &text)));
                    rec.count($key, 1);
                    let back = rec.guard($key, &|| text.clone(), || $read(text.as_str()));
                    rec.check(back.as_ref().is_some_and(|x| x.as_ref() == Some(&h)), concat!("given ", $key), || format!("{h:?} prints {text:?}, which reads as {back:?}"));
                }
            }};
        }
        match r.below(18) {
            0 => given!("Replaces", ReplacesHeader::new(&a, &b, &c).map(|h| if name.len() > 3 { h.with_early_only(true) } else { h }), |t: &str| ReplacesHeader::parse(t).ok()),
            1 => {
                let m = SecurityMechanism::parse(&a);
                if let Ok(m) = m {
                    given!("Security-Client", { let mut e = SecurityEntry::new(m.clone()); e.set_param(&name, Some(b.as_str())).and_then(|_| if c.len() > 5 { e.set_param(&c, None) } else { e.set_preference(0.5) }).map(|_| security::SecurityClientHeader::single(e)) }, |t: &str| security::parse_security_client(t).ok());
                }
            }
            2 => given!("Content-Type", MimeType::new(&a, &b).and_then(|m| m.with_param(&name, &c)), |t: &str| MimeType::from_str(t).ok()),
            3 => given!("Content-Type param", MimeType::new("a", "b").and_then(|m| m.with_param(&name, &c)), |t: &str| MimeType::from_str(t).ok()),
            4 => given!("Allow", TokenList::from_slice(&[&a, &name, &c]), |t: &str| TokenList::parse(t).ok()),
            5 => given!("Subject", SubjectHeader::new(&format!("{a}{b}{c}")), |t: &str| SubjectHeader::parse(t).ok()),
            6 => given!("SIP-ETag", SipETagHeader::new(&a), |t: &str| SipETagHeader::parse(t).ok()),
            7 => given!("SIP-If-Match", SipIfMatchHeader::new(&a), |t: &str| SipIfMatchHeader::parse(t).ok()),
            8 => given!("Reason", ReasonHeader::new(&name, [(SmolStr::new(&b), Some(SmolStr::new(&c)))].into_iter().collect()), |t: &str| sip_core::reason::parse_reason_from_string(t).ok()),
            9 => given!("Reason text", ReasonHeader::sip(200 + r.below(100) as u16, Some(&format!("{a}{b}"))), |t: &str| sip_core::reason::parse_reason_from_string(t).ok()),
            10 => given!("Resource-Priority", ResourcePriorityValue::new(&a, &b).map(ResourcePriorityHeader::single), |t: &str| ResourcePriorityHeader::parse(t).ok()),
            11 => given!("Referred-By", ReferredByHeader::new("sip:a@b.c").and_then(|h| h.with_param(&name, &c)), |t: &str| ReferredByHeader::parse(t).ok()),
            12 => given!("Referred-By cid", ReferredByHeader::new("sip:a@b.c").and_then(|h| h.with_cid(format!("{a}@{b}"))), |t: &str| ReferredByHeader::parse(t).ok()),
            13 => given!("Referred-By name", ReferredByHeader::with_name(&a, "sip:a@b.c"), |t: &str| ReferredByHeader::parse(t).ok()),
            14 => given!("Referred-By uri", ReferredByHeader::new(format!("sip:{a}")), |t: &str| ReferredByHeader::parse(t).ok()),
            15 => given!("Via", ViaHeader::new("UDP", "a.b").and_then(|h| h.with_param(&name, Some(c.as_str()))), |t: &str| ViaHeader::parse(t).ok()),
            16 => given!("Via host", ViaHeader::new(&name, &a), |t: &str| ViaHeader::parse(t).ok()),
            _ => match r.below(5) {
                0 => given!("SipUri user", SipUri::new("a.b").and_then(|u| u.with_user(a.as_str())).map(Uri::Sip), |t: &str| Uri::parse(t).ok()),
                1 => given!("SipUri host", SipUri::new(a.as_str()).map(Uri::Sip), |t: &str| Uri::parse(t).ok()),
                2 => given!("SipUri param", SipUri::new("a.b").and_then(|u| u.with_param(name.as_str(), Some(c.as_str()))).map(Uri::Sip), |t: &str| Uri::parse(t).ok()),
                3 => given!("TelUri", if r.coin() { TelUri::new(format!("+{a}"), true) } else { TelUri::new(a.as_str(), false).and_then(|u| u.with_phone_context(b.as_str())) }, |t: &str| TelUri::parse(t).ok()),
                _ => given!("TelUri param", TelUri::new("+1234", true).and_then(|u| u.with_parameter(name.as_str(), Some(c.clone()))), |t: &str| TelUri::parse(t).ok()),
            },
        }
    });

    // hostile text for every parser: total, bounded, single-line output, stable
    let n = ctx.n(1_500_000, 8_000_000);
    ctx.run("hostile", n, |r, rec| {
        let base = match r.below(9) {
            0 => "1800;refresher=uac".to_string(),
            1 => "call@h;to-tag=1;from-tag=2;early-only".into(),
            2 => "Q.850;cause=16;text=\"a;b\\\"c\"".into(),
            3 => "Digest username=\"a\", realm=\"b\", nonce=\"c\", uri=\"sip:a\", response=\"d\"".into(),
            4 => "digest;q=0.1;d-alg=\"md5,x\", tls;q=0.2".into(),
            5 => "text/plain;charset=\"utf\\\"8\"".into(),
            6 => "Sat, 13 Nov 2010 23:29:00 GMT".into(),
            7 => "presence;id=4;x=y".into(),
            _ => r.nasty(0, 12),
        };
        let mut b = base.into_bytes();
        let k = r.below(5);
        r.mutate(&mut b, k);
        let s = String::from_utf8_lossy(&b).to_string();
        rec.eval(Some(&s));
        let v = SmolStr::new(&s);
        let show = || format!("{s:?}");
        // re-reading is only demanded where quotes open after '=' and close before a separator
        let neat = neat(&s);
        let line = |p: String, rec: &mut Rec, what: &str| {
            rec.check(!p.contains(['\r', '\n', '\0']), &format!("line:{what}"), || format!("{s:?} printed {p:?}"));
        };
        macro_rules! stable {
            ($neat:expr, $what:expr, $parse:expr) => {
                if let Some(Some(x)) = rec.guard($what, &show, || $parse(&s)) {
                    rec.count($what, 1);
                    let p = x.to_string();
                    line(p.clone(), rec, $what);
                    rec.check(!$neat || $parse(&p).as_ref() == Some(&x), &format!("stable:{}", $what), || format!("{s:?} -> {x:?} printed {p:?}"));
                }
            };
        }
        stable!(neat, "RSeq", |t: &str| RSeqHeader::parse(t).ok());
        stable!(neat, "RAck", |t: &str| RAckHeader::parse(t).ok());
        stable!(neat, "Session-Expires", |t: &str| SessionExpires::parse(t));
        stable!(neat, "Min-SE", |t: &str| MinSessionExpires::parse(t));
        stable!(neat, "Replaces", |t: &str| ReplacesHeader::parse(t).ok());
        stable!(neat, "Refer-Sub", |t: &str| ReferSubHeader::parse(t));
        stable!(neat, "Allow", |t: &str| TokenList::parse(t).ok());
        stable!(neat, "Subject", |t: &str| SubjectHeader::parse(t).ok());
        stable!(neat, "Priority", |t: &str| PriorityValue::parse(t).ok());
        stable!(neat, "Resource-Priority", |t: &str| ResourcePriorityHeader::parse(t).ok());
        stable!(neat, "Reason", |t: &str| sip_core::reason::parse_reason_from_string(t).ok());
        stable!(neat, "SIP-ETag", |t: &str| SipETagHeader::parse(t).ok());
        stable!(neat, "If-Match", |t: &str| SipIfMatchHeader::parse(t).ok());
        stable!(neat, "Content-Type", |t: &str| MimeType::from_str(t).ok());
        stable!(neat, "Security-Client", |t: &str| security::parse_security_client(t).ok());
        stable!(neat, "Date", |t: &str| DateHeader::new(t).ok());
        let neat = neat && sip_parse::parse_authorization_header(&v).is_some_and(|h| h.params().iter().all(|(_, x)| !x.contains(['"', '\\'])));
        stable!(neat, "Authorization", |t: &str| sip_parse::parse_authorization_header(&SmolStr::new(t)));
        // one grammar, whichever crate reads it
        let same = rec.guard("same", &show, || {
            [
                ("Min-SE", sip_parse::parse_min_se(&v) == MinSessionExpires::parse(&s)),
                ("Session-Expires", sip_parse::parse_session_expires(&v) == SessionExpires::parse(&s)),
                ("RAck", sip_parse::parse_rack_header(&v) == RAckHeader::parse(&s).ok()),
                ("RSeq", sip_parse::parse_rseq_header(&v) == RSeqHeader::parse(&s).ok()),
                ("Subject", sip_parse::parse_subject_header(&v) == SubjectHeader::parse(&s).ok()),
                ("SIP-ETag", sip_parse::parse_sip_etag(&v) == SipETagHeader::parse(&s).ok()),
                ("Resource-Priority", sip_parse::parse_resource_priority(&v) == ResourcePriorityHeader::parse(&s).ok()),
                ("Proxy-Authorization", sip_parse::parse_proxy_authorization_header(&v) == sip_parse::parse_authorization_header(&v)),
            ]
        });
        for (what, ok) in same.into_iter().flatten() {
            rec.check(ok, &format!("same:{what}"), show);
        }
        rec.guard("others", &show, || {
            let _ = sip_parse::parse_event_header(&v);
            let _ = sip_parse::parse_subscription_state(&v);
            let _ = sip_parse::parse_geolocation_error(&v);
            let _ = sip_parse::parse_geolocation_routing(&v);
            let _ = sip_parse::parse_p_access_network_info(&v);
            let _ = sip_parse::parse_p_visited_network_id(&v);
            let _ = sip_parse::parse_date_header(&v);
            let _ = sip_parse::parse_priority_header(&v);
            let _ = sip_parse::parse_mime_type(&v);
            let _ = RequestDisposition::parse(&s);
        });
    });
    ctx.finish()
}
fn neat(s: &str) -> bool {
    let (mut q, mut esc, mut last, mut closed) = (false, false, ' ', false);
    for c in s.chars() {
        if q {
            if esc { esc = false } else if c == '\\' { esc = true } else if c == '"' { q = false; closed = true }
            continue;
        }
        match c {
            ' ' | '\t' => continue,
            '"' if last == '=' && !closed => q = true,
            '"' | '\\' => return false,
            ';' | ',' => closed = false,
            _ if closed => return false,
            _ => {}
        }
        last = c;
    }
    !q
}
fn civil(z: i64) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d)
}
