//! C12: the parameters of a header or address behave as one case-insensitive
//! table through any history of edits, and survive being written and read.
use h_core::*;
use sip_core::*;
use smol_str::SmolStr;
use std::collections::BTreeMap;

type Val = Option<String>;
type Map = BTreeMap<String, Val>;
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    /// a second value for a name is refused
    Refuse,
    /// a second value replaces the first
    Replace,
}
trait Table {
    fn add(&mut self, how: usize, n: &str, v: Option<&str>) -> Result<(), String>;
    fn get(&self, n: &str) -> Option<Val>;
    fn list(&self) -> Vec<(String, Val)>;
    /// write and read again; None: cannot be written
    fn again(&self) -> Option<Result<Vec<(String, Val)>, String>> {
        None
    }
    fn count(&self) -> Option<usize> {
        None
    }
    fn kind(&self, _how: usize) -> Kind {
        Kind::Refuse
    }
    fn hows(&self) -> usize {
        2
    }
    fn valued(&self) -> bool {
        false
    }
    fn same(&self) -> String;
}
fn o(v: &Option<SmolStr>) -> Val {
    v.as_ref().map(|x| x.to_string())
}
fn e<E: std::fmt::Debug>(x: E) -> String {
    format!("{x:?}")
}
macro_rules! opt_table {
    ($t:ty, $head:expr, $again:expr) => {
        impl Table for $t {
            fn add(&mut self, how: usize, n: &str, v: Option<&str>) -> Result<(), String> {
                if how == 0 {
                    self.add_param(n, v).map_err(e)
                } else {
                    *self = self.clone().with_param(n, v).map_err(e)?;
                    Ok(())
                }
            }
            fn get(&self, n: &str) -> Option<Val> {
                self.get_param(n).map(o)
            }
            fn list(&self) -> Vec<(String, Val)> {
                self.params().map(|(k, v)| (k.to_string(), v.map(|x| x.to_string()))).collect()
            }
            fn again(&self) -> Option<Result<Vec<(String, Val)>, String>> {
                let s = spell($head, &self.list());
                let read: fn(&str) -> Option<$t> = $again;
                Some(read(&s).map(|m| m.list()).ok_or(s))
            }
            fn same(&self) -> String {
                format!("{self:?}")
            }
        }
    };
}
/// for those without a written form of their own: the grammar's
fn spell(head: &str, list: &[(String, Val)]) -> String {
    let mut s = String::from(head);
    for (n, v) in list {
        s.push(';');
        s.push_str(n);
        if let Some(v) = v {
            s.push('=');
            s.push_str(v);
        }
    }
    s
}
fn one(name: &str, value: &str) -> Headers {
    let mut h = Headers::new();
    let _ = h.push(name, value);
    h
}
opt_table!(EventHeader, "presence", |s| sip_parse::parse_event_header(&s.into()));
opt_table!(SubscriptionStateHeader, "active", |s| sip_parse::parse_subscription_state(&s.into()));
opt_table!(GeolocationValue, "<sip:alice@example.com>", |s| sip_parse::parse_geolocation_header(&one("Geolocation", s))
    .ok()
    .filter(|g| g.values().count() == 1)
    .and_then(|g| g.values().next().cloned()));
opt_table!(GeolocationErrorHeader, "", |s| sip_parse::parse_geolocation_error(&s.into()).ok());
opt_table!(GeolocationRoutingHeader, "", |s| sip_parse::parse_geolocation_routing(&s.trim_start_matches(';').into()).ok());
opt_table!(PAccessNetworkInfo, "IEEE-802.11", |s| sip_parse::parse_p_access_network_info(&s.into()));

struct PId(PIdentity);
impl Table for PId {
    fn add(&mut self, how: usize, n: &str, v: Option<&str>) -> Result<(), String> {
        if how == 0 {
            self.0.add_param(n, v).map_err(e)
        } else {
            self.0 = self.0.clone().with_param(n, v).map_err(e)?;
            Ok(())
        }
    }
    fn get(&self, n: &str) -> Option<Val> {
        self.0.get_param(n).map(o)
    }
    fn list(&self) -> Vec<(String, Val)> {
        self.0.params().map(|(k, v)| (k.to_string(), v.map(|x| x.to_string()))).collect()
    }
    fn again(&self) -> Option<Result<Vec<(String, Val)>, String>> {
        let mut h = Headers::new();
        h.push("P-Asserted-Identity", &self.0.to_string()).ok()?;
        Some(match sip_parse::parse_p_asserted_identity(&h) {
            Ok(Some(x)) => Ok(PId(x.identities().next().unwrap().clone()).list()),
            x => Err(format!("{:?}", x.map(|_| ()))),
        })
    }
    fn same(&self) -> String {
        format!("{:?}", self.0)
    }
}
impl Table for HistoryInfoEntry {
    fn add(&mut self, how: usize, n: &str, v: Option<&str>) -> Result<(), String> {
        if how == 0 {
            self.add_param(n, v).map_err(e)
        } else {
            *self = self.clone().with_param(n, v).map_err(e)?;
            Ok(())
        }
    }
    fn get(&self, n: &str) -> Option<Val> {
        self.get_param(n).map(|v| v.map(|x| x.to_string())).or_else(|| {
            // a flag and an absent parameter look alike to this accessor
            None
        })
    }
    fn list(&self) -> Vec<(String, Val)> {
        self.params().map(|(k, v)| (k.to_string(), v.map(|x| x.to_string()))).collect()
    }
    fn count(&self) -> Option<usize> {
        Some(self.param_count())
    }
    fn again(&self) -> Option<Result<Vec<(String, Val)>, String>> {
        let s = spell("<sip:alice@example.com>", &self.list());
        Some(match sip_parse::parse_history_info(&one("History-Info", &s)) {
            Ok(x) if x.entries().count() == 1 => Ok(x.entries().next().unwrap().list()),
            x => Err(format!("{s}: {x:?}")),
        })
    }
    fn same(&self) -> String {
        format!("{self:?}")
    }
}
impl Table for MimeType {
    fn add(&mut self, how: usize, n: &str, v: Option<&str>) -> Result<(), String> {
        let v = v.unwrap_or("x");
        if how == 0 {
            self.add_param(n, v).map_err(e)
        } else {
            *self = self.clone().with_param(n, v).map_err(e)?;
            Ok(())
        }
    }
    fn get(&self, n: &str) -> Option<Val> {
        self.param(n).map(|x| Some(x.to_string()))
    }
    fn list(&self) -> Vec<(String, Val)> {
        self.params().map(|(k, v)| (k.to_string(), Some(v.to_string()))).collect()
    }
    fn again(&self) -> Option<Result<Vec<(String, Val)>, String>> {
        let s = self.to_string();
        Some(sip_parse::parse_mime_type(&SmolStr::new(&s)).map(|m| m.list()).ok_or(s))
    }
    fn count(&self) -> Option<usize> {
        Some(self.param_count())
    }
    fn valued(&self) -> bool {
        true
    }
    fn same(&self) -> String {
        format!("{self:?}")
    }
}
impl Table for ReferredByHeader {
    fn add(&mut self, how: usize, n: &str, v: Option<&str>) -> Result<(), String> {
        let v = v.unwrap_or("x");
        if how == 0 {
            self.add_param(n, v).map_err(e)
        } else {
            *self = self.clone().with_param(n, v).map_err(e)?;
            Ok(())
        }
    }
    fn get(&self, n: &str) -> Option<Val> {
        self.get_param(n).map(|x| Some(x.to_string()))
    }
    fn list(&self) -> Vec<(String, Val)> {
        self.params().map(|(k, v)| (k.to_string(), Some(v.to_string()))).collect()
    }
    fn again(&self) -> Option<Result<Vec<(String, Val)>, String>> {
        let s = self.to_string();
        Some(ReferredByHeader::parse(&s).map(|m| m.list()).map_err(|x| format!("{s}: {x:?}")))
    }
    fn valued(&self) -> bool {
        true
    }
    fn same(&self) -> String {
        format!("{self:?}")
    }
}
impl Table for AuthorizationHeader {
    fn add(&mut self, how: usize, n: &str, v: Option<&str>) -> Result<(), String> {
        let v = v.unwrap_or("x");
        if how == 0 {
            self.add_param(n, v).map_err(e)
        } else {
            self.add_param_overwrite(n, v).map_err(e)
        }
    }
    fn kind(&self, how: usize) -> Kind {
        if how == 0 {
            Kind::Refuse
        } else {
            Kind::Replace
        }
    }
    fn get(&self, n: &str) -> Option<Val> {
        self.param(n).map(|x| Some(x.to_string()))
    }
    fn list(&self) -> Vec<(String, Val)> {
        self.params().iter().map(|(k, v)| (k.to_string(), Some(v.to_string()))).collect()
    }
    fn again(&self) -> Option<Result<Vec<(String, Val)>, String>> {
        if self.params().is_empty() {
            return None;
        }
        let s = self.to_string();
        Some(sip_parse::parse_authorization_header(&SmolStr::new(&s)).map(|m| m.list()).ok_or(s))
    }
    fn valued(&self) -> bool {
        true
    }
    fn same(&self) -> String {
        format!("{self:?}")
    }
}
impl Table for ViaHeader {
    fn add(&mut self, how: usize, n: &str, v: Option<&str>) -> Result<(), String> {
        match how {
            0 => self.add_param(n, v).map_err(e),
            1 => {
                *self = self.clone().with_param(n, v).map_err(e)?;
                Ok(())
            }
            _ => self.set_param(n, v).map_err(e),
        }
    }
    fn hows(&self) -> usize {
        3
    }
    fn kind(&self, how: usize) -> Kind {
        if how == 2 {
            Kind::Replace
        } else {
            Kind::Refuse
        }
    }
    fn get(&self, n: &str) -> Option<Val> {
        self.param(n).map(o)
    }
    fn list(&self) -> Vec<(String, Val)> {
        self.params().iter().map(|(k, v)| (k.to_string(), o(v))).collect()
    }
    fn again(&self) -> Option<Result<Vec<(String, Val)>, String>> {
        let s = self.to_string();
        Some(ViaHeader::parse(&s).map(|m| m.list()).map_err(|x| format!("{s}: {x:?}")))
    }
    fn same(&self) -> String {
        format!("{self:?}")
    }
}
impl Table for NameAddr {
    fn add(&mut self, _how: usize, n: &str, v: Option<&str>) -> Result<(), String> {
        let had = self.get_param(n).cloned();
        let was = self.insert_param(SmolStr::new(n), v.map(SmolStr::new)).map_err(e)?;
        if was != had {
            return Err(format!("insert_param({n}) reports the earlier value {was:?}, it was {had:?}"));
        }
        Ok(())
    }
    fn kind(&self, _how: usize) -> Kind {
        Kind::Replace
    }
    fn get(&self, n: &str) -> Option<Val> {
        self.get_param(n).map(o)
    }
    fn list(&self) -> Vec<(String, Val)> {
        let a: Vec<(String, Val)> = self.params().map(|(k, v)| (k.to_string(), o(v))).collect();
        let b: Vec<(String, Val)> = self.params_map().iter().map(|(k, v)| (k.to_string(), o(v))).collect();
        if a == b {
            a
        } else {
            vec![("the two listings differ".into(), None)]
        }
    }
    fn again(&self) -> Option<Result<Vec<(String, Val)>, String>> {
        let s = spell("<sip:alice@example.com>", &self.list());
        Some(sip_parse::parse_contact_header(&SmolStr::new(&s)).map(|m| m.inner().list()).ok_or(s))
    }
    fn same(&self) -> String {
        format!("{self:?}")
    }
}
impl Table for SipUri {
    fn add(&mut self, _how: usize, n: &str, v: Option<&str>) -> Result<(), String> {
        *self = self.clone().with_param(n, v).map_err(e)?;
        Ok(())
    }
    fn kind(&self, _how: usize) -> Kind {
        Kind::Replace
    }
    fn get(&self, n: &str) -> Option<Val> {
        self.params().get(n.to_ascii_lowercase().as_str()).map(o)
    }
    fn list(&self) -> Vec<(String, Val)> {
        self.params().iter().map(|(k, v)| (k.to_string(), o(v))).collect()
    }
    fn again(&self) -> Option<Result<Vec<(String, Val)>, String>> {
        let s = self.as_str().to_string();
        Some(SipUri::parse(&s).map(|m| m.list()).map_err(|x| format!("{s}: {x:?}")))
    }
    fn same(&self) -> String {
        format!("{self:?}")
    }
}
impl Table for TelUri {
    fn add(&mut self, _how: usize, n: &str, v: Option<&str>) -> Result<(), String> {
        *self = self.clone().with_parameter(n, v).map_err(e)?;
        Ok(())
    }
    fn kind(&self, _how: usize) -> Kind {
        Kind::Replace
    }
    fn get(&self, n: &str) -> Option<Val> {
        self.parameters().iter().find(|(k, _)| k.eq_ignore_ascii_case(n)).map(|(_, v)| o(v))
    }
    fn list(&self) -> Vec<(String, Val)> {
        self.parameters().iter().map(|(k, v)| (k.to_string(), o(v))).collect()
    }
    fn again(&self) -> Option<Result<Vec<(String, Val)>, String>> {
        let s = self.to_string();
        Some(TelUri::parse(&s).map(|m| m.list()).map_err(|x| format!("{s}: {x:?}")))
    }
    fn same(&self) -> String {
        format!("{self:?}")
    }
}
impl Table for SecurityEntry {
    fn add(&mut self, _how: usize, n: &str, v: Option<&str>) -> Result<(), String> {
        self.set_param(n, v).map_err(e)
    }
    fn kind(&self, _how: usize) -> Kind {
        Kind::Replace
    }
    fn get(&self, n: &str) -> Option<Val> {
        self.get_param(n).map(o)
    }
    fn list(&self) -> Vec<(String, Val)> {
        self.params().iter().map(|(k, v)| (k.to_string(), o(v))).collect()
    }
    fn again(&self) -> Option<Result<Vec<(String, Val)>, String>> {
        let s = self.to_string();
        Some(match sip_core::security::parse_security_client(&s) {
            Ok(x) if x.entries().len() == 1 => Ok(x.entries()[0].list()),
            x => Err(format!("{s}: {x:?}")),
        })
    }
    fn same(&self) -> String {
        format!("{self:?}")
    }
}

fn make(which: usize) -> (&'static str, Box<dyn Table>) {
    let sip = || Uri::parse("sip:alice@example.com").unwrap();
    match which {
        0 => ("Event", Box::new(EventHeader::new("presence").unwrap())),
        1 => ("Subscription-State", Box::new(SubscriptionStateHeader::new(SubscriptionState::Active))),
        2 => ("Geolocation", Box::new(GeolocationValue::new(sip()))),
        3 => ("Geolocation-Error", Box::new(GeolocationErrorHeader::new())),
        4 => ("Geolocation-Routing", Box::new(GeolocationRoutingHeader::new())),
        5 => ("P-Access-Network-Info", Box::new(PAccessNetworkInfo::new("IEEE-802.11").unwrap())),
        6 => ("P-Asserted-Identity", Box::new(PId(PIdentity::from_uri(sip())))),
        7 => ("History-Info", Box::new(HistoryInfoEntry::new(sip()))),
        8 => ("Content-Type", Box::new(MimeType::new("text", "plain").unwrap())),
        9 => ("Referred-By", Box::new(ReferredByHeader::new("sip:alice@example.com").unwrap())),
        10 => ("Authorization", Box::new(AuthorizationHeader::new("Digest").unwrap())),
        11 => ("Via", Box::new(ViaHeader::parse("SIP/2.0/UDP host.example.com:5060").unwrap())),
        12 => ("Contact", Box::new(NameAddr::from_uri(sip()))),
        13 => ("SIP URI", Box::new(SipUri::parse("sip:alice@example.com").unwrap())),
        14 => ("tel URI", Box::new(TelUri::new("+15551234567", true).unwrap())),
        _ => ("Security-Client", Box::new(SecurityEntry::new(SecurityMechanism::Tls))),
    }
}
fn scramble(r: &mut Rng, s: &str) -> String {
    s.chars().map(|c| if r.coin() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}
/// one history of edits on one structure
fn history(r: &mut Rng, rec: &mut Rec, which: usize) {
    let (name, mut t) = make(which);
    let base: Map = t.list().into_iter().map(|(k, v)| (k.to_ascii_lowercase(), v)).collect();
    let mut model = base;
    let names: Vec<String> = (0..2 + r.below(4))
        .map(|i| {
            let extra = if r.chance(1, 3) { format!("-{}", r.alnum(1, 4)) } else { String::new() };
            format!("x{}{i}{extra}", r.lower(0, 5)).to_ascii_lowercase()
        })
        .collect();
    let mut log: Vec<String> = Vec::new();
    let steps = 1 + r.below(10);
    for _ in 0..steps {
        let n = scramble(r, r.clone().pick(&names));
        r.u64();
        let mut quoted = false;
        let v: Option<String> = if r.chance(1, 4) && !t.valued() {
            None
        } else if name == "Content-Type" && r.chance(1, 3) {
            let t = r.string("abc \\\"xyz=;,", 1, 8);
            quoted = true;
            Some(t)
        } else if name == "Authorization" && r.chance(1, 3) {
            Some(r.string("abc xyz=;,", 1, 8).trim().to_string()).filter(|s| !s.is_empty()).or(Some("q".into()))
        } else {
            Some(r.alnum(1, 10))
        };
        let how = r.below(t.hows());
        let before = t.same();
        let kind = t.kind(how);
        let arg = match &v {
            Some(x) if quoted => Some(format!("\"{}\"", x.replace('\\', "\\\\").replace('"', "\\\""))),
            x => x.clone(),
        };
        let res = t.add(how, &n, arg.as_deref());
        log.push(format!("{how}:{n}={arg:?}"));
        let hist = || format!("{name}: {}", log.join(" "));
        let key = n.to_ascii_lowercase();
        let v = if t.valued() { Some(v.unwrap_or_else(|| "x".into())) } else { v };
        rec.eval(Some(&format!("{name}/{how}/{}/{}", model.contains_key(&key), v.is_some())));
        rec.sample(hist);
        match (&res, model.contains_key(&key), kind) {
            (Ok(()), true, Kind::Refuse) => {
                rec.violate(&format!("{name}: second value taken"), &hist());
                return;
            }
            (Err(_), true, Kind::Refuse) => {
                if t.same() != before {
                    rec.violate(&format!("{name}: refused edit changed something"), &hist());
                    return;
                }
            }
            (Err(x), _, _) => {
                rec.violate(&format!("{name}: good parameter refused"), &format!("{} -> {x}", hist()));
                return;
            }
            (Ok(()), _, _) => {
                model.insert(key, v);
            }
        }
        // lookups in any letter case
        for n in &names {
            let q = scramble(r, n);
            let got = t.get(&q);
            let want = model.get(n).cloned();
            // History-Info's accessor answers nothing for a flag
            let want = if name == "History-Info" { want.filter(|v| v.is_some()) } else { want };
            let got = if name == "History-Info" { got.filter(|v| v.is_some()) } else { got };
            rec.check(got == want, &format!("{name}: lookup"), || format!("{} ; lookup {q} gives {got:?}, not {want:?}", hist()));
        }
        let l = t.list();
        let m: Map = l.iter().map(|(k, v)| (k.to_ascii_lowercase(), v.clone())).collect();
        rec.check(m == model && l.len() == model.len(), &format!("{name}: listing"), || {
            format!("{} ; lists {l:?}, not {model:?}", hist())
        });
        if let Some(c) = t.count() {
            rec.check(c == model.len(), &format!("{name}: count"), || format!("{} ; counts {c}", hist()));
        }
        if let Some(a) = t.again() {
            match a {
                Err(x) => {
                    rec.violate(&format!("{name}: written form refused"), &format!("{} ; {x}", hist()));
                }
                Ok(l) => {
                    let m: Map = l.iter().map(|(k, v)| (k.to_ascii_lowercase(), v.clone())).collect();
                    rec.check(m == model && l.len() == model.len(), &format!("{name}: read back"), || {
                        format!("{} ; reads back {l:?}, not {model:?}", hist())
                    });
                }
            }
        }
    }
}

fn main() {
    let mut ctx = Ctx::new(
        "C12",
        "a history of parameter edits on one of 16 kinds of structure is followed in a reference table with case-insensitive names: lookups, listings, counts, refusals and the written form read back must agree after each edit",
    );
    let n = ctx.n(250_000, 3_000_000);
    ctx.run("histories", n, |r, rec| {
        let which = r.below(16);
        let input = || format!("structure {}", make(which).0);
        let mut sub = Rec::default();
        rec.guard("parameter edits", &input, || history(r, &mut sub, which));
        rec.merge(sub);
    });
    // a whole table given at once: one entry per name, in whatever case
    let n = ctx.n(20_000, 400_000);
    ctx.run("given-tables", n, |r, rec| {
        let mut p: BTreeMap<SmolStr, Option<SmolStr>> = BTreeMap::new();
        for _ in 0..r.range(1, 5) {
            let n = r.pick(&["aa", "bb", "cc", "x-long-name"]).to_string();
            let v = if r.coin() { None } else { Some(SmolStr::new(r.alnum(1, 5))) };
            p.insert(SmolStr::new(scramble(r, &n)), v);
        }
        let low: BTreeMap<String, Val> = p.iter().map(|(k, v)| (k.to_ascii_lowercase(), o(v))).collect();
        let clash = low.len() != p.len();
        let given = format!("{p:?}");
        rec.eval(Some(&given));
        rec.sample(|| given.clone());
        rec.count(if clash { "tables naming one parameter twice" } else { "plain tables" }, 1);
        let uri = || Uri::parse("sip:alice@example.com").unwrap();
        let got: [(&str, Option<Map>); 2] = [
            ("address", NameAddr::new(None, uri(), p.clone()).ok().map(|x| x.list().into_iter().collect())),
            ("Reason", ReasonHeader::new("SIP", p.clone()).ok().map(|x| x.params().map(|(k, v)| (k.to_string(), v.map(str::to_string))).collect())),
        ];
        for (name, g) in got {
            let want = if clash { None } else { Some(low.clone()) };
            rec.check(g == want, &format!("{name}: table given"), || format!("{given}: holds {g:?}, should be {want:?}"));
        }
    });
    // a full table: nothing new fits, what is there can still be replaced
    let n = ctx.n(1_500, 40_000);
    ctx.run("full-tables", n, |r, rec| {
        let which = r.below(16);
        let (name, mut t) = make(which);
        let input = || format!("full {name}");
        let mut sub = Rec::default();
        let rc = &mut sub;
        rec.guard("full table", &input, || {
            let mut model: Map = t.list().into_iter().map(|(k, v)| (k.to_ascii_lowercase(), v)).collect();
            let how = r.below(t.hows());
            let mut names: Vec<String> = vec![];
            let mut full = false;
            for i in 0..400 {
                let n = format!("x{i}");
                let before = t.same();
                let v = r.alnum(1, 3);
                if t.add(how, &n, Some(&v)).is_err() {
                    full = true;
                    rc.check(t.same() == before, &format!("{name}: refused addition changed something"), || format!("after {i} parameters"));
                    break;
                }
                model.insert(n.clone(), Some(v));
                names.push(n);
            }
            rc.eval(Some(&format!("{name}/{how}/full {full}")));
            rc.count(if full { "tables that filled up" } else { "tables without a limit" }, 1);
            if names.is_empty() {
                return;
            }
            for _ in 0..4 {
                let n = scramble(r, r.clone().pick(&names));
                r.u64();
                let how = r.below(t.hows());
                let before = t.same();
                let v = r.alnum(4, 6);
                let ok = t.add(how, &n, Some(&v));
                match (t.kind(how), ok) {
                    (Kind::Refuse, Ok(())) => rc.violate(&format!("{name}: second value taken"), format!("{n} in a full table")),
                    (Kind::Refuse, Err(_)) => {
                        rc.check(t.same() == before, &format!("{name}: refused edit changed something"), || n.clone());
                    }
                    (Kind::Replace, Ok(())) => {
                        model.insert(n.to_ascii_lowercase(), Some(v));
                    }
                    (Kind::Replace, Err(x)) => rc.violate(&format!("{name}: replacement refused in a full table"), format!("{} parameters, {n}: {x}", names.len())),
                }
                let m: Map = t.list().iter().map(|(k, v)| (k.to_ascii_lowercase(), v.clone())).collect();
                rc.check(m == model, &format!("{name}: full listing"), || format!("{m:?}, not {model:?}"));
            }
        });
        rec.merge(sub);
    });
    ctx.finish();
}
