//! C10: event state documents (presence, watcher information, registration
//! information) say in XML what was put in, and documents laid out otherwise
//! read as what they say.
use h_core::*;
use sip_core::presence::*;
use sip_core::reg_event as re;
use sip_core::watcher_info::*;

// ---------- a plain element tree, our own strict reader and free writer ----------
#[derive(Clone, Debug, PartialEq, Default)]
struct El {
    name: String,
    attrs: Vec<(String, String)>,
    text: String,
    kids: Vec<El>,
}
impl El {
    fn new(n: &str) -> El {
        El { name: n.into(), ..El::default() }
    }
    fn a(mut self, n: &str, v: impl ToString) -> El {
        self.attrs.push((n.into(), v.to_string()));
        self
    }
    fn t(mut self, v: &str) -> El {
        self.text = v.into();
        self
    }
    fn k(mut self, e: El) -> El {
        self.kids.push(e);
        self
    }
    fn get(&self, n: &str) -> Option<&str> {
        self.attrs.iter().find(|(k, _)| k == n).map(|(_, v)| v.as_str())
    }
    /// attribute order says nothing
    fn norm(mut self) -> El {
        self.attrs.sort();
        self.kids = self.kids.into_iter().map(|k| k.norm()).collect();
        self.text = if self.kids.is_empty() { self.text.trim().to_string() } else { String::new() };
        self
    }
}

struct X<'a> {
    s: &'a str,
    i: usize,
}
type R<T> = Result<T, String>;
impl<'a> X<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn ws(&mut self) -> bool {
        let a = self.i;
        while self.rest().starts_with([' ', '\t', '\r', '\n']) {
            self.i += 1;
        }
        self.i > a
    }
    fn eat(&mut self, t: &str) -> bool {
        let ok = self.rest().starts_with(t);
        if ok {
            self.i += t.len();
        }
        ok
    }
    fn name(&mut self) -> R<String> {
        let n: String = self.rest().chars().take_while(|c| c.is_alphanumeric() || "-_.:".contains(*c)).collect();
        if n.is_empty() || !n.starts_with(|c: char| c.is_alphabetic() || c == '_' || c == ':') {
            return Err(format!("name expected at {}", self.i));
        }
        self.i += n.len();
        Ok(n)
    }
    fn unescape(raw: &str) -> R<String> {
        let mut out = String::new();
        let mut it = raw.split('&');
        out.push_str(it.next().unwrap());
        for p in it {
            let (e, tail) = p.split_once(';').ok_or("bare ampersand")?;
            let c = match e {
                "lt" => '<',
                "gt" => '>',
                "amp" => '&',
                "quot" => '"',
                "apos" => '\'',
                _ => {
                    let n = if let Some(h) = e.strip_prefix("#x") { u32::from_str_radix(h, 16) } else { e.strip_prefix('#').ok_or("unknown entity")?.parse() };
                    char::from_u32(n.map_err(|_| "bad reference")?).ok_or("bad reference")?
                }
            };
            out.push(c);
            out.push_str(tail);
        }
        if out.chars().any(|c| (c < ' ' && !"\t\r\n".contains(c)) || c == '\u{fffe}' || c == '\u{ffff}') {
            return Err("character not allowed in a document".into());
        }
        Ok(out)
    }
    fn element(&mut self) -> R<El> {
        if !self.eat("<") {
            return Err(format!("element expected at {}", self.i));
        }
        let mut e = El::new(&self.name()?);
        loop {
            let sp = self.ws();
            if self.eat("/>") {
                return Ok(e);
            }
            if self.eat(">") {
                break;
            }
            if !sp {
                return Err("no blank before attribute".into());
            }
            let n = self.name()?;
            self.ws();
            if !self.eat("=") {
                return Err("= expected".into());
            }
            self.ws();
            let q = if self.eat("\"") {
                '"'
            } else if self.eat("'") {
                '\''
            } else {
                return Err("quote expected".into());
            };
            let end = self.rest().find(q).ok_or("unclosed value")?;
            let raw = &self.rest()[..end];
            if raw.contains('<') {
                return Err("< in attribute".into());
            }
            self.i += end + 1;
            if e.get(&n).is_some() {
                return Err("attribute twice".into());
            }
            // a literal blank of any kind in an attribute stands for a space
            let v = Self::unescape(&raw.replace(['\t', '\r', '\n'], " "))?;
            e.attrs.push((n, v));
        }
        loop {
            let end = self.rest().find('<').ok_or("unclosed element")?;
            let raw = &self.rest()[..end];
            if raw.contains("]]>") {
                return Err("]]> in text".into());
            }
            e.text.push_str(&Self::unescape(raw)?);
            self.i += end;
            if self.eat("</") {
                let n = self.name()?;
                self.ws();
                if n != e.name || !self.eat(">") {
                    return Err(format!("closing tag of {} is {n}", e.name));
                }
                if !e.kids.is_empty() {
                    if !e.text.trim().is_empty() {
                        return Err("text beside elements".into());
                    }
                    e.text.clear();
                }
                return Ok(e);
            }
            e.kids.push(self.element()?);
        }
    }
    fn doc(s: &str) -> R<El> {
        let mut x = X { s, i: 0 };
        if x.eat("<?xml") {
            let e = x.rest().find("?>").ok_or("declaration")?;
            x.i += e + 2;
        }
        x.ws();
        let e = x.element()?;
        x.ws();
        if x.i != s.len() {
            return Err("something after the document".into());
        }
        Ok(e)
    }
}

fn esc(r: &mut Rng, s: &str, quote: Option<char>) -> String {
    let mut o = String::new();
    for c in s.chars() {
        let must = c == '<' || c == '&' || Some(c) == quote;
        let may = "<&>\"'".contains(c);
        if must || (may && r.chance(1, 2)) || r.chance(1, 40) {
            let named = match c {
                '<' => "&lt;",
                '>' => "&gt;",
                '&' => "&amp;",
                '"' => "&quot;",
                '\'' => "&apos;",
                _ => "",
            };
            match r.below(3) {
                0 => o.push_str(&format!("&#{};", c as u32)),
                1 => o.push_str(&format!("&#x{:X};", c as u32)),
                _ if named.is_empty() => o.push_str(&format!("&#x{:x};", c as u32)),
                _ => o.push_str(named),
            }
        } else {
            o.push(c);
        }
    }
    o
}
fn blank(r: &mut Rng, least: usize) -> String {
    let n = least + if r.chance(1, 4) { r.below(3) } else { 0 };
    (0..n).map(|_| *r.pick(&[" ", " ", "\n", "\t", "\r\n", "\r"])).collect()
}
/// Prints the tree in some permitted layout, with attributes nobody asked for.
fn lay(r: &mut Rng, e: &El, wild: bool, out: &mut String) {
    out.push('<');
    out.push_str(&e.name);
    let mut at = e.attrs.clone();
    if wild {
        for _ in 0..r.below(3) {
            let n = *r.pick(&["xml:lang", "x:id", "x:entity", "identity", "uid", "rid", "x-event", "my-status", "priority", "xsi:note", "xversion", "prestate", "subpackage"]);
            if !at.iter().any(|a| a.0 == n) {
                let v = r.pick(&["en", "0.8", "id='z'", " id=\"z\" ", "a>b", "entity=\"q\" x", "status=\"open\"", "expiration=7", " expiration=\"7\" ", "/", "<note>"]).to_string();
                at.push((n.into(), v));
            }
        }
        r.shuffle(&mut at);
    }
    for (n, v) in &at {
        out.push_str(&if wild { blank(r, 1) } else { " ".into() });
        out.push_str(n);
        let q = if r.coin() { '"' } else { '\'' };
        if wild {
            out.push_str(&blank(r, 0));
        }
        out.push('=');
        if wild {
            out.push_str(&blank(r, 0));
        }
        out.push(q);
        out.push_str(&esc(r, v, Some(q)));
        out.push(q);
    }
    if e.kids.is_empty() && e.text.is_empty() && r.coin() {
        out.push_str(&blank(r, 0));
        out.push_str("/>");
        return;
    }
    if wild {
        out.push_str(&blank(r, 0));
    }
    out.push('>');
    if e.kids.is_empty() {
        if wild {
            out.push_str(&blank(r, 0));
        }
        out.push_str(&esc(r, &e.text, None).replace("]]>", "]]&gt;"));
        if wild {
            out.push_str(&blank(r, 0));
        }
    } else {
        for k in &e.kids {
            out.push_str(&blank(r, 0));
            if wild && r.chance(1, 12) {
                // Another vocabulary's element, whose name begins like one of these.
                let n = *r.pick(&["tuple", "status", "basic", "note", "contact", "presence", "watcher", "watcher-list", "watcherinfo", "registration", "reginfo", "uri", "display-name"]);
                let n = format!("{n}{}x", r.pick(&[".", "_", "-", ":", ""]));
                out.push_str(&match r.below(3) {
                    0 => format!("<{n}/>"),
                    1 => format!("<{n} id='q' state=\"full\"/>"),
                    _ => format!("<{n}>open</{n}>"),
                });
                out.push_str(&blank(r, 0));
            }
            lay(r, k, wild, out);
        }
        out.push_str(&blank(r, 0));
    }
    out.push_str("</");
    out.push_str(&e.name);
    if wild && r.chance(1, 5) {
        out.push_str(&blank(r, 0));
    }
    out.push('>');
}
fn laid_out(r: &mut Rng, e: &El) -> String {
    let mut o = r.pick(&["", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version='1.0'?>"]).to_string();
    lay(r, e, true, &mut o);
    o.push_str(&blank(r, 0));
    o
}

// ---------- values ----------
/// free text without control characters and without blanks at its ends
fn text(r: &mut Rng, lo: usize, hi: usize) -> String {
    loop {
        let n = r.range(lo as i64, hi as i64);
        let s: String = (0..n)
            .map(|_| match r.below(12) {
                0 => *r.pick(&['é', '中', '😀', 'ß', '\u{fffd}']),
                1 | 2 => *r.pick(&['"', '\'', '<', '>', '&', ';', '=', '#', '/', '?', '!']),
                3 => ' ',
                _ => r.alnum(1, 1).chars().next().unwrap(),
            })
            .collect();
        let s = if r.chance(1, 6) { format!("{s}{}", r.pick(&["&amp;", "&#65;", " id=\"x\"", " expiration=1 ", "<note>no</note>", "</tuple>", "/>", "</watcher>", "status='a'", " entity=\"e\" ", "<basic>open</basic>", "&lt;x"])) } else { s };
        let s = s.trim().to_string();
        if s.chars().count() >= lo {
            return s;
        }
    }
}
fn uri(r: &mut Rng) -> String {
    let mut u = format!("sip:{}@{}.example.com", r.alnum(1, 8), r.lower(1, 6));
    if r.chance(1, 3) {
        u.push_str(&format!(";{}={}", r.lower(1, 4), r.alnum(1, 4)));
    }
    if r.chance(1, 3) {
        u.push_str(&format!("?{}={}&{}={}", r.lower(1, 3), r.alnum(1, 3), r.lower(1, 3), r.alnum(0, 3)));
    }
    if r.chance(1, 10) {
        u = r.pick(&["tel:+1;x=&amp;", "sip:a;x=&amp;", "sip:a@b?x=&amp", "urn:a&amp;b", "http://a/?b=1&amp;c=2", "http://a/&lt;&#65;", "sip:&&@b", "sip:'&apos@b"]).to_string();
    }
    u
}
fn num(r: &mut Rng) -> u32 {
    match r.below(5) {
        0 => 0,
        1 => u32::MAX,
        2 => r.u32(),
        _ => r.below(10000) as u32,
    }
}

// ---------- presence ----------
fn presence(r: &mut Rng) -> (PresenceDocument, El) {
    let ent = if r.coin() { uri(r) } else { text(r, 1, 20) };
    let mut d = PresenceDocument::new(&ent).unwrap();
    let mut e = El::new("presence").a("xmlns", "urn:ietf:params:xml:ns:pidf").a("entity", &ent);
    let n = if r.chance(1, 60) { 50 } else { r.below(4) };
    for _ in 0..n {
        let id = text(r, 1, 8);
        let mut t = Tuple::new(&id).unwrap();
        let mut te = El::new("tuple").a("id", &id);
        if r.chance(3, 4) {
            let s = *r.pick(&[BasicStatus::Open, BasicStatus::Closed]);
            t = t.with_status(s);
            te = te.k(El::new("status").k(El::new("basic").t(if s == BasicStatus::Open { "open" } else { "closed" })));
        }
        if r.coin() {
            let c = text(r, 0, 20);
            t = t.with_contact(&c).unwrap();
            te = te.k(El::new("contact").t(&c));
        }
        for _ in 0..[0, 0, 1, 2, 10][r.below(5)] {
            let c = text(r, 0, 20);
            t = t.with_note(&c).unwrap();
            te = te.k(El::new("note").t(&c));
        }
        if r.coin() {
            let c = if r.coin() { "2025-01-21T12:00:00Z".to_string() } else { text(r, 0, 10) };
            t = t.with_timestamp(&c).unwrap();
            te = te.k(El::new("timestamp").t(&c));
        }
        d.add_tuple(t).unwrap();
        e = e.k(te);
    }
    for _ in 0..[0, 0, 1, 3, 20][r.below(5)] {
        let c = text(r, 0, 20);
        d.add_note(&c).unwrap();
        e = e.k(El::new("note").t(&c));
    }
    (d, e)
}

// ---------- watcher information ----------
const WST: [(&str, WatcherStatus); 4] = [("pending", WatcherStatus::Pending), ("active", WatcherStatus::Active), ("waiting", WatcherStatus::Waiting), ("terminated", WatcherStatus::Terminated)];
const WEV: [(&str, WatcherEvent); 8] = [
    ("subscribe", WatcherEvent::Subscribe),
    ("approved", WatcherEvent::Approved),
    ("deactivated", WatcherEvent::Deactivated),
    ("probation", WatcherEvent::Probation),
    ("rejected", WatcherEvent::Rejected),
    ("timeout", WatcherEvent::Timeout),
    ("giveup", WatcherEvent::Giveup),
    ("noresource", WatcherEvent::Noresource),
];
fn watchers(r: &mut Rng) -> (WatcherinfoDocument, El) {
    let v = num(r);
    let st = *r.pick(&["full", "partial"]);
    let given = if r.chance(1, 4) { st.to_uppercase() } else { st.to_string() };
    let mut d = WatcherinfoDocument::new(v, given).unwrap();
    let mut e = El::new("watcherinfo").a("xmlns", "urn:ietf:params:xml:ns:watcherinfo").a("version", v).a("state", st);
    let n = if r.chance(1, 80) { 100 } else { r.below(4) };
    for _ in 0..n {
        let res = uri(r);
        let pkg = r.pick(&["presence", "presence.winfo", "dialog", "x-a.b", "a!b'c~d", "message-summary"]).to_string();
        let mut l = WatcherList::new(res.as_str(), pkg.as_str()).unwrap();
        let mut le = El::new("watcher-list").a("resource", &res).a("package", &pkg);
        for _ in 0..r.below(4) {
            let id = text(r, 1, 10);
            let (sn, s) = *r.pick(&WST);
            let (en, ev) = *r.pick(&WEV);
            let mut w = Watcher::new(id.as_str(), s, ev).unwrap();
            let mut we = El::new("watcher").a("id", &id).a("status", sn).a("event", en);
            if r.coin() {
                let mut t = text(r, 0, 16);
                if r.chance(1, 6) {
                    t = format!("{}{t}{}", r.pick(&["", " ", "  "]), r.pick(&[" ", "", "  "]));
                }
                w = w.with_display_name(t.as_str()).unwrap();
                we = we.a("display-name", &t);
            }
            if r.coin() {
                let x = num(r);
                w = w.with_expiration(x);
                we = we.a("expiration", x);
            }
            if r.coin() {
                let x = num(r);
                w = w.with_duration_subscribed(x);
                we = we.a("duration-subscribed", x);
            }
            if r.chance(3, 4) {
                let u = uri(r);
                w = w.with_uri(u.as_str()).unwrap();
                we = we.t(&u);
            }
            l.add_watcher(w).unwrap();
            le = le.k(we);
        }
        d.add_watcher_list(l).unwrap();
        e = e.k(le);
    }
    (d, e)
}

// ---------- registration information ----------
fn reginfo(r: &mut Rng) -> (re::RegInfo, El) {
    use re::*;
    let v = num(r);
    let (sn, s) = *r.pick(&[("full", RegInfoState::Full), ("partial", RegInfoState::Partial)]);
    let mut d = RegInfo::new(v, s);
    let mut e = El::new("reginfo").a("xmlns", "urn:ietf:params:xml:ns:reginfo").a("version", v).a("state", sn);
    for _ in 0..r.below(4) {
        let aor = if r.coin() { uri(r) } else { text(r, 1, 16) };
        let id = text(r, 1, 8);
        let (sn, s) = *r.pick(&[("init", RegistrationState::Init), ("active", RegistrationState::Active), ("terminated", RegistrationState::Terminated)]);
        let mut g = Registration::new(&aor, &id, s).unwrap();
        let mut ge = El::new("registration").a("aor", &aor).a("id", &id).a("state", sn);
        for _ in 0..r.below(4) {
            let id = text(r, 1, 8);
            let u = if r.coin() { uri(r) } else { text(r, 1, 16) };
            let (sn, s) = *r.pick(&[("active", ContactState::Active), ("terminated", ContactState::Terminated)]);
            let mut c = Contact::new(&id, s, &u).unwrap();
            let mut ce = El::new("contact").a("id", &id).a("state", sn);
            if r.coin() {
                let (n, ev) = *r.pick(&[
                    ("registered", ContactEvent::Registered),
                    ("created", ContactEvent::Created),
                    ("refreshed", ContactEvent::Refreshed),
                    ("shortened", ContactEvent::Shortened),
                    ("expired", ContactEvent::Expired),
                    ("deactivated", ContactEvent::Deactivated),
                    ("rejected", ContactEvent::Rejected),
                    ("unregistered", ContactEvent::Unregistered),
                    ("probation", ContactEvent::Probation),
                ]);
                c = c.with_event(ev);
                ce = ce.a("event", n);
            }
            if r.coin() {
                let x = num(r);
                c = c.with_expires(x);
                ce = ce.a("expires", x);
            }
            if r.coin() {
                let x = num(r);
                c = c.with_retry_after(x);
                ce = ce.a("retry-after", x);
            }
            if r.coin() {
                let x = num(r);
                c = c.with_duration_registered(x);
                ce = ce.a("duration-registered", x);
            }
            if r.coin() {
                let q = r.below(1001) as u32;
                c = c.with_q(q as f32 / 1000.0).unwrap();
                ce = ce.a("q", q);
            }
            if r.coin() {
                let t = text(r, 1, 12);
                c = c.with_call_id(&t).unwrap();
                ce = ce.a("callid", &t);
            }
            if r.coin() {
                let x = num(r);
                c = c.with_cseq(x);
                ce = ce.a("cseq", x);
            }
            ce = ce.k(El::new("uri").t(&u));
            if r.coin() {
                let t = text(r, 0, 12);
                c = c.with_display_name(&t).unwrap();
                ce = ce.k(El::new("display-name").t(&t));
            }
            g.add_contact(c).unwrap();
            ge = ge.k(ce);
        }
        d.add_registration(g).unwrap();
        e = e.k(ge);
    }
    (d, e)
}
/// q values as thousandths
fn q_norm(mut e: El) -> El {
    if e.name == "contact" {
        for a in e.attrs.iter_mut().filter(|a| a.0 == "q") {
            a.1 = match a.1.parse::<f64>() {
                Ok(q) if (0.0..=1.0).contains(&q) => format!("{}", (q * 1000.0).round()),
                _ => format!("unreadable {}", a.1),
            };
        }
    }
    e.kids = e.kids.into_iter().map(q_norm).collect();
    e
}
/// notes of the document come after its tuples, in order, whatever lies between
fn strict(xml: &str) -> R<El> {
    X::doc(xml).map(El::norm)
}

fn main() {
    let mut ctx = Ctx::new("C10", "Each case draws a random presence, watcher-information or registration document: (1) it is built through the interface, printed, and read by an independent strict XML reader, which must find exactly the elements, attributes and text put in, and by the library's own reader, which must give the same document; (2) an independent writer prints the same document in another permitted layout (attribute order, quotes, blanks, character references, foreign attributes, empty elements closed in place) and the library must read the same document; (3) mutated and random documents must not panic, and what is accepted must print to a document that reads back as the same. Distinct keys are the documents.");
    ctx.assume("documents without comments, CDATA sections, document types or namespace prefixes on the elements; values without blanks at their ends or control characters");
    let n = ctx.n(60_000, 1_500_000);

    ctx.run("presence", n, |r, rec| {
        let (d, e) = presence(r);
        let xml = d.to_xml();
        rec.eval(Some(&xml));
        rec.sample(|| xml.clone());
        let want = e.clone().norm();
        match strict(&xml) {
            Ok(got) => { rec.check(got == want, "presence-printed", || format!("want {want:?}\ngot {got:?}\n{xml}")); }
            Err(x) => rec.violate("presence-malformed", &format!("{x}: {xml}")),
        }
        rec.check(d.to_string() == xml, "presence-display", || xml.clone());
        let back = rec.guard("parse_pidf", &|| xml.clone(), || parse_pidf(&xml));
        if let Some(b) = back {
            rec.check(b.as_ref() == Ok(&d), "presence-round-trip", || format!("{b:?}\n{xml}"));
        }
        // Notes of the document may stand among its tuples.
        let mut mixed = e.clone();
        if r.chance(1, 3) {
            let (notes, mut kids): (Vec<El>, Vec<El>) = mixed.kids.into_iter().partition(|k| k.name == "note");
            let mut at = 0;
            for n in notes {
                at = r.range(at as i64, kids.len() as i64) as usize;
                kids.insert(at, n);
                at += 1;
            }
            mixed.kids = kids;
        }
        let other = laid_out(r, &mixed);
        if let Some(b) = rec.guard("parse_pidf", &|| other.clone(), || parse_pidf(&other)) {
            rec.check(b.as_ref() == Ok(&d), "presence-layout", || format!("want {d:?}\ngot {b:?}\n{other}"));
        }
    });
    ctx.run("watchers", n, |r, rec| {
        let (d, e) = watchers(r);
        let xml = d.to_xml();
        rec.eval(Some(&xml));
        rec.sample(|| xml.clone());
        let want = e.clone().norm();
        match strict(&xml) {
            Ok(got) => { rec.check(got == want, "watchers-printed", || format!("want {want:?}\ngot {got:?}\n{xml}")); }
            Err(x) => rec.violate("watchers-malformed", &format!("{x}: {xml}")),
        }
        let partial = e.attrs.iter().any(|(n, v)| n == "state" && v == "partial");
        rec.check(d.is_partial() == partial && d.is_full() != partial, "watchers-partial", || format!("full {} partial {}\n{xml}", d.is_full(), d.is_partial()));
        if let Some(b) = rec.guard("parse_watcherinfo", &|| xml.clone(), || parse_watcherinfo(&xml)) {
            rec.check(b.as_ref() == Ok(&d), "watchers-round-trip", || format!("{b:?}\n{xml}"));
        }
        let other = laid_out(r, &e);
        if let Some(b) = rec.guard("parse_watcherinfo", &|| other.clone(), || parse_watcherinfo(&other)) {
            rec.check(b.as_ref() == Ok(&d), "watchers-layout", || format!("want {d:?}\ngot {b:?}\n{other}"));
        }
    });
    ctx.run("reginfo", n, |r, rec| {
        let (d, e) = reginfo(r);
        let xml = d.to_string();
        rec.eval(Some(&xml));
        rec.sample(|| xml.clone());
        let want = e.norm();
        match strict(&xml).map(q_norm) {
            Ok(got) => { rec.check(got == want, "reginfo-printed", || format!("want {want:?}\ngot {got:?}\n{xml}")); }
            Err(x) => rec.violate("reginfo-malformed", &format!("{x}: {xml}")),
        }
    });
    // Documents which lack something every one has, or say what none may.
    ctx.run("spoiled", n / 2, |r, rec| {
        let pidf = r.coin();
        let mut e = if pidf { presence(r).1 } else { watchers(r).1 };
        fn all<'a>(e: &'a mut El, name: &str, out: &mut Vec<&'a mut El>) {
            if e.name == name {
                out.push(e);
                return;
            }
            for k in &mut e.kids {
                all(k, name, out);
            }
        }
        let (name, attr): (&str, &str) = *r.pick(if pidf {
            &[("presence", "entity"), ("presence", ""), ("tuple", "id"), ("basic", "#"), ("tuple", "contact"), ("tuple", "timestamp")][..]
        } else {
            &[("watcherinfo", ""), ("watcherinfo", "version"), ("watcherinfo", "state"), ("watcher-list", "resource"), ("watcher-list", "package"), ("watcher", "id"), ("watcher", "status"), ("watcher", "event"), ("watcher", "?status"), ("watcher", "?event"), ("watcherinfo", "?version"), ("watcherinfo", "?state"), ("watcher-list", "?package")][..]
        });
        let mut at = Vec::new();
        all(&mut e, name, &mut at);
        if at.is_empty() {
            return;
        }
        let k = r.below(at.len());
        let x = &mut at[k];
        match attr {
            "" => x.name = r.pick(&["document", "presence.x", "watcherinf", "list"]).to_string(),
            "#" => x.text = r.pick(&["", "opened", "close", "open closed", "busy", "0", "openopen", "<open>"]).to_string(),
            "contact" | "timestamp" => {
                let two: Vec<El> = x.kids.iter().filter(|k| k.name == attr).cloned().collect();
                let one = two.first().cloned().unwrap_or_else(|| El::new(attr).t("sip:a@b"));
                let add = 2 - two.len().min(2);
                for _ in 0..add {
                    let i = r.below(x.kids.len() + 1);
                    x.kids.insert(i, one.clone());
                }
            }
            a if a.starts_with('?') => {
                let v = match &a[1..] {
                    "version" => *r.pick(&["", "x", "-1", "4294967296", "1.0", "0x1"]),
                    "state" => *r.pick(&["", "fullfullfullfullfull"]),
                    "package" => *r.pick(&["", "a b", "a/b", "a;b", "a@b", "a\"b", "a,b", "a:b", "pr\u{e9}sence"]),
                    "status" => *r.pick(&["", "actives", "pend", "active pending", "subscribe"]),
                    _ => *r.pick(&["", "subscribed", "reject", "active", "time-out"]),
                };
                for y in &mut x.attrs {
                    if y.0 == a[1..] {
                        y.1 = v.to_string();
                    }
                }
            }
            a => {
                if r.coin() {
                    x.attrs.retain(|y| y.0 != a);
                } else {
                    // Another vocabulary's attribute of that name is not this one.
                    for y in &mut x.attrs {
                        if y.0 == a {
                            y.0 = format!("x:{a}");
                        }
                    }
                }
            }
        }
        let s = if r.coin() { laid_out(r, &e) } else { let mut o = String::new(); lay(r, &e, false, &mut o); o };
        rec.eval(Some(&s));
        rec.count(&format!("refused: {name} {attr}"), 1);
        let ok = if pidf { rec.guard("parse_pidf", &|| s.clone(), || parse_pidf(&s).is_ok()) } else { rec.guard("parse_watcherinfo", &|| s.clone(), || parse_watcherinfo(&s).is_ok()) };
        rec.check(ok != Some(true), "spoiled document accepted", || format!("{name} {attr}: {s}"));
    });
    ctx.run("hostile", n, |r, rec| {
        let pidf = r.coin();
        let mut b = match r.below(3) {
            0 if pidf => presence(r).0.to_xml().into_bytes(),
            0 => watchers(r).0.to_xml().into_bytes(),
            1 => {
                let e = if pidf { presence(r).1 } else { watchers(r).1 };
                laid_out(r, &e).into_bytes()
            }
            _ => {
                let mut s = String::new();
                for _ in 0..r.below(14) {
                    s.push_str(r.pick(&["<presence", " entity=\"a\"", " entity='", "<tuple", " id=\"1\"", ">", "</tuple>", "<note>", "</note>", "<note/>", "<watcherinfo", " version=\"1\"", " state=\"full\"", "<watcher-list", " resource=\"sip:a@b\"", " package=\"p\"", "<watcher ", " status=\"active\"", " event=\"subscribe\"", "</watcher>", "</watcher-list>", "<contact>", "</contact>", "&#x110000;", "&#xD800;", "&", "=", "\"", "é", "<basic>", "open", "</basic>", "<timestamp>", "</timestamp>"]));
                }
                s.into_bytes()
            }
        };
        let edits = r.below(5);
        r.mutate(&mut b, edits);
        let s = String::from_utf8_lossy(&b).into_owned();
        rec.eval(Some(&s));
        if pidf {
            if let Some(Ok(d)) = rec.guard("parse_pidf", &|| s.clone(), || parse_pidf(&s)) {
                let xml = d.to_xml();
                match rec.guard("parse_pidf", &|| xml.clone(), || parse_pidf(&xml)) {
                    Some(b2) => {
                        // blanks at the ends of values are not kept
                        let same = b2.as_ref().map(|b2| b2.to_xml() == xml).unwrap_or(false) || untidy(&xml);
                        rec.check(same, "presence-stable", || format!("{s}\n{xml}"));
                    }
                    None => {}
                }
            }
        } else if let Some(Ok(d)) = rec.guard("parse_watcherinfo", &|| s.clone(), || parse_watcherinfo(&s)) {
            let xml = d.to_xml();
            if let Some(b2) = rec.guard("parse_watcherinfo", &|| xml.clone(), || parse_watcherinfo(&xml)) {
                rec.check(b2.as_ref() == Ok(&d), "watchers-stable", || format!("{s}\n{xml}"));
            }
        }
    });
    ctx.finish();
}
/// does some text value in the printed document begin or end with a blank?
fn untidy(xml: &str) -> bool {
    fn any(e: &El) -> bool {
        (e.kids.is_empty() && e.text != e.text.trim()) || e.kids.iter().any(any)
    }
    X::doc(xml).map(|e| any(&e)).unwrap_or(false)
}
