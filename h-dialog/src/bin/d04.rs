//! D04: subscriptions: what is recorded, and the subscription manager.
use h_dialog::*;
use sip_dialog::{Subscription, SubscriptionId, SubscriptionManager, SubscriptionState as S};
use std::collections::BTreeMap;
use std::sync::{Arc, Barrier};
use std::time::Duration;
use vmon::{Ctx, Rec, Rng};

const CAP: usize = 10_000;

fn event(r: &mut Rng) -> String {
    let p = *r.pick(&["presence", "reg", "dialog", "message-summary", "presence.winfo", "conference", "refer"]);
    match r.below(5) {
        0 => format!("{p};id={}", r.alnum(1, 8)),
        1 => format!("{p};x=\u{e9}\u{e9}"),
        _ => p.to_string(),
    }
}

fn create(r: &mut Rng, rec: &mut Rec) {
    let (fu, tu, ft, tt, cid, ev) = (uri(r), uri(r), tag(r), tag(r), call_id(r), event(r));
    let cseq = *r.pick(&[1u64, 2, 77, 2_147_483_647]);
    let req_exp = r.chance(2, 3).then(|| r.ur(0, 100_000));
    let resp_exp = r.chance(2, 3).then(|| r.ur(0, 100_000));
    let ct = r.chance(9, 10).then(|| uri(r));
    let sc = uri(r);
    let to_tag = r.chance(15, 16).then_some(tt.as_str());
    let has_event = r.chance(15, 16);
    let mut req = Msg {
        first: "SUBSCRIBE sip:t@h.example.net SIP/2.0".into(),
        from: party(r, &fu, Some(&ft)),
        to: party(r, &tu, None),
        call_id: cid.clone(),
        cseq: format!("{cseq} SUBSCRIBE"),
        rest: vec![("Contact".into(), contact(r, &sc))],
    };
    let mut resp = req.clone();
    resp.first = format!("SIP/2.0 {} OK", r.pick(&[200, 202]));
    resp.to = party(r, &tu, to_tag);
    resp.rest.clear();
    if has_event {
        req.rest.push(("Event".into(), ev.clone()));
    }
    if let Some(x) = req_exp {
        req.rest.push(("Expires".into(), x.to_string()));
    }
    if let Some(x) = resp_exp {
        resp.rest.push(("Expires".into(), x.to_string()));
    }
    if let Some(x) = &ct {
        resp.rest.push(("Contact".into(), contact(r, x)));
    }
    let (q, p) = (req.request(r), resp.response(r));
    let notifier = r.coin();
    let show = || format!("notifier={notifier}\n{req:?}\n{resp:?}");
    let Some(s) = rec.guard("create", &show, || if notifier { Subscription::new_notifier(&q, &p, u(&tu), u(&fu)) } else { Subscription::new_subscriber(&q, &p, u(&fu), u(&tu)) }) else { return };
    if notifier && ct.is_none() {
        return;
    }
    let want = to_tag.is_some() && has_event && ct.is_some();
    rec.eval(Some(&(notifier, want, cseq, req_exp.is_some(), resp_exp.is_some(), ev.len())));
    if !rec.check(s.is_some() == want, "created", || format!("created {} expected {want}; {}", s.is_some(), show())) {
        return;
    }
    let Some(mut s) = s else { return };
    rec.sample(|| format!("{s:?}"));
    let i = s.id();
    rec.check(i.call_id() == cid && i.from_tag() == ft && i.to_tag() == tt && i.event() == ev, "identity", || format!("{i:?}; {}", show()));
    let same = SubscriptionId::new(&cid, &ft, &tt, &ev);
    rec.check(same.as_ref() == Ok(i), "identity-checked", || format!("{same:?} vs {i:?}"));
    let exp = resp_exp.or(if notifier { req_exp } else { None }).unwrap_or(3600);
    rec.check(s.expires() == Duration::from_secs(exp), "expires", || format!("{:?} expected {exp}; {}", s.expires(), show()));
    rec.check(s.state() == S::Active, "state", show);
    // The peer's: the subscriber's stands in its request, the notifier's in the answer.
    let peer = if notifier { &sc } else { ct.as_ref().unwrap() };
    rec.check(s.contact() == &u(peer), "contact", || format!("{:?}; {}", s.contact(), show()));
    let (l, rm) = if notifier { (&tu, &fu) } else { (&fu, &tu) };
    rec.check(s.local_uri() == &u(l) && s.remote_uri() == &u(rm), "uris", show);
    // Own requests count upwards from the recorded number.
    let mut last = s.local_cseq();
    for _ in 0..r.range(1, 5) {
        let n = s.next_local_cseq();
        rec.check(n == last + 1 && s.local_cseq() == n, "cseq", || format!("{n} after {last}"));
        last = n;
    }
    let id = s.id().clone();
    let st = *r.pick(&[S::Active, S::Pending, S::Terminated]);
    let e = Duration::from_secs(r.ur(0, 1 << 33));
    s.update_state(st);
    s.update_expires(e);
    rec.check(s.state() == st && s.expires() == e && s.id() == &id && s.local_cseq() == last, "updates", || format!("{s:?}"));
}

fn limits(r: &mut Rng, rec: &mut Rec) {
    let part = |r: &mut Rng, max: usize| -> (String, bool) {
        match r.below(9) {
            0 => (String::new(), false),
            1 => ("a".repeat(max), true),
            2 => ("a".repeat(max + 1), false),
            3 => (format!("{}\u{7f}", r.alnum(1, 5)), false),
            4 => (format!("x\r\n{}", r.alnum(1, 5)), false),
            _ => (r.alnum(1, 20), true),
        }
    };
    let (a, x) = part(r, 256);
    let (b, y) = part(r, 128);
    let (c, z) = part(r, 128);
    let (mut e, mut w) = part(r, 64);
    if w && r.coin() {
        let (i, ok) = part(r, 128);
        e.push_str(&format!("{}{i}", r.pick(&[";id=", "; ID=", ";x=\u{e9};id="])));
        w = ok || i.is_empty();
    } else if w && r.coin() {
        e.push_str(&format!(";{}", r.string("\u{e9}\u{4e2d}aid=", 1, 6)));
    }
    let got = rec.guard("SubscriptionId::new", &|| format!("{a:?} {b:?} {c:?} {e:?}"), || SubscriptionId::new(&a, &b, &c, &e));
    let Some(got) = got else { return };
    rec.eval(Some(&(x, y, z, w, e.len())));
    rec.check(got.is_ok() == (x && y && z && w), "id-limits", || format!("SubscriptionId::new({a:?},{b:?},{c:?},{e:?}) = {got:?}"));
    let last = *r.pick(&[u32::MAX, u32::MAX - 1, 2_147_483_647]);
    let id = SubscriptionId::unchecked_new("c", "f", "t", "e");
    let mut s = Subscription::unchecked_new(id, S::Active, u("sip:a@a"), u("sip:b@b"), u("sip:b@b"), Duration::from_secs(1), last, 0);
    rec.guard("next_local_cseq", &|| format!("{last}"), || {
        for _ in 0..3 {
            let before = s.local_cseq();
            assert!(s.next_local_cseq() >= before);
        }
    });
    let t = r.nasty(0, 60);
    rec.guard("SubscriptionId::new", &|| format!("{t:?}"), || SubscriptionId::new("c", "f", "t", &t).is_ok());
}

type K = (String, String, String, String);
fn sub(k: &K, s: S, mark: u64) -> Subscription {
    let id = SubscriptionId::unchecked_new(k.0.as_str(), k.1.as_str(), k.2.as_str(), k.3.as_str());
    Subscription::unchecked_new(id, s, u("sip:a@a"), u("sip:b@b"), u("sip:b@b"), Duration::from_secs(mark), 1, 0)
}
fn key(i: &SubscriptionId) -> K {
    (i.call_id().into(), i.from_tag().into(), i.to_tag().into(), i.event().into())
}
fn all(v: Vec<Subscription>) -> BTreeMap<K, (S, u64)> {
    let n = v.len();
    let m: BTreeMap<K, (S, u64)> = v.iter().map(|s| (key(s.id()), (s.state(), s.expires().as_secs()))).collect();
    assert_eq!(m.len(), n, "a subscription is listed twice");
    m
}

fn manager(r: &mut Rng, rec: &mut Rec, fill: usize) {
    let mgr = SubscriptionManager::new();
    let mut m: BTreeMap<K, (S, u64)> = BTreeMap::new();
    let pool: Vec<K> = {
        let (c, t) = (call_id(r), tag(r));
        (0..r.range(2, 12)).map(|_| (match r.below(5) { 0 | 1 => c.clone(), 2 => flip(r, &c), _ => call_id(r) }, match r.below(5) { 0 | 1 => t.clone(), 2 => flip(r, &t), _ => tag(r) }, t.clone(), event(r))).collect()
    };
    for i in 0..fill {
        let k = (format!("fill{i}"), "a".to_string(), "b".to_string(), "presence".to_string());
        if !rec.check(mgr.insert(sub(&k, S::Active, 1)).is_ok(), "fill", || format!("subscription {i} refused")) {
            return;
        }
        m.insert(k, (S::Active, 1));
    }
    let mut log = vec![];
    for _ in 0..r.range(4, 40) {
        let k = r.pick(&pool).clone();
        match r.below(8) {
            0..=3 => {
                let (s, mark) = (*r.pick(&[S::Active, S::Pending, S::Terminated]), r.ub(1000));
                let want = m.len() < CAP || m.contains_key(&k);
                let got = mgr.insert(sub(&k, s, mark));
                log.push(format!("insert {k:?} {s:?} -> {got:?}"));
                if want {
                    m.insert(k.clone(), (s, mark));
                }
                rec.check(got.is_ok() == want, "insert", || format!("{got:?} with {} held; {log:#?}", m.len()));
            }
            4 | 5 => {
                let got = mgr.remove(sub(&k, S::Active, 0).id()).map(|s| (s.state(), s.expires().as_secs()));
                let want = m.remove(&k);
                log.push(format!("remove {k:?}"));
                rec.check(got == want, "remove", || format!("{got:?} expected {want:?}; {log:#?}"));
            }
            6 => {
                let got = mgr.cleanup_terminated();
                let n = m.len();
                m.retain(|_, v| v.0 != S::Terminated);
                log.push(format!("cleanup -> {got}"));
                rec.check(got == n - m.len(), "cleanup", || format!("{got} expected {}; {log:#?}", n - m.len()));
            }
            _ => {
                let got = all(mgr.by_event(&k.3));
                let want: BTreeMap<K, (S, u64)> = m.iter().filter(|(q, _)| q.3 == k.3).map(|(a, b)| (a.clone(), *b)).collect();
                rec.check(got == want, "by-event", || format!("{} found, {} expected for {}; {log:#?}", got.len(), want.len(), k.3));
            }
        }
        let got = mgr.get(sub(&k, S::Active, 0).id()).map(|s| (s.state(), s.expires().as_secs()));
        rec.check(got == m.get(&k).copied(), "get", || format!("{got:?}; {log:#?}"));
    }
    rec.check(all(mgr.all()) == m, "all", || format!("{log:#?}"));
    rec.eval(Some(&format!("{fill}{log:?}")));
    rec.count("steps", log.len() as u64);
}

fn contest(r: &mut Rng, rec: &mut Rec) {
    let mgr = SubscriptionManager::new();
    let room = r.below(12);
    let threads = r.range(2, 8) as usize;
    for i in 0..CAP - room {
        mgr.insert(sub(&(format!("f{i}"), "a".into(), "b".into(), "p".into()), S::Active, 0)).expect("fill");
    }
    let bar = Arc::new(Barrier::new(threads));
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (mgr, bar) = (mgr.clone(), bar.clone());
            std::thread::spawn(move || {
                let v: Vec<_> = (0..12).map(|i| sub(&(format!("t{t}i{i}"), "a".into(), "b".into(), "p".into()), S::Active, 0)).collect();
                bar.wait();
                v.into_iter().filter(|s| mgr.insert(s.clone()).is_ok()).count()
            })
        })
        .collect();
    let ok: usize = hs.into_iter().map(|h| h.join().expect("worker panicked")).sum();
    let held = mgr.all().len();
    rec.eval(Some(&(threads, room)));
    rec.count("contest_inserts", ok as u64);
    rec.check(held <= CAP && ok == room.min(threads * 12) && held == CAP - room + ok, "cap", || format!("room {room} threads {threads}: {ok} accepted, {held} held"));
}

/// Clean-up running while other threads remove, replace and clean up as well:
/// every terminated subscription goes exactly once, and one that was replaced
/// by a live one stays.
fn cleanup_race(r: &mut Rng, rec: &mut Rec) {
    let mgr = SubscriptionManager::new();
    let n = r.range(8, 160) as usize;
    let revive = r.coin();
    let k = |i: usize| -> K { (format!("c{}", i / 3), format!("f{i}"), "t".into(), "presence".into()) };
    for i in 0..n {
        mgr.insert(sub(&k(i), S::Terminated, 0)).expect("fill");
    }
    let live = r.range(0, 5) as usize;
    for i in n..n + live {
        mgr.insert(sub(&k(i), *r.pick(&[S::Active, S::Pending]), 1)).expect("fill");
    }
    let cleaners = r.range(1, 3) as usize;
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    let bar = Arc::new(Barrier::new(cleaners + 1));
    let hs: Vec<_> = (0..cleaners)
        .map(|_| {
            let (mgr, bar) = (mgr.clone(), bar.clone());
            std::thread::spawn(move || {
                bar.wait();
                let a = mgr.cleanup_terminated();
                a + mgr.cleanup_terminated()
            })
        })
        .collect();
    bar.wait();
    let mut removed = 0;
    for &i in &order {
        if revive {
            mgr.insert(sub(&k(i), S::Active, 7)).expect("room");
        } else if mgr.remove(sub(&k(i), S::Active, 0).id()).is_some() {
            removed += 1;
        }
    }
    let cleaned: usize = hs.into_iter().map(|h| h.join().expect("worker panicked")).sum();
    let left = all(mgr.all());
    rec.eval(Some(&(n, revive, cleaners, cleaned, removed)));
    rec.count("raced_cleanups", 1);
    rec.count("raced_cleanup_overlaps", u64::from(cleaned > 0 && cleaned < n));
    if revive {
        rec.check(left.len() == n + live, "cleanup-takes-live", || format!("{} live subscriptions inserted, {} held after {cleaners} clean-ups ran alongside (they report {cleaned})", n + live, left.len()));
        rec.check(cleaned <= n, "cleanup-count", || format!("{cleaned} cleaned of {n}"));
    } else {
        rec.check(left.len() == live, "cleanup-leaves", || format!("{} held, {live} live", left.len()));
        rec.check(cleaned + removed == n, "cleanup-count", || format!("{n} terminated subscriptions: {cleaned} reported cleaned by {cleaners} threads and {removed} removed"));
    }
}

fn main() {
    let mut c = Ctx::new("D04", "a subscription records what its SUBSCRIBE exchange said; the manager equals a keyed-collection model and its limit is exact under contention");
    c.run("create", c.n(50_000, 800_000), create);
    c.run("limits", c.n(50_000, 800_000), limits);
    c.run("manager", c.n(20_000, 300_000), |r, rec| manager(r, rec, 0));
    c.run("manager-limit", c.n(100, 1_000), |r, rec| {
        let n = r.range(9_992, 10_000) as usize;
        manager(r, rec, n)
    });
    c.run_on(2, "contest", c.n(100, 1_500), contest);
    c.run_on(2, "cleanup-race", c.n(2_000, 30_000), cleanup_race);
    c.assume("thread interleavings are those the operating system produced");
    c.finish();
}
