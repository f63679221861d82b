//! D03: dialog manager and store as keyed collections with limits and counters.
use h_dialog::*;
use sip_dialog::{Dialog, DialogId, DialogManager, DialogStateType as S, DialogStore, InMemoryDialogStore};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Barrier};
use vmon::{Ctx, Rec, Rng};

type K = (String, String, String);
const CAP: usize = 10_000;
const EARLY_CAP: usize = 100;

fn dlg(k: &K, s: S, mark: u32) -> Dialog {
    let id = DialogId::unchecked_new(k.0.as_str(), k.1.as_str(), k.2.as_str());
    Dialog::unchecked_new(id, s, u("sip:a@a.example"), u("sip:b@b.example"), u("sip:b@b.example"), mark, 0, None, vec![], false, None, None, true)
}
fn key(d: &DialogId) -> K {
    (d.call_id().into(), d.local_tag().into(), d.remote_tag().into())
}
fn state(r: &mut Rng) -> S {
    *r.pick(&[S::Early, S::Early, S::Confirmed, S::Confirmed, S::Terminated])
}

#[derive(Default)]
struct Model {
    m: BTreeMap<K, (S, u32)>,
    created: u64,
    ended: u64,
}
impl Model {
    fn insert(&mut self, k: &K, s: S, mark: u32) -> bool {
        if self.m.len() >= CAP && !self.m.contains_key(k) {
            return false;
        }
        if s == S::Early && self.m.iter().filter(|(q, v)| q.0 == k.0 && *q != k && v.0 == S::Early).count() >= EARLY_CAP {
            return false;
        }
        if self.m.insert(k.clone(), (s, mark)).is_none() {
            self.created += 1;
        }
        true
    }
}

fn manager(r: &mut Rng, rec: &mut Rec, prefill: usize, early_fill: usize) {
    let mgr = DialogManager::new();
    let mut m = Model::default();
    let mut cids: Vec<String> = (0..r.range(1, 4)).map(|_| call_id(r)).collect();
    let mut tags: Vec<String> = (0..r.range(2, 6)).map(|_| tag(r)).collect();
    doubles(r, &mut cids);
    doubles(r, &mut tags);
    if early_fill > 0 && r.coin() {
        let x = cids[0].clone();
        cids.push(flip(r, &x));
    }
    let mut pool: Vec<K> = vec![];
    for _ in 0..r.range(2, 20) {
        pool.push((r.pick(&cids).clone(), r.pick(&tags).clone(), r.pick(&tags).clone()));
    }
    for i in 0..prefill {
        let k = (format!("fill{i}@x"), "l".to_string(), "r".to_string());
        if !rec.check(mgr.insert(dlg(&k, S::Confirmed, 0)).is_ok(), "fill", || format!("insert {i} of {prefill} refused")) {
            return;
        }
        m.m.insert(k.clone(), (S::Confirmed, 0));
        m.created += 1;
        if i < 3 {
            pool.push(k);
        }
    }
    for i in 0..early_fill {
        let k = (cids[0].clone(), format!("l{i}"), "r".to_string());
        let (a, b) = (mgr.insert(dlg(&k, S::Early, 0)).is_ok(), m.insert(&k, S::Early, 0));
        if !rec.check(a == b, "early-fill", || format!("early dialog {i}: accepted {a}, expected {b}")) {
            return;
        }
        if i < 3 || i > 97 {
            pool.push(k);
        }
    }
    let mut log: Vec<String> = vec![];
    for step in 0..r.range(5, 60) {
        let k = r.pick(&pool).clone();
        let id = dlg(&k, S::Early, 0).id().clone();
        match r.below(10) {
            0..=4 => {
                let (s, mark) = (state(r), r.u32());
                let got = mgr.insert(dlg(&k, s, mark));
                let want = m.insert(&k, s, mark);
                log.push(format!("insert {k:?} {s:?} -> {got:?}"));
                rec.check(got.is_ok() == want, "insert-verdict", || format!("{got:?} expected {want}; held {} {log:#?}", m.m.len()));
            }
            5 | 6 => {
                let got = mgr.remove(&id).map(|d| (d.state(), d.local_cseq()));
                let want = m.m.remove(&k);
                m.ended += want.is_some() as u64;
                log.push(format!("remove {k:?} -> {got:?}"));
                rec.check(got == want, "remove", || format!("{got:?} expected {want:?}; {log:#?}"));
            }
            7 => {
                mgr.cleanup_terminated();
                let n = m.m.len();
                m.m.retain(|_, v| v.0 != S::Terminated);
                m.ended += (n - m.m.len()) as u64;
                log.push("cleanup".into());
            }
            8 => {
                let got = mgr.find_by_call_id(&k.0);
                let want: Vec<_> = m.m.iter().filter(|(q, _)| q.0 == k.0).collect();
                let ok = match &got {
                    None => want.is_empty(),
                    Some(d) => want.iter().any(|(q, v)| **q == key(d.id()) && v.0 == d.state() && v.1 == d.local_cseq()),
                };
                rec.check(ok, "by-call-id", || format!("{got:?} expected one of {want:?}"));
            }
            _ => {
                let got = mgr.get(&id).map(|d| (d.state(), d.local_cseq()));
                rec.check(got == m.m.get(&k).copied(), "get", || format!("{got:?} expected {:?}; {log:#?}", m.m.get(&k)));
            }
        }
        let s = mgr.metrics.snapshot();
        let ok = mgr.count() == m.m.len() && s.created == m.created && s.terminated == m.ended;
        if !rec.check(ok, "counters", || format!("step {step}: count {} created {} terminated {}, expected {} {} {}; {log:#?}", mgr.count(), s.created, s.terminated, m.m.len(), m.created, m.ended)) {
            return;
        }
    }
    let mut all: Vec<K> = mgr.all_ids().iter().map(key).collect();
    all.sort();
    rec.check(all == m.m.keys().cloned().collect::<Vec<_>>(), "all-ids", || format!("{log:#?}"));
    rec.eval(Some(&(prefill, early_fill, format!("{log:?}"))));
    rec.count("steps", log.len() as u64);
}

/// Threads race inserts, removals and cleanup around a limit.
fn contest(r: &mut Rng, rec: &mut Rec) {
    let mgr = Arc::new(DialogManager::new());
    let early = r.coin();
    let threads = r.range(2, 8) as usize;
    let room = r.below(12);
    let (cap, fill) = if early { (EARLY_CAP, EARLY_CAP - room) } else { (CAP, CAP - room) };
    for i in 0..fill {
        let (k, s) = if early { (("c@x".to_string(), format!("l{i}"), "r".into()), S::Early) } else { ((format!("f{i}"), "l".into(), "r".into()), S::Confirmed) };
        mgr.insert(dlg(&k, s, 0)).expect("fill");
    }
    let removing = r.chance(1, 2);
    let bar = Arc::new(Barrier::new(threads));
    let seeds: Vec<u64> = (0..threads).map(|_| r.u64()).collect();
    let hs: Vec<_> = seeds
        .into_iter()
        .enumerate()
        .map(|(t, seed)| {
            let (mgr, bar) = (mgr.clone(), bar.clone());
            std::thread::spawn(move || {
                let mut r = Rng::new(seed);
                bar.wait();
                let (mut ok, mut gone, mut over) = (0u64, 0u64, 0usize);
                let mut mine: Vec<K> = vec![];
                for i in 0..12 {
                    if removing && r.chance(1, 3) {
                        match r.below(3) {
                            0 if !mine.is_empty() => {
                                let k = mine.swap_remove(r.below(mine.len()));
                                gone += mgr.remove(dlg(&k, S::Early, 0).id()).is_some() as u64;
                            }
                            1 => mgr.cleanup_terminated(),
                            _ => {
                                // Contended: every thread tries to remove the same dialog.
                                let j = r.below(4).min(fill - 1);
                                let k: K = if early { ("c@x".into(), format!("l{j}"), "r".into()) } else { (format!("f{j}"), "l".into(), "r".into()) };
                                gone += mgr.remove(dlg(&k, S::Early, 0).id()).is_some() as u64;
                            }
                        }
                    } else {
                        let k: K = if early { ("c@x".into(), format!("t{t}i{i}"), "r".into()) } else { (format!("t{t}i{i}"), "l".into(), "r".into()) };
                        if mgr.insert(dlg(&k, if early { S::Early } else { S::Confirmed }, 0)).is_ok() {
                            ok += 1;
                            mine.push(k);
                        }
                    }
                    over = over.max(mgr.count());
                }
                (ok, gone, over)
            })
        })
        .collect();
    let (mut ok, mut gone, mut over) = (0, 0, 0);
    for h in hs {
        let (a, b, c) = h.join().expect("worker panicked");
        ok += a;
        gone += b;
        over = over.max(c);
    }
    let s = mgr.metrics.snapshot();
    let show = || format!("early={early} threads={threads} fill={fill} inserted={ok} removed={gone} count={} most={over} created={} terminated={}", mgr.count(), s.created, s.terminated);
    rec.eval(Some(&(early, threads, fill, ok, gone, over)));
    rec.count("contest_inserts", ok);
    // A count read while others remove may mix moments.
    rec.check((removing || over <= cap) && mgr.count() <= cap, "cap-exceeded", show);
    rec.check(removing || ok as usize == room.min(threads * 12), "cap-unused", show);
    rec.check(s.created == fill as u64 + ok, "created", show);
    rec.check(s.terminated == gone, "terminated", show);
    rec.check(mgr.count() as u64 == s.created - s.terminated, "conservation", show);
}

fn store_seq(r: &mut Rng, rec: &mut Rec) {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let st = InMemoryDialogStore::default();
    let mut m: BTreeMap<K, (S, u32)> = BTreeMap::new();
    let mut cids: Vec<String> = (0..r.range(1, 3)).map(|_| call_id(r)).collect();
    let mut tags: Vec<String> = (0..r.range(1, 4)).map(|_| tag(r)).collect();
    doubles(r, &mut cids);
    doubles(r, &mut tags);
    let mut log = vec![];
    rt.block_on(async {
        for _ in 0..r.range(3, 50) {
            let k: K = (r.pick(&cids).clone(), r.pick(&tags).clone(), r.pick(&tags).clone());
            let (s, mark) = (state(r), r.u32());
            let d = dlg(&k, s, mark);
            match r.below(6) {
                0..=2 => {
                    m.insert(k.clone(), (s, mark));
                    log.push(format!("put {k:?}"));
                    st.put(d).await;
                }
                3 => {
                    m.remove(&k);
                    log.push(format!("remove {k:?}"));
                    st.remove(d.id()).await;
                }
                4 => {
                    let got = st.get(d.id()).await.map(|d| (d.state(), d.local_cseq()));
                    rec.check(got == m.get(&k).copied(), "store-get", || format!("{got:?}; {log:#?}"));
                }
                _ => {}
            }
            let mut got: Vec<(K, (S, u32))> = st.list_by_call_id(&k.0.as_str().into()).await.iter().map(|d| (key(d.id()), (d.state(), d.local_cseq()))).collect();
            got.sort_by(|a, b| a.0.cmp(&b.0));
            let want: Vec<(K, (S, u32))> = m.iter().filter(|(q, _)| q.0 == k.0).map(|(a, b)| (a.clone(), *b)).collect();
            rec.check(got == want, "store-list", || format!("list_by_call_id gives {got:?}, expected {want:?}; {log:#?}"));
            rec.check(st.len().await == m.len() && st.count() == m.len() && st.is_empty().await == m.is_empty(), "store-len", || format!("{log:#?}"));
        }
    });
    rec.eval(Some(&format!("{log:?}")));
}

fn store_race(r: &mut Rng, rec: &mut Rec) {
    let st = Arc::new(InMemoryDialogStore::default());
    let threads = r.range(2, 8) as usize;
    let keys: Vec<K> = (0..r.range(1, 4)).map(|i| ("same@x".to_string(), format!("l{i}"), "r".to_string())).collect();
    let bar = Arc::new(Barrier::new(threads));
    let seeds: Vec<u64> = (0..threads).map(|_| r.u64()).collect();
    let n = r.range(2, 25);
    let hs: Vec<_> = seeds
        .into_iter()
        .map(|seed| {
            let (st, bar, keys) = (st.clone(), bar.clone(), keys.clone());
            std::thread::spawn(move || {
                let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
                let mut r = Rng::new(seed);
                bar.wait();
                let mut dup = 0;
                for _ in 0..n {
                    let d = dlg(r.pick(&keys), S::Confirmed, 1);
                    rt.block_on(async {
                        match r.below(5) {
                            0 | 1 => st.put(d).await,
                            2 | 3 => st.remove(d.id()).await,
                            _ => {
                                let l = st.list_by_call_id(&"same@x".into()).await;
                                let ids: BTreeSet<K> = l.iter().map(|d| key(d.id())).collect();
                                dup += (ids.len() != l.len()) as u32;
                            }
                        }
                    });
                }
                dup
            })
        })
        .collect();
    let dup: u32 = hs.into_iter().map(|h| h.join().expect("worker panicked")).sum();
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let (list, mut live) = rt.block_on(async {
        let mut l: Vec<K> = st.list_by_call_id(&"same@x".into()).await.iter().map(|d| key(d.id())).collect();
        l.sort();
        let mut live = vec![];
        for k in &keys {
            if st.get(dlg(k, S::Early, 0).id()).await.is_some() {
                live.push(k.clone());
            }
        }
        (l, live)
    });
    live.sort();
    rec.eval(Some(&(threads, n, live.len(), keys.len())));
    rec.check(list == live && st.count() == live.len(), "store-index", || format!("listed {list:?}, stored {live:?}, count {}", st.count()));
    rec.check(dup == 0, "store-duplicates", || format!("{dup} listings named a dialog twice"));
    // Afterwards everything can be removed and nothing lingers.
    rt.block_on(async {
        for k in &keys {
            st.remove(dlg(k, S::Early, 0).id()).await;
        }
        let l = st.list_by_call_id(&"same@x".into()).await;
        rec.check(l.is_empty() && st.is_empty().await, "store-leftover", || format!("{l:?}"));
    });
}

fn main() {
    let mut c = Ctx::new("D03", "manager and store contents equal a keyed-collection model after every step; limits are never exceeded nor unused under contention; created - terminated = held");
    c.run("manager", c.n(20_000, 300_000), |r, rec| manager(r, rec, 0, 0));
    c.run("manager-early-limit", c.n(4_000, 40_000), |r, rec| {
        let n = r.range(95, 103) as usize;
        manager(r, rec, 0, n)
    });
    c.run("manager-limit", c.n(160, 1_600), |r, rec| {
        let n = r.range(9_985, 10_000) as usize;
        manager(r, rec, n, 0)
    });
    c.run_on(2, "contest", c.n(300, 4_000), contest);
    c.run("store", c.n(20_000, 300_000), store_seq);
    c.run_on(2, "store-race", c.n(6_000, 80_000), store_race);
    c.assume("thread interleavings are those the operating system produced");
    c.finish();
}
