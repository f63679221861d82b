//! G03: concurrent REGISTERs behave as if handled one after another.
use anyhow::Result;
use h_reg::*;
use sip_auth::{DigestAuthenticator, MemoryCredentialStore};
use sip_registrar::{AsyncLocationStore, AsyncToSyncAdapter, BasicRegistrar, Binding, LocationStore, MemoryLocationStore, Registrar, SyncToAsyncAdapter};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier};
use std::time::Duration;
use vmon::{clock, Ctx, Rec, Rng};

type Auth = DigestAuthenticator<MemoryCredentialStore>;

/// A store that yields at random points around every operation.
#[derive(Clone)]
struct Delayed {
    inner: MemoryLocationStore,
    seed: Arc<AtomicU64>,
}
impl Delayed {
    fn dawdle(&self) {
        let x = self.seed.fetch_add(0x9e37_79b9_7f4a_7c15, Ordering::Relaxed);
        let x = (x ^ (x >> 31)).wrapping_mul(0xbf58_476d_1ce4_e5b9) >> 59;
        for _ in 0..x {
            std::thread::yield_now();
        }
    }
}
impl LocationStore for Delayed {
    fn upsert(&self, b: Binding) -> Result<()> {
        self.dawdle();
        let r = self.inner.upsert(b);
        self.dawdle();
        r
    }
    fn remove(&self, a: &str, c: &str) -> Result<()> {
        self.dawdle();
        self.inner.remove(a, c)
    }
    fn remove_all(&self, a: &str) -> Result<()> {
        self.dawdle();
        self.inner.remove_all(a)
    }
    fn lookup(&self, a: &str) -> Result<Vec<Binding>> {
        let r = self.inner.lookup(a);
        self.dawdle();
        r
    }
    fn cleanup_expired(&self) -> Result<usize> {
        self.inner.cleanup_expired()
    }
}
#[async_trait::async_trait]
impl AsyncLocationStore for Delayed {
    async fn upsert(&self, b: Binding) -> Result<()> {
        tokio::task::yield_now().await;
        LocationStore::upsert(self, b)
    }
    async fn remove(&self, a: &str, c: &str) -> Result<()> {
        tokio::task::yield_now().await;
        LocationStore::remove(self, a, c)
    }
    async fn remove_all(&self, a: &str) -> Result<()> {
        tokio::task::yield_now().await;
        LocationStore::remove_all(self, a)
    }
    async fn lookup(&self, a: &str) -> Result<Vec<Binding>> {
        let r = LocationStore::lookup(self, a);
        tokio::task::yield_now().await;
        r
    }
    async fn cleanup_expired(&self) -> Result<usize> {
        self.inner.cleanup_expired()
    }
}

type Key = (String, String, u32, Option<String>);
fn snapshot(m: &Model) -> BTreeMap<String, Vec<Key>> {
    m.aors
        .iter()
        .filter(|(_, v)| !v.is_empty())
        .map(|(k, v)| {
            let mut v: Vec<Key> = v.iter().map(|b| (b.contact.clone(), b.call_id.clone(), b.cseq, b.ua.clone())).collect();
            v.sort();
            (k.clone(), v)
        })
        .collect()
}

struct Op {
    reg: Reg,
    start: u64,
    end: u64,
    ok: bool,
}

/// Is there an order of the operations, respecting real time, with these outcomes and this end?
fn linearizable(init: &Model, ops: &[Op], cfg: &Cfg, end: &BTreeMap<String, Vec<Key>>) -> bool {
    fn go(done: u32, m: &Model, ops: &[Op], cfg: &Cfg, end: &BTreeMap<String, Vec<Key>>, seen: &mut HashSet<(u32, String)>) -> bool {
        if done == (1 << ops.len()) - 1 {
            return &snapshot(m) == end;
        }
        if !seen.insert((done, format!("{:?}", snapshot(m)))) {
            return false;
        }
        let horizon = ops.iter().enumerate().filter(|(i, _)| done >> i & 1 == 0).map(|(_, o)| o.end).min().unwrap();
        for (i, o) in ops.iter().enumerate() {
            if done >> i & 1 == 1 || o.start > horizon {
                continue;
            }
            let (after, codes) = expected(m, &o.reg, cfg, 0);
            if codes.is_empty() != o.ok {
                continue;
            }
            let mut n = m.clone();
            n.aors.insert(o.reg.aor.clone(), after);
            if go(done | 1 << i, &n, ops, cfg, end, seen) {
                return true;
            }
        }
        false
    }
    go(0, init, ops, cfg, end, &mut HashSet::new())
}

fn stamp() -> u64 {
    static N: AtomicU64 = AtomicU64::new(0);
    N.fetch_add(1, Ordering::SeqCst)
}

fn contest(r: &mut Rng, rec: &mut Rec, rt: &tokio::runtime::Runtime) {
    clock::rewind();
    let cfg = Cfg { default: 3600, min: 60, max: 86_400 };
    let store = Delayed { inner: MemoryLocationStore::new(), seed: Arc::new(AtomicU64::new(r.u64())) };
    let na = r.range(1, 2) as usize;
    let aors = aor_pool(r, na);
    let nc = r.range(1, 4) as usize;
    let mut contacts = contact_pool(r, nc);
    let crowd = r.chance(1, 4);
    let mut init = Model::default();
    if crowd {
        let k = r.range(17, 20) as usize;
        for i in 0..k {
            let c = format!("sip:pre{i}@h.example.net");
            let b = Bind { contact: c.clone(), call_id: "pre".into(), cseq: 1, q: 1.0, expires_at: 3600 * SEC, ua: None, path: vec![], instance: None, reg_id: None };
            init.aors.entry(aors[0].key.clone()).or_default().push(b);
            let b = Binding::new(aors[0].key.as_str().into(), c.as_str().into(), Duration::from_secs(3600)).unwrap().with_call_id("pre".into()).unwrap().with_cseq(1).unwrap();
            store.inner.upsert(b).expect("prefill");
        }
        contacts.push("sip:pre0@h.example.net".into());
    }
    let shape = Shape { call_ids: (0..r.range(1, 2)).map(|i| format!("c{i}@x")).collect(), refuse: false };
    let n = r.range(2, 6) as usize;
    let mut cs: Vec<u32> = (1..=n as u32 + 1).collect();
    r.shuffle(&mut cs);
    let regs: Vec<Reg> = (0..n)
        .map(|i| {
            let a = r.pick(&aors).clone();
            let mut g = reg(r, &a, &contacts, &shape, cs[i]);
            // Tell the writers apart.
            g.headers.retain(|h| h.0 != "User-Agent");
            g.headers.push(("User-Agent".into(), format!("ua{i}")));
            g.ua = Some(format!("ua{i}"));
            g
        })
        .collect();
    let mode = r.below(4);
    let reqs: Vec<sip_core::Request> = regs.iter().map(|g| g.request()).collect();
    let outcome: Vec<(u64, u64, Option<u16>)> = match mode {
        0 | 1 => {
            let g: BasicRegistrar<Delayed, Auth> = BasicRegistrar::new(store.clone(), None);
            let bar = Barrier::new(n);
            std::thread::scope(|s| {
                let hs: Vec<_> = reqs
                    .iter()
                    .map(|q| {
                        let (g, bar) = (&g, &bar);
                        s.spawn(move || {
                            bar.wait();
                            let a = stamp();
                            let x = g.handle_register(q);
                            (a, stamp(), Some(x.map(|x| x.code()).unwrap_or(500)))
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or((0, u64::MAX, None))).collect()
            })
        }
        2 => {
            let g: Arc<BasicRegistrar<Delayed, Auth>> = Arc::new(BasicRegistrar::new(store.clone(), None));
            run_async(rt, &reqs, move |q| {
                let g = g.clone();
                async move { g.handle_register_async(&q).await.map(|x| x.code()).unwrap_or(500) }
            })
        }
        _ if r.coin() => {
            let g: Arc<BasicRegistrar<SyncToAsyncAdapter<Delayed>, Auth>> = Arc::new(BasicRegistrar::new(SyncToAsyncAdapter::new(store.clone()), None));
            run_async(rt, &reqs, move |q| {
                let g = g.clone();
                async move { g.handle_register_async(&q).await.map(|x| x.code()).unwrap_or(500) }
            })
        }
        _ => {
            let g: Arc<BasicRegistrar<AsyncToSyncAdapter<Delayed>, Auth>> = Arc::new(BasicRegistrar::new(AsyncToSyncAdapter::new(store.clone()), None));
            run_async(rt, &reqs, move |q| {
                let g = g.clone();
                async move { g.handle_register(&q).map(|x| x.code()).unwrap_or(500) }
            })
        }
    };
    let mut end = Model::default();
    for a in &aors {
        let v = store.inner.lookup(&a.key).expect("lookup");
        let mut names: Vec<&str> = v.iter().map(|b| b.contact()).collect();
        names.sort();
        let dup = names.windows(2).any(|w| w[0] == w[1]);
        rec.check(!dup && v.len() <= 20, "store-shape", || format!("bindings of {}: {names:?}", a.key));
        end.aors.insert(a.key.clone(), v.iter().map(|b| Bind { contact: b.contact().into(), call_id: b.call_id().into(), cseq: b.cseq(), q: 1.0, expires_at: 1, ua: b.user_agent().map(|s| s.into()), path: vec![], instance: None, reg_id: None }).collect());
    }
    let ops: Vec<Op> = regs.into_iter().zip(outcome.iter()).map(|(reg, (a, b, c))| Op { reg, start: *a, end: *b, ok: *c == Some(200) }).collect();
    for (_, _, c) in &outcome {
        rec.check(c.is_some(), "panicked", || "a registration panicked".into());
    }
    let end = snapshot(&end);
    let overlaps = ops.iter().enumerate().map(|(i, o)| ops[..i].iter().filter(|p| p.start < o.end && o.start < p.end).count() as u64).sum();
    rec.count("operations", n as u64);
    rec.count("overlapping_pairs", overlaps);
    rec.count(["threads", "threads", "async", "adapters"][mode], 1);
    let show = || {
        let l: Vec<String> = ops.iter().map(|o| format!("[{}..{}] {} cseq {} {} ok={} {:?}", o.start, o.end, o.reg.aor, o.reg.cseq, o.reg.call_id, o.ok, o.reg.headers.iter().filter(|h| h.0 == "Contact" || h.0 == "Expires").map(|h| h.1.as_str()).collect::<Vec<_>>())).collect();
        format!("mode {mode}\nbefore {:?}\n{}\nafter {end:?}", snapshot(&init), l.join("\n"))
    };
    rec.check(linearizable(&init, &ops, &cfg, &end), "not-serial", || format!("no order of these registrations explains the outcome\n{}", show()));
    rec.sample(|| show());
    let order: Vec<usize> = {
        let mut v: Vec<usize> = (0..n).collect();
        v.sort_by_key(|i| ops[*i].end);
        v
    };
    rec.eval(Some(&(ops.iter().map(|o| o.reg.headers.clone()).collect::<Vec<_>>(), order)));
}

fn run_async<F, T>(rt: &tokio::runtime::Runtime, reqs: &[sip_core::Request], f: F) -> Vec<(u64, u64, Option<u16>)>
where
    F: Fn(sip_core::Request) -> T,
    T: std::future::Future<Output = u16> + Send + 'static,
{
    rt.block_on(async {
        let hs: Vec<_> = reqs
            .iter()
            .map(|q| {
                let t = f(q.clone());
                tokio::spawn(async move {
                    let a = stamp();
                    let c = t.await;
                    (a, stamp(), Some(c))
                })
            })
            .collect();
        let mut out = vec![];
        for h in hs {
            out.push(h.await.unwrap_or((0, u64::MAX, None)));
        }
        out
    })
}

/// The store alone, hammered: caps hold exactly and nothing is lost.
fn store(r: &mut Rng, rec: &mut Rec) {
    clock::rewind();
    let s = MemoryLocationStore::new();
    let threads = 6;
    let per = r.range(3, 8) as usize;
    let same = r.coin();
    let bar = Barrier::new(threads);
    let oks: usize = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (s, bar) = (&s, &bar);
                sc.spawn(move || {
                    bar.wait();
                    (0..per)
                        .filter(|i| {
                            let c = if same { format!("sip:c{i}@x") } else { format!("sip:c{t}-{i}@x") };
                            s.upsert(Binding::new("sip:a@x".into(), c.as_str().into(), Duration::from_secs(60)).unwrap()).is_ok()
                        })
                        .count()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(0)).sum()
    });
    let want = if same { per } else { (threads * per).min(20) };
    let got = s.lookup("sip:a@x").unwrap().len();
    rec.check(got == want && (same || oks == want), "store-cap", || format!("{got} bindings, {oks} accepted, expected {want}"));
    rec.eval(Some(&(per, same, r.u64())));
}

fn main() {
    let mut cx = Ctx::new("G03", "distinct contests of concurrent registrations (requests, completion order)");
    if !clock::works() {
        std::process::exit(3);
    }
    clock::freeze();
    cx.assume("a registrar is driven through its blocking or through its asynchronous interface, not both at once");
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(6).build().expect("rt");
    let n = cx.n(20_000, 200_000);
    cx.run_seq("contests", n, |r, rec| contest(r, rec, &rt));
    let n = cx.n(1000, 10_000);
    cx.run_seq("store", n, store);
    cx.finish()
}
