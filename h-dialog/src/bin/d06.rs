//! D06: session timers.
use sip_dialog::session_timer_manager::*;
use sip_dialog::DialogId;
use std::collections::BTreeMap;
use std::time::Duration;
use tokio::time::Instant;
use vmon::{Ctx, Rec, Rng};

fn id(i: usize) -> DialogId {
    DialogId::unchecked_new("c@x", format!("l{i}"), "r")
}
fn which(e: &SessionTimerEvent) -> (bool, usize) {
    let (x, d) = match e {
        SessionTimerEvent::RefreshNeeded(d) => (false, d),
        SessionTimerEvent::SessionExpired(d) => (true, d),
    };
    (x, d.local_tag()[1..].parse().unwrap())
}

#[derive(Clone, Debug)]
struct T {
    start: u64,
    se: u64,
    refresher: bool,
    refreshed: bool,
}

/// Random histories under virtual time; `exact` aims operations at due moments.
fn history(r: &mut Rng, rec: &mut Rec, exact: bool) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    rt.block_on(async {
        let mgr = SessionTimerManager::new();
        let mut rx = mgr.subscribe().await;
        let t0 = Instant::now();
        let ms = || t0.elapsed().as_millis() as u64;
        let n = r.range(1, 4) as usize;
        let mut m: BTreeMap<usize, T> = BTreeMap::new();
        let mut log: Vec<String> = vec![];
        let mut events = 0u64;
        // Take what has been reported so far; every report must be due to a timer in force.
        let drain = |rx: &mut tokio::sync::mpsc::UnboundedReceiver<SessionTimerEvent>, m: &mut BTreeMap<usize, T>, rec: &mut Rec, log: &mut Vec<String>, now: u64, events: &mut u64| {
            while let Ok(e) = rx.try_recv() {
                *events += 1;
                let (exp, i) = which(&e);
                log.push(format!("{now} reported {e:?}"));
                let Some(t) = m.get_mut(&i) else {
                    rec.violate("unexpected", format!("{e:?} without a timer; {log:#?}"));
                    continue;
                };
                if exp {
                    let due = t.start + t.se;
                    rec.check(now >= due && now <= due + 3, "expiry-time", || format!("expired at {now}, due {due}; {log:#?}"));
                    rec.check(!t.refresher || t.refreshed, "expired-before-refresh", || format!("{log:#?}"));
                    m.remove(&i);
                } else {
                    let due = t.start + t.se / 2;
                    rec.check(t.refresher && !t.refreshed, "refresh-unexpected", || format!("{e:?} for {t:?}; {log:#?}"));
                    rec.check(now >= due && now <= due + 3, "refresh-time", || format!("refresh at {now}, due {due}; {log:#?}"));
                    t.refreshed = true;
                }
            }
            // Nothing overdue went unreported.
            for (i, t) in m.iter() {
                rec.check(now <= t.start + t.se + 3, "expiry-missing", || format!("timer {i} {t:?} silent at {now}; {log:#?}"));
                rec.check(!t.refresher || t.refreshed || now <= t.start + t.se / 2 + 3, "refresh-missing", || format!("timer {i} {t:?} silent at {now}; {log:#?}"));
            }
        };
        for _ in 0..r.range(3, 30) {
            // Reports due right now come before time moves on.
            tokio::time::sleep(Duration::from_millis(1)).await;
            for _ in 0..4 {
                tokio::task::yield_now().await;
            }
            let now = ms();
            drain(&mut rx, &mut m, rec, &mut log, now, &mut events);
            // Let time pass in steps that notice every report within a millisecond or so.
            let dues: Vec<u64> = m.values().flat_map(|t| [t.start + t.se, t.start + t.se / 2]).filter(|d| *d > ms()).collect();
            let until = if exact && !dues.is_empty() { *r.pick(&dues) } else { ms() + *r.pick(&[0u64, 1, 500, 20_000, 45_000, 60_000, 90_000, 1_000_000, 90_000_000]) };
            loop {
                let next = m.values().flat_map(|t| [t.start + t.se, t.start + t.se / 2]).filter(|d| *d > ms() && *d < until).min();
                let Some(d) = next else { break };
                tokio::time::sleep_until(t0 + Duration::from_millis(d)).await;
                for _ in 0..4 {
                    tokio::task::yield_now().await;
                }
                tokio::time::sleep(Duration::from_millis(1)).await;
                for _ in 0..4 {
                    tokio::task::yield_now().await;
                }
                let now = ms();
                drain(&mut rx, &mut m, rec, &mut log, now, &mut events);
            }
            if until > ms() {
                tokio::time::sleep_until(t0 + Duration::from_millis(until)).await;
            }
            let settle = !exact || r.chance(1, 3);
            if settle {
                for _ in 0..4 {
                    tokio::task::yield_now().await;
                }
            }
            let now = ms();
            drain(&mut rx, &mut m, rec, &mut log, now, &mut events);
            let i = r.below(n);
            match r.below(10) {
                0..=5 => {
                    let se = *r.pick(&[90_000u64, 120_000, 1_800_000, 86_400_000, 100, 2, 90_002, 3_600_000]);
                    let refresher = r.coin();
                    let up = m.contains_key(&i);
                    log.push(format!("{now} start {i} {se}ms refresher={refresher} replacing={up}"));
                    if up && r.coin() {
                        mgr.refresh_timer(id(i), Duration::from_millis(se), refresher);
                    } else {
                        mgr.start_timer(id(i), Duration::from_millis(se), refresher);
                    }
                    m.insert(i, T { start: now, se, refresher, refreshed: false });
                }
                6 | 7 => {
                    log.push(format!("{now} stop {i}"));
                    mgr.stop_timer(&id(i));
                    m.remove(&i);
                }
                8 if r.chance(1, 4) => {
                    log.push(format!("{now} clear"));
                    mgr.clear();
                    m.clear();
                }
                _ => {}
            }
            // What can be asked about the timers.
            for k in 0..n {
                let left = mgr.time_remaining(&id(k));
                match m.get(&k) {
                    Some(t) => {
                        let want = (t.start + t.se).saturating_sub(now);
                        rec.check(mgr.has_timer(&id(k)) && left.is_some_and(|l| l.as_millis().abs_diff(want as u128) <= 2), "remaining", || format!("timer {k}: {left:?}, expected {want} ms; {log:#?}"));
                    }
                    None => {
                        rec.check(!mgr.has_timer(&id(k)) && left.is_none(), "lingering", || format!("timer {k} still there with {left:?}; {log:#?}"));
                    }
                }
            }
            rec.check(mgr.active_count() == m.len(), "active-count", || format!("{} active, {} expected; {log:#?}", mgr.active_count(), m.len()));
        }
        rec.count("events", events);
        rec.eval(Some(&format!("{log:?}")));
        rec.sample(|| format!("{log:?}"));
    });
}

/// Real threads start, refresh and stop short timers of a few dialogs at once.
fn race(r: &mut Rng, rec: &mut Rec) {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_time().build().unwrap();
    let mgr = SessionTimerManager::new();
    let n = r.range(1, 3) as usize;
    let seeds: Vec<u64> = (0..r.range(2, 5)).map(|_| r.u64()).collect();
    let (events, finals) = rt.block_on(async {
        let mut rx = mgr.subscribe().await;
        let mut hs = vec![];
        for s in seeds.clone() {
            let mgr = mgr.clone();
            hs.push(tokio::spawn(async move {
                let mut r = Rng::new(s);
                let mut starts = vec![0u32; n];
                for _ in 0..r.range(3, 12) {
                    let i = r.below(n);
                    match r.below(4) {
                        0 => mgr.stop_timer(&id(i)),
                        _ => {
                            mgr.start_timer(id(i), Duration::from_millis(r.ur(1, 4)), r.coin());
                            starts[i] += 1;
                        }
                    }
                    tokio::time::sleep(Duration::from_millis(r.ur(0, 4))).await;
                }
                starts
            }));
        }
        let mut starts = vec![0u32; n];
        for h in hs {
            for (a, b) in starts.iter_mut().zip(h.await.expect("worker")) {
                *a += b;
            }
        }
        tokio::time::sleep(Duration::from_millis(40)).await;
        // One last timer each, which nobody disturbs: it reports exactly once.
        let mut before = vec![0u32; n];
        while let Ok(e) = rx.try_recv() {
            let (x, i) = which(&e);
            before[i] += x as u32;
        }
        let idle = mgr.active_count();
        let mut fin = vec![];
        let t = std::time::Instant::now();
        for i in 0..n {
            mgr.start_timer(id(i), Duration::from_millis(3), false);
        }
        tokio::time::sleep(Duration::from_millis(40)).await;
        let late = t.elapsed();
        let mut after = vec![0u32; n];
        while let Ok(e) = rx.try_recv() {
            let (x, i) = which(&e);
            after[i] += x as u32;
        }
        fin.push((starts, before, idle, after, mgr.active_count(), late));
        (0, fin)
    });
    let _ = events;
    for (starts, before, idle, after, end, late) in finals {
        rec.eval(Some(&format!("{starts:?}{before:?}")));
        rec.count("race_expiries", before.iter().map(|x| *x as u64).sum());
        rec.check(before.iter().zip(&starts).all(|(a, b)| a <= b), "expired-too-often", || format!("{before:?} expiries for {starts:?} starts"));
        if late < Duration::from_secs(2) {
            rec.check(idle == 0 || idle <= n, "race-idle", || format!("{idle} timers active after all were due"));
            rec.check(after.iter().all(|x| *x <= 1), "race-final-twice", || format!("final timers reported {after:?}"));
        }
        // Generous: only judged when the machine kept up.
        if idle == 0 && end == 0 {
            rec.check(after.iter().all(|x| *x == 1), "race-final", || format!("final timers reported {after:?} times"));
        } else {
            rec.count("race_slow", 1);
        }
    }
}

/// The limit on timers holds, and a full manager still refreshes the ones it has.
fn limit(r: &mut Rng, rec: &mut Rec) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    rt.block_on(async {
        let mgr = SessionTimerManager::new();
        let extra = r.range(1, 20) as usize;
        for i in 0..10_000 + extra {
            mgr.start_timer(id(i), Duration::from_secs(1800), false);
        }
        rec.check(mgr.active_count() == 10_000, "limit", || format!("{} timers", mgr.active_count()));
        let k = r.below(10_000);
        mgr.refresh_timer(id(k), Duration::from_secs(90), true);
        rec.check(mgr.has_timer(&id(k)) && mgr.time_remaining(&id(k)) == Some(Duration::from_secs(90)), "limit-refresh", || format!("timer {k} not refreshed at the limit"));
        mgr.stop_timer(&id(k));
        mgr.start_timer(id(20_000), Duration::from_secs(90), true);
        rec.check(mgr.has_timer(&id(20_000)) && mgr.active_count() == 10_000, "limit-room", || "no room after a stop".into());
        mgr.clear();
        rec.check(mgr.active_count() == 0, "limit-clear", || format!("{} timers after clear", mgr.active_count()));
        rec.eval(Some(&(extra, k)));
    });
}

/// The limit holds when many threads start and refresh timers at once, and a
/// refresh of a timer in force never loses it.
fn limit_race(r: &mut Rng, rec: &mut Rec) {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_time().build().unwrap();
    let mgr = SessionTimerManager::new();
    let _g = rt.enter();
    let room = r.range(0, 12) as usize;
    for i in 0..10_000 - room {
        mgr.start_timer(id(i), Duration::from_secs(1800), false);
    }
    let ths = 6usize;
    for round in 0..60usize {
        let bar = std::sync::Barrier::new(ths);
        let refresh = r.coin();
        let seeds: Vec<u64> = (0..ths).map(|_| r.u64()).collect();
        std::thread::scope(|s| {
            for (t, sd) in seeds.iter().enumerate() {
                let (mgr, bar, rt) = (&mgr, &bar, rt.handle());
                let sd = *sd;
                s.spawn(move || {
                    let _g = rt.enter();
                    bar.wait();
                    for k in 0..4usize {
                        if refresh && t % 2 == 0 {
                            mgr.refresh_timer(id((sd as usize >> 4) % 5_000 + k), Duration::from_secs(1800), false);
                        } else {
                            mgr.start_timer(id(20_000 + t * 10 + k), Duration::from_secs(1800), false);
                        }
                    }
                });
            }
        });
        let now = mgr.active_count();
        rec.count("limit_race_rounds", 1);
        rec.check(now <= 10_000, "limit-race", || format!("round {round}: {now} timers with room for {room}, refresh {refresh}"));
        let started = (0..ths).flat_map(|t| (0..4).map(move |k| 20_000 + t * 10 + k)).filter(|i| mgr.has_timer(&id(*i))).count();
        let old = (0..10_000 - room).filter(|i| mgr.has_timer(&id(*i))).count();
        rec.check(old == 10_000 - room, "limit-race-lost", || format!("round {round}: {} timers in force lost by starting others", 10_000 - room - old));
        rec.check(old + started == now, "limit-race-count", || format!("round {round}: {now} counted, {} found", old + started));
        if !refresh {
            rec.check(started == room.min(ths * 4), "limit-race-refused", || format!("round {round}: {started} started with room for {room}"));
        }
        for i in 0..ths {
            for k in 0..4 {
                mgr.stop_timer(&id(20_000 + i * 10 + k));
            }
        }
        rec.eval(Some(&(room, refresh, seeds)));
        for k in 0..10_000 - room {
            if !mgr.has_timer(&id(k)) {
                mgr.start_timer(id(k), Duration::from_secs(1800), false);
            }
        }
    }
    mgr.clear();
    rt.shutdown_background();
}

fn rules(r: &mut Rng, rec: &mut Rec) {
    let d = |r: &mut Rng| Duration::from_secs(*r.pick(&[0u64, 1, 89, 90, 91, 180, 1800, 3600, 86_400, 4_000_000_000]));
    let (req, min) = (d(r), d(r));
    let rmin = r.coin().then(|| d(r));
    let pref = r.coin().then(|| d(r));
    let got = negotiate_session_expires(req, min, rmin, pref);
    let floor = min.max(rmin.unwrap_or(Duration::ZERO));
    let want = if req < floor {
        Err(floor)
    } else {
        Ok(match pref {
            Some(p) => p.max(floor).min(req),
            None => req,
        })
    };
    rec.eval(Some(&(req, min, rmin, pref)));
    rec.check(got == want, "negotiate", || format!("negotiate({req:?},{min:?},{rmin:?},{pref:?}) = {got:?}, expected {want:?}"));
    let m = r.coin().then(|| d(r));
    let floor = m.unwrap_or(Duration::from_secs(90));
    let v = validate_session_expires(req, m);
    rec.check(v == if req < floor { Err(floor) } else { Ok(req) }, "validate", || format!("validate({req:?},{m:?}) = {v:?}"));
    rec.check(calculate_refresh_time(req) == req / 2, "refresh-time-rule", || format!("{req:?}"));
    let uac = r.coin();
    for (p, want) in [(Some("uac"), uac), (Some("uas"), !uac), (Some("UAC"), uac), (Some("UAS"), !uac), (Some("Uas"), !uac), (Some("uAc"), uac), (None, uac)] {
        let got = determine_refresher_role(p, uac);
        rec.check(got == want, "role", || format!("refresher={p:?} is_uac={uac} -> {got}"));
    }
}

fn main() {
    let mut c = Ctx::new("D06", "every timer in force, and only those, reports its refresh (refresher only) at half time and its expiry once at full time; replaced or stopped timers report nothing more");
    c.run("rules", c.n(50_000, 500_000), rules);
    c.run("histories", c.n(8_000, 120_000), |r, rec| history(r, rec, false));
    c.run("due-moments", c.n(8_000, 120_000), |r, rec| history(r, rec, true));
    c.run("limit", c.n(24, 200), limit);
    c.run_on(2, "limit-race", c.n(6, 60), limit_race);
    c.run_on(4, "race", c.n(160, 2_000), race);
    c.assume("reports are taken within a millisecond of virtual time; the races run in real time with millisecond timers");
    c.finish();
}
