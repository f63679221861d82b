//! D07: dialog metrics count every event once, whoever records it, and never
//! show a state that no moment had.
use sip_dialog::{DialogMetrics, DialogMetricsSnapshot};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Barrier};
use vmon::{Ctx, Rec, Rng};

const N: usize = 7;
fn record(m: &DialogMetrics, what: usize) {
    match what {
        0 => m.record_created(),
        1 => m.record_confirmed(),
        2 => m.record_terminated(),
        3 => m.record_prack(),
        4 => m.record_session_timer_started(),
        5 => m.record_session_timer_refreshed(),
        _ => m.record_session_timer_expired(),
    }
}
fn read(s: &DialogMetricsSnapshot) -> [u64; N] {
    [
        s.created,
        s.confirmed,
        s.terminated,
        s.prack_events,
        s.session_timer_started,
        s.session_timer_refreshed,
        s.session_timer_expired,
    ]
}

/// one thread: after every event the snapshot is the sum so far
fn serial(r: &mut Rng, rec: &mut Rec) {
    let m = [DialogMetrics::new(), DialogMetrics::new()];
    let mut shared = vec![(0, m[0].clone()), (1, m[1].clone())];
    let mut want = [[0u64; N]; 2];
    let mut last = [None, None];
    let mut log = Vec::new();
    for _ in 0..r.below(40) {
        let k = r.below(shared.len());
        if r.chance(1, 10) {
            let c = shared[k].clone();
            shared.push(c);
        }
        let (which, h) = &shared[k];
        let what = r.below(N);
        let before = std::time::Instant::now();
        record(h, what);
        let after = std::time::Instant::now();
        want[*which][what] += 1;
        log.push(format!("{which}:{what}"));
        for i in 0..2 {
            let view = shared.iter().filter(|(w, _)| *w == i).last().unwrap().1.snapshot();
            rec.check(read(&view) == want[i], "count", || format!("{log:?}: set {i} shows {view:?}, not {:?}", want[i]));
            if i == *which {
                rec.check(
                    view.last_updated.is_some_and(|t| t >= before && t <= after),
                    "last update",
                    || format!("{log:?}: updated {:?}, event between {before:?} and {after:?}", view.last_updated),
                );
                last[i] = view.last_updated;
            } else {
                rec.check(view.last_updated == last[i], "other set touched", || format!("{log:?}"));
            }
        }
    }
    rec.eval(Some(&format!("serial {log:?}")));
    rec.sample(|| format!("{log:?}"));
}

/// several threads: nothing lost, nothing seen twice, no reader sees a count fall
fn threads(r: &mut Rng, rec: &mut Rec) {
    let m = DialogMetrics::new();
    let n = 2 + r.below(3);
    let per = 40 + r.below(400);
    let plans: Vec<Vec<usize>> = (0..n).map(|_| {
            // each writer takes its dialogs through their life in order
            let mut stage = 0;
            (0..per)
                .map(|_| {
                    if r.coin() {
                        3 + r.below(N - 3)
                    } else {
                        stage += 1;
                        (stage - 1) % 3
                    }
                })
                .collect()
        })
        .collect();
    let stop = Arc::new(AtomicBool::new(false));
    let start = Arc::new(Barrier::new(n + 1));
    let mut want = [0u64; N];
    plans.iter().flatten().for_each(|w| want[*w] += 1);
    let reader = {
        let (m, stop, start) = (m.clone(), stop.clone(), start.clone());
        std::thread::spawn(move || {
            start.wait();
            let mut seen: Vec<([u64; N], bool)> = Vec::new();
            loop {
                let done = stop.load(Ordering::SeqCst);
                let s = m.snapshot();
                let row = (read(&s), s.last_updated.is_some());
                if seen.last() != Some(&row) {
                    seen.push(row);
                }
                if done {
                    return seen;
                }
            }
        })
    };
    let writers: Vec<_> = plans
        .into_iter()
        .map(|p| {
            let (m, start) = (m.clone(), start.clone());
            std::thread::spawn(move || {
                start.wait();
                for w in p {
                    record(&m, w);
                }
            })
        })
        .collect();
    for w in writers {
        w.join().unwrap();
    }
    stop.store(true, Ordering::SeqCst);
    let seen = reader.join().unwrap();
    rec.count("views", seen.len() as u64);
    rec.eval(Some(&format!("threads {n} {want:?}")));
    let end = read(&m.snapshot());
    rec.check(end == want, "lost or doubled", || format!("{n} threads end with {end:?}, not {want:?}"));
    for p in seen.windows(2) {
        let falls = (0..N).any(|i| p[1].0[i] < p[0].0[i]);
        rec.check(!falls, "count fell", || format!("{p:?}"));
    }
    for (c, dated) in &seen {
        rec.check((c.iter().sum::<u64>() > 0) == *dated, "counts and time disagree", || format!("{c:?} {dated}"));
        rec.check(c[0] >= c[1] && c[1] >= c[2], "torn view", || format!("{c:?}"));
        rec.check((0..N).all(|i| c[i] <= want[i]), "too many", || format!("{c:?} of {want:?}"));
    }
}

fn main() {
    let mut ctx = Ctx::new(
        "D07",
        "random event sequences over shared and separate metric sets, alone and from several threads with a reader running: every snapshot is compared with the sum of the events recorded",
    );
    let n = ctx.n(20_000, 400_000);
    ctx.run("serial", n, serial);
    let k = ctx.n(400, 8_000);
    ctx.run_on(2, "threads", k, threads);
    ctx.finish();
}
