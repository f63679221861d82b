//! R01: rate limiting monitor (virtual time, reference token bucket).
use sip_ratelimit::{RateLimitConfig, RateLimiter, RateLimiterSet};
use std::collections::BTreeMap;
use std::time::Duration;
use vmon::{clock, Ctx, Rec, Rng};

/// Continuous token bucket: the rate the configuration promises.
#[derive(Clone, Debug)]
struct Ref {
    cap: f64,
    rate_per_ns: f64,
    interval_ns: f64,
    tokens: f64,
    at: i64,
    since: f64,
    blocked: u64,
    last_access: i64,
    last_warn: Option<i64>,
}
impl Ref {
    fn new(max: u32, win: u64, burst: u32, now: i64) -> Ref {
        Ref {
            cap: burst as f64,
            rate_per_ns: max as f64 / (win as f64 * 1e9),
            interval_ns: win as f64 * 1e9 / max as f64,
            tokens: burst as f64,
            at: now,
            since: 0.0,
            blocked: 0,
            last_access: now,
            last_warn: None,
        }
    }
    fn refill(&mut self, now: i64) {
        let dt = (now - self.at) as f64;
        self.since += dt;
        self.at = now;
        if self.cap > 0.0 {
            self.tokens = (self.tokens + dt * self.rate_per_ns).min(self.cap);
        }
    }
    /// Rounding allowance: the implementation counts whole nanoseconds per token.
    fn eps(&self) -> f64 {
        1e-6 + self.since / self.interval_ns / self.interval_ns
    }
}

fn cfg(r: &mut Rng) -> (RateLimitConfig, u32, u64, u32) {
    let (max, win): (u32, u64) = match r.below(6) {
        0 => (r.ur(1, 20) as u32, r.ur(1, 10)),
        1 => (r.ur(1, 1000) as u32, r.ur(1, 3600)),
        2 => (*r.pick(&[3u32, 7, 11, 13, 17, 101, 997]), r.ur(1, 100)),
        3 => (1, *r.pick(&[1u64, 60, 86400])),
        4 => (*r.pick(&[10u32, 30, 60, 100]), *r.pick(&[60u64, 300, 3600])),
        _ => (r.ur(500, 10_000) as u32, r.ur(1, 5)),
    };
    let mut c = RateLimitConfig::new(max, win).expect("config");
    let mut burst = max;
    if r.chance(3, 4) {
        burst = match r.below(4) {
            0 => 1,
            1 => r.ur(1, 8) as u32,
            2 => r.ur(1, 60) as u32,
            _ => r.ur(1, 300) as u32,
        };
        if r.chance(1, 40) {
            burst = 0;
        }
        c = c.with_burst_capacity(burst).expect("burst");
    }
    (c, max, win, burst)
}

fn now() -> i64 {
    clock::offset_ns()
}

/// One check; automatic idle cleanup (before the bucket is touched) is mirrored in the model.
fn ask(l: &RateLimiter, k: &str, model: &mut BTreeMap<String, Ref>, idle: u64, cleaned: &mut bool) -> bool {
    let t = now();
    let runs = l.metrics().cleanup_runs();
    let got = l.check_rate_limit(k);
    if l.metrics().cleanup_runs() != runs {
        model.retain(|_, m| t - m.last_access <= idle as i64 * 1_000_000_000);
        *cleaned = true;
    }
    got
}

fn history(r: &mut Rng, rec: &mut Rec) {
    clock::rewind();
    let (c, max, win, burst) = cfg(r);
    let idle: u64 = if r.coin() { 1_000_000_000 } else { r.ur(1, 600) };
    let c = c.with_idle_timeout(idle);
    let lim = RateLimiter::new(c);
    let twin = lim.clone();
    let keys: Vec<String> = (0..r.ur(1, 5))
        .map(|i| match r.below(4) {
            0 => format!("10.0.0.{i}"),
            1 => format!("user{i}@example.com"),
            2 => format!("{}{i}", r.string("abcé ü/:;", 1, 6)),
            _ => format!("{}{i}", "k".repeat(r.ur(1, 254) as usize)),
        })
        .collect();
    let mut model: BTreeMap<String, Ref> = BTreeMap::new();
    let (mut total, mut allowed, mut blocked) = (0u64, 0u64, 0u64);
    let mut log: Vec<String> = vec![format!("max={max} win={win}s burst={burst} idle={idle}")];
    let steps = r.ur(20, 400);
    let int_ns = (win as f64 * 1e9 / max as f64) as i64;
    let mut cleaned = false;
    for _ in 0..steps {
        let l = if r.coin() { &lim } else { &twin };
        match r.below(20) {
            0..=9 => {
                let k = r.pick(&keys).clone();
                let t = now();
                let got = ask(l, &k, &mut model, idle, &mut cleaned);
                total += 1;
                let m = model.entry(k.clone()).or_insert_with(|| Ref::new(max, win, burst, t));
                m.refill(t);
                m.last_access = t;
                log.push(format!("{t} check {:.20} -> {got} (ref {:.4})", k, m.tokens));
                rec.count(if got { "admitted" } else { "refused" }, 1);
                let eps = m.eps();
                if got {
                    allowed += 1;
                    rec.check(m.tokens > -eps && burst > 0, "admits-over-rate", || format!("admitted although the bucket held {} - 1 tokens: {:?}", m.tokens, tail(&log)));
                    m.tokens -= 1.0;
                } else {
                    blocked += 1;
                    m.blocked += 1;
                    rec.check(m.tokens < 1.0 + eps, "refuses-under-rate", || format!("refused although the bucket held {} tokens: {:?}", m.tokens, tail(&log)));
                }
                if r.chance(1, 8) {
                    // retry loop: how many are admitted back to back
                    let mut n = 0u32;
                    while n <= burst + 1 && ask(&lim, &k, &mut model, idle, &mut cleaned) {
                        n += 1;
                    }
                    let m = model.get_mut(&k).expect("just asked");
                    total += n as u64 + 1;
                    if n <= burst + 1 {
                        allowed += n as u64;
                        blocked += 1;
                        m.blocked += 1;
                    } else {
                        allowed += n as u64;
                        total -= 1;
                    }
                    rec.check((n as f64) < m.tokens + 1.0 + eps && (n as f64) > m.tokens - 1.0 - eps, "burst-size", || {
                        format!("{n} admitted back to back with {} tokens held: {:?}", m.tokens, tail(&log))
                    });
                    log.push(format!("{t} drain {n}"));
                    m.tokens -= n as f64;
                    rec.count("drains", 1);
                }
            }
            10..=13 => {
                let d = match r.below(8) {
                    0 => int_ns,
                    1 => int_ns - 1,
                    2 => int_ns + 1,
                    3 => int_ns / r.ur(2, 9) as i64,
                    4 => int_ns * r.ur(2, 9) as i64,
                    5 => r.ur(1, 1 + win * 1_000_000_000 / 50) as i64,
                    6 => (win * 1_000_000_000) as i64,
                    _ => r.ur(1, 1_000_000_000) as i64,
                };
                clock::advance_ns(d.max(0));
                rec.count("clock_steps", 1);
            }
            14 => {
                let k = r.pick(&keys).clone();
                let t = now();
                let got = l.remaining_tokens(&k);
                match (got, model.get_mut(&k)) {
                    (None, None) => {}
                    (Some(g), Some(m)) => {
                        m.refill(t);
                        let e = m.eps();
                        rec.check((g as f64) > m.tokens - 1.0 - e && (g as f64) < m.tokens + 1.0 + e && g <= burst, "remaining", || {
                            format!("remaining {g} with {} held: {:?}", m.tokens, tail(&log))
                        });
                    }
                    (g, m) => rec.violate("tracked", format!("remaining {g:?} but model {m:?}: {:?}", tail(&log))),
                }
            }
            15 => {
                let k = r.pick(&keys).clone();
                let t = now();
                let unix = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
                match (l.get_limit_info(&k), model.get_mut(&k)) {
                    (None, None) => {}
                    (Some(i), Some(m)) => {
                        m.refill(t);
                        let e = m.eps();
                        let g = i.remaining() as f64;
                        rec.check(i.limit() == max, "info-limit", || format!("limit {} != {max}", i.limit()));
                        rec.check(g > m.tokens - 1.0 - e && g < m.tokens + 1.0 + e, "info-remaining", || format!("info remaining {g} with {} held: {:?}", m.tokens, tail(&log)));
                        rec.check(i.reset_at() == unix + i.retry_after(), "info-reset-at", || format!("reset_at {} vs {unix}+{}", i.reset_at(), i.retry_after()));
                        let need_s = (m.cap - m.tokens) * m.interval_ns / 1e9;
                        let slack = (1.0 + e * m.cap.max(1.0)) * m.interval_ns / 1e9;
                        let ra = i.retry_after() as f64;
                        if burst > 0 {
                            rec.check(ra <= need_s + slack + 1.0 + 1e-6, "retry-after-late", || format!("retry_after {ra} but the bucket is full in {need_s}s: {:?}", tail(&log)));
                            rec.check(ra >= need_s - slack - 1e-6, "retry-after-early", || format!("retry_after {ra} but the bucket needs {need_s}s: {:?}", tail(&log)));
                        }
                        // Obey it: afterwards the full burst is available.
                        if burst > 0 && burst <= 60 && r.coin() && t + (i.retry_after() as i64) * 1_000_000_000 - m.last_access < (idle as i64).saturating_mul(1_000_000_000) {
                            clock::advance_ns(i.retry_after() as i64 * 1_000_000_000);
                            let t2 = now();
                            let mut n = 0;
                            while n < burst && ask(&lim, &k, &mut model, idle, &mut cleaned) {
                                n += 1;
                            }
                            let m = model.get_mut(&k).expect("just asked");
                            total += n as u64;
                            allowed += n as u64;
                            if n < burst {
                                total += 1;
                                blocked += 1;
                                m.blocked += 1;
                            }
                            m.refill(t2);
                            m.last_access = t2;
                            rec.check(n == burst, "retry-after-insufficient", || format!("after waiting {}s only {n} of {burst} admitted: {:?}", i.retry_after(), tail(&log)));
                            m.tokens -= n as f64;
                            rec.count("retry_after_obeyed", 1);
                            log.push(format!("{t2} obeyed retry_after {} drained {n}", i.retry_after()));
                        }
                    }
                    (g, m) => rec.violate("tracked", format!("info {g:?} but model {m:?}: {:?}", tail(&log))),
                }
            }
            16 => {
                let k = match r.below(3) {
                    0 => "x".repeat(257 + r.ub(20) as usize),
                    1 => format!("a{}b", *r.pick(&["\r", "\n", "\0", "\t", "\u{7f}", "\u{85}"])),
                    _ => format!("{}é", "y".repeat(255)),
                };
                let active = l.active_count();
                total += 1;
                blocked += 1;
                let runs = l.metrics().cleanup_runs();
                rec.check(!l.check_rate_limit(&k), "invalid-key-admitted", || format!("invalid key admitted: {k:?}"));
                rec.check(l.metrics().cleanup_runs() != runs || l.active_count() == active, "invalid-key-tracked", || format!("invalid key tracked: {k:?}"));
                if l.metrics().cleanup_runs() != runs {
                    let t = now();
                    model.retain(|_, m| t - m.last_access <= idle as i64 * 1_000_000_000);
                }
                rec.count("invalid_keys", 1);
            }
            17 => {
                if r.chance(1, 4) {
                    if r.chance(1, 4) {
                        l.clear();
                        model.clear();
                        log.push("clear".into());
                    } else {
                        let k = r.pick(&keys).clone();
                        l.reset(&k);
                        model.remove(&k);
                        log.push(format!("reset {k:.20}"));
                    }
                }
            }
            18 => {
                // idle cleanup removes exactly the idle keys
                if idle < 1_000_000 && r.coin() {
                    let d = match r.below(3) {
                        0 => idle as i64 * 1_000_000_000,
                        1 => idle as i64 * 1_000_000_000 + 1,
                        _ => r.ub(idle * 1_000_000_000) as i64,
                    };
                    clock::advance_ns(d);
                }
                let t = now();
                let want = model.values().filter(|m| t - m.last_access > idle as i64 * 1_000_000_000).count();
                let got = l.cleanup_idle();
                rec.check(got == want, "idle-cleanup", || format!("cleanup removed {got}, {want} idle: {:?}", tail(&log)));
                model.retain(|_, m| t - m.last_access <= idle as i64 * 1_000_000_000);
                rec.check(l.active_count() == model.len(), "active-count", || format!("{} tracked, model {}", l.active_count(), model.len()));
                log.push(format!("{t} cleanup {got}"));
                cleaned |= got > 0;
            }
            _ => {
                let k = r.pick(&keys).clone();
                let t = now();
                let iv = Duration::from_millis(*r.pick(&[1u64, 500, 1000, 5000, 60_000]));
                if let Some(m) = model.get_mut(&k) {
                    let due = m.last_warn.is_none_or(|w| t - w >= iv.as_nanos() as i64);
                    let got = l.should_log_blocked(&k, iv);
                    rec.check(got == if due { Some(m.blocked) } else { None }, "log-throttle", || format!("should_log {got:?}, due {due}, blocked {}: {:?}", m.blocked, tail(&log)));
                    if due {
                        m.last_warn = Some(t);
                    }
                    rec.count("log_decisions", 1);
                }
            }
        }
    }
    let mt = lim.metrics();
    rec.check(
        mt.total_checks() == total && mt.allowed_requests() == allowed && mt.blocked_requests() == blocked,
        "metrics",
        || format!("metrics {}/{}/{} but observed {total}/{allowed}/{blocked}", mt.total_checks(), mt.allowed_requests(), mt.blocked_requests()),
    );
    rec.check(lim.active_count() == model.len(), "active-count", || format!("{} tracked, model {}", lim.active_count(), model.len()));
    if total > 0 {
        let br = mt.block_rate();
        rec.check((br - blocked as f64 / total as f64 * 100.0).abs() < 1e-6, "block-rate", || format!("block rate {br} for {blocked}/{total}"));
    }
    rec.count(if cleaned { "histories_with_idle_removal" } else { "histories_without_idle_removal" }, 1);
    rec.sample(|| format!("{:?}", &log[..log.len().min(12)]));
    rec.eval(Some(&log));
}

fn tail(l: &[String]) -> Vec<String> {
    let mut v = vec![l[0].clone()];
    v.extend(l[1.max(l.len().saturating_sub(25))..].iter().cloned());
    v
}

/// Frozen clock, many threads: exactly the burst, then exactly the refill.
fn contest(r: &mut Rng, rec: &mut Rec) {
    clock::rewind();
    let max = *r.pick(&[1u32, 10, 60, 100, 7]);
    let win = *r.pick(&[1u64, 60, 300]);
    let burst = r.ur(1, 40) as u32;
    let lim = RateLimiter::new(RateLimitConfig::new(max, win).unwrap().with_burst_capacity(burst).unwrap().with_idle_timeout(1 << 40));
    let threads = r.ur(2, 8) as usize;
    let per = r.ur(1, 200) as usize;
    let nkeys = r.ur(1, 3) as usize;
    let mut avail = vec![burst as u64; nkeys];
    let int_ns = win * 1_000_000_000 / max as u64;
    let rounds = r.ur(1, 4);
    let mut shape = vec![];
    for round in 0..rounds {
        let admitted: Vec<std::sync::atomic::AtomicU64> = (0..nkeys).map(|_| Default::default()).collect();
        let logs = std::sync::atomic::AtomicU64::new(0);
        let any_blocked = std::sync::atomic::AtomicU64::new(0);
        let bar = std::sync::Barrier::new(threads);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (lim, admitted, bar, logs, any_blocked) = (lim.clone(), &admitted, &bar, &logs, &any_blocked);
                s.spawn(move || {
                    bar.wait();
                    for i in 0..per {
                        let k = (t + i) % nkeys;
                        if lim.check_rate_limit(&format!("k{k}")) {
                            admitted[k].fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        } else if k == 0 {
                            any_blocked.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                            if lim.should_log_blocked("k0", Duration::from_millis(1)).is_some() {
                                logs.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                            }
                        }
                    }
                });
            }
        });
        for k in 0..nkeys {
            let asked = (0..threads).map(|t| (0..per).filter(|i| (t + i) % nkeys == k).count() as u64).sum::<u64>();
            let got = admitted[k].load(std::sync::atomic::Ordering::Relaxed);
            let want = asked.min(avail[k]);
            rec.check(got == want, "concurrent-admissions", || format!("round {round}: {got} admitted of {asked} with {} available ({threads} threads, max {max}/{win}s burst {burst})", avail[k]));
            avail[k] -= want;
            shape.push((asked, got));
        }
        let l = logs.load(std::sync::atomic::Ordering::Relaxed);
        if any_blocked.load(std::sync::atomic::Ordering::Relaxed) > 0 {
            rec.check(l == 1, "concurrent-log-throttle", || format!("{l} threads told to log one refusal burst"));
        }
        let steps = r.ur(1, 2 * burst as u64 + 1);
        clock::advance_ns((steps * int_ns).max(2_000_000) as i64);
        let steps = (steps * int_ns).max(2_000_000) / int_ns;
        for a in avail.iter_mut() {
            *a = (*a + steps).min(burst as u64);
        }
        // Buckets not yet asked for were never created; they start full anyway.
        for (k, a) in avail.iter_mut().enumerate() {
            if lim.remaining_tokens(&format!("k{k}")).is_none() {
                *a = burst as u64;
            }
        }
    }
    let m = lim.metrics();
    rec.check(m.total_checks() == m.allowed_requests() + m.blocked_requests() && m.total_checks() == rounds * (threads * per) as u64, "metrics", || "concurrent metrics do not add up".into());
    rec.count("concurrent_contests", 1);
    rec.eval(Some(&(max, win, burst, threads, shape)));
}

fn presets(r: &mut Rng, rec: &mut Rec) {
    clock::rewind();
    let set = if r.chance(1, 8) { RateLimiterSet::default() } else { RateLimiterSet::new() };
    let key = format!("10.1.{}.{}", r.ub(255), r.ub(255));
    let ip: std::net::IpAddr = key.parse().unwrap();
    let which = r.ub(4);
    let (l, burst, max, win) = match which {
        0 => (set.auth(), 3u32, 10u64, 300u64),
        1 => (set.register(), 10, 60, 3600),
        2 => (set.invite(), 10, 30, 60),
        _ => (set.connections(), 20, 100, 60),
    };
    let mut n = 0;
    for i in 0..burst * 2 {
        let ok = if r.coin() { l.check_by_ip(ip) } else { l.check_rate_limit(&key) };
        rec.check(ok == (i < burst), "preset-burst", || format!("preset {which}: attempt {i} -> {ok}"));
        n += 1;
    }
    // the other limiters of the set are untouched
    for (j, o) in [set.auth(), set.register(), set.invite(), set.connections()].into_iter().enumerate() {
        if j as u64 != which {
            rec.check(o.remaining_tokens(&key).is_none() && o.metrics().total_checks() == 0, "preset-shared", || format!("preset {j} affected by {which}"));
        }
    }
    let k = r.ur(1, burst as u64);
    clock::advance_ns((k * win * 1_000_000_000 / max + 1) as i64);
    let mut got = 0;
    while got <= burst as u64 && l.check_rate_limit(&key) {
        got += 1;
    }
    rec.check(got == k, "preset-rate", || format!("preset {which}: {got} admitted after {k} intervals"));
    let v6 = std::net::IpAddr::from([0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, r.ub(256) as u8, 1]);
    l.check_by_ip(v6);
    rec.check(l.remaining_tokens(&v6.to_string()) == Some(burst - 1), "ip-key", || "check_by_ip does not use the address text".into());
    // disabled
    let d = if r.coin() { RateLimiter::disabled() } else { RateLimiter::new(RateLimitConfig::auth_preset().with_enabled(false)) };
    for _ in 0..50 {
        rec.check(d.check_rate_limit(&key), "disabled-refuses", || "a disabled limiter refused".into());
    }
    rec.check(d.get_limit_info(&key).is_none() && d.active_count() == 0, "disabled-tracks", || "a disabled limiter tracks".into());
    let ds = RateLimiterSet::disabled();
    rec.check((0..100).all(|_| ds.auth().check_rate_limit(&key) && ds.invite().check_rate_limit(&key) && ds.register().check_rate_limit(&key) && ds.connections().check_rate_limit(&key)), "disabled-refuses", || "disabled set refused".into());
    rec.eval(Some(&(which, n, k, key)));
}

fn configs(r: &mut Rng, rec: &mut Rec) {
    clock::rewind();
    let max = *r.pick(&[0u32, 1, 2, 999_999, 1_000_000, 1_000_001, u32::MAX]);
    let win = *r.pick(&[0u64, 1, 86_399, 86_400, 86_401, u64::MAX]);
    let c = RateLimitConfig::new(max, win);
    let ok = (1..=1_000_000).contains(&max) && (1..=86_400).contains(&win);
    rec.check(c.is_ok() == ok, "config-limits", || format!("new({max},{win}) -> {c:?}"));
    if let Ok(c) = c {
        let b = *r.pick(&[0u32, 1, 9_999, 10_000, 10_001, u32::MAX]);
        rec.check(c.clone().with_burst_capacity(b).is_ok() == (b <= 10_000), "config-limits", || format!("burst {b}"));
        rec.check(c.max_requests() == max && c.window_secs() == win && c.burst_capacity() == max && c.enabled(), "config-values", || format!("{c:?}"));
        let l = RateLimiter::new(c);
        rec.guard("extreme config", &|| format!("{max}/{win}"), || {
            for _ in 0..4 {
                l.check_rate_limit("a");
                clock::advance_ns(1_000_000_007);
                l.get_limit_info("a");
            }
        });
    }
    rec.eval(Some(&(max, win)));
}

/// At the tracking limit new keys are refused, tracked ones served.
fn capacity(r: &mut Rng, rec: &mut Rec) {
    clock::rewind();
    let idle = r.ur(10, 100);
    let l = RateLimiter::new(RateLimitConfig::new(1000, 3600).unwrap().with_burst_capacity(100).unwrap().with_idle_timeout(idle));
    const CAP: usize = 100_000;
    for i in 0..CAP {
        let ok = l.check_rate_limit(&format!("s{i}"));
        if !ok {
            rec.violate("capacity-early", format!("key {i} refused before the limit"));
            break;
        }
    }
    for i in 0..r.ur(1, 50) {
        rec.check(!l.check_rate_limit(&format!("n{i}")), "capacity-exceeded", || format!("a new key was tracked beyond {CAP}"));
        let k = r.ub(CAP as u64);
        rec.check(l.check_rate_limit(&format!("s{k}")), "capacity-starves", || format!("tracked key s{k} refused at capacity"));
    }
    rec.check(l.active_count() == CAP, "capacity-count", || format!("{} tracked", l.active_count()));
    clock::advance_ns(idle as i64 * 1_000_000_000 + 1);
    let keep = format!("s{}", r.ub(CAP as u64));
    // This check itself may trigger the automatic cleanup.
    l.check_rate_limit(&keep);
    l.cleanup_idle();
    rec.check(l.active_count() == 1, "capacity-cleanup", || format!("{} tracked after cleanup", l.active_count()));
    rec.check(l.check_rate_limit("new"), "capacity-not-freed", || "new key refused after cleanup".into());
    // Periodic cleanup happens by itself.
    clock::advance_ns(idle as i64 * 1_000_000_000 + 1);
    for i in 0..1100 {
        l.check_rate_limit(&format!("p{}", i % 7));
    }
    rec.check(l.active_count() == 7, "no-automatic-cleanup", || format!("{} tracked after 1100 checks", l.active_count()));
    rec.eval(Some(&(idle, keep)));
    rec.count("keys_tracked", CAP as u64);
}

fn main() {
    let mut cx = Ctx::new("R01", "distinct histories of checks, clock advances, resets and cleanups (per configuration), plus distinct contest outcomes");
    if !clock::works() {
        eprintln!("virtual clock not effective");
        std::process::exit(3);
    }
    clock::freeze();
    cx.assume("the monitor's continuous token bucket is the meaning of 'max requests per window with this burst'; one token of phase is allowed either way");
    let n = cx.n(6000, 150_000);
    cx.run_seq("histories", n, history);
    let n = cx.n(1500, 30_000);
    cx.run_seq("contests", n, contest);
    let n = cx.n(600, 5000);
    cx.run_seq("presets", n, presets);
    let n = cx.n(300, 2000);
    cx.run_seq("configs", n, configs);
    let n = cx.n(2, 10);
    cx.run_seq("capacity", n, capacity);
    cx.finish()
}
