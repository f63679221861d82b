//! O01: transport metrics sampling and labels.
use sip_observe::*;
use std::num::NonZeroU64;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vmon::{clock, Ctx, Rec, Rng};

static EVENTS: AtomicU64 = AtomicU64::new(0);
static LAST: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);

struct V<'a>(&'a mut Vec<(String, String)>);
impl tracing::field::Visit for V<'_> {
    fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        self.0.push((f.name().into(), format!("{v:?}")));
    }
}
struct Sub;
impl tracing::Subscriber for Sub {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, a: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        let mut f = vec![("span".to_string(), a.metadata().name().to_string())];
        a.record(&mut V(&mut f));
        *LAST.lock().unwrap() = f;
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        if e.metadata().target().starts_with("sip_observe") {
            EVENTS.fetch_add(1, Ordering::SeqCst);
            let mut f = vec![("level".to_string(), e.metadata().level().to_string())];
            e.record(&mut V(&mut f));
            *LAST.lock().unwrap() = f;
        }
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

const T: [(TransportLabel, &str); 7] = [
    (TransportLabel::Udp, "udp"),
    (TransportLabel::Tcp, "tcp"),
    (TransportLabel::Tls, "tls"),
    (TransportLabel::Sctp, "sctp"),
    (TransportLabel::TlsSctp, "tls-sctp"),
    (TransportLabel::Ws, "ws"),
    (TransportLabel::Wss, "wss"),
];
const S: [(StageLabel, &str); 10] = [
    (StageLabel::Accept, "accept"),
    (StageLabel::BufferOverflow, "buffer_overflow"),
    (StageLabel::Dispatch, "dispatch"),
    (StageLabel::FramingError, "framing_error"),
    (StageLabel::Handshake, "handshake"),
    (StageLabel::Read, "read"),
    (StageLabel::Recv, "recv"),
    (StageLabel::SessionLimit, "session_limit"),
    (StageLabel::Truncate, "truncate"),
    (StageLabel::Write, "write"),
];
const O: [(OpLabel, &str); 2] = [(OpLabel::Accept, "accept"), (OpLabel::Recv, "recv")];

/// Make one metric call; returns the fields its event must carry when emitted.
fn call(r: &mut Rng, m: &dyn TransportMetrics) -> Vec<(&'static str, String)> {
    let (t, ts) = *r.pick(&T);
    let mut want = vec![("transport", ts.to_string())];
    match r.below(7) {
        0 => m.on_packet_received(t),
        1 => m.on_packet_sent(t),
        2 => {
            let (s, ss) = *r.pick(&S);
            want.push(("stage", ss.to_string()));
            m.on_error(t, s)
        }
        3 => m.on_accept(t),
        4 => m.on_connect(t),
        5 => {
            let (o, os) = *r.pick(&O);
            let n = r.u64();
            want.push(("op", os.into()));
            want.push(("nanos", n.to_string()));
            m.on_latency(t, o, n)
        }
        _ => m.on_rate_limited(t),
    }
    want
}

fn sampled(r: &mut Rng, rec: &mut Rec) {
    let every = *r.pick(&[1u64, 1, 2, 3, 7, 10, 100]);
    let min = match r.below(4) {
        0 => 0,
        1 => r.ur(1, 1000),
        2 => r.ur(1, 10_000_000),
        _ => r.ur(1, 100_000_000_000),
    };
    if r.chance(1, 10) {
        run_sampled(r, rec, &RateLimitedTracingTransportMetrics::default(), 10, 5_000_000);
    } else {
        run_sampled(r, rec, &RateLimitedTracingTransportMetrics::new(Duration::from_nanos(min), NonZeroU64::new(every).unwrap()), every, min);
    }
}
fn run_sampled(r: &mut Rng, rec: &mut Rec, m: &dyn TransportMetrics, every: u64, min: u64) {
    clock::rewind();
    let mut last: Option<i64> = None;
    let mut shape = vec![];
    for i in 0..r.ur(1, 300) {
        if r.chance(1, 3) {
            clock::advance_ns(match r.below(4) {
                0 => min as i64,
                1 => (min as i64 - 1).max(0),
                2 => 1,
                _ => r.ub(2 * min + 2) as i64,
            });
        }
        let t = clock::offset_ns();
        let e0 = EVENTS.load(Ordering::SeqCst);
        let want = call(r, m);
        let got = EVENTS.load(Ordering::SeqCst) - e0;
        let due = i % every == 0 && last.is_none_or(|l| t - l >= min as i64);
        rec.check(got == due as u64, "sampling", || format!("call {i}: {got} events, due={due} (every {every}, min {min}ns, last {last:?}, now {t})"));
        if got == 1 {
            last = Some(t);
            fields(rec, &want);
            rec.count("events_emitted", 1);
        }
        rec.count("metric_calls", 1);
        shape.push(got);
    }
    rec.eval(Some(&(every, min, shape)));
}
fn fields(rec: &mut Rec, want: &[(&'static str, String)]) {
    let f = LAST.lock().unwrap().clone();
    for (k, v) in want {
        rec.check(f.iter().any(|(a, b)| a == k && b == v), "event-fields", || format!("event {f:?} lacks {k}={v}"));
    }
}
fn unsampled(r: &mut Rng, rec: &mut Rec) {
    let m = TracingTransportMetrics;
    for _ in 0..20 {
        let e0 = EVENTS.load(Ordering::SeqCst);
        let want = call(r, &m);
        rec.check(EVENTS.load(Ordering::SeqCst) - e0 == 1, "unsampled", || "not exactly one event per call".into());
        fields(rec, &want);
    }
    rec.eval(Some(&r.u64()));
}
fn concurrent(r: &mut Rng, rec: &mut Rec) {
    clock::rewind();
    let every = *r.pick(&[1u64, 2, 5, 10]);
    let limited = r.coin();
    let min = if limited { r.ur(1, 1_000_000_000) } else { 0 };
    let m = RateLimitedTracingTransportMetrics::new(Duration::from_nanos(min), NonZeroU64::new(every).unwrap());
    let threads = r.ur(2, 8);
    let per = r.ur(1, 100);
    let mut before = 0u64;
    for round in 0..r.ur(1, 4) {
        let e0 = EVENTS.load(Ordering::SeqCst);
        let bar = std::sync::Barrier::new(threads as usize);
        std::thread::scope(|s| {
            for _ in 0..threads {
                s.spawn(|| {
                    bar.wait();
                    for _ in 0..per {
                        m.on_packet_sent(TransportLabel::Udp);
                    }
                });
            }
        });
        let got = EVENTS.load(Ordering::SeqCst) - e0;
        let calls = threads * per;
        let sampled = (before + calls).div_ceil(every) - before.div_ceil(every);
        before += calls;
        let want = if limited { sampled.min(1) } else { sampled };
        rec.check(got == want, "concurrent-sampling", || format!("round {round}: {got} events, expected {want} ({threads}x{per}, every {every}, min {min})"));
        rec.eval(Some(&(threads, per, every, min, round, got)));
        clock::advance_ns(min as i64 + r.ub(5) as i64);
    }
}
fn labels(r: &mut Rng, rec: &mut Rec) {
    for (t, s) in T {
        rec.check(t.as_str() == s && t.to_string() == s && TransportLabel::try_from(s) == Ok(t), "label", || format!("{t:?}"));
    }
    for (t, s) in S {
        rec.check(t.as_str() == s && t.to_string() == s && StageLabel::try_from(s) == Ok(t), "label", || format!("{t:?}"));
    }
    for (t, s) in O {
        rec.check(t.as_str() == s && t.to_string() == s && OpLabel::try_from(s) == Ok(t), "label", || format!("{t:?}"));
    }
    let x = match r.below(4) {
        0 => r.string("abcwstudp-_.\r\n é", 0, 12),
        1 => "u".repeat(r.ur(60, 70) as usize),
        2 => {
            let mut b = r.pick(&T).1.as_bytes().to_vec();
            r.mutate(&mut b, 1);
            b.iter().map(|c| *c as char).collect()
        }
        _ => r.pick(&S).1.to_uppercase(),
    };
    let safe = x.bytes().all(|b| b.is_ascii_alphanumeric() || b"-_.".contains(&b));
    macro_rules! chk {
        ($ty:ty, $tab:expr) => {
            if let Some(res) = rec.guard("label parse", &|| format!("{x:?}"), || <$ty>::try_from(x.as_str())) {
                let known = $tab.iter().find(|(_, s)| *s == x);
                match (&res, known) {
                    (Ok(l), Some((k, _))) => {
                        rec.check(l == k, "label", || format!("{x:?} -> {l:?}"));
                    }
                    (Err(LabelError::TooLong { len, .. }), None) => {
                        rec.check(x.len() > MAX_LABEL_LEN && len == &x.len(), "label-error", || format!("{x:?} {res:?}"));
                    }
                    (Err(LabelError::InvalidChar { index, byte }), None) => {
                        rec.check(!safe && x.as_bytes().get(*index) == Some(byte), "label-error", || format!("{x:?} {res:?}"));
                    }
                    (Err(LabelError::UnknownValue(v)), None) => {
                        rec.check(safe && x.len() <= MAX_LABEL_LEN && v == &x, "label-error", || format!("{x:?} {res:?}"));
                    }
                    _ => rec.violate("label", format!("{x:?} -> {res:?}")),
                }
            }
        };
    }
    chk!(TransportLabel, T);
    chk!(StageLabel, S);
    chk!(OpLabel, O);
    let (t, ts) = *r.pick(&T);
    let _sp = span_with_transport("probe", t);
    let f = LAST.lock().unwrap().clone();
    rec.check(f.iter().any(|(k, v)| k == "transport" && v == ts) && f.iter().any(|(k, v)| k == "op" && v.contains("probe")), "span-fields", || format!("{f:?}"));
    rec.eval(Some(&x));
}

struct Count(AtomicU64);
impl TransportMetrics for Count {
    fn on_packet_received(&self, _: TransportLabel) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
    fn on_packet_sent(&self, _: TransportLabel) {}
    fn on_error(&self, _: TransportLabel, _: StageLabel) {}
    fn on_accept(&self, _: TransportLabel) {}
    fn on_connect(&self, _: TransportLabel) {}
    fn on_latency(&self, _: TransportLabel, _: OpLabel, _: u64) {}
}
/// The process-wide sink: exactly one of many racing registrations wins, for good.
fn sink(_r: &mut Rng, rec: &mut Rec) {
    transport_metrics().on_packet_received(TransportLabel::Udp);
    let all: Vec<Arc<Count>> = (0..8).map(|_| Arc::new(Count(AtomicU64::new(0)))).collect();
    let bar = std::sync::Barrier::new(8);
    let wins: Vec<bool> = std::thread::scope(|s| {
        let hs: Vec<_> = all
            .iter()
            .map(|c| {
                let bar = &bar;
                s.spawn(move || {
                    bar.wait();
                    set_transport_metrics(c.clone())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    rec.check(wins.iter().filter(|w| **w).count() == 1, "sink-winners", || format!("{wins:?}"));
    rec.check(!set_transport_metrics(all[0].clone()), "sink-replaced", || "a second registration succeeded".into());
    for _ in 0..5 {
        transport_metrics().on_packet_received(TransportLabel::Tcp);
    }
    for (c, w) in all.iter().zip(&wins) {
        let n = c.0.load(Ordering::SeqCst);
        rec.check(n == if *w { 5 } else { 0 }, "sink-delivery", || format!("winner={w} saw {n}"));
    }
    rec.eval(Some("sink"));
}

fn main() {
    let mut cx = Ctx::new("O01", "distinct call/clock schedules with their emission pattern, label texts, and thread contests");
    tracing::subscriber::set_global_default(Sub).expect("subscriber");
    if !clock::works() {
        std::process::exit(3);
    }
    clock::freeze();
    let n = cx.n(2000, 50_000);
    cx.run_seq("sampled", n, sampled);
    let n = cx.n(200, 2000);
    cx.run_seq("unsampled", n, unsampled);
    let n = cx.n(1500, 20_000);
    cx.run_seq("concurrent", n, concurrent);
    let n = cx.n(20_000, 300_000);
    cx.run_seq("labels", n, labels);
    cx.run_seq("sink", 1, sink);
    cx.finish()
}
