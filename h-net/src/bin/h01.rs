//! H01: every message that crosses a transport is mirrored to the capture collector once, as
//! it was, with the addresses it went between and its Call-ID; nothing else is.  The real
//! transports run on the loopback network with a collector that records what it is given.
use bytes::Bytes;
use sip_hep::{HepProtocol, HepSink, IpProto, SipHepEmitter};
use sip_transport::pool::ConnectionPool;
use sip_transport::*;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{IpAddr, Ipv4Addr, SocketAddr, TcpStream};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::mpsc as std_mpsc;
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant, SystemTime};
use tokio::sync::mpsc;
use vmon::{Ctx, Rec, Rng};

/// Patience; less of it once a few messages were missed, to end in good time.
fn wait() -> Duration {
    Duration::from_millis(if MISSED.load(SeqCst) < 4 { 20_000 } else { 200 })
}
static MISSED: AtomicU64 = AtomicU64::new(0);
const ID: u32 = 40_971;
const PASSWORD: &str = "collector secret";
/// Messages taken from one address before the transports drop the rest.
const QUOTA: usize = 40;

// ---- the collector -------------------------------------------------------------------

struct Seen {
    n: u64,
    pkt: hep_rs::HepPacket,
}
#[derive(Default)]
struct Collector {
    by_token: Mutex<HashMap<String, Vec<Seen>>>,
    strays: Mutex<Vec<hep_rs::HepPacket>>,
    count: AtomicU64,
}
fn collector() -> &'static Arc<Collector> {
    static C: OnceLock<Arc<Collector>> = OnceLock::new();
    C.get_or_init(Arc::default)
}
/// Every message of ours names itself "T<number>T" early on.
fn token(b: &[u8]) -> Option<String> {
    let t = String::from_utf8_lossy(&b[..b.len().min(300)]).to_string();
    let at = t.find("sip:T")? + 4;
    let end = t[at + 1..].find('T')? + at + 2;
    Some(t[at..end].to_string())
}
struct Sink(Arc<Collector>);
impl HepSink for Sink {
    fn send(&self, pkt: hep_rs::HepPacket) {
        let n = self.0.count.fetch_add(1, SeqCst);
        match token(&pkt.payload) {
            Some(t) => self.0.by_token.lock().unwrap().entry(t).or_default().push(Seen { n, pkt }),
            None => self.0.strays.lock().unwrap().push(pkt),
        }
    }
}

#[derive(Default)]
struct Counts {
    received: AtomicU64,
    sent: AtomicU64,
    limited: AtomicU64,
    limited_tcp: AtomicU64,
}
static COUNTS: OnceLock<Arc<Counts>> = OnceLock::new();
/// What the counts ought to be.
static RECEIVED: AtomicU64 = AtomicU64::new(0);
static SENT: AtomicU64 = AtomicU64::new(0);
static LIMITED: AtomicU64 = AtomicU64::new(0);
static LIMITED_TCP: AtomicU64 = AtomicU64::new(0);
static RESENT: AtomicU64 = AtomicU64::new(0);
struct Meter(Arc<Counts>);
use sip_observe::{OpLabel, StageLabel, TransportLabel};
impl sip_observe::TransportMetrics for Meter {
    fn on_packet_received(&self, t: TransportLabel) {
        if matches!(t, TransportLabel::Udp) {
            self.0.received.fetch_add(1, SeqCst);
        }
    }
    fn on_packet_sent(&self, t: TransportLabel) {
        if matches!(t, TransportLabel::Udp) {
            self.0.sent.fetch_add(1, SeqCst);
        }
    }
    fn on_error(&self, _: TransportLabel, _: StageLabel) {}
    fn on_accept(&self, _: TransportLabel) {}
    fn on_connect(&self, _: TransportLabel) {}
    fn on_latency(&self, _: TransportLabel, _: OpLabel, _: u64) {}
    fn on_rate_limited(&self, t: TransportLabel) {
        match t {
            TransportLabel::Udp => self.0.limited.fetch_add(1, SeqCst),
            _ => self.0.limited_tcp.fetch_add(1, SeqCst),
        };
    }
}

struct World {
    rt: tokio::runtime::Runtime,
    tcp: SocketAddr,
    udp: SocketAddr,
    peers: Mutex<HashMap<SocketAddr, std_mpsc::Sender<InboundPacket>>>,
}
fn world() -> &'static Arc<World> {
    static W: OnceLock<Arc<World>> = OnceLock::new();
    W.get_or_init(|| {
        let limit = || RateLimitConfig::new(QUOTA as u32, 86_400).unwrap().with_idle_timeout(1_000_000);
        assert!(set_stream_rate_limit(limit()));
        assert!(set_udp_rate_limit(limit()));
        let counts: Arc<Counts> = Arc::default();
        assert!(sip_observe::set_transport_metrics(Arc::new(Meter(counts.clone()))));
        let _ = COUNTS.set(counts);
        let em = SipHepEmitter::new(Arc::new(Sink(collector().clone())), ID).with_password(PASSWORD);
        assert!(sip_hep::set_emitter(Arc::new(em)));
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
        let (tcp, udp, mut rx) = rt.block_on(async {
            let (tx, rx) = mpsc::channel(64);
            let sock = Arc::new(tokio::net::UdpSocket::bind("127.0.0.1:0").await.unwrap());
            let udp = sock.local_addr().unwrap();
            tokio::spawn(run_udp(sock, tx.clone()));
            let mut tcp = None;
            for _ in 0..20 {
                let probe = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
                let a = probe.local_addr().unwrap();
                drop(probe);
                let t2 = tx.clone();
                let h = tokio::spawn(async move { run_tcp(&a.to_string(), t2).await });
                tokio::time::sleep(Duration::from_millis(100)).await;
                if !h.is_finished() {
                    tcp = Some(a);
                    break;
                }
            }
            (tcp.expect("no port to listen on"), udp, rx)
        });
        let w = Arc::new(World { rt, tcp, udp, peers: Mutex::default() });
        let w2 = w.clone();
        w.rt.spawn(async move {
            while let Some(p) = rx.recv().await {
                if let Some(t) = w2.peers.lock().unwrap().get(&p.peer()) {
                    let _ = t.send(p);
                }
            }
        });
        w
    })
}
static LAST_IP: AtomicU64 = AtomicU64::new(1);
fn fresh_ip() -> IpAddr {
    let k = LAST_IP.fetch_add(1, SeqCst);
    IpAddr::V4(Ipv4Addr::new(127, 1 + (k / 60_000 % 200) as u8, (k / 250 % 240) as u8, (k % 250) as u8 + 2))
}

// ---- messages ------------------------------------------------------------------------

#[derive(Clone, Debug)]
struct Msg {
    wire: Vec<u8>,
    token: String,
    call: Option<String>,
}
static TOKENS: AtomicU64 = AtomicU64::new(0);
fn blanks(r: &mut Rng) -> &'static str {
    *r.pick(&["", "", " ", "  ", "\t", " \t "])
}
fn cased(r: &mut Rng, s: &str) -> String {
    match r.below(3) {
        0 => s.to_string(),
        1 => s.chars().map(|c| if r.coin() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        _ => s.to_ascii_lowercase(),
    }
}
/// A message with at most one Call-ID, in any form, among fields and text that look like it.
fn msg(r: &mut Rng, body: usize) -> Msg {
    let token = format!("T{}T", TOKENS.fetch_add(1, SeqCst));
    let id = format!("{}{}", r.alnum(1, 20), if r.coin() { format!("@{}", r.alnum(1, 10)) } else { String::new() });
    let mut lines: Vec<String> = vec![];
    for _ in 0..r.below(6) {
        let v = r.alnum(1, 12);
        lines.push(match r.below(10) {
            0 => format!("Identity: {v}"),
            1 => format!("Info: i:{v}"),
            2 => format!("Subject: Call-ID: {v}"),
            3 => format!("X-Call-ID: {v}"),
            4 => format!("In-Reply-To: {v}"),
            5 => format!("Call-IDs: {v}"),
            6 => format!("Call-Info: <sip:{v}@h>"),
            7 => format!("Subject: {v}\r\n i: {v}"),
            8 => format!("Subject:\r\n\tCall-ID: {v}"),
            _ => format!("Via: SIP/2.0/UDP h;branch=z9hG4bK{v}"),
        });
    }
    let call = if r.chance(1, 12) {
        None
    } else {
        let name = if r.coin() { cased(r, "Call-ID") } else { cased(r, "i") };
        let before = if r.chance(1, 3) { blanks(r) } else { "" };
        let fold = if r.chance(1, 5) { *r.pick(&["\r\n ", "\r\n\t", " \r\n  ", "\r\n \r\n "]) } else { blanks(r) };
        let after = if r.chance(1, 4) { blanks(r) } else { "" };
        let at = r.below(lines.len() + 1);
        lines.insert(at, format!("{name}{before}:{fold}{id}{after}"));
        Some(id)
    };
    let text = match r.below(3) {
        0 => "b".repeat(body),
        1 => "Call-ID: body\r\ni: body\r\n\r\n".repeat(body / 24 + 1)[..body].to_string(),
        _ => r.string("ab\r\n:i ", body, body),
    };
    let at = r.below(lines.len() + 1);
    lines.insert(at, format!("Content-Length: {}", text.len()));
    let start = if r.coin() { format!("MESSAGE sip:{token}@h SIP/2.0") } else { format!("SIP/2.0 200 sip:{token}") };
    Msg { wire: format!("{start}\r\n{}\r\n\r\n{text}", lines.join("\r\n")).into_bytes(), token, call }
}
fn size(r: &mut Rng, top: usize) -> usize {
    match r.below(12) {
        0 => r.below(top),
        1 => top,
        2 => (*r.pick(&[60_000usize, 61_000, 61_439, 61_440, 61_441, 62_000])).min(top),
        3 => r.below(5000),
        _ => r.below(200),
    }
}

struct Want<'a> {
    msg: &'a Msg,
    ip: IpProto,
    src: SocketAddr,
    dst: SocketAddr,
    times: usize,
}
fn show(b: &[u8]) -> String {
    format!("{} bytes {:?}", b.len(), String::from_utf8_lossy(&b[..b.len().min(300)]))
}
/// What the collector was given about these messages; in the order listed, when it matters.
fn captured(rec: &mut Rec, wants: &[Want], since: SystemTime, ordered: bool) {
    let c = collector();
    let t = Instant::now();
    let missing = |w: &Want| c.by_token.lock().unwrap().get(&w.msg.token).map_or(0, |v| v.len()) < w.times;
    while t.elapsed() < wait() && wants.iter().any(missing) {
        std::thread::sleep(Duration::from_millis(1));
    }
    if wants.iter().any(missing) {
        MISSED.fetch_add(1, SeqCst);
    }
    let mut last = None;
    for w in wants {
        let seen = c.by_token.lock().unwrap().remove(&w.msg.token).unwrap_or_default();
        rec.check(seen.len() == w.times, "mirrored-not-once", || format!("{} times instead of {}, {:?} {} -> {}: {}", seen.len(), w.times, w.ip, w.src, w.dst, show(&w.msg.wire)));
        for s in &seen {
            let p = &s.pkt;
            rec.check(p.capture_id == ID && p.capture_password.as_deref() == Some(PASSWORD) && p.protocol == HepProtocol::Sip, "agent", || format!("{p:?}").chars().take(300).collect());
            rec.check(p.transport == w.ip, "transport", || format!("{:?} for {:?}", p.transport, w.ip));
            rec.check(p.src == w.src && p.dst == w.dst, "addresses", || format!("{} -> {} for {} -> {}", p.src, p.dst, w.src, w.dst));
            let full = &w.msg.wire;
            let whole = p.payload == *full || (full.len() > 61_440 && p.payload.len() >= 60_000 && p.payload.len() < 65_536 && full.starts_with(&p.payload));
            rec.check(whole, "payload", || format!("{} for {}", show(&p.payload), show(full)));
            rec.check(p.correlation_id == w.msg.call, "call-id", || format!("{:?} for {}", p.correlation_id, show(full)));
            let late = SystemTime::now() + Duration::from_secs(2);
            rec.check(p.timestamp + Duration::from_secs(2) >= since && p.timestamp <= late, "time", || format!("{:?}", p.timestamp));
            if ordered {
                rec.check(last.is_none_or(|l| l < s.n), "order", || format!("{} -> {}", w.src, w.dst));
                last = Some(s.n);
            }
            rec.count("messages mirrored", 1);
        }
    }
}

// ---- traffic -----------------------------------------------------------------------------

fn udp(r: &mut Rng, rec: &mut Rec) {
    let w = world();
    let s = std::net::UdpSocket::bind(SocketAddr::new(fresh_ip(), 0)).unwrap();
    let me = s.local_addr().unwrap();
    let (tx, got) = std_mpsc::channel();
    w.peers.lock().unwrap().insert(me, tx);
    let since = SystemTime::now();
    let n = if r.chance(1, 4) { QUOTA + r.below(30) } else { r.range(1, 12) as usize };
    rec.eval(Some(&format!("{me} {n}")));
    let mut used = 0;
    let mut msgs = vec![];
    for _ in 0..n {
        let keep = r.chance(1, 6);
        let mut m = if keep {
            Msg { wire: (*r.pick(&[&b"\r\n\r\n"[..], b"\r\n", b""])).to_vec(), token: String::new(), call: None }
        } else {
            let k = if used < QUOTA { size(r, 64_000) } else { r.below(100) };
            msg(r, k)
        };
        if !keep && r.chance(1, 10) {
            m.wire = [b"\r\n\r\n".to_vec(), m.wire].concat();
        }
        m.wire.truncate(65_500);
        if used >= QUOTA {
            // Slowly, that the network loses none.
            std::thread::sleep(Duration::from_micros(300));
            let _ = s.send_to(&m.wire, w.udp);
            LIMITED.fetch_add(1, SeqCst);
            if !keep {
                msgs.push((m, 0));
            }
            continue;
        }
        // The network may lose one.
        let mut there = 0;
        for _ in 0..3 {
            let _ = s.send_to(&m.wire, w.udp);
            if let Ok(p) = got.recv_timeout(wait() / 2) {
                rec.check(p.payload().as_ref() == &m.wire[..], "delivered", || show(p.payload()));
                there = 1;
                break;
            }
            RESENT.fetch_add(1, SeqCst);
        }
        if there == 0 {
            MISSED.fetch_add(1, SeqCst);
        }
        rec.check(there == 1, "not-delivered", || format!("message {used} of an address: {}", show(&m.wire)));
        used += 1;
        RECEIVED.fetch_add(there as u64, SeqCst);
        if !keep {
            msgs.push((m, there));
        }
    }
    // Others are not held up by one address that used up its share.
    let s2 = std::net::UdpSocket::bind(SocketAddr::new(fresh_ip(), 0)).unwrap();
    let (tx2, got2) = std_mpsc::channel();
    let me2 = s2.local_addr().unwrap();
    w.peers.lock().unwrap().insert(me2, tx2);
    let other = msg(r, 5);
    let mut fine = false;
    for _ in 0..3 {
        let _ = s2.send_to(&other.wire, w.udp);
        if got2.recv_timeout(wait() / 2).is_ok() {
            fine = true;
            break;
        }
        RESENT.fetch_add(1, SeqCst);
    }
    rec.check(fine, "others-held-up", || format!("after {n} from another address"));
    RECEIVED.fetch_add(fine as u64, SeqCst);
    if let Ok(p) = got.try_recv() {
        rec.violate("over-the-limit", format!("{} delivered of one address, limit {QUOTA}: {}", used + 1, show(p.payload())));
    }
    let mut wants: Vec<Want> = msgs.iter().map(|(m, k)| Want { msg: m, ip: IpProto::Udp, src: me, dst: w.udp, times: *k }).collect();
    wants.push(Want { msg: &other, ip: IpProto::Udp, src: me2, dst: w.udp, times: 1 });
    captured(rec, &wants, since, true);
    w.peers.lock().unwrap().remove(&me);
    w.peers.lock().unwrap().remove(&me2);
    // And out.
    let since = SystemTime::now();
    let mut outs = vec![];
    for _ in 0..r.range(1, 6) {
        let k = size(r, 64_000);
        outs.push(msg(r, k));
    }
    let mut times = vec![];
    let local = w.rt.block_on(async {
        let k = tokio::net::UdpSocket::bind("127.0.0.1:0").await.unwrap();
        for m in &outs {
            let ok = send_udp(&k, &me, &m.wire).await.is_ok();
            rec.check(ok == (m.wire.len() <= 65_507), "send", || format!("{} {ok}", m.wire.len()));
            SENT.fetch_add(ok as u64, SeqCst);
            times.push(ok as usize);
            if r.chance(1, 4) && send_udp(&k, &me, b"\r\n\r\n").await.is_ok() {
                SENT.fetch_add(1, SeqCst);
            }
        }
        k.local_addr().unwrap()
    });
    let wants: Vec<Want> = outs.iter().zip(times).map(|(m, t)| Want { msg: m, ip: IpProto::Udp, src: local, dst: me, times: t }).collect();
    captured(rec, &wants, since, true);
}

fn tcp(r: &mut Rng, rec: &mut Rec) {
    let w = world();
    let (tx, got) = std_mpsc::channel();
    let ip = fresh_ip();
    let since = SystemTime::now();
    let s = w.rt.block_on(async {
        let k = tokio::net::TcpSocket::new_v4().unwrap();
        k.bind(SocketAddr::new(ip, 0)).unwrap();
        w.peers.lock().unwrap().insert(k.local_addr().unwrap(), tx);
        k.connect(w.tcp).await.unwrap().into_std().unwrap()
    });
    s.set_nonblocking(false).unwrap();
    s.set_nodelay(true).unwrap();
    let me = s.local_addr().unwrap();
    let n = if r.chance(1, 4) { QUOTA + r.below(30) } else { r.range(1, 12) as usize };
    rec.eval(Some(&format!("{me} {n}")));
    let mut msgs = vec![];
    let mut wire = vec![];
    for _ in 0..n {
        for _ in 0..r.below(3) {
            wire.extend_from_slice(b"\r\n");
        }
        let k = if r.chance(1, 20) { 300_000 } else { size(r, 70_000) };
        let m = msg(r, k);
        wire.extend_from_slice(&m.wire);
        msgs.push(m);
    }
    let mut s2: TcpStream = s.try_clone().unwrap();
    let mut r2 = r.clone();
    let writer = std::thread::spawn(move || {
        let mut b = &wire[..];
        while !b.is_empty() {
            let k = (1 + r2.below(*r2.clone().pick(&[10usize, 500, 20_000, 100_000]))).min(b.len());
            if s2.write_all(&b[..k]).is_err() {
                return;
            }
            b = &b[k..];
        }
    });
    let mut reply = None;
    for (i, m) in msgs.iter().enumerate().take(QUOTA) {
        match got.recv_timeout(wait()) {
            Ok(p) => {
                rec.check(p.payload().as_ref() == &m.wire[..], "delivered", || format!("message {i}: {}", show(p.payload())));
                reply = p.stream().cloned();
            }
            Err(_) => {
                MISSED.fetch_add(1, SeqCst);
                rec.violate("not-delivered", format!("message {i} of {n}"));
                break;
            }
        }
    }
    let _ = writer.join();
    LIMITED_TCP.fetch_add(n.saturating_sub(QUOTA) as u64, SeqCst);
    let wants: Vec<Want> = msgs.iter().enumerate().map(|(i, m)| Want { msg: m, ip: IpProto::Tcp, src: me, dst: w.tcp, times: (i < QUOTA) as usize }).collect();
    captured(rec, &wants, since, true);
    // Replies on the same connection.
    if let Some(tx) = reply {
        let since = SystemTime::now();
        let outs: Vec<Msg> = (0..r.range(1, 8))
            .map(|_| {
                let k = size(r, 70_000);
                msg(r, k)
            })
            .collect();
        let mut wire = vec![];
        for m in &outs {
            let ok = w.rt.block_on(async { send_stream(TransportKind::Tcp, &tx, Bytes::from(m.wire.clone())).await.is_ok() });
            rec.check(ok, "send", || "reply".into());
            wire.extend_from_slice(&m.wire);
            if r.chance(1, 4) {
                let ping = *r.pick(&["\r\n\r\n", "\r\n"]);
                let _ = w.rt.block_on(async { send_stream(TransportKind::Tcp, &tx, Bytes::from_static(ping.as_bytes())).await });
                wire.extend_from_slice(ping.as_bytes());
            }
            if wire.len() > 60_000 {
                break;
            }
        }
        let sent = outs.iter().take_while(|m| wire.windows(m.token.len()).any(|x| x == m.token.as_bytes())).count();
        let mut b = vec![0u8; wire.len()];
        let mut s3 = s.try_clone().unwrap();
        s3.set_read_timeout(Some(wait())).unwrap();
        let ok = s3.read_exact(&mut b).is_ok() && b == wire;
        rec.check(ok, "replies", || format!("{} bytes", wire.len()));
        let wants: Vec<Want> = outs[..sent].iter().map(|m| Want { msg: m, ip: IpProto::Tcp, src: w.tcp, dst: me, times: 1 }).collect();
        captured(rec, &wants, since, true);
    }
    // Nothing above the limit was handed on.
    if let Ok(p) = got.try_recv() {
        rec.violate("over-the-limit", show(p.payload()));
    }
    w.peers.lock().unwrap().remove(&me);
}

/// Messages over connections of our own making: one for each, or pooled.
fn outward(r: &mut Rng, rec: &mut Rec) {
    let w = world();
    let since = SystemTime::now();
    let pooled = r.chance(2, 3);
    let ip = fresh_ip();
    let l = std::net::TcpListener::bind(SocketAddr::new(ip, 0)).unwrap();
    let dst = l.local_addr().unwrap();
    let n = r.range(1, if pooled { 12 } else { 3 }) as usize;
    let outs: Vec<Msg> = (0..n)
        .map(|_| {
            let k = size(r, 70_000);
            msg(r, k)
        })
        .collect();
    let backs: Vec<Msg> = (0..r.below(6))
        .map(|_| {
            let k = size(r, 70_000);
            msg(r, k)
        })
        .collect();
    rec.eval(Some(&format!("{dst} {n} {} {pooled}", backs.len())));
    let total: usize = outs.iter().map(|m| m.wire.len()).sum();
    let back_wire: Vec<u8> = backs
        .iter()
        .flat_map(|m| {
            let mut b = if r.chance(1, 3) { b"\r\n\r\n".to_vec() } else { vec![] };
            b.extend_from_slice(&m.wire);
            b
        })
        .collect();
    let (ptx, prx) = std_mpsc::channel();
    let th = std::thread::spawn(move || {
        let mut left = total;
        let mut keep = vec![];
        while left > 0 {
            let Ok((mut s, peer)) = l.accept() else { return keep };
            let _ = ptx.send(peer);
            s.set_read_timeout(Some(Duration::from_millis(if pooled { 20_000 } else { 5_000 }))).unwrap();
            let mut b = vec![0u8; 65_536];
            while left > 0 {
                match s.read(&mut b) {
                    // Pings come between messages.
                    Ok(k) if k > 0 && b[..k].iter().all(|x| *x == b'\r' || *x == b'\n') && k <= 8 => {}
                    Ok(k) if k > 0 => left = left.saturating_sub(k),
                    _ => break,
                }
            }
            if pooled {
                let _ = s.write_all(&back_wire);
            }
            keep.push(s);
        }
        keep
    });
    if pooled {
        let every = r.chance(1, 3).then(|| Duration::from_millis(r.ur(1, 10)));
        let pool = ConnectionPool::with_limits(4, Duration::from_secs(300)).with_keepalive_interval(every);
        let (tx, mut rx) = mpsc::channel::<InboundPacket>(64);
        let backs_n = backs.len();
        let delivered = w.rt.block_on(async {
            pool.set_inbound_tx(tx).await;
            for m in &outs {
                if let Err(e) = pool.send_tcp(dst, Bytes::from(m.wire.clone())).await {
                    rec.violate("send", format!("pool: {e}"));
                }
                if every.is_some() {
                    tokio::time::sleep(Duration::from_millis(2)).await;
                }
            }
            let mut k = 0;
            while k < backs_n && tokio::time::timeout(wait(), rx.recv()).await.is_ok_and(|x| x.is_some()) {
                k += 1;
            }
            k
        });
        rec.check(delivered == backs.len(), "not-delivered", || format!("{delivered} of {} over a pooled connection", backs.len()));
        let Ok(local) = prx.recv_timeout(wait()) else {
            rec.violate("send", "no connection");
            return;
        };
        let wants: Vec<Want> = outs.iter().map(|m| Want { msg: m, ip: IpProto::Tcp, src: local, dst, times: 1 }).collect();
        captured(rec, &wants, since, true);
        let wants: Vec<Want> = backs.iter().map(|m| Want { msg: m, ip: IpProto::Tcp, src: dst, dst: local, times: 1 }).collect();
        captured(rec, &wants, since, true);
        w.rt.block_on(async { drop(pool) });
    } else {
        for m in &outs {
            let ok = w.rt.block_on(send_tcp(&dst, &m.wire));
            rec.check(ok.is_ok(), "send", || format!("{ok:?}"));
            let Ok(local) = prx.recv_timeout(wait()) else {
                rec.violate("send", "no connection");
                return;
            };
            captured(rec, &[Want { msg: m, ip: IpProto::Tcp, src: local, dst, times: 1 }], since, true);
        }
    }
    drop(th.join());
    // What was never sent is not mirrored: nobody listens there now.
    let m = msg(r, 10);
    if w.rt.block_on(send_tcp(&dst, &m.wire)).is_err() {
        let lost = Want { msg: &m, ip: IpProto::Tcp, src: dst, dst, times: 0 };
        captured(rec, &[lost], since, true);
    }
}

/// The Call-ID read for the collector is the one the parser reads.
fn call_ids(r: &mut Rng, rec: &mut Rec) {
    let k = r.below(100);
    let mut m = msg(r, k);
    if r.chance(1, 10) {
        m.wire = [b"\r\n".to_vec(), m.wire].concat();
    }
    rec.eval(Some(&m.wire));
    rec.sample(|| show(&m.wire));
    rec.check(sip_hep::extract_call_id(&m.wire) == m.call.as_deref(), "call-id", || format!("{:?} for {}", sip_hep::extract_call_id(&m.wire), show(&m.wire)));
    let lf: Vec<u8> = String::from_utf8_lossy(&m.wire).replace("\r\n", "\n").into_bytes();
    if k == 0 {
        rec.check(sip_hep::extract_call_id(&lf) == m.call.as_deref(), "call-id", || format!("{:?} for {}", sip_hep::extract_call_id(&lf), show(&lf)));
    }
    // Damaged ones: agreement wherever the parser finds a single one.
    let mut b = m.wire.clone();
    let edits = r.range(1, 4) as usize;
    r.mutate(&mut b, edits);
    let by = Bytes::from(b.clone());
    let h = sip_parse::parse_request(&by).map(|q| q.headers().clone()).or_else(|| sip_parse::parse_response(&by).map(|q| q.headers().clone()));
    let got = rec.guard("extract_call_id", &|| show(&b), || sip_hep::extract_call_id(&b).map(String::from));
    if let (Some(h), Some(got)) = (h, got) {
        let ids: Vec<String> = h.iter().filter(|x| x.name().eq_ignore_ascii_case("call-id") || x.name().eq_ignore_ascii_case("i")).map(|x| x.value().to_string()).collect();
        // Cut short, or with lines ended otherwise: no two need agree.
        let head = String::from_utf8_lossy(&b).split("\r\n\r\n").next().unwrap_or("").replace("\r\n", "");
        let whole = b.windows(4).any(|w| w == b"\r\n\r\n") && !head.contains(|c: char| c.is_control() && c != '\t');
        if whole && ids.len() == 1 && !ids[0].is_empty() && !ids[0].contains([' ', '\t']) {
            rec.check(got.as_deref() == Some(ids[0].as_str()), "call-id-differs", || format!("{got:?} and {ids:?} for {}", show(&b)));
            rec.count("damaged messages compared", 1);
        }
    }
}

/// Nothing was mirrored that was no message, or later than it should; the counters agree.
fn leftovers(_: &mut Rng, rec: &mut Rec) {
    std::thread::sleep(Duration::from_millis(300));
    let c = collector();
    let strays = c.strays.lock().unwrap();
    rec.check(strays.is_empty(), "mirrored-no-message", || format!("{} times, such as {} -> {} {:?}", strays.len(), strays[0].src, strays[0].dst, show(&strays[0].payload)));
    let late = c.by_token.lock().unwrap();
    rec.check(late.is_empty(), "mirrored-not-once", || format!("{} messages again, such as {:?}", late.len(), late.values().next().map(|v| show(&v[0].pkt.payload))));
    let m = COUNTS.get().unwrap();
    let t = Instant::now();
    let lost = RESENT.load(SeqCst);
    let near = |a: &AtomicU64, b: &AtomicU64| a.load(SeqCst).abs_diff(b.load(SeqCst)) <= lost;
    let fine = || near(&m.received, &RECEIVED) && m.sent.load(SeqCst) == SENT.load(SeqCst) && (m.limited.load(SeqCst) <= LIMITED.load(SeqCst) + lost && m.limited.load(SeqCst) * 10 >= LIMITED.load(SeqCst) * 9) && m.limited_tcp.load(SeqCst) == LIMITED_TCP.load(SeqCst);
    while !fine() && t.elapsed() < wait() {
        std::thread::sleep(Duration::from_millis(5));
    }
    rec.check(fine(), "counters", || {
        format!("datagrams received {:?}/{RECEIVED:?} sent {:?}/{SENT:?} limited {:?}/{LIMITED:?}, stream messages limited {:?}/{LIMITED_TCP:?} (counted/true), {lost} resent", m.received, m.sent, m.limited, m.limited_tcp)
    });
    rec.eval(Some(&"leftovers"));
    // A second collector does not replace the first.
    let other: Arc<Collector> = Arc::default();
    rec.check(!sip_hep::set_emitter(Arc::new(SipHepEmitter::new(Arc::new(Sink(other)), 7))), "second-collector", || "accepted".into());
}

fn main() {
    let mut c = Ctx::new("H01", "messages over datagrams, accepted, one-shot and pooled connections, with keep-alives and limits");
    world();
    let n = c.n(2_000, 60_000);
    c.run_on(2, "datagrams", n, udp);
    let n = c.n(2_000, 60_000);
    c.run("connections", n, tcp);
    let n = c.n(2_000, 60_000);
    c.run("outward", n, outward);
    let n = c.n(400_000, 8_000_000);
    c.run("call-ids", n, call_ids);
    c.run_seq("leftovers", 1, leftovers);
    c.assume("the loopback network delivers what is written to it within 10 s");
    c.finish()
}
