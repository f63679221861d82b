//! W02: messages handed to the connection pool reach their peer once and in order, over one
//! connection per peer, within the pool's limit; a connection that died is noticed and
//! replaced; what peers send back is delivered.  Real peers listen on the loopback network.
use bytes::Bytes;
use sip_transport::pool::{ConnectionEvent, ConnectionPool};
use sip_transport::{InboundPacket, TransportKind};
use std::future::Future;
use std::net::SocketAddr;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::sync::{mpsc, watch};
use vmon::{Ctx, Rec, Rng};

const WAIT: Duration = Duration::from_secs(20);

/// What a case found: key and detail.
type Found = Vec<(String, String)>;

/// Runs a case on a runtime of its own; a case that hangs is a violation.
fn case<F, Fut>(rec: &mut Rec, what: &str, workers: usize, f: F) -> bool
where
    F: FnOnce() -> Fut + Send + 'static,
    Fut: Future<Output = Found>,
{
    // A few findings tell the story; waiting out every one of them takes too long.
    static FOUND: AtomicUsize = AtomicUsize::new(0);
    if FOUND.load(Ordering::Relaxed) >= 8 {
        return false;
    }
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let rt = if workers == 0 {
            tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
        } else {
            tokio::runtime::Builder::new_multi_thread().worker_threads(workers).enable_all().build().unwrap()
        };
        let out = rt.block_on(f());
        rt.shutdown_background();
        let _ = tx.send(out);
    });
    match rx.recv_timeout(Duration::from_secs(120)) {
        Ok(v) => {
            let ok = v.is_empty();
            FOUND.fetch_add(!ok as usize, Ordering::Relaxed);
            for (k, d) in v {
                rec.violate(&k, format!("{what}: {d}"));
            }
            ok
        }
        Err(e) => {
            FOUND.fetch_add(4, Ordering::Relaxed);
            rec.violate("stuck", format!("{what}: {e}"));
            false
        }
    }
}

/// One connection as its peer saw it.
#[derive(Default, Clone)]
struct Conn {
    bytes: Vec<u8>,
    eof: bool,
}
#[derive(Clone, Copy, PartialEq)]
enum Do {
    Read,
    Stall,
    Close,
}
struct Peer {
    addr: SocketAddr,
    conns: Arc<Mutex<Vec<Conn>>>,
    /// Connections opened before this count are told to close.
    close: watch::Sender<usize>,
    talk: Arc<Mutex<Vec<mpsc::UnboundedSender<Vec<u8>>>>>,
}
impl Peer {
    async fn new(act: Do) -> Peer {
        let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
        let addr = l.local_addr().unwrap();
        let conns: Arc<Mutex<Vec<Conn>>> = Arc::default();
        let talk: Arc<Mutex<Vec<mpsc::UnboundedSender<Vec<u8>>>>> = Arc::default();
        let (close, closed) = watch::channel(0usize);
        let (c2, t2) = (conns.clone(), talk.clone());
        tokio::spawn(async move {
            while let Ok((s, _)) = l.accept().await {
                let i = {
                    let mut c = c2.lock().unwrap();
                    c.push(Conn::default());
                    c.len() - 1
                };
                let (tx, rx) = mpsc::unbounded_channel();
                t2.lock().unwrap().push(tx);
                tokio::spawn(one(s, i, act, c2.clone(), closed.clone(), rx));
            }
        });
        Peer { addr, conns, close, talk }
    }
    fn seen(&self) -> Vec<Conn> {
        self.conns.lock().unwrap().clone()
    }
    fn text(&self) -> String {
        self.seen().iter().map(|c| String::from_utf8_lossy(&c.bytes).to_string()).collect::<Vec<_>>().join("|")
    }
}
async fn one(mut s: TcpStream, i: usize, act: Do, conns: Arc<Mutex<Vec<Conn>>>, mut closed: watch::Receiver<usize>, mut talk: mpsc::UnboundedReceiver<Vec<u8>>) {
    if act == Do::Stall {
        std::future::pending::<()>().await;
    }
    let mut buf = vec![0u8; 16 * 1024];
    loop {
        tokio::select! {
            n = s.read(&mut buf) => match n {
                Ok(0) | Err(_) => break,
                Ok(n) => {
                    conns.lock().unwrap()[i].bytes.extend_from_slice(&buf[..n]);
                    if act == Do::Close {
                        break;
                    }
                }
            },
            Some(x) = talk.recv() => {
                if s.write_all(&x).await.is_err() {
                    break;
                }
                let _ = s.flush().await;
            }
            ok = closed.changed() => {
                if ok.is_err() || *closed.borrow() > i {
                    break;
                }
            }
        }
    }
    conns.lock().unwrap()[i].eof = true;
}

fn msg(id: &str, pad: usize) -> Bytes {
    let body = "b".repeat(pad);
    Bytes::from(format!("MESSAGE sip:x@h SIP/2.0\r\nCall-ID: <{id}>\r\nContent-Length: {pad}\r\n\r\n{body}"))
}
/// The messages (by id) in what one connection carried; None if it is not a sequence of them.
fn ids(mut b: &[u8], pings: bool) -> Option<Vec<String>> {
    let mut out = vec![];
    while !b.is_empty() {
        if pings && b.starts_with(b"\r\n\r\n") {
            b = &b[4..];
            continue;
        }
        let t = String::from_utf8_lossy(&b[..b.len().min(200)]).to_string();
        let rest = t.strip_prefix("MESSAGE sip:x@h SIP/2.0\r\nCall-ID: <")?;
        let (id, rest) = rest.split_once(">\r\nContent-Length: ")?;
        let (n, _) = rest.split_once("\r\n\r\n")?;
        let pad: usize = n.parse().ok()?;
        let whole = msg(id, pad);
        if b.len() < whole.len() || &b[..whole.len()] != whole.as_ref() {
            return None;
        }
        out.push(id.to_string());
        b = &b[whole.len()..];
    }
    Some(out)
}
/// Waits for something to become true.
async fn until(mut f: impl FnMut() -> bool) -> bool {
    let t = Instant::now();
    while t.elapsed() < WAIT {
        if f() {
            return true;
        }
        tokio::time::sleep(Duration::from_millis(2)).await;
    }
    f()
}
macro_rules! bad {
    ($v:expr, $ok:expr, $k:expr, $($t:tt)*) => {
        if !$ok {
            $v.push(($k.to_string(), format!($($t)*)));
        }
    };
}

/// Many senders, several peers: everything arrives once, in each sender's order.
fn traffic(r: &mut Rng, rec: &mut Rec) {
    let workers = *r.pick(&[0usize, 1, 3]);
    let peers = r.range(1, 4) as usize;
    let senders = r.range(1, 8) as usize;
    let most = if r.chance(1, 6) { 200 } else { 30 };
    let each = r.range(1, most) as usize;
    let inbound = r.coin();
    let big = r.chance(1, 4);
    let keep = r.chance(1, 4).then(|| Duration::from_millis(r.ur(1, 20)));
    let seed = r.u64();
    rec.sample(|| format!("{peers} peers, {senders} senders, {each} messages, {workers} workers"));
    let what = format!("traffic {peers} {senders} {each} workers {workers} inbound {inbound} big {big} keep {keep:?}");
    let ok = case(rec, &what, workers, move || async move {
        let mut v: Found = vec![];
        let pool = Arc::new(ConnectionPool::with_limits(peers + senders * peers, Duration::from_secs(300)).with_keepalive_interval(keep));
        let (tx, _rx) = mpsc::channel(64);
        if inbound {
            pool.set_inbound_tx(tx).await;
        }
        let mut ps = vec![];
        for _ in 0..peers {
            ps.push(Peer::new(Do::Read).await);
        }
        let mut hs = vec![];
        for s in 0..senders {
            let pool = pool.clone();
            let addrs: Vec<SocketAddr> = ps.iter().map(|p| p.addr).collect();
            let mut r = Rng::new(seed ^ (s as u64) << 32);
            hs.push(tokio::spawn(async move {
                let mut sent = vec![vec![]; addrs.len()];
                let mut errs = vec![];
                for k in 0..each {
                    let p = r.below(addrs.len());
                    let id = format!("{s}.{k}");
                    let pad = if big { r.below(60_000) } else { r.below(300) };
                    match pool.send_tcp(addrs[p], msg(&id, pad)).await {
                        Ok(()) => sent[p].push(id),
                        Err(e) => errs.push(format!("{id}: {e}")),
                    }
                    if r.chance(1, 5) {
                        tokio::time::sleep(Duration::from_micros(r.ub(3000))).await;
                    }
                }
                (sent, errs)
            }));
        }
        let mut want = vec![vec![]; peers];
        for h in hs {
            let (sent, errs) = h.await.unwrap();
            bad!(v, errs.is_empty(), "refused", "{errs:?}");
            for (p, l) in sent.into_iter().enumerate() {
                want[p].push(l);
            }
        }
        for (p, peer) in ps.iter().enumerate() {
            let n: usize = want[p].iter().map(|l| l.len()).sum();
            let got = |c: &Conn| ids(&c.bytes, keep.is_some());
            until(|| peer.seen().iter().map(|c| got(c).map_or(0, |x| x.len())).sum::<usize>() >= n).await;
            let cs = peer.seen();
            let per: Vec<Option<Vec<String>>> = cs.iter().map(got).collect();
            if per.iter().any(|x| x.is_none()) {
                v.push(("garbled".into(), format!("peer {p}: {:?}", peer.text().chars().take(600).collect::<String>())));
                continue;
            }
            let flat: Vec<String> = per.into_iter().flatten().flatten().collect();
            let mut a = flat.clone();
            let mut b: Vec<String> = want[p].iter().flatten().cloned().collect();
            a.sort();
            b.sort();
            bad!(v, a == b, "not-once", "peer {p}: {} sent, {} arrived over {} connections; missing {:?}", b.len(), a.len(), cs.len(), b.iter().filter(|x| !a.contains(x)).take(5).collect::<Vec<_>>());
            // One sender's messages keep their order once a connection is settled.
            let used: Vec<_> = cs.iter().filter(|c| !c.bytes.is_empty()).collect();
            if used.len() == 1 {
                for l in &want[p] {
                    let mine: Vec<&String> = flat.iter().filter(|x| l.contains(x)).collect();
                    bad!(v, mine.iter().copied().eq(l.iter()), "order", "peer {p}: {l:?} arrived as {mine:?}");
                }
            }
            bad!(v, used.len() <= 1, "several-connections", "peer {p}: {} connections carried messages", used.len());
        }
        let busy = want.iter().filter(|w| w.iter().any(|l| !l.is_empty())).count();
        bad!(v, pool.len() == busy && pool.is_empty() == (busy == 0), "pool-size", "{} entries for {busy} peers", pool.len());
        v
    });
    if ok {
        rec.eval(Some(&format!("traffic-{peers}-{senders}-{workers}-{inbound}")));
    }
}

/// A peer that closes is noticed, and the next message gets a new connection.
fn closing(r: &mut Rng, rec: &mut Rec) {
    let workers = *r.pick(&[0usize, 2]);
    let rounds = r.range(1, 5) as usize;
    let by_peer = r.coin();
    let others = r.below(3);
    let hasty = r.coin();
    let what = format!("closing {rounds} rounds, workers {workers}, on first bytes {by_peer}, hasty {hasty}");
    rec.sample(|| what.clone());
    let ok = case(rec, &what, workers, move || async move {
        let mut v: Found = vec![];
        let pool = Arc::new(ConnectionPool::with_limits(10, Duration::from_secs(300)).with_keepalive_interval(None));
        let (tx, _rx) = mpsc::channel(64);
        pool.set_inbound_tx(tx).await;
        let mut ev = pool.subscribe_events();
        let mut side = vec![];
        for i in 0..others {
            let p = Peer::new(Do::Read).await;
            pool.send_tcp(p.addr, msg(&format!("o{i}"), 3)).await.unwrap();
            side.push(p);
        }
        let p = Peer::new(if by_peer { Do::Close } else { Do::Read }).await;
        for k in 0..rounds {
            if let Err(e) = pool.send_tcp(p.addr, msg(&format!("{k}"), 10)).await {
                v.push(("refused".into(), format!("round {k}: {e}")));
                return v;
            }
            let arrived = until(|| p.seen().len() > k && p.seen()[k].bytes == msg(&format!("{k}"), 10)).await;
            bad!(v, arrived, "lost-after-close", "round {k}: {:?}", p.text());
            if !arrived {
                return v;
            }
            bad!(v, by_peer || pool.len() == others + 1, "pool-size", "round {k}: {}", pool.len());
            p.close.send_replace(k + 1);
            let gone = until(|| pool.len() == others).await;
            bad!(v, gone, "death-unnoticed", "round {k}: {} entries", pool.len());
            let t = tokio::time::timeout(WAIT, ev.recv()).await;
            let right = matches!(&t, Ok(Ok(ConnectionEvent::Closed { transport: TransportKind::Tcp, peer })) if *peer == p.addr) || matches!(&t, Ok(Ok(ConnectionEvent::Failed { transport: TransportKind::Tcp, peer, .. })) if *peer == p.addr);
            bad!(v, right, "event", "round {k}: {t:?}");
            if !right || !gone {
                return v;
            }
        }
        // Closed under the sender's hands: some messages may be lost, but it all settles.
        if hasty && !by_peer {
            for k in 0..30 {
                let _ = pool.send_tcp(p.addr, msg(&format!("h{k}"), 10)).await;
                p.close.send_replace(p.seen().len());
                if k % 3 == 0 {
                    tokio::time::sleep(Duration::from_micros(k * 50)).await;
                }
            }
            p.close.send_replace(usize::MAX);
            bad!(v, until(|| pool.len() == others).await, "death-unnoticed", "after haste: {} entries", pool.len());
            p.close.send_replace(0);
            let n = p.seen().len();
            let _ = pool.send_tcp(p.addr, msg("last", 10)).await;
            let ok = until(|| p.text().contains("<last>")).await;
            bad!(v, ok, "lost-after-haste", "{:?} ({n} connections)", p.text().chars().rev().take(300).collect::<String>());
            tokio::time::sleep(Duration::from_millis(20)).await;
            bad!(v, pool.len() == others + 1, "entry-of-live-connection-dropped", "{} entries", pool.len());
        }
        while let Ok(e) = ev.try_recv() {
            if !hasty {
                v.push(("extra-event".into(), format!("{e:?}")));
            }
        }
        for (i, o) in side.iter().enumerate() {
            bad!(v, o.seen().len() == 1 && !o.seen()[0].eof, "bystander", "connection {i} {}", o.seen().len());
        }
        v
    });
    if ok {
        rec.eval(Some(&format!("closing-{rounds}-{workers}-{by_peer}-{hasty}")));
    }
}

/// One peer that reads nothing holds nobody else up.
fn stalled(r: &mut Rng, rec: &mut Rec) {
    let workers = *r.pick(&[0usize, 1, 2]);
    let inbound = r.coin();
    let waiting = r.range(1, 4) as usize;
    let what = format!("stalled peer, workers {workers}, {waiting} senders waiting");
    let ok = case(rec, &what, workers, move || async move {
        let mut v: Found = vec![];
        let pool = Arc::new(ConnectionPool::with_limits(20, Duration::from_secs(300)).with_keepalive_interval(None));
        let (tx, _rx) = mpsc::channel(64);
        if inbound {
            pool.set_inbound_tx(tx).await;
        }
        let bad = Peer::new(Do::Stall).await;
        let mut hs = vec![];
        for _ in 0..waiting {
            let (pool, a) = (pool.clone(), bad.addr);
            hs.push(tokio::spawn(async move {
                // Far more than socket buffers and queue hold.
                for k in 0..300 {
                    if pool.send_tcp(a, msg(&format!("s{k}"), 200_000)).await.is_err() {
                        break;
                    }
                }
            }));
        }
        tokio::time::sleep(Duration::from_millis(100)).await;
        bad!(v, hs.iter().all(|h| !h.is_finished()), "stalled-peer-took-all", "a peer that reads nothing took 60 MB");
        for k in 0..40 {
            let p = Peer::new(Do::Read).await;
            let t = tokio::time::timeout(WAIT, pool.send_tcp(p.addr, msg("live", 10))).await;
            bad!(v, matches!(t, Ok(Ok(()))), "held-up", "peer {k}: {t:?}");
            let ok = until(|| p.text().contains("<live>")).await;
            bad!(v, ok, "held-up", "peer {k} got nothing");
            pool.cleanup_idle();
            bad!(v, pool.len() <= 20, "over-limit", "{}", pool.len());
        }
        for h in hs {
            h.abort();
        }
        v
    });
    if ok {
        rec.eval(Some(&format!("stalled-{workers}-{inbound}-{waiting}")));
    }
}

/// The limit holds, and the connections used last are the ones kept.
fn limit(r: &mut Rng, rec: &mut Rec) {
    let workers = *r.pick(&[0usize, 2]);
    let max = *r.pick(&[1usize, 2, 3, 5, 10, 25]);
    let inbound = r.coin();
    let extra = r.range(1, 8) as usize;
    let touch = r.coin();
    let fails = r.below(3);
    let what = format!("limit {max}, {extra} more peers, workers {workers}, touch {touch}, {fails} failures first");
    rec.sample(|| what.clone());
    let ok = case(rec, &what, workers, move || async move {
        let mut v: Found = vec![];
        let pool = Arc::new(ConnectionPool::with_limits(max, Duration::from_secs(300)).with_keepalive_interval(None));
        let (tx, _rx) = mpsc::channel(64);
        if inbound {
            pool.set_inbound_tx(tx).await;
        }
        // Failing to connect costs no place.
        for _ in 0..fails * max {
            // Bound, so that nobody else takes it, but not listening.
            let l = tokio::net::TcpSocket::new_v4().unwrap();
            l.bind("127.0.0.1:0".parse().unwrap()).unwrap();
            let a = l.local_addr().unwrap();
            let t = tokio::time::timeout(WAIT, pool.send_tcp(a, msg("nobody", 1))).await;
            bad!(v, matches!(t, Ok(Err(_))), "sent-to-nobody", "{t:?}");
        }
        bad!(v, pool.is_empty(), "pool-size", "{} after failures", pool.len());
        let mut ps: Vec<Peer> = vec![];
        for k in 0..max + extra {
            let p = Peer::new(Do::Read).await;
            let t = tokio::time::timeout(WAIT, pool.send_tcp(p.addr, msg("a", 10))).await;
            bad!(v, matches!(t, Ok(Ok(()))), "refused", "peer {k}: {t:?}");
            let ok = until(|| p.text().contains("<a>")).await;
            bad!(v, ok, "lost", "peer {k}");
            bad!(v, pool.len() <= max, "over-limit", "{} after peer {k}", pool.len());
            ps.push(p);
            tokio::time::sleep(Duration::from_millis(1)).await;
            if touch && max >= 2 && k >= 1 {
                // Keep the first one in use.
                let before = ps[0].seen().len();
                let t = tokio::time::timeout(WAIT, pool.send_tcp(ps[0].addr, msg("t", 10))).await;
                bad!(v, matches!(t, Ok(Ok(()))), "refused", "again {k}: {t:?}");
                bad!(v, until(|| ps[0].text().matches("<t>").count() == k).await, "lost", "again {k}");
                bad!(v, ps[0].seen().len() == before && before == 1, "busy-connection-evicted", "after peer {k} of {max}");
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
        }
        // At most the oldest tenth (one at least) goes at a time.
        let live = ps.iter().filter(|p| p.seen().iter().any(|c| !c.eof)).count();
        let _ = until(|| ps.iter().filter(|p| p.seen().iter().any(|c| !c.eof)).count() == pool.len()).await;
        bad!(v, ps.iter().filter(|p| p.seen().iter().any(|c| !c.eof)).count() == pool.len(), "leaked-connection", "{live} open, {} entries", pool.len());
        bad!(v, pool.len() + (max / 10).max(1) > max, "evicted-too-many", "{} of {max}", pool.len());
        let last = ps.last().unwrap();
        bad!(v, last.seen().len() == 1 && !last.seen()[0].eof, "newest-evicted", "limit {max}");
        v
    });
    if ok {
        rec.eval(Some(&format!("limit-{max}-{touch}-{inbound}-{fails}")));
    }
}

/// What the peer sends back arrives, and can be answered on the same connection.
fn inbound(r: &mut Rng, rec: &mut Rec) {
    let workers = *r.pick(&[0usize, 2]);
    let n = r.range(1, 30) as usize;
    let seed = r.u64();
    let what = format!("inbound {n} workers {workers} seed {seed}");
    let ok = case(rec, &what, workers, move || async move {
        let mut v: Found = vec![];
        let mut r = Rng::new(seed);
        let pool = Arc::new(ConnectionPool::with_limits(5, Duration::from_secs(300)).with_keepalive_interval(None));
        let (tx, mut rx) = mpsc::channel::<InboundPacket>(4);
        pool.set_inbound_tx(tx).await;
        let p = Peer::new(Do::Read).await;
        pool.send_tcp(p.addr, msg("q", 5)).await.unwrap();
        if !until(|| p.text().contains("<q>")).await {
            v.push(("lost".into(), "first message".into()));
            return v;
        }
        let talk = p.talk.lock().unwrap()[0].clone();
        let mut wire = vec![];
        let mut want = vec![];
        for k in 0..n {
            if r.chance(1, 6) {
                wire.extend_from_slice(b"\r\n");
            }
            let m = msg(&format!("r{k}"), if r.chance(1, 8) { r.below(40_000) } else { r.below(200) });
            wire.extend_from_slice(&m);
            want.push(m);
        }
        let slow = r.chance(1, 3);
        let mut r2 = r.clone();
        tokio::spawn(async move {
            let mut b = &wire[..];
            while !b.is_empty() {
                let k = (1 + r2.below(if slow { 3000 } else { 20_000 })).min(b.len());
                let _ = talk.send(b[..k].to_vec());
                b = &b[k..];
                if r2.chance(1, 3) {
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
            }
        });
        for (k, m) in want.iter().enumerate() {
            let got = tokio::time::timeout(WAIT, rx.recv()).await;
            let Ok(Some(got)) = got else {
                v.push(("not-delivered".into(), format!("message {k}")));
                return v;
            };
            bad!(v, got.payload() == m, "delivered-wrong", "message {k}: {:?}", String::from_utf8_lossy(got.payload()).chars().take(200).collect::<String>());
            bad!(v, got.transport() == TransportKind::Tcp && got.peer() == p.addr, "delivered-as", "{:?} {:?}", got.transport(), got.peer());
            if r.chance(1, 4) {
                match got.stream() {
                    Some(s) => {
                        let id = format!("re{k}");
                        bad!(v, s.send(msg(&id, 7)).await.is_ok(), "reply-refused", "{k}");
                        let id = format!("<{id}>");
                        bad!(v, until(|| p.seen().len() == 1 && p.text().contains(&id)).await, "reply-lost", "{k}");
                    }
                    None => v.push(("no-reply-way".into(), format!("{k}"))),
                }
            }
        }
        tokio::time::sleep(Duration::from_millis(5)).await;
        if let Ok(x) = rx.try_recv() {
            v.push(("delivered-extra".into(), format!("{:?}", x.payload())));
        }
        v
    });
    if ok {
        rec.eval(Some(&format!("inbound-{n}")));
    }
}

/// Idle connections are swept, used ones are not; quiet ones are pinged.
fn idle(r: &mut Rng, rec: &mut Rec) {
    let workers = *r.pick(&[0usize, 2]);
    let n = r.range(1, 5) as usize;
    let keepers = r.below(n + 1);
    let ping = r.coin();
    let what = format!("idle {n} of which {keepers} used, ping {ping}, workers {workers}");
    let ok = case(rec, &what, workers, move || async move {
        let mut v: Found = vec![];
        let limit = Duration::from_millis(400);
        let every = Duration::from_millis(50);
        let pool = Arc::new(ConnectionPool::with_limits(10, limit).with_keepalive_interval(ping.then_some(every)));
        let mut ps = vec![];
        for _ in 0..n {
            let p = Peer::new(Do::Read).await;
            pool.send_tcp(p.addr, msg("a", 5)).await.unwrap();
            ps.push(p);
        }
        let t0 = Instant::now();
        let gone = pool.cleanup_idle();
        bad!(v, t0.elapsed() > limit / 2 || gone == 0, "swept-early", "{gone} at once");
        tokio::time::sleep(Duration::from_millis(450)).await;
        let t1 = Instant::now();
        for p in &ps[..keepers] {
            pool.send_tcp(p.addr, msg("b", 5)).await.unwrap();
        }
        let gone = pool.cleanup_idle();
        if t1.elapsed() < limit / 2 {
            bad!(v, gone == n - keepers && pool.len() == keepers, "swept", "{gone} of {n}, {keepers} in use, {} left", pool.len());
            bad!(v, until(|| ps[keepers..].iter().all(|p| p.seen()[0].eof)).await, "swept-not-closed", "{n} {keepers}");
            for p in &ps[..keepers] {
                bad!(v, p.seen().len() == 1 && until(|| p.text().contains("<b>")).await, "kept", "{:?}", p.text());
            }
        }
        let pings = |p: &Peer| p.seen()[0].bytes.windows(4).filter(|w| w == b"\r\n\r\n").count() - p.text().matches("Content-Length").count();
        for p in &ps {
            let k = pings(p);
            // 450 ms of silence hold up to nine pings.
            bad!(v, if ping { k >= 1 } else { k == 0 }, "pings", "{k} pings, wanted {ping}: {:?}", p.text());
            bad!(v, ids(&p.seen()[0].bytes, ping).is_some(), "garbled", "{:?}", p.text());
        }
        v
    });
    if ok {
        rec.eval(Some(&format!("idle-{n}-{keepers}-{ping}")));
    }
}

fn main() {
    let mut c = Ctx::new("W02", "traffic, closing, limit and idling patterns of a connection pool");
    let n = c.n(500, 12_000);
    c.run_on(4, "traffic", n, traffic);
    let n = c.n(400, 8_000);
    c.run_on(6, "closing", n, closing);
    let n = c.n(6, 60);
    c.run_on(3, "stalled", n, stalled);
    let n = c.n(120, 3_000);
    c.run_on(6, "limit", n, limit);
    let n = c.n(200, 6_000);
    c.run_on(6, "inbound", n, inbound);
    let n = c.n(40, 600);
    c.run_on(8, "idle", n, idle);
    c.assume("the loopback network delivers what is written to it, and this machine runs a ready task within 20 s");
    c.finish()
}
