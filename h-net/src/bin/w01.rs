//! W01: a stream server takes from a connection exactly the messages its bytes spell out,
//! however they arrive, and writes back exactly the replies it accepted.  The real server
//! listens on the loopback network; the expected messages come from an independent reading
//! of the bytes.
use bytes::Bytes;
use sip_transport::*;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{IpAddr, Ipv4Addr, SocketAddr, TcpStream};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc as std_mpsc;
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};
use tokio::sync::mpsc;
use vmon::{Ctx, Rec, Rng};

const HEAD_MAX: usize = 64 * 1024;
const BODY_MAX: usize = 10 * 1024 * 1024;
const WAIT: Duration = Duration::from_secs(60);

// ---- the server under observation ------------------------------------------

struct World {
    rt: tokio::runtime::Runtime,
    tcp: SocketAddr,
    udp: SocketAddr,
    peers: Mutex<HashMap<SocketAddr, std_mpsc::Sender<InboundPacket>>>,
    stray: AtomicU64,
}

fn world() -> &'static Arc<World> {
    static W: OnceLock<Arc<World>> = OnceLock::new();
    W.get_or_init(|| {
        assert!(set_stream_rate_limit(RateLimitConfig::disabled()));
        assert!(set_udp_rate_limit(RateLimitConfig::disabled()));
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
        let (tcp, udp, mut rx) = rt.block_on(async {
            let (tx, rx) = mpsc::channel(256);
            let sock = Arc::new(tokio::net::UdpSocket::bind("127.0.0.1:0").await.unwrap());
            let udp = sock.local_addr().unwrap();
            tokio::spawn(run_udp(sock, tx.clone()));
            // A free port: the listener does not tell which one it took.
            let mut tcp = None;
            for _ in 0..20 {
                let probe = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
                let a = probe.local_addr().unwrap();
                drop(probe);
                let t2 = tx.clone();
                let h = tokio::spawn(async move { run_tcp(&a.to_string(), t2).await });
                tokio::time::sleep(Duration::from_millis(100)).await;
                if !h.is_finished() {
                    tcp = Some(a);
                    break;
                }
            }
            (tcp.expect("no port to listen on"), udp, rx)
        });
        let w = Arc::new(World { rt, tcp, udp, peers: Mutex::default(), stray: AtomicU64::new(0) });
        let w2 = w.clone();
        w.rt.spawn(async move {
            while let Some(p) = rx.recv().await {
                let to = w2.peers.lock().unwrap().get(&p.peer()).cloned();
                match to {
                    Some(t) => drop(t.send(p)),
                    None => {
                        w2.stray.fetch_add(1, Ordering::SeqCst);
                    }
                }
            }
        });
        w
    })
}

/// A connection of ours, and the messages the server took from it.
struct Conn {
    s: TcpStream,
    me: SocketAddr,
    got: std_mpsc::Receiver<InboundPacket>,
}

static LAST_IP: AtomicU64 = AtomicU64::new(1);
fn fresh_ip() -> IpAddr {
    let k = LAST_IP.fetch_add(1, Ordering::SeqCst);
    IpAddr::V4(Ipv4Addr::new(127, 1 + (k / 60_000 % 200) as u8, (k / 250 % 240) as u8, (k % 250) as u8 + 2))
}

fn connect(ip: IpAddr) -> std::io::Result<Conn> {
    let w = world();
    let (tx, got) = std_mpsc::channel();
    let s = w.rt.block_on(async {
        let k = tokio::net::TcpSocket::new_v4()?;
        k.bind(SocketAddr::new(ip, 0))?;
        w.peers.lock().unwrap().insert(k.local_addr()?, tx);
        k.connect(w.tcp).await
    })?;
    let s = s.into_std()?;
    s.set_nonblocking(false)?;
    s.set_nodelay(true)?;
    s.set_read_timeout(Some(WAIT))?;
    let me = s.local_addr()?;
    Ok(Conn { s, me, got })
}

impl Drop for Conn {
    fn drop(&mut self) {
        world().peers.lock().unwrap().remove(&self.me);
    }
}

// ---- what the bytes say --------------------------------------------------------

#[derive(Debug, PartialEq, Clone, Copy)]
enum End {
    /// Nothing left over, or a message that is not finished.
    Open,
    /// The next message does not say how long it is.
    Bad,
    /// Either is fine.
    Either,
}

fn model(all: &[u8]) -> (Vec<Vec<u8>>, End) {
    let mut out = vec![];
    let mut at = 0;
    loop {
        while at < all.len() && (all[at] == b'\r' || all[at] == b'\n') {
            at += 1;
        }
        if at == all.len() {
            return (out, End::Open);
        }
        let rest = &all[at..];
        let Some(h) = (0..rest.len().saturating_sub(3)).find(|i| &rest[*i..*i + 4] == b"\r\n\r\n") else {
            let e = match rest.len() {
                n if n <= HEAD_MAX => End::Open,
                n if n <= HEAD_MAX + 3 => End::Either,
                _ => End::Bad,
            };
            return (out, e);
        };
        if h > HEAD_MAX {
            return (out, End::Bad);
        }
        let mut len: Option<u64> = None;
        for line in rest[..h].split(|b| *b == b'\n') {
            let line = String::from_utf8_lossy(line).into_owned();
            let Some((n, v)) = line.split_once(':') else { continue };
            let n = n.trim().to_ascii_lowercase();
            if n != "content-length" && n != "l" {
                continue;
            }
            let v = v.trim();
            let ok = !v.is_empty() && v.bytes().all(|b| b.is_ascii_digit());
            match v.parse::<u64>() {
                Ok(x) if ok && x <= BODY_MAX as u64 && len.map(|l| l == x).unwrap_or(true) => len = Some(x),
                _ => return (out, End::Bad),
            }
        }
        let Some(len) = len else { return (out, End::Bad) };
        let need = h + 4 + len as usize;
        if rest.len() < need {
            return (out, End::Open);
        }
        out.push(rest[..need].to_vec());
        at += need;
    }
}

// ---- traffic ---------------------------------------------------------------------

fn body(r: &mut Rng, n: usize) -> Vec<u8> {
    // Bodies that look like the end of headers, or like messages.
    match r.below(4) {
        0 => r.bytes(n, n),
        1 => b"\r\n\r\n".iter().cycle().take(n).copied().collect(),
        2 => b"OPTIONS sip:a@b SIP/2.0\r\nContent-Length: 3\r\n\r\nabc".iter().cycle().take(n).copied().collect(),
        _ => vec![b'x'; n],
    }
}

fn length_line(r: &mut Rng, n: usize) -> String {
    let name = *r.pick(&["Content-Length", "l", "L", "content-length", "CONTENT-LENGTH", "Content-length"]);
    let (a, b) = (*r.pick(&["", "", " ", "\t"]), *r.pick(&[" ", "", "  ", "\t"]));
    let c = *r.pick(&["", "", " ", "\t"]);
    let z = *r.pick(&["", "", "0", "000"]);
    format!("{name}{a}:{b}{z}{n}{c}\r\n")
}

fn message(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(12) {
        0..=3 => 0,
        4..=8 => r.below(40),
        9 => r.below(3000),
        10 if r.chance(1, 10) => r.below(300_000),
        _ => r.below(200),
    };
    let mut t = r.pick(&["OPTIONS sip:a@b SIP/2.0\r\n", "SIP/2.0 200 OK\r\n", "INVITE sip:l:3@b SIP/2.0\r\n", "garbage\r\n"]).to_string();
    let lens = if r.chance(1, 6) { r.below(3) + 1 } else { 1 };
    let mut rows: Vec<String> = (0..lens).map(|_| length_line(r, n)).collect();
    for _ in 0..r.below(6) {
        rows.push(match r.below(7) {
            0 => format!("X-Content-Length: {}\r\n", r.below(100)),
            1 => format!("Subject: Content-Length: {}\r\n", r.below(100)),
            2 => format!("Content-Length-X: {}\r\n", r.below(100)),
            3 => format!("ll: {}\r\n", r.below(100)),
            4 => format!("X-{}: {}\r\n", r.alnum(1, 6), r.alnum(0, 30)),
            5 => "no colon here\r\n".into(),
            _ => format!("X: {}\r\n", "y".repeat(r.below(2000))),
        });
    }
    r.shuffle(&mut rows);
    t += &rows.concat();
    t += "\r\n";
    let mut b = t.into_bytes();
    b.extend(body(r, n));
    b
}

fn broken(r: &mut Rng) -> Vec<u8> {
    let v = match r.below(9) {
        0 => String::new(),
        1 => format!("Content-Length: {}\r\nContent-Length: {}\r\n", r.below(5), 5 + r.below(5)),
        2 => format!("Content-Length: {}\r\n", *r.pick(&["", " ", "+3", "-1", "3x", "0x3", "3 3", "3,3", "1e1", "3.0", "\u{663}", "18446744073709551616", "99999999999999999999999"])),
        3 => format!("l: 3\r\nContent-Length: {}\r\n", 4 + r.below(3)),
        4 => format!("Content-Length: {}\r\n", BODY_MAX as u64 + 1 + r.below(1000) as u64),
        5 => "Content_Length: 3\r\n".into(),
        6 => "Content-Length 3\r\n".into(),
        7 => "Content-Length: 3\r\nContent-Length: x\r\n".into(),
        _ => format!("X: {}\r\n", "z".repeat(HEAD_MAX + 10)),
    };
    let mut b = format!("OPTIONS sip:bad@b SIP/2.0\r\n{v}\r\n").into_bytes();
    b.extend(b"abcdefgh");
    b
}

fn show(b: &[u8]) -> String {
    format!("{:?}", String::from_utf8_lossy(&b[..b.len().min(1200)]))
}

fn connection(r: &mut Rng, rec: &mut Rec) {
    let mut all: Vec<u8> = vec![];
    for _ in 0..r.range(1, 9) {
        for _ in 0..r.below(3) {
            all.extend_from_slice(r.pick(&["\r\n", "\r\n\r\n", "\n", "\r"]).as_bytes());
        }
        all.extend(message(r));
    }
    let bad = r.chance(1, 3);
    if bad {
        all.extend(broken(r));
        for _ in 0..r.below(3) {
            all.extend(message(r));
        }
    }
    match r.below(8) {
        0 => {
            let k = r.below(all.len()) + 1;
            all.truncate(k);
        }
        1 => {
            let k = r.below(3) + 1;
            r.mutate(&mut all, k);
            // Which of these count as blank is not judged.
            for b in &mut all {
                if *b == 0x0b || *b == 0x0c {
                    *b = b'x';
                }
            }
        }
        _ => {}
    }
    let (want, end) = model(&all);
    // How it is cut up, and whether there are pauses.
    let mut cuts: Vec<usize> = match r.below(4) {
        0 => vec![],
        1 => (0..r.below(4)).map(|_| r.below(all.len() + 1)).collect(),
        2 => (0..r.below(40)).map(|_| r.below(all.len() + 1)).collect(),
        _ => {
            // Around the places that matter.
            let mut c = vec![];
            for i in 0..all.len().saturating_sub(3) {
                if &all[i..i + 2] == b"\r\n" && r.chance(1, 6) && c.len() < 40 {
                    c.push(i + r.below(4));
                }
            }
            c
        }
    };
    cuts.push(all.len());
    cuts.sort();
    cuts.dedup();
    let pause = r.coin();
    let late = r.coin();
    let early_end = r.chance(2, 3);
    let bye = r.below(3);
    let key = (all.len(), want.len(), end == End::Bad, cuts.len(), bye);
    rec.eval(Some(&(key, all.iter().fold(0u64, |h, b| h.wrapping_mul(1099511628211).wrapping_add(*b as u64)))));
    let ctx = |why: &str| format!("{why}: {} bytes cut at {cuts:?}, {} messages then {end:?}: {}", all.len(), want.len(), show(&all));
    let c = match connect(fresh_ip()) {
        Ok(c) => c,
        Err(e) => {
            rec.violate("connection refused", ctx(&format!("{e}")));
            return;
        }
    };
    let mut wr = c.s.try_clone().unwrap();
    let (all2, cuts2) = (all.clone(), cuts.clone());
    let mut rr = r.clone();
    let writer = std::thread::spawn(move || {
        let mut at = 0;
        for k in cuts2 {
            if k > at && wr.write_all(&all2[at..k]).is_err() {
                return false;
            }
            at = k.max(at);
            if pause && rr.chance(1, 2) {
                std::thread::sleep(Duration::from_micros(rr.below(800) as u64));
            }
        }
        if early_end {
            return wr.shutdown(std::net::Shutdown::Write).is_ok();
        }
        true
    });
    // Read all along, so that nothing waits for us.
    let mut rd = c.s.try_clone().unwrap();
    let reader = std::thread::spawn(move || {
        let mut back = vec![];
        let mut tmp = vec![0u8; 65536];
        loop {
            match rd.read(&mut tmp) {
                Ok(0) => return (back, None),
                Ok(n) => back.extend_from_slice(&tmp[..n]),
                Err(e) => return (back, Some(e.kind())),
            }
        }
    });
    // Take the messages; answer each one.
    let mut replies: Vec<Vec<u8>> = vec![];
    let mut keep = None;
    let mut gone = false;
    let start = Instant::now();
    for (i, w) in want.iter().enumerate() {
        // Once the server has closed, nothing more is on its way but what it took before.
        let mut after = 0;
        let got = loop {
            match c.got.recv_timeout(Duration::from_millis(500)) {
                Ok(p) => break Some(p),
                Err(_) if start.elapsed() > WAIT || after > 6 => break None,
                Err(_) => after += reader.is_finished() as u32,
            }
        };
        let p = match got {
            Some(p) => p,
            None => {
                rec.violate("message not delivered", ctx(&format!("message {i} after {:?}", start.elapsed())));
                let _ = writer.join();
                return;
            }
        };
        if p.payload().as_ref() != &w[..] {
            rec.violate("message differs", ctx(&format!("message {i} is {}", show(p.payload()))));
        }
        rec.check(p.peer() == c.me && p.transport() == TransportKind::Tcp && p.local() == Some(world().tcp), "addresses", || ctx(&format!("{p:?}")));
        let Some(tx) = p.stream().cloned() else {
            rec.violate("no way to answer", ctx("stream is none"));
            continue;
        };
        for k in 0..r.below(3) {
            let mut b = format!("SIP/2.0 200 OK\r\nX: {i}.{k}\r\n\r\n").into_bytes();
            let n = if r.chance(1, 30) { r.below(200_000) } else { r.below(30) };
            b.extend(body(r, n));
            let sent = if late { tx.blocking_send(Bytes::from(b.clone())).is_ok() } else { tx.try_send(Bytes::from(b.clone())).is_ok() };
            // Once refused because the connection is closing, refused for good.
            if late && gone && sent {
                rec.violate("reply accepted after one was refused", ctx(&format!("reply {i}.{k}")));
            }
            if sent {
                replies.push(b);
                rec.count("replies accepted", 1);
            } else {
                gone |= late;
                rec.count("replies refused", 1);
            }
        }
        if bye == 0 {
            keep = Some(tx);
        }
        rec.count("messages delivered", 1);
    }
    let whole = writer.join().unwrap_or(false);
    if end == End::Open {
        rec.check(whole, "connection closed early", || ctx("writing failed"));
        if !early_end {
            let _ = c.s.shutdown(std::net::Shutdown::Write);
        }
    }
    // Everything it accepted comes back, then the end.
    let (back, err) = reader.join().unwrap();
    if matches!(err, Some(std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut)) {
        rec.violate("connection left open", ctx("no end after the peer finished or broke the rules"));
        return;
    }
    // A write of ours may have been told of the reset instead of the reading side.
    let reset = err.is_some() || (end != End::Open && !whole);
    let all_replies: Vec<u8> = replies.concat();
    if reset {
        // Closing with unread input makes the system discard what was on its way.
        rec.check(end != End::Open, "connection reset", || ctx("read error"));
        rec.check(all_replies.starts_with(&back), "replies", || ctx(&format!("got {} want {}", show(&back), show(&all_replies))));
        rec.count("connections reset", 1);
    } else {
        rec.check(back == all_replies, "replies", || ctx(&format!("{} of {} bytes: got {} want {}", back.len(), all_replies.len(), show(&back), show(&all_replies))));
    }
    drop(keep);
    if let Ok(p) = c.got.try_recv() {
        rec.violate("message invented", ctx(&show(p.payload())));
    }
    rec.count(match end { End::Bad => "connections the server had to close", End::Open => "connections the client closed", End::Either => "edge" }, 1);
    rec.count("pieces written", cuts.len() as u64);
    rec.sample(|| ctx("sample"));
}

// ---- how many connections an address may hold ---------------------------------------

const PING: &[u8] = b"OPTIONS sip:a@b SIP/2.0\r\nContent-Length: 0\r\n\r\n";

/// A connection the server serves, or none if it was dropped.
fn served(ip: IpAddr, rec: &mut Rec) -> Option<Conn> {
    let mut c = connect(ip).ok()?;
    let _ = c.s.write_all(PING);
    let end = Instant::now() + WAIT;
    let _ = c.s.set_read_timeout(Some(Duration::from_millis(2)));
    let mut tmp = [0u8; 16];
    loop {
        if c.got.recv_timeout(Duration::from_millis(1)).is_ok() {
            let _ = c.s.set_read_timeout(Some(WAIT));
            return Some(c);
        }
        match c.s.read(&mut tmp) {
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut => {}
            // Ended: a message it took is one all the same.
            _ => return c.got.try_recv().is_ok().then_some(c),
        }
        if Instant::now() > end {
            rec.violate("neither served nor dropped", format!("from {ip}"));
            return None;
        }
    }
}

fn ended(mut c: Conn) {
    let _ = c.s.shutdown(std::net::Shutdown::Write);
    let mut b = vec![];
    let _ = c.s.read_to_end(&mut b);
}

fn per_address(r: &mut Rng, rec: &mut Rec) {
    let ip = fresh_ip();
    let mut live: Vec<Conn> = vec![];
    let mut log = vec![];
    let steps = r.range(2, 5);
    rec.eval(Some(&(steps, r.u64())));
    for _ in 0..steps {
        // Fill up.
        let target = if r.chance(2, 3) { 64 } else { r.below(65) };
        while live.len() < target {
            // A slot comes back shortly after its connection ended.
            let end = Instant::now() + Duration::from_secs(20);
            let c = loop {
                match served(ip, rec) {
                    Some(c) => break Some(c),
                    None if Instant::now() > end => break None,
                    None => std::thread::sleep(Duration::from_millis(5)),
                }
            };
            match c {
                Some(c) => live.push(c),
                None => {
                    rec.violate("slot lost", format!("{} live of 64, {log:?}", live.len()));
                    return;
                }
            }
        }
        log.push(format!("up to {}", live.len()));
        if live.len() == 64 {
            for _ in 0..r.range(1, 4) {
                let x = served(ip, rec);
                rec.check(x.is_none(), "65th connection served", || format!("{log:?}"));
                rec.count("connections over the limit", 1);
            }
            // Another address is not affected.
            let other = served(fresh_ip(), rec);
            rec.check(other.is_some(), "another address shut out", || format!("{log:?}"));
        }
        let n = if r.chance(1, 3) { live.len() } else { r.below(live.len() + 1) };
        r.shuffle(&mut live);
        // All at once, from several threads, some of them rudely.
        let parts: Vec<Conn> = live.drain(..n).collect();
        let mut groups: Vec<Vec<Conn>> = (0..4).map(|_| vec![]).collect();
        for c in parts {
            groups[r.below(4)].push(c);
        }
        let rude = r.chance(1, 4);
        std::thread::scope(|s| {
            for g in groups {
                s.spawn(move || g.into_iter().for_each(|c| if rude { drop(c) } else { ended(c) }));
            }
        });
        log.push(format!("down to {}", live.len()));
        rec.count("connections opened and closed", n as u64);
    }
}

// ---- quiet connections -----------------------------------------------------------------

fn quiet(r: &mut Rng, rec: &mut Rec) {
    set_established_idle_timeout(1);
    set_stream_keepalive_interval(0);
    rec.eval(Some(&r.u64()));
    let (Ok(mut fresh), Ok(mut busy), Ok(mut idle)) = (connect(fresh_ip()), connect(fresh_ip()), connect(fresh_ip())) else {
        rec.violate("connection refused", String::new());
        return;
    };
    let _ = fresh.s.write_all(&PING[..10]);
    let _ = idle.s.write_all(PING);
    let t = Instant::now();
    let mut b = vec![];
    let side = {
        let mut k = busy.s.try_clone().unwrap();
        std::thread::spawn(move || {
            for _ in 0..10 {
                let _ = k.write_all(PING);
                std::thread::sleep(Duration::from_millis(300));
            }
        })
    };
    let e = idle.s.read_to_end(&mut b);
    let took = t.elapsed();
    rec.check(e.is_ok() && b.is_empty() && took >= Duration::from_millis(990), "idle close", || format!("{e:?} {b:?} after {took:?}"));
    rec.check(took < Duration::from_secs(30), "idle connection kept", || format!("{took:?}"));
    let _ = side.join();
    let n = std::iter::from_fn(|| busy.got.recv_timeout(Duration::from_secs(5)).ok()).take(10).count();
    // A pause of this process alone may make it look idle: only then may messages be missing.
    if t.elapsed() < Duration::from_millis(3500) {
        rec.check(n == 10, "busy connection closed", || format!("{n} of 10 after {:?}", t.elapsed()));
    }
    // One that has yet to finish its first message is given longer.
    let _ = fresh.s.set_read_timeout(Some(Duration::from_millis(50)));
    let mut one = [0u8; 1];
    if t.elapsed() < Duration::from_secs(30) {
        let x = fresh.s.read(&mut one);
        rec.check(x.is_err(), "unfinished connection closed at the other limit", || format!("{x:?} after {:?}", t.elapsed()));
        let _ = fresh.s.write_all(&PING[10..]);
        rec.check(fresh.got.recv_timeout(Duration::from_secs(10)).map(|p| p.payload().as_ref() == PING).unwrap_or(false), "slow first message", String::new);
    }
    rec.count("quiet connections watched", 3);
}

fn pings(r: &mut Rng, rec: &mut Rec) {
    set_established_idle_timeout(0);
    set_stream_keepalive_interval(1);
    rec.eval(Some(&r.u64()));
    let (Ok(mut fresh), Ok(mut up)) = (connect(fresh_ip()), connect(fresh_ip())) else {
        rec.violate("connection refused", String::new());
        return;
    };
    let _ = up.s.write_all(PING);
    let Ok(p) = up.got.recv_timeout(Duration::from_secs(20)) else {
        rec.violate("message not delivered", String::new());
        return;
    };
    let tx = p.stream().cloned().unwrap();
    let mut want = vec![];
    for i in 0..6 {
        let m = Bytes::from(format!("SIP/2.0 200 OK\r\nX: {i}\r\nContent-Length: 0\r\n\r\n"));
        want.extend_from_slice(&m);
        let _ = tx.blocking_send(m);
        std::thread::sleep(Duration::from_millis(r.below(900) as u64));
    }
    drop((tx, p));
    std::thread::sleep(Duration::from_millis(1200));
    let _ = up.s.shutdown(std::net::Shutdown::Write);
    let mut b = vec![];
    let _ = up.s.read_to_end(&mut b);
    // Take out the pings: they stand between messages only.
    let mut rest = vec![];
    let mut pings = 0;
    let mut at = 0;
    while at < b.len() {
        if b[at..].starts_with(b"\r\n\r\n") {
            pings += 1;
            at += 4;
            continue;
        }
        let n = b[at..].windows(4).position(|w| w == b"\r\n\r\n").map(|i| i + 4).unwrap_or(b.len() - at);
        rest.extend_from_slice(&b[at..at + n]);
        at += n;
    }
    rec.check(rest == want, "replies and keep-alives", || format!("got {} want {}", show(&rest), show(&want)));
    rec.check(pings >= 1, "no keep-alive", || format!("{}", show(&b)));
    let _ = fresh.s.shutdown(std::net::Shutdown::Write);
    let mut b = vec![];
    let _ = fresh.s.read_to_end(&mut b);
    rec.check(b.is_empty(), "keep-alive before any message", || show(&b));
    rec.count("keep-alives", pings);
    set_stream_keepalive_interval(0);
}

// ---- datagrams ----------------------------------------------------------------------------

fn datagrams(r: &mut Rng, rec: &mut Rec) {
    let w = world();
    let s = std::net::UdpSocket::bind(SocketAddr::new(fresh_ip(), 0)).unwrap();
    let me = s.local_addr().unwrap();
    let (tx, got) = std_mpsc::channel();
    w.peers.lock().unwrap().insert(me, tx);
    for _ in 0..r.range(2, 20) {
        let b: Vec<u8> = match r.below(6) {
            0 => vec![],
            1 => r.bytes(1, 4),
            2 => {
                let n = *r.pick(&[1300usize, 8192, 65_507, 65_506]);
                body(r, n)
            }
            3 => [message(r), message(r)].concat().into_iter().take(60_000).collect(),
            _ => message(r).into_iter().take(60_000).collect(),
        };
        rec.eval(Some(&b));
        // One at a time; the network may drop one, so it is sent again a few times.
        let mut arrived = false;
        for _ in 0..5 {
            let _ = s.send_to(&b, w.udp);
            if let Ok(p) = got.recv_timeout(Duration::from_secs(4)) {
                rec.check(p.payload().as_ref() == &b[..], "datagram differs", || format!("{} / {}", show(p.payload()), show(&b)));
                rec.check(p.peer() == me && p.transport() == TransportKind::Udp && p.local() == Some(w.udp) && p.stream().is_none(), "addresses", || format!("{p:?}"));
                rec.count("datagrams", 1);
                arrived = true;
                break;
            }
            rec.count("datagrams sent again", 1);
        }
        rec.check(arrived, "datagram never delivered", || show(&b));
    }
    if let Ok(p) = got.try_recv() {
        rec.violate("datagram invented", show(p.payload()));
    }
    // And out again.
    let msg = message(r).into_iter().take(60_000).collect::<Vec<u8>>();
    s.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
    let out = w.rt.block_on(async {
        let k = tokio::net::UdpSocket::bind("127.0.0.1:0").await.unwrap();
        send_udp(&k, &me, &msg).await
    });
    rec.check(out.is_ok(), "send", || format!("{out:?}"));
    let mut b = vec![0u8; 70_000];
    if let Ok((n, _)) = s.recv_from(&mut b) {
        rec.check(b[..n] == msg[..], "datagram sent differs", || show(&b[..n]));
    }
    w.peers.lock().unwrap().remove(&me);
}

// ---- choices ---------------------------------------------------------------------------------

fn choices(r: &mut Rng, rec: &mut Rec) {
    use TransportKind::*;
    let all = [(Udp, "udp", false, false), (Tcp, "tcp", true, false), (Tls, "tls", true, true), (Sctp, "sctp", true, false), (TlsSctp, "tls-sctp", true, true), (Ws, "ws", true, false), (Wss, "wss", true, true)];
    let (k, name, stream, secure) = *r.pick(&all);
    let mtu = *r.pick(&[0usize, 1, 500, 1300, 1500, 65535]);
    let len = *r.pick(&[0usize, 1, mtu.saturating_sub(1), mtu, mtu + 1, 1300, 1301, 100_000]);
    let sips = r.coin();
    rec.eval(Some(&(name, mtu, len, sips)));
    let p = if r.coin() { DefaultTransportPolicy::new(mtu) } else { DefaultTransportPolicy::default() };
    let got = p.choose(k, len, sips);
    rec.check(!sips || got.is_secure(), "sips over an unprotected transport", || format!("{k:?} {len} -> {got:?}"));
    rec.check(got != Udp || len <= p.udp_mtu(), "datagram too large", || format!("{k:?} {len} -> {got:?}"));
    if (!sips || secure) && (k != Udp || len <= p.udp_mtu()) {
        rec.check(got == k, "choice changed for no reason", || format!("{k:?} {len} {sips} -> {got:?}"));
    }
    rec.check(k.as_str() == name && k.via_transport() == name.to_ascii_uppercase() && k.is_stream_based() == stream && k.is_secure() == secure, "names", || format!("{k:?}"));
    let case: String = name.chars().map(|c| if r.coin() { c.to_ascii_uppercase() } else { c }).collect();
    rec.check(TransportKind::parse(&format!("{}{case}{}", *r.pick(&["", " "]), *r.pick(&["", " ", "\t"]))) == Some(k), "name read", || case.clone());
    let odd = r.nasty(0, 8);
    let want = all.iter().find(|a| a.1 == odd.trim().to_ascii_lowercase()).map(|a| a.0);
    rec.check(TransportKind::parse(&odd) == want, "name read", || format!("{odd:?}"));
}

fn main() {
    let mut c = Ctx::new("W01", "a stream server delivers exactly the messages a connection's bytes spell out, in order, and writes back every reply it accepted");
    set_established_idle_timeout(0);
    let n = c.n(2_500, 60_000);
    c.run("connections", n, connection);
    let n = c.n(300, 6_000);
    c.run("datagrams", n, datagrams);
    let n = c.n(6, 60);
    c.run_on(3, "connections per address", n, per_address);
    let n = c.n(2, 10);
    c.run_seq("quiet connections", n, quiet);
    c.run_seq("keep-alives", n, pings);
    let n = c.n(3_000, 20_000);
    c.run("choices", n, choices);
    c.assume("the loopback network delivers what is written to it, and this machine runs a ready task within 10 s");
    c.finish()
}
