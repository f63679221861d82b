//! T01: transactions behave as RFC 3261 section 17 says, on every transport, whatever
//! arrives when.  The real manager runs on a virtual clock; a model of the four state
//! machines says what has to be sent and reported, and when.
use bytes::Bytes;
use h_net::*;
use sip_core::{Method, Response};
use sip_transaction::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::time::Instant;
use vmon::{Ctx, Rec, Rng};

// ---- what is observed -----------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Sent { peer: u16, id: String },
    Prov(String),
    Final(String),
    Ack(String, bool),
    Prack(String),
    Term(String),
    TErr,
}

#[derive(Default)]
struct Seen {
    log: Mutex<Vec<(u64, String, Ev)>>,
    down: Mutex<HashSet<u16>>,
    bytes: Mutex<HashMap<String, Bytes>>,
    odd: Mutex<Vec<String>>,
    start: Mutex<Option<Instant>>,
}

impl Seen {
    fn now(&self) -> u64 {
        self.start.lock().unwrap().unwrap().elapsed().as_millis() as u64
    }
    fn add(&self, tx: &str, e: Ev) {
        let t = self.now();
        self.log.lock().unwrap().push((t, tx.to_string(), e));
    }
}

fn tag(text: &str) -> String {
    text.split("X-Id: ").nth(1).and_then(|r| r.split("\r\n").next()).unwrap_or("?").to_string()
}

fn owner(id: &str) -> String {
    id.split('.').next().unwrap().to_string()
}

struct Wire(Arc<Seen>);
#[async_trait::async_trait]
impl TransportDispatcher for Wire {
    async fn dispatch(&self, ctx: &TransportContext, payload: Bytes) -> anyhow::Result<()> {
        let id = tag(&String::from_utf8_lossy(&payload));
        if self.0.bytes.lock().unwrap().get(&id) != Some(&payload) {
            self.0.odd.lock().unwrap().push(format!("sent {payload:?} for {id}"));
        }
        if self.0.down.lock().unwrap().contains(&ctx.peer().port()) {
            anyhow::bail!("peer is down");
        }
        tokio::task::yield_now().await;
        self.0.add(&owner(&id), Ev::Sent { peer: ctx.peer().port(), id });
        Ok(())
    }
}

struct Tu(Arc<Seen>, String);
fn rid(r: &Response) -> String {
    r.headers().get("X-Id").unwrap_or("?").to_string()
}
#[async_trait::async_trait]
impl ClientTransactionUser for Tu {
    async fn on_provisional(&self, _: &TransactionKey, r: &Response) {
        self.0.add(&self.1, Ev::Prov(rid(r)))
    }
    async fn on_final(&self, _: &TransactionKey, r: &Response) {
        self.0.add(&self.1, Ev::Final(rid(r)))
    }
    async fn on_terminated(&self, _: &TransactionKey, why: &str) {
        self.0.add(&self.1, Ev::Term(why.to_string()))
    }
    async fn send_ack(&self, _: &TransactionKey, r: Response, _: &TransportContext, ok: bool) {
        self.0.add(&self.1, Ev::Ack(rid(&r), ok))
    }
    async fn send_prack(&self, _: &TransactionKey, r: Response, _: &TransportContext) {
        self.0.add(&self.1, Ev::Prack(rid(&r)))
    }
    async fn on_transport_error(&self, _: &TransactionKey) {
        self.0.add(&self.1, Ev::TErr)
    }
}

// ---- the model ------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Kind {
    ClientInvite,
    Client,
    ServerInvite,
    Server,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum St {
    Absent,
    First, // Calling, Trying
    Proceeding,
    Completed,
    Confirmed,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Tm {
    Again, // A, E, G
    Limit, // B, F, H
    Wait,  // D, K, I, J
}

#[derive(Clone)]
struct Model {
    name: String,
    kind: Kind,
    reliable: bool,
    t: (u64, u64, u64),
    st: St,
    timers: BTreeMap<Tm, u64>,
    gap: u64,
    payload: Option<String>,
    final_payload: Option<String>,
    peers: Vec<u16>,
    log: Vec<(u64, Ev)>,
    started: u64,
    ended: u64,
    again: u64,
    outcomes: (u64, u64, u64), // completed, timeout, transport
    /// Retransmissions due in the very instant of the timeout: either may come first.
    ties: Vec<(u64, String)>,
    /// From here on nothing is told of this one (a tie with an unreachable peer).
    blurred: Option<u64>,
    /// Ends that are as well called completed, timed out or failed.
    either: u64,
}

impl Model {
    fn new(name: String, kind: Kind, reliable: bool, t: (u64, u64, u64), peers: Vec<u16>) -> Model {
        Model { name, kind, reliable, t, st: St::Absent, timers: BTreeMap::new(), gap: 0, payload: None, final_payload: None, peers, log: vec![], started: 0, ended: 0, again: 0, outcomes: (0, 0, 0), ties: vec![], blurred: None, either: 0 }
    }
    fn client(&self) -> bool {
        matches!(self.kind, Kind::ClientInvite | Kind::Client)
    }
    fn gone(&mut self, outcome: usize) {
        self.st = St::Absent;
        self.timers.clear();
        self.ended += 1;
        match outcome {
            0 => self.outcomes.0 += 1,
            1 => self.outcomes.1 += 1,
            _ => self.outcomes.2 += 1,
        }
    }
    /// Puts a payload on the wire; false when that ended the transaction.
    fn send(&mut self, now: u64, id: String, down: &HashSet<u16>) -> bool {
        loop {
            let peer = self.peers[0];
            if !down.contains(&peer) {
                self.log.push((now, Ev::Sent { peer, id }));
                return true;
            }
            if self.client() && self.peers.len() > 1 {
                self.peers.remove(0);
                continue;
            }
            if self.client() {
                self.log.push((now, Ev::TErr));
                self.log.push((now, Ev::Term("transport error".into())));
            }
            self.gone(2);
            return false;
        }
    }
    fn wait(&mut self, now: u64, ms: u64) {
        self.timers.clear();
        if ms == 0 {
            self.gone(0);
        } else {
            self.timers.insert(Tm::Wait, now + ms);
        }
    }
    fn retransmit_from(&mut self, now: u64) {
        if !self.reliable {
            self.gap = self.t.0;
            self.timers.insert(Tm::Again, now + self.gap);
        }
        self.timers.insert(Tm::Limit, now + 64 * self.t.0);
    }
    fn next(&self) -> Option<(u64, Tm)> {
        self.timers.iter().map(|(k, v)| (*v, *k)).min()
    }
    fn advance(&mut self, to: u64, down: &HashSet<u16>) {
        while let Some((at, tm)) = self.next() {
            if at > to {
                break;
            }
            self.timers.remove(&tm);
            if tm == Tm::Again && self.timers.get(&Tm::Limit) == Some(&at) {
                if !down.contains(&self.peers[0]) {
                    let id = if self.kind == Kind::ServerInvite { self.final_payload.clone() } else { self.payload.clone() };
                    self.ties.push((at, id.unwrap()));
                } else if self.client() {
                    self.blurred.get_or_insert(at);
                } else {
                    self.either += 1;
                }
                continue;
            }
            match (tm, self.kind) {
                (Tm::Again, kind) => {
                    self.again += 1;
                    let id = if kind == Kind::ServerInvite { self.final_payload.clone() } else { self.payload.clone() };
                    if self.send(at, id.unwrap(), down) {
                        self.gap = if kind == Kind::Client && self.st == St::Proceeding { self.t.1 } else { (2 * self.gap).min(self.t.1) };
                        self.timers.insert(Tm::Again, at + self.gap);
                    }
                }
                (Tm::Limit, Kind::ServerInvite) => self.gone(1),
                (Tm::Limit, k) => {
                    let why = if k == Kind::ClientInvite { "Timer B expired" } else { "Timer F expired" };
                    self.log.push((at, Ev::Term(why.into())));
                    self.gone(1);
                }
                (Tm::Wait, _) => self.gone(0),
            }
        }
    }

    // client side
    fn start(&mut self, now: u64, id: String, down: &HashSet<u16>) {
        self.started += 1;
        self.st = St::First;
        self.payload = Some(id.clone());
        if self.send(now, id, down) {
            self.retransmit_from(now);
        }
    }
    fn arrives(&mut self, now: u64, id: String, code: u16, prack: bool) {
        match (self.kind, self.st) {
            (Kind::ClientInvite, St::First | St::Proceeding) => {
                if code < 200 {
                    self.st = St::Proceeding;
                    self.timers.clear();
                    self.log.push((now, Ev::Prov(id.clone())));
                    if prack {
                        self.log.push((now, Ev::Prack(id)));
                    }
                } else {
                    self.log.push((now, Ev::Final(id.clone())));
                    self.log.push((now, Ev::Ack(id, code < 300)));
                    if code < 300 {
                        self.gone(0);
                    } else {
                        self.st = St::Completed;
                        self.wait(now, if self.reliable { 0 } else { 32_000 });
                    }
                }
            }
            (Kind::ClientInvite, St::Completed) if code >= 300 => self.log.push((now, Ev::Ack(id, false))),
            (Kind::Client, St::First | St::Proceeding) => {
                if code < 200 {
                    self.st = St::Proceeding;
                    self.log.push((now, Ev::Prov(id)));
                } else {
                    self.log.push((now, Ev::Final(id)));
                    self.st = St::Completed;
                    self.wait(now, if self.reliable { 0 } else { self.t.2 });
                }
            }
            _ => {}
        }
    }

    // server side
    fn request(&mut self, now: u64, down: &HashSet<u16>) {
        match self.st {
            St::Absent => {
                self.started += 1;
                self.st = St::Proceeding;
                self.payload = None;
                self.final_payload = None;
            }
            St::Confirmed => {}
            _ => {
                if let Some(id) = self.payload.clone() {
                    self.send(now, id, down);
                }
            }
        }
    }
    fn answer(&mut self, now: u64, id: String, code: u16, down: &HashSet<u16>) {
        if self.st != St::Proceeding {
            return;
        }
        self.payload = Some(id.clone());
        if code >= 200 {
            self.final_payload = Some(id.clone());
        }
        if !self.send(now, id, down) || code < 200 {
            if code >= 200 && code < 300 && self.kind == Kind::ServerInvite {
                self.either += 1; // over with the 2xx, wherever that got to
            }
            return;
        }
        match self.kind {
            Kind::ServerInvite if code < 300 => self.gone(0),
            Kind::ServerInvite => {
                self.st = St::Completed;
                self.retransmit_from(now);
            }
            _ => {
                self.st = St::Completed;
                self.wait(now, if self.reliable { 0 } else { 64 * self.t.0 });
            }
        }
    }
    fn ack(&mut self, now: u64) {
        if self.kind == Kind::ServerInvite && self.st == St::Completed {
            self.st = St::Confirmed;
            self.wait(now, if self.reliable { 0 } else { self.t.2 });
        }
    }
}

// ---- histories --------------------------------------------------------------

const MARGIN: u64 = 40;

fn via(kind: TransportKind, branch: &str, r: &mut Rng) -> String {
    let p = match kind {
        TransportKind::Udp => "UDP",
        TransportKind::Tcp => "TCP",
        TransportKind::Tls => "TLS",
        TransportKind::Ws => "WS",
        TransportKind::Wss => "WSS",
        TransportKind::Sctp => "SCTP",
        TransportKind::TlsSctp => "TLS-SCTP",
    };
    let b = match r.below(4) {
        0 => format!(";rport;branch={branch}"),
        1 => format!(";branch={branch};rport"),
        2 => format!(" ; Branch = {branch} ;x=\"a;branch=z9hG4bKno,\""),
        _ => format!(";branch={branch}"),
    };
    format!("Via: SIP/2.0/{p} client.example:5060{b}{}\r\n", if r.chance(1, 3) { ", SIP/2.0/UDP other.example;branch=z9hG4bKother" } else { "" })
}

struct Tx {
    m: Model,
    kind: TransportKind,
    branch: String,
    method: &'static str,
    n: usize,
    key: TransactionKey,
    ctx: TransportContext,
    via: String,
    req: sip_core::Request,
}

impl Tx {
    fn head(&self, id: &str) -> String {
        format!("From: <sip:a@a.example>;tag=1\r\nTo: <sip:b@b.example>\r\nCall-ID: {}\r\nCSeq: 7 {}\r\nX-Id: {id}\r\nContent-Length: 0\r\n\r\n", self.branch, self.method)
    }
}

fn ctx(kind: TransportKind, port: u16) -> TransportContext {
    let a: SocketAddr = format!("192.0.2.1:{port}").parse().unwrap();
    let s = tokio::sync::mpsc::channel(1).0;
    TransportContext::new(kind, a, if kind == TransportKind::Udp { None } else { Some(s) })
}

fn prackable(r: &mut Rng) -> (String, bool) {
    match r.below(6) {
        0 => ("RSeq: 5\r\nRequire: 100rel\r\n".into(), true),
        1 => ("RSeq: 5\r\nRequire: timer, 100REL\r\n".into(), true),
        2 => ("RSeq: 5\r\nRequire: timer\r\n".into(), false),
        3 => ("Require: 100rel\r\n".into(), false),
        _ => (String::new(), false),
    }
}

fn history(r: &mut Rng, rec: &mut Rec) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let Some((txs, seen, script, snap)) = rec.guard("history", &|| "a history".into(), || rt.block_on(play(r))) else { return };
    drop(rt);
    let log = seen.log.lock().unwrap().clone();
    let show = |what: &str| format!("{what}\n    script: {}", script.join(" | "));
    for o in seen.odd.lock().unwrap().iter() {
        rec.violate("bytes", &show(o));
    }
    for tx in &txs {
        let got: Vec<(u64, Ev)> = log.iter().filter(|(_, n, _)| *n == tx.m.name).map(|(t, _, e)| (*t, e.clone())).collect();
        let mut want = tx.m.log.clone();
        let mut got = got;
        for (at, id) in &tx.m.ties {
            if let Some(i) = got.iter().position(|(t, e)| t.abs_diff(*at) <= 25 && matches!(e, Ev::Sent { id: i, .. } if i == id)) {
                got.remove(i);
            }
        }
        if let Some(b) = tx.m.blurred {
            got.retain(|(t, _)| t + 50 < b);
            want.retain(|(t, _)| t + 50 < b);
        }
        let same = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.1 == w.1 && g.0.abs_diff(w.0) <= 25);
        if !same {
            let at = got.iter().zip(&want).take_while(|(g, w)| g.1 == w.1 && g.0.abs_diff(w.0) <= 25).count();
            let key = format!("{:?}", tx.m.kind).to_lowercase();
            rec.violate(&key, &show(&format!("{} ({:?} {:?}, T1/T2/T4 {:?}): after {at} events as due came {:?}, due {:?}", tx.m.name, tx.m.kind, tx.kind, tx.m.t, &got[at.min(got.len())..(at + 3).min(got.len())], &want[at.min(want.len())..(at + 3).min(want.len())])));
        }
        rec.eval(Some(&format!("{:?} {:?} {:?} {}", tx.m.kind, tx.kind, tx.m.st, want.iter().map(|(_, e)| match e {
            Ev::Sent { .. } => 's',
            Ev::Prov(_) => 'p',
            Ev::Final(_) => 'f',
            Ev::Ack(..) => 'a',
            Ev::Prack(_) => 'k',
            Ev::Term(_) => 't',
            Ev::TErr => 'e',
        }).collect::<String>())));
    }
    for (t, n, e) in &log {
        if !txs.iter().any(|x| x.m.name == *n) {
            rec.violate("stray", &show(&format!("{e:?} of {n} at {t}")));
        }
    }
    // the books
    if txs.iter().any(|x| x.m.blurred.is_some()) {
        return;
    }
    let sum = |f: &dyn Fn(&Model) -> u64, c: bool| txs.iter().filter(|x| x.m.client() == c).map(|x| f(&x.m)).sum::<u64>();
    for (role, c) in [(metrics::TransactionRole::Client, true), (metrics::TransactionRole::Server, false)] {
        let s = snap.starts_by_role.get(&role).copied().unwrap_or(0);
        let e = snap.completes_by_role.get(&role).copied().unwrap_or(0);
        rec.check(s == sum(&|m| m.started, c) && e == sum(&|m| m.ended, c), "books", || show(&format!("{role:?}: {s} started, {e} ended; should be {} and {}", sum(&|m| m.started, c), sum(&|m| m.ended, c))));
    }
    let re: u64 = snap.retransmissions.values().sum();
    let want: u64 = txs.iter().map(|x| x.m.again).sum();
    let ties: u64 = txs.iter().map(|x| x.m.ties.len() as u64 + x.m.either).sum();
    rec.check((want..=want + ties).contains(&re), "books", || show(&format!("{re} retransmissions counted, {want} made")));
    let mut outs = (0, 0, 0);
    for s in snap.by_transport.values() {
        for (o, n) in &s.outcomes {
            match o {
                metrics::TransactionOutcome::Completed => outs.0 += n,
                metrics::TransactionOutcome::Timeout => outs.1 += n,
                metrics::TransactionOutcome::TransportError => outs.2 += n,
                metrics::TransactionOutcome::Cancelled => {}
            }
        }
    }
    let want = txs.iter().fold((0, 0, 0), |a, x| (a.0 + x.m.outcomes.0, a.1 + x.m.outcomes.1, a.2 + x.m.outcomes.2));
    let either: u64 = txs.iter().map(|x| x.m.either).sum();
    let near = outs.0 + outs.1 + outs.2 == want.0 + want.1 + want.2 && outs.0.abs_diff(want.0) + outs.1.abs_diff(want.1) + outs.2.abs_diff(want.2) <= 2 * either;
    rec.check(near, "books", || show(&format!("outcomes (completed, timeout, transport error) {outs:?}, should be {want:?}")));
    rec.sample(|| script.join(" | "));
}

async fn play(r: &mut Rng) -> (Vec<Tx>, Arc<Seen>, Vec<String>, metrics::MetricsSnapshot) {
    let seen = Arc::new(Seen::default());
    *seen.start.lock().unwrap() = Some(Instant::now());
    let begin = Instant::now();
    let t1 = *r.pick(&[200u64, 500, 500]);
    let t = (t1, t1 * *r.pick(&[1u64, 4, 8]), *r.pick(&[1000u64, 5000]));
    let mgr = TransactionManager::with_timers(Arc::new(Wire(seen.clone())), Duration::from_millis(t.0), Duration::from_millis(t.1), Duration::from_millis(t.2));
    let mut txs: Vec<Tx> = vec![];
    let mut script = vec![];
    let mut down: HashSet<u16> = HashSet::new();
    let kinds = [TransportKind::Udp, TransportKind::Udp, TransportKind::Udp, TransportKind::Tcp, TransportKind::Tls, TransportKind::Ws, TransportKind::Wss, TransportKind::Sctp, TransportKind::TlsSctp];
    let few = 1 + r.below(4);
    for i in 0..few {
        let k = *r.pick(&[Kind::ClientInvite, Kind::Client, Kind::ServerInvite, Kind::Server]);
        let tk = *r.pick(&kinds);
        let method = match k {
            Kind::ClientInvite | Kind::ServerInvite => "INVITE",
            _ => *r.pick(&["OPTIONS", "REGISTER", "BYE", "CANCEL", "MESSAGE", "FROB"]),
        };
        // now and then a branch shared by two methods, as CANCEL does
        let branch = if i > 0 && r.chance(1, 3) && txs[i - 1].method != method && txs[i - 1].m.client() == matches!(k, Kind::Client | Kind::ClientInvite) && txs.iter().all(|x| x.branch != txs[i - 1].branch || x.method != method) {
            txs[i - 1].branch.clone()
        } else {
            format!("z9hG4bK{}{i}", r.alnum(4, 10))
        };
        let name = format!("t{i}");
        let targets = if matches!(k, Kind::ClientInvite | Kind::Client) { 1 + r.below(3) } else { 1 };
        let peers: Vec<u16> = (0..targets).map(|j| 1000 + (i * 10 + j) as u16).collect();
        let v = via(tk, &branch, r);
        let mut tx = Tx {
            m: Model::new(name.clone(), k, tk != TransportKind::Udp, t, peers.clone()),
            kind: tk,
            key: TransactionKey::new(branch.clone(), Method::from_token(method).unwrap(), !matches!(k, Kind::ClientInvite | Kind::Client)),
            branch,
            method,
            n: 0,
            ctx: ctx(tk, peers[0]),
            via: v,
            req: request("OPTIONS sip:x SIP/2.0\r\nVia: SIP/2.0/UDP h;branch=z9hG4bKx\r\nFrom: <sip:a@b>;tag=1\r\nTo: <sip:b@b>\r\nCall-ID: a\r\nCSeq: 1 OPTIONS\r\nContent-Length: 0\r\n\r\n"),
        };
        let id = format!("{name}.req");
        tx.req = request(&format!("{method} sip:b@b.example SIP/2.0\r\n{}Max-Forwards: 70\r\n{}", tx.via, tx.head(&id)));
        seen.bytes.lock().unwrap().insert(id, sip_parse::serialize_request(&tx.req));
        txs.push(tx);
    }
    let steps = 3 + r.below(25);
    let mut now = 0u64;
    let mut begun = vec![false; few];
    for _ in 0..steps {
        // when
        now += match r.below(8) {
            0 => r.ur(1, 60),
            1..=4 => r.ur(50, 4 * t.0),
            5 | 6 => r.ur(t.0, 10 * t.1),
            _ => r.ur(1000, 70 * t.0),
        };
        'clear: loop {
            for x in &txs {
                let mut m = x.m.clone();
                m.advance(now.saturating_sub(MARGIN), &down);
                if m.next().is_some_and(|(at, _)| at <= now + MARGIN) {
                    now += MARGIN;
                    continue 'clear;
                }
            }
            break;
        }
        tokio::time::sleep_until(begin + Duration::from_millis(now)).await;
        for x in &mut txs {
            x.m.advance(now, &down);
        }
        // what
        if r.chance(1, 14) {
            let p = 1000 + (r.below(few) * 10 + r.below(2)) as u16;
            if !down.remove(&p) {
                down.insert(p);
            }
            *seen.down.lock().unwrap() = down.clone();
            script.push(format!("{now} down={down:?}"));
            continue;
        }
        let i = r.below(few);
        let x = &mut txs[i];
        x.n += 1;
        let id = format!("{}.{}", x.m.name, x.n);
        if x.m.client() {
            if !begun[i] {
                begun[i] = true;
                script.push(format!("{now} start {} {:?} {:?} {}", x.m.name, x.m.kind, x.kind, x.method));
                let targets: Vec<TransportContext> = x.m.peers.iter().map(|p| ctx(x.kind, *p)).collect();
                let tu = Arc::new(Tu(seen.clone(), x.m.name.clone()));
                x.m.start(now, format!("{}.req", x.m.name), &down);
                let k = mgr.start_client_transaction_with_targets(x.req.clone(), targets, tu).await.unwrap();
                assert_eq!(k, x.key);
                continue;
            }
            let code = match r.below(8) {
                0 | 1 => *r.pick(&[100u16, 180, 183, 199]),
                2 => *r.pick(&[200u16, 202, 299]),
                _ => *r.pick(&[300u16, 302, 404, 486, 500, 603, 180, 100]),
            };
            let odd = r.below(12);
            let (extra, prack) = if code < 200 { prackable(r) } else { (String::new(), false) };
            // a 2xx after another final is no matter of this transaction
            if x.m.kind == Kind::ClientInvite && x.m.st == St::Completed && code / 100 == 2 {
                continue;
            }
            let v = match odd {
                0 => x.via.replace(&x.branch, "z9hG4bKnobody"),
                1 => String::new(),
                _ => x.via.clone(),
            };
            let mut text = format!("SIP/2.0 {code} Whatever\r\n{v}{extra}{}", x.head(&id));
            let mut mine = odd > 2;
            if odd == 2 {
                text = text.replace(&format!("CSeq: 7 {}", x.method), "CSeq: 7 PUBLISH");
            }
            let Some(resp) = sip_parse::parse_response(&Bytes::from(text)) else { continue };
            if x.m.st == St::Absent {
                mine = false;
            }
            script.push(format!("{now} {} gets {code}{}{}", x.m.name, if prack { " reliable" } else { "" }, if mine { "" } else { " stray" }));
            if mine {
                x.m.arrives(now, id, code, prack);
            }
            mgr.receive_response(resp).await;
        } else {
            match r.below(10) {
                0..=3 => {
                    script.push(format!("{now} {} {:?} {:?} {} request", x.m.name, x.m.kind, x.kind, x.method));
                    x.m.request(now, &down);
                    let h = mgr.receive_request(x.req.clone(), x.ctx.clone()).await;
                    assert_eq!(*h.key(), x.key);
                }
                4 if x.m.kind == Kind::ServerInvite => {
                    // an ACK, by either way in
                    let there = x.m.st != St::Absent;
                    script.push(format!("{now} {} ACK", x.m.name));
                    x.m.ack(now);
                    if r.coin() {
                        let yes = mgr.ack_received(&x.key).await;
                        if yes != there {
                            seen.odd.lock().unwrap().push(format!("ack_received says {yes} at {now} of {}", x.m.name));
                        }
                    } else {
                        let text = format!("ACK sip:b@b.example SIP/2.0\r\n{}Max-Forwards: 70\r\n{}", x.via.split(", SIP").next().unwrap().trim_end().to_string() + "\r\n", x.head(&id).replace("CSeq: 7 INVITE", "CSeq: 7 ACK"));
                        mgr.receive_request(request(&text), x.ctx.clone()).await;
                    }
                }
                _ => {
                    let code = match r.below(6) {
                        0..=2 => *r.pick(&[100u16, 180, 183]),
                        3 => *r.pick(&[200u16, 204]),
                        _ => *r.pick(&[302u16, 401, 404, 486, 500, 603]),
                    };
                    // one final response per INVITE is the user's part
                    if x.m.kind == Kind::ServerInvite && code >= 200 && x.m.st != St::Proceeding && x.m.st != St::Absent {
                        continue;
                    }
                    let resp = response(&format!("SIP/2.0 {code} Whatever\r\n{}{}", x.via, x.head(&id)));
                    seen.bytes.lock().unwrap().insert(id.clone(), sip_parse::serialize_response(&resp));
                    script.push(format!("{now} {} sends {code}", x.m.name));
                    x.m.answer(now, id, code, &down);
                    if code < 200 {
                        mgr.send_provisional(&x.key, resp).await;
                    } else {
                        mgr.send_final(&x.key, resp).await;
                    }
                }
            }
        }
    }
    // to the end of everything that ends
    let end = now + 400_000;
    tokio::time::sleep_until(begin + Duration::from_millis(end)).await;
    for x in &mut txs {
        x.m.advance(end, &down);
    }
    let snap = mgr.metrics().snapshot();
    (txs, seen, script, snap)
}

// ---- the same request many times at once --------------------------------------

fn duplicates(r: &mut Rng, rec: &mut Rec) {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_time().build().unwrap();
    let seen = Arc::new(Seen::default());
    *seen.start.lock().unwrap() = Some(Instant::now());
    let method = *r.pick(&["INVITE", "OPTIONS", "REGISTER"]);
    let rounds = 20;
    let copies = 2 + r.below(5);
    let mgr = {
        let _g = rt.enter();
        TransactionManager::new(Arc::new(Wire(seen.clone())))
    };
    for k in 0..rounds {
        let text = format!("{method} sip:b@b.example SIP/2.0\r\nVia: SIP/2.0/UDP h;branch=z9hG4bKdup{k}\r\nMax-Forwards: 70\r\nFrom: <sip:a@a.example>;tag=1\r\nTo: <sip:b@b.example>\r\nCall-ID: dup\r\nCSeq: 7 {method}\r\nX-Id: t{k}.req\r\nContent-Length: 0\r\n\r\n");
        let req = request(&text);
        let resp = response(&format!("SIP/2.0 486 Busy\r\nVia: SIP/2.0/UDP h;branch=z9hG4bKdup{k}\r\nFrom: <sip:a@a.example>;tag=1\r\nTo: <sip:b@b.example>\r\nCall-ID: dup\r\nCSeq: 7 {method}\r\nX-Id: t{k}.1\r\nContent-Length: 0\r\n\r\n"));
        seen.bytes.lock().unwrap().insert(format!("t{k}.1"), sip_parse::serialize_response(&resp));
        let barrier = Arc::new(std::sync::Barrier::new(copies));
        let done = rec.guard("duplicates", &|| text.clone(), || {
            std::thread::scope(|s| {
                for _ in 0..copies {
                    let (mgr, req, barrier, h) = (mgr.clone(), req.clone(), barrier.clone(), rt.handle().clone());
                    s.spawn(move || {
                        barrier.wait();
                        h.block_on(mgr.receive_request(req, ctx(TransportKind::Udp, 1000)));
                    });
                }
            });
            let key = TransactionKey::new(format!("z9hG4bKdup{k}"), Method::from_token(method).unwrap(), true);
            rt.block_on(mgr.send_final(&key, resp));
        });
        if done.is_none() {
            return;
        }
    }
    let snap = mgr.metrics().snapshot();
    let n = snap.starts_by_role.get(&metrics::TransactionRole::Server).copied().unwrap_or(0);
    rec.check(n == rounds, "duplicates", || format!("{rounds} {method} requests in {copies} copies each at once made {n} transactions"));
    let sent = seen.log.lock().unwrap().iter().filter(|(_, _, e)| matches!(e, Ev::Sent { id, .. } if id.ends_with(".1"))).count() as u64;
    rec.check(sent >= rounds, "duplicates", || format!("{sent} of {rounds} answers sent"));
    rec.eval(Some(&format!("{method} {copies}")));
    rt.shutdown_background();
}

// ---- limits ---------------------------------------------------------------

fn limits(r: &mut Rng, rec: &mut Rec) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let cap = 1 + r.below(5);
    let n = cap + r.below(8);
    let acks = r.below(6);
    let out = rec.guard("limits", &|| format!("cap {cap} n {n}"), || {
        rt.block_on(async {
            let seen = Arc::new(Seen::default());
            *seen.start.lock().unwrap() = Some(Instant::now());
            let mgr = TransactionManager::with_limits(Arc::new(Wire(seen.clone())), TransactionLimits::new(cap, cap));
            let mut vias = HashSet::new();
            for k in 0..n {
                let tk = *r.pick(&[TransportKind::Udp, TransportKind::Tcp, TransportKind::Tls]);
                for (c, m) in [(true, "OPTIONS"), (false, "MESSAGE")] {
                    let side = if c { "c" } else { "s" };
                    let v = via(tk, &format!("z9hG4bK{side}{k}"), r);
                    vias.insert(v.clone());
                    let rest = format!("From: <sip:a@a.example>;tag=1\r\nTo: <sip:b@b.example>\r\nCall-ID: l\r\nCSeq: 7 {m}\r\n");
                    let req = request(&format!("{m} sip:b@b.example SIP/2.0\r\n{v}Max-Forwards: 70\r\n{rest}X-Id: {side}{k}.req\r\nContent-Length: 0\r\n\r\n"));
                    seen.bytes.lock().unwrap().insert(format!("{side}{k}.req"), sip_parse::serialize_request(&req));
                    if c {
                        mgr.start_client_transaction(req, ctx(tk, 1), Arc::new(Tu(seen.clone(), format!("c{k}")))).await.unwrap();
                    } else {
                        mgr.receive_request(req, ctx(tk, 1)).await;
                    }
                }
                std::thread::sleep(Duration::from_micros(2));
            }
            // acknowledgements of earlier calls take no place
            for k in 0..acks {
                let req = request(&format!("ACK sip:b@b.example SIP/2.0\r\nVia: SIP/2.0/UDP h;branch=z9hG4bKack{k}\r\nMax-Forwards: 70\r\nFrom: <sip:a@a.example>;tag=1\r\nTo: <sip:b@b.example>;tag=2\r\nCall-ID: l\r\nCSeq: 7 ACK\r\nX-Id: a{k}.req\r\nContent-Length: 0\r\n\r\n"));
                mgr.receive_request(req, ctx(TransportKind::Udp, 1)).await;
            }
            tokio::time::sleep(Duration::from_millis(50)).await;
            for k in 0..n {
                let key = TransactionKey::new(format!("z9hG4bKs{k}"), Method::from_token("MESSAGE").unwrap(), true);
                let resp = response(&format!("SIP/2.0 200 OK\r\nVia: SIP/2.0/UDP h;branch=z9hG4bKs{k}\r\nFrom: <sip:a@a.example>;tag=1\r\nTo: <sip:b@b.example>\r\nCall-ID: l\r\nCSeq: 7 MESSAGE\r\nX-Id: s{k}.1\r\nContent-Length: 0\r\n\r\n"));
                seen.bytes.lock().unwrap().insert(format!("s{k}.1"), sip_parse::serialize_response(&resp));
                mgr.send_final(&key, resp).await;
            }
            let s = mgr.metrics().snapshot();
            (seen, s)
        })
    });
    let Some((seen, snap)) = out else { return };
    let log = seen.log.lock().unwrap();
    for k in 0..n {
        let live = k >= n - cap;
        let told = log.iter().any(|(_, t, e)| *t == format!("c{k}") && matches!(e, Ev::Term(w) if w.contains("limit")));
        rec.check(told != live, "limits", || format!("limit {cap}, {n} started: client {k} (oldest 0) told of its end: {told}"));
        let answers = log.iter().any(|(_, t, e)| *t == format!("s{k}") && matches!(e, Ev::Sent { id, .. } if id.ends_with(".1")));
        rec.check(answers == live, "limits", || format!("limit {cap}, {n} received, then {acks} stray ACKs: server {k} (oldest 0) still answers: {answers}"));
    }
    for (role, want) in [(metrics::TransactionRole::Client, n), (metrics::TransactionRole::Server, n)] {
        let s = snap.starts_by_role.get(&role).copied().unwrap_or(0) as usize;
        let e = snap.completes_by_role.get(&role).copied().unwrap_or(0) as usize;
        rec.check(s == want && s - e <= cap && e <= s, "limits", || format!("limit {cap}: {role:?} {s} started, {e} ended"));
    }
    rec.check(snap.via_transport_counts.len() <= 8, "limits", || format!("the count of transports has {} entries: {:?}", snap.via_transport_counts.len(), snap.via_transport_counts));
    rec.check(snap.via_transport_counts.values().sum::<u64>() as usize == n, "limits", || format!("{:?}", snap.via_transport_counts));
    rec.eval(Some(&format!("cap={cap} n={n} acks={acks}")));
}

// ---- branches ---------------------------------------------------------------

fn branches(r: &mut Rng, rec: &mut Rec) {
    let mut seen = HashSet::new();
    for _ in 0..64 {
        let Some(b) = rec.guard("branch", &|| String::new(), generate_branch_id) else { return };
        rec.check(b.starts_with("z9hG4bK") && b.len() > 15 && b.bytes().all(|c| c.is_ascii_alphanumeric()), "branch", || format!("generated {b:?}"));
        rec.check(seen.insert(b.clone()), "branch", || format!("generated {b:?} twice"));
    }
    let b = format!("z9hG4bK{}", r.alnum(1, 20));
    let v = via(TransportKind::Udp, &b, r);
    let v = v.trim_end().strip_prefix("Via: ").unwrap();
    let Some(got) = rec.guard("branch", &|| v.to_string(), || branch_from_via(v)) else { return };
    rec.check(got == Some(b.as_str()), "branch", || format!("{v:?}: {got:?}"));
    let wild = r.nasty(0, 60);
    let _ = rec.guard("branch", &|| wild.clone(), || branch_from_via(&wild).map(str::len));
    rec.eval(Some("branch"));
}

// ---- two senders ---------------------------------------------------------------

fn senders(r: &mut Rng, rec: &mut Rec) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let method = *r.pick(&["INVITE", "OPTIONS"]);
    let got = rec.guard("senders", &|| method.into(), || {
        rt.block_on(async {
            let seen = Arc::new(Seen::default());
            *seen.start.lock().unwrap() = Some(Instant::now());
            let mgr = TransactionManager::new(Arc::new(Wire(seen.clone())));
            for (i, host) in ["one.example", "two.example"].iter().enumerate() {
                let req = request(&format!("{method} sip:b@b.example SIP/2.0\r\nVia: SIP/2.0/UDP {host};branch=z9hG4bKsame\r\nMax-Forwards: 70\r\nFrom: <sip:a@a.example>;tag=1\r\nTo: <sip:b@b.example>\r\nCall-ID: {host}\r\nCSeq: 7 {method}\r\nX-Id: t{i}.req\r\nContent-Length: 0\r\n\r\n"));
                mgr.receive_request(req, ctx(TransportKind::Udp, 1000 + i as u16)).await;
            }
            mgr.metrics().snapshot().starts_by_role.get(&metrics::TransactionRole::Server).copied().unwrap_or(0)
        })
    });
    let Some(got) = got else { return };
    rec.check(got == 2, "same-branch-other-sender", || format!("{method} requests of two senders with one branch made {got} transaction(s)"));
    rec.eval(Some(method));
}

fn main() {
    let mut c = Ctx::new("T01", "transactions retransmit, time out, absorb and report as the four state machines of RFC 3261 section 17 say");
    let n = c.n(20_000, 600_000);
    c.run("histories", n, history);
    let n = c.n(60, 1_000);
    c.run("duplicates", n, duplicates);
    let n = c.n(600, 10_000);
    c.run("limits", n, limits);
    let n = c.n(300, 5_000);
    c.run("branches", n, branches);
    let n = c.n(4, 8);
    c.run("senders", n, senders);
    c.finish()
}
