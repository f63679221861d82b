//! P01/P02: forked requests. Whatever the branches answer, in whatever order and however
//! much at once, the caller gets what RFC 3261 section 16.7 lets it have, and the
//! branches that lost are cancelled.
use h_net::*;
use sip_core::{Request, Response, SipUri};
use sip_proxy::service::ProxyService;
use sip_proxy::stateful::{forwarding, BranchInfo, BranchState, ForkMode, ProxyContext, ProxyTarget};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::time::Instant;
use vmon::{Ctx, Rec, Rng};

const TIMER_C: u64 = 180_000;

fn list(h: &sip_core::Headers, name: &str) -> Vec<String> {
    h.get_all(name).flat_map(values).collect()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum B {
    Trying,
    Proceeding,
    Done,
    Cancelled,
}

struct Branch {
    id: String,
    target: String,
    via: Vec<String>,
    st: B,
    c: Option<u64>,
}

#[derive(Clone)]
struct Got {
    id: String,
    code: u16,
    branch: usize,
    challenges: BTreeSet<(String, String)>,
}

/// What the rules of section 16.7 give.
#[derive(Default)]
struct Model {
    branches: Vec<Branch>,
    invite: bool,
    decided: bool,
    won: bool,
    six: bool,
    finals: Vec<Got>,
}

enum Due {
    Nothing,
    This,
    /// One of the lowest class received.
    Best,
}

impl Model {
    fn response(&mut self, now: u64, g: &Got) -> (Due, Vec<usize>) {
        let b = &mut self.branches[g.branch];
        let two = g.code / 100 == 2;
        if g.code < 200 {
            if matches!(b.st, B::Done | B::Cancelled) {
                return (Due::Nothing, vec![]);
            }
            if b.st == B::Trying || g.code > 100 {
                b.c = Some(now + TIMER_C);
            }
            b.st = B::Proceeding;
            return (if g.code > 100 && !self.decided { Due::This } else { Due::Nothing }, vec![]);
        }
        if b.st == B::Done && !(two && self.invite) {
            return (Due::Nothing, vec![]);
        }
        b.st = B::Done;
        b.c = None;
        if self.decided {
            // no further target is tried once somebody has accepted
            self.won |= two;
            return (if two && self.invite { Due::This } else { Due::Nothing }, vec![]);
        }
        self.finals.push(g.clone());
        if two || g.code >= 600 {
            self.decided = true;
            self.won = two;
            self.six = !two;
            let mut lost = vec![];
            for (i, b) in self.branches.iter_mut().enumerate() {
                if b.st != B::Done {
                    b.st = B::Cancelled;
                    b.c = None;
                    lost.push(i);
                }
            }
            return (Due::This, if self.invite { lost } else { vec![] });
        }
        if self.branches.iter().all(|b| b.st == B::Done) {
            self.decided = true;
            return (Due::Best, vec![]);
        }
        (Due::Nothing, vec![])
    }
    fn timer(&self) -> Option<(u64, usize)> {
        self.branches.iter().enumerate().filter_map(|(i, b)| b.c.map(|c| (c, i))).min()
    }
}

fn original(r: &mut Rng, method: &str) -> Request {
    let mut t = format!("{method} sip:bob@b.example SIP/2.0\r\n");
    let mut vias = vec![format!("SIP/2.0/UDP client.example:5060;branch=z9hG4bK{}", r.alnum(4, 12))];
    for i in 0..r.below(3) {
        vias.push(format!("SIP/2.0/TCP hop{i}.example;branch=z9hG4bK{};received=192.0.2.{i}", r.alnum(3, 9)));
    }
    t += &lines(r, "Via", &vias);
    t += "Max-Forwards: 70\r\nFrom: <sip:alice@a.example>;tag=at\r\nTo: <sip:bob@b.example>\r\n";
    t += &format!("Call-ID: {}\r\nCSeq: {}{}{method}\r\nContact: <sip:alice@192.0.2.9>\r\n", r.alnum(5, 15), r.ur(1, 100000), if r.chance(1, 5) { "  " } else { " " });
    for i in 0..r.below(3) {
        t += &format!("Route: <sip:next{i}.example;lr>\r\n");
    }
    if r.chance(1, 3) {
        t += "Require: 100rel\r\nProxy-Require: sec-agree\r\n";
    }
    if method == "INVITE" && r.coin() {
        t += "Content-Type: application/sdp\r\nContent-Length: 5\r\n\r\nv=0\r\n";
    } else {
        t += "Content-Length: 0\r\n\r\n";
    }
    request(&t)
}

fn answer(r: &mut Rng, req: &Request, vias: &[String], code: u16, id: &str, challenges: &BTreeSet<(String, String)>) -> Response {
    let mut t = format!("SIP/2.0 {code} Whatever\r\n");
    t += &lines(r, "Via", vias);
    t += &format!("From: {}\r\nTo: {};tag=x{id}\r\nCall-ID: {}\r\nCSeq: {}\r\nX-Id: {id}\r\n", req.headers().get("From").unwrap(), req.headers().get("To").unwrap(), req.headers().get("Call-ID").unwrap(), req.headers().get("CSeq").unwrap());
    for (n, v) in challenges {
        t += &format!("{n}: {v}\r\n");
    }
    response(&(t + "Content-Length: 0\r\n\r\n"))
}

fn challenges(h: &sip_core::Headers) -> Vec<(String, String)> {
    let mut all = vec![];
    for n in ["WWW-Authenticate", "Proxy-Authenticate"] {
        all.extend(h.get_all(n).map(|v| (n.to_string(), v.to_string())));
    }
    all.sort();
    all
}

fn some_challenges(r: &mut Rng, code: u16) -> BTreeSet<(String, String)> {
    let mut c = BTreeSet::new();
    if code == 401 || code == 407 || r.chance(1, 10) {
        for _ in 0..r.below(3) {
            c.insert((r.pick(&["WWW-Authenticate", "Proxy-Authenticate"]).to_string(), format!("Digest realm=\"r{}\", nonce=\"{}\"", r.below(3), r.below(3))));
        }
    }
    c
}

fn ident(resp: &Response) -> String {
    resp.headers().get("X-Id").map(str::to_string).unwrap_or_else(|| format!("own {}", resp.code()))
}

struct Call<'a> {
    svc: &'a ProxyService,
    ctx: Arc<ProxyContext>,
    req: Request,
    m: Model,
    host: String,
    cancelled: BTreeSet<usize>,
    script: Vec<String>,
}

impl Call<'_> {
    fn judge(&mut self, rec: &mut Rec, prop: &str, g: &Got, due: Due, out: Option<&Response>) {
        let script = || self.script.join(" | ");
        let want = match due {
            Due::Nothing => None,
            Due::This => Some(vec![g.id.clone()]),
            Due::Best => {
                let low = self.m.finals.iter().map(|f| f.code / 100).min().unwrap();
                Some(self.m.finals.iter().filter(|f| f.code / 100 == low).map(|f| f.id.clone()).collect())
            }
        };
        let got = out.map(ident);
        let ok = match (&want, &got) {
            (None, None) => true,
            (Some(w), Some(g)) => w.contains(g),
            _ => false,
        };
        rec.check(ok, &format!("{prop} {} {}", if want.is_some() { "due" } else { "undue" }, g.code / 100), || format!("forwarded {got:?}, due {want:?}\n    {}", script()));
        let Some(out) = out else { return };
        // on its way back it passes the hops the request came over
        let sent = forwarding::prepare_response(out);
        rec.check(list(sent.headers(), "Via") == list(self.req.headers(), "Via"), "way back", || format!("forwarded response {} has Vias {:?}, the request had {:?}\n    {}", ident(out), list(sent.headers(), "Via"), list(self.req.headers(), "Via"), script()));
        for n in ["From", "Call-ID", "CSeq"] {
            rec.check(sent.headers().get(n) == self.req.headers().get(n), "echo", || format!("{n} of forwarded response is {:?}\n    {}", sent.headers().get(n), script()));
        }
        if matches!(due, Due::Best) && (out.code() == 401 || out.code() == 407) {
            let want: BTreeSet<_> = self.m.finals.iter().filter(|f| f.code == 401 || f.code == 407).flat_map(|f| f.challenges.clone()).collect();
            let want: Vec<_> = want.into_iter().collect();
            rec.check(challenges(out.headers()) == want, "challenges", || format!("challenges forwarded {:?}, received {want:?}\n    {}", challenges(out.headers()), script()));
        } else if let Some(f) = self.m.finals.iter().find(|f| f.id == ident(out)) {
            let want: Vec<_> = f.challenges.iter().cloned().collect();
            rec.check(challenges(out.headers()) == want, "challenges", || format!("challenges forwarded {:?}, its own were {want:?}\n    {}", challenges(out.headers()), script()));
        }
    }

    fn cancels(&mut self, rec: &mut Rec, got: &[Request], want: &[usize]) {
        let script = self.script.join(" | ");
        let mut branches = vec![];
        for c in got {
            let vias = list(c.headers(), "Via");
            let at = self.m.branches.iter().position(|b| vias.iter().any(|v| v.contains(&b.id)));
            rec.check(at.is_some() && vias == [self.m.branches[at.unwrap_or(0)].via[0].replace(";rport", "")] || at.is_some() && vias == [self.m.branches[at.unwrap_or(0)].via[0].clone()], "cancel via", || format!("CANCEL has Vias {vias:?}\n    {script}"));
            let Some(at) = at else { continue };
            branches.push(at);
            let h = c.headers();
            let o = self.req.headers();
            let seq = o.get("CSeq").unwrap().split_whitespace().next().unwrap();
            let good = c.method().as_str() == "CANCEL"
                && c.uri().as_str() == self.m.branches[at].target
                && h.get("CSeq").map(|v| v.split_whitespace().collect::<Vec<_>>()) == Some(vec![seq, "CANCEL"])
                && ["From", "To", "Call-ID"].iter().all(|n| h.get(n) == o.get(n))
                && list(h, "Route") == list(o, "Route")
                && h.get("Require").is_none()
                && h.get("Proxy-Require").is_none()
                && c.body().is_empty()
                && h.get("Content-Type").is_none();
            rec.check(good, "cancel form", || format!("CANCEL for {} is {c:?}\n    {script}", self.m.branches[at].target));
        }
        branches.sort();
        let again = branches.iter().any(|b| !self.cancelled.insert(*b)) || branches.windows(2).any(|w| w[0] == w[1]);
        rec.check(!again && branches == want, "cancels", || format!("branches cancelled {branches:?}, due {want:?}\n    {script}"));
    }
}

fn pick_code(r: &mut Rng) -> u16 {
    match r.below(10) {
        0 => 100,
        1 | 2 => *r.pick(&[180u16, 181, 183, 199]),
        3 => *r.pick(&[200u16, 202]),
        4 => *r.pick(&[600u16, 603, 604]),
        5 => *r.pick(&[401u16, 407]),
        6 => *r.pick(&[500u16, 503, 580]),
        7 => *r.pick(&[300u16, 302]),
        _ => *r.pick(&[404u16, 408, 480, 486, 487]),
    }
}

fn history(r: &mut Rng, rec: &mut Rec) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let mut inner = Rec::default();
    let out = rec.guard("history", &|| "a forked call".into(), || rt.block_on(play(r, &mut inner)));
    rec.merge(inner);
    if let Some(s) = out {
        rec.sample(|| s);
    }
}

async fn play(r: &mut Rng, rec: &mut Rec) -> String {
    let svc = ProxyService::new();
    let method = *r.pick(&["INVITE", "INVITE", "INVITE", "MESSAGE", "OPTIONS"]);
    let req = original(r, method);
    let n = 1 + r.below(5);
    let mode = *r.pick(&[ForkMode::Parallel, ForkMode::Parallel, ForkMode::Sequential, ForkMode::None]);
    let host = r.pick(&["proxy.example.com", "192.0.2.77:5070", "[2001:db8::7]"]).to_string();
    let mut targets = vec![];
    for i in 0..n {
        targets.push(ProxyTarget::new(SipUri::parse(&format!("sip:t{i}@192.0.2.{i}:5060")).unwrap()).with_priority(r.below(2) as u32).with_q_value(r.below(4) as f32 * 0.25));
    }
    let begin = Instant::now();
    let (ctx, mut rx, forwarded) = svc.start_forking(req.clone(), targets.clone(), &host, "UDP", false, None, mode).await.unwrap();
    let mut want: Vec<String> = targets.iter().map(|t| t.uri().as_str().to_string()).collect();
    match mode {
        ForkMode::Sequential => {
            let first = targets.iter().map(|t| (t.priority(), (-t.q_value() * 100.0) as i64)).min().unwrap();
            want.retain(|u| targets.iter().any(|t| t.uri().as_str() == u && (t.priority(), (-t.q_value() * 100.0) as i64) == first));
            want.truncate(1);
        }
        ForkMode::None => want.truncate(1),
        ForkMode::Parallel => {}
    }
    let got: Vec<String> = forwarded.iter().map(|(_, q)| q.uri().as_str().to_string()).collect();
    rec.check(got == want, "targets", || format!("{mode:?} of {:?}: forwarded to {got:?}, due {want:?}", targets.iter().map(|t| (t.uri().as_str().to_string(), t.priority(), t.q_value())).collect::<Vec<_>>()));
    let mut m = Model { invite: method == "INVITE", ..Model::default() };
    for (id, q) in &forwarded {
        m.branches.push(Branch { id: id.to_string(), target: q.uri().as_str().into(), via: list(q.headers(), "Via"), st: B::Trying, c: None });
    }
    let mut call = Call { svc: &svc, ctx, req, m, host, cancelled: BTreeSet::new(), script: vec![format!("{method} to {}", forwarded.len())] };
    let mut now = 0u64;
    let mut seq = 0;
    let mut shape = String::new();
    for _ in 0..4 + r.below(16) {
        // time
        let step = match r.below(8) {
            0 => r.ur(100_000, 300_000),
            1 => r.ur(150_000, 200_000),
            _ => r.ur(10, 5_000),
        };
        let mut to = now + step;
        // keep clear of what falls due
        while call.m.branches.iter().any(|b| b.c.is_some_and(|c| c.abs_diff(to) < 50)) {
            to += 100;
        }
        while let Some((at, i)) = call.m.timer().filter(|t| t.0 < to) {
            // several of the same moment come in either order
            let ties = call.m.branches.iter().filter(|b| b.c.is_some_and(|c| c.abs_diff(at) < 50)).count();
            let mut outs = vec![];
            let mut dues = vec![];
            tokio::time::sleep_until(begin + Duration::from_millis(at + 40)).await;
            let mut which: Vec<usize> = call.m.branches.iter().enumerate().filter(|(_, b)| b.c.is_some_and(|c| c.abs_diff(at) < 50)).map(|(i, _)| i).collect();
            which.sort_by_key(|i| call.m.branches[*i].c);
            let _ = (ties, i);
            for i in which {
                let g = Got { id: "own 408".into(), code: 408, branch: i, challenges: BTreeSet::new() };
                call.script.push(format!("{at} timer C of {i}"));
                shape += &format!("C{i}");
                let (due, lost) = call.m.response(at, &g);
                assert!(lost.is_empty());
                dues.push((g, due));
            }
            while let Ok(x) = rx.try_recv() {
                outs.push(x);
            }
            let mut outs = outs.into_iter();
            for (g, due) in dues {
                let out = if matches!(due, Due::Nothing) { None } else { outs.next() };
                call.judge(rec, "timer", &g, due, out.as_ref());
            }
            let over: Vec<String> = outs.map(|x| ident(&x)).collect();
            rec.check(over.is_empty(), "timer undue", || format!("also sent {over:?}\n    {}", call.script.join(" | ")));
        }
        now = to;
        tokio::time::sleep_until(begin + Duration::from_millis(now)).await;
        let mut over = vec![];
        while let Ok(x) = rx.try_recv() {
            over.push(ident(&x));
        }
        rec.check(over.is_empty(), "timer undue", || format!("at {now} sent {over:?}\n    {}", call.script.join(" | ")));
        // an event
        let nb = call.m.branches.len();
        let i = r.below(nb);
        match r.below(14) {
            0 => {
                call.script.push(format!("{now} no transport for {i}"));
                shape += &format!("x{i}");
                let g = Got { id: "own 503".into(), code: 503, branch: i, challenges: BTreeSet::new() };
                let (due, lost) = if matches!(call.m.branches[i].st, B::Trying | B::Proceeding) { call.m.response(now, &g) } else { (Due::Nothing, vec![]) };
                assert!(lost.is_empty());
                let out = call.ctx.report_transport_error(&call.m.branches[i].id.clone()).await;
                let echoed = rx.try_recv().ok();
                rec.check(out.as_ref().map(ident) == echoed.as_ref().map(ident), "timer undue", || format!("transport error gave {:?}, and on the channel {:?}", out.as_ref().map(ident), echoed.as_ref().map(ident)));
                call.judge(rec, "transport", &g, due, out.as_ref());
            }
            1 if !call.m.won && nb < 8 => {
                let id = format!("z9hG4bKmore{seq}q");
                seq += 1;
                let target = format!("sip:more{seq}@192.0.2.99");
                let via = vec![format!("SIP/2.0/UDP {};branch={id};rport", call.host)];
                let b = BranchInfo::new(id.clone(), SipUri::parse(&target).unwrap(), std::time::Instant::now(), BranchState::Trying).unwrap();
                let r = call.ctx.add_branch(b).await;
                call.script.push(format!("{now} further target: {}", r.is_ok()));
                shape += "+";
                rec.check(r.is_ok() != call.m.six, "further", || format!("further target {}\n    {}", r.is_ok(), call.script.join(" | ")));
                if r.is_ok() {
                    call.m.decided = false;
                    let mut via = via;
                    via.extend(list(call.req.headers(), "Via"));
                    call.m.branches.push(Branch { id, target, via, st: B::Trying, c: None });
                }
            }
            2 if r.coin() => {
                let v = vec!["SIP/2.0/UDP h;branch=z9hG4bKnobody".to_string()];
                let resp = answer(r, &call.req, &v, 200, "nobody", &BTreeSet::new());
                let a = call.svc.handle_branch_response(&call.ctx, "z9hG4bKnobody", resp).await;
                rec.check(a.forward().is_none() && a.cancels().is_empty(), "nobody", || "a response of no branch was forwarded".into());
            }
            _ => {
                let code = pick_code(r);
                seq += 1;
                let g = Got { id: format!("r{seq}"), code, branch: i, challenges: some_challenges(r, code) };
                call.script.push(format!("{now} {i} answers {code} ({})", g.id));
                shape += &format!("{i}:{} ", code / 100);
                let vias = call.m.branches[i].via.clone();
                let resp = answer(r, &call.req, &vias, code, &g.id, &g.challenges);
                let (due, lost) = call.m.response(now, &g);
                let a = call.svc.handle_branch_response(&call.ctx, &call.m.branches[i].id.clone(), resp).await;
                call.judge(rec, "response", &g, due, a.forward().map(|f| f.response()));
                call.cancels(rec, a.cancels(), &lost);
            }
        }
        let states = call.m.decided;
        rec.eval(Some(&(shape.clone(), states)));
    }
    call.script.join(" | ")
}

// ---- all at once ----------------------------------------------------------------

fn at_once(r: &mut Rng, rec: &mut Rec) {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_time().build().unwrap();
    let svc = Arc::new(ProxyService::new());
    for _ in 0..25 {
        let method = *r.pick(&["INVITE", "INVITE", "MESSAGE"]);
        let req = original(r, method);
        let n = 2 + r.below(6);
        let kinds = *r.pick(&[[404u16, 486, 500], [404, 302, 503], [404, 200, 486], [603, 404, 500], [603, 200, 404], [200, 200, 404], [401, 407, 401]]);
        // what each branch sends, in order
        let plan: Vec<Vec<(u16, String, BTreeSet<(String, String)>)>> = (0..n)
            .map(|i| {
                let mut v = vec![];
                for j in 0..r.below(3) {
                    v.push((*r.pick(&[100u16, 180, 183]), format!("p{i}.{j}"), BTreeSet::new()));
                }
                let code = *r.pick(&kinds);
                v.push((code, format!("f{i}"), some_challenges(r, code)));
                if r.chance(1, 3) {
                    v.push(v.last().unwrap().clone());
                }
                v
            })
            .collect();
        let targets: Vec<ProxyTarget> = (0..n).map(|i| ProxyTarget::new(SipUri::parse(&format!("sip:t{i}@192.0.2.{i}")).unwrap())).collect();
        let log = Arc::new(Mutex::new((vec![], vec![])));
        let (ctx, _rx, forwarded) = rt.block_on(svc.start_forking(req.clone(), targets, "p.example", "UDP", false, None, ForkMode::Parallel)).unwrap();
        let mut work = vec![];
        for (i, (branch, q)) in forwarded.iter().enumerate() {
            let vias = list(q.headers(), "Via");
            let resp: Vec<Response> = plan[i].iter().map(|(c, id, ch)| answer(r, &req, &vias, *c, id, ch)).collect();
            work.push((branch.clone(), resp));
        }
        let gate = Arc::new(tokio::sync::Barrier::new(n));
        rt.block_on(async {
            let mut hs = vec![];
            for (branch, resp) in work {
                let (svc, ctx, log, gate) = (svc.clone(), ctx.clone(), log.clone(), gate.clone());
                hs.push(tokio::spawn(async move {
                    gate.wait().await;
                    for x in resp {
                        let a = svc.handle_branch_response(&ctx, &branch, x).await;
                        let mut l = log.lock().unwrap();
                        if let Some(f) = a.forward() {
                            l.0.push(f.response().clone());
                        }
                        for c in a.cancels() {
                            l.1.push(c.headers().get("Via").unwrap().to_string());
                        }
                    }
                }));
            }
            for h in hs {
                h.await.unwrap();
            }
        });
        let l = log.lock().unwrap();
        let finals: Vec<&Response> = l.0.iter().filter(|x| x.code() >= 200).collect();
        let all: Vec<(u16, String)> = plan.iter().flatten().filter(|p| p.0 >= 200).map(|p| (p.0, p.1.clone())).collect();
        let show = || format!("{method} branches {:?} gave {:?}", plan.iter().map(|b| b.iter().map(|p| p.0).collect::<Vec<_>>()).collect::<Vec<_>>(), l.0.iter().map(|x| (x.code(), ident(x))).collect::<Vec<_>>());
        let twos: Vec<&String> = all.iter().filter(|a| a.0 / 100 == 2).map(|a| &a.1).collect();
        let got: Vec<(u16, String)> = finals.iter().map(|x| (x.code(), ident(x))).collect();
        let other = got.iter().filter(|g| g.0 / 100 != 2).count();
        let six = all.iter().any(|a| a.0 >= 600);
        if method == "INVITE" {
            let mut a: Vec<&String> = got.iter().filter(|g| g.0 / 100 == 2).map(|g| &g.1).collect();
            let mut b = twos.clone();
            a.sort();
            b.sort();
            rec.check(a == b, "at once 2xx", show);
        } else {
            rec.check(got.len() == 1, "at once single", show);
        }
        rec.check(other <= 1 && !got.is_empty(), "at once single", show);
        if twos.is_empty() && !six {
            let low = all.iter().map(|a| a.0 / 100).min().unwrap();
            rec.check(got.len() == 1 && got[0].0 / 100 == low, "at once best", show);
            if got.len() == 1 && (got[0].0 == 401 || got[0].0 == 407) {
                let want: BTreeSet<_> = plan.iter().flatten().filter(|p| p.0 == 401 || p.0 == 407).flat_map(|p| p.2.clone()).collect();
                rec.check(challenges(finals[0].headers()) == want.into_iter().collect::<Vec<_>>(), "at once challenges", show);
            }
        } else {
            // anything else that may go out is the 6xx
            rec.check(got.iter().all(|g| g.0 / 100 == 2 || g.0 >= 600), "at once best", show);
        }
        rec.check(l.0.iter().all(|x| x.code() != 100), "at once 100", show);
        let set: BTreeSet<&String> = l.1.iter().collect();
        rec.check(set.len() == l.1.len(), "at once cancels", || format!("{}\n    cancels {:?}", show(), l.1));
        rec.check(method == "INVITE" || l.1.is_empty(), "at once cancels", || format!("{}\n    cancels {:?}", show(), l.1));
        rec.eval(Some(&l.0.iter().map(|x| ident(x)).collect::<Vec<_>>()));
        rec.sample(show);
    }
}

// ---- many calls, one after the other ------------------------------------------------

fn many(r: &mut Rng, rec: &mut Rec) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    let svc = ProxyService::new();
    let mut seen = BTreeMap::new();
    rt.block_on(async {
        for i in 0..11_000u32 {
            let text = format!("MESSAGE sip:b@b.example SIP/2.0\r\nVia: SIP/2.0/UDP c.example;branch=z9hG4bK{i}x{}\r\nMax-Forwards: {}\r\nFrom: <sip:a@a>;tag=1\r\nTo: <sip:b@b>\r\nCall-ID: c{i}\r\nCSeq: 1 MESSAGE\r\nContent-Length: 0\r\n\r\n", r.u32(), if i % 7 == 0 { 0 } else { 9 });
            let req = request(&text);
            let n = if i % 11 == 0 { 60 } else { 1 + (i % 3) as usize };
            let targets = (0..n).map(|j| ProxyTarget::new(SipUri::parse(&format!("sip:t{j}@h.example")).unwrap())).collect();
            let res = svc.start_forking(req.clone(), targets, "p.example", "UDP", false, None, ForkMode::Parallel).await;
            let due = i % 7 != 0 && n <= 50;
            *seen.entry((due, res.is_ok())).or_insert(0u32) += 1;
            rec.check(res.is_ok() == due, "many", || format!("request {i} of {n} targets, Max-Forwards {}: {:?}", if i % 7 == 0 { 0 } else { 9 }, res.as_ref().err().map(|e| e.to_string())));
            let Ok((ctx, _rx, fw)) = res else { continue };
            let mut out = 0;
            for (b, q) in &fw {
                let resp = answer(r, &req, &list(q.headers(), "Via"), 404, "x", &BTreeSet::new());
                out += svc.handle_branch_response(&ctx, b, resp).await.forward().is_some() as u32;
            }
            rec.check(out == 1, "many", || format!("request {i} was answered {out} times"));
            rec.eval(Some(&(i % 77)));
        }
    });
    rec.sample(|| format!("{seen:?}"));
}

fn main() {
    let mut ctx = Ctx::new("P01", "a forked request is answered as RFC 3261 16.7 has it, and the branches that lost are cancelled");
    let n = ctx.n(60_000, 1_500_000);
    ctx.run("histories", n, history);
    let n = ctx.n(120, 3_000);
    ctx.run_on(3, "at once", n, at_once);
    ctx.run("many", 1, many);
    ctx.assume("CANCELs before any provisional response are left to the transaction layer; Timer C answers without a CANCEL of its own");
    ctx.finish();
}
