//! D05: reliable provisional responses: RAck matching and RSeq numbering.
use h_dialog::*;
use sip_core::Method;
use sip_dialog::prack_validator::{extract_cseq_method, extract_cseq_number, extract_rseq, is_reliable_provisional, PrackValidator, RAck};
use sip_dialog::{DialogId, RSeqManager};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Barrier};
use vmon::{clock, Ctx, Rec, Rng};

#[derive(Clone, Debug)]
struct P {
    rseq: u32,
    cseq: u32,
    method: Method,
    code: u16,
    at: i64,
    done: bool,
    gone: bool,
}

fn prack(r: &mut Rng, rack: Option<&str>) -> sip_core::Request {
    let mut m = Msg {
        first: "PRACK sip:me@h.example.net SIP/2.0".into(),
        from: party(r, "sip:p@p.example", Some("f")),
        to: party(r, "sip:q@q.example", Some("t")),
        call_id: "c@x".into(),
        cseq: "9 PRACK".into(),
        rest: vec![],
    };
    if let Some(x) = rack {
        m.rest.push(("RAck".into(), x.into()));
    }
    m.request(r)
}

fn history(r: &mut Rng, rec: &mut Rec) {
    clock::rewind();
    let v = PrackValidator::new();
    let names: Vec<String> = (0..r.range(1, 3)).map(|i| format!("d{i}-{}", r.alnum(1, 4))).collect();
    let mut m: BTreeMap<String, Vec<P>> = BTreeMap::new();
    let mut next: BTreeMap<String, u32> = names.iter().map(|n| (n.clone(), *r.pick(&[1, 77, 2_147_483_647, 4_000_000_000]))).collect();
    let mut log: Vec<String> = vec![];
    let now = || clock::offset_ns() / 1_000_000_000;
    for _ in 0..r.range(4, 60) {
        let n = r.pick(&names).clone();
        match r.below(12) {
            0..=4 => {
                for _ in 0..if r.chance(1, 8) { 12 } else { 1 } {
                    let q = next.get_mut(&n).unwrap();
                    let rseq = *q;
                    *q = q.wrapping_add(1 + r.below(2) as u32).max(1);
                    let p = P { rseq, cseq: *r.pick(&[1, 2, 314159]), method: r.pick(&[Method::Invite, Method::Invite, Method::Update]).clone(), code: *r.pick(&[180, 183, 199]), at: now(), done: false, gone: false };
                    v.register_reliable_provisional(&n, p.rseq, p.cseq, p.method.clone(), p.code);
                    log.push(format!("{} register {n} {p:?}", now()));
                    m.entry(n.clone()).or_default().push(p);
                }
            }
            5..=8 => {
                let list = m.get(&n).cloned().unwrap_or_default();
                let base = if list.is_empty() || r.chance(1, 10) { P { rseq: r.u32(), cseq: 1, method: Method::Invite, code: 180, at: 0, done: false, gone: false } } else if r.coin() { list[list.len() - 1 - r.below(list.len().min(4))].clone() } else { r.pick(&list).clone() };
                let (mut a, mut b, mut c) = (base.rseq as u64, base.cseq as u64, base.method.as_str().to_string());
                match r.below(8) {
                    0 => a = a.wrapping_add(1),
                    1 => b += 1,
                    2 => c = r.pick(&["BYE", "INVITE", "UPDATE", "PRACK"]).to_string(),
                    3 => a += 1 << 32,
                    _ => {}
                }
                let mut text = match r.below(6) {
                    0 => format!("{a}  {b}\t{c}"),
                    _ => format!("{a} {b} {c}"),
                };
                let mut bad = a > u32::MAX as u64;
                if r.chance(1, 12) {
                    bad = true;
                    text = r.pick(&["", "1", "1 1", "x 1 INVITE", "1 x INVITE", "1 1 INVITE extra", "-1 1 INVITE", "1 1 INVITE;x"]).to_string();
                }
                let q = prack(r, (!text.is_empty()).then_some(text.as_str()));
                let Some(got) = rec.guard("validate_prack", &|| format!("{text} {log:#?}"), || v.validate_prack(&n, &q)) else { return };
                log.push(format!("{} prack {n} {text:?} -> {:?}", now(), got.as_ref().map_err(|e| e.to_string())));
                // Which registration it names.
                let hit = list.iter().position(|p| !bad && p.rseq as u64 == a && p.cseq as u64 == b && p.method.as_str() == c);
                let recent = hit.is_some_and(|i| list.len() - i <= 10);
                let young = hit.is_some_and(|i| now() - list[i].at <= 300);
                let fresh = hit.is_some_and(|i| !list[i].done);
                rec.count(if got.is_ok() { "prack_accepted" } else { "prack_refused" }, 1);
                match &got {
                    Ok(k) => {
                        rec.check(hit.is_some() && fresh, "prack-accepted", || format!("accepted {text:?} naming {:?}; {log:#?}", hit.map(|i| &list[i])));
                        rec.check(k.rseq as u64 == a && k.cseq as u64 == b && k.method.as_str() == c, "prack-returned", || format!("{k:?} for {text}"));
                        if let Some(i) = hit {
                            m.get_mut(&n).unwrap()[i].done = true;
                        }
                    }
                    Err(e) => {
                        rec.check(!(recent && young && fresh), "prack-refused", || format!("refused {text:?} ({e}) although pending; {log:#?}"));
                    }
                }
            }
            9 => {
                let s = *r.pick(&[1i64, 30, 150, 299, 301, 601]);
                clock::advance_ms(s * 1000);
                log.push(format!("advance {s}"));
            }
            10 => {
                let got: Vec<(u32, u16)> = v.get_pending(&n);
                let list = m.get(&n).cloned().unwrap_or_default();
                let must: BTreeSet<(u32, u16)> = list.iter().rev().take(10).filter(|p| !p.done && now() - p.at <= 300).map(|p| (p.rseq, p.code)).collect();
                let may: BTreeSet<(u32, u16)> = list.iter().filter(|p| !p.done).map(|p| (p.rseq, p.code)).collect();
                let set: BTreeSet<_> = got.iter().cloned().collect();
                rec.check(got.len() <= 10 && set.len() == got.len() && must.is_subset(&set) && set.is_subset(&may), "pending", || format!("{got:?} must {must:?} may {may:?}; {log:#?}"));
                // What stays pending after the clean-up time has passed twice is recent.
                if !list.is_empty() {
                    let p = &list[list.len() - 1 - r.below(list.len().min(10))];
                    let done = v.is_pracked(&n, p.rseq);
                    rec.check(!done || (p.done && !p.gone), "is-pracked", || format!("{p:?} reported acknowledged; {log:#?}"));
                    rec.check(done || !p.done || p.gone || now() >= 300, "is-pracked-lost", || format!("{p:?} not reported acknowledged; {log:#?}"));
                }
            }
            _ => {
                if r.coin() {
                    v.remove_dialog(&n);
                    m.remove(&n);
                    log.push(format!("remove dialog {n}"));
                    rec.check(v.get_pending(&n).is_empty(), "removed", || format!("{log:#?}"));
                } else if let Some(l) = m.get_mut(&n) {
                    let i = l.len() - 1 - r.below(l.len().min(4));
                    let p = &mut l[i];
                    v.remove_pracked(&n, p.rseq);
                    // only what was acknowledged is forgotten
                    p.gone |= p.done;
                    log.push(format!("remove_pracked {n} {}", p.rseq));
                }
            }
        }
    }
    // Long afterwards nothing is still pending.
    clock::advance_ms(301_000);
    for n in &names {
        v.get_pending(n);
    }
    clock::advance_ms(301_000);
    for n in &names {
        let got = v.get_pending(n);
        rec.check(got.is_empty(), "stale-pending", || format!("{got:?} pending after more than ten minutes; {log:#?}"));
    }
    rec.eval(Some(&format!("{log:?}")));
    rec.count("steps", log.len() as u64);
    rec.sample(|| format!("{log:?}"));
}

/// Threads deliver the same PRACK: exactly one is taken.
fn race(r: &mut Rng, rec: &mut Rec) {
    let v = Arc::new(PrackValidator::new());
    let threads = r.range(2, 8) as usize;
    let n = r.range(1, 10) as u32;
    for i in 0..n {
        v.register_reliable_provisional("d", 100 + i, 1, Method::Invite, 180);
    }
    let bar = Arc::new(Barrier::new(threads));
    let reqs: Vec<_> = (0..n).map(|i| prack(r, Some(&format!("{} 1 INVITE", 100 + i)))).collect();
    let reqs = Arc::new(reqs);
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (v, bar, reqs) = (v.clone(), bar.clone(), reqs.clone());
            std::thread::spawn(move || {
                bar.wait();
                let k = reqs.len();
                (0..k).map(|i| ((i + t) % k, v.validate_prack("d", &reqs[(i + t) % k]).is_ok())).filter(|x| x.1).map(|x| x.0).collect::<Vec<_>>()
            })
        })
        .collect();
    let mut taken = vec![0; n as usize];
    for h in hs {
        for i in h.join().expect("worker panicked") {
            taken[i] += 1;
        }
    }
    rec.eval(Some(&(threads, n)));
    rec.check(taken.iter().all(|x| *x == 1), "prack-once", || format!("{threads} threads, PRACKs accepted {taken:?} times"));
}

fn rseq(r: &mut Rng, rec: &mut Rec) {
    let m = Arc::new(RSeqManager::new());
    let ids: Vec<DialogId> = (0..r.range(1, 4)).map(|i| DialogId::unchecked_new("c", format!("l{i}"), "r")).collect();
    let mut last: BTreeMap<usize, u32> = BTreeMap::new();
    for _ in 0..r.range(2, 30) {
        let i = r.below(ids.len());
        match r.below(8) {
            0 => {
                m.remove(&ids[i]);
                last.remove(&i);
            }
            1 => {
                rec.check(m.current_rseq(&ids[i]) == last.get(&i).copied(), "current", || format!("{:?} vs {last:?}", m.current_rseq(&ids[i])));
            }
            _ => {
                let n = m.next_rseq(&ids[i]);
                match last.get(&i) {
                    Some(p) => rec.check(n == p + 1, "rseq-step", || format!("{n} after {p}")),
                    None => rec.check((1..=2_147_483_647).contains(&n), "rseq-first", || format!("first RSeq {n}")),
                };
                last.insert(i, n);
            }
        }
        rec.check(m.len() == last.len() && m.is_empty() == last.is_empty(), "rseq-len", || format!("{} vs {last:?}", m.len()));
    }
    rec.eval(Some(&format!("{last:?}")));
    if r.chance(1, 20) {
        // Contended numbering stays gapless and unique.
        let threads = r.range(2, 6) as usize;
        let bar = Arc::new(Barrier::new(threads));
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let (m, bar, id) = (m.clone(), bar.clone(), DialogId::unchecked_new("race", "l", "r"));
                std::thread::spawn(move || {
                    bar.wait();
                    (0..20).map(|_| m.next_rseq(&id)).collect::<Vec<_>>()
                })
            })
            .collect();
        let mut all: Vec<u32> = vec![];
        for h in hs {
            let v = h.join().expect("worker panicked");
            rec.check(v.windows(2).all(|w| w[1] > w[0]), "rseq-order", || format!("{v:?}"));
            all.extend(v);
        }
        all.sort();
        rec.check(all.windows(2).all(|w| w[1] == w[0] + 1), "rseq-unique", || format!("{all:?}"));
        rec.count("rseq_races", 1);
    }
}

fn values(r: &mut Rng, rec: &mut Rec) {
    let (a, b) = (r.u32() >> r.below(32), r.u32() >> r.below(32));
    let meth = *r.pick(&["INVITE", "UPDATE", "BYE", "SUBSCRIBE", "REFER", "INFO", "PRACK"]);
    let t = format!("{a}{}{b}{}{meth}", r.pick(&[" ", "  ", "\t"]), r.pick(&[" ", "  "]));
    match RAck::parse(&t) {
        Ok(k) => {
            rec.check(k.rseq == a && k.cseq == b && k.method.as_str() == meth, "rack-fields", || format!("{k:?} for {t:?}"));
            let s = k.to_string();
            rec.check(RAck::parse(&s).ok().as_ref() == Some(&k) && s == format!("{a} {b} {meth}"), "rack-print", || s.clone());
        }
        Err(e) => rec.violate("rack-parse", format!("{t:?}: {e}")),
    }
    let code = *r.pick(&[100u16, 101, 180, 183, 199, 200, 202, 486]);
    let has = r.coin();
    let mut m = Msg {
        first: format!("SIP/2.0 {code} X"),
        from: party(r, "sip:q@q.example", Some("f")),
        to: party(r, "sip:p@p.example", Some("t")),
        call_id: "c@x".into(),
        cseq: format!("{} {meth}", b.clamp(1, 2_147_483_647)),
        rest: vec![],
    };
    if has {
        m.rest.push(("RSeq".into(), a.to_string()));
    }
    let p = m.response(r);
    rec.eval(Some(&(code, has, meth, a)));
    rec.check(is_reliable_provisional(&p) == ((101..200).contains(&code) && has), "reliable", || format!("{m:?}"));
    rec.check(extract_rseq(&p) == has.then_some(a), "rseq-value", || format!("{m:?}"));
    rec.check(extract_cseq_number(p.headers()) == Some(b.clamp(1, 2_147_483_647)), "cseq-value", || format!("{m:?}"));
    rec.check(extract_cseq_method(p.headers()).map(|x| x.as_str().to_string()) == Some(meth.to_string()), "cseq-method", || format!("{m:?}"));
    let s = r.nasty(0, 40);
    rec.guard("RAck::parse", &|| format!("{s:?}"), || RAck::parse(&s).is_ok());
}

fn main() {
    let mut c = Ctx::new("D05", "a PRACK is accepted exactly once and exactly when its RAck names a pending provisional of that dialog; at most ten pend, none for ever; RSeq starts in range and counts by one");
    if !clock::works() {
        eprintln!("virtual clock does not work here");
        std::process::exit(2);
    }
    c.run("values", c.n(50_000, 800_000), values);
    c.run("rseq", c.n(6_000, 60_000), rseq);
    c.run_on(2, "race", c.n(3_000, 40_000), race);
    clock::freeze();
    c.run_seq("histories", c.n(20_000, 250_000), history);
    c.assume("RSeq numbers registered for one dialog are distinct, as the numbering component hands them out");
    c.finish();
}
