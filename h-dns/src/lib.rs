//! A name server on the loopback interface that answers from a table and
//! records what it was asked.
use std::collections::HashMap;
use std::net::{Ipv4Addr, Ipv6Addr, SocketAddr, UdpSocket};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub enum Rr {
    A(Ipv4Addr),
    Aaaa(Ipv6Addr),
    Srv { prio: u16, weight: u16, port: u16, target: String },
    Naptr { order: u16, pref: u16, flags: String, service: String, regexp: String, replacement: String },
}

impl Rr {
    fn kind(&self) -> u16 {
        match self {
            Rr::A(_) => 1,
            Rr::Aaaa(_) => 28,
            Rr::Srv { .. } => 33,
            Rr::Naptr { .. } => 35,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Trouble {
    None,
    NxDomain,
    ServFail,
    Refused,
    Silence,
}

#[derive(Default)]
pub struct Zone {
    pub records: HashMap<(String, u16), Vec<Rr>>,
    pub trouble: HashMap<(String, u16), Trouble>,
    pub asked: Vec<(String, u16)>,
}

impl Zone {
    pub fn add(&mut self, name: &str, rr: Rr) {
        self.records.entry((name.to_ascii_lowercase(), rr.kind())).or_default().push(rr);
    }
}

pub const A: u16 = 1;
pub const AAAA: u16 = 28;
pub const SRV: u16 = 33;
pub const NAPTR: u16 = 35;

fn name(out: &mut Vec<u8>, n: &str) {
    for l in n.trim_end_matches('.').split('.').filter(|l| !l.is_empty()) {
        out.push(l.len() as u8);
        out.extend_from_slice(l.as_bytes());
    }
    out.push(0);
}

fn chars(out: &mut Vec<u8>, s: &str) {
    out.push(s.len() as u8);
    out.extend_from_slice(s.as_bytes());
}

fn rdata(rr: &Rr) -> Vec<u8> {
    let mut o = vec![];
    match rr {
        Rr::A(a) => o.extend_from_slice(&a.octets()),
        Rr::Aaaa(a) => o.extend_from_slice(&a.octets()),
        Rr::Srv { prio, weight, port, target } => {
            for x in [prio, weight, port] {
                o.extend_from_slice(&x.to_be_bytes());
            }
            name(&mut o, target);
        }
        Rr::Naptr { order, pref, flags, service, regexp, replacement } => {
            o.extend_from_slice(&order.to_be_bytes());
            o.extend_from_slice(&pref.to_be_bytes());
            chars(&mut o, flags);
            chars(&mut o, service);
            chars(&mut o, regexp);
            name(&mut o, replacement);
        }
    }
    o
}

fn answer(q: &[u8], z: &Mutex<Zone>) -> Option<Vec<u8>> {
    if q.len() < 17 {
        return None;
    }
    let mut p = 12;
    let mut labels: Vec<String> = vec![];
    while *q.get(p)? != 0 {
        let n = q[p] as usize;
        labels.push(String::from_utf8_lossy(q.get(p + 1..p + 1 + n)?).into_owned());
        p += n + 1;
    }
    p += 1;
    let t = u16::from_be_bytes([*q.get(p)?, *q.get(p + 1)?]);
    let end = p + 4;
    let key = (labels.join(".").to_ascii_lowercase(), t);
    let mut z = z.lock().unwrap();
    z.asked.push(key.clone());
    let trouble = z.trouble.get(&key).copied().unwrap_or(Trouble::None);
    let rcode = match trouble {
        Trouble::Silence => return None,
        Trouble::None => 0,
        Trouble::NxDomain => 3,
        Trouble::ServFail => 2,
        Trouble::Refused => 5,
    };
    let empty = vec![];
    let rrs = if rcode == 0 { z.records.get(&key).unwrap_or(&empty) } else { &empty };
    let mut o = q[..2].to_vec();
    o.extend_from_slice(&[0x85, 0x80 | rcode, 0, 1]);
    o.extend_from_slice(&(rrs.len() as u16).to_be_bytes());
    o.extend_from_slice(&[0, if rrs.is_empty() { 1 } else { 0 }, 0, 0]);
    o.extend_from_slice(q.get(12..end)?);
    for r in rrs {
        o.extend_from_slice(&[0xc0, 12]);
        o.extend_from_slice(&r.kind().to_be_bytes());
        o.extend_from_slice(&[0, 1, 0, 0, 14, 16]);
        let d = rdata(r);
        o.extend_from_slice(&(d.len() as u16).to_be_bytes());
        o.extend_from_slice(&d);
    }
    if rrs.is_empty() {
        // Authority for the negative answer.
        o.extend_from_slice(&[0, 0, 6, 0, 1, 0, 0, 14, 16]);
        let mut d = vec![];
        name(&mut d, "ns.example");
        name(&mut d, "who.example");
        for x in [1u32, 3600, 600, 86400, 3600] {
            d.extend_from_slice(&x.to_be_bytes());
        }
        o.extend_from_slice(&(d.len() as u16).to_be_bytes());
        o.extend_from_slice(&d);
    }
    Some(o)
}

pub struct Server {
    pub addr: SocketAddr,
    pub zone: Arc<Mutex<Zone>>,
}

pub fn serve() -> Server {
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let addr = s.local_addr().unwrap();
    let zone = Arc::new(Mutex::new(Zone::default()));
    let z = zone.clone();
    std::thread::spawn(move || {
        let mut b = [0u8; 4096];
        while let Ok((n, from)) = s.recv_from(&mut b) {
            if let Some(a) = answer(&b[..n], &z) {
                let _ = s.send_to(&a, from);
            }
        }
    });
    Server { addr, zone }
}
