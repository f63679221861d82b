//! The model written as the SDP library's own types.
use crate::{Attr, Doc, Med};
use sip_sdp::*;
use std::collections::HashMap;

pub fn kind(k: &str) -> MediaType {
    match k {
        "audio" => MediaType::Audio,
        "video" => MediaType::Video,
        "text" => MediaType::Text,
        "application" => MediaType::Application,
        "message" => MediaType::Message,
        o => MediaType::Other(o.into()),
    }
}

pub fn proto(k: &str) -> Protocol {
    match k {
        "RTP/AVP" => Protocol::RtpAvp,
        "RTP/SAVP" => Protocol::RtpSavp,
        "RTP/SAVPF" => Protocol::RtpSavpf,
        "UDP/TLS/RTP/SAVPF" => Protocol::UdpTlsRtpSavpf,
        "TCP/TLS/RTP/SAVPF" => Protocol::TcpTlsRtpSavpf,
        "UDP" => Protocol::Udp,
        "TCP" => Protocol::Tcp,
        o => Protocol::Other(o.into()),
    }
}

fn fam(v6: bool) -> AddrType {
    if v6 {
        AddrType::IPv6
    } else {
        AddrType::IPv4
    }
}

fn conn(c: &Option<(bool, String)>) -> Option<Connection> {
    c.as_ref().map(|(v6, a)| Connection { net_type: NetType::Internet, addr_type: fam(*v6), connection_address: a.as_str().into() })
}

fn bws(b: &[(String, u32)]) -> Vec<Bandwidth> {
    b.iter().map(|(t, b)| Bandwidth { bw_type: t.as_str().into(), bandwidth: *b }).collect()
}

pub fn attrs(a: &[Attr]) -> Vec<Attribute> {
    a.iter()
        .map(|(n, v)| match v {
            Some(v) => Attribute::Value { name: n.as_str().into(), value: v.as_str().into() },
            None => Attribute::Property(n.as_str().into()),
        })
        .collect()
}

/// The codecs a list of attributes names, in order, as (payload type, name,
/// rate, parameters).
pub fn codecs(a: &[Attr]) -> Vec<(u8, String, u32, Option<String>)> {
    a.iter()
        .filter(|(n, v)| n == "rtpmap" && v.is_some())
        .filter_map(|(_, v)| {
            let (pt, c) = v.as_ref()?.split_once(' ')?;
            let mut p = c.split('/');
            Some((pt.parse().ok()?, p.next()?.to_string(), p.next()?.parse().ok()?, p.next().map(|s| s.to_string())))
        })
        .collect()
}

pub fn rtpmaps(a: &[Attr]) -> HashMap<u8, RtpMap> {
    codecs(a)
        .into_iter()
        .map(|(pt, n, c, p)| (pt, RtpMap { payload_type: pt, encoding_name: n.into(), clock_rate: c, encoding_params: p.map(Into::into) }))
        .collect()
}

pub fn med(m: &Med) -> MediaDescription {
    MediaDescription {
        media_type: kind(&m.kind),
        port: m.port,
        num_ports: m.nports,
        protocol: proto(&m.proto),
        formats: m.fmts.iter().map(|f| f.as_str().into()).collect(),
        title: m.title.as_deref().map(Into::into),
        connection: conn(&m.conn),
        bandwidth: bws(&m.bw),
        encryption_key: m.key.as_deref().map(Into::into),
        attributes: attrs(&m.attrs),
        rtpmaps: rtpmaps(&m.attrs),
    }
}

pub fn doc(d: &Doc) -> SessionDescription {
    SessionDescription {
        version: 0,
        origin: Origin {
            username: d.user.as_str().into(),
            session_id: d.sid.as_str().into(),
            session_version: d.sver.as_str().into(),
            net_type: NetType::Internet,
            addr_type: fam(d.v6),
            unicast_address: d.addr.as_str().into(),
        },
        session_name: d.name.as_str().into(),
        session_info: d.info.as_deref().map(Into::into),
        uri: d.uri.as_deref().map(Into::into),
        email: d.emails.last().map(|s| s.as_str().into()),
        phone: d.phones.last().map(|s| s.as_str().into()),
        connection: conn(&d.conn),
        bandwidth: bws(&d.bw),
        times: d
            .times
            .iter()
            .map(|t| TimeDescription {
                start_time: t.start,
                stop_time: t.stop,
                repeats: t
                    .repeats
                    .iter()
                    .map(|p| RepeatTime { repeat_interval: p[0].as_str().into(), active_duration: p[1].as_str().into(), offsets: p[2..].iter().map(|s| s.as_str().into()).collect() })
                    .collect(),
            })
            .collect(),
        time_zones: d.zones.iter().map(|(a, b)| TimeZoneAdjustment { adjustment_time: a.to_string().into(), offset: b.as_str().into() }).collect(),
        encryption_key: d.key.as_deref().map(Into::into),
        attributes: attrs(&d.attrs),
        media: d.media.iter().map(med).collect(),
    }
}

/// Every string in a description.
pub fn strings(s: &SessionDescription) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    let mut p = |x: &str| o.push(x.to_string());
    p(&s.origin.username);
    p(&s.origin.session_id);
    p(&s.origin.session_version);
    p(&s.origin.unicast_address);
    p(&s.session_name);
    for x in [&s.session_info, &s.uri, &s.email, &s.phone, &s.encryption_key].into_iter().flatten() {
        p(x);
    }
    let mut at = |a: &[Attribute]| {
        for a in a {
            match a {
                Attribute::Property(n) => p(n),
                Attribute::Value { name, value } => {
                    p(name);
                    p(value);
                }
            }
        }
    };
    at(&s.attributes);
    for m in &s.media {
        at(&m.attributes);
    }
    for c in s.connection.iter().chain(s.media.iter().filter_map(|m| m.connection.as_ref())) {
        o.push(c.connection_address.to_string());
    }
    for b in s.bandwidth.iter().chain(s.media.iter().flat_map(|m| &m.bandwidth)) {
        o.push(b.bw_type.to_string());
    }
    for t in &s.times {
        for r in &t.repeats {
            o.push(r.repeat_interval.to_string());
            o.push(r.active_duration.to_string());
            o.extend(r.offsets.iter().map(|x| x.to_string()));
        }
    }
    for z in &s.time_zones {
        o.push(z.adjustment_time.to_string());
        o.push(z.offset.to_string());
    }
    for m in &s.media {
        o.push(m.media_type.to_string());
        o.push(m.protocol.to_string());
        o.extend(m.formats.iter().map(|f| f.to_string()));
        o.extend(m.title.iter().map(|f| f.to_string()));
        o.extend(m.encryption_key.iter().map(|f| f.to_string()));
    }
    o
}
