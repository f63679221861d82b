//! Common parts of the network monitors.
use bytes::Bytes;
use sip_core::{Request, Response};

pub fn request(text: &str) -> Request {
    sip_parse::parse_request(&Bytes::from(text.to_string())).unwrap_or_else(|| panic!("harness request does not parse: {text:?}"))
}

pub fn response(text: &str) -> Response {
    sip_parse::parse_response(&Bytes::from(text.to_string())).unwrap_or_else(|| panic!("harness response does not parse: {text:?}"))
}

/// The values of a header line: it may hold several, separated by commas.
pub fn values(line: &str) -> Vec<String> {
    let (mut q, mut esc, mut angle) = (false, false, false);
    let mut out = vec![String::new()];
    for c in line.chars() {
        match c {
            _ if esc => esc = false,
            '\\' if q => esc = true,
            '"' => q = !q,
            '<' if !q => angle = true,
            '>' if !q => angle = false,
            ',' if !q && !angle => {
                out.push(String::new());
                continue;
            }
            _ => {}
        }
        out.last_mut().unwrap().push(c);
    }
    out.into_iter().map(|s| s.trim().to_string()).collect()
}

/// Header lines for some values: one each, or several on a line.
pub fn lines(r: &mut vmon::Rng, name: &str, values: &[String]) -> String {
    let mut t = String::new();
    let mut i = 0;
    while i < values.len() {
        t += name;
        t += ": ";
        t += &values[i];
        i += 1;
        while i < values.len() && r.chance(1, 3) {
            t += *r.pick(&[", ", ",", " , "]);
            t += &values[i];
            i += 1;
        }
        t += "\r\n";
    }
    t
}
